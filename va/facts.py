"""Path facts: literals, interval bounds on linear forms, and simplification under them."""
from term import *
from term import _p, _up
import seqs

INF = float("inf")


def split(p):
    """p = L + c with L sign-normalised; returns (L, sign, c)  p == sign*L + c"""
    if p.op == "int":
        return None, 1, p.a[0]
    if p.op == "poly":
        d = {m: c for c, m in p.a[0]}
        c = d.pop((), 0)
        lead = p.a[0][-1][0]
        s = 1
        if lead < 0:
            s = -1
            d = {m: -x for m, x in d.items()}
        return _up(d), s, c
    return p, 1, 0


_mons = {}


def mons(p):
    r = _mons.get(p)
    if r is None:
        r = frozenset(m for _, m in p.a[0] if m) if p.op == "poly" else frozenset([(p,)]) if p.op != "int" else frozenset()
        _mons[p] = r
    return r


class Facts:
    __slots__ = ("lits", "bounds", "excl", "lts", "dead", "memo", "rmemo")

    def __init__(self, o=None):
        if o is None:
            self.lits, self.bounds, self.excl, self.lts, self.dead = {}, {}, {}, [], False
        else:
            self.lits = dict(o.lits)
            self.bounds = dict(o.bounds)
            self.excl = dict(o.excl)
            self.lts = list(o.lts)
            self.dead = o.dead
        self.memo = {}
        self.rmemo = {}

    def copy(self):
        return Facts(self)

    # interval of a term under the facts
    def irng(self, t, depth=0):
        if t.op == "int":
            return t.a[0], t.a[0]
        m = self.rmemo.get(t)
        if m is not None and m[0] <= depth:
            return m[1]
        r = self._irng(t, depth)
        self.rmemo[t] = (depth, r)
        return r

    def _irng(self, t, depth):
        r = rng(t)
        L, s, c = split(t)
        b = self.bounds.get(L)
        if b:
            lo, hi = (b[0] + c, b[1] + c) if s > 0 else (c - b[1], c - b[0])
            r = (max(r[0], lo), min(r[1], hi))
        if t.op == "poly":
            lo = hi = 0
            for cf, m in t.a[0]:
                l = h = 1
                for f in m:
                    fl, fh = self.irng(f, depth + 1)
                    vs = [_m(l, fl), _m(l, fh), _m(h, fl), _m(h, fh)]
                    l, h = min(vs), max(vs)
                l, h = _m(l, cf), _m(h, cf)
                if l > h:
                    l, h = h, l
                lo += l
                hi += h
            r = (max(r[0], lo), min(r[1], hi))
        elif t.op in ("ite",) and depth < 4:
            a, b = self.irng(t.a[1], depth + 1), self.irng(t.a[2], depth + 1)
            r = (max(r[0], min(a[0], b[0])), min(r[1], max(a[1], b[1])))
        elif t.op == "div" and depth < 6:
            a, b = self.irng(t.a[0], depth + 1), self.irng(t.a[1], depth + 1)
            if a[0] >= 0 and b[0] >= 1:
                r = (max(r[0], 0 if b[1] == INF else a[0] // b[1]), min(r[1], a[1] if a[1] == INF else a[1] // b[0]))
                if t.a[0].op == "poly" and t.a[1].op != "int":
                    q = _p(t.a[0])
                    cf = q.pop((t.a[1],), 0)
                    if cf > 0:
                        h2 = self.irng(_up(q), depth + 1)[1]
                        if h2 != INF:
                            r = (r[0], min(r[1], max(h2, 0) // b[0] + cf))
        elif t.op == "ftoi" and depth < 6:
            l, h = self.frng(t.a[1], depth + 1)
            if l >= 0:
                r = (max(r[0], 0), min(r[1], INF if h == INF else int(h * (1 + 1e-9)) + 1))
        elif t.op in ("min", "max") and depth < 6:
            a, b = self.irng(t.a[0], depth + 1), self.irng(t.a[1], depth + 1)
            f = min if t.op == "min" else max
            r = (max(r[0], f(a[0], b[0])), min(r[1], f(a[1], b[1])))
        return r

    def frng(self, t, depth):
        """interval of a floating-point term (only non-negative factors)"""
        if t.op == "flt":
            v = fval(t)
            return (v, v) if v == v else (-INF, INF)
        if t.op == "itof":
            return self.irng(t.a[1], depth + 1)
        if t.op == "round":
            l, h = self.frng(t.a[0], depth + 1)
            return max(l - 1, 0) if l >= 0 else l - 1, h + 1
        if t.op == "fmul":
            (a, b), (c, d) = self.frng(t.a[0], depth + 1), self.frng(t.a[1], depth + 1)
            if a >= 0 and c >= 0:
                return 0, _m(b, d)
        return -INF, INF

    def add(self, c):
        """assume boolean term c"""
        self.memo = {}
        self.rmemo = {}
        if c is TRUE or self.dead:
            return
        if c is FALSE:
            self.dead = True
            return
        s = self.simp(c)
        if s is FALSE:
            self.dead = True
            return
        if s is TRUE:
            return
        n = len(self.lts)
        self._add(s)
        self.memo = {}
        self.rmemo = {}
        if not self.dead and len(self.lts) > n:
            at = set()
            for p in self.lts[n:]:
                _atoms(p, at)
            for p in self.lts[:n]:
                if p.op == "poly" and len(p.a[0]) <= 4 and any(x in at for _, m in p.a[0] for x in m) and self.irng(p)[0] >= 0:
                    self.dead = True
                    return

    def _add(self, c):
        if c.op == "bool":
            if c is FALSE:
                self.dead = True
            return
        self.lits[c] = TRUE
        n = tnot(c)
        self.lits[n] = FALSE
        if c.op == "not":
            x = c.a[0]
            if x.op == "eq0":
                L, s, k = split(x.a[0])
                v = -k * s
                if L.op == "disc" and L not in self.excl:
                    ty = tyof(L.a[0])
                    d = DISC.get(ty[4:]) if ty and ty.startswith("adt:") else None
                    if d and d[-1] - d[0] < 100000 and len(d) != d[-1] - d[0] + 1:
                        self.excl[L] = frozenset(range(d[0], d[-1] + 1)) - frozenset(d)
                self.excl[L] = self.excl.get(L, frozenset()) | {v}
                lo, hi = self.irng(L)
                while lo in self.excl[L] and lo <= hi:
                    lo += 1
                while hi in self.excl[L] and lo <= hi:
                    hi -= 1
                self.bounds[L] = (lo, hi)
                self.rmemo = {}
                if lo > hi:
                    self.dead = True
            return
        if c.op == "ite":
            x, a, b = c.a
            if b is FALSE:
                self.add(x)
                self.add(a)
            elif a is FALSE:
                self.add(tnot(x))
                self.add(b)
            return
        if c.op == "lt0":
            self._lt(c.a[0])
            return
        if c.op == "eq0":
            L, s, k = split(c.a[0])
            v = -k * s
            lo, hi = self.irng(L)
            if v < lo or v > hi or v in self.excl.get(L, ()):
                self.dead = True
            self.bounds[L] = (v, v)
            self.rmemo = {}
            self.lts.append(add(c.a[0], I(-1)))
            self.lts.append(add(scale(c.a[0], -1), I(-1)))
            return

    def _lt(self, p):
        L, s, k = split(p)  # s*L + k <= -1
        lo, hi = self.irng(L)
        if s > 0:
            hi = min(hi, -1 - k)
        else:
            lo = max(lo, k + 1)
        if lo > hi:
            self.dead = True
        self.bounds[L] = (lo, hi)
        self.rmemo = {}
        if p not in self.lts:
            self.lts.append(p)
        # x*c bound for single-monomial handled via irng; refine single atoms when L is an ite-free sum
        if L.op == "poly":
            self._propagate(L, lo, hi)

    def _propagate(self, L, lo, hi):
        terms = L.a[0]
        if len(terms) > 4:
            return
        for cf, m in terms:
            if len(m) != 1:
                continue
            rest = _up({mm: c for c, mm in terms if mm is not m})
            rl, rh = self.irng(rest)
            # cf*x in [lo - rh, hi - rl]
            a, b = lo - rh, hi - rl
            if cf < 0:
                a, b = -b, -a
                q = -cf
            else:
                q = cf
            xl = a if a in (INF, -INF) else -((-a) // q)
            xh = b if b in (INF, -INF) else b // q
            ol, oh = self.irng(m[0])
            nl, nh = max(ol, xl), min(oh, xh)
            if (nl, nh) != (ol, oh):
                self.bounds[m[0]] = (nl, nh)
                self.rmemo = {}
                if nl > nh:
                    self.dead = True

    def decide_lt0(self, p):
        lo, hi = self.irng(p)
        if hi < 0:
            return TRUE
        if lo >= 0:
            return FALSE
        ex = self._firstk(p)
        mp = mons(p)
        for q in self.lts + ex if ex else self.lts:  # q <= -1
            if mp.isdisjoint(mons(q)):
                continue
            r = self.irng(sub(p, q))
            if r[1] <= 0:
                return TRUE
            r = self.irng(add(p, q))  # p = r - q >= r + 1
            if r[0] >= -1:
                return FALSE
        if len(self.lts) <= 40:
            for i, q in enumerate(self.lts):
                mq = mons(q)
                if mp.isdisjoint(mq):
                    continue
                pq = sub(p, q)
                pp = add(p, q)
                mpq = mp | mq
                for w in self.lts:
                    if w is not q and mpq.isdisjoint(mons(w)):
                        continue
                    if self.irng(sub(pq, w))[1] <= 1:
                        return TRUE
                    if self.irng(add(pp, w))[0] >= -2:
                        return FALSE
        return None

    def _firstk(self, p):
        """ordering facts about 'first index below N such that' terms occurring in p"""
        ex = []
        if p.op == "firstk":
            at = [p]
        elif p.op == "poly":
            at = [m[0] for c, m in p.a[0] if len(m) == 1 and m[0].op == "firstk"]
        else:
            return ex
        for t in at:
            n = t.a[0]
            if n is I(-1):
                continue
            has = self.lits.get(mk("exists", n, t.a[1], t.a[2]))
            ex.append(add(t, scale(n, -1), I(0 if has is TRUE else -1)))
        return ex

    def simp(self, t, depth=0):
        """shallow boolean/ite simplification"""
        if t.op in ("bool", "int", "sym", "seq", "adt", "tup"):
            if t.op == "sym":
                return self.lits.get(t, t)
            return t
        r = self.lits.get(t)
        if r is not None:
            return r
        r = self.memo.get(t)
        if r is not None:
            return r
        r = self._simp(t, depth)
        self.memo[t] = r
        return r

    def _simp(self, t, depth):
        o = t.op
        if o == "not":
            return tnot(self.simp(t.a[0], depth + 1))
        if o == "lt0":
            p = t.a[0]
            d = self.decide_lt0(p)
            return d if d is not None else t
        if o == "eq0":
            L, s, k = split(t.a[0])
            v = -k * s
            lo, hi = self.irng(L)
            if lo == hi:
                return B(lo == v)
            if v < lo or v > hi or v in self.excl.get(L, ()):
                return FALSE
            p = t.a[0]
            if self.decide_lt0(p) is TRUE or self.decide_lt0(scale(p, -1)) is TRUE:
                return FALSE
            return t
        if o == "charb":
            s = t.a[0]
            while s.op == "sub":
                s = s.a[0]
            if self.lits.get(mk("sascii", s)) is TRUE:
                return TRUE
            # in front of an ASCII byte there is a boundary
            if self.decide_lt0(sub(t.a[1], seqs.slen(t.a[0]))) is TRUE and self.irng(seqs.sidx(t.a[0], t.a[1]))[1] < 128:
                return TRUE
        if o in ("utf8ok", "sascii"):
            s = t.a[0]
            if o == "utf8ok" and self.lits.get(mk("sascii", s)) is TRUE:
                return TRUE
            n = seqs.slen(s)
            if n.op == "int" and n.a[0] <= 16 and all(self.irng(seqs.sidx(s, I(i)))[1] < 128 for i in range(n.a[0])):
                return TRUE
            return t
        if o == "ite":
            c = self.simp(t.a[0], depth + 1)
            if c is TRUE:
                return self.simp(t.a[1], depth + 1)
            if c is FALSE:
                return self.simp(t.a[2], depth + 1)
            return ite(c, self.simp(t.a[1], depth + 1), self.simp(t.a[2], depth + 1))
        return t

    def deep(self, t, memo=None):
        """rebuild t with every decidable condition resolved"""
        if memo is None:
            memo = {}
        r = memo.get(t)
        if r is not None:
            return r
        o = t.op
        if o in ("int", "bool", "flt", "bv"):
            r = t
        elif o == "sym":
            r = self.lits.get(t, t)
        else:
            if o == "ite":
                c = self.simp(self.deep(t.a[0], memo))
                if c is TRUE:
                    r = self.deep(t.a[1], memo)
                elif c is FALSE:
                    r = self.deep(t.a[2], memo)
                else:
                    f1 = self.copy()
                    f1.add(c)
                    f2 = self.copy()
                    f2.add(tnot(c))
                    if f1.dead:
                        r = f2.deep(t.a[2])
                    elif f2.dead:
                        r = f1.deep(t.a[1])
                    else:
                        r = ite(c, f1.deep(t.a[1]), f2.deep(t.a[2]))
            else:
                a = tuple(self._dt(x, memo) for x in t.a)
                r = t if a == t.a else rebuild(o, a)
                if r.op in ("lt0", "eq0", "not", "utf8ok", "sascii", "exists", "mhas", "eq", "fLt", "fLe", "fEq"):
                    r = self.simp(r)
                elif r.op == "call" and r.a[-1] == "bool":
                    r = self.lits.get(r, r)
                elif r.op == "trunc" and isinstance(r.a[0], str) and r.a[0] in INTS:
                    lo, hi = self.irng(r.a[1])
                    if INTS[r.a[0]][0] <= lo and hi <= INTS[r.a[0]][1]:
                        r = r.a[1]
                elif r.op in ("min", "max"):
                    c = self.simp(lt(r.a[0], r.a[1]))
                    if c.op == "bool":
                        r = r.a[0] if (c is TRUE) == (r.op == "min") else r.a[1]
                elif r.op not in ("poly", "adt", "tup", "seq", "ref", "ite", "int", "bool"):
                    b = self.bounds.get(r)
                    if b and b[0] == b[1] and isnum(r):
                        r = I(b[0])
        memo[t] = r
        return r

    def _dt(self, x, memo):
        if isinstance(x, T):
            return self.deep(x, memo)
        if isinstance(x, tuple):
            return tuple(self._dt(y, memo) for y in x)
        return x


def _atoms(p, out):
    if p.op == "poly":
        for _, m in p.a[0]:
            out.update(m)
    else:
        out.add(p)


def _m(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b
