"""Deciding equations between value-graph normal forms.

prove:  normal forms are compared after resolving gates; a gate that survives is split on (both
        polarities are kept as facts), binders are opened with a fresh index.
refute: a valuation of the leaves under which the path facts hold and the two terms differ.
"""
import time
from term import *
from term import _p, _push
import seqs
from seqs import slen, sidx, bvlevel
from facts import Facts, split
from linear import infeasible, implied
from evalt import Eval, Opaque, canon, consts, diff

BOOLOPS = ("lt0", "eq0", "eq", "not", "exists", "mhas", "sascii", "utf8ok", "fLt", "fLe", "fEq")


class Budget(Exception):
    pass


def has_opq(t):
    return free_in(t, lambda x: x.op in ("opq", "undef"))


def lits_of(c):
    """an atomic literal of a condition to split on"""
    while c.op in ("ite", "not"):
        c = c.a[0]
    return c


def find_gate(t):
    """leftmost gate condition (without bound variables) in t"""
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            c = lits_of(x.a[0])
            if not free_in(c, lambda y: y.op in ("bv", "bvr")):
                return c
        sub_ = []
        _push(x.a, sub_)
        st.extend(reversed(sub_))
    return None


class Prover:
    def __init__(self, limit=4000, tmax=20):
        self.n = 0
        self.limit = limit
        self.t0 = time.time()
        self.tmax = tmax
        self.fail = None
        self.hyp = []  # disjunctive hypotheses, consulted when a comparison is stuck

    def stuck(self, a, b, f):
        if self.stuck_(a, b, f):
            return True
        # the facts may be contradictory, or imply equality, by linear arithmetic
        if infeasible(f):
            return True
        if isnum(a) and isnum(b):
            d = sub(a, b)
            return infeasible(f, (add(d, I(1)),)) and infeasible(f, (sub(I(1), d),))
        return False

    def stuck_(self, a, b, f):
        for h in self.hyp:
            s = f.deep(h)
            if s is FALSE:
                return True
            if s.op == "ite":
                c = lits_of(s)
                if c not in f.lits and tnot(c) not in f.lits and not free_in(c, lambda y: y.op in ("bv", "bvr")):
                    return self.splitc(a, b, f, c)
            elif s is not TRUE and s not in f.lits:
                g = f.copy()
                g.add(s)
                if len(g.lits) > len(f.lits) or g.dead:
                    return self.prove(a, b, g)
        self.fail = (a, b, f)
        return False

    def prove(self, a, b, f):
        self.n += 1
        if self.n > self.limit or time.time() - self.t0 > self.tmax:
            raise Budget()
        if f.dead or a is b:
            return True
        a, b = f.deep(a), f.deep(b)
        if a is b:
            return True
        return self.cmp(a, b, f)

    def splitc(self, a, b, f, c):
        for cc in (c, tnot(c)):
            g = f.copy()
            g.add(cc)
            if not self.prove(a, b, g):
                return False
        return True

    def cmp(self, a, b, f):
        if a is b:
            return True
        if a.op == "ite" or b.op == "ite":
            for x in (a, b):
                if x.op == "ite":
                    c = lits_of(x.a[0])
                    if not free_in(c, lambda y: y.op in ("bv", "bvr")):
                        return self.splitc(a, b, f, c)
        if a.op == "bx":
            return self.cmp(a.a[0], b, f)
        if b.op == "bx":
            return self.cmp(a, b.a[0], f)
        if a.op == b.op == "adt" and a.a[:2] == b.a[:2] and len(a.a[2]) == len(b.a[2]):
            return all(self.prove(x, y, f) for x, y in zip(a.a[2], b.a[2]))
        if a.op == b.op == "tup" and len(a.a[0]) == len(b.a[0]):
            return all(self.prove(x, y, f) for x, y in zip(a.a[0], b.a[0]))
        if a.op == b.op == "seq" and len(a.a[0]) == len(b.a[0]):
            return all(self.prove(x, y, f) for x, y in zip(a.a[0], b.a[0]))
        if a.op in ("adt", "tup") and b.op in ("adt", "tup"):
            return self.stuck(a, b, f)
        # boolean
        if a.op in BOOLOPS and b.op in BOOLOPS or (a.op == "bool") != (b.op == "bool"):
            for c in (a, b):
                if c.op in BOOLOPS:
                    c = lits_of(c)
                    if c not in f.lits:
                        return self.splitc(a, b, f, c)
        if a.op == b.op == "call" and a.a[0] == b.a[0] and self.structural(a, b, f):
            return True
        # sequences: equal length and equal at a generic index
        if isseq(a) and isseq(b):
            la, lb = slen(a), slen(b)
            if not self.prove(la, lb, f):
                return False
            for c in (a, b):
                if c.op == "seq" and len(c.a[0]) <= 2048:
                    return all(self.prove(sidx(a, I(k)), sidx(b, I(k)), f) for k in range(len(c.a[0])))
            g = f.copy()
            i = fresh("gi", "usize")
            g.add(le(I(0), i))
            g.add(lt(i, f.deep(la)))
            if g.dead:
                return True
            x, y = sidx(a, i), sidx(b, i)
            if x.op == "idx" and y.op == "idx" and x.a[0] is a and y.a[0] is b:
                return self.structural(a, b, f)
            return self.prove(x, y, g)
        if isnum(a) and isnum(b):
            d = f.deep(sub(a, b))
            if d is I(0):
                return True
            c = f.simp(eq(a, b))
            if c is TRUE:
                return True
        for x, y in ((a, b), (b, a)):
            if x.op == "idx" and x.a[0].op == "cat":
                p0, i = x.a[0].a[0][0], x.a[1]
                c = f.simp(lt(i, slen(p0)))
                if c.op != "bool" and implied(f, c):
                    c = TRUE
                elif c.op != "bool" and implied(f, tnot(c)):
                    c = FALSE
                if c is TRUE:
                    return self.prove(sidx(p0, i), y, f)
                if c is FALSE:
                    return self.prove(sidx(seqs.cat(*x.a[0].a[0][1:]), sub(i, slen(p0))), y, f)
                if c not in f.lits:
                    return self.splitc(a, b, f, c)
        c = find_gate(a) or find_gate(b)
        if c is not None and c not in f.lits:
            return self.splitc(a, b, f, c)
        return self.structural(a, b, f)

    def structural(self, a, b, f):
        """same operator with provably equal arguments"""
        if a.op == b.op and len(a.a) == len(b.a) and a.op not in ("int", "bool", "sym", "poly", "flt", "bv"):
            if bvlevel(a) or bvlevel(b):
                if a.op in ("exists", "firstk", "psum") and a.a[1] == b.a[1]:
                    if self.prove(a.a[0], b.a[0], f):
                        i = fresh("gi", "usize")
                        bv = mk("bv", a.a[1])
                        g = f.copy()
                        g.add(le(I(0), i))
                        if a.a[0] is not I(-1):
                            g.add(lt(i, f.deep(a.a[0])))
                        if g.dead:
                            return True
                        return self.prove(subst(a.a[2], {bv: i}), subst(b.a[2], {bv: i}), g)
            else:
                okk = True
                for x, y in zip(a.a, b.a):
                    if isinstance(x, T) and isinstance(y, T):
                        okk = okk and self.prove(x, y, f)
                    elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                        for p, q in zip(x, y):
                            if isinstance(p, T) and isinstance(q, T):
                                okk = okk and self.prove(p, q, f)
                            elif p != q:
                                okk = False
                    elif x != y:
                        okk = False
                    if not okk:
                        break
                if okk:
                    return True
        return self.stuck(a, b, f)


def isseq(t):
    if t.op in ("seq", "cat", "smap", "sub", "splice", "bmap", "scat"):
        return True
    ty = tyof(t)
    return bool(ty) and ty.startswith("seq:")


# ------------------------------------------------------------------ refutation
def callnames(*ts):
    return {x.a[0] for t in ts for x in subterms(t) if x.op == "call"}


def sample(eng, lits, terms, seeds, hints=None, hook=None, free=frozenset()):
    """yield valuations satisfying all literals"""
    pool = [c for c in consts(*(list(lits) + list(terms))) if c < 2 ** 40]
    f = Facts()
    for l in lits:
        f.add(l)
    if f.dead:
        return
    atoms = []
    for L, (lo, hi) in f.bounds.items():
        if L.op != "poly":
            atoms.append((L, lo, hi, f.excl.get(L, ())))
    blits = [(l.a[0] if l.op == "not" else l, l.op != "not") for l in f.lits if f.lits[l] is TRUE and (l.op in ("call", "mhas", "sym") or l.op == "not" and l.a[0].op in ("call", "mhas", "sym"))]
    atoms.sort(key=lambda x: x[0].id)
    for s in seeds:
        ev = Eval(eng, s, pool)
        ev.free = free
        r = ev.r("pins")
        if hook:
            hook(ev)
        for L, lo, hi, ex in atoms:
            lo2, hi2 = rng(L)
            lo2, hi2 = max(lo, lo2), min(hi, hi2)
            if lo2 == -INF:
                continue
            if lo2 == hi2:
                v = int(lo2)
            else:
                # keep the natural value when it already satisfies the bound
                try:
                    cur = ev.ev(L)
                    if isinstance(cur, int) and lo2 <= cur <= hi2 and cur not in ex and r.random() < 0.8:
                        continue
                except Opaque:
                    pass
                top = lo2 + r.choice([0, 1, 2, 3, 5, 9, 40])
                if hi2 != INF:
                    top = min(top, hi2)
                v = r.randint(int(lo2), int(top))
                for _ in range(8):
                    if v in ex:
                        v += 1
                if v > hi2:
                    continue
            ev.pin(L, v)
        for l, val in blits:
            ev.pin(l, val)
        ev.memo = {}
        good = True
        try:
            for l in lits:
                if ev.ev(l) is not True:
                    good = False
                    break
        except Opaque:
            good = False
        except RecursionError:
            good = False
        if good:
            yield ev


# external functions known to differ from one another: an output of one is never accepted for another
CODECS = frozenset(["zlib", "rawdeflate", "gzip", "zstd", "xz", "lzw", "jpeg", "webp", "lerc", "j2k.image", "j2k.pixels", "lerc.info"])
CODECS = CODECS | {c + s for c in CODECS for s in (".ok", ".partial")}
# what a byte source may answer: any value is possible
CODECS = CODECS | {"http.ok", "http.body_ok", "http.status", "http.body", "http.err", "GET", "header", "show", "read.ok", "seek.ok", "os.ok", "os.range", "partial", "received"}


def refute(eng, a, b, lits, nseeds=160, want=None, hook=None, seed0=0, tmax=20):
    """(valuation, va, vb) | None, plus number of satisfying samples"""
    nsat = 0
    t0 = time.time()
    for ev in sample(eng, lits, (a, b), range(seed0, seed0 + nseeds), hook=hook, free=callnames(b) | CODECS):
        if time.time() - t0 > tmax:
            break
        try:
            x = canon(ev.ev(a))
            y = canon(ev.ev(b))
        except (Opaque, RecursionError):
            continue
        except OverflowError:
            continue
        nsat += 1
        if diff(x, y) is True:
            return (ev, x, y), nsat
    return None, nsat


def decide(eng, a, b, lits=(), nseeds=160, hook=None, tmax=20):
    """'proved' | ('refuted', witness text) | 'undetermined'"""
    f = Facts()
    for l in lits:
        f.add(l)
    if f.dead:
        return "proved", "vacuous", 0
    if a is b:
        return "proved", "", 0
    w, nsat = refute(eng, a, b, lits, nseeds, hook=hook)
    if w:
        ev, x, y = w
        return "refuted", describe(ev, a, b, x, y), nsat
    p = Prover(tmax=tmax)
    p.hyp = [l for l in lits if l.op == "ite"]
    try:
        if p.prove(a, b, f):
            return "proved", "", nsat
    except (Budget, RecursionError):
        pass
    u = unify(a, b, lits, f)
    if u:
        p = Prover(tmax=tmax)
        p.hyp = [subst(l, u) for l in lits if l.op == "ite"]
        f = Facts()
        for l in lits:
            f.add(subst(l, u))
        try:
            if p.prove(subst(a, u), subst(b, u), f):
                return "proved", "", nsat
        except (Budget, RecursionError):
            pass
    # a longer search for a witness, with longer sequences
    w, n2 = refute(eng, a, b, lits, 600, hook=hook, seed0=1000, tmax=15)
    if w:
        ev, x, y = w
        return "refuted", describe(ev, a, b, x, y), nsat + n2
    why = ""
    if p.fail:
        why = "%s  vs  %s" % (str(p.fail[0])[:200], str(p.fail[1])[:200])
    return "undetermined", why, nsat


def unify(a, b, lits, f):
    """existential gates whose bodies agree at every index below the bound, written the same way"""
    ea, eb, el = ([x for x in subterms(t) if x.op in ("exists", "firstk")] for t in (a, b, mk("tup", tuple(lits))))
    out = {}
    for x in ea + [z for z in el if z not in ea]:
        if x in eb:
            continue
        for y in eb + [z for z in el if z not in eb and z not in out and x in ea]:
            if y is x or y.op != x.op or y.a[0] is not x.a[0] or y.a[1] != x.a[1] or x in out:
                continue
            if free_in(x, lambda z: z.op in ("bv", "bvr") and z.a[0] != x.a[1]):
                continue
            k = fresh("gi", "usize")
            g = f.copy()
            g.add(le(I(0), k))
            if x.a[0] is not I(-1):
                g.add(lt(k, x.a[0]))
            bv = mk("bv", x.a[1])
            p = Prover(tmax=8)
            try:
                if p.prove(subst(x.a[2], {bv: k}), subst(y.a[2], {bv: k}), g):
                    out[x] = y
            except (Budget, RecursionError):
                pass
    for x, y in list(out.items()):
        o = "firstk" if x.op == "exists" else "exists"
        out[mk(o, *x.a)] = mk(o, *y.a)
    return out


def describe(ev, a, b, x, y):
    return "code gives %s, specification gives %s" % (short(x), short(y))


def shortt(t, n=200):
    s = str(t)
    return s if len(s) <= n else s[:n] + "…"


def short(v, n=300):
    s = fmt(v)
    return s if len(s) <= n else s[:n] + "…"


def fmt(v):
    if isinstance(v, tuple):
        if v and v[0] == "adt":
            from term import VNAME
            return "%s::%s%s" % (v[1].split("::")[-1], VNAME(v[1], v[2]), "(%s)" % ", ".join(fmt(x) for x in v[3:]) if len(v) > 3 else "")
        if v and v[0] == "s":
            return "[%s]" % ", ".join(fmt(x) for x in v[1:])
        if v and v[0] == "tup":
            return "(%s)" % ", ".join(fmt(x) for x in v[1:])
        if v and v[0] == "b":
            return str(v[1]).lower()
        if v and v[0] == "leaf":
            return "<%s>" % (str(v[1])[:60],)
        if v and v[0] == "f" and len(v) == 2:
            import struct
            return repr(struct.unpack("<d", v[1])[0]) if isinstance(v[1], bytes) else "nan"
        return "(%s)" % ", ".join(fmt(x) for x in v)
    return str(v)
