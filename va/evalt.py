"""Valuations of value-graph terms.

Used only to *refute* an equation between two normal forms: both terms are evaluated at a table of
valuations of their leaves (random interpretation); a valuation on which they differ is a witness.
Terms that reach a construct the analysis does not understand ('opq') never refute anything.
"""
import random, struct, math
from term import *
from term import _p
import seqs
from seqs import bvlevel, FILE


class Opaque(Exception):
    pass


class _Taint:
    """a component the analysis cannot evaluate"""
    def __repr__(self):
        return "?"


TAINT = _Taint()

# uninterpreted symbols that stand for the environment (storage, codecs): any interpretation of them
# is a possible world, so a difference under one interpretation is a real difference
ENV = ("fetch", "os.", "oss.", "http", "read.", "seek.", "lerc", "webp", "castfree", "dec.", "GET", "header", "inflate", "zstd", "lzw", "lzma", "jpeg", "jp2", "user.")
INTERP = ("utf8lossy", "trim_matches", "trim_end_matches", "trim_start_matches", "trim", "trim_end", "trim_start")


def diff(x, y):
    """True: certainly different, False: equal, None: cannot tell"""
    if x is TAINT or y is TAINT:
        return None
    if isinstance(x, tuple) and x and x[0] == "taint" or isinstance(y, tuple) and y and y[0] == "taint":
        return None
    if isinstance(x, tuple) and isinstance(y, tuple):
        if x and y and (x[0] == "taint" or y[0] == "taint"):
            return None
        if x and y and isinstance(x[0], str) and isinstance(y[0], str):
            if x[0] == "map" and y[0] == "map" and x != y:
                return True if not (_tainted(x) or _tainted(y)) else None
            if x[0] != y[0]:
                return True if {x[0], y[0]} <= {"adt", "tup", "b", "f", "map"} else None if _tainted(x) or _tainted(y) else True
            if x[0] == "adt" and x[1:3] != y[1:3]:
                return True
        if len(x) != len(y):
            return True
        r = False
        for a, b in zip(x, y):
            d = diff(a, b)
            if d is True:
                return True
            if d is None:
                r = None
        return r
    return x != y


def _tainted(v):
    if v is TAINT:
        return True
    if isinstance(v, tuple):
        return bool(v) and v[0] == "taint" or any(_tainted(x) for x in v)
    return False


CAP = 300


class SV:
    """sequence value: a window of a leaf sequence (key,start,n) or explicit items"""
    __slots__ = ("ev", "key", "ety", "start", "n", "items")

    def __init__(self, ev, key=None, ety=None, start=0, n=0, items=None):
        self.ev, self.key, self.ety, self.start, self.n, self.items = ev, key, ety, start, n, items

    def __len__(self):
        return len(self.items) if self.items is not None else self.n

    def get(self, i):
        n = len(self)
        if i < 0 or i >= n:
            raise Opaque("oob")
        if self.items is not None:
            return self.items[i]
        return self.ev.elem(self.key, self.ety, self.start + i)

    def sub(self, a, n):
        if n < 0 or a < 0 or a + n > len(self):
            raise Opaque("oob sub")
        if self.items is not None:
            return SV(self.ev, items=self.items[a:a + n])
        return SV(self.ev, self.key, self.ety, self.start + a, n)

    def list(self):
        if self.items is not None:
            return self.items
        if self.n > self.ev.cap:
            raise Opaque("long")
        return [self.get(i) for i in range(self.n)]

    def canon(self):
        if self.items is None and self.n > 64:
            return ("sub", self.key, self.start, self.n)
        return ("s",) + tuple(canon(x) for x in self.list())


class Lz:
    """lazily expanded enum/struct leaf"""
    __slots__ = ("ev", "key", "path", "_v", "_f")

    def __init__(self, ev, key, path):
        self.ev, self.key, self.path = ev, key, path
        self._v, self._f = None, {}

    @property
    def variant(self):
        if self._v is None:
            self._v = self.ev.pickvariant(self.key, self.path)
        return self._v

    def field(self, v, i, ty=None):
        k = (v, i)
        if k not in self._f:
            self._f[k] = self.ev.leaf(self.key + (("vf", v, i),), ty if ty is not None else self.ev.fty(self.path, v, i))
        return self._f[k]

    def canon(self):
        a = self.ev.adts.get(self.path)
        if a is None or not a["v"]:
            return ("leaf", self.key)
        v = self.variant
        return ("adt", self.path, v) + tuple(canon(self.field(v, i)) for i in range(len(a["v"][v]["f"])))


class MV:
    __slots__ = ("ev", "key", "k", "v", "ops")

    def __init__(self, ev, key, k, v, ops=()):
        self.ev, self.key, self.k, self.v, self.ops = ev, key, k, v, ops

    def has(self, q):
        cq = canon(q)
        for op, kk, vv in reversed(self.ops):
            if kk == cq:
                return op == "ins"
        if self.key is None:
            return False
        o = self.ev.over.get(("has", self.key, cq))
        if o is not None:
            return o
        return self.ev.r(("has", self.key, cq)).random() < self.ev.phas

    def getv(self, q):
        cq = canon(q)
        for op, kk, vv in reversed(self.ops):
            if kk == cq:
                if op == "ins":
                    return vv
                raise Opaque("removed")
        if self.key is None:
            raise Opaque("mget none")
        return self.ev.leaf(self.key + (("get", cq),), self.v)

    def canon(self):
        if self.key is None:
            d = {}
            for op, kk, vv in self.ops:
                if op == "ins":
                    d[kk] = canon(vv)
                else:
                    d.pop(kk, None)
            return ("map",) + tuple(sorted(d.items(), key=repr))
        # order-insensitive summary of the overlay
        d = {}
        for op, kk, vv in self.ops:
            d[kk] = (op, canon(vv) if op == "ins" else None)
        for kk in [x for x, v in d.items() if v[0] == "rem"]:
            o = self.ev.r(("has", self.key, kk)).random() < self.ev.phas
            if not o:
                del d[kk]
        return ("map", self.key) + tuple(sorted(d.items(), key=repr))


def canon(v):
    if isinstance(v, (SV, Lz, MV)):
        return v.canon()
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, float):
        return ("f", struct.pack("<d", v)) if v == v else ("f", "nan")
    if isinstance(v, tuple):
        return tuple(canon(x) for x in v)
    if v is TAINT:
        return ("taint",)
    return v


class Eval:
    def __init__(self, eng, seed, pool=(), maxlen=6):
        self.eng = eng
        self.adts = eng.P.adts
        self.seed = seed
        self.pool = list(pool)
        self.over = {}      # leaf overrides: key -> value
        self.memo = {}
        self.phas = [0.5, 0.9, 0.2, 1.0][seed % 4]
        self.maxlen = maxlen
        self.cap = CAP if seed < 1000 else 2100
        self.lits = {}
        self.free = set()

    def soft(self, t, env):
        try:
            return self.ev(t, env)
        except Opaque:
            return TAINT

    def r(self, key):
        return random.Random("%d|%r" % (self.seed, key))

    def fty(self, path, v, i):
        f = self.adts[path]["v"][v]["f"][i]
        if f[1] is None:
            return None
        try:
            return self.eng.tyname(self.eng.ty(f[1]))
        except Exception:
            return None

    def pickvariant(self, key, path):
        o = self.over.get(("disc",) + key)
        vs = self.adts[path]["v"]
        if o is not None:
            for i, v in enumerate(vs):
                if (int(v["d"]) if v["d"] is not None else i) == o:
                    return i
            raise Opaque("bad disc")
        if path == "std::option::Option":
            return 1 if self.r(("var", key)).random() < 0.75 else 0
        return self.r(("var", key)).randrange(len(vs))

    def pickint(self, key, ty):
        lo, hi = INTS[ty]
        r = self.r(key)
        x = r.random()
        if x < 0.5 or not self.pool:
            v = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17])
        elif x < 0.85:
            v = r.choice(self.pool) + r.choice([-1, 0, 0, 0, 1])
        elif x < 0.93:
            v = r.randint(0, 300)
        else:
            v = r.randint(lo, hi)
        if v < lo or v > hi:
            v = r.randint(max(lo, 0), min(hi, 200))
        if lo < 0 and r.random() < 0.3:
            v = max(lo, -v)
        return v

    def leaf(self, key, ty):
        if key in self.over:
            return self.over[key]
        if ty in INTS:
            return self.pickint(key, ty)
        if ty == "bool":
            return self.r(key).random() < 0.6
        if ty in ("f32", "f64"):
            v = self.r(key).choice([0.0, 1.0, -1.5, 3.25, 1e10, 65537.0, 0.125, self.r(key).randint(0, 1 << 20) / 8.0])
            return v
        if ty and ty.startswith("seq:"):
            n = self.over.get(("len",) + key)
            if n is None:
                r = self.r(("len", key))
                n = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 8, self.maxlen])
                if self.seed >= 1000 and r.random() < 0.4:
                    ls = [c for c in self.pool if 8 < c <= 2000]
                    n = r.choice(ls) + r.choice([0, 1]) if ls else n
            return SV(self, key, ty[4:], 0, n)
        if ty and ty.startswith("map:"):
            k, v = ty[4:].split(",", 1)
            return MV(self, key, k, v)
        if ty and ty.startswith("adt:") and ty[4:] in self.adts and self.adts[ty[4:]]["v"]:
            return Lz(self, key, ty[4:])
        return ("leaf", key)

    def elem(self, key, ety, i):
        k = key + (("i", i),)
        if k in self.over:
            return self.over[k]
        if ety == "u8":
            if self.seed % 3 == 2:
                # few different bytes, so that runs and repetitions occur
                a = self.r(("alphabet", key))
                ab = [a.choice([c for c in self.pool if 0 < c < 256] + [0, 32, 65]) for _ in range(2)] + [65]
                return self.r(k).choice(ab)
            return self.r(k).choice([0, 0, 1, 2, 3, 65, 66, 255, self.r((k, 1)).randrange(256)])
        return self.leaf(k, ety)

    # -------- evaluation
    def ev(self, t, env=()):
        if t.op == "int":
            return t.a[0]
        if t.op == "bool":
            return t.a[0]
        k = (t, env if bvlevel(t) or env and _hasbvr(t) else ())
        r = self.memo.get(k, self)
        if r is self:
            r = self.ev0(t, env)
            self.memo[k] = r
        return r

    def ev0(self, t, env):
        o, a = t.op, t.a
        E = lambda x: self.ev(x, env)
        if o == "poly":
            s = 0
            for c, m in a[0]:
                p = c
                for f in m:
                    x = E(f)
                    if not isinstance(x, int):
                        raise Opaque("nonint")
                    p *= x
                s += p
            return s
        if o == "ite":
            c = E(a[0])
            if not isinstance(c, bool):
                raise Opaque("nonbool")
            return E(a[1]) if c else E(a[2])
        if o == "lt0":
            return self.num(E(a[0])) < 0
        if o == "eq0":
            return self.num(E(a[0])) == 0
        if o == "eq":
            d = diff(canon(E(a[0])), canon(E(a[1])))
            if d is None:
                raise Opaque("eq")
            return not d
        if o == "not":
            x = E(a[0])
            if not isinstance(x, bool):
                raise Opaque("nonbool")
            return not x
        if o == "sym":
            if a[0].startswith("phi#"):
                raise Opaque("unsolved recurrence")
            if t is FILE:
                return SV(self, ("FILE",), "u8", 0, self.over.get(("len", "FILE"), 1 << 62))
            return self.leaf((a[0],), a[1])
        if o == "adt":
            return ("adt", a[0], a[1]) + tuple(self.soft(x, env) for x in a[2])
        if o == "tup":
            return ("tup",) + tuple(self.soft(x, env) for x in a[0])
        if o == "flt":
            return fval(t)
        if o == "seq":
            return SV(self, items=[self.soft(x, env) for x in a[0]])
        if o == "str":
            return SV(self, items=list(a[0]))
        if o == "bx":
            return E(a[0])
        if o == "disc":
            return self.disc(E(a[0]))
        if o == "vf":
            v = E(a[0])
            if isinstance(v, Lz):
                if v.path in self.adts and v.variant != a[1]:
                    raise Opaque("variant")
                return v.field(a[1], a[2], a[3])
            if isinstance(v, tuple) and v[0] == "adt":
                if v[2] != a[1]:
                    raise Opaque("variant")
                return v[3 + a[2]]
            if isinstance(v, tuple) and v[0] == "leaf":
                return self.leaf(v[1] + (("vf", a[1], a[2]),), a[3])
            raise Opaque("vf")
        if o == "fld":
            v = E(a[0])
            if isinstance(v, Lz):
                return v.field(0, a[1], a[2])
            if isinstance(v, tuple) and v[0] == "adt":
                return v[3 + a[1]]
            if isinstance(v, tuple) and v[0] == "tup":
                return v[1 + a[1]]
            if isinstance(v, tuple) and v[0] == "leaf":
                return self.leaf(v[1] + (("f", a[1]),), a[2])
            raise Opaque("fld")
        if o == "updf":
            raise Opaque("updf")
        if o == "deref":
            return E(a[0])
        if o == "call":
            if a[0].startswith("lib:"):
                return self.lib(a[0][4:], [E(x) for x in _args(a[1])])
            if a[0] in INTERP:
                return self.interp(a[0], [E(x) for x in _args(a[1])])
            if a[0] not in self.free and not a[0].startswith(ENV):
                raise Opaque("uninterpreted " + a[0])
            args = tuple(canon(E(x)) for x in _args(a[1]))
            if _tainted(args):
                raise Opaque("arg")
            return self.call(a[0], args, a[2] if len(a) > 2 else None)
        if o in ("codec",):
            return ("leaf", ("codec",) + tuple(canon(E(x)) if isinstance(x, T) else canon(tuple(E(y) if isinstance(y, T) else y for y in x)) if isinstance(x, tuple) else x for x in a))
        if o == "len":
            v = E(a[0])
            return len(self.seqv(v))
        if o == "idx":
            return self.seqv(E(a[0])).get(self.num(E(a[1])))
        if o == "sub":
            return self.seqv(E(a[0])).sub(self.num(E(a[1])), self.num(E(a[2])))
        if o == "cat":
            out = []
            parts = [self.seqv(E(x)) for x in a[0]]
            parts = [p for p in parts if len(p)]
            if len(parts) == 1:
                return parts[0]
            # adjacent windows of one leaf
            if parts and all(p.items is None and p.key == parts[0].key for p in parts) and all(x.start + x.n == y.start for x, y in zip(parts, parts[1:])):
                return SV(self, parts[0].key, parts[0].ety, parts[0].start, sum(p.n for p in parts))
            for p in parts:
                out.extend(p.list())
            return SV(self, items=out)
        if o == "smap":
            n = self.num(E(a[0]))
            if n > self.cap:
                raise Opaque("long")
            return SV(self, items=[self.soft(a[2], env + ((a[1], i),)) for i in range(max(0, n))])
        if o == "scat":
            n = self.num(E(a[0]))
            if n > self.cap:
                raise Opaque("long")
            out = []
            for i in range(max(0, n)):
                out.extend(self.seqv(self.ev(a[2], env + ((a[1], i),))).list())
            return SV(self, items=out)
        if o == "bv":
            for lv, v in reversed(env):
                if lv == a[0]:
                    return v
            raise Opaque("unbound")
        if o == "bvr":
            for lv, v in reversed(env):
                if lv == (a[0], a[1]):
                    return v.v
            raise Opaque("unbound")
        if o == "splice":
            base = list(self.seqv(E(a[0])).list())
            st = self.num(E(a[1]))
            vals = self.seqv(E(a[2])).list()
            if st < 0 or st + len(vals) > len(base):
                raise Opaque("splice oob")
            base[st:st + len(vals)] = vals
            return SV(self, items=base)
        if o == "bmap":
            base, m, c0, n, lv, elems = a
            xs = list(self.seqv(E(base)).list())
            m, c0, n = self.num(E(m)), self.num(E(c0)), self.num(E(n))
            if n > self.cap:
                raise Opaque("long")
            for j in range(max(0, n)):
                vals = self.seqv(self.ev(elems, env + ((lv, j),))).list()
                s = c0 + m * j
                if s + len(vals) > len(xs):
                    raise Opaque("bmap oob")
                xs[s:s + len(vals)] = vals
            return SV(self, items=xs)
        if o == "rec":
            j, k, inits, lv, bodies = a
            n = self.num(E(k))
            if n > self.cap:
                raise Opaque("long")
            cur = [E(x) for x in inits]
            for i in range(max(0, n)):
                e2 = env + ((lv, i),) + tuple(((lv, q), _H(cur[q])) for q in range(len(cur)))
                cur = [self.ev(b, e2) for b in bodies]
                cur = [c.v if isinstance(c, _H) else c for c in cur]
            r = cur[j]
            return r.v if isinstance(r, _H) else r
        if o == "exists":
            n = self.num(E(a[0]))
            if n > self.cap:
                raise Opaque("long")
            return any(self.ev(a[2], env + ((a[1], i),)) for i in range(max(0, n)))
        if o == "firstk":
            n = self.num(E(a[0]))
            lim = self.cap if n < 0 else n
            if lim > self.cap:
                raise Opaque("long")
            for i in range(lim):
                if self.ev(a[2], env + ((a[1], i),)):
                    return i
            if n < 0:
                raise Opaque("no end")
            return n
        if o == "psum":
            n = self.num(E(a[0]))
            if n > self.cap:
                raise Opaque("long")
            return sum(self.num(self.ev(a[2], env + ((a[1], i),))) for i in range(max(0, n)))
        if o == "last":
            init, k, lv, c, v = a
            n = self.num(E(k))
            if n > self.cap:
                raise Opaque("long")
            for i in reversed(range(max(0, n))):
                if self.ev(c, env + ((lv, i),)):
                    return self.ev(v, env + ((lv, i),))
            return E(init)
        if o == "rd":
            ty, be, s, off = a
            s = self.seqv(E(s))
            off = self.num(E(off))
            bs = bytes(self.num(s.get(off + i)) & 255 for i in range(WIDTH[ty]))
            return self.decode(ty, bs, be)
        if o == "frombytes":
            bs = bytes(self.num(E(x)) & 255 for x in a[1])
            return self.decode(a[0], bs, False)
        if o == "byteof":
            v = E(a[1])
            w = WIDTH[a[0]]
            if isinstance(v, float):
                b = struct.pack("<f" if a[0] == "f32" else "<d", v)
            else:
                b = (self.num(v) % (1 << (8 * w))).to_bytes(w, "little")
            return b[a[2]]
        if o == "trunc":
            v = self.num(E(a[1]))
            return wrapint(v, a[0]) if a[0] in INTS else v
        if o == "div":
            x, y = self.num(E(a[0])), self.num(E(a[1]))
            if y == 0:
                raise Opaque("div0")
            q = abs(x) // abs(y)
            return q if (x < 0) == (y < 0) else -q
        if o == "rem":
            x, y = self.num(E(a[0])), self.num(E(a[1]))
            if y == 0:
                raise Opaque("div0")
            q = abs(x) % abs(y)
            return q if x >= 0 else -q
        if o in ("min", "max"):
            return (min if o == "min" else max)(self.num(E(a[0])), self.num(E(a[1])))
        if o == "b2i":
            return 1 if E(a[0]) else 0
        if o in ("band", "bor", "bxor", "shl", "shr"):
            x, y = self.num(E(a[0])), self.num(E(a[1]))
            if o == "band":
                return x & y
            if o == "bor":
                return x | y
            if o == "bxor":
                return x ^ y
            if o == "shr":
                return x >> (y & 127)
            return wrapint(x << (y & 127), a[2])
        if o == "itof":
            v = float(self.num(E(a[1])))
            return _f32(v) if a[0] == "f32" else v
        if o == "ftof":
            v = E(a[2])
            return _f32(v) if a[1] == "f32" else v
        if o == "ftoi":
            v = E(a[1])
            if not isinstance(v, float):
                raise Opaque("ftoi")
            lo, hi = INTS[a[0]]
            if v != v:
                return 0
            if math.isinf(v):
                return hi if v > 0 else lo
            return max(lo, min(hi, int(v)))
        if o in ("fadd", "fsub", "fmul", "fdiv"):
            x, y = E(a[0]), E(a[1])
            if not isinstance(x, float) or not isinstance(y, float):
                raise Opaque("float")
            try:
                return {"fadd": lambda: x + y, "fsub": lambda: x - y, "fmul": lambda: x * y, "fdiv": lambda: x / y}[o]()
            except ZeroDivisionError:
                return float("nan") if x == 0 or x != x else math.copysign(float("inf"), x)
            except OverflowError:
                return float("inf")
        if o in ("ceil", "floor", "round"):
            x = E(a[0])
            if math.isinf(x) or x != x:
                return x
            return float({"ceil": math.ceil, "floor": math.floor, "round": round}[o](x))
        if o == "fneg":
            return -E(a[0])
        if o in ("fLt", "fLe", "fEq"):
            x, y = E(a[0]), E(a[1])
            return x < y if o == "fLt" else x <= y if o == "fLe" else x == y
        if o == "map0":
            return MV(self, None, None, None)
        if o == "minsert":
            m = E(a[0])
            if not isinstance(m, MV):
                raise Opaque("map")
            return MV(self, m.key, m.k, m.v, m.ops + (("ins", canon(E(a[1])), E(a[2])),))
        if o == "mremove":
            m = E(a[0])
            return MV(self, m.key, m.k, m.v, m.ops + (("rem", canon(E(a[1])), None),))
        if o == "mbuild":
            init, k, lv, c, kk, vv = a
            m = E(init)
            n = self.num(E(k))
            if n > self.cap:
                raise Opaque("long")
            ops = list(m.ops)
            for i in range(max(0, n)):
                e2 = env + ((lv, i),)
                if self.ev(c, e2):
                    ops.append(("ins", canon(self.ev(kk, e2)), self.ev(vv, e2)))
            return MV(self, m.key, m.k, m.v, tuple(ops))
        if o == "mhas":
            return E(a[0]).has(E(a[1]))
        if o == "mget":
            return E(a[0]).getv(E(a[1]))
        if o == "sascii":
            return all(self.num(x) < 128 for x in self.seqv(E(a[0])).list())
        if o == "utf8ok":
            try:
                bytes(self.num(x) for x in self.seqv(E(a[0])).list()).decode("utf-8")
                return True
            except (UnicodeDecodeError, ValueError):
                return False
        if o == "guard":
            return ("leaf", ("guard",))
        if o in ("clo", "fnv"):
            return ("leaf", (o, repr(a[0])))
        raise Opaque(o)

    def interp(self, name, args):
        bs = bytes(self.num(x) & 255 for x in self.seqv(args[0]).list())
        if name == "utf8lossy":
            return SV(self, items=list(bs.decode("utf-8", "replace").encode("utf-8")))
        if name in ("trim", "trim_end", "trim_start") and len(args) == 1:
            if any(b > 127 for b in bs):
                raise Opaque("white space")
            ws = b" \t\n\x0b\x0c\r"
            return SV(self, items=list({"trim": bs.strip, "trim_end": bs.rstrip, "trim_start": bs.lstrip}[name](ws)))
        if len(args) != 2 or isinstance(args[1], bool) or not isinstance(args[1], int) or args[1] > 127:
            raise Opaque("pattern")
        c = bytes([args[1]])
        return SV(self, items=list({"trim_matches": bs.strip, "trim_end_matches": bs.rstrip, "trim_start_matches": bs.lstrip}[name](c)))

    def lib(self, name, args):
        """library functions without algebraic laws here, evaluated only"""
        if name in ("dedup", "sort", "uniq"):
            xs = self.seqv(args[0]).list()
            if name == "dedup":
                out = []
                for x in xs:
                    if not out or diff(canon(out[-1]), canon(x)) is not False:
                        if out and diff(canon(out[-1]), canon(x)) is None:
                            raise Opaque("dedup")
                        out.append(x)
                return SV(self, items=out)
            if any(isinstance(x, bool) or not isinstance(x, (int, float)) for x in xs):
                raise Opaque("sort")
            return SV(self, items=sorted(xs))
        if name in ("leading_zeros", "trailing_zeros", "count_ones", "is_power_of_two", "isqrt", "ilog2"):
            n = self.num(args[0])
            w = self.num(args[1])
            n &= (1 << w) - 1
            if name == "leading_zeros":
                return w - n.bit_length()
            if name == "trailing_zeros":
                return w if n == 0 else (n & -n).bit_length() - 1
            if name == "count_ones":
                return bin(n).count("1")
            if name == "is_power_of_two":
                return n != 0 and n & (n - 1) == 0
            if name == "isqrt":
                import math
                return math.isqrt(n)
            if n == 0:
                raise Opaque("ilog2")
            return n.bit_length() - 1
        if name == "rotl":
            n, k, w = [self.num(x) for x in args]
            k %= w
            m = (1 << w) - 1
            n &= m
            return ((n << k) | (n >> (w - k))) & m
        raise Opaque(name)

    def call(self, name, args, ty):
        return self.leaf(("call", name) + args, ty)

    def disc(self, v):
        if isinstance(v, Lz):
            x = self.adts[v.path]["v"][v.variant]["d"]
            return int(x) if x is not None else v.variant
        if isinstance(v, tuple) and v[0] == "adt":
            ad = self.adts.get(v[1])
            if ad and v[2] < len(ad["v"]):
                d = ad["v"][v[2]]["d"]
                return int(d) if d is not None else v[2]
            return v[2]
        if isinstance(v, tuple) and v[0] == "leaf":
            return self.r(("disc", v[1])).randrange(2)
        raise Opaque("disc")

    def num(self, v):
        if isinstance(v, _H):
            v = v.v
        if isinstance(v, bool) or not isinstance(v, int):
            raise Opaque("num")
        return v

    def seqv(self, v):
        if isinstance(v, _H):
            v = v.v
        if not isinstance(v, SV):
            raise Opaque("seq")
        return v

    def decode(self, ty, bs, be):
        if ty in INTS:
            n = int.from_bytes(bs, "big" if be else "little")
            return wrapint(n, ty)
        return struct.unpack((">" if be else "<") + ("f" if ty == "f32" else "d"), bs)[0]

    # -------- bias the valuation towards the facts
    def pin(self, atom, val):
        """try to make leaf `atom` evaluate to val"""
        try:
            o, a = atom.op, atom.a
            if o == "sym":
                self.over[(a[0],)] = val
            elif o == "rd" and a[0] in INTS:
                s = self.seqv(self.ev(a[2]))
                off = self.num(self.ev(a[3]))
                w = WIDTH[a[0]]
                bs = (val % (1 << (8 * w))).to_bytes(w, "big" if a[1] else "little")
                if s.items is None:
                    for i, b in enumerate(bs):
                        self.over[s.key + (("i", s.start + off + i),)] = b
            elif o == "idx":
                s = self.seqv(self.ev(a[0]))
                if s.items is None:
                    self.over[s.key + (("i", s.start + self.num(self.ev(a[1]))),)] = val
            elif o == "disc":
                v = self.ev(a[0])
                if isinstance(v, Lz):
                    self.over[("disc",) + v.key] = val
                    v._v = None
            elif o == "vf":
                v = self.ev(a[0])
                if isinstance(v, Lz):
                    self.over[v.key + (("vf", a[1], a[2]),)] = val
                    v._f.pop((a[1], a[2]), None)
            elif o == "len":
                v = self.ev(a[0])
                if isinstance(v, SV) and v.items is None and v.start == 0 and v.key != ("FILE",):
                    self.over[("len",) + v.key] = val
            elif o == "call":
                args = tuple(canon(self.ev(x)) for x in _args(a[1]))
                self.over[("call", a[0]) + args] = val
            elif o == "mhas":
                m = self.ev(a[0])
                if isinstance(m, MV) and m.key is not None:
                    self.over[("has", m.key, canon(self.ev(a[1])))] = val
            self.memo = {}
        except Opaque:
            pass


def _args(x):
    if isinstance(x, T):
        return (x,)
    return tuple(y for y in x if isinstance(y, T)) if all(isinstance(y, T) for y in x) else tuple(y if isinstance(y, T) else sym(repr(y)) for y in x)


class _H:
    """hashable wrapper for environment values (identity)"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


_bvr = {}


def _hasbvr(t):
    r = _bvr.get(t)
    if r is None:
        r = _bvr[t] = free_in(t, lambda x: x.op in ("bvr", "bv"))
    return r


def _f32(v):
    try:
        return struct.unpack("<f", struct.pack("<f", v))[0]
    except OverflowError:
        return math.copysign(float("inf"), v)


def consts(*ts):
    out = set()
    for t in ts:
        for x in subterms(t):
            if x.op == "int" and abs(x.a[0]) < 2 ** 65:
                out.add(abs(x.a[0]))
            elif x.op == "poly":
                for c, m in x.a[0]:
                    if m == ():
                        out.add(abs(c))
    return sorted(out)
