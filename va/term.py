"""Value-graph terms: hash-consed, normalised on construction.

Integers are mathematical integers; every machine operation that can wrap is an explicit node
('wrap'/'trunc').  Linear/polynomial arithmetic is kept in a canonical sum-of-monomials form,
comparisons are canonicalised to  p < 0  and  p == 0.
"""
import itertools

_tab = {}
_ctr = itertools.count()


class T:
    __slots__ = ("op", "a", "id", "_rng")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = next(_ctr)
        t._rng = None
        _tab[k] = t
    return t


INTS = {}
for w in (8, 16, 32, 64, 128):
    INTS["u%d" % w] = (0, 2 ** w - 1)
    INTS["i%d" % w] = (-(2 ** (w - 1)), 2 ** (w - 1) - 1)
INTS["usize"] = INTS["u64"]
INTS["isize"] = INTS["i64"]
INTS["char"] = (0, 0x10FFFF)
WIDTH = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "usize": 8, "isize": 8,
         "u128": 16, "i128": 16, "f32": 4, "f64": 8, "bool": 1, "char": 4}


def I(n):
    return mk("int", int(n))


def B(b):
    return TRUE if b else FALSE


TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNIT = mk("tup", ())


def F(x):
    import struct
    return mk("flt", struct.pack("<d", float(x)))


def fval(t):
    import struct
    return struct.unpack("<d", t.a[0])[0]


def sym(name, ty=None):
    return mk("sym", name, ty)


_fresh = itertools.count()


def fresh(name, ty=None):
    return mk("sym", "%s#%d" % (name, next(_fresh)), ty)


def is_int(t):
    return t.op == "int"


def ival(t):
    return t.a[0] if t.op == "int" else None


# ------------------------------------------------------------------ polynomials
# ('poly', ((coef, (atoms...)), ...)) sorted; at least one non-constant monomial.
def _p(t):
    if t.op == "int":
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == "poly":
        return {m: c for c, m in t.a[0]}
    return {(t,): 1}


def _up(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return I(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return I(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items = sorted(((c, m) for m, c in d.items()), key=lambda x: (len(x[1]), [y.id for y in x[1]]))
    return mk("poly", tuple(items))


def arith_ok(t):
    return t.op not in ("adt", "tup", "ref", "seq", "bool", "flt")


def add(*ts):
    d = {}
    for t in ts:
        for m, c in _p(t).items():
            d[m] = d.get(m, 0) + c
    return _up(d)


def scale(t, k):
    return _up({m: c * k for m, c in _p(t).items()})


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    if a.op == "ite" and b.op == "int":
        return ite(a.a[0], mul(a.a[1], b), mul(a.a[2], b))
    if b.op == "ite" and a.op == "int":
        return ite(b.a[0], mul(a, b.a[1]), mul(a, b.a[2]))
    d = {}
    for m1, c1 in _p(a).items():
        for m2, c2 in _p(b).items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            d[m] = d.get(m, 0) + c1 * c2
    return _up(d)


INF = float("inf")


def rng(t):
    """Sound integer interval of a term (from leaf types)."""
    r = t._rng
    if r is None:
        r = _rng0(t)
        t._rng = r
    return r


def _rng0(t):
    o = t.op
    if o == "int":
        return (t.a[0], t.a[0])
    if o == "poly":
        lo = hi = 0
        for c, m in t.a[0]:
            l = h = 1
            for f in m:
                fl, fh = rng(f)
                vs = [_mulr(l, fl), _mulr(l, fh), _mulr(h, fl), _mulr(h, fh)]
                l, h = min(vs), max(vs)
            l, h = _mulr(l, c), _mulr(h, c)
            if l > h:
                l, h = h, l
            lo += l
            hi += h
        return (lo, hi)
    if o == "ite":
        a, b = rng(t.a[1]), rng(t.a[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if o in TYPED:
        ty = tyof(t)
        if ty in INTS:
            return INTS[ty]
        return (-INF, INF)
    if o in ("rd",) and t.a[0] in INTS:
        return INTS[t.a[0]]
    if o in ("wrap", "trunc") and t.a[0] in INTS:
        return INTS[t.a[0]]
    if o == "typed" and t.a[0] in INTS:
        r = rng(t.a[1])
        q = INTS[t.a[0]]
        return (max(r[0], q[0]), min(r[1], q[1]))
    if o == "disc":
        ty = tyof(t.a[0])
        if ty and ty.startswith("adt:"):
            d = DISC.get(ty[4:])
            if d:
                return (d[0], d[-1])
        return (-2 ** 63, 2 ** 63)
    if o in ("len", "count", "bv", "mcount"):
        return (0, 2 ** 63 - 1)
    if o == "min":
        a, b = rng(t.a[0]), rng(t.a[1])
        return (min(a[0], b[0]), min(a[1], b[1]))
    if o == "max":
        a, b = rng(t.a[0]), rng(t.a[1])
        return (max(a[0], b[0]), max(a[1], b[1]))
    if o == "div":
        a, b = rng(t.a[0]), rng(t.a[1])
        if a[0] >= 0 and b[0] >= 0:
            d = max(b[0], 1)
            hi = a[1] if a[1] == INF else a[1] // d if d != INF else 0
            if t.a[0].op == "poly" and hi != INF and not is_int(t.a[1]):
                # (n + c*d) / d  <=  max(n, 0) + c
                q = _p(t.a[0])
                cf = q.pop((t.a[1],), 0)
                if cf > 0:
                    h2 = rng(_up(q))[1]
                    if h2 != INF:
                        hi = min(hi, max(h2, 0) // d + cf)
            return (0, hi)
    if o == "rem":
        a, b = rng(t.a[0]), rng(t.a[1])
        if a[0] >= 0 and b[0] >= 0:
            return (0, min(a[1], max(b[1] - 1, 0)))
    if o == "b2i":
        return (0, 1)
    if o == "byteof":
        return (0, 255)
    if o == "firstk":
        return (0, 2 ** 63 - 1)
    if o == "ftoi":
        return INTS[t.a[0]]
    if o == "shr":
        a = rng(t.a[0])
        if a[0] >= 0:
            return (0, a[1])
    if o == "band":
        a, b = rng(t.a[0]), rng(t.a[1])
        hs = [x[1] for x in (a, b) if x[0] >= 0]
        if hs:
            return (0, min(hs))
    if o in ("bor", "bxor"):
        a, b = rng(t.a[0]), rng(t.a[1])
        if a[0] >= 0 and b[0] >= 0 and a[1] != INF and b[1] != INF:
            return (0, (1 << max(int(a[1]).bit_length(), int(b[1]).bit_length())) - 1)
    return (-INF, INF)


def _mulr(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


def fits(t, ty):
    lo, hi = INTS[ty]
    r = rng(t)
    return lo <= r[0] and r[1] <= hi


def wrapint(n, ty):
    lo, hi = INTS[ty]
    m = hi - lo + 1
    return (n - lo) % m + lo


def trunc(t, ty):
    """value of t modulo the machine type ty"""
    if ty not in INTS:
        return mk("trunc", ty, t)
    if t.op == "int":
        return I(wrapint(t.a[0], ty))
    if t.op == "ite":
        return ite(t.a[0], trunc(t.a[1], ty), trunc(t.a[2], ty))
    if fits(t, ty):
        return t
    if t.op == "trunc" and WIDTH.get(t.a[0], 0) >= WIDTH[ty]:
        return trunc(t.a[1], ty)
    if t.op == "rd" and t.a[0] in INTS and WIDTH[t.a[0]] == WIDTH[ty]:
        return REBUILD["rd"](ty, *t.a[1:])
    if t.op == "poly":
        # (a + c * (b mod 2^n)) mod 2^m = (a + c * b) mod 2^m  for n >= m
        e = None
        for cf, m in t.a[0]:
            if len(m) == 1 and m[0].op == "trunc" and WIDTH.get(m[0].a[0], 0) >= WIDTH[ty]:
                e = add(e if e is not None else t, scale(sub(m[0].a[1], m[0]), cf))
        if e is not None:
            return trunc(e, ty)
    return mk("trunc", ty, t)


def div(a, b):
    if is_int(b) and b.a[0] == 1:
        return a
    if is_int(a) and is_int(b) and b.a[0] != 0:
        q = abs(a.a[0]) // abs(b.a[0])
        return I(q if (a.a[0] < 0) == (b.a[0] < 0) else -q)
    if is_int(b) and b.a[0] > 0 and a.op in ("poly",) and rng(a)[0] >= 0:
        q, r = _dm(a, b.a[0])
        if q is not None:
            return q
    if is_int(b) and b.a[0] > 0 and a.op == "div" and is_int(a.a[1]) and a.a[1].a[0] > 0 and rng(a.a[0])[0] >= 0:
        return div(a.a[0], I(b.a[0] * a.a[1].a[0]))
    if a.op == "ite":
        return ite(a.a[0], div(a.a[1], b), div(a.a[2], b))
    # exact: (x*b)/b for symbolic b
    if b.op != "int" and a.op == "poly" and len(a.a[0]) == 1 and a.a[0][0][0] >= 0 and b in a.a[0][0][1]:
        m = list(a.a[0][0][1])
        m.remove(b)
        if rng(b)[0] > 0:
            return _up({tuple(m): a.a[0][0][0]})
    return mk("div", a, b)


def _dm(a, n):
    """a = n*q + r with 0 <= r < n provable, else (None, None)"""
    d = _p(a)
    q = {m: (c - c % n) // n for m, c in d.items()}
    r = _up({m: c % n for m, c in d.items()})
    lo, hi = rng(r)
    if lo >= 0 and hi < n:
        return _up(q), r
    return None, None


def rem(a, b):
    if is_int(a) and is_int(b) and b.a[0] != 0:
        r = abs(a.a[0]) % abs(b.a[0])
        return I(r if a.a[0] >= 0 else -r)
    if is_int(b) and b.a[0] == 1:
        return I(0)
    if is_int(b) and a.op in ("poly",) and b.a[0] > 0 and rng(a)[0] >= 0:
        q, r = _dm(a, b.a[0])
        if q is not None:
            return r
    if is_int(b) and b.a[0] > 0 and rng(a)[0] >= 0 and rng(a)[1] < b.a[0]:
        return a
    if a.op == "ite":
        return ite(a.a[0], rem(a.a[1], b), rem(a.a[2], b))
    return mk("rem", a, b)


def tmin(a, b):
    if is_int(a) and is_int(b):
        return a if a.a[0] <= b.a[0] else b
    if a is b:
        return a
    c = lt(b, a)
    if c is TRUE:
        return b
    if c is FALSE:
        return a
    if b.id < a.id:
        a, b = b, a
    return mk("min", a, b)


def tmax(a, b):
    if is_int(a) and is_int(b):
        return a if a.a[0] >= b.a[0] else b
    if a is b:
        return a
    c = lt(a, b)
    if c is TRUE:
        return b
    if c is FALSE:
        return a
    if b.id < a.id:
        a, b = b, a
    return mk("max", a, b)


# ------------------------------------------------------------------ booleans
def lt0(p):
    if p.op == "int":
        return B(p.a[0] < 0)
    if p.op == "ite":
        return ite(p.a[0], lt0(p.a[1]), lt0(p.a[2]))
    r = rng(p)
    if r[1] < 0:
        return TRUE
    if r[0] >= 0:
        return FALSE
    if p.op == "poly":
        import math
        g = 0
        k = 0
        for c, m in p.a[0]:
            if m == ():
                k = c
            else:
                g = math.gcd(g, abs(c))
        if g > 1:
            # g*q + k < 0  <=>  q < -k/g  <=> q + floor(k/g) < 0 ... q*g <= -k-1
            d = {m: c // g for c, m in p.a[0] if m != ()}
            # q <= floor((-k-1)/g)  <=> q - floor((-k-1)/g) - 1 < 0
            f = (-k - 1) // g
            d[()] = -f - 1
            return lt0(_up(d))
    return mk("lt0", p)


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return lt0(add(sub(a, b), I(-1)))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "ite" and b.op in ("int", "bool", "adt"):
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.op == "ite" and a.op in ("int", "bool", "adt"):
        return ite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
    if a.op == "bool" and b.op == "bool":
        return B(a is b)
    if a.op == "bool":
        return b if a.a[0] else tnot(b)
    if b.op == "bool":
        return a if b.a[0] else tnot(a)
    if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        r = TRUE
        for x, y in zip(a.a[2], b.a[2]):
            r = tand(r, eq(x, y))
        return r
    if a.op == "tup" and b.op == "tup" and len(a.a[0]) == len(b.a[0]):
        r = TRUE
        for x, y in zip(a.a[0], b.a[0]):
            r = tand(r, eq(x, y))
        return r
    if a.op == "seq" and b.op == "seq":
        if len(a.a[0]) != len(b.a[0]):
            return FALSE
        r = TRUE
        for x, y in zip(a.a[0], b.a[0]):
            r = tand(r, eq(x, y))
        return r
    if isnum(a) and isnum(b):
        p = sub(a, b)
        if p.op == "int":
            return B(p.a[0] == 0)
        r = rng(p)
        if r[0] > 0 or r[1] < 0:
            return FALSE
        if p.op == "poly":
            # sign-normalise
            c = p.a[0][-1][0]
            if c < 0:
                p = scale(p, -1)
        return mk("eq0", p)
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


NUMOPS = {"int", "poly", "rd", "wrap", "trunc", "len", "disc", "min", "max", "div", "rem", "b2i", "count", "bv",
          "shl", "shr", "band", "bor", "bxor", "typed", "phi", "byteof", "ftoi", "psum", "firstk", "mcount"}


def tyof(t):
    """machine type name of an opaque leaf ('u16', 'seq:u8', ...) or None"""
    o = t.op
    if o == "sym":
        return t.a[1]
    if o == "vf":
        return t.a[3]
    if o == "fld":
        return t.a[2]
    if o == "deref":
        return t.a[1]
    if o in ("mkey", "mval"):
        x = tyof(t.a[0])
        if x and x.startswith("map:"):
            return x[4:].split(",", 1)[0 if o == "mkey" else 1]
        return None
    if o in ("call", "opq", "mget"):
        return t.a[-1] if isinstance(t.a[-1], str) else None
    if o == "idx":
        x = tyof(t.a[0])
        return x[4:] if x and x.startswith("seq:") else None
    if o in ("sub", "splice", "bmap"):
        return tyof(t.a[0])
    if o == "rd":
        return t.a[0]
    if o == "rec":
        return tyof(t.a[2][t.a[0]])
    return None


TYPED = {"sym", "vf", "fld", "deref", "call", "opq", "idx", "mget", "mkey", "mval"}


def isnum(t):
    if t.op in NUMOPS:
        return True
    if t.op in TYPED:
        return tyof(t) in INTS
    if t.op == "ite":
        return isnum(t.a[1]) and isnum(t.a[2])
    return False


def tnot(c):
    if c.op == "bool":
        return B(not c.a[0])
    if c.op == "not":
        return c.a[0]
    if c.op == "lt0":
        return lt0(add(scale(c.a[0], -1), I(-1)))
    if c.op == "ite":
        return ite(c.a[0], tnot(c.a[1]), tnot(c.a[2]))
    return mk("not", c)


def tand(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    if a is b:
        return a
    return ite(a, b, FALSE)


def tor(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is TRUE or b is TRUE:
        return TRUE
    if a is b:
        return a
    return ite(a, TRUE, b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    if c.op == "ite" and c.a[1].op == "bool" and c.a[2].op == "bool":
        c0, x, y = c.a
        if x is TRUE and y is FALSE:
            return ite(c0, a, b)
        if x is FALSE and y is TRUE:
            return ite(c0, b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return tnot(c)
    # push under common constructors
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if c.op == "eq0" and a.op == "int" and b.op in ("len", "sym", "idx", "poly"):
        # (p == 0 ? k : b) where b is k whenever p is 0
        d = add(b, I(-a.a[0]))
        if d is c.a[0] or d is scale(c.a[0], -1):
            return b
    return mk("ite", c, a, b)


def b2i(c):
    if c.op == "bool":
        return I(1 if c.a[0] else 0)
    return mk("b2i", c)


# ------------------------------------------------------------------ substitution
def subst(t, m, memo=None):
    """Rebuild t replacing terms per dict m (T -> T), re-normalising."""
    if memo is None:
        memo = {}
    return _sub(t, m, memo)


def _subt(x, m, memo):
    if isinstance(x, T):
        return _sub(x, m, memo)
    if isinstance(x, tuple):
        return tuple(_subt(y, m, memo) for y in x)
    return x


REBUILD = {}


def _sub(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("int", "bool", "sym", "flt", "bv"):
        r = t
    else:
        a = tuple(_subt(x, m, memo) for x in t.a)
        r = t if a == t.a else rebuild(t.op, a)
    memo[t] = r
    return r


def rebuild(op, a):
    if op == "poly":
        acc = I(0)
        for c, mm in a[0]:
            p = I(c)
            for f in mm:
                p = mul(p, f)
            acc = add(acc, p)
        return acc
    f = REBUILD.get(op)
    if f is not None:
        return f(*a)
    return mk(op, *a)


REBUILD.update({
    "lt0": lt0, "eq0": lambda p: eq(p, I(0)), "eq": eq, "not": tnot, "ite": ite, "div": div, "rem": rem,
    "min": tmin, "max": tmax, "trunc": lambda ty, x: trunc(x, ty), "b2i": b2i,
})


def free_in(t, pred, memo=None):
    """does any subterm satisfy pred"""
    if memo is None:
        memo = {}
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            return True
        _push(x.a, st)
    return False


def _push(a, st):
    for y in a:
        if isinstance(y, T):
            st.append(y)
        elif isinstance(y, tuple):
            _push(y, st)


def subterms(t):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        _push(x.a, st)


# ------------------------------------------------------------------ printing
def show(t, d=0, bud=None):
    if bud is None:
        bud = [800]
    bud[0] -= 1
    if d > 14 or bud[0] < 0:
        return "…"
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1, bud) if isinstance(x, T) else ("(" + ", ".join(s(y) for y in x) + ")" if isinstance(x, tuple) else str(x))
    if o == "int":
        return str(a[0])
    if o == "bool":
        return "true" if a[0] else "false"
    if o == "flt":
        return repr(fval(t))
    if o == "sym":
        return a[0]
    if o == "poly":
        out = []
        for c, m in a[0]:
            if m == ():
                out.append(str(c))
            else:
                out.append(("" if c == 1 else "%d*" % c) + "*".join(s(x) for x in m))
        return "(" + " + ".join(out) + ")"
    if o == "lt0":
        return "[%s < 0]" % s(a[0])
    if o == "eq0":
        return "[%s == 0]" % s(a[0])
    if o == "adt":
        return "%s::%s%s" % (a[0].split("::")[-1], VNAME(a[0], a[1]), "(%s)" % ", ".join(s(x) for x in a[2]) if a[2] else "")
    if o == "tup":
        return "(%s)" % ", ".join(s(x) for x in a[0])
    if o == "seq":
        if a[0] and all(x.op == "int" and 32 <= x.a[0] < 127 for x in a[0]):
            return repr(bytes(x.a[0] for x in a[0]).decode())
        return "[%s]" % ", ".join(s(x) for x in a[0])
    if o == "ite":
        return "(%s ? %s : %s)" % (s(a[0]), s(a[1]), s(a[2]))
    return "%s(%s)" % (o, ", ".join(s(x) for x in a))


_vn = {}
DISC = {}  # enum path -> sorted discriminants


def VNAME(path, v):
    return _vn.get((path, v), str(v))
