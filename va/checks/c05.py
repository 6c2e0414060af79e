"""C05: converting a tag value to a concrete type is exact or an error."""
from api import *
from va_common import *

TV = "TagValue"
#  variant: element machine types (None: string / list)
VAR = {"Byte": ["u8"], "Short": ["u16"], "SignedByte": ["i8"], "SignedShort": ["i16"], "Signed": ["i32"], "SignedBig": ["i64"],
       "Unsigned": ["u32"], "UnsignedBig": ["u64"], "Float": ["f32"], "Double": ["f64"], "Rational": ["u32", "u32"],
       "RationalBig": ["u64", "u64"], "SRational": ["i32", "i32"], "SRationalBig": ["i64", "i64"], "Ascii": None, "Ifd": ["u32"], "IfdBig": ["u64"]}
UNS = ["Byte", "Short", "Unsigned", "UnsignedBig"]
SGN = ["SignedByte", "SignedShort", "Signed", "SignedBig"]
#  scalar conversion: (target type, variants that must be accepted when representable)
SCALAR = {"u8": ["Byte"], "i8": ["SignedByte"], "u16": UNS, "i16": SGN, "u32": UNS + ["Ifd", "IfdBig"], "i32": SGN,
          "u64": UNS + ["Ifd", "IfdBig"], "i64": SGN, "f32": ["Float"], "f64": ["Double"]}
#  vector conversion: scalars accepted on their own / list element variants accepted
VEC = {"u8": (["Byte"], ["Byte"]), "u16": (["Byte", "Short"], UNS), "u32": (UNS + ["Rational", "RationalBig", "Ifd", "IfdBig"], UNS + ["Ifd", "IfdBig"]),
       "u64": (UNS + ["Rational", "RationalBig", "Ifd", "IfdBig"], UNS + ["Ifd", "IfdBig"]),
       "i32": (SGN + ["SRational", "SRationalBig"], SGN + ["SRational", "SRationalBig"]),
       "i64": (SGN + ["SRational", "SRationalBig"], SGN + ["SRational", "SRationalBig"]),
       "f32": (["Float"], ["Float"]), "f64": (["Double"], ["Double"])}


def isf(t):
    return t[0] == "f"


def inrange(x, ty):
    if isf(ty):
        return TRUE
    lo, hi = IRANGE[ty]
    return tand(le(I(lo), x), le(x, I(hi)))


IRANGE = {}
for _b in (8, 16, 32, 64):
    IRANGE["u%d" % _b] = (0, 2 ** _b - 1)
    IRANGE["i%d" % _b] = (-2 ** (_b - 1), 2 ** (_b - 1) - 1)


def exact_or_err(r, got, vals, dst, wrap, accepted, comparable, where):
    """accepted: Ok(exact) exactly when representable; otherwise an error, or at worst still exact"""
    got = r.val(got)
    isok = r.st.pc.facts.simp(eq(r.e.disc(got), I(0)))
    if not accepted:
        x = equation(r, isok, FALSE, where=where)
        if x.status == "proved" or not comparable:
            return x
    rep = TRUE
    for v in vals:
        rep = tand(rep, inrange(v, dst))
    if accepted:
        a = equation(r, isok, rep, where=where)
        if a.status != "proved":
            return a
    f = r.st
    if not f.assume(isok):
        return R("proved", fns=fns_of(r))
    f.assume(rep) if accepted else None
    pay = r.val(r.e.proj(got, ("v", 0, 0, None)))
    b = equation(r, pay, wrap(vals), where=where)
    if not accepted and b.status == "proved":
        b = equation(r, rep, TRUE, where=where)
    return b


def scalar(P, dst, var):
    def go():
        r = Run(P)
        tys = VAR[var]
        xs = [sym("x%d" % i, t) for i, t in enumerate(tys)]
        v = r.call(TV + "::into_" + dst, pos={0: r.adt(TV, var, *xs)})
        cmp_ = len(tys) == 1 and isf(tys[0]) == isf(dst)
        a = exact_or_err(r, v, xs, dst, lambda vs: vs[0], var in SCALAR[dst], cmp_, TV + "::into_" + dst)
        return worst([a, nopanic(r)])
    return go


def vec1(P, dst, var):
    def go():
        r = Run(P)
        tys = VAR[var]
        xs = [sym("x%d" % i, t) for i, t in enumerate(tys)]
        v = r.call(TV + "::into_%s_vec" % dst, pos={0: r.adt(TV, var, *xs)})
        cmp_ = isf(tys[0]) == isf(dst)
        a = exact_or_err(r, v, xs, dst, lambda vs: seq(vs), var in VEC[dst][0], cmp_, TV + "::into_%s_vec" % dst)
        return worst([a, nopanic(r)])
    return go


def veclist(P, dst, var):
    """a list of any length whose elements all have the variant"""
    def go():
        r = Run(P)
        tys = VAR[var]
        w = TV + "::into_%s_vec" % dst
        n = sym("n", "usize")
        r.assume(lt(n, I(2 ** 32)))
        i = fresh("i", "usize")
        el = lambda j, i: mk("call", "spec:x%d" % j, (i,), tys[j])
        lst = r.adt(TV, "List", smap(n, i, r.adt(TV, var, *[el(j, i) for j in range(len(tys))])))
        got = r.val(r.call(w, pos={0: lst}))
        isok = r.st.pc.facts.simp(eq(r.e.disc(got), I(0)))
        acc = var in VEC[dst][1]
        if not acc:
            # any non-empty list of unsuitable elements is refused (or, at worst, exact)
            r.assume(lt(I(0), n))
            x = equation(r, r.st.pc.facts.simp(isok), FALSE, where=w)
            if x.status == "proved" or isf(tys[0]) != isf(dst):
                return worst([x, nopanic(r, r.wf)])
        k = fresh("k", "usize")
        bad = FALSE
        for j in range(len(tys)):
            bad = tor(bad, tnot(inrange(el(j, k), dst)))
        anybad = mkexists(n, k, bad) if bad is not FALSE else FALSE
        if acc:
            a = equation(r, isok, tnot(anybad), where=w)
            if a.status != "proved":
                return a
        if not r.st.assume(isok):
            return R("proved", fns=fns_of(r))
        if acc:
            r.st.assume(tnot(anybad))
        pay = r.val(r.e.proj(got, ("v", 0, 0, None)))
        k = fresh("k", "usize")
        if len(tys) == 1:
            want = smap(n, k, el(0, k))
        else:
            want = smap(mul(n, I(2)), k, ite(eq(rem(k, I(2)), I(0)), el(0, div(k, I(2))), el(1, div(k, I(2)))))
        b = equation(r, pay, want, where=w)
        if not acc and b.status == "proved":
            b = equation(r, anybad, FALSE, where=w)
        return worst([b, nopanic(r, r.wf)])
    return go


def vecmixed(P, dst, var):
    """the position of an unsuitable or unrepresentable element does not matter"""
    def go():
        r = Run(P)
        w = TV + "::into_%s_vec" % dst
        ok1 = VEC[dst][1][0]
        good = r.adt(TV, ok1, *[sym("g%d" % i, t) for i, t in enumerate(VAR[ok1])])
        bad = r.adt(TV, var, *([sym("b", "seq:u8")] if var == "Ascii" else [sym("b%d" % i, t) for i, t in enumerate(VAR[var])]))
        rs = []
        for pos in range(3):
            l = [good, good, good]
            l[pos] = bad
            r = Run(P)
            v = r.call(w, pos={0: r.adt(TV, "List", seq(l))})
            rs += [must_fail(r, v, w), nopanic(r)]
        return worst(rs)
    return go


def string(P, var):
    def go():
        r = Run(P)
        w = TV + "::into_string"
        if var == "Ascii":
            s = mk("sym", "s", "seq:u8")
            v = r.call(w, pos={0: r.adt(TV, var, s)})
            return worst([equation(r, r.val(v), ok(s), where=w), nopanic(r)])
        v = r.call(w, pos={0: r.adt(TV, var, *[sym("x%d" % i, t) for i, t in enumerate(VAR[var])])})
        return worst([must_fail(r, v, w), nopanic(r)])
    return go


def obligations(P, tier):
    obs = []
    for dst in SCALAR:
        for var in VAR:
            if VAR[var]:
                obs.append(("into_%s/%s" % (dst, var), scalar(P, dst, var)))
    for dst in VEC:
        for var in VAR:
            if VAR[var]:
                obs.append(("into_%s_vec/%s" % (dst, var), vec1(P, dst, var)))
                obs.append(("into_%s_vec/[%s]" % (dst, var), veclist(P, dst, var)))
                if var not in VEC[dst][1] and isf(VAR[var][0]) != isf(dst):
                    obs.append(("into_%s_vec/mixed-%s" % (dst, var), vecmixed(P, dst, var)))
    for var in VAR:
        obs.append(("into_string/" + var, string(P, var)))
    return obs
