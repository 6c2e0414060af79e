"""C14: arrays have the declared shape, element type and exactly the decoded values."""
from va_pix import *

RULE = ("Tile::decode, Array and TypedArray constructors and accessors on data of given and of any length: Ok exactly when the data fill the shape, element i is the i-th sample, "
        "the type follows the sample-format table, one-bit samples expand most significant bit first")
TECHNIQUE = "value-flow analysis of MIR: constructed array terms compared with the sample table; acceptance condition compared with the exact length equation"

TYPES = ("Bool", "UInt8", "UInt16", "UInt32", "UInt64", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64")
SIZE = {"Bool": 1, "UInt8": 1, "Int8": 1, "UInt16": 2, "Int16": 2, "UInt32": 4, "Int32": 4, "Float32": 4, "UInt64": 8, "Int64": 8, "Float64": 8}
DATA = mk("sym", "data", "seq:u8")


def els(s, dt):
    """elements of typed data over byte sequence s"""
    ty = ELT[dt]
    i = fresh("j", "usize")
    w = WIDTH[ty]
    return smap(div(slen(s), I(w)), i, rd(ty, False, s, mul(I(w), i)))


def tryptr(r, dt):
    return NONE if dt is None else some(r.adt("DataType", dt))


def typed(P, dt):
    """TypedArray::try_new on data of any length"""
    def go():
        r = Run(P)
        w = "TypedArray::try_new"
        got = r.call(w, pos={0: DATA, 1: tryptr(r, dt)})
        if dt == "Bool":
            return worst([must_fail(r, got, w + " (Bool)"), nopanic(r, r.wf)])
        n = SIZE[dt or "UInt8"]
        good = eq(rem(slen(DATA), I(n)), I(0))
        rs = [equation(r, eq(r.e.disc(got), I(0)), good, where=w)]
        r.assume(good)
        v = r.val(r.payload(got, 0, what=w))
        rs.append(equation(r, v, r.adt("TypedArray", dt or "UInt8", els(DATA, dt or "UInt8") if dt not in (None, "UInt8") else DATA), where=w))
        p = r.ref(v)
        rs.append(equation(r, r.val(r.call("TypedArray::len", pos={0: p})), div(slen(DATA), I(n)), where="TypedArray::len"))
        rs.append(equation(r, r.val(r.call("TypedArray::is_empty", pos={0: p})), eq(div(slen(DATA), I(n)), I(0)), where="TypedArray::is_empty"))
        return worst(rs + [nopanic(r, r.wf)])
    return go


def typed_n(P, dt, n):
    """TypedArray::try_new and its views on n bytes"""
    def go():
        r = Run(P)
        w = "TypedArray::try_new"
        bs = [sym("data[%d]" % i, "u8") for i in range(n)]
        got = r.call(w, pos={0: seq(bs), 1: tryptr(r, dt)})
        if n % SIZE[dt]:
            return worst([must_fail(r, got, w + " (%d bytes as %s)" % (n, dt)), nopanic(r, r.wf)])
        v = r.val(r.payload(got, 0, what=w))
        p = r.ref(v)
        return worst([equation(r, v, r.adt("TypedArray", dt, seq(elements(bs, dt))), where=w),
                      equation(r, r.val(r.call("TypedArray::len", pos={0: p})), I(n // SIZE[dt]), where="TypedArray::len"),
                      equation(r, r.val(r.call("AsRef for TypedArray::as_ref", pos={0: p})), seq(bs), where="TypedArray::as_ref"), nopanic(r, r.wf)])
    return go


def boolview(P, n):
    """a Bool array's length and bytes"""
    def go():
        r = Run(P)
        bs = [sym("flag%d" % i, "bool") for i in range(n)]
        p = r.ref(r.adt("TypedArray", "Bool", seq(bs)))
        return worst([equation(r, r.val(r.call("TypedArray::len", pos={0: p})), I(n), where="TypedArray::len (Bool)"),
                      equation(r, r.val(r.call("TypedArray::is_empty", pos={0: p})), B(n == 0), where="TypedArray::is_empty (Bool)"), nopanic(r, r.wf)])
    return go


def whole(P, dt):
    """Array::try_new on data of any length and any shape"""
    def go():
        r = Run(P)
        w = "Array::try_new"
        a, b, c = sym("d0", "usize"), sym("d1", "usize"), sym("d2", "usize")
        shape = seq([a, b, c])
        got = r.call(w, pos={0: DATA, 1: shape, 2: tryptr(r, dt)})
        n = mul(mul(a, b), c)
        k = SIZE[dt or "UInt8"]
        M = I(2 ** 64 - 1)
        # the product is computed left to right; when a later factor is 0 an early overflow may still be an error
        fits = conj(le(mul(a, b), M), le(n, M))
        if dt == "Bool":
            good = tand(fits, le(divceil(n, I(8)), slen(DATA)))
        else:
            good = tand(fits, tand(eq(rem(slen(DATA), I(k)), I(0)), eq(div(slen(DATA), I(k)), n))) if k > 1 else tand(fits, eq(slen(DATA), n))
        rs = [equation(r, eq(r.e.disc(got), I(0)), good, where=w)]
        if dt == "Bool":
            return worst(rs + [nopanic(r, r.wf)])
        r.assume(good)
        v = r.payload(got, 0, what=w)
        want = r.adt("TypedArray", dt or "UInt8", els(DATA, dt) if dt not in (None, "UInt8") else DATA)
        rs.append(equation(r, r.val(r.call("Array::into_inner", pos={0: v})), mk("tup", (want, shape, tryptr(r, dt))), where=w))
        return worst(rs + [nopanic(r, r.wf)])
    return go


def access(P):
    """accessors agree with into_inner"""
    def go():
        r = Run(P)
        t = Tiled(r, bits=16, spp=2, w=3, h=2)
        tile = t.fetch()
        outs = t.run(tile, r.adt("PhotometricInterpretation", "BlackIsZero"))
        v = r.payload(t.decode(tile), 0, what="Tile::decode")
        p = r.ref(v)
        ex = t.expected(outs, "none", False, "UInt16").a[0]
        return worst([equation(r, r.val(r.call("Array::data", pos={0: p})), ex[0], where="Array::data"),
                      equation(r, r.val(r.call("Array::shape", pos={0: p})), ex[1], where="Array::shape"),
                      equation(r, r.val(r.call("Array::data_type", pos={0: p})), ex[2], where="Array::data_type"), nopanic(r, r.wf)])
    return go


def nd(P, dt, bits, fmt, planar):
    """conversion to ndarray keeps type, shape and values"""
    def go():
        r = Run(P)
        t = Tiled(r, bits=bits, fmt=fmt, spp=2, w=3, h=2, planar=planar)
        tile = t.fetch()
        outs = t.run(tile, r.adt("PhotometricInterpretation", "BlackIsZero"))
        v = r.payload(t.decode(tile), 0, what="Tile::decode")
        w = "NdArray::try_from"
        got = r.call("TryFrom for NdArray::try_from", pos={0: v})
        if dt is None:
            return worst([must_fail(r, got, w + " (unknown type)"), nopanic(r, r.wf)])
        ex = t.expected(outs, "none", False, dt).a[0]
        want = r.adt("NdArray", dt.replace("UInt", "Uint"), mk("adt", "$ndarray", 0, (ex[1], ex[0].a[2][0])))
        return worst([equation(r, r.val(r.payload(got, 0, what=w)), want, where=w), nopanic(r, r.wf)])
    return go


def size(P, dt):
    def go():
        r = Run(P)
        return equation(r, r.val(r.call("DataType::size", pos={0: r.ref(r.adt("DataType", dt))})), I(SIZE[dt]), where="DataType::size")
    return go


def obligations(P, tier):
    obs = [("accessors", access(P))]
    for dt in TYPES:
        obs.append(("size/" + dt, size(P, dt)))
        obs.append(("typed/%s/any" % dt, typed(P, dt)))
        obs.append(("array/%s/any" % dt, whole(P, dt)))
        if dt != "Bool":
            for n in range(0, 3 * SIZE[dt] + 1):
                obs.append(("typed/%s/%d" % (dt, n), typed_n(P, dt, n)))
    obs += [("typed/unknown/any", typed(P, None)), ("array/unknown/any", whole(P, None))]
    for n in (0, 1, 9):
        obs.append(("bool/view/%d" % n, boolview(P, n)))
    for pl in (False, True):
        nm = "planar" if pl else "chunky"
        for (fmt, bits), dt in DTYPE.items():
            if dt == "Bool":
                continue
            for w, h, s in ((1, 1, 1), (3, 2, 1), (2, 3, 4), (4, 1, 3)):
                obs.append(("decode/%s/%s/%dx%dx%d" % (nm, dt, w, h, s), decoded(P, fmt=fmt, bits=bits, planar=pl, w=w, h=h, spp=s)))
            e = bits // 8
            n = 3 * 2 * (1 if pl else 2) * e
            nb = 2 if pl else 1
            for k in sorted({0, n - e, n - 1, n + 1, n + e, 2 * n}):
                if k != n:
                    obs.append(("length/%s/%s/%d-of-%d" % (nm, dt, k, n), decoded(P, fmt=fmt, bits=bits, planar=pl, w=3, h=2, spp=2, lens=[k] + [n] * (nb - 1), dt="error")))
            obs.append(("ndarray/%s/%s" % (nm, dt), nd(P, dt, bits, fmt, pl)))
        # one-bit samples
        for w, h, s in ((8, 1, 1), (16, 2, 1), (3, 3, 1), (8, 2, 2), (16, 1, 3), (1, 1, 1), (24, 1, 1)):
            if not pl or (w * h) % 8 == 0:
                obs.append(("bool/%s/%dx%dx%d" % (nm, w, h, s), decoded(P, bits=1, planar=pl, w=w, h=h, spp=s)))
        obs.append(("bool/%s/short" % nm, decoded(P, bits=1, planar=pl, w=16, h=2, spp=2, lens=[7] if not pl else [4, 3], dt="error")))
        # no sample type: the bytes as they are, and no type
        for fmt, bits in (("void", 8), ("float", 8)):
            obs.append(("untyped/%s/%s%d" % (nm, fmt, bits), decoded(P, fmt=fmt, bits=bits, planar=pl, spp=2, w=3, h=2, dt=None)))
        obs.append(("untyped/%s/mixed-format" % nm, decoded(P, fmts=["uint", "int"], planar=pl, spp=2, dt=None)))
        obs.append(("untyped/%s/mixed-format-last" % nm, decoded(P, fmts=["uint", "uint", "float"], planar=pl, spp=3, dt=None)))
        obs.append(("untyped/%s/mixed-depth" % nm, decoded(P, bits_list=[8, 16], planar=pl, spp=2, dt=None)))
        obs.append(("untyped/%s/mixed-depth-last" % nm, decoded(P, bits_list=[8, 8, 16], planar=pl, spp=3, dt=None)))
        obs.append(("ndarray/%s/untyped" % nm, nd(P, None, 8, "void", pl)))
        for fmt, bits in (("uint", 4), ("uint", 12), ("uint", 24), ("int", 1), ("float", 16), ("void", 16), ("int", 24), ("float", 24), ("uint", 128)):
            obs.append(("unsupported/%s/%s%d" % (nm, fmt, bits), decoded(P, fmt=fmt, bits=bits, planar=pl, spp=2, w=8, h=2, dt="error")))
    return obs
