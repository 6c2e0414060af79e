"""C10: batched tile and byte-range requests return one result per request, in request order, or an error."""
from api import *
from va_common import *
from models import run_future

RULE = ("fetch_tiles / tiles_byte_ranges compared, term by term, with fetch_tile / tile_byte_range of every element of the request list; the default get_byte_ranges "
        "with get_bytes of every range; wrapping readers with the reader they wrap")
TECHNIQUE = "value-flow analysis of MIR: the batched result term is compared with the sequence of single-request terms; undefined positions and failing reads must end in Err"

READER = "reader"


SIZE = (700, 500, 256, 128)  # a 3 by 4 grid
LISTS = [[(0, 0)], [(2, 3), (0, 0)], [(1, 2), (1, 2)], [(2, 0), (0, 3), (1, 1)], [(0, 3), (0, 3), (0, 0), (2, 3)]]


def req(n):
    """request list of n symbolic positions, of any length (None), or of given positions"""
    if isinstance(n, list):
        return seq([mk("tup", (I(x), I(y))) for x, y in n]), [(I(x), I(y)) for x, y in n], None
    if n is None:
        xs, ys = mk("sym", "xs", "seq:usize"), mk("sym", "ys", "seq:usize")
        i = fresh("j", "usize")
        return smap(slen(xs), i, mk("tup", (sidx(xs, i), sidx(ys, i)))), xs, ys
    e = [(sym("x%d" % i, "usize"), sym("y%d" % i, "usize")) for i in range(n)]
    return seq([mk("tup", p) for p in e]), e, None


def spec(r, d, x, y, planar, spp):
    gx, gy = d.grid()
    inside = tand(lt(x, gx), lt(y, gy))
    idx = add(mul(y, gx), x)
    if not planar:
        g, v = d.entry(idx)
        return tand(inside, g), v
    es = [d.entry(add(mul(I(b), mul(gx, gy)), idx)) for b in range(spp)]
    return conj(inside, *[e[0] for e in es]), seq([e[1] for e in es])


def ranges(P, planar, n, spp=2):
    def go():
        r = Run(P)
        d = Dir(r, planar=planar, spp=spp, size=SIZE if isinstance(n, list) else None)
        p = d.ifd()
        xy, a, b = req(n)
        kind = "Planar" if planar else "Chunky"
        if n is None:
            r.assume(eq(slen(a), slen(b)))
            i = fresh("j", "usize")
            g, v = spec(r, d, sidx(a, i), sidx(b, i), planar, spp)
            good = tnot(mkexists(slen(a), i, tnot(g)))
            vs = smap(slen(a), i, v)
        else:
            es = [spec(r, d, x, y, planar, spp) for x, y in a]
            good = conj(TRUE, *[g for g, _ in es])
            vs = seq([v for _, v in es])
        got = r.val(r.call(IFD + "::tiles_byte_ranges", pos={0: p, 1: r.ref(xy)}))
        return worst([equation(r, got, ite(good, some(r.adt("TilesByteRanges", kind, vs)), NONE), where=IFD + "::tiles_byte_ranges"), nopanic(r, r.wf)])
    return go


def fetch(P, planar, n, spp=2, extra=None):
    def go():
        r = Run(P)
        d = Dir(r, planar=planar, spp=spp, size=SIZE if isinstance(n, list) else None)
        p = d.ifd()
        rd = sym(READER)
        w = IFD + "::fetch_tiles"
        if n is None:
            xy, a, b = req(None)
            r.assume(eq(slen(a), slen(b)))
            i = fresh("j", "usize")
            g, v = spec(r, d, sidx(a, i), sidx(b, i), planar, spp)
            r.assume(tnot(mkexists(slen(a), i, tnot(g))))
            one = [sym("x0", "usize"), sym("y0", "usize")]
            g1, _ = spec(r, d, one[0], one[1], planar, spp)
            r.assume(g1)
            t1 = r.val(r.payload(r.call(IFD + "::fetch_tile", pos={0: p, 1: one[0], 2: one[1], 3: rd}), 0))
            body = subst(t1, {one[0]: sidx(a, i), one[1]: sidx(b, i)})
            want = smap(slen(a), i, body)
        else:
            xy, e, _ = req(n)
            for x, y in e:
                g, v = spec(r, d, x, y, planar, spp)
                r.assume(g)
            want = seq([r.val(r.payload(r.call(IFD + "::fetch_tile", pos={0: p, 1: x, 2: y, 3: rd}), 0)) for x, y in e])
        got = r.val(r.payload(r.call(w, pos={0: p, 1: r.ref(xy), 2: rd}), 0, what=w))
        return worst([equation(r, got, want, where=w), nopanic(r, r.wf)])
    return go


def bad(P, planar, n, k, spp=2):
    """position k of n has no tile"""
    def go():
        r = Run(P)
        d = Dir(r, planar=planar, spp=spp, size=SIZE if isinstance(n, list) else None)
        p = d.ifd()
        xy, e, _ = req(n)
        for i, (x, y) in enumerate(e):
            g, v = spec(r, d, x, y, planar, spp)
            r.assume(g if i != k else tnot(g))
        w = IFD + "::fetch_tiles (position %d of %d has no tile)" % (k, n if isinstance(n, int) else len(n))
        return worst([must_fail(r, r.call(IFD + "::fetch_tiles", pos={0: p, 1: r.ref(xy), 2: sym(READER)}), w), nopanic(r, r.wf)])
    return go


def failing(P, planar, n, k, spp=2):
    """the read of tile k (of its last band) fails"""
    def go():
        r = Run(P, fetch_mode="err")
        d = Dir(r, planar=planar, spp=spp, size=SIZE if isinstance(n, list) else None)
        p = d.ifd()
        xy, e, _ = req(n)
        for i, (x, y) in enumerate(e):
            g, v = spec(r, d, x, y, planar, spp)
            r.assume(g)
            if i == k:
                rg = v.a[0][-1] if planar else v
                r.assume(tnot(mk("call", "fetch.ok", (rg.a[2][0], rg.a[2][1]), "bool")))
        w = IFD + "::fetch_tiles (read of tile %d of %d fails)" % (k, n if isinstance(n, int) else len(n))
        return worst([must_fail(r, r.call(IFD + "::fetch_tiles", pos={0: p, 1: r.ref(xy), 2: sym(READER)}), w), nopanic(r, r.wf)])
    return go


RANGES = mk("sym", "ranges", "seq:adt:std::ops::Range")


def rlist(r, n):
    if isinstance(n, str):  # "e": an empty range, "f": a non-empty one
        out = []
        for i, c in enumerate(n):
            a, b = sym("a%d" % i, "u64"), sym("b%d" % i, "u64")
            if c == "f":
                r.assume(lt(a, b))
            out.append(mkrange(a, b if c == "f" else a))
        return seq(out)
    if n is not None:
        return seq([mkrange(sym("a%d" % i, "u64"), sym("b%d" % i, "u64")) for i in range(n)])
    xs, ys = mk("sym", "starts", "seq:u64"), mk("sym", "ends", "seq:u64")
    r.assume(eq(slen(xs), slen(ys)))
    i = fresh("j", "usize")
    return smap(slen(xs), i, mkrange(sidx(xs, i), sidx(ys, i)))


def ends(r, rs, i):
    x = sidx(rs, i)
    return r.e.proj(x, ("f", 0, "u64")), r.e.proj(x, ("f", 1, "u64"))


def default_ranges(P, n, fail=None):
    def go():
        r = Run(P, fetch_mode="err")
        rs = rlist(r, n)
        m = slen(rs)
        j = fresh("j", "usize")
        a, b = ends(r, rs, j)
        okj = mk("call", "fetch.ok", (a, b), "bool")
        w = "AsyncFileReader::get_byte_ranges (default)"
        bd = bodyof(P, lambda q: q.endswith("reader::AsyncFileReader::get_byte_ranges") and not q.startswith("<"))
        got = r.call(None, pos={0: sym("self"), 1: rs}, body=bd)
        i = fresh("j", "usize")
        a, b = ends(r, rs, i)
        bad = mkexists(m, i, tnot(mk("call", "fetch.ok", (a, b), "bool")))
        i = fresh("j", "usize")
        a, b = ends(r, rs, i)
        want = smap(m, i, ssub(FILE, a, sub(b, a)))
        out = [equation(r, r.st.pc.facts.simp(eq(r.e.disc(got), I(1))), bad, where=w)]
        r.assume(tnot(bad))
        out.append(equation(r, r.val(r.payload(got, 0, what=w)), want, where=w))
        out.append(nopanic(r, r.wf))
        return worst(out)
    return go


def bodyof(P, pred):
    for b in P.bodies.values():
        if b["kind"] in ("Fn", "AssocFn") and pred(b["path"]):
            return b
    raise Missing("wrapper")


def forward(P, frag, meth):
    """a wrapping reader hands the request to the reader it wraps, unchanged"""
    def go():
        r = Run(P, fetch_mode="err")
        bd = bodyof(P, lambda q: q.startswith("<" + frag) and q.endswith("::" + meth))
        if meth == "get_byte_ranges":
            out = []
            for n in (0, 1, 2, 3, "e", "ef", "fe"):
                r = Run(P, fetch_mode="err")
                rs = rlist(r, n)
                got = r.call(None, pos={1: rs}, body=bd)
                bad = FALSE
                for x in rs.a[0]:
                    bad = tor(bad, tnot(mk("call", "fetch.ok", x.a[2], "bool")))
                out.append(equation(r, r.st.pc.facts.simp(eq(r.e.disc(got), I(1))), bad, where=bd["path"]))
                r.assume(tnot(bad))
                out.append(equation(r, r.val(r.payload(got, 0)), seq([ssub(FILE, x.a[2][0], sub(x.a[2][1], x.a[2][0])) for x in rs.a[0]]), where=bd["path"]))
            return worst(out)
        a, b = sym("a", "u64"), sym("b", "u64")
        got = r.call(None, pos={1: mkrange(a, b)}, body=bd)
        okk = mk("call", "fetch.ok", (a, b), "bool")
        out = [equation(r, r.st.pc.facts.simp(eq(r.e.disc(got), I(0))), okk, where=bd["path"])]
        r.assume(okk)
        out.append(equation(r, r.val(r.payload(got, 0)), ssub(FILE, a, sub(b, a)), where=bd["path"]))
        return worst(out)
    return go


def obligations(P, tier):
    obs = []
    for pl in (False, True):
        nm = "planar" if pl else "chunky"
        for n in [0, 1, 2, None] + ([] if pl and tier == "quick" else [3]) + LISTS:
            q = "any" if n is None else str(n).replace(" ", "")
            obs.append(("ranges/%s/%s" % (nm, q), ranges(P, pl, n)))
            if not (pl and n is None):
                obs.append(("fetch/%s/%s" % (nm, q), fetch(P, pl, n)))
        for n in [1, 2] + LISTS:
            q = str(n).replace(" ", "")
            for k in range(n if isinstance(n, int) else len(n)):
                if isinstance(n, list) and n.count(n[k]) > 1:
                    continue
                obs.append(("missing/%s/%d-of-%s" % (nm, k, q), bad(P, pl, n, k)))
                if not (pl and n == 2):
                    obs.append(("failing/%s/%d-of-%s" % (nm, k, q), failing(P, pl, n, k)))
        for spp in (1, 3):
            obs.append(("fetch/%s/bands%d" % (nm, spp), fetch(P, pl, LISTS[3], spp=spp)))
    for n in (0, 1, 2, 3, None, "e", "ef", "fe", "fef", "eef"):
        obs.append(("default/%s" % ("any" if n is None else n), default_ranges(P, n)))
    for frag in ("std::boxed::Box", "std::sync::Arc"):
        for m in ("get_bytes", "get_byte_ranges"):
            obs.append(("wrap/%s/%s" % (frag.split("::")[-1], m), forward(P, frag, m)))
    obs.append(("wrap/blanket/fetch", forward(P, "T as metadata::fetch", "fetch")))
    return obs
