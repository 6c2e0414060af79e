"""C09: a tile position is served by exactly the byte ranges its entries in the offset and byte-count tables name; other positions are errors."""
from api import *
from va_common import *
from models import FILE

RULE = ("ImageFileDirectory::{tile_count, tile_byte_range, tiles_byte_ranges, fetch_tile} of a directory with symbolic sizes and tables of any length: "
        "the result equals row-major (band-major for planar) lookup for positions inside the grid, None / an error otherwise")


def world(P, planar, **kw):
    r = Run(P, **kw)
    d = Dir(r, planar=planar)
    p = d.ifd()
    return r, d, p


def spec_range(r, d, x, y, planar):
    """(defined, value) of the byte range of tile x, y"""
    gx, gy = d.grid()
    inside = tand(lt(x, gx), lt(y, gy))
    idx = add(mul(y, gx), x)
    if not planar:
        g, v = d.entry(idx)
        return tand(inside, g), r.adt("TileByteRange", "Chunky", v)
    return inside, None


def count(P, planar):
    def go():
        r, d, p = world(P, planar)
        gx, gy = d.grid()
        return worst([equation(r, r.val(r.call(IFD + "::tile_count", pos={0: p})), some(mk("tup", (gx, gy))), where=IFD + "::tile_count"), nopanic(r, r.wf)])
    return go


def bigcount(P, size):
    """sizes near the limits of the tag's type"""
    def go():
        r = Run(P)
        d = Dir(r, size=size)
        p = d.ifd()
        g = [-(-size[i] // size[i + 2]) for i in (0, 1)]
        return worst([equation(r, r.val(r.call(IFD + "::tile_count", pos={0: p})), some(mk("tup", (I(g[0]), I(g[1])))), where=IFD + "::tile_count (%dx%d, tiles %dx%d)" % size), nopanic(r, r.wf)])
    return go


def at(P, planar, spp, size, x, y, fetch):
    """a given position of a grid of given size"""
    def go():
        r = Run(P)
        d = Dir(r, planar=planar, spp=spp, size=size)
        p = d.ifd()
        gx, gy = [-(-size[i] // size[i + 2]) for i in (0, 1)]
        w = IFD + ("::fetch_tile" if fetch else "::tile_byte_range") + " (tile %d,%d of %dx%d)" % (x, y, gx, gy)
        inside = x < gx and y < gy
        es = [d.entry(I(b * gx * gy + y * gx + x)) for b in range(spp if planar else 1)]
        args = {0: p, 1: I(x), 2: I(y)}
        if not inside:
            if fetch:
                return worst([must_fail(r, r.call(IFD + "::fetch_tile", pos={**args, 3: sym("reader")}), w), nopanic(r, r.wf)])
            return worst([equation(r, r.val(r.call(IFD + "::tile_byte_range", pos=args)), NONE, where=w), nopanic(r, r.wf)])
        r.assume(*[g for g, _ in es])
        if fetch:
            t = r.payload(r.call(IFD + "::fetch_tile", pos={**args, 3: sym("reader")}), 0, what=w)
            got = r.val(r.call("Tile::compressed_bytes", pos={0: r.ref(t)}))
            data = [ssub(FILE, v.a[2][0], sub(v.a[2][1], v.a[2][0])) for _, v in es]
            want = r.adt("CompressedBytes", "Planar", seq(data)) if planar else r.adt("CompressedBytes", "Chunky", data[0])
        else:
            got = r.val(r.call(IFD + "::tile_byte_range", pos=args))
            vs = [v for _, v in es]
            want = some(r.adt("TileByteRange", "Planar", seq(vs)) if planar else r.adt("TileByteRange", "Chunky", vs[0]))
        return worst([equation(r, got, want, where=w), nopanic(r, r.wf)])
    return go


SIZES = [(2 ** 32 - 1, 2 ** 32 - 1, 256, 512), (2 ** 32 - 1, 2 ** 32 - 1, 1, 1), (2 ** 32 - 1, 2 ** 32 - 1, 2 ** 32 - 1, 2 ** 32 - 1), (2 ** 31 + 1, 2 ** 24 + 1, 2, 2), (2 ** 32 - 255, 2 ** 32 - 256, 256, 256),
         (100003, 65537, 7, 3), (1, 1, 2 ** 32 - 1, 2 ** 31), (2 ** 25 + 1, 2 ** 24 + 3, 16, 1)]


def nocount(P):
    def go():
        r = Run(P)
        d = Dir(r, tiled=False)
        p = d.ifd()
        x, y = sym("x", "usize"), sym("y", "usize")
        rs = [equation(r, r.val(r.call(IFD + "::tile_count", pos={0: p})), NONE, where=IFD + "::tile_count (no tile size)"),
              equation(r, r.val(r.call(IFD + "::tile_byte_range", pos={0: p, 1: x, 2: y})), NONE, where=IFD + "::tile_byte_range (no tiles)"),
              must_fail(r, r.call(IFD + "::fetch_tile", pos={0: p, 1: x, 2: y, 3: sym("reader")}), IFD + "::fetch_tile (no tiles)"),
              nopanic(r, r.wf)]
        return worst(rs)
    return go


def chunky(P, cls):
    def go():
        r, d, p = world(P, False)
        x, y = sym("x", "usize"), sym("y", "usize")
        g, v = spec_range(r, d, x, y, False)
        rs = []
        if cls == "range":
            got = r.val(r.call(IFD + "::tile_byte_range", pos={0: p, 1: x, 2: y}))
            rs.append(equation(r, got, ite(g, some(v), NONE), where=IFD + "::tile_byte_range"))
        elif cls == "fetch":
            r.assume(g)
            t = r.payload(r.call(IFD + "::fetch_tile", pos={0: p, 1: x, 2: y, 3: sym("reader")}), 0, what=IFD + "::fetch_tile")
            tp = r.ref(t)
            a, b = v.a[2][0].a[2]
            rs += tile_bytes(r, tp, x, y, r.adt("CompressedBytes", "Chunky", ssub(FILE, a, sub(b, a))))
        else:
            r.assume(tnot(g))
            rs.append(must_fail(r, r.call(IFD + "::fetch_tile", pos={0: p, 1: x, 2: y, 3: sym("reader")}), IFD + "::fetch_tile (%s)" % cls))
        rs.append(nopanic(r, r.wf))
        return worst(rs)
    return go


def planar(P, cls, n):
    """n bands, or any number of bands (n None)"""
    def go():
        r = Run(P)
        d = Dir(r, planar=True, spp=n)
        p = d.ifd()
        x, y = sym("x", "usize"), sym("y", "usize")
        gx, gy = d.grid()
        inside = tand(lt(x, gx), lt(y, gy))
        idx = add(mul(y, gx), x)
        if n is None:
            b = fresh("j", "usize")
            g, v = d.entry(add(mul(b, mul(gx, gy)), idx))
            bad = mkexists(d.spp, b, tnot(g))
            vs = smap(d.spp, b, v)
            good = tand(inside, tnot(bad))
        else:
            es = [d.entry(add(mul(I(b), mul(gx, gy)), idx)) for b in range(n)]
            good = conj(inside, *[e[0] for e in es])
            vs = seq([e[1] for e in es])
        rs = []
        if cls == "range":
            got = r.val(r.call(IFD + "::tile_byte_range", pos={0: p, 1: x, 2: y}))
            rs.append(equation(r, got, ite(good, some(r.adt("TileByteRange", "Planar", vs)), NONE), where=IFD + "::tile_byte_range (planar)"))
        elif cls == "fetch":
            r.assume(good)
            t = r.payload(r.call(IFD + "::fetch_tile", pos={0: p, 1: x, 2: y, 3: sym("reader")}), 0, what=IFD + "::fetch_tile")
            if n is None:
                a, c = v.a[2]
                data = smap(d.spp, b, ssub(FILE, a, sub(c, a)))
            else:
                data = seq([ssub(FILE, q.a[2][0], sub(q.a[2][1], q.a[2][0])) for _, q in es])
            rs += tile_bytes(r, r.ref(t), x, y, r.adt("CompressedBytes", "Planar", data))
        else:
            r.assume(tnot(good))
            rs.append(must_fail(r, r.call(IFD + "::fetch_tile", pos={0: p, 1: x, 2: y, 3: sym("reader")}), IFD + "::fetch_tile (planar, %s)" % cls))
        rs.append(nopanic(r, r.wf))
        return worst(rs)
    return go


def tile_bytes(r, tp, x, y, want):
    return [equation(r, r.val(r.call("Tile::x", pos={0: tp})), x, where="Tile::x"),
            equation(r, r.val(r.call("Tile::y", pos={0: tp})), y, where="Tile::y"),
            equation(r, r.val(r.call("Tile::compressed_bytes", pos={0: tp})), want, where="Tile::compressed_bytes")]


def obligations(P, tier):
    obs = [("count/%dx%d/%dx%d" % z, bigcount(P, z)) for z in SIZES]
    for size in ((700, 500, 256, 128), (512, 256, 256, 128), (100, 1, 256, 256), (1, 900, 64, 64), (65, 129, 64, 64)):
        gx, gy = [-(-size[i] // size[i + 2]) for i in (0, 1)]
        ps = {(0, 0), (gx - 1, 0), (0, gy - 1), (gx - 1, gy - 1), (gx // 2, gy // 2), (gx, 0), (0, gy), (gx, gy), (gx * gy, 0), (0, gx * gy), (gx + 1, gy - 1), (2 ** 63, 1), (1, 2 ** 63)}
        for x, y in sorted(ps):
            for pl, spp in ((False, 3), (True, 3), (True, 1)):
                for f in (False, True):
                    obs.append(("at/%dx%d/%s%d/%d,%d/%s" % (size[0], size[1], "planar" if pl else "chunky", spp, x, y, "fetch" if f else "range"), at(P, pl, spp, size, x, y, f)))
    obs += [("count/chunky", count(P, False)), ("count/planar", count(P, True)), ("count/untiled", nocount(P))]
    for c in ("range", "fetch", "outside"):
        obs.append(("chunky/" + c, chunky(P, c)))
        for n in (1, 2, 3, None):
            obs.append(("planar/%s/%s" % (c, n or "any"), planar(P, c, n)))
    return obs
