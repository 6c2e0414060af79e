"""C22: the reported header size is the smallest non-zero tile or strip offset."""
from api import *
from va_common import *

RULE = "TIFF::header_byte_size of directories whose offset tables hold symbolic entries, compared with the minimum of the non-zero entries, one obligation per arrangement of tables, entries and zeros"
TECHNIQUE = "value-flow analysis of MIR: the result term of the fold over all offset tables compared with the minimum of the non-zero entries"
W = "TIFF::header_byte_size"


def table(r, xs):
    return r.adt(TV, "List", seq([r.adt(TV, "UnsignedBig", x) for x in xs]))


def directory(r, tiles, strips):
    tags = {}
    if tiles is not None:
        tags["TileWidth"] = r.adt(TV, "Unsigned", I(16))
        tags["TileLength"] = r.adt(TV, "Unsigned", I(16))
        tags["TileOffsets"] = table(r, tiles)
        tags["TileByteCounts"] = table(r, [I(7) for _ in tiles])
    if strips is not None:
        tags["StripOffsets"] = table(r, strips)
        tags["StripByteCounts"] = table(r, [I(7) for _ in strips])
    return r.e.load(r.st, Dir(r, tiled=False, spp=1, bits=[I(8)], size=(64, 64, 16, 16), tags=tags).ifd())


def header(P, layout):
    """layout: per directory (tile entries, strip entries); an entry is a name, or 0 for a sparse tile"""
    def go():
        r = Run(P)
        r.e.sharp = True
        vs = []

        def val(n):
            if n == 0:
                return I(0)
            v = sym(n, "u64")
            r.assume(lt(I(0), v))
            vs.append(v)
            return v
        ds = [directory(r, t if t is None else [val(n) for n in t], s if s is None else [val(n) for n in s]) for t, s in layout]
        tiff = r.ref(r.call("TIFF::new", pos={0: seq(ds), 1: endian(r, False)}))
        got = r.val(r.call(W, pos={0: tiff}))
        want = vs[0]
        for v in vs[1:]:
            want = tmin(want, v)
        return worst([equation(r, got, want, where=W), nopanic(r, r.wf)])
    return go


LAYOUTS = {
    "tiles": [(["a"], None)], "strips": [(None, ["a"])],
    "tiles2": [(["a", "b"], None)], "tiles3": [(["a", "b", "c"], None)],
    "strips2": [(None, ["a", "b"])], "strips3": [(None, ["a", "b", "c"])],
    "sparse-first": [([0, "a", "b"], None)], "sparse-last": [(["a", "b", 0], None)], "sparse-middle": [(["a", 0, "b"], None)],
    "sparse-strip": [(None, [0, "a", 0, "b"])],
    "both": [(["a"], ["b"])], "both2": [(["a", "b"], ["c"])], "both-sparse": [([0, "a"], [0, "b"])],
    "two": [(["a"], None), (["b"], None)], "two-strips": [(None, ["a"]), (None, ["b"])], "mixed": [(["a"], None), (None, ["b"])],
    "mixed2": [(None, ["a", "b"]), (["c"], None)], "three": [(["a"], None), (["b"], None), (["c"], None)],
    "empty-directory": [(None, None), (["a", "b"], None)], "empty-last": [(["a", "b"], None), (None, None)],
    "sparse-directory": [([0, 0], None), (["a", "b"], None)], "sparse-last-directory": [(["a", "b"], None), ([0], [0])],
    "empty-table": [([], None), (None, ["a", "b"])], "overviews": [(["a", "b"], None), (["c", 0], None), (None, ["d"])],
}


def obligations(P, tier):
    return [(k, header(P, v)) for k, v in LAYOUTS.items()]
