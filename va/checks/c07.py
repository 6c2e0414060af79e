"""C07: layouts the library does not implement are errors, never decoded as something else."""
import re
from api import *
from va_common import *
from va_pix import Tiled
from checks import c12, c13, c14

RULE = ("for every value of the predictor, planar-configuration and compression tags, of sample format and depth, that the library does not implement: the success condition of building "
        "the directory (or of decoding the tile) is unsatisfiable")
TECHNIQUE = "abstract interpretation of MIR over symbolic tag values: the success condition of opening and decoding excludes every unimplemented layout code"
TV, IFD = "TagValue", "ImageFileDirectory"
LAYOUT = {"PlanarConfiguration": (1, 2), "Predictor": (1, 2, 3)}


def rejected(P, tag, var, ty, planar, shape):
    """a directory whose layout tag holds any code outside the implemented ones is not built"""
    def go():
        r = Run(P)
        d = Dir(r, planar=planar, spp=2, size=(64, 64, 16, 16))
        x = sym("layout_code", ty)
        r.assume(*[tnot(eq(x, I(c))) for c in LAYOUT[tag]])
        v = r.adt(TV, var, x)
        d.put(tag, v if shape == "one" else r.adt(TV, "List", seq([v])))
        got = r.call(IFD + "::from_tags", pos={0: d.m, 1: endian(r, False)})
        return worst([must_fail(r, got, "%s::from_tags (%s outside %s)" % (IFD, tag, LAYOUT[tag])), nopanic(r)])
    return go


def anycode(P, planar):
    """any compression code the default registry has no codec for"""
    def go():
        r = Run(P)
        x = sym("compression", "u16")
        r.assume(*[tnot(eq(x, I(c))) for c in list(c12.CODEC)])
        t = Tiled(r, comp=x, codec=False, photo=2, planar=planar, spp=2)
        t.reg = r.ref(r.call("Default for DecoderRegistry::default", pos={}))
        tile = t.fetch()
        return worst([must_fail(r, t.decode(tile), "Tile::decode (any compression without a codec)"), nopanic(r, r.wf)])
    return go


KNOWN = {"uint": (1, 8, 16, 32, 64), "int": (8, 16, 32, 64), "float": (32, 64), "void": ()}


def untyped(P, bits, fmts, planar, size, be=False, how=None):
    """samples the library has no type for: whatever number of bytes they decode to, no array of a supported type results"""
    def go():
        r = Run(P)
        n = len(fmts)
        bl = []
        for i, b in enumerate(bits):
            if isinstance(b, str):
                x = sym(b, "u16")
                if not any(x is y for y in bl):
                    r.assume(*[tnot(eq(x, I(c))) for c in (how if how is not None else KNOWN[fmts[0]])])
                b = x
            bl.append(b)
        w, h = 4, 2
        t = Tiled(r, bits=8, bits_list=bl, fmts=fmts, planar=planar, spp=n, be=be, w=w, h=h)
        tile = t.fetch()
        out = seq([sym("byte%d" % k, "u8") for k in range(w * h * size * (1 if planar else n))])
        r.e.codec_hook = lambda c, args: ok(out)
        got = t.decode(tile)
        bad = r.val(eq(r.e.disc(got), I(1)))
        if bad is TRUE:
            return worst([R("proved", "", "Tile::decode", fns=fns_of(r)), nopanic(r, r.wf)])
        safe = nopanic(r, r.wf)
        if bad is not FALSE and not r.st.assume(tnot(bad)):
            return safe
        if bad is not FALSE:
            r.wf.append(tnot(bad))
        dt = r.val(r.call("Array::data_type", pos={0: r.ref(r.payload(got, 0))}))
        return worst([equation(r, r.e.disc(dt), I(0), where="Tile::decode (samples without a type)"), safe])
    return go


def obligations(P, tier):
    obs = []
    for tag in LAYOUT:
        for var, ty in (("Short", "u16"), ("Unsigned", "u32"), ("Byte", "u8"), ("UnsignedBig", "u64"), ("Signed", "i32"), ("SignedShort", "i16")):
            for pl in (False, True):
                for sh in ("one", "list"):
                    obs.append(("tag/%s/%s/%s/%s" % (tag, var, "planar" if pl else "chunky", sh), rejected(P, tag, var, ty, pl, sh)))
    for pl in (False, True):
        nm = "planar" if pl else "chunky"
        for k in (1, 2, 4, 8):
            for be in (False, True):
                e = "be" if be else "le"
                for f in KNOWN:
                    obs.append(("samples/%s/%s/%s/any-depth/%d-bytes" % (nm, e, f, k), untyped(P, ["depth", "depth"], [f, f], pl, k, be)))
                for i, fs in enumerate((["uint", "int"], ["int", "uint", "uint"], ["uint", "uint", "float"], ["float", "float", "void"], ["void", "uint"])):
                    for b in (8, 16, 32, 64):
                        if b == 8 * k or k == 1:
                            obs.append(("samples/%s/%s/mixed-formats%d/%d/%d-bytes" % (nm, e, i, b, k), untyped(P, [b] * len(fs), fs, pl, k, be)))
                for i, bs in enumerate(([8, "other"], ["other", 8], [8, 8, "other"], ["other", "other", 8], [8, "other", 8])):
                    obs.append(("samples/%s/%s/mixed-depths%d/%d-bytes" % (nm, e, i, k), untyped(P, bs, ["uint"] * len(bs), pl, k, be, how=(8,))))
    obs.append(("compression/any/chunky", anycode(P, False)))
    obs.append(("compression/any/planar", anycode(P, True)))
    pick = {c12: r"^missing|^default/(%s)$|^codec/lerc/.*other|^codec/jpeg/" % "|".join(map(str, c12.NOCODEC)), c13: "^undefined", c14: "^unsupported"}
    for m, rx in pick.items():
        for k, f in m.obligations(P, tier):
            if re.search(rx, k):
                obs.append(("%s/%s" % (m.__name__.split(".")[-1], k), f))
    return obs
