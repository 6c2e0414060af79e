"""helpers shared by the checks"""
from api import *


def endian(r, be):
    return r.adt("Endianness", "BigEndian" if be else "LittleEndian")


def must_fail(r, v, where=""):
    """the call ends in Err on every input of the class"""
    v = r.st.pc.facts.simp(v)
    c = r.st.pc.facts.simp(eq(r.e.disc(v), I(1)))
    return equation(r, c, TRUE, where=where)


def uses(t, name):
    return any(x.op == "call" and x.a[0] == name for x in subterms(t))


TV = "TagValue"
IFD = "ImageFileDirectory"


class Dir:
    """a directory built through the public constructor from tags with symbolic values"""

    def __init__(self, r, planar=False, be=False, tiled=True, spp=None, bits=None, order="fwd", **opt):
        self.r, self.planar, self.be = r, planar, be
        r.e.maporder = order
        self.m = mk("map0", "map:adt:%s,adt:%s" % (r.N.adt("Tag"), r.N.adt(TV)))
        size = opt.get("size")
        self.iw, self.ih = (I(size[0]), I(size[1])) if size else (sym("image_width", "u32"), sym("image_height", "u32"))
        self.put("ImageWidth", self.long(self.iw))
        self.put("ImageLength", self.long(self.ih))
        self.bits = bits if bits is not None else [sym("bits", "u16")]
        self.put("BitsPerSample", r.adt(TV, "List", seq([r.adt(TV, "Short", b) for b in self.bits])))
        self.spp = sym("samples_per_pixel", "u16") if spp is None else I(spp)
        if spp is None:
            r.assume(lt(self.spp, I(64)))
        self.put("SamplesPerPixel", r.adt(TV, "Short", self.spp))
        self.put("PhotometricInterpretation", r.adt(TV, "Short", I(opt.get("photo", 1))))
        if planar is not None:
            self.put("PlanarConfiguration", r.adt(TV, "Short", I(2 if planar else 1)))
        if tiled:
            self.tw, self.th = (I(size[2]), I(size[3])) if size else (sym("tile_width", "u32"), sym("tile_height", "u32"))
            if not size:
                r.assume(lt(I(0), self.tw), lt(I(0), self.th))
            self.put("TileWidth", self.long(self.tw))
            self.put("TileLength", self.long(self.th))
            self.off, self.cnt = mk("sym", "tile_offsets", "seq:u64"), mk("sym", "tile_byte_counts", "seq:u64")
            self.put("TileOffsets", self.longs8(self.off))
            self.put("TileByteCounts", self.longs8(self.cnt))
        else:
            self.tw, self.th = self.iw, self.ih
        for t, v in opt.get("tags", {}).items():
            self.put(t, v)

    def long(self, x):
        return self.r.adt(TV, "Unsigned", x)

    def longs8(self, s):
        i = fresh("j", "usize")
        return self.r.adt(TV, "List", smap(slen(s), i, self.r.adt(TV, "UnsignedBig", sidx(s, i))))

    def put(self, t, v):
        tag = self.r.adt("Tag", "Unknown", I(t)) if isinstance(t, int) else self.r.adt("Tag", t)
        self.m = mk("minsert", self.m, tag, v)

    def ifd(self):
        r = self.r
        v = r.call(IFD + "::from_tags", pos={0: self.m, 1: endian(r, self.be)})
        return r.ref(r.payload(v, 0, what=IFD + "::from_tags"))

    # ---- specification of the grid
    def grid(self):
        return divceil(self.iw, self.tw), divceil(self.ih, self.th)

    def entry(self, idx):
        """(exists, range) of entry idx of the offset and byte-count tables"""
        o, n = sidx(self.off, idx), sidx(self.cnt, idx)
        have = tand(lt(idx, slen(self.off)), lt(idx, slen(self.cnt)))
        e = add(o, n)
        return tand(have, le(e, I(2 ** 64 - 1))), mkrange(o, e)


def conj(*cs):
    r = TRUE
    for c in cs:
        r = tand(r, c)
    return r


def mkrange(a, b):
    return mk("adt", "std::ops::Range", 0, (a, b))

