"""C06: numeric codes and their named variants correspond one to one, and unknown codes keep their number."""
from api import *
from va_common import *

TABLES = {
    "Tag": dict(Artist=315, BitsPerSample=258, CellLength=265, CellWidth=264, ColorMap=320, Compression=259, Copyright=33432, DateTime=306,
                ExtraSamples=338, FillOrder=266, FreeByteCounts=289, FreeOffsets=288, GrayResponseCurve=291, GrayResponseUnit=290, HostComputer=316,
                ImageDescription=270, ImageLength=257, ImageWidth=256, Make=271, MaxSampleValue=281, MinSampleValue=280, Model=272,
                NewSubfileType=254, Orientation=274, PhotometricInterpretation=262, PlanarConfiguration=284, ResolutionUnit=296, RowsPerStrip=278,
                SamplesPerPixel=277, Software=305, StripByteCounts=279, StripOffsets=273, SubfileType=255, Threshholding=263, XResolution=282,
                YResolution=283, Predictor=317, TileWidth=322, TileLength=323, TileOffsets=324, TileByteCounts=325, SampleFormat=339,
                SMinSampleValue=340, SMaxSampleValue=341, JPEGTables=347, ModelPixelScale=33550, ModelTransformation=34264, ModelTiepoint=33922,
                GeoKeyDirectory=34735, GeoDoubleParams=34736, GeoAsciiParams=34737, GdalNodata=42113, GdalMetadata=42112, LercParameters=50674),
    "Type": dict(BYTE=1, ASCII=2, SHORT=3, LONG=4, RATIONAL=5, SBYTE=6, UNDEFINED=7, SSHORT=8, SLONG=9, SRATIONAL=10, FLOAT=11, DOUBLE=12,
                 IFD=13, LONG8=16, SLONG8=17, IFD8=18),
    "Compression": dict(Huffman=2, Fax3=3, Fax4=4, LZW=5, JPEG=6, ModernJPEG=7, Deflate=8, OldDeflate=32946, PackBits=32773, LERC=34887,
                        LZMA=34925, WebP=50001, JPEG2k=34712, ZSTD=50000, None_=1),
    "ExtraSamples": dict(Unspecified=0, AssociatedAlpha=1, UnassociatedAlpha=2),
    "PhotometricInterpretation": dict(WhiteIsZero=0, BlackIsZero=1, RGB=2, RGBPalette=3, TransparencyMask=4, CMYK=5, YCbCr=6, CIELab=8),
    "PlanarConfiguration": dict(Chunky=1, Planar=2),
    "Predictor": dict(None_=1, Horizontal=2, FloatingPoint=3),
    "ResolutionUnit": dict(None_=1, Inch=2, Centimeter=3),
    "SampleFormat": dict(Uint=1, Int=2, Float=3, Void=4),
}
EXH = {"Tag", "Compression", "SampleFormat"}


def nm(n):
    return n.rstrip("_")


def named(P, en, n):
    def go():
        code = TABLES[en][n]
        r = Run(P)
        v = r.adt(en, nm(n))
        rs = []
        w = en + "::from_u16"
        rs.append(equation(r, r.val(r.call(w, pos={0: I(code)})), some(v), where=w))
        if en in EXH:
            w = en + "::from_u16_exhaustive"
            rs.append(equation(r, r.val(r.call(w, pos={0: I(code)})), v, where=w))
        w = en + "::to_u16"
        rs.append(equation(r, r.val(r.call(w, pos={0: v})), I(code), where=w))
        rs.append(nopanic(r))
        return worst(rs)
    return go


def roundtrip(P, en, exh):
    """for every other 16-bit code: decoding then encoding gives the code back"""
    def go():
        r = Run(P)
        n = sym("code", "u16")
        r.assume(*[tnot(eq(n, I(c))) for c in TABLES[en].values()])  # those are decided one by one
        if exh:
            w = en + "::from_u16_exhaustive"
            v = r.call(w, pos={0: n})
        else:
            w = en + "::from_u16"
            o = r.call(w, pos={0: n})
            c = r.st.pc.facts.simp(eq(r.e.disc(o), I(1)))
            if not r.st.assume(c):
                return nopanic(r)
            v = r.st.pc.facts.simp(r.e.proj(o, ("v", 1, 0, None)))
        back = r.val(r.call(en + "::to_u16", pos={0: v}))
        return worst([equation(r, back, n, where=w), nopanic(r)])
    return go


def unknown(P, en):
    """a code with no name is kept as that very number and stays distinct from every named variant"""
    def go():
        r = Run(P)
        n = sym("code", "u16")
        o = r.val(r.call(en + "::from_u16", pos={0: n}))
        e = r.val(r.call(en + "::from_u16_exhaustive", pos={0: n}))
        un = r.adt(en, "Unknown", n)
        want = ite(eq(r.e.disc(o), I(1)), r.e.proj(o, ("v", 1, 0, None)), un)
        w = en + "::from_u16_exhaustive"
        q = r.val(r.call(en + "::to_u16", pos={0: un}))
        return worst([equation(r, e, want, where=w), equation(r, q, n, where=en + "::to_u16"), nopanic(r)])
    return go


def obligations(P, tier):
    obs = []
    for en, t in TABLES.items():
        for n in t:
            obs.append(("%s::%s" % (en, nm(n)), named(P, en, n)))
        obs.append(("%s/roundtrip" % en, roundtrip(P, en, False)))
        if en in EXH:
            obs.append(("%s/roundtrip-exhaustive" % en, roundtrip(P, en, True)))
            obs.append(("%s/unknown" % en, unknown(P, en)))
    return obs
