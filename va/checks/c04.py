"""C04: each tag of a directory surfaces, decoded, under its own accessor and nowhere else; unknown tags are kept."""
from api import *
from va_common import *

IFD, TV = "ImageFileDirectory", "TagValue"
STR = ("ImageDescription", "Software", "DateTime", "Artist", "HostComputer", "Copyright", "GdalNodata", "GdalMetadata")
#  tag -> (accessor, kind)
FIELDS = {
    "NewSubfileType": ("new_subfile_type", "u32"), "ImageWidth": ("image_width", "u32!"), "ImageLength": ("image_height", "u32!"),
    "BitsPerSample": ("bits_per_sample", "u16v!"), "Compression": ("compression", "comp"), "PhotometricInterpretation": ("photometric_interpretation", "photo"),
    "ImageDescription": ("image_description", "str"), "StripOffsets": ("strip_offsets", "u64v"), "Orientation": ("orientation", "u16"),
    "SamplesPerPixel": ("samples_per_pixel", "u16!"), "RowsPerStrip": ("rows_per_strip", "u32"), "StripByteCounts": ("strip_byte_counts", "u64v"),
    "MinSampleValue": ("min_sample_value", "u16v"), "MaxSampleValue": ("max_sample_value", "u16v"), "XResolution": ("x_resolution", "rat"),
    "YResolution": ("y_resolution", "rat"), "PlanarConfiguration": ("planar_configuration", "planar"), "ResolutionUnit": ("resolution_unit", "resunit"),
    "Software": ("software", "str"), "DateTime": ("date_time", "str"), "Artist": ("artist", "str"), "HostComputer": ("host_computer", "str"),
    "Predictor": ("predictor", "pred"), "ColorMap": ("colormap", "u16v"), "TileWidth": ("tile_width", "u32"), "TileLength": ("tile_height", "u32"),
    "TileOffsets": ("tile_offsets", "u64v"), "TileByteCounts": ("tile_byte_counts", "u64v"), "ExtraSamples": ("extra_samples", "extra"),
    "SampleFormat": ("sample_format", "sf"), "JPEGTables": ("jpeg_tables", "u8v"), "Copyright": ("copyright", "str"),
    "ModelPixelScale": ("model_pixel_scale", "f64v"), "ModelTiepoint": ("model_tiepoint", "f64v"), "ModelTransformation": ("model_transformation", "f64v"),
    "GdalNodata": ("gdal_nodata", "str"), "GdalMetadata": ("gdal_metadata", "str"), "LercParameters": ("lerc_parameters", "u32v"),
    269: ("document_name", "str"),
}
REQUIRED = ("ImageWidth", "ImageLength", "BitsPerSample", "SamplesPerPixel", "PhotometricInterpretation")
OTHER = ["Make", "Model", "CellLength", "FillOrder", "SubfileType", "SMinSampleValue", 330, 700, 65000]


class World:
    """a directory holding the given tags, each with an arbitrary value of its usual type"""

    def __init__(self, r, tags, other=OTHER, order="fwd", narrow=False):
        self.r = r
        self.narrow = narrow  # single values, stored in the narrowest usual type
        r.e.maporder = order
        self.m = mk("map0", "map:adt:%s,adt:%s" % (r.N.adt("Tag"), r.N.adt(TV)))
        self.want = {}
        for t in tags:
            self.put(t, self.value(t))
        self.other = {}
        for t in other:
            v = r.adt(TV, "Short", sym("other_%s" % t, "u16"))
            self.other[t] = v
            self.put(t, v)

    def tag(self, t):
        return self.r.adt("Tag", "Unknown", I(t)) if isinstance(t, int) else self.r.adt("Tag", t)

    def put(self, t, v):
        self.m = mk("minsert", self.m, self.tag(t), v)

    def lst(self, t, var, ty):
        """a list (conversion of lists of any length: C05)"""
        if self.narrow:
            if var in ("UnsignedBig", "Unsigned"):
                var, ty = {"UnsignedBig": ("Unsigned", "u32"), "Unsigned": ("Short", "u16")}[var]
            x = sym("%s_0" % t, ty)
            return seq([x]), self.r.adt(TV, var, x)
        xs = [sym("%s_%d" % (t, i), ty) for i in range(2)]
        return seq(xs), self.r.adt(TV, "List", seq([self.r.adt(TV, var, x) for x in xs]))

    def value(self, t):
        r = self.r
        k = FIELDS[t][1] if t in FIELDS else None
        n = str(t)
        opt = lambda x: some(x)
        if k in ("u32", "u32!"):
            x = sym(n, "u16" if self.narrow else "u32")
            self.want[t] = x if k[-1] == "!" else opt(x)
            return r.adt(TV, "Short" if self.narrow else "Unsigned", x)
        if k in ("u16", "u16!"):
            x = sym(n, "u16")
            if t == "SamplesPerPixel":
                r.assume(lt(x, I(64)))
            self.want[t] = x if k[-1] == "!" else opt(x)
            return r.adt(TV, "Short", x)
        if k == "u16v!":
            s, v = self.lst(t, "Short", "u16")
            self.want[t] = s
            return v
        if k in ("u16v", "u64v", "u32v", "f64v", "u8v"):
            s, v = self.lst(t, {"u16v": "Short", "u64v": "UnsignedBig", "u32v": "Unsigned", "f64v": "Double", "u8v": "Byte"}[k], k[:-1])
            self.want[t] = opt(s)
            return v
        if k == "str":
            s = mk("sym", n + "_text", "seq:u8")
            self.want[t] = opt(s)
            return r.adt(TV, "Ascii", s)
        if k == "rat":
            a, b = sym(n + "_num", "u32"), sym(n + "_den", "u32")
            r.assume(lt(I(0), b))
            self.want[t] = opt(fop("fdiv", itof(a, "f64"), itof(b, "f64")))
            return r.adt(TV, "Rational", a, b)
        if k in ("comp", "photo", "planar", "pred", "resunit"):
            en, var = {"comp": ("Compression", "LZW"), "photo": ("PhotometricInterpretation", "RGB"), "planar": ("PlanarConfiguration", "Planar"),
                       "pred": ("Predictor", "Horizontal"), "resunit": ("ResolutionUnit", "Centimeter")}[k]
            code = {"comp": 5, "photo": 2, "planar": 2, "pred": 2, "resunit": 3}[k]
            v = r.adt(en, var)
            self.want[t] = v if k in ("comp", "photo", "planar") else opt(v)
            return r.adt(TV, "Short", I(code))
        if k == "extra":
            self.want[t] = opt(seq([r.adt("ExtraSamples", "AssociatedAlpha"), r.adt("ExtraSamples", "UnassociatedAlpha")]))
            return r.adt(TV, "List", seq([r.adt(TV, "Short", I(1)), r.adt(TV, "Short", I(2))]))
        if k == "sf":
            self.want[t] = seq([r.adt("SampleFormat", "Float"), r.adt("SampleFormat", "Unknown", I(77))])
            return r.adt(TV, "List", seq([r.adt(TV, "Short", I(3)), r.adt(TV, "Short", I(77))]))
        raise Undet("kind " + str(k))

    def absent(self, t):
        r = self.r
        if t == "Compression":
            return r.adt("Compression", "None")
        if t == "PlanarConfiguration":
            return r.adt("PlanarConfiguration", "Chunky")
        if t == "SampleFormat":
            return srep(self.want["SamplesPerPixel"], r.adt("SampleFormat", "Uint"))
        return NONE

    def run(self, be=False):
        r = self.r
        v = r.call(IFD + "::from_tags", pos={0: self.m, 1: endian(r, be)})
        return v


def decode(P, missing, order, be, narrow=False):
    """all tags present except `missing`"""
    def go():
        r = Run(P)
        w = World(r, [t for t in FIELDS if t not in missing], order=order, narrow=narrow)
        p = r.ref(r.payload(w.run(be), 0, what=IFD + "::from_tags"))
        rs = []
        for t, (acc, k) in FIELDS.items():
            got = r.val(r.call(IFD + "::" + acc, pos={0: p}))
            want = w.want[t] if t not in missing else w.absent(t)
            x = equation(r, got, want, where="%s::%s (tag %s)" % (IFD, acc, t))
            rs.append(x)
        rs.append(equation(r, r.val(r.call(IFD + "::geo_key_directory", pos={0: p})), NONE, where=IFD + "::geo_key_directory"))
        ot = r.val(r.call(IFD + "::other_tags", pos={0: p}))
        for t in list(w.other) + [q for q in FIELDS]:
            q = w.tag(t)
            has = r.st.pc.facts.simp(mhas(ot, q))
            rs.append(equation(r, has, B(t in w.other), where="%s::other_tags (tag %s)" % (IFD, t)))
            if t in w.other:
                rs.append(equation(r, r.val(mget(ot, q)), w.other[t], where="%s::other_tags (tag %s)" % (IFD, t)))
        extra = sym("unset_code", "u16")  # no other entries
        named = set(FIELDS) | set(w.other)
        r.assume(*[tnot(eq(extra, I(t))) for t in named if isinstance(t, int)])
        for q, nm in [(r.adt("Tag", "Unknown", extra), "any other code"), (r.adt("Tag", "Unknown", I(0)), "code 0")] + [
                (r.adt("Tag", x), x) for x in ("FreeOffsets", "GrayResponseUnit", "GeoKeyDirectory") if x in r.variants("Tag")]:
            rs.append(equation(r, r.st.pc.facts.simp(mhas(ot, q)), FALSE, where="%s::other_tags (%s)" % (IFD, nm)))
        rs.append(nopanic(r, r.wf))
        x = worst(rs)
        x.n = len(rs)
        return x
    return go


def code(P, t, lst):
    """enumerated tags: any code"""
    def go():
        r = Run(P)
        w = World(r, REQUIRED if t != "PhotometricInterpretation" else [x for x in REQUIRED if x != t])
        acc, k = FIELDS[t]
        en = {"comp": "Compression", "photo": "PhotometricInterpretation", "planar": "PlanarConfiguration", "pred": "Predictor",
              "resunit": "ResolutionUnit", "extra": "ExtraSamples", "sf": "SampleFormat"}[k]
        cs = [sym("code%d" % i, "u16") for i in range(2 if lst else 1)]
        vs = [r.adt(TV, "Short", c) for c in cs]
        w.put(t, r.adt(TV, "List", seq(vs)) if lst else vs[0])
        exh = en in ("Compression", "SampleFormat")
        names = []
        for c in cs:
            x = r.val(r.call(en + ("::from_u16_exhaustive" if exh else "::from_u16"), pos={0: c}))
            if not exh:
                r.assume(eq(r.e.disc(x), I(1)))
                x = r.val(r.e.proj(x, ("v", 1, 0, None)))
            names.append(x)
        p = r.ref(r.payload(w.run(), 0, what=IFD + "::from_tags"))
        got = r.val(r.call(IFD + "::" + acc, pos={0: p}))
        want = seq(names) if lst else names[0]
        if k in ("pred", "resunit", "extra"):
            want = some(want)
        return worst([equation(r, got, want, where="%s::%s (tag %s)" % (IFD, acc, t)), nopanic(r, r.wf)])
    return go


def required(P, t):
    def go():
        r = Run(P)
        w = World(r, [x for x in FIELDS if x != t])
        return worst([must_fail(r, w.run(), IFD + "::from_tags (no %s)" % t), nopanic(r, r.wf)])
    return go


def wrongtype(P, t):
    """a value of an unusable type is an error, not a silently missing tag"""
    def go():
        r = Run(P)
        w = World(r, [x for x in FIELDS if x != t])
        bad = r.adt(TV, "Double", sym("d", "f64")) if FIELDS[t][1] not in ("f64v",) else r.adt(TV, "Short", sym("d", "u16"))
        w.put(t, bad)
        return worst([must_fail(r, w.run(), IFD + "::from_tags (%s of a wrong type)" % t), nopanic(r, r.wf)])
    return go


def obligations(P, tier):
    obs = [("all-tags/fwd", decode(P, (), "fwd", True)), ("all-tags/rev", decode(P, (), "rev", False)),
           ("required-only", decode(P, [t for t in FIELDS if t not in REQUIRED], "fwd", False))]
    obs.append(("all-tags/narrow", decode(P, (), "fwd", False, True)))
    for t in ("Compression", "PhotometricInterpretation", "PlanarConfiguration", "Predictor", "ResolutionUnit", "ExtraSamples", "SampleFormat"):
        obs.append(("code/" + t, code(P, t, t in ("ExtraSamples", "SampleFormat"))))
    for t in FIELDS:
        if t not in REQUIRED:
            obs.append(("without/%s" % t, decode(P, (t,), "fwd", False)))
        else:
            obs.append(("required/%s" % t, required(P, t)))
        obs.append(("wrong-type/%s" % t, wrongtype(P, t)))
    return obs
