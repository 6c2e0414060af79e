"""C12: decoding goes to the codec registered for the tile's compression, band by band, and its failure is an error."""
from va_pix import *

RULE = ("Tile::decode with registries holding any codecs: the codec found under the tile's compression is called once per buffer, in band order, a missing codec or a failing call is Err; "
        "each codec of the default registry hands the tile's bytes to its own decompressor unchanged and surfaces its failure")
TECHNIQUE = "value-flow analysis of MIR with decompressors as uninterpreted functions: the decoded bytes must be the right decompressor applied to exactly the tile's bytes"

DATA = mk("sym", "buffer", "seq:u8")
# compression codes of the default registry and the decompressor each must use
CODEC = {1: "raw", 8: "zlib", 0x80B2: "zlib", 5: "lzw", 50000: "zstd", 34925: "xz", 7: "jpeg", 34712: "j2k", 50001: "webp", 34887: "lerc"}
NOCODEC = (2, 3, 4, 6, 0x8005, 9, 60000, 34888)
PH = ("WhiteIsZero", "BlackIsZero", "RGB", "RGBPalette", "TransparencyMask", "CMYK", "YCbCr", "CIELab")


def simple(P, ty, name, extra=()):
    """a codec that only decompresses: Ok(f(buffer)) or Err"""
    def go():
        r = Run(P)
        got = r.call("Decoder for %s::decode_tile" % ty, pos={1: DATA})
        w = ty + "::decode_tile"
        if name == "raw":
            return worst([equation(r, r.val(r.payload(got, 0, what=w)), DATA, where=w), nopanic(r, r.wf)])
        a = tuple(x(r) if callable(x) else x for x in extra)
        args = {"lzw": (mk("tup", (r.adt("weezl::BitOrder", "Msb"), I(8))), DATA) if name == "lzw" else None}.get(name) or (DATA,) + a
        g = mk("call", name + ".ok", args, "bool")
        rs = [equation(r, eq(r.e.disc(got), I(0)), g, where=w)]
        r.assume(g)
        rs += [equation(r, r.val(r.payload(got, 0, what=w)), mk("call", name, args, "seq:u8"), where=w), nopanic(r, r.wf)]
        return worst(rs)
    return go


TRANSFORM = {"RGB": "RGB", "WhiteIsZero": "None", "BlackIsZero": "None", "TransparencyMask": "None", "CMYK": "CMYK", "YCbCr": "YCbCr"}


def jpeg(P, ph, tables):
    def go():
        r = Run(P)
        w = "JPEGDecoder::decode_tile"
        tb = mk("sym", "tables", "seq:u8")
        got = r.call("Decoder for JPEGDecoder::decode_tile", pos={1: DATA, 2: r.adt("PhotometricInterpretation", ph), 3: some(mk("bx", tb)) if tables else NONE})
        if ph not in TRANSFORM:
            return worst([must_fail(r, got, w + " (%s)" % ph), nopanic(r, r.wf)])
        if tables:
            r2 = tand(le(I(2), slen(DATA)), le(I(2), slen(tb)))
            stream = cat(ssub(tb, I(0), sub(slen(tb), I(2))), ssub(DATA, I(2), sub(slen(DATA), I(2))))
        else:
            r2, stream = TRUE, DATA
        ct = [p for p in r.P.adts if p.endswith("::ColorTransform")]
        if not ct:
            raise Missing("ColorTransform")
        args = (stream, r.adt(ct[0], TRANSFORM[ph]))
        g = mk("call", "jpeg.ok", args, "bool")
        rs = [nopanic(r, r.wf)]
        if tables:
            r.wf_save = list(r.wf)
            rs.append(equation(r, tand(eq(r.e.disc(got), I(0)), tnot(r2)), FALSE, where=w + " (data or tables too short)"))
        r.assume(r2)
        rs.append(equation(r, eq(r.e.disc(got), I(0)), g, where=w))
        r.assume(g)
        rs.append(equation(r, r.val(r.payload(got, 0, what=w)), mk("call", "jpeg", args, "seq:u8"), where=w))
        return worst(rs)
    return go


def lerc(P, outer, dt):
    """LERC blobs, optionally wrapped in deflate (1) or zstd (2)"""
    ty = ("i8", "u8", "i16", "u16", "i32", "u32", "f32", "f64")

    def go():
        r = Run(P)
        w = "LercDecoder::decode_tile"
        v, x = sym("lerc_version", "u32"), sym("lerc_compression", "u32")
        n = {"absent": None, "short": 1}.get(outer, 2)
        prm = NONE if n is None else some(mk("bx", seq([v] if n == 1 else [v, x])))
        if outer in (0, 1, 2):
            r.assume(eq(x, I(outer)))
        elif outer == "other":
            r.assume(lt(I(2), x))
        f = {1: "zlib", 2: "zstd"}.get(outer)
        blob = DATA if f is None else mk("call", f, (DATA,), "seq:u8")
        got = r.call("Decoder for LercDecoder::decode_tile", pos={1: DATA, 6: prm})
        rs = [nopanic(r, r.wf)]
        if f:
            g = mk("call", f + ".ok", (DATA,), "bool")
            rs.append(equation(r, tand(eq(r.e.disc(got), I(0)), tnot(g)), FALSE, where=w + " (wrapper fails)"))
            r.assume(g)
        g = mk("call", "lerc.info.ok", (blob,), "bool")
        rs.append(equation(r, tand(eq(r.e.disc(got), I(0)), tnot(g)), FALSE, where=w + " (header fails)"))
        r.assume(g)
        info = mk("call", "lerc.info", (blob,), "adt:lerc::BlobInfo")
        fs = [q[0] for q in r.P.adts["lerc::BlobInfo"]["v"][0]["f"]]
        fld = lambda nme: r.e.proj(info, ("f", fs.index(nme), "u32"))
        if dt == "other":
            r.assume(tor(lt(I(7), fld("data_type")), lt(fld("data_type"), I(0))))
            rs.append(must_fail(r, got, w + " (unknown LERC type)"))
            return worst(rs)
        r.assume(eq(fld("data_type"), I(dt)))
        a = (blob, sym("ty:" + ty[dt])) + tuple(trunc(fld(q), "usize") for q in ("width", "height", "depth", "bands", "masks"))
        g = mk("call", "lerc.ok", a, "bool")
        rs.append(equation(r, eq(r.e.disc(got), I(0)), g, where=w))
        r.assume(g)
        d = mk("call", "lerc", a, "seq:" + ty[dt])
        from models import bcast
        rs.append(equation(r, r.val(r.payload(got, 0, what=w)), bcast(d, ty[dt], "u8"), where=w))
        return worst(rs)
    return go


def j2k(P, k):
    kinds = ("L8", "La8", "Rgb8", "Rgba8", "L16", "La16", "Rgb16", "Rgba16")

    def go():
        r = Run(P)
        w = "JPEG2kDecoder::decode_tile"
        got = r.call("Decoder for JPEG2kDecoder::decode_tile", pos={1: DATA})
        im = (DATA, mk("adt", "$j2kparams", 0, ()))
        px = (mk("call", "j2k.image", im, None), NONE)
        g = tand(mk("call", "j2k.image.ok", im, "bool"), mk("call", "j2k.pixels.ok", px, "bool"))
        data = [x for x in subterms(r.val(got)) if x.op == "disc" and x.a[0].op == "fld" and x.a[0].a[0] is mk("call", "j2k.pixels", px, None)]
        if not data:
            return R("undetermined", "pixel data not found", w)
        d = data[0].a[0]
        p = r.N.adt("ImagePixelData")
        i = [v["name"] for v in r.P.adts[p]["v"]].index(kinds[k])
        r.assume(eq(data[0], I(i)))
        rs = [equation(r, eq(r.e.disc(got), I(0)), g, where=w)]
        r.assume(g)
        from models import bcast
        ty = "u8" if k < 4 else "u16"
        rs.append(equation(r, r.val(r.payload(got, 0, what=w)), bcast(r.e.proj(d, ("v", i, 0, "seq:" + ty)), ty, "u8"), where=w))
        return worst(rs + [nopanic(r, r.wf)])
    return go


def webp(P, spp, bits, alpha):
    def go():
        r = Run(P)
        w = "WebPDecoder::decode_tile"
        got = r.call("Decoder for WebPDecoder::decode_tile", pos={1: DATA, 4: I(spp), 5: I(bits)})
        g = mk("call", "webp.ok", (DATA,), "bool")
        rs = [equation(r, eq(r.e.disc(got), I(0)), g, where=w)]
        al = mk("call", "webp.alpha", (DATA,), "bool")
        r.assume(g, al if alpha else tnot(al))
        px = mk("call", "webp", (DATA,), "seq:u8")
        if alpha or spp != 4 or bits != 8:
            want = px
        else:
            # an opaque image stored without its alpha band gets one back
            r.assume(eq(slen(px), I(9)))
            want = seq([x for i in range(3) for x in [sidx(px, I(3 * i + j)) for j in range(3)] + [I(255)]])
        rs += [equation(r, r.val(r.payload(got, 0, what=w)), want, where=w), nopanic(r, r.wf)]
        return worst(rs)
    return go


def default(P, code):
    """the default registry decodes this compression with its own decompressor"""
    def go():
        r = Run(P)
        t = Tiled(r, comp=code, codec=False, photo=2)
        t.reg = r.ref(r.call("Default for DecoderRegistry::default", pos={}))
        tile = t.fetch()
        d = t.data[0]
        w = "DecoderRegistry::default, compression %d" % code
        k = CODEC.get(code)
        if k is None:
            return worst([must_fail(r, t.decode(tile), w), nopanic(r, r.wf)])
        got = t.decode(tile)
        if k in ("raw", "zlib", "zstd", "xz", "lzw", "jpeg"):
            args = {"lzw": (mk("tup", (r.adt("weezl::BitOrder", "Msb"), I(8))), d) if k == "lzw" else None, "xz": (d, FALSE)}.get(k) or (d,)
            if k == "jpeg":
                ct = [p for p in r.P.adts if p.endswith("::ColorTransform")]
                args = (d, r.adt(ct[0], "RGB"))
            o = d if k == "raw" else mk("call", k, args, "seq:u8")
            g = TRUE if k == "raw" else mk("call", k + ".ok", args, "bool")
            n = tand(g, eq(slen(o), I(4)))
            rs = [equation(r, eq(r.e.disc(got), I(0)), n, where=w)]
            r.assume(n)
            a = r.payload(got, 0, what=w)
            rs.append(equation(r, r.val(r.call("Array::into_inner", pos={0: a})), t.expected([[sidx(o, I(i)) for i in range(4)]], "none", False, "UInt8"), where=w))
            return worst(rs + [nopanic(r, r.wf)])
        head = {"webp": "webp.ok", "j2k": "j2k.image.ok", "lerc": "lerc.info.ok"}[k]
        if not any(x.op == "call" and x.a[0] == head and x.a[2 - 1][0] is d for x in subterms(r.e.disc(got))):
            if free_in(got, lambda x: x.op == "opq"):
                return R("undetermined", "codec of %s not resolved" % k, w)
            return R("refuted", "the default registry does not decode compression %d with %s" % (code, k), w, 1, fns_of(r))
        g = [x for x in subterms(r.e.disc(got)) if x.op == "call" and x.a[0] == head and x.a[1][0] is d][0]
        return worst([equation(r, tand(eq(r.e.disc(got), I(0)), tnot(g)), FALSE, where=w), nopanic(r, r.wf)])
    return go


def decoys(P, comp, others, planar=False, spp=1):
    """other codecs registered under other compressions are not consulted"""
    def go():
        r = Run(P)
        t = Tiled(r, comp=comp, planar=planar, spp=spp)
        for i, c in enumerate(others):
            t.register(r.adt("Compression", c) if isinstance(c, str) else r.adt("Compression", "Unknown", I(c)), sym("decoy%d" % i))
        tile = t.fetch()
        outs = t.run(tile, r.adt("PhotometricInterpretation", "BlackIsZero"))
        a = r.payload(t.decode(tile), 0, what="Tile::decode")
        rs = [equation(r, r.val(r.call("Array::into_inner", pos={0: a})), t.expected(outs, "none", False, "UInt8"), where="Tile::decode"), nopanic(r, r.wf)]
        return worst(rs)
    return go


def nocodec(P, comp, others):
    def go():
        r = Run(P)
        t = Tiled(r, comp=comp, codec=False)
        for i, c in enumerate(others):
            t.register(r.adt("Compression", c) if isinstance(c, str) else r.adt("Compression", "Unknown", I(c)), sym("decoy%d" % i))
        tile = t.fetch()
        t.run(tile, r.adt("PhotometricInterpretation", "BlackIsZero"))
        return worst([must_fail(r, t.decode(tile), "Tile::decode (compression %s not registered)" % comp), nopanic(r, r.wf)])
    return go


def override(P, comp):
    """a codec registered over the default one replaces it"""
    def go():
        r = Run(P)
        t = Tiled(r, comp=comp, codec=False)
        t.reg = r.ref(r.call("Default for DecoderRegistry::default", pos={}))
        t.map = r.call("AsMut for DecoderRegistry::as_mut", pos={0: t.reg})
        t.register(t.compression(), t.codec)
        tile = t.fetch()
        outs = t.run(tile, r.adt("PhotometricInterpretation", "BlackIsZero"))
        a = r.payload(t.decode(tile), 0, what="Tile::decode")
        return worst([equation(r, r.val(r.call("Array::into_inner", pos={0: a})), t.expected(outs, "none", False, "UInt8"), where="Tile::decode"), nopanic(r, r.wf)])
    return go


def obligations(P, tier):
    obs = [("codec/none", simple(P, "UncompressedDecoder", "raw")), ("codec/deflate", simple(P, "DeflateDecoder", "zlib")),
           ("codec/zstd", simple(P, "ZstdDecoder", "zstd")), ("codec/lzma", simple(P, "LZMADecoder", "xz", (FALSE,))), ("codec/lzw", simple(P, "LZWDecoder", "lzw"))]
    for ph in PH:
        for tb in (False, True):
            obs.append(("codec/jpeg/%s/%s" % (ph, "tables" if tb else "plain"), jpeg(P, ph, tb)))
    for outer in ("absent", "short", 0, 1, 2, "other"):
        for dt in list(range(8)) + ["other"]:
            obs.append(("codec/lerc/%s/%s" % (outer, dt), lerc(P, outer, dt)))
    for spp, bits in ((3, 8), (4, 8), (4, 16), (1, 8), (2, 8), (5, 8), (6, 8), (3, 16), (4, 7)):
        for al in (False, True):
            obs.append(("codec/webp/%d/%d/%s" % (spp, bits, al), webp(P, spp, bits, al)))
    for k in range(8):
        obs.append(("codec/jpeg2k/%d" % k, j2k(P, k)))
    for c in list(CODEC) + list(NOCODEC):
        obs.append(("default/%d" % c, default(P, c)))
        obs.append(("override/%d" % c, override(P, c)))
    ALL = ["None", "LZW", "Deflate", "ZSTD", "JPEG", "ModernJPEG", "OldDeflate", "PackBits", "LERC", 60001]
    for c, nm in ((1, "None"), (5, "LZW"), (8, "Deflate"), (0x80B2, "OldDeflate"), (6, "JPEG"), (7, "ModernJPEG"), (60000, 60000)):
        oth = [x for x in ALL if x != nm]
        obs.append(("dispatch/%s" % nm, decoys(P, c, oth)))
        obs.append(("dispatch/%s/planar" % nm, decoys(P, c, oth, True, 3)))
        obs.append(("missing/%s" % nm, nocodec(P, c, oth)))
        obs.append(("missing/%s/empty" % nm, nocodec(P, c, [])))
    obs.append(("failing/chunky", decoded(P, failing=0, spp=2)))
    for n in (1, 2, 3):
        for k in range(n):
            for pred in ("none", "horizontal"):
                obs.append(("failing/planar/%d-of-%d/%s" % (k, n, pred), decoded(P, failing=k, spp=n, planar=True, pred=pred)))
    for n in (1, 2, 3, 4):
        obs.append(("bands/%d" % n, decoded(P, spp=n, planar=True, bits=16)))
    return obs
