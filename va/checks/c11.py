"""C11: a fetched tile is decoded with exactly the parameters of the directory it came from."""
from va_pix import *

RULE = ("fetch_tile on a directory with known tags, then Tile accessors and Tile::decode with an unknown codec: the codec receives exactly the directory's parameters and the tile's bytes, "
        "and the array is the reference decoding of the codec's answer under the directory's predictor, byte order, size, layout and sample type")
TECHNIQUE = "value-flow analysis of MIR from directory tags through fetch_tile and decode; every parameter reaching the codec, the predictor and the array constructor is compared with the tag it must come from"

PHOTO = {0: "WhiteIsZero", 1: "BlackIsZero", 2: "RGB", 3: "RGBPalette", 4: "TransparencyMask", 5: "CMYK", 6: "YCbCr", 8: "CIELab"}


def jt(n):
    return [sym("jpeg%d" % i, "u8") for i in range(n)]


def lp(n):
    return [sym("lerc%d" % i, "u32") for i in range(n)]


def access(P, jpeg, photo, comp, planar, pos):
    """the accessors of a fetched tile"""
    def go():
        r = Run(P)
        t = Tiled(r, comp=comp, jpeg=jpeg, photo=photo, planar=planar, spp=2, w=3, h=2, size=(7, 5, 3, 2), pos=pos)
        tp = r.ref(t.fetch())
        v = lambda f: r.val(r.call("Tile::" + f, pos={0: tp}))
        data = r.adt("CompressedBytes", "Planar", seq(t.data)) if planar else r.adt("CompressedBytes", "Chunky", t.data[0])
        rs = [equation(r, v("x"), I(pos[0]), where="Tile::x"), equation(r, v("y"), I(pos[1]), where="Tile::y"),
              equation(r, v("compressed_bytes"), data, where="Tile::compressed_bytes"),
              equation(r, v("compression_method"), t.compression(), where="Tile::compression_method"),
              equation(r, v("photometric_interpretation"), r.adt("PhotometricInterpretation", PHOTO[photo]), where="Tile::photometric_interpretation"),
              equation(r, v("jpeg_tables"), NONE if jpeg is None else some(seq(jpeg)), where="Tile::jpeg_tables"), nopanic(r, r.wf)]
        return worst(rs)
    return go


def obligations(P, tier):
    obs = []
    for ph in PHOTO:
        obs.append(("access/photometric%d" % ph, access(P, None, ph, 5, False, (1, 2))))
        obs.append(("codec/photometric%d" % ph, photo_ob(P, ph)))
    for c in (None, 1, 5, 7, 8, 0x80B2, 34887, 50000, 50001, 34925, 40000):
        obs.append(("access/compression%s" % c, access(P, jt(2), 2, c, True, (2, 0))))
        obs.append(("codec/compression%s" % c, decoded(P, comp=c)))
    for pos in ((0, 0), (2, 0), (0, 2), (2, 2), (1, 1)):
        for pl in (False, True):
            nm = "planar" if pl else "chunky"
            obs.append(("access/%s/pos%d,%d" % (nm, pos[0], pos[1]), access(P, None, 1, 8, pl, pos)))
            obs.append(("codec/%s/pos%d,%d" % (nm, pos[0], pos[1]), decoded(P, planar=pl, spp=2, w=3, h=2, size=(7, 5, 3, 2), pos=pos)))
    for pl in (False, True):
        nm = "planar" if pl else "chunky"
        for k, (iw, ih, tw, th) in enumerate(((2, 5, 3, 2), (7, 1, 3, 2), (1, 1, 3, 2), (4, 1, 3, 3), (1, 4, 3, 3))):
            # images smaller than a tile, and edge tiles: the tile keeps its full size
            for pred in ("none", "horizontal"):
                obs.append(("decode/%s/image%dx%d/%s" % (nm, iw, ih, pred), decoded(P, planar=pl, spp=2, w=tw, h=th, size=(iw, ih, tw, th), pred=pred, pos=((iw - 1) // tw, (ih - 1) // th))))
        for n in (None, 0, 1, 4):
            obs.append(("codec/%s/jpeg-tables/%s" % (nm, n), decoded(P, planar=pl, spp=2, jpeg=None if n is None else jt(n))))
        for n in (None, 1, 2, 4):
            obs.append(("codec/%s/lerc-parameters/%s" % (nm, n), decoded(P, planar=pl, spp=2, lerc=None if n is None else lp(n))))
        for be in (False, True):
            for pred in ("none", "horizontal", "float"):
                for bits, fmt in ((8, "uint"), (16, "uint"), (32, "float"), (64, "float")):
                    if pred == "float" and fmt != "float":
                        continue
                    obs.append(("decode/%s/%s/%s/%s%d" % (nm, "be" if be else "le", pred, fmt, bits),
                                decoded(P, planar=pl, spp=3, w=3, h=2, be=be, pred=pred, bits=bits, fmt=fmt, lerc=lp(2), jpeg=jt(2))))
        for be in (False, True):
            obs.append(("decode/%s/%s/defaults" % (nm, "be" if be else "le"), decoded(P, planar=pl, spp=2, w=3, h=2, be=be, bits=16, setpred=False, setfmt=False)))
        for c in (None, 1, 5, 7, 8, 34887, 50000, 50001, 34925, 34712, 40000):
            for pred, bits, fmt in (("horizontal", 16, "uint"), ("float", 32, "float")):
                obs.append(("decode/%s/compression%s/%s" % (nm, c, pred), decoded(P, planar=pl, spp=2, w=2, h=2, pred=pred, bits=bits, fmt=fmt, comp=c)))
        for ph in PHOTO:
            obs.append(("decode/%s/photometric%d/horizontal" % (nm, ph), decoded(P, planar=pl, spp=2, w=2, h=2, pred="horizontal", photo=PHOTO[ph], tphoto=ph)))
        for spp in (1, 2, 3, 4, 5):
            obs.append(("decode/%s/samples%d" % (nm, spp), decoded(P, planar=pl, spp=spp, w=2, h=3, pred="horizontal", bits=16)))
    return obs


def photo_ob(P, ph):
    def go():
        r = Run(P)
        t = Tiled(r, comp=7, jpeg=jt(3), photo=ph)
        tile = t.fetch()
        outs = t.run(tile, r.adt("PhotometricInterpretation", PHOTO[ph]), seq(jt(3)), None)
        a = r.payload(t.decode(tile), 0, what="Tile::decode")
        return worst([equation(r, r.val(r.call("Array::into_inner", pos={0: a})), t.expected(outs, "none", False, "UInt8"), where="Tile::decode"), nopanic(r, r.wf)])
    return go
