"""C13: prediction is inverted exactly, per row, sample and band, and samples end in host byte order."""
from va_pix import *

RULE = ("Tile::decode with the codec's answer as symbolic bytes: every array element equals the TIFF definition of the declared predictor's inverse and byte order, "
        "for each row, sample and band; undefined depths and buffers that are not whole rows end in Err")
TECHNIQUE = "value-flow analysis of MIR: every output element is reduced to an expression over the decompressed bytes and compared with the predictor's definition"

DEPTHS = {"none": ((8, "uint"), (8, "int"), (16, "uint"), (16, "int"), (32, "uint"), (32, "int"), (32, "float"), (64, "uint"), (64, "int"), (64, "float")),
          "horizontal": ((8, "uint"), (8, "int"), (16, "uint"), (16, "int"), (32, "uint"), (32, "float"), (64, "uint"), (64, "int")),
          "float": ((32, "float"), (64, "float"))}


def obligations(P, tier):
    obs = []
    dims = [(1, 1), (2, 1), (1, 3), (3, 2), (5, 2)]
    wide = [(17, 1), (9, 3)] if tier == "quick" else [(17, 1), (9, 3), (33, 2), (64, 1), (16, 16), (8, 8)]
    for pred, ds in DEPTHS.items():
        for bits, fmt in ds:
            for be in (False, True):
                for pl in (False, True):
                    for spp in (1, 2, 3, 4):
                        dd = dims if spp in (1, 3) or tier != "quick" else dims[3:]
                        if fmt != "uint" and spp in (2, 4) and tier == "quick" and pred != "float":
                            continue
                        for w, h in dd + (wide if spp in (1, 3) and fmt in ("uint", "float") else []):
                            if w * h * spp * bits // 8 > 1024:
                                continue
                            obs.append(("%s/%s%d/%s/%s/%dx%dx%d" % (pred, fmt, bits, "be" if be else "le", "planar" if pl else "chunky", w, h, spp),
                                        decoded(P, pred=pred, bits=bits, fmt=fmt, be=be, planar=pl, spp=spp, w=w, h=h)))
    for pred, bits, fmt, w, h, spp in (("horizontal", 8, "uint", 300, 1, 1), ("horizontal", 16, "uint", 130, 1, 1), ("horizontal", 16, "uint", 40, 2, 3), ("horizontal", 32, "uint", 70, 1, 1),
                                       ("horizontal", 64, "uint", 70, 1, 1), ("float", 32, "float", 40, 2, 1), ("float", 64, "float", 40, 1, 1), ("none", 16, "uint", 64, 4, 1)):
        for be in (False, True):
            obs.append(("wide/%s%d/%s/%dx%dx%d" % (pred, bits, "be" if be else "le", w, h, spp), decoded(P, pred=pred, bits=bits, fmt=fmt, be=be, spp=spp, w=w, h=h)))
    # a tile at the right and lower edge is stored, and differenced, at full size
    for pl in (False, True):
        for pred, bits, fmt in (("horizontal", 16, "uint"), ("float", 32, "float")):
            obs.append(("edge/%s/%s" % (pred, pl), decoded(P, pred=pred, bits=bits, fmt=fmt, be=True, planar=pl, spp=2, w=4, h=3, size=(6, 4, 4, 3), pos=(1, 1))))
    # depths the prediction is not defined for
    for pred, bits, fmt in (("horizontal", 1, "uint"), ("horizontal", 4, "uint"), ("horizontal", 12, "uint"), ("horizontal", 24, "uint"), ("horizontal", 128, "float"),
                            ("float", 8, "uint"), ("float", 8, "float"), ("float", 24, "float"), ("float", 4, "float"), ("float", 1, "uint"), ("float", 128, "float")):
        for pl in (False, True):
            obs.append(("undefined/%s/%s%d/%s" % (pred, fmt, bits, "planar" if pl else "chunky"),
                        decoded(P, pred=pred, bits=bits, fmt=fmt, planar=pl, spp=2, w=8, h=2, dt="error")))
    # buffers that are not whole rows, or not as many as declared
    for pred, bits, fmt in (("none", 16, "uint"), ("horizontal", 8, "uint"), ("horizontal", 16, "uint"), ("horizontal", 64, "uint"), ("float", 32, "float"), ("float", 64, "float")):
        for be in (False, True):
            n = 3 * 2 * 2 * bits // 8
            row = n // 2
            for k in sorted({0, 1, row - 1, row, row + 1, n - bits // 8, n - 1, n + 1, n + row, n + bits // 8}):
                if k != n:
                    obs.append(("partial/%s/%s%d/%s/%d-of-%d" % (pred, fmt, bits, "be" if be else "le", k, n),
                                decoded(P, pred=pred, bits=bits, fmt=fmt, be=be, spp=2, w=3, h=2, lens=[k], dt="error")))
    return obs
