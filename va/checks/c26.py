"""C26: no tile content makes decoding panic."""
import re
from api import *
from va_common import *
from va_pix import Tiled, decoded
from checks import c11, c12, c13, c14

RULE = ("Tile::decode and the array it builds, with the codec answering any buffer (of any length, or of every length up to two rows beyond the declared size) and any declared depth, format, "
        "band count and tile size: the failure condition of every run-time check any path reaches is unsatisfiable")
TECHNIQUE = "panic-freedom analysis of MIR: reachability conditions of all assert terminators and panicking calls of the decode path over symbolic codec output and directory parameters"


def anylen(P, **kw):
    """the codec answers a buffer of any length"""
    def go():
        r = Run(P)
        t = Tiled(r, **kw)
        tile = t.fetch()
        k = [0]

        def hook(c, args):
            k[0] += 1
            s = mk("sym", "decoded%d" % k[0], "seq:u8")
            return ite(mk("call", "codec.ok", (I(k[0]),), "bool"), ok(s), err(mk("call", "decode_tile.err", (I(k[0]),), None)))
        r.e.codec_hook = hook
        t.decode(tile)
        return nopanic(r, r.wf)
    return go


def lens(P, n, **kw):
    """the codec answers n bytes"""
    def go():
        r = Run(P)
        t = Tiled(r, **kw)
        tile = t.fetch()

        def hook(c, args):
            return ok(seq([sym("b%d" % i, "u8") for i in range(n)]))
        r.e.codec_hook = hook
        t.decode(tile)
        return nopanic(r, r.wf)
    return go


M = 2 ** 32 - 1


def obligations(P, tier):
    obs = []
    for pl in (False, True):
        nm = "planar" if pl else "chunky"
        for pred in ("none", "horizontal", "float"):
            for bits, fmt in ((1, "uint"), (4, "uint"), (8, "uint"), (12, "uint"), (16, "int"), (16, "float"), (24, "uint"), (32, "float"), (64, "float"), (128, "float"), (0, "uint"), (65535, "uint")):
                for be in (False, True):
                    if pred == "none" or bits not in (16, 32, 64):
                        obs.append(("any-length/%s/%s/%s%d/%s" % (nm, pred, fmt, bits, "be" if be else "le"), anylen(P, planar=pl, pred=pred, bits=bits, fmt=fmt, be=be, spp=2, w=3, h=2)))
                    if bits in (0, 1, 4, 8, 12, 16, 32, 64):
                        n = -(-3 * 2 * (1 if pl else 2) * bits // 8)
                        for k in range(0, n + 4 if n < 40 else n + 2):
                            if n >= 40 and be:
                                continue
                            obs.append(("length/%s/%s/%s%d/%s/%d" % (nm, pred, fmt, bits, "be" if be else "le", k), lens(P, k, planar=pl, pred=pred, bits=bits, fmt=fmt, be=be, spp=2, w=3, h=2)))
        # degenerate and extreme parameters
        for pred in ("none", "horizontal", "float"):
            for bits, fmt in ((1, "uint"), (8, "uint"), (16, "uint"), (32, "float"), (64, "float")):
                for w, h in ((M, M), (M, 1), (1, M), (3, M), (2 ** 31, 2 ** 31), (2 ** 16, 2 ** 16)):
                    for spp in (1, 4) if not pl else (1, 2):
                        for n in (0, 1, 8, 24):
                            obs.append(("extreme/%s/%s/%s%d/%dx%dx%d/%d" % (nm, pred, fmt, bits, w, h, spp, n), lens(P, n, planar=pl, pred=pred, bits=bits, fmt=fmt, spp=spp, w=w, h=h)))
                if not pl:
                    obs.append(("many-bands/%s/%s%d" % (pred, fmt, bits), lens(P, 16, planar=False, pred=pred, bits=bits, fmt=fmt, spp=65535, fmts=[fmt], bits_list=[bits], w=M, h=M)))
                    obs.append(("no-bands/%s/%s%d" % (pred, fmt, bits), lens(P, 16, planar=False, pred=pred, bits=bits, fmt=fmt, spp=0, fmts=[fmt], bits_list=[bits], w=3, h=2)))
                for fl, bl in (([], [bits]), ([fmt], [bits]), ([fmt, fmt], [bits]), ([fmt], [bits, bits, bits]), (["uint", "float"], [bits, 8])):
                    for k in (0, 12, 13):
                        obs.append(("lists/%s/%s/%s%d/%d-%d/%d" % (nm, pred, fmt, bits, len(fl), len(bl), k),
                                    lens(P, k, planar=pl, pred=pred, bits=bits, fmt=fmt, fmts=fl, bits_list=bl, spp=2, w=3, h=2)))
    pick = {c12: r"^codec|^default|^failing", c14: "^ndarray|^bool|^length"}
    for m, rx in pick.items():
        for k, f in m.obligations(P, tier):
            if re.search(rx, k):
                obs.append(("%s/%s" % (m.__name__.split(".")[-1], k), f))
    return obs
