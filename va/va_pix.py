"""Reference meaning of tile decoding, written over terms: what TIFF says a decompressed buffer holds."""
from api import *
from va_common import *

FMT = {"uint": 1, "int": 2, "float": 3, "void": 4}
DTYPE = {("uint", 1): "Bool", ("uint", 8): "UInt8", ("uint", 16): "UInt16", ("uint", 32): "UInt32", ("uint", 64): "UInt64",
         ("int", 8): "Int8", ("int", 16): "Int16", ("int", 32): "Int32", ("int", 64): "Int64", ("float", 32): "Float32", ("float", 64): "Float64"}
ELT = {"UInt8": "u8", "UInt16": "u16", "UInt32": "u32", "UInt64": "u64", "Int8": "i8", "Int16": "i16", "Int32": "i32", "Int64": "i64",
       "Float32": "f32", "Float64": "f64"}
PRED = {"none": 1, "horizontal": 2, "float": 3}


def undo(bs, pred, be, bits, spp, w):
    """bytes of one buffer in host (little-endian) order after inverting the prediction; spp samples interleaved, rows of w pixels"""
    n = bits // 8
    if pred == "none":
        if not be or bits <= 8:
            return list(bs)
        out = []
        for i in range(0, len(bs), n):
            out += bs[i:i + n][::-1]
        return out
    row = w * spp * n
    out = []
    for r0 in range(0, len(bs), row):
        rb = bs[r0:r0 + row]
        if pred == "horizontal":
            vals = [frombytes("u%d" % bits, be, rb[i:i + n]) for i in range(0, row, n)]
            for i in range(len(vals)):
                if i >= spp:
                    vals[i] = trunc(add(vals[i], vals[i - spp]), "u%d" % bits)
            for v in vals:
                out += list(tobytes("u%d" % bits, False, v).a[0])
        else:
            acc = list(rb)
            for i in range(spp, row):
                acc[i] = trunc(add(acc[i], acc[i - spp]), "u8")
            k = w * spp
            for i in range(k):
                out += [acc[j * k + i] for j in range(n)][::-1]  # most significant plane first
    return out


def elements(bs, dt):
    ty = ELT[dt]
    n = WIDTH[ty]
    return [frombytes(ty, False, bs[i:i + n]) for i in range(0, len(bs), n)]


def bools(bs, n):
    """n one-bit samples, most significant bit first"""
    return [eq(band(shr(bs[i // 8], 7 - i % 8)), I(1)) for i in range(n)]


def shr(b, k):
    return div(b, I(2 ** k)) if k else b


def band(x):
    return rem(x, I(2))


class Tiled:
    """a directory with concrete tile geometry and a registry with an unknown codec for its compression"""

    def __init__(self, r, bits=8, fmt="uint", spp=1, planar=False, be=False, pred="none", w=2, h=2, comp=50000, size=None, pos=(0, 0), tags=None, bits_list=None,
                 fmts=None, lerc=None, jpeg=None, photo=1, codec=True, setpred=True, setfmt=True):
        self.r, self.spp, self.planar, self.w, self.h, self.bits = r, spp, planar, w, h, bits
        size = size or (w, h, w, h)
        t = dict(tags or {})
        sh = lambda n: r.adt(TV, "Short", I(n) if isinstance(n, int) else n)
        if comp is not None:
            t["Compression"] = sh(comp)
        if setpred:
            t["Predictor"] = sh(PRED[pred])
        if fmts is None:
            fmts = [fmt] * spp
        if setfmt:
            t["SampleFormat"] = r.adt(TV, "List", seq([sh(FMT[f]) for f in fmts]))
        if lerc is not None:
            t["LercParameters"] = r.adt(TV, "List", seq([r.adt(TV, "Unsigned", x) for x in lerc]))
        if jpeg is not None:
            t["JPEGTables"] = r.adt(TV, "List", seq([r.adt(TV, "Byte", x) for x in jpeg]))
        self.d = Dir(r, planar=planar, be=be, spp=spp, bits=[I(b) if isinstance(b, int) else b for b in (bits_list or [bits] * spp)], size=size, photo=photo, tags=t)
        self.p = self.d.ifd()
        self.x, self.y = pos
        nb = spp if planar else 1
        gx = -(-size[0] // size[2])
        gy = -(-size[1] // size[3])
        es = [self.d.entry(I(b * gx * gy + self.y * gx + self.x)) for b in range(nb)]
        for g, v in es:
            r.assume(g)
        self.data = [ssub(FILE, v.a[2][0], sub(v.a[2][1], v.a[2][0])) for _, v in es]
        self.comp = comp
        reg = r.call("DecoderRegistry::empty", pos={})
        self.reg = r.ref(reg)
        m = r.call("AsMut for DecoderRegistry::as_mut", pos={0: self.reg})
        self.map = m
        self.codec = sym("codec")
        if codec:
            self.register(self.compression(), self.codec)

    def compression(self):
        return self.r.val(self.r.call(IFD + "::compression", pos={0: self.p}))

    def register(self, comp, codec):
        r = self.r
        p = self.map
        while r.e.load(r.st, p).op == "ref":
            p = r.e.load(r.st, p)
        r.e.store(r.st, p, mk("minsert", r.e.load(r.st, p), comp, codec))

    def fetch(self):
        r = self.r
        t = r.call(IFD + "::fetch_tile", pos={0: self.p, 1: I(self.x), 2: I(self.y), 3: sym("reader")})
        return r.payload(t, 0, what=IFD + "::fetch_tile")

    def decode(self, tile):
        return self.r.call("Tile::decode", pos={0: tile, 1: self.reg})

    # ---- what the codec must have been given
    def args(self, photo, jpeg=None, lerc=None):
        opt = lambda v: NONE if v is None else some(v)
        return [(self.codec, d, photo, opt(jpeg), I(1 if self.planar else self.spp), I(self.bits), opt(lerc)) for d in self.data]


    def run(self, tile, photo=None, jpeg=None, lerc=None, lens=None, failing=None):
        """declare what the codec answers for exactly the expected arguments; returns the decoded byte lists"""
        r = self.r
        outs = []
        want = self.args(photo, jpeg, lerc)
        for i, a in enumerate(want):
            n = self.nbytes() if lens is None else lens[i]
            outs.append([sym("band%d[%d]" % (i, k), "u8") for k in range(n)])
        names = ("codec", "compressed bytes", "photometric interpretation", "JPEG tables", "sample count", "bit depth", "LERC parameters")
        self.calls = 0

        def hook(c, args):
            for i, w in enumerate(want):
                if args == w:
                    self.calls += 1
                    return err(mk("call", "decode_tile.err", (I(i),), None)) if failing == i else ok(seq(outs[i]))
            f = c.st.pc.facts
            args = tuple(f.deep(x) for x in args)
            for i, w in enumerate(want):
                if all(x is f.deep(y) for x, y in zip(args, w)):
                    self.calls += 1
                    return err(mk("call", "decode_tile.err", (I(i),), None)) if failing == i else ok(seq(outs[i]))
            # which parameter is wrong, on a concrete input reaching this call
            best = None
            for w in want:
                bad = []
                for k, (x, y) in enumerate(zip(args, w)):
                    if x is y:
                        continue
                    s_, why, ns = D.decide(c.e, x, y, [l for l in c.st.pc.rel(None) if l is not TRUE])
                    if s_ != "proved":
                        bad.append((k, s_, why, ns))
                if not bad:
                    break
                if best is None or len(bad) < len(best):
                    best = bad
            else:
                if best and all(b[1] == "refuted" for b in best[:1]):
                    k, _, why, ns = best[0]
                    raise Viol(R("refuted", "the codec is given the wrong %s: %s" % (names[k], why), "Tile::decode", ns))
                raise Undet("codec arguments not determined")
            i = want.index(w)
            return err(mk("call", "decode_tile.err", (I(i),), None)) if failing == i else ok(seq(outs[i]))
        r.e.codec_hook = hook
        return outs

    def nbytes(self):
        """bytes of one decoded buffer"""
        n = self.w * self.h * (1 if self.planar else self.spp)
        return -(-n * self.bits // 8)

    def expected(self, outs, pred, be, dt):
        n = self.w * self.h * self.spp
        r = self.r
        bs = []
        for o in outs:
            bs += undo(o, pred, be, self.bits, 1 if self.planar else self.spp, self.w)
        if dt == "Bool":
            v = r.adt("TypedArray", "Bool", seq(bools(bs, n)))
        else:
            v = r.adt("TypedArray", dt or "UInt8", seq(elements(bs, dt or "UInt8")))
        shape = [self.spp, self.h, self.w] if self.planar else [self.h, self.w, self.spp]
        return mk("tup", (v, seq([I(x) for x in shape]), some(r.adt("DataType", dt)) if dt else NONE))


def decoded(P, pred="none", be=False, dt="auto", photo="BlackIsZero", failing=None, lens=None, where="Tile::decode", tphoto=1, **kw):
    """obligation: fetch a tile, decode it, compare with the reference; or require failure"""
    def go():
        r = Run(P)
        t = Tiled(r, be=be, pred=pred, photo=tphoto, **kw)
        ph = r.adt("PhotometricInterpretation", photo) if isinstance(photo, str) else photo
        jpeg = seq(kw["jpeg"]) if kw.get("jpeg") is not None else None
        lerc = seq(kw["lerc"]) if kw.get("lerc") is not None else None
        tile = t.fetch()
        outs = t.run(tile, ph, jpeg, lerc, lens, failing)
        got = t.decode(tile)
        if failing is not None or lens is not None and dt == "error" or dt == "error":
            return worst([must_fail(r, got, where), nopanic(r, r.wf)])
        a = r.payload(got, 0, what=where)
        d = DTYPE.get((kw.get("fmt", "uint"), kw.get("bits", 8))) if dt == "auto" else dt
        v = r.val(r.call("Array::into_inner", pos={0: a}))
        return worst([equation(r, v, t.expected(outs, pred, be, d), where=where), nopanic(r, r.wf)])
    return go
