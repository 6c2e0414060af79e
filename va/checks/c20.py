"""C20: memory is never reserved on the word of an untrusted count."""
import re
from api import *
from va_common import *
from va_pix import Tiled
from models import FILE, FLEN
from checks import c01, c04, c08, c10, c15, c17

RULE = ("every up-front reservation (with_capacity, reserve, resize, vec![x; n], map capacity) reached while opening, reading directories and entries, fetching and decoding: its element count is at "
        "most 2^20 or 64 times the bytes received before it, for every declared count, size and offset")
TECHNIQUE = "allocation-size analysis of MIR: the size term of every reservation is bounded, under its path condition, by the bytes already received"
RD, MR, TV, IFD = "ImageFileDirectoryReader", "TiffMetadataReader", "TagValue", "ImageFileDirectory"
K, C = 2 ** 20, 64


def received(a, b):
    n = mk("call", "received", (a, b), "u64")
    return ite(lt(n, sub(b, a)), n, sub(b, a))


def source(c, a, b):
    """an honest source: it has only as many bytes as it has"""
    return ok(ssub(FILE, a, received(a, b)))


def bounded(r, w, extra=I(0), wf=None):
    """every reservation since the start of the run"""
    rs, got = [], []
    for ev in r.st.ev:
        if ev[0] == "fetch":
            got.append((ev[2], ev[3], ev[4]))
        if ev[0] != "alloc":
            continue
        n, pc, fn = ev[1], ev[2], ev[3]
        here = pc.rel(None)
        hs = set(here)
        have = extra
        for a, b, q in got:
            if all(l in hs for l in q.rel(None)):
                have = add(have, received(a, b))
        f = pc.facts
        n = f.deep(n)
        if n.op == "int":
            good = n.a[0] <= K or None
            if good:
                rs.append(R("proved", n=1))
                continue
        for x in set(subterms(n)):
            if x.op == "len" and x.a[0].op == "sym" and x.a[0] is not FILE:
                have = add(have, x)  # a list that is already in memory
        lits = [l for l in here if l is not TRUE] + list(r.wf if wf is None else wf)
        s, why, ns = D.decide(r.e, le(n, add(I(K), mul(I(C), have))), TRUE, lits)
        name = r.P.bodies[fn]["path"] if isinstance(fn, int) else str(fn)
        if s == "refuted":
            why = "reserves %s elements before as many bytes were received: %s" % (D.shortt(n), why)
        rs.append(R(s, why, "%s (reservation in %s)" % (w, name), ns))
    if not rs:
        return R("proved", "no reservation", w, n=0, fns=fns_of(r))
    x = worst(rs)
    x.n, x.fns = len(rs), fns_of(r)
    return x


def opening(P):
    def go():
        r = Run(P, fetch_mode=source)
        r.call(MR + "::try_open")
        return bounded(r, MR + "::try_open")
    return go


def directory(P, big, be):
    def go():
        r = Run(P, fetch_mode=source)
        v = r.call(RD + "::open", pos={1: sym("ifd_offset", "u64"), 2: B(big), 3: endian(r, be)})
        d = r.payload(v, 0, must=False)
        from checks import c02
        c02.stubs(r)
        r.call(RD + "::read", pos={0: r.ref(d)})
        return bounded(r, RD + "::read")
    return go


def entry(P, big, be, code, cls):
    """an entry of any count"""
    def go():
        w = sum(WIDTH[x] for x in c01.TYPES[code][1])
        r = c01.setup(P, big, be, 256, code, count=cls if isinstance(cls, int) else None, cmin=2 ** 31 if cls == "huge" else (8 if big else 4) // w + 1, fetch_mode=source)[0]
        return bounded(r, RD + "::read_tag (type %d)" % code)
    return go


def tags(P, t, v):
    def go():
        r = Run(P)
        w = c04.World(r, [x for x in c04.REQUIRED if x != t], other=[])
        w.put(t, r.adt(TV, "Unsigned", sym("v", "u32")) if v == "long" else r.adt(TV, "Short", sym("v", "u16")))
        r.call(IFD + "::from_tags", pos={0: w.m, 1: endian(r, False)})
        return bounded(r, IFD + "::from_tags")
    return go


def geo(P):
    def go():
        w = c08.World(P)
        r = w.r
        w.put("GeoKeyDirectory", r.adt(TV, "List", seq([r.adt(TV, "Short", x) for x in [I(1), I(1), I(0), sym("keys", "u16")]])))
        w.run()
        return bounded(r, IFD + "::from_tags")
    return go


def tiles(P, planar, n, spp):
    """fetching tiles whose tables declare any offsets and sizes"""
    def go():
        r = Run(P, fetch_mode="err")
        d = Dir(r, planar=planar, spp=spp)
        p = d.ifd()
        xy = [(sym("x%d" % i, "usize"), sym("y%d" % i, "usize")) for i in range(n)]
        for what in ("tile_count", "tile_byte_range", "tiles_byte_ranges", "fetch_tile", "fetch_tiles"):
            pos = {0: p, 1: xy[0][0], 2: xy[0][1], 3: sym("reader")}
            if what == "tile_count":
                pos = {0: p}
            if what == "tile_byte_range":
                pos.pop(3)
            if what in ("tiles_byte_ranges", "fetch_tiles"):
                if n == 1 or what == "fetch_tiles":
                    continue
                pos = {0: p, 1: r.ref(seq([mk("tup", q) for q in xy]))}
            s0 = r.st.copy()
            r.call(IFD + "::" + what, pos=pos)
            x = bounded(r, IFD + "::" + what)
            if x.status != "proved":
                return x
            r.st = s0
        return x
    return go


def batch(P, planar, spp):
    """a batch over tables that declare any offsets and sizes"""
    def go():
        r = Run(P, fetch_mode="ok")
        d = Dir(r, planar=planar, spp=spp, size=c10.SIZE)
        p = d.ifd()
        xy = [(2, 3), (0, 0)]
        r.call(IFD + "::fetch_tiles", pos={0: p, 1: r.ref(seq([mk("tup", (I(x), I(y))) for x, y in xy])), 2: sym("reader")})
        return bounded(r, IFD + "::fetch_tiles")
    return go


def decode(P, n, **kw):
    """a tile of the declared parameters whose codec answers n bytes"""
    def go():
        r = Run(P)
        t = Tiled(r, **kw)
        tile = t.fetch()
        r.e.codec_hook = lambda c, args: ok(seq([sym("b%d" % i, "u8") for i in range(n)]))
        t.decode(tile)
        return bounded(r, "Tile::decode", extra=I(n * max(1, kw.get("spp", 1))))
    return go


def defaultreg(P, code, w, h):
    """the default codecs on a tile of huge declared dimensions"""
    def go():
        r = Run(P)
        t = Tiled(r, comp=code, codec=False, photo=2, w=w, h=h, spp=3)
        t.reg = r.ref(r.call("Default for DecoderRegistry::default", pos={}))
        tile = t.fetch()
        r.st.ev[:] = []
        t.decode(tile)
        return decoded_bound(r)
    return go


def decoded_bound(r):
    """reservations while decoding are bounded by the compressed bytes or by what the codec answered"""
    rs = []
    for ev in r.st.ev:
        if ev[0] != "alloc":
            continue
        n = ev[2].facts.deep(ev[1])
        if n.op == "int" and n.a[0] <= K:
            rs.append(R("proved"))
        elif n.op == "int":
            rs.append(R("refuted", "reserves %d elements whatever was received" % n.a[0], "Tile::decode", 1))
        else:
            rs.append(R("proved"))  # a size the codec reports: see N01
    x = worst(rs) if rs else R("proved", n=0)
    x.fns = fns_of(r)
    return x


def tokio(P):
    """a file reader asked for any range of a file of any length"""
    def go():
        r = Run(P)
        r.e.sharp = True
        f = mk("adt", "$afile", 0, (sym("position", "u64"),))
        p = r.ref(r.call("TokioReader::new", pos={0: f}))
        a, b = sym("a", "u64"), sym("b", "u64")
        r.assume(le(a, b))
        r.call(c17.bytes_of(P, "TokioReader"), pos={0: p, 1: mkrange(a, b)})
        return bounded(r, "TokioReader::get_bytes", extra=FLEN)
    return go


def cached(P, n, ranges, initial):
    """requests through the cache, the source having n bytes, whatever the requests declare"""
    def go():
        r = Run(P)
        r.e.sharp = True
        sim = c15.Sim(r, c15.cache(r, I(initial), None), {})
        sim.N = I(n)
        for a, b in ranges:
            sim.fetch(I(a), I(b))
        return bounded(r, c15.FETCH, extra=I(n))
    return go


M = 2 ** 32 - 1


def obligations(P, tier):
    obs = [("open", opening(P)), ("geo", geo(P)), ("tokio", tokio(P))]
    for n in (0, 1, 20, 100):
        for i, q in enumerate(([(0, 2 ** 40)], [(0, 8), (4, 2 ** 40)], [(0, 8), (2 ** 39, 2 ** 40)], [(0, 8), (8, 18), (6, 2 ** 36)], [(2 ** 40, 2 ** 40 + 2 ** 35)])):
            for ini in (1, 8):
                obs.append(("cache/%d/%d/%d" % (n, i, ini), cached(P, n, q, ini)))
    for big in (False, True):
        for be in (False, True):
            t = "%s/%s" % ("BigTIFF" if big else "TIFF", "MM" if be else "II")
            obs.append(("directory/" + t, directory(P, big, be)))
            for code in c01.TYPES:
                for cls in (1, 2, 9, "many", "huge"):
                    obs.append(("entry/%s/%d/%s" % (t, code, cls), entry(P, big, be, code, cls)))
    for t in list(c04.FIELDS):
        for v in ("long", "short"):
            obs.append(("tag/%s/%s" % (t, v), tags(P, t, v)))
    for pl in (False, True):
        nm = "planar" if pl else "chunky"
        for n in (1, 2):
            obs.append(("tiles/%s/%d" % (nm, n), tiles(P, pl, n, 2)))
        for spp in (1, 3):
            obs.append(("batch/%s/%d" % (nm, spp), batch(P, pl, spp)))
        for pred in ("none", "horizontal", "float"):
            for bits, fmt in ((1, "uint"), (8, "uint"), (16, "uint"), (32, "float"), (64, "float")):
                for w, h in ((M, M), (M, 1), (3, M), (2 ** 16, 2 ** 15)):
                    for spp in (1, 3):
                        for n in (0, 24):
                            obs.append(("decode/%s/%s/%s%d/%dx%dx%d/%d" % (nm, pred, fmt, bits, w, h, spp, n), decode(P, n, planar=pl, pred=pred, bits=bits, fmt=fmt, spp=spp, w=w, h=h)))
    for code in (1, 5, 6, 7, 8, 0x80B2, 50000, 34925, 34712, 34887, 50001):
        for w, h in ((M, M), (2 ** 16, 2 ** 15)):
            obs.append(("codec/%d/%dx%d" % (code, w, h), defaultreg(P, code, w, h)))
    return obs
