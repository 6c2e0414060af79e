"""C25: failures of sources and codecs are never swallowed."""
import re
from api import *
from va_common import *
from checks import c01, c02, c10, c12, c15, c17, c18

RULE = ("every operation that reads from a source or calls a codec, with each of its reads and codec calls failing in turn: for each call site reached, "
        "'this call fails' and 'the operation returns Ok' exclude each other")
TECHNIQUE = "error-flow analysis of MIR: for every fallible source or codec call reached, the failure condition is shown to imply the Err condition of the operation's result"
RD, MR = "ImageFileDirectoryReader", "TiffMetadataReader"


def reads(r, got, w, mark=0):
    """each source read reached since event number mark: its failure makes the result Err"""
    rs = []
    bad = r.val(eq(r.e.disc(got), I(1)))
    seen = set()
    for ev in r.st.ev[mark:]:
        if ev[0] == "fetch":
            a, b, pc = ev[2], ev[3], ev[4]
            rg = [(a, b)]
        elif ev[0] == "fetch_ranges":
            q, pc = ev[2], ev[3]
            if q.op != "seq":
                raise Undet("list of ranges")
            rg = [x.a[2] for x in q.a[0]]
        else:
            continue
        reach = [l for l in pc.rel(r.st.pc) if l is not TRUE]
        for a, b in rg:
            g = tnot(mk("call", "fetch.ok", (a, b), "bool"))
            if (g, tuple(reach)) in seen:
                continue
            seen.add((g, tuple(reach)))
            rs.append(equation(r, bad, TRUE, extra=reach + [g], where="%s (read of %s..%s fails)" % (w, D.shortt(r.val(a)), D.shortt(r.val(b)))))
    if not rs:
        return R("undetermined", "no read found", w)
    x = worst(rs)
    x.n = len(rs)
    return x


def opening(P, big, be):
    def go():
        r = c02.header(P, big, be, fetch_mode="err")
        return reads(r, r.call(MR + "::try_open"), MR + "::try_open")
    return go


def directory(P, big, be, what):
    def go():
        r = Run(P, fetch_mode="err" if what == "open" else "ok")
        off = sym("ifd_offset", "u64")
        n = rd("u64" if big else "u16", be, FILE, off)
        r.assume(lt(off, I(2 ** 40)), lt(n, I(2 ** 20)))
        v = r.call(RD + "::open", pos={1: off, 2: B(big), 3: endian(r, be)})
        if what == "open":
            return reads(r, v, RD + "::open")
        m = len(r.st.ev)
        r.e.fetch_mode = "err"
        return reads(r, r.call(RD + "::finish", pos={0: r.payload(v, 0, must=False)}), RD + "::finish", m)
    return go


def entry(P, big, be, code, count):
    def go():
        off, idx = sym("ifd_offset", "u64"), sym("tag_index", "u64")
        r, v, wf, cnt, voff, ptr = c01.setup(P, big, be, 256, code, count=count, fetch_mode="err")
        m = 0
        for i, ev in enumerate(r.st.ev):
            if ev[0] == "fetch" and ev[2] is off:
                m = i + 1
        return reads(r, v, "%s::read_tag (type %d, %d values)" % (RD, code, count), m)
    return go


def tiles(P, planar, xy, spp):
    def go():
        r = Run(P, fetch_mode="err")
        d = Dir(r, planar=planar, spp=spp, size=c10.SIZE)
        p = d.ifd()
        for x, y in xy:
            r.assume(c10.spec(r, d, I(x), I(y), planar, spp)[0])
        m = len(r.st.ev)
        if len(xy) == 1:
            w = IFD + "::fetch_tile"
            v = r.call(w, pos={0: p, 1: I(xy[0][0]), 2: I(xy[0][1]), 3: sym("reader")})
        else:
            w = IFD + "::fetch_tiles"
            v = r.call(w, pos={0: p, 1: r.ref(seq([mk("tup", (I(x), I(y))) for x, y in xy])), 2: sym("reader")})
        return reads(r, v, w, m)
    return go


def obligations(P, tier):
    obs = []
    for big in (False, True):
        for be in (False, True):
            t = "%s/%s" % ("BigTIFF" if big else "TIFF", "MM" if be else "II")
            obs.append(("open/" + t, opening(P, big, be)))
            obs.append(("directory/" + t, directory(P, big, be, "open")))
            obs.append(("next-offset/" + t, directory(P, big, be, "finish")))
            for code in c01.TYPES:
                for n in (1, 2, 3, 9):
                    obs.append(("entry/%s/%d/%d" % (t, code, n), entry(P, big, be, code, n)))
    for pl in (False, True):
        for spp in (1, 3):
            for xy in ([(1, 2)], [(2, 3), (0, 0)], [(2, 0), (0, 3), (1, 1)]):
                obs.append(("tiles/%s/%d/%d" % ("planar" if pl else "chunky", spp, len(xy)), tiles(P, pl, xy, spp)))
    for n in (1, 2, 3, None):
        obs.append(("ranges/%s" % n, c10.default_ranges(P, n)))
    pick = {c12: r"^failing|^codec/|^missing", c15: "^failing", c17: "fail|http/|object/", c18: r"^fail/TIFF/II/two|^malformed/TIFF|^all-fails/TIFF"}
    for m, rx in pick.items():
        for k, f in m.obligations(P, tier):
            if re.search(rx, k):
                obs.append(("%s/%s" % (m.__name__.split(".")[-1], k), f))
    return obs
