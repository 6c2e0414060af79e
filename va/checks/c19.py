"""C19: no file content makes metadata reading panic."""
import re
from api import *
from va_common import *
from checks import c01, c02, c04, c05, c08, c09

RULE = ("every operation of metadata reading on arbitrary bytes (no well-formedness assumed): the failure condition of every run-time check (overflow, division, index, slice, unwrap, assert, "
        "explicit panic) that any path reaches is unsatisfiable")
TECHNIQUE = "panic-freedom analysis of MIR: reachability conditions of all assert terminators and panicking calls over symbolic file contents"
MR, RD, TV, IFD = "TiffMetadataReader", "ImageFileDirectoryReader", "TagValue", "ImageFileDirectory"
MODES = ("ok", "err", "short")


def opening(P, mode):
    def go():
        r = Run(P, fetch_mode=mode)
        r.call(MR + "::try_open")
        return nopanic(r, r.wf)
    return go


def directory(P, big, be, mode):
    """opening a directory anywhere and following it, whatever its count"""
    def go():
        r = Run(P, fetch_mode=mode)
        v = r.call(RD + "::open", pos={1: sym("ifd_offset", "u64"), 2: B(big), 3: endian(r, be)})
        r.call(RD + "::finish", pos={0: r.payload(v, 0, must=False)})
        return nopanic(r, r.wf)
    return go


def entry(P, big, be, mode, code):
    """any entry of the directory with this field type and any count"""
    def go():
        r = Run(P, fetch_mode=mode)
        off, idx = sym("ifd_offset", "u64"), sym("tag_index", "u64")
        v = r.call(RD + "::open", pos={1: off, 2: B(big), 3: endian(r, be)})
        d = r.payload(v, 0, must=False)
        n = ent(r, d)
        r.assume(lt(idx, n))
        base = add(off, I(8 if big else 2), mul(I(20 if big else 12), idx))
        ty = rd("u16", be, FILE, add(base, I(2)))
        if code is None:
            r.assume(*[tnot(eq(ty, I(c))) for c in c01.TYPES])
        else:
            r.assume(eq(ty, I(code)))
        r.call(RD + "::read_tag", pos={0: r.ref(d), 2: idx})
        return nopanic(r, r.wf)
    return go


def entry_err(P, big, be, code, count, mode="err"):
    """each read of the entry failing in turn, or returning fewer bytes than asked for"""
    def go():
        r = c01.setup(P, big, be, 256, code, count=count, fetch_mode=mode)[0]
        return nopanic(r, r.wf)
    return go


def ent(r, d):
    """the number of entries the directory reader holds"""
    fs = r.P.adts[r.N.adt(RD)]["v"][0]["f"]
    for i, f in enumerate(fs):
        if f[0] == "tag_count":
            return r.e.proj(d, ("f", i, f[1] if len(f) > 1 else None))
    raise Undet("entry count of the directory reader")


def loop(P, big, be):
    """the loop over the entries, and the chain"""
    def go():
        r = Run(P, fetch_mode="ok")
        c02.stubs(r)
        v = r.call(RD + "::open", pos={1: sym("ifd_offset", "u64"), 2: B(big), 3: endian(r, be)})
        r.call(RD + "::read", pos={0: r.ref(r.payload(v, 0, must=False))})
        return nopanic(r, r.wf)
    return go


def nextifd(P, big, be):
    def go():
        r, m = c02.opened(P, big, be)
        cur = sym("next_offset", "u64")
        m = subst(m, {c02.first(big, be): cur})
        c02.stubs(r)
        p = r.ref(m)
        r.call(MR + "::read_next_ifd", pos={0: p})
        return nopanic(r, r.wf)
    return go


def fewer(c, a, b):
    n = mk("call", "received", (a, b), "u64")
    return ok(ssub(FILE, a, ite(lt(n, sub(b, a)), n, sub(b, a))))


SC = {"Byte": ["u8"], "Short": ["u16"], "SignedByte": ["i8"], "SignedShort": ["i16"], "Signed": ["i32"], "SignedBig": ["i64"], "Unsigned": ["u32"], "UnsignedBig": ["u64"],
      "Float": ["f32"], "Double": ["f64"], "Rational": ["u32", "u32"], "SRational": ["i32", "i32"], "Ifd": ["u32"], "IfdBig": ["u64"]}


def value(r, n, var, shape):
    if var == "Ascii":
        v = r.adt(TV, "Ascii", mk("sym", n + "_text", "seq:u8"))
        return v if shape == "one" else r.adt(TV, "List", seq([v, v]))
    if shape == "one":
        return r.adt(TV, var, *[sym("%s_%d" % (n, i), t) for i, t in enumerate(SC[var])])
    ss = [mk("sym", "%s_list%d" % (n, i), "seq:" + t) for i, t in enumerate(SC[var])]
    r.assume(lt(slen(ss[0]), I(2 ** 32)))
    i = fresh("i", "usize")
    return r.adt(TV, "List", smap(slen(ss[0]), i, r.adt(TV, var, *[sidx(s, i) for s in ss])))


def tags(P, t, var, shape):
    """a directory in which one tag has an arbitrary value of the given type"""
    def go():
        r = Run(P)
        w = c04.World(r, [x for x in c04.REQUIRED if x != t], other=[])
        w.put(t, value(r, "v", var, shape))
        r.call(IFD + "::from_tags", pos={0: w.m, 1: endian(r, False)})
        return nopanic(r, r.wf)
    return go


def missing(P, t):
    def go():
        r = Run(P)
        w = c04.World(r, [x for x in c04.REQUIRED if x != t], other=[])
        r.call(IFD + "::from_tags", pos={0: w.m, 1: endian(r, False)})
        return nopanic(r, r.wf)
    return go


def geo(P, words, dbl=False, asc=False):
    """a geo key directory of the given and otherwise arbitrary 16-bit words"""
    def go():
        w = c08.World(P)
        r = w.r
        if dbl:
            w.doubles()
        if asc:
            s = mk("sym", "params", "seq:u8")
            r.assume(lt(slen(s), I(60000)))
            w.put("GeoAsciiParams", r.adt(TV, "Ascii", s))
        ks = [sym("word%d" % i, "u16") if x is None else I(x) for i, x in enumerate(words)]
        if len(words) >= 8 and words[5] is None:
            r.assume(*[tnot(eq(ks[5], I(x))) for x in (0, 34736, 34737)])
        w.put("GeoKeyDirectory", r.adt(TV, "List", seq([r.adt(TV, "Short", x) for x in ks])))
        w.run()
        return nopanic(r, r.wf)
    return go


def ranges(P, planar, what):
    """tile ranges of a directory with arbitrary sizes and tables"""
    def go():
        r = Run(P, fetch_mode="err")
        d = Dir(r, planar=planar, spp=None if what != "fetch_tile" or not planar else 2)
        if what != "fetch_tile":
            pass
        p = d.ifd()
        x, y = sym("x", "usize"), sym("y", "usize")
        if what == "tile_count":
            r.call(IFD + "::tile_count", pos={0: p})
        elif what == "fetch_tile":
            r.call(IFD + "::fetch_tile", pos={0: p, 1: x, 2: y, 3: sym("reader")})
        elif what == "tile_byte_range":
            r.call(IFD + "::tile_byte_range", pos={0: p, 1: x, 2: y})
        else:
            r.call(IFD + "::tiles_byte_ranges", pos={0: p, 1: r.ref(seq([mk("tup", (x, y)), mk("tup", (y, x))]))})
        return nopanic(r, r.wf)
    return go


def degenerate(P, planar, what):
    """tile sizes, image sizes and band counts of zero, tables shorter than the grid"""
    def go():
        r = Run(P, fetch_mode="err")
        d = Dir(r, planar=planar, spp=0 if planar else 2, tags={})
        for t in ("TileWidth", "TileLength"):
            d.put(t, r.adt(TV, "Unsigned", sym("any_" + t, "u32")))
        p = d.ifd()
        x, y = sym("x", "usize"), sym("y", "usize")
        r.call(IFD + "::" + what, pos={0: p} if what == "tile_count" else {0: p, 1: x, 2: y} if what == "tile_byte_range" else {0: p, 1: x, 2: y, 3: sym("reader")})
        return nopanic(r, r.wf)
    return go


def obligations(P, tier):
    obs = [("open/" + m, opening(P, m)) for m in MODES]
    for big in (False, True):
        for be in (False, True):
            t = "%s/%s" % ("BigTIFF" if big else "TIFF", "MM" if be else "II")
            for m in MODES:
                obs.append(("directory/%s/%s" % (t, m), directory(P, big, be, m)))
                for code in list(c01.TYPES) + [None]:
                    if m == "ok":
                        if big == be and tier == "quick":
                            continue  # the byte order is covered by the two other combinations
                        obs.append(("entry/%s/%s/%s" % (t, m, code or "unknown"), entry(P, big, be, m, code)))
                    elif code:
                        for n in (1, 2, 3, 9):
                            obs.append(("entry/%s/%s/%s/%d" % (t, m, code, n), entry_err(P, big, be, code, n, m if m == "err" else fewer)))
            obs.append(("loop/" + t, loop(P, big, be)))
            obs.append(("next/" + t, nextifd(P, big, be)))
    for t in list(c04.FIELDS) + ["GeoKeyDirectory", "GeoDoubleParams", "GeoAsciiParams"]:
        for var in list(SC) + ["Ascii"]:
            for sh in ("one", "list"):
                if t == "GeoKeyDirectory" and sh == "list" and var in ("Byte", "Short", "Unsigned", "UnsignedBig"):
                    continue  # see geo/
                obs.append(("tag/%s/%s/%s" % (t, var, sh), tags(P, t, var, sh)))
    for t in c04.REQUIRED:
        obs.append(("missing/" + t, missing(P, t)))
    for n in (0, 1, 3, 4, 5, 7):
        obs.append(("geo/%d-words" % n, geo(P, [None] * n)))
    for f, (k, kind) in c08.KEYS.items():
        for loc in (0, 34736, 34737, None):
            for have in (False, True):
                obs.append(("geo/%s/%s/%s" % (f, "other" if loc is None else loc, "params" if have else "bare"),
                            geo(P, [1, 1, None, 1, k, loc, None, None], have and loc == 34736, have and loc == 34737)))
    obs.append(("geo/more-keys-than-declared", geo(P, [1, 1, 0, 1, 1024, 0, 1, None, 1025, 0, 1, None, 7])))
    obs.append(("geo/fewer-keys-than-declared", geo(P, [1, 1, 0, 3, 1024, 0, 1, None, 1025, 0, 1, None, 7])))
    for pl in (False, True):
        for w in ("tile_count", "tile_byte_range", "tiles_byte_ranges", "fetch_tile"):
            obs.append(("ranges/%s/%s" % ("planar" if pl else "chunky", w), ranges(P, pl, w)))
        for w in ("tile_count", "tile_byte_range", "fetch_tile"):
            obs.append(("degenerate/%s/%s" % ("planar" if pl else "chunky", w), degenerate(P, pl, w)))
    for k, f in c08.obligations(P, tier):
        if k.startswith("malformed"):
            obs.append(("c08/" + k, f))
    return obs
