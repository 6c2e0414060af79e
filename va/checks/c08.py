"""C08: GeoKey entries reach the field of their own key with the value their location, count and offset designate."""
from api import *
from va_common import *

IFD, TV, GK = "ImageFileDirectory", "TagValue", "GeoKeyDirectory"
KEYS = {
    "model_type": (1024, "s"), "raster_type": (1025, "s"), "citation": (1026, "a"),
    "geographic_type": (2048, "s"), "geog_citation": (2049, "a"), "geog_geodetic_datum": (2050, "s"), "geog_prime_meridian": (2051, "s"),
    "geog_linear_units": (2052, "s"), "geog_linear_unit_size": (2053, "d"), "geog_angular_units": (2054, "s"), "geog_angular_unit_size": (2055, "d"),
    "geog_ellipsoid": (2056, "s"), "geog_semi_major_axis": (2057, "d"), "geog_semi_minor_axis": (2058, "d"), "geog_inv_flattening": (2059, "d"),
    "geog_azimuth_units": (2060, "s"), "geog_prime_meridian_long": (2061, "d"),
    "projected_type": (3072, "s"), "proj_citation": (3073, "a"), "projection": (3074, "s"), "proj_coord_trans": (3075, "s"), "proj_linear_units": (3076, "s"),
    "proj_linear_unit_size": (3077, "d"), "proj_std_parallel1": (3078, "d"), "proj_std_parallel2": (3079, "d"), "proj_nat_origin_long": (3080, "d"),
    "proj_nat_origin_lat": (3081, "d"), "proj_false_easting": (3082, "d"), "proj_false_northing": (3083, "d"), "proj_false_origin_long": (3084, "d"),
    "proj_false_origin_lat": (3085, "d"), "proj_false_origin_easting": (3086, "d"), "proj_false_origin_northing": (3087, "d"), "proj_center_long": (3088, "d"),
    "proj_center_lat": (3089, "d"), "proj_center_easting": (3090, "d"), "proj_center_northing": (3091, "d"), "proj_scale_at_nat_origin": (3092, "d"),
    "proj_scale_at_center": (3093, "d"), "proj_azimuth_angle": (3094, "d"), "proj_straight_vert_pole_long": (3095, "d"),
    "vertical": (4096, "s"), "vertical_citation": (4097, "a"), "vertical_datum": (4098, "s"), "vertical_units": (4099, "s"),
}
LOC = {"s": 0, "d": 34736, "a": 34737}


class World:
    def __init__(self, P, order="fwd"):
        self.r = r = Run(P)
        r.e.maporder = order
        self.m = mk("map0", "map:adt:%s,adt:%s" % (r.N.adt("Tag"), r.N.adt(TV)))
        u = lambda n, ty: sym(n, ty)
        self.put("ImageWidth", r.adt(TV, "Unsigned", u("width", "u32")))
        self.put("ImageLength", r.adt(TV, "Unsigned", u("height", "u32")))
        self.put("BitsPerSample", r.adt(TV, "Short", u("bits", "u16")))
        self.put("SamplesPerPixel", r.adt(TV, "Short", I(1)))
        self.put("PhotometricInterpretation", r.adt(TV, "Short", I(1)))

    def put(self, t, v):
        self.m = mk("minsert", self.m, self.r.adt("Tag", t), v)

    def directory(self, entries, header=None, count=None):
        r = self.r
        h = header or [I(1), I(1), sym("minor", "u16"), I(len(entries) if count is None else count)]
        flat = list(h)
        for e in entries:
            flat += list(e)
        self.put("GeoKeyDirectory", r.adt(TV, "List", seq([r.adt(TV, "Short", x) for x in flat])))

    def doubles(self, n=None):
        r = self.r
        if n is None:
            s = mk("sym", "doubles", "seq:f64")
            r.assume(lt(I(0), slen(s)), lt(slen(s), I(60000)))
            i = fresh("i", "usize")
            self.put("GeoDoubleParams", r.adt(TV, "List", smap(slen(s), i, r.adt(TV, "Double", sidx(s, i)))))
            return s
        xs = [sym("double%d" % i, "f64") for i in range(n)]
        self.put("GeoDoubleParams", r.adt(TV, "List", seq([r.adt(TV, "Double", x) for x in xs])))
        return seq(xs)

    def ascii(self):
        r = self.r
        s = mk("sym", "params", "seq:u8")
        r.assume(mk("sascii", s), lt(slen(s), I(60000)))
        self.put("GeoAsciiParams", r.adt(TV, "Ascii", s))
        return s

    def run(self):
        return self.r.call(IFD + "::from_tags", pos={0: self.m, 1: endian(self.r, False)})

    def keys(self):
        """the decoded directory: field -> value"""
        r = self.r
        p = r.ref(r.payload(self.run(), 0, what=IFD + "::from_tags"))
        g = r.val(r.call(IFD + "::geo_key_directory", pos={0: p}))
        g = r.payload(g, 1, what=IFD + "::geo_key_directory")
        self.g = g
        fs = r.P.adts[r.N.adt(GK)]["v"][0]["f"]
        return {f[0]: r.val(r.e.proj(g, ("f", i, None))) for i, f in enumerate(fs)}


def strip(s, off, n):
    """substring with one trailing '|' removed"""
    t = ssub(s, off, n)
    last = sidx(s, add(off, n, I(-1)))
    return ite(tand(lt(I(0), n), eq(last, I(124))), ssub(s, off, sub(n, I(1))), t)


def entry(w, f, uniq=""):
    """one entry of the key's usual kind with arbitrary value / offset / count: (entry, expected value)"""
    r = w.r
    key, k = KEYS[f]
    if k == "s":
        v = sym("value" + uniq, "u16")
        return [I(key), I(0), I(1), v], v
    off = sym("offset" + uniq, "u16")
    if k == "d":
        r.assume(lt(off, slen(w.dbl)))
        return [I(key), I(34736), I(1), off], sidx(w.dbl, off)
    n = sym("count" + uniq, "u16")
    r.assume(le(add(off, n), slen(w.asc)))
    return [I(key), I(34737), n, off], strip(w.asc, off, n)


def one(P, f, order):
    def go():
        w = World(P, order)
        r = w.r
        w.dbl, w.asc = w.doubles(), w.ascii()
        e, want = entry(w, f)
        w.directory([e])
        ks = w.keys()
        rs = []
        for g, v in ks.items():
            rs.append(equation(r, v, some(want) if g == f else NONE, where="%s.%s (key %d)" % (GK, g, KEYS[f][0])))
        rs.append(nopanic(r, r.wf))
        x = worst(rs)
        x.n = len(rs)
        return x
    return go


def allkeys(P, order):
    """every key at once, interleaved with unknown ones"""
    def go():
        w = World(P, order)
        r = w.r
        nd = sum(1 for k, t in KEYS.values() if t == "d")
        dbl = w.doubles(nd)
        w.asc = w.ascii()
        r.assume(le(I(40), slen(w.asc)))
        es, want = [], {}
        d = a = 0
        for j, (f, (key, k)) in enumerate(KEYS.items()):
            if k == "s":
                v = sym("value_%s" % f, "u16")
                es.append([I(key), I(0), I(1), v])
                want[f] = v
            elif k == "d":
                es.append([I(key), I(34736), I(1), I(d)])
                want[f] = sidx(dbl, I(d))
                d += 1
            else:
                es.append([I(key), I(34737), I(5 + a), I(7 * a)])
                want[f] = strip(w.asc, I(7 * a), I(5 + a))
                a += 1
            if j % 9 == 3:
                es.append([I(5000 + j), I(0), I(1), sym("junk%d" % j, "u16")])
        w.directory(es)
        ks = w.keys()
        rs = [equation(r, v, some(want[g]) if g in want else NONE, where="%s.%s" % (GK, g)) for g, v in ks.items()]
        rs.append(nopanic(r, r.wf))
        x = worst(rs)
        x.n = len(rs)
        return x
    return go


def multi(P):
    """a count other than one designates that many doubles; keys that hold one number then refuse it"""
    def go():
        w = World(P)
        r = w.r
        s = w.doubles(4)
        w.directory([[I(3078), I(34736), I(2), I(1)]])
        return worst([must_fail(r, w.run(), IFD + "::from_tags"), nopanic(r, r.wf)])
    return go


def empty(P):
    def go():
        w = World(P)
        r = w.r
        w.directory([])
        rs = [equation(r, v, NONE, where="%s.%s" % (GK, g)) for g, v in w.keys().items()]
        return worst(rs + [nopanic(r, r.wf)])
    return go


def bad(P, what):
    """a directory that designates data it does not have is an error"""
    def go():
        w = World(P)
        r = w.r
        if what == "version":
            v = sym("version", "u16")
            r.assume(tnot(eq(v, I(1))))
            w.directory([], header=[v, I(1), I(0), I(0)])
        elif what == "revision":
            v = sym("revision", "u16")
            r.assume(tnot(eq(v, I(1))))
            w.directory([], header=[I(1), v, I(0), I(0)])
        elif what == "truncated":
            w.directory([[I(1024), I(0), I(1), sym("v", "u16")]], count=2)
        elif what == "no-header":
            w.directory([], header=[I(1), I(1)])
        elif what == "double-range":
            s = w.doubles()
            o = sym("offset", "u16")
            r.assume(le(slen(s), o))
            w.directory([[I(3078), I(34736), I(1), o]])
        elif what == "ascii-range":
            s = w.ascii()
            o, n = sym("offset", "u16"), sym("count", "u16")
            r.assume(lt(slen(s), add(o, n)))
            w.directory([[I(1026), I(34737), n, o]])
        elif what == "no-doubles":
            w.directory([[I(3078), I(34736), I(1), I(0)]])
        elif what == "no-ascii":
            w.directory([[I(1026), I(34737), I(1), I(0)]])
        return worst([must_fail(r, w.run(), IFD + "::from_tags (%s)" % what), nopanic(r, r.wf)])
    return go


def epsg(P):
    def go():
        rs = []
        for pj in (False, True):
            for gg in (False, True):
                w = World(P)
                r = w.r
                es = []
                if pj:
                    es.append([I(3072), I(0), I(1), sym("projected", "u16")])
                if gg:
                    es.append([I(2048), I(0), I(1), sym("geographic", "u16")])
                w.directory(es)
                w.keys()
                want = some(sym("projected", "u16")) if pj else some(sym("geographic", "u16")) if gg else NONE
                got = r.val(r.call(GK + "::epsg_code", pos={0: r.ref(w.g)}))
                rs += [equation(r, got, want, where=GK + "::epsg_code"), nopanic(r, r.wf)]
        return worst(rs)
    return go


def unknown(P):
    """keys with an unknown id are skipped and do not disturb the ones after them"""
    def go():
        w = World(P)
        r = w.r
        w.dbl, w.asc = w.doubles(), w.ascii()
        k = sym("key", "u16")
        r.assume(lt(I(6000), k))
        e, want = entry(w, "vertical_units")
        w.directory([[k, sym("loc", "u16"), sym("cnt", "u16"), sym("off", "u16")], e])
        rs = [equation(r, v, some(want) if g == "vertical_units" else NONE, where="%s.%s" % (GK, g)) for g, v in w.keys().items()]
        return worst(rs + [nopanic(r, r.wf)])
    return go


def obligations(P, tier):
    obs = [("key/" + f, one(P, f, "fwd")) for f in KEYS]
    obs += [("all/fwd", allkeys(P, "fwd")), ("all/rev", allkeys(P, "rev")), ("multi-double", multi(P)), ("empty", empty(P)), ("epsg", epsg(P)), ("unknown-key", unknown(P))]
    obs += [("malformed/" + x, bad(P, x)) for x in ("version", "revision", "truncated", "no-header", "double-range", "ascii-range", "no-doubles", "no-ascii")]
    return obs
