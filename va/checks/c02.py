"""C02: header, IFD table layout and IFD chain are followed exactly as TIFF / BigTIFF lay them out."""
from api import *
from va_common import *

MR, RD, IFD = "TiffMetadataReader", "ImageFileDirectoryReader", "ImageFileDirectory"


def header(P, big, be, lits=True, fetch_mode="ok"):
    r = Run(P, fetch_mode=fetch_mode)
    m = 0x4D if be else 0x49
    if lits:
        r.assume(eq(rd("u8", False, FILE, I(0)), I(m)), eq(rd("u8", False, FILE, I(1)), I(m)), eq(rd("u16", be, FILE, I(2)), I(43 if big else 42)))
        if big:
            r.assume(eq(rd("u16", be, FILE, I(4)), I(8)), eq(rd("u16", be, FILE, I(6)), I(0)))
    return r


def first(big, be):
    return rd("u64", be, FILE, I(8)) if big else rd("u32", be, FILE, I(4))


def opened(P, big, be):
    r = header(P, big, be)
    m = r.payload(r.call(MR + "::try_open"), 0, what=MR + "::try_open")
    return r, m


def open_ok(P, big, be):
    def go():
        r, m = opened(P, big, be)
        p = r.ref(m)
        w = MR + "::try_open"
        rs = [equation(r, r.val(r.call(MR + "::endianness", pos={0: p})), endian(r, be), where=w),
              equation(r, r.val(r.call(MR + "::bigtiff", pos={0: p})), B(big), where=w),
              equation(r, r.val(r.call(MR + "::has_next_ifd", pos={0: p})), TRUE, where=w),
              equation(r, r.val(r.call(MR + "::next_ifd_offset", pos={0: p})), some(first(big, be)), where=w),
              nopanic(r, r.wf)]
        return worst(rs)
    return go


def open_bad(P, which, be):
    def go():
        r = Run(P)
        a, b = rd("u8", False, FILE, I(0)), rd("u8", False, FILE, I(1))
        if which == "magic":
            r.assume(tnot(tor(tand(eq(a, I(0x49)), eq(b, I(0x49))), tand(eq(a, I(0x4D)), eq(b, I(0x4D))))))
        else:
            m = 0x4D if be else 0x49
            r.assume(eq(a, I(m)), eq(b, I(m)))
            v = rd("u16", be, FILE, I(2))
            if which == "version":
                r.assume(tnot(eq(v, I(42))), tnot(eq(v, I(43))))
            else:
                r.assume(eq(v, I(43)))
                if which == "offsize":
                    r.assume(tnot(eq(rd("u16", be, FILE, I(4)), I(8))))
                else:
                    r.assume(eq(rd("u16", be, FILE, I(4)), I(8)), tnot(eq(rd("u16", be, FILE, I(6)), I(0))))
        v = r.call(MR + "::try_open")
        return worst([must_fail(r, v, MR + "::try_open"), nopanic(r, r.wf)])
    return go


def finish(P, big, be, last):
    def go():
        r = Run(P)
        off = sym("ifd_offset", "u64")
        n = rd("u64" if big else "u16", be, FILE, off)
        r.assume(lt(off, I(2 ** 40)), lt(n, I(2 ** 30)))
        nx = rd("u64" if big else "u32", be, FILE, add(off, I(8 if big else 2), mul(I(20 if big else 12), n)))
        r.assume(eq(nx, I(0)) if last else lt(I(0), nx))
        rdr = r.payload(r.call(RD + "::open", pos={1: off, 2: B(big), 3: endian(r, be)}), 0, what=RD + "::open")
        got = r.val(r.call(RD + "::finish", pos={0: rdr}))
        want = ok(NONE) if last else ok(some(nx))
        return worst([equation(r, got, want, where=RD + "::finish"), nopanic(r, r.wf)])
    return go


def tag_stub(e, st, f, targs, vals, tys, dty):
    """entry i of the directory: an arbitrary (tag, value)"""
    rdr, i = e.deepval(st, vals[0]), vals[2]
    return mk("fut", "stub", ok(mk("tup", (mk("call", "spec:tag", (rdr, i), "adt:" + TAGT[0]), mk("call", "spec:value", (rdr, i), "adt:" + TAGT[1])))))


TAGT = [None, None]


def from_stub(e, st, f, targs, vals, tys, dty):
    m, en = e.deepval(st, vals[0]), e.deepval(st, vals[1])
    return ok(mk("call", "spec:from_tags", (m, en), "adt:" + IFDT[0]))


IFDT = [None]


def stubs(r):
    TAGT[0], TAGT[1], IFDT[0] = r.N.adt("Tag"), r.N.adt("TagValue"), r.N.adt(IFD)
    r.e.stubs = {r.N.fn(RD + "::read_tag")["path"]: tag_stub, r.N.fn(IFD + "::from_tags")["path"]: from_stub}


def next_ifd(P, big, be, last):
    def go():
        r, m = opened(P, big, be)
        cur = sym("next_offset", "u64")
        m = subst(m, {first(big, be): cur})
        n = rd("u64" if big else "u16", be, FILE, cur)
        r.assume(lt(cur, I(2 ** 40)), lt(n, I(2 ** 20)), lt(I(1), n))
        nx = rd("u64" if big else "u32", be, FILE, add(cur, I(8 if big else 2), mul(I(20 if big else 12), n)))
        r.assume(eq(nx, I(0)) if last else lt(I(0), nx))
        stubs(r)
        rdr = r.payload(r.call(RD + "::open", pos={1: cur, 2: B(big), 3: endian(r, be)}), 0, what=RD + "::open")
        direct = r.payload(r.call(RD + "::read", pos={0: r.ref(rdr)}), 0, what=RD + "::read")
        p = r.ref(m)
        got = r.val(r.call(MR + "::read_next_ifd", pos={0: p}))
        direct = r.val(direct)
        w = MR + "::read_next_ifd"
        if not uses(got, "spec:from_tags") or not uses(direct, "spec:from_tags"):
            return R("undetermined", "directory is not built through the public constructor")
        rs = [equation(r, got, ok(some(direct)), where=w),
              equation(r, r.val(r.call(MR + "::next_ifd_offset", pos={0: p})), NONE if last else some(nx), where=w),
              equation(r, r.val(r.call(MR + "::has_next_ifd", pos={0: p})), B(not last), where=w),
              equation(r, r.val(r.call(MR + "::endianness", pos={0: p})), endian(r, be), where=w),
              equation(r, r.val(r.call(MR + "::bigtiff", pos={0: p})), B(big), where=w),
              nopanic(r, r.wf)]
        return worst(rs)
    return go


def read_dir(P, big, be):
    """the directory handed to the constructor contains exactly the entries 0..count, the last one of a code winning"""
    def go():
        r = Run(P)
        off = sym("ifd_offset", "u64")
        n = rd("u64" if big else "u16", be, FILE, off)
        r.assume(lt(off, I(2 ** 40)), lt(n, I(2 ** 20)), lt(I(2), n))
        stubs(r)
        rdr = r.payload(r.call(RD + "::open", pos={1: off, 2: B(big), 3: endian(r, be)}), 0, what=RD + "::open")
        got = r.payload(r.call(RD + "::read", pos={0: r.ref(rdr)}), 0, what=RD + "::read")
        got = r.val(got)
        cs = [x for x in subterms(got) if x.op == "call" and x.a[0] == "spec:from_tags"]
        if got.op != "call" or len(cs) != 1:
            return R("undetermined", "directory is not built through the public constructor")
        m, en = got.a[1]
        rd_ = r.e.deepval(r.st, rdr)
        k = fresh("k", "u64")
        want = subst(mk_mbuild(base_map(m), k, TRUE, mk("call", "spec:tag", (rd_, k), "adt:" + TAGT[0]),
                               mk("call", "spec:value", (rd_, k), "adt:" + TAGT[1])), {k: n})
        cnt = []
        if m.op == "mbuild" and want.op == "mbuild" and len(m.a) == len(want.a):
            d = [i for i in range(len(m.a)) if m.a[i] is not want.a[i]]
            if d == [1]:  # the same entries, of another number of them
                cnt = [equation(r, m.a[1], want.a[1], where=RD + "::read (number of entries)")]
        return worst(cnt + [equation(r, en, endian(r, be), where=RD + "::read"), equation(r, m, want, where=RD + "::read"), nopanic(r, r.wf)])
    return go


def base_map(m):
    for x in subterms(m):
        if x.op == "map0":
            return x
    raise Undet("directory map is not built from an empty map")


def at_end(P, big, be):
    def go():
        r, m = opened(P, big, be)
        cur = sym("next_offset", "u64")
        m = subst(m, {first(big, be): cur})
        n = rd("u64" if big else "u16", be, FILE, cur)
        r.assume(lt(cur, I(2 ** 40)), lt(n, I(2 ** 20)), lt(I(1), n))
        nx = rd("u64" if big else "u32", be, FILE, add(cur, I(8 if big else 2), mul(I(20 if big else 12), n)))
        r.assume(eq(nx, I(0)))
        stubs(r)
        p = r.ref(m)
        r.payload(r.call(MR + "::read_next_ifd", pos={0: p}), 0, what=MR + "::read_next_ifd")
        got = r.val(r.call(MR + "::read_next_ifd", pos={0: p}))
        return worst([equation(r, got, ok(NONE), where=MR + "::read_next_ifd"), nopanic(r, r.wf)])
    return go


def chain(P, big, be, mode, viaread):
    """read_all_ifds over a chain of N directories"""
    def go():
        r, m = opened(P, big, be)
        N, E = sym("chain_length", "u64"), sym("bad", "u64")
        r.assume(lt(N, I(2 ** 20)), lt(I(0), N))
        if mode == "err":
            r.assume(lt(E, N))
        ifdt = r.N.adt(IFD)
        item = lambda i: mk("call", "spec:ifd", (i,), "adt:" + ifdt)
        cell = r.ref(I(0))
        hits = []

        def stub(e, st, f, targs, vals, tys, dty):
            i = e.load(st, cell)
            hits.append(1)
            e.store(st, cell, add(i, I(1)))
            v = ite(lt(i, N), ok(some(item(i))), ok(NONE))
            if mode == "err":
                v = ite(eq(i, E), err(mk("call", "spec:error", (i,), None)), v)
            return mk("fut", "stub", v)

        r.e.stubs = {r.N.fn(MR + "::read_next_ifd")["path"]: stub}
        p = r.ref(m)
        got = r.call(MR + ("::read" if viaread else "::read_all_ifds"), pos={0: p})
        w = MR + "::read_all_ifds"
        if not hits:
            return R("undetermined", "chain not driven through read_next_ifd")
        if mode == "err":
            return worst([must_fail(r, got, w), nopanic(r, r.wf)])
        i = fresh("i", "u64")
        want = smap(N, i, item(i))
        if not viaread:
            return worst([equation(r, r.val(got), ok(want), where=w), nopanic(r, r.wf)])
        t = r.payload(got, 0, what=w)
        q = r.ref(t)
        return worst([equation(r, r.val(r.call("TIFF::ifds", pos={0: q})), want, where=w),
                      equation(r, r.val(r.call("TIFF::endianness", pos={0: q})), endian(r, be), where=w), nopanic(r, r.wf)])
    return go


def obligations(P, tier):
    obs = [("header/bad-magic", open_bad(P, "magic", False))]
    for be in (False, True):
        en = "MM" if be else "II"
        for w in ("version", "offsize", "reserved"):
            obs.append(("header/%s/bad-%s" % (en, w), open_bad(P, w, be)))
        for big in (False, True):
            t = "%s/%s" % ("BigTIFF" if big else "TIFF", en)
            obs.append(("header/" + t, open_ok(P, big, be)))
            for last in (False, True):
                k = "last" if last else "more"
                obs.append(("next-offset/%s/%s" % (t, k), finish(P, big, be, last)))
                obs.append(("read-next/%s/%s" % (t, k), next_ifd(P, big, be, last)))
            obs.append(("directory/" + t, read_dir(P, big, be)))
            obs.append(("past-the-end/" + t, at_end(P, big, be)))
    for mode in ("ok", "err"):
        for v in (False, True):
            obs.append(("chain/%s/%s" % (mode, "read" if v else "read_all_ifds"), chain(P, False, True, mode, v)))
    return obs
