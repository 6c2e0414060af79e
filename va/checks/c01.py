"""C01: every tag value is decoded exactly as the TIFF / BigTIFF entry encodes it."""
from api import *
from va_common import must_fail

#  code: (TagValue variant, element machine types)
TYPES = {
    1: ("Byte", ["u8"]), 2: ("Ascii", ["u8"]), 3: ("Short", ["u16"]), 4: ("Unsigned", ["u32"]),
    5: ("Rational", ["u32", "u32"]), 6: ("SignedByte", ["i8"]), 7: ("Byte", ["u8"]), 8: ("SignedShort", ["i16"]),
    9: ("Signed", ["i32"]), 10: ("SRational", ["i32", "i32"]), 11: ("Float", ["f32"]), 12: ("Double", ["f64"]),
    13: ("Ifd", ["u32"]), 16: ("UnsignedBig", ["u64"]), 17: ("SignedBig", ["i64"]), 18: ("IfdBig", ["u64"]),
}
RD = "ImageFileDirectoryReader"


def setup(P, big, be, tagcode, code, count=None, cmin=None, fetch_mode="ok"):
    r = Run(P)
    off, idx = sym("ifd_offset", "u64"), sym("tag_index", "u64")
    en = r.adt("Endianness", "BigEndian" if be else "LittleEndian")
    base = add(off, I(8 if big else 2), mul(I(20 if big else 12), idx))
    wf = [lt(off, I(2 ** 40)), lt(idx, I(2 ** 20)), lt(idx, rd("u64" if big else "u16", be, FILE, off))]
    tag = rd("u16", be, FILE, base)
    ty = rd("u16", be, FILE, add(base, I(2)))
    cnt = rd("u64" if big else "u32", be, FILE, add(base, I(4)))
    if tagcode is not None:
        wf.append(eq(tag, I(tagcode)))
    if code is not None:
        wf.append(eq(ty, I(code)))
    else:
        wf += [tnot(eq(ty, I(c))) for c in TYPES]
    w = sum(WIDTH[x] for x in TYPES[code][1]) if code in TYPES else 1
    if count is not None:
        wf.append(eq(cnt, I(count)))
    else:
        wf += [le(I(cmin), cnt), lt(cnt, I(2 ** 32))]
    voff = add(base, I(12 if big else 8))
    ptr = rd("u64" if big else "u32", be, FILE, voff)
    if count is None or count * w > (8 if big else 4):
        wf.append(lt(ptr, I(2 ** 40)))
    r.assume(*wf)
    b = r.N.fn(RD + "::open")
    v = r.call(None, body=b, pos={1: off, 2: B(big), 3: en})
    rdr = r.payload(v, 0)
    r.e.fetch_mode = fetch_mode(voff, ptr) if callable(fetch_mode) else fetch_mode
    v = r.call(RD + "::read_tag", pos={0: r.ref(rdr), 2: idx})
    return r, v, wf, cnt, voff, ptr


def elem(r, be, code, off):
    vn, tys = TYPES[code]
    fs = []
    for t in tys:
        fs.append(rd(t, be, FILE, off))
        off = add(off, I(WIDTH[t]))
    return r.adt("TagValue", vn, *fs)


def one(P, big, be, code, cls):
    def go():
        vn, tys = TYPES[code]
        w = sum(WIDTH[t] for t in tys)
        inl = 8 if big else 4
        if cls == "many":
            r, v, wf, cnt, voff, ptr = setup(P, big, be, 256, code, cmin=max(2, inl // w + 1))
            n = cnt
        else:
            n = int(cls)
            r, v, wf, cnt, voff, ptr = setup(P, big, be, 256, code, count=n)
            n = I(n)
        extra = []
        if code == 2:
            if cls == "0":
                want = r.adt("TagValue", "List", seq([]))
            elif cls == "many":
                i = fresh("i", "usize")
                s = ssub(FILE, ptr, cnt)
                c = eq(rd("u8", False, FILE, add(ptr, i)), I(0))
                want = r.adt("TagValue", "Ascii", mk("call", "utf8lossy", (ite(mkexists(cnt, i, c), ssub(FILE, ptr, mkfirst(cnt, i, c)), s),), "seq:u8"))
            else:
                bs = [rd("u8", False, FILE, add(voff, I(j))) for j in range(n.a[0])]
                extra = [eq(bs[-1], I(0))] + [tand(lt(I(0), x), lt(x, I(128))) for x in bs[:-1]]
                want = r.adt("TagValue", "Ascii", seq(bs[:-1]))
        elif cls == "0":
            want = r.adt("TagValue", "List", seq([]))
        elif cls == "many":
            i = fresh("i", "usize")
            want = r.adt("TagValue", "List", smap(n, i, elem(r, be, code, add(ptr, mul(I(w), i)))))
        else:
            k = n.a[0]
            at = voff if k * w <= inl else ptr
            want = elem(r, be, code, at) if k == 1 else r.adt("TagValue", "List", seq([elem(r, be, code, add(at, I(w * j))) for j in range(k)]))
        got = r.val(v)
        if extra:
            f = r.st.pc.facts.copy()
            for x in extra:
                f.add(x)
            got = f.deep(got)
        want = ok(mk("tup", (r.adt("Tag", "ImageWidth"), want)))
        return worst([equation(r, got, want, extra, where=RD + "::read_tag"), nopanic(r, wf + extra)])
    return go


def short(P, big, be, code, n, missing):
    """the file ends `missing` bytes before the end of the entry's data"""
    def go():
        w = sum(WIDTH[t] for t in TYPES[code][1])
        inline = n * w <= (8 if big else 4)

        def mode(voff, ptr):
            at = voff if inline else ptr
            have = n * w - missing

            def fetch(c, a, b):
                d, m = sub(a, at), sub(b, a)
                if d.op != "int" or not 0 <= d.a[0] <= n * w:
                    return ok(ssub(FILE, a, m))
                if m.op != "int":
                    raise Undet("length of a read of the entry's data")
                return ok(ssub(FILE, a, I(max(0, min(m.a[0], have - d.a[0])))))
            return fetch
        r, v, wf, cnt, voff, ptr = setup(P, big, be, 256, code, count=n, fetch_mode=mode)
        return worst([must_fail(r, v, RD + "::read_tag (%d bytes of %d missing)" % (missing, n * w)), nopanic(r, wf)])
    return go


def unknown(P, big, be, count):
    """a field type nothing is known about"""
    def go():
        r, v, wf, cnt, voff, ptr = setup(P, big, be, 256, None, **({"cmin": 0} if count is None else {"count": count}))
        return worst([must_fail(r, v, RD + "::read_tag (unknown field type)"), nopanic(r, wf)])
    return go


def anytag(P, big, be):
    """the entry is returned under its own code"""
    def go():
        r, v, wf, cnt, voff, ptr = setup(P, big, be, None, 3, count=1)
        base = sub(voff, I(12 if big else 8))
        t = r.val(r.call("Tag::from_u16_exhaustive", pos={0: rd("u16", be, FILE, base)}))
        return worst([equation(r, r.val(v), ok(mk("tup", (t, elem(r, be, 3, voff)))), where=RD + "::read_tag"), nopanic(r, wf)])
    return go


def extras(P):
    obs = []
    for big in (False, True):
        for be in (False, True):
            nm = "%s/%s" % ("BigTIFF" if big else "TIFF", "MM" if be else "II")
            for n in (None, 0, 1, 2, 9):
                obs.append(("%s/unknown-type/count=%s" % (nm, n), unknown(P, big, be, n)))
            obs.append((nm + "/any-tag", anytag(P, big, be)))
            for code in TYPES:
                w = sum(WIDTH[t] for t in TYPES[code][1])
                inl = 8 if big else 4
                for n in sorted({1, 2, max(1, inl // w), inl // w + 1, inl // w + 3}):
                    for miss in sorted({1, min(w, n * w), n * w}):
                        obs.append(("%s/type%d/count=%d/missing=%d" % (nm, code, n, miss), short(P, big, be, code, n, miss)))
    return obs


def obligations(P, tier):
    obs = extras(P)
    for big in (False, True):
        for be in (False, True):
            for code in TYPES:
                w = sum(WIDTH[t] for t in TYPES[code][1])
                inl = 8 if big else 4
                cls = ["0", "1"] + [str(n) for n in range(2, inl // w + 1)] + ["many"]
                for c in cls:
                    obs.append(("%s/%s/type%d/count=%s" % ("BigTIFF" if big else "TIFF", "MM" if be else "II", code, c), one(P, big, be, code, c)))
    return obs
