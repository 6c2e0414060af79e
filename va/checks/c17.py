"""C17: readers return exactly the requested byte range."""
from api import *
from va_common import *
from models import FILE, FLEN
from checks.c15 import held
from checks.c10 import rlist

RULE = ("the requests a reader makes of its source and the term of its result, for a request of any range, compared with the range; at each suspension point other tasks may move the file position unless a lock is held; "
        "every failing answer of the source must end in Err")
TECHNIQUE = "abstract interpretation of MIR coroutines with a lock-sensitive interference model: request and result terms compared with the requested range"


def bytes_of(P, ty):
    return "AsyncFileReader for %s::get_bytes" % ty


def interfere(r):
    """other tasks use the same file whenever no lock is held"""
    def at(c, fut):
        if not held(c.st):
            for k, v in list(c.st.cells.items()):
                if v.op == "adt" and v.a[0] == "$afile":
                    c.st.cells[k] = mk("adt", "$afile", 0, (fresh("elsewhere", "u64"),))
    r.e.suspend = at


def tokio(P):
    def go(pre=lambda a, b: ()):
        r = Run(P)
        r.e.sharp = True
        interfere(r)
        f = mk("adt", "$afile", 0, (sym("position", "u64"),))
        p = r.ref(r.call("TokioReader::new", pos={0: f}))
        a, b = sym("a", "u64"), sym("b", "u64")
        r.assume(le(a, b), *pre(a, b))
        w = bytes_of(P, "TokioReader")
        got = r.call(w, pos={0: p, 1: mkrange(a, b)})
        return r, got, a, b, w
    def exact():
        r, got, a, b, w = go()
        r.assume(eq(r.e.disc(got), I(0)))
        v = r.val(r.payload(got, 0))
        return worst([equation(r, v, ssub(FILE, a, sub(b, a)), where=w), nopanic(r, r.wf)])

    def short():
        out = []
        for lit in (le(sym("a", "u64"), FLEN), lt(FLEN, sym("a", "u64"))):
            r, got, a, b, w = go(lambda a, b: (lt(a, b), lt(FLEN, b), lit))
            out.append(must_fail(r, got, w + " (past the end of the file)"))
        return worst(out)

    def there():
        r, got, a, b, w = go(lambda a, b: (le(b, FLEN),))
        g = TRUE
        for x in subterms(r.val(r.e.disc(got))):
            if x.op == "call" and x.a[0] in ("seek.ok", "read.ok"):
                g = tand(g, x)
        r.assume(g)
        return equation(r, r.val(r.e.disc(got)), I(0), where=w + " (within the file)")

    def fails(what):
        def go2():
            r, got, a, b, w = go()
            bad = r.val(eq(r.e.disc(got), I(1)))
            rs = []
            for ev in r.st.ev:
                if ev[0] == "io" and ev[1] == what:
                    reach = [l for l in ev[3].rel(r.st.pc) if l is not TRUE]
                    rs.append(equation(r, bad, TRUE, extra=reach + [tnot(ev[2])], where=w + " (%s fails)" % what.split(".")[0]))
            return worst(rs) if rs else R("proved", "no such call", w)
        return go2
    return {"exact": exact, "past-end": short, "within": there, "seek-fails": fails("seek.ok"), "read-fails": fails("read.ok")}


def store(P, ty="ObjectReader"):
    r = Run(P)
    s, q = sym("store"), sym("path")
    return r, s, q, r.ref(r.call(ty + "::new", pos={0: s, 1: q}))


def osok(s, q, a, b):
    return mk("call", "os.ok", (s, q, a, b), "bool")


def osrange(s, q, a, b):
    return mk("call", "os.range", (s, q, a, b), "seq:u8")


def object_one(P):
    r, s, q, p = store(P)
    a, b = sym("a", "u64"), sym("b", "u64")
    w = bytes_of(P, "ObjectReader")
    got = r.call(w, pos={0: p, 1: mkrange(a, b)})
    out = [equation(r, r.val(eq(r.e.disc(got), I(0))), osok(s, q, a, b), where=w)]
    r.assume(osok(s, q, a, b))
    out.append(equation(r, r.val(r.payload(got, 0)), osrange(s, q, a, b), where=w))
    return worst(out + [nopanic(r, r.wf)])


def object_many(P, n):
    def go():
        r, s, q, p = store(P)
        w = "AsyncFileReader for ObjectReader::get_byte_ranges"
        try:
            r.N.fn(w)
        except Missing:
            return R("proved", "uses the default", w)
        rs = rlist(r, n)
        got = r.call(w, pos={0: p, 1: rs})
        if n is None:
            i = fresh("j", "usize")
            x = sidx(rs, i)
            a, b = r.e.proj(x, ("f", 0, "u64")), r.e.proj(x, ("f", 1, "u64"))
            good = tnot(mkexists(slen(rs), i, tnot(osok(s, q, a, b))))
            want = smap(slen(rs), i, osrange(s, q, a, b))
        else:
            good = conj(TRUE, *[osok(s, q, *x.a[2]) for x in rs.a[0]])
            want = seq([osrange(s, q, *x.a[2]) for x in rs.a[0]])
        out = [equation(r, r.val(eq(r.e.disc(got), I(0))), good, where=w)]
        r.assume(good)
        out.append(equation(r, r.val(r.payload(got, 0)), want, where=w))
        return worst(out + [nopanic(r, r.wf)])
    return go


def text(*parts):
    return cat(*[seq([I(x) for x in p.encode()]) if isinstance(p, str) else mk("call", "show", (p,), "seq:u8") for p in parts])


def http(P, what):
    def go():
        r = Run(P)
        r.e.sharp = True
        a, b = sym("a", "u64"), sym("b", "u64")
        r.assume(lt(a, b))
        p = r.ref(r.call("ReqwestReader::new", pos={0: sym("client"), 1: sym("url")}))
        w = bytes_of(P, "ReqwestReader")
        got = r.call(w, pos={0: p, 1: mkrange(a, b)})
        req = [ev for ev in r.st.ev if ev[0] == "http"]
        if not req:
            return R("refuted", "no request is sent", w)
        h = r.val(req[-1][1])
        resp = mk("adt", "$resp", 0, (h,))
        sent, good = mk("call", "http.ok", (h,), "bool"), mk("call", "http.body_ok", (resp,), "bool")
        st = mk("call", "http.status", (resp,), "u16")
        if what == "request":
            want = mk("adt", "$req", 0, (mk("call", "header", (mk("adt", "$req", 0, (mk("call", "GET", (sym("url"),), None),)), text("range"), text("bytes=", a, "-", sub(b, I(1)))), None),))
            return worst([equation(r, h, want, where=w + " (request)"), nopanic(r, r.wf)])
        d = r.val(eq(r.e.disc(got), I(0)))
        if what == "status":
            # a success is built only from a complete partial-content answer
            return equation(r, tand(d, tnot(conj(sent, eq(st, I(206)), good))), FALSE, where=w + " (status)")
        if isinstance(what, int):
            r.assume(sent, good, eq(st, I(what)))
            return must_fail(r, got, w + " (status %d)" % what)
        if what in ("unsent", "cut off"):
            r.assume(tnot(sent) if what == "unsent" else tnot(good))
            return must_fail(r, got, w + " (answer %s)" % what)
        r.assume(sent, eq(st, I(206)), good)
        if what == "answer":
            return equation(r, d, TRUE, where=w + " (answer)")
        return equation(r, r.val(r.payload(got, 0)), mk("call", "http.body", (resp,), "seq:u8"), where=w + " (body)")
    return go


def obligations(P, tier):
    obs = [("tokio/" + k, f) for k, f in tokio(P).items()]
    obs.append(("object/one", lambda: object_one(P)))
    for n in (0, 1, 2, 3, None):
        obs.append(("object/ranges/%s" % ("any" if n is None else n), object_many(P, n)))
    for k in ("request", "status", "answer", "body", "unsent", "cut off", 200, 201, 203, 204, 301, 304, 400, 403, 404, 416, 500, 503):
        obs.append(("http/%s" % k, http(P, k)))
    return obs
