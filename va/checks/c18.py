"""C18: reading the directory chain is resumable and always terminates."""
from api import *
from va_common import *
from checks.c02 import header, first, MR, RD, IFD, IFDT, from_stub
from checks.c15 import Cancelled, held

RULE = ("call sequences on one reader over chains of directories, with any one source read failing or any one call dropped at a suspension point: "
        "each call yields the directory at the next offset of the chain, fails without moving, or reports the end; cyclic chains end in Err")
TECHNIQUE = "abstract interpretation of MIR coroutines: reader state after every failed, dropped or completed call compared with the position in the chain"


class Chain:
    """a reader on a file whose directories lie at the given offsets; the last one points to `back` (0: none)"""

    def __init__(self, P, big, be, offs, back=0):
        self.r = r = header(P, big, be)
        self.big, self.be = big, be
        self.offs = offs
        r.assume(eq(first(big, be), I(offs[0])))
        for o, nx in zip(offs, offs[1:] + [back]):
            r.assume(eq(rd("u64" if big else "u16", be, FILE, I(o)), I(1)))
            e = o + (8 if big else 2)
            # one entry: SHORT, one value
            r.assume(eq(rd("u16", be, FILE, I(e + 2)), I(3)), eq(rd("u64" if big else "u32", be, FILE, I(e + 4)), I(1)))
            r.assume(eq(rd("u64" if big else "u32", be, FILE, I(e + (20 if big else 12))), I(nx)))
        IFDT[0] = r.N.adt(IFD)
        self.malformed = None
        r.e.unroll = 12
        r.e.stubs = {r.N.fn(IFD + "::from_tags")["path"]: self.build}
        r.e.fetch_mode = self.read
        r.e.suspend = self.at
        self.fail = self.drop = None
        self.nf = self.ns = 0
        self.hit = False
        self.p = r.ref(r.payload(r.call(MR + "::try_open"), 0, what=MR + "::try_open"))

    def build(self, e, st, f, targs, vals, tys, dty):
        v = from_stub(e, st, f, targs, vals, tys, dty)
        if self.malformed is not None:
            self.malformed -= 1
            if self.malformed < 0:
                self.hit = True
                return err(sym("malformed directory"))
        return v

    def read(self, c, a, b):
        self.nf += 1
        if self.fail is not None and self.nf - 1 == self.fail:
            self.hit = True
            return err(sym("source failure"))
        return ok(ssub(FILE, a, sub(b, a)))

    def at(self, c, fut):
        self.ns += 1
        if self.drop is not None and self.ns - 1 == self.drop:
            self.hit = True
            x = Cancelled()
            x.st = c.st
            raise x

    def next(self, fail=None, drop=None):
        """one read_next_ifd; None when dropped"""
        self.fail, self.drop, self.nf, self.ns, self.hit = fail, drop, 0, 0, False
        r = self.r
        try:
            v = r.call(MR + "::read_next_ifd", pos={0: self.p})
        except Cancelled as x:
            r.st.cells, r.st.pc, r.st.ev = x.st.cells, x.st.pc, list(x.st.ev)
            v = None
        self.fail = self.drop = None
        return v

    def direct(self, o):
        r = self.r
        keep, self.malformed = self.malformed, None
        rdr = r.payload(r.call(RD + "::open", pos={1: I(o), 2: B(self.big), 3: endian(r, self.be)}), 0, what=RD + "::open")
        v = r.val(r.payload(r.call(RD + "::read", pos={0: r.ref(rdr)}), 0, what=RD + "::read"))
        self.malformed = keep
        return v

    def where(self, o, what):
        """the reader reports that directory `o` (None: nothing) comes next"""
        r = self.r
        w = MR + "::read_next_ifd (%s)" % what
        return [equation(r, r.val(r.call(MR + "::next_ifd_offset", pos={0: self.p})), NONE if o is None else some(I(o)), where=w),
                equation(r, r.val(r.call(MR + "::has_next_ifd", pos={0: self.p})), B(o is not None), where=w)]

    def yields(self, v, i, what):
        r = self.r
        w = MR + "::read_next_ifd (%s)" % what
        if i >= len(self.offs):
            return [equation(r, r.val(v), ok(NONE), where=w)]
        return [equation(r, r.val(v), ok(some(self.direct(self.offs[i]))), where=w)]

    def at_or_end(self, i):
        return self.offs[i] if i < len(self.offs) else None


CHAINS = {"one": [200], "two": [200, 400], "backwards": [400, 200], "three": [200, 800, 400], "adjacent": [16, 60, 100, 144]}
CYCLES = {"self": ([200], 200), "pair": ([200, 400], 200), "tail": ([200, 400], 400), "three": ([800, 200, 400], 800), "tail-three": ([200, 400, 800, 600], 400)}


def walk(P, big, be, offs):
    def go():
        c = Chain(P, big, be, offs)
        rs = c.where(offs[0], "opened")
        for i in range(len(offs) + 2):
            v = c.next()
            rs += c.yields(v, i, "call %d" % i) + c.where(c.at_or_end(i + 1), "after call %d" % i)
        return worst(rs + [nopanic(c.r, c.r.wf)])
    return go


def disturbed(P, big, be, offs, call, k, how, times=1):
    """call number `call` is disturbed at its k-th read or suspension; then everything is retried"""
    def go():
        c = Chain(P, big, be, offs)
        rs = []
        for i in range(call):
            rs += c.yields(c.next(), i, "call %d" % i)
        for _ in range(times):
            if how == "malformed":
                c.malformed = 0
            v = c.next(**({how: k} if how != "malformed" else {}))
            c.malformed = None
            if not c.hit:
                return R("proved", "no such point", n=0, fns=fns_of(c.r))
            if v is not None:
                rs.append(must_fail(c.r, v, MR + "::read_next_ifd (%s in call %d)" % (how, call)))
            rs += c.where(offs[call], "after the disturbed call")
        for i in range(call, len(offs) + 1):
            v = c.next()
            rs += c.yields(v, i, "retry, call %d" % i) + c.where(c.at_or_end(i + 1), "retry, after call %d" % i)
        return worst(rs + [nopanic(c.r, c.r.wf)])
    return go


def cyclic(P, big, be, offs, back):
    """the directories of the cycle at most once each, then an error at every further call"""
    def go():
        c = Chain(P, big, be, offs, back)
        rs = []
        n = 0
        for i in range(2 * len(offs) + 2):
            v = c.next()
            f = c.r.st.pc.facts
            bad = f.simp(eq(c.r.e.disc(v), I(1)))
            if i < len(offs):
                rs += c.yields(v, i, "call %d" % i)
                continue
            rs.append(must_fail(c.r, v, MR + "::read_next_ifd (call %d, after the chain has returned to an earlier directory)" % i))
            n += 1
        return worst(rs + [nopanic(c.r, c.r.wf)])
    return go


def everything(P, big, be, offs, back, via, fail=None):
    def go():
        c = Chain(P, big, be, offs, back)
        r = c.r
        w = MR + "::" + via
        c.fail, c.nf = fail, 0
        v = r.call(w, pos={0: c.p})
        hit, c.fail = c.hit, None
        if fail is not None and not hit:
            return R("proved", "no such point", n=0)
        if back or fail is not None:
            return worst([must_fail(r, v, w + (" (cyclic chain)" if back else " (read %d fails)" % fail)), nopanic(r, r.wf)])
        want = seq([c.direct(o) for o in offs])
        v = r.payload(v, 0, what=w)
        if via == "read":
            v = r.call("TIFF::ifds", pos={0: r.ref(v)})
        return worst([equation(r, r.val(v), want, where=w)] + c.where(None, "after " + via) + c.yields(c.next(), len(offs), "after " + via) + [nopanic(r, r.wf)])
    return go


def obligations(P, tier):
    obs = []
    for big, be in ((False, False), (True, True)):
        t = "%s/%s" % ("BigTIFF" if big else "TIFF", "MM" if be else "II")
        for k, offs in CHAINS.items():
            obs.append(("walk/%s/%s" % (t, k), walk(P, big, be, offs)))
            for via in ("read_all_ifds", "read"):
                obs.append(("all/%s/%s/%s" % (t, k, via), everything(P, big, be, offs, 0, via)))
        for k, (offs, back) in CYCLES.items():
            obs.append(("cycle/%s/%s" % (t, k), cyclic(P, big, be, offs, back)))
            for via in ("read_all_ifds", "read"):
                obs.append(("cycle/%s/%s/%s" % (t, k, via), everything(P, big, be, offs, back, via)))
        for k in ("one", "two", "three"):
            offs = CHAINS[k]
            for call in range(len(offs)):
                for j in range(8):
                    for how in ("fail", "drop"):
                        obs.append(("%s/%s/%s/call%d/point%d" % (how, t, k, call, j), disturbed(P, big, be, offs, call, j, how)))
                obs.append(("malformed/%s/%s/call%d" % (t, k, call), disturbed(P, big, be, offs, call, 0, "malformed", times=2)))
            for j in range(0, 12, 3):
                obs.append(("all-fails/%s/%s/%d" % (t, k, j), everything(P, big, be, offs, 0, "read_all_ifds", fail=j)))
    return obs
