"""C15: the read-ahead cache is transparent."""
from api import *
from va_common import *
from models import FILE
from linear import implied, infeasible
from evalt import consts

RULE = ("a new cache, a given sequence of fetches and one more fetch of any range, partitioned by the order of the range against the blocks read so far: each result is the source's bytes of the range, cut off at the end of the source")
TECHNIQUE = "abstract interpretation of MIR with trace partitioning and linear arithmetic: the term of every fetch result compared with the source bytes of its range"
CACHE = "ReadaheadMetadataCache"
FETCH = "MetadataFetch for ReadaheadMetadataCache::fetch"


def least(c, x, n):
    if c.e.implied(c.st, le(x, n)):
        return x
    if c.e.implied(c.st, le(n, x)):
        return n
    return tmin(x, n)


def source(n, log=None, fails=()):
    """a source of n bytes: its answer to a read is its bytes, cut off where it ends; the reads numbered in fails fail"""
    def go(c, a, b):
        if log is not None:
            log.append((a, b))
            if len(log) - 1 in fails:
                return err(sym("source failure"))
        lo, hi = least(c, a, n), least(c, b, n)
        return ok(ssub(FILE, lo, sub(hi, lo)))
    return go


def want(a, b, n):
    lo, hi = tmin(a, n), tmin(b, n)
    return ssub(FILE, lo, sub(hi, lo))


def cache(r, initial=None, multiplier=None):
    v = r.call(CACHE + "::new", pos={0: sym("source")})
    if initial is not None:
        v = r.call(CACHE + "::with_initial_size", pos={0: v, 1: initial})
    if multiplier is not None:
        v = r.call(CACHE + "::with_multiplier", pos={0: v, 1: multiplier})
    return r.ref(v)


BIG = 1 << 40


def asked(r, mark):
    """(condition, start, end) of the source reads since event number mark"""
    out = []
    for ev in r.st.ev[mark:]:
        if ev[0] == "fetch":
            out.append((conj(TRUE, *[l for l in ev[4].rel(r.st.pc) if l is not TRUE]), ev[2], ev[3]))
    return out


def predicates(g):
    """literals of a boolean term, outermost first"""
    while g.op in ("ite", "not"):
        if g.op == "ite":
            yield from predicates(g.a[0])
            yield from predicates(g.a[1])
            g = g.a[2]
        else:
            g = g.a[0]
    if g.op != "bool":
        yield g


def inner(t):
    """comparisons that resolve the minima and maxima of a term"""
    for x in sorted(subterms(t), key=lambda x: x.op):
        if x.op in ("min", "max"):
            yield le(x.a[0], x.a[1])


def partition(P, run, lits=(), depth=0, maxdepth=40):
    """trace partitioning: run under lits; split on the first predicate the facts leave open"""
    try:
        r, preds, finish = run(lits)
    except Infeasible:
        return []
    f = r.st.pc.facts
    for c in preds:
        c = f.deep(c)
        if c.op == "bool" or implied(f, c) or implied(f, tnot(c)):
            continue
        if depth >= maxdepth:
            return [R("undetermined", "too many cases")]
        return partition(P, run, lits + (c,), depth + 1, maxdepth) + partition(P, run, lits + (tnot(c),), depth + 1, maxdepth)
    return [guarded(finish)]


def points(r, n, a, b):
    """integer points of the case, for refutation"""
    lits = [l for l in r.wf if not free_in(l, lambda x: x is FILE)]
    near = sorted({v for c in consts(*lits) if c < 4096 for v in (abs(c) - 1, abs(c), abs(c) + 1)} | {0, 1, n, n + 1, n - 1})
    near = [v for v in near if v >= 0]
    sols = [(x, y) for x in near for y in near if x <= y and all(subst(l, {a: I(x), b: I(y)}) is TRUE for l in lits)]

    def hook(ev):
        if sols:
            x, y = sols[ev.seed * 7 % len(sols)]
            ev.pin(a, x)
            ev.pin(b, y)
    return hook


class Infeasible(Exception):
    pass


class Cancelled(Exception):
    pass


def held(st):
    """locks held in this state"""
    out = []
    for ev in st.ev:
        if ev[0] == "lock":
            out.append(ev[1])
        elif ev[0] == "unlock" and ev[1] in out:
            out.remove(ev[1])
    return out


class Sim:
    """fetches on one cache, with failures, dropped fetches and fetches of other tasks at chosen suspension points"""

    def __init__(self, r, p, plan):
        self.r, self.p, self.plan = r, p, plan
        self.k = -1        # number of the current fetch
        self.s = 0         # suspension points met in it
        self.got = []      # (result, a, b, must fail)
        self.later = []
        self.depth = 0
        r.e.suspend = self.at
        r.e.fetch_mode = self.read

    def read(self, c, a, b):
        if self.failing:
            self.failing = False
            return err(sym("source failure"))
        return source(self.N)(c, a, b)

    def at(self, c, fut):
        if self.depth:
            return
        act = self.plan.get((self.k, self.s))
        self.s += 1
        if act is None:
            return
        if act == "fail":
            if fut.a[0] == "fetch":
                self.failing = True
                self.failed = True
            return
        if act == "drop":
            x = Cancelled()
            x.st = c.st
            raise x
        # another task's fetch: it can proceed only while no lock is held here
        if held(c.st):
            self.later.append(act)
        else:
            self.other(c.st, act)

    def other(self, st, ab):
        r = self.r
        keep, r.st = r.st, st
        self.depth += 1
        a, b = I(ab[0]), I(ab[1])
        try:
            v = r.call(FETCH, pos={0: self.p, 1: mkrange(a, b)})
        finally:
            self.depth -= 1
            r.st = keep
        self.got.append((v, a, b, False))

    def fetch(self, a, b):
        r = self.r
        self.k += 1
        self.s = 0
        self.failing = self.failed = False
        try:
            v = r.call(FETCH, pos={0: self.p, 1: mkrange(a, b)})
            self.got.append((v, a, b, self.failed))
        except Cancelled as x:
            r.st.cells, r.st.pc, r.st.ev = x.st.cells, x.st.pc, list(x.st.ev)
            for m in held(r.st):
                r.st.ev.append(("unlock", m, r.st.pc))
        for ab in self.later:
            self.other(r.st, ab)
        self.later = []


def history(P, pre, n=None, initial=None, mult=None, plan=None):
    """given fetches, then one of any range, on a new cache over a source of n bytes (any number when None)"""
    def run(lits):
        N = sym("length", "u64") if n is None else I(n)
        r = Run(P)
        r.e.sharp = True
        ini = sym("initial", "u64") if initial is None else I(initial)
        a, b = sym("a", "u64"), sym("b", "u64")
        r.assume(le(N, I(BIG)), le(ini, I(BIG)), le(a, b), le(b, I(BIG)))
        for l in lits:
            if not r.st.assume(l) or infeasible(r.st.pc.facts):
                raise Infeasible()
            r.wf.append(l)
        sim = Sim(r, cache(r, ini, None if mult is None else F(mult)), plan or {})
        sim.N = N
        preds = []
        bounds = [N]
        stop = None
        for a, b in [(I(x), I(y)) for x, y in pre] + [(a, b)]:
            mark = len(r.st.ev)
            for e in bounds:
                preds += [lt(a, e), lt(e, b)]
            try:
                sim.fetch(a, b)
            except (Undet, Dead) as x:
                stop = x
                preds += [lt(a, ini), lt(ini, b), lt(a, b)]
                break
            for g, lo, hi in asked(r, mark):
                preds += list(predicates(g)) + list(inner(lo)) + list(inner(hi))
                preds.append(lt(hi, N))
                if hi not in bounds:
                    bounds.append(hi)
            for e in bounds:
                preds += [lt(a, e), lt(e, b)]

        def finish():
            rs = []
            if stop:
                raise stop
            hook = None if n is None or initial is None else points(r, n, a, b)
            for v, x, y, fail in sim.got:
                if fail:
                    rs.append(must_fail(r, v, FETCH + " (the source fails)"))
                    continue
                v = r.val(r.payload(v, 0, what=FETCH))
                rs.append(equation(r, v, want(x, y, N), where=FETCH, nseeds=60, hook=hook))
            return worst(rs + [nopanic(r, r.wf)])
        return r, preds, finish

    def go():
        rs = partition(P, run)
        x = worst(rs)
        x.n = len(rs)
        return x
    return go


HISTORIES = {
    "one": [(0, 8)],
    "inside": [(0, 8), (2, 5)],
    "growing": [(0, 8), (8, 18)],
    "skipping": [(12, 14), (40, 41)],
    "backwards": [(30, 34), (0, 4), (20, 36)],
    "empty-range": [(3, 3), (0, 0)],
    "past-end": [(60, 70), (10, 90)],
    "stepwise": [(0, 2), (2, 7), (9, 16)],
}


def failing(P, pre):
    """the read of the last fetch fails"""
    def go():
        r = Run(P)
        sim = Sim(r, cache(r, I(4)), {(len(pre), s): "fail" for s in range(6)})
        sim.N = I(64)
        for x, y in pre:
            sim.fetch(I(x), I(y))
        sim.fetch(I(500), I(600))
        v, a, b, fail = sim.got[-1]
        if not fail:
            return R("undetermined", "the source is not asked")
        return worst([must_fail(r, v, FETCH + " (the source fails)"), nopanic(r, r.wf)])
    return go


def obligations(P, tier):
    obs = [("any/first", history(P, []))]
    for k, pre in HISTORIES.items():
        obs.append(("failing/" + k, failing(P, pre)))
        for n in (1, 30, 64):
            for ini, mult in ((0, None), (4, None), (16, 1.0), (4, 0.0), (7, 0.5)):
                if k != "stepwise" or (ini, mult) == (16, 1.0):
                    obs.append(("%s/%d/%d/%s" % (k, n, ini, mult), history(P, pre, n, ini, mult)))
    return obs
