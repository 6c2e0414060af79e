"""Entry points: run a public function of the crate on symbolic arguments; obligations on the result."""
import sys, time
sys.setrecursionlimit(200000)
import engine, seqs
from engine import *
from models import MODELS, run_future
from term import *
from seqs import *
from facts import Facts
from linear import taut
import decide as D


LAST = None
TIER = "quick"


class Viol(Exception):
    """a definite violation found while setting an obligation up"""


class Missing(Exception):
    """a public anchor of the property does not exist in this tree"""


class Names:
    """resolves public items by type and member name, independent of the module they live in"""

    def __init__(self, P):
        self.P = P
        self.bycache = {}

    def adt(self, name):
        if name in self.P.adts:
            return name
        c = [p for p, a in self.P.adts.items() if p.rsplit("::", 1)[-1] == name and a.get("local")]
        if not c:
            c = [p for p in self.P.adts if p.rsplit("::", 1)[-1] == name]
        if not c:
            raise Missing("type " + name)
        return sorted(c, key=len)[0]

    def fn(self, name):
        """'Type::method', 'Trait for Type::method' or a free function name"""
        r = self.bycache.get(name)
        if r is None:
            r = self.bycache[name] = self._fn(name)
        return r

    def _fn(self, name):
        if " for " in name:
            tr, rest = name.split(" for ")
            ty, m = rest.rsplit("::", 1)
            for im in self.P.impls:
                if not im["trait"] or im["trait"].split("<")[0].rsplit("::", 1)[-1] != tr:
                    continue
                st = self.P.types[im["self"]]
                if st[0] != "adt" or st[1].rsplit("::", 1)[-1] != ty:
                    continue
                for n, mid in im["m"]:
                    if n == m and mid in self.P.bodies:
                        return self.P.bodies[mid]
            raise Missing(name)
        parts = name.split("::")
        out = []
        for b in self.P.bodies.values():
            if b["kind"] not in ("Fn", "AssocFn"):
                continue
            q = norm(b["path"]).split("::")
            if q[-len(parts):] == parts and not b["path"].startswith("<"):
                out.append(b)
        if not out:
            raise Missing(name)
        return sorted(out, key=lambda b: len(b["path"]))[0]


class Run:
    """one analysis run of one entry point"""

    def __init__(self, prog, over=None, given=None, stubs=None, fetch_mode="ok"):
        engine.ADTS = prog.adts
        seqs.OVERRIDE.clear()
        if over:
            seqs.OVERRIDE.update(over)
        self.P = prog
        self.N = Names(prog)
        self.e = Engine(prog, MODELS, stubs=stubs, fetch_mode=fetch_mode)
        self.e.given = dict(given or {})
        self.st = self.e.state()
        self.wf = []
        global LAST
        LAST = self

    def args(self, b, pos, sub=()):
        out = []
        for i in range(1, b["argc"] + 1):
            t, n = b["locals"][i]
            if i - 1 in pos:
                out.append(pos[i - 1])
                continue
            out.append(self.e.symval(self.st, n or "arg%d" % i, self.e.ty(t, sub)))
        return out

    def call(self, name, pos=None, sub=(), args=None, body=None):
        b = body or self.N.fn(name)
        if args is None:
            args = self.args(b, pos or {}, sub)
        return self.force(self.e.callbody(self.st, b, sub, args))

    def force(self, v):
        """await a future result"""
        w = v
        n = 0
        while w.op in ("ref", "bx") and n < 4:
            w = self.e.load(self.st, w)
            n += 1
        if w.op in ("cor", "fut"):
            return run_future(self.ctx(), w)
        return v

    def callv(self, f, *args):
        return self.force(self.e.callval(self.st, f, list(args)))

    def ctx(self):
        return Ctx(self.e, self.st, {"path": ""}, (), (), ("other", None), "", "")

    def val(self, v):
        return self.st.pc.facts.deep(self.e.deepval(self.st, v))

    def ref(self, v):
        return self.e.alloc(self.st, v)

    def assume(self, *cs):
        self.wf.extend(cs)
        for c in cs:
            if not self.st.assume(c):
                raise Undet("precondition contradictory")

    def lits(self):
        return [l for l in self.st.pc.rel(None) if l is not TRUE]

    def payload(self, v, k=0, ty=None, must=True, what=""):
        """unwrap: the payload of variant k, assuming it is that variant"""
        v = self.st.pc.facts.simp(v)
        c = self.st.pc.facts.simp(eq(self.e.disc(v), I(k)))
        if must and c is not TRUE:
            if c is FALSE:
                # certain failure on every input of this class: confirm the class is inhabited
                for _ in D.sample(self.e, self.lits(), (), range(60)):
                    raise Viol(R("refuted", "the call fails on every well-formed input: %s" % D.shortt(self.val(v)), what, 1))
                raise Dead()
            st_, why, ns = D.decide(self.e, c, TRUE, self.lits())
            if st_ == "refuted":
                raise Viol(R("refuted", "the call fails on a well-formed input: %s" % D.shortt(self.val(v)), what, ns))
        if not self.st.assume(c):
            raise Dead()
        return self.st.pc.facts.simp(self.e.proj(v, ("v", k, 0, ty)))

    # constructors by name
    def adt(self, ty, vname, *fields):
        p = self.N.adt(ty)
        for i, v in enumerate(self.P.adts[p]["v"]):
            if v["name"] == vname:
                return mk("adt", p, i, tuple(fields))
        raise Missing("%s::%s" % (ty, vname))

    def vindex(self, ty, vname):
        p = self.N.adt(ty)
        for i, v in enumerate(self.P.adts[p]["v"]):
            if v["name"] == vname:
                return i
        raise Missing("%s::%s" % (ty, vname))

    def variants(self, ty):
        return [v["name"] for v in self.P.adts[self.N.adt(ty)]["v"]]

    def struct(self, ty, **fields):
        """struct value with named fields; unnamed ones symbolic"""
        p = self.N.adt(ty)
        fs = []
        names = [f[0] for f in self.P.adts[p]["v"][0]["f"]]
        for k in fields:
            if k not in names:
                raise Missing("%s.%s" % (ty, k))
        for f in self.P.adts[p]["v"][0]["f"]:
            fs.append(fields[f[0]] if f[0] in fields else self.e.symval(self.st, ty + "." + f[0], self.e.ty(f[1])))
        return mk("adt", p, 0, tuple(fs))


class R:
    """result of an obligation"""
    __slots__ = ("status", "why", "where", "samples", "fns", "loops", "n")

    def __init__(self, status, why="", where="", samples=0, fns=(), loops=0, n=1):
        self.status, self.why, self.where, self.samples, self.fns, self.loops, self.n = status, why, where, samples, tuple(fns), loops, n


def worst(rs):
    for s in ("refuted", "undetermined", "proved"):
        for r in rs:
            if r.status == s:
                return r
    return R("undetermined", "nothing to decide")


def fns_of(run):
    return tuple(sorted({run.P.bodies[i]["path"] for i in run.e.bodies_seen}))


def equation(run, got, want, extra=(), where="", nseeds=160, wf=(), hook=None):
    """got == want on every state reaching the end of the run (and satisfying extra)"""
    lits = run.lits() + list(extra)
    st, why, ns = D.decide(run.e, got, want, lits, nseeds=nseeds, hook=hook)
    return R(st, why, where, ns, fns_of(run), len(run.e.loops_seen))


def nopanic(run, wf=(), where="", nseeds=120, kinds=None):
    """no run-time check can fail under wf"""
    rs = []
    for (fn, span), kind, cond, chain in run.e.panics:
        if kinds and not kinds(kind):
            continue
        f = Facts()
        for l in wf:
            f.add(l)
        c = f.deep(cond)
        g = f.copy()
        g.add(c)
        if c is FALSE or g.dead or taut(f, tnot(c), [60]):
            rs.append(R("proved"))
            continue
        hit = None
        ns = 0
        for ev in D.sample(run.e, list(wf) + [c], (c,), range(nseeds)):
            ns += 1
            hit = ev
            break
        w = "%s (%s)" % (fn, kind)
        if hit is not None:
            rs.append(R("refuted", "a well-formed input reaches a failing run-time check '%s' in %s" % (kind, fn), w, ns))
        else:
            rs.append(R("undetermined", "cannot exclude '%s' in %s" % (kind, fn), w))
    if not rs:
        return R("proved", n=0, fns=fns_of(run))
    r = worst(rs)
    r.n = len(rs)
    r.fns = fns_of(run)
    return r


def guarded(f):
    """run an obligation, mapping analysis limits to 'undetermined'"""
    try:
        return f()
    except Viol as x:
        return x.args[0]
    except Missing as x:
        return R("undetermined", "anchor missing: %s" % x)
    except Undet as x:
        return R("undetermined", "analysis limit: %s" % x)
    except Dead:
        r = nopanic(LAST, LAST.wf)
        if r.status == "refuted":
            return r
        return R("undetermined", "no execution reaches the end")
    except RecursionError:
        return R("undetermined", "term too deep")
