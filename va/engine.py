"""Abstract interpreter over the MIR dump: builds a gated value graph per public entry point.

Joins merge states into gated (ite) values, loops are summarised by solving the recurrences of the
values they modify; nothing is executed and no path is enumerated beyond the control-flow graph.
"""
import re
from term import *
from term import _p, _up, _push
from seqs import *
import seqs
from facts import Facts
from linear import implied, infeasible, taut
from mirlib import Program

UNDEF = mk("undef")


class Dead(Exception):
    """the current state cannot continue (definite panic / unreachable)"""


class Undet(Exception):
    """the analysis gives up on this obligation"""


# ------------------------------------------------------------------ path conditions
class PC:
    __slots__ = ("parent", "lit", "_f", "depth")

    def __init__(self, parent, lit):
        self.parent = parent
        self.lit = lit
        self.depth = 0 if parent is None else parent.depth + 1
        self._f = None

    @property
    def facts(self):
        if self._f is None:
            if self.parent is None:
                self._f = Facts()
            else:
                self._f = self.parent.facts.copy()
            self._f.add(self.lit)
        return self._f

    def rel(self, anc):
        out = []
        n = self
        while n is not anc and n is not None:
            out.append(n.lit)
            n = n.parent
        return out[::-1]

    def cond(self, anc=None):
        r = TRUE
        for l in reversed(self.rel(anc)):
            r = tand(l, r)
        return r


def common(a, b):
    while a.depth > b.depth:
        a = a.parent
    while b.depth > a.depth:
        b = b.parent
    while a is not b:
        a, b = a.parent, b.parent
    return a


class St:
    __slots__ = ("cells", "pc", "ev")

    def __init__(self, cells, pc, ev):
        self.cells, self.pc, self.ev = cells, pc, ev

    def copy(self):
        return St(dict(self.cells), self.pc, list(self.ev))

    def assume(self, c):
        """returns False if dead"""
        c = self.pc.facts.simp(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        self.pc = PC(self.pc, c)
        return not self.pc.facts.dead


class Frame:
    __slots__ = ("b", "sub", "cells", "eng")

    def __init__(self, eng, b, sub):
        self.eng, self.b, self.sub, self.cells = eng, b, sub, {}

    def cell(self, l):
        c = self.cells.get(l)
        if c is None:
            c = self.cells[l] = self.eng.newcell()
            self.eng.cellty[c] = (self.b["locals"][l][0], self.sub)
        return c


OPTION, RESULT, POLL, CF = "std::option::Option", "std::result::Result", "std::task::Poll", "std::ops::ControlFlow"


def some(v):
    return mk("adt", OPTION, 1, (v,))


NONE = mk("adt", OPTION, 0, ())


def ok(v):
    return mk("adt", RESULT, 0, (v,))


def err(v):
    return mk("adt", RESULT, 1, (v,))


def liftite(t):
    """push gates inside equal constructors"""
    if t.op == "ite":
        c, a, b = t.a[0], liftite(t.a[1]), liftite(t.a[2])
        if a.op == b.op == "adt" and a.a[:2] == b.a[:2] and len(a.a[2]) == len(b.a[2]):
            return mk("adt", a.a[0], a.a[1], tuple(liftite(ite(c, x, y)) for x, y in zip(a.a[2], b.a[2])))
        if a.op == b.op == "tup" and len(a.a[0]) == len(b.a[0]):
            return mk("tup", tuple(liftite(ite(c, x, y)) for x, y in zip(a.a[0], b.a[0])))
    return t


def merge_val(c, a, b):
    if a is b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    return ite(c, a, b)


PTRS = {"std::boxed::Box", "std::sync::Arc", "std::rc::Rc", "std::pin::Pin"}
SEQS = {"std::vec::Vec", "bytes::Bytes", "bytes::BytesMut", "std::string::String"}


class CFG:
    def __init__(self, b):
        self.b = b
        n = len(b["blocks"])
        succ = [[] for _ in range(n)]
        for i, bb in enumerate(b["blocks"]):
            if bb["c"]:
                continue
            t = bb["t"]
            k = t[0]
            s = []
            if k == "goto":
                s = [t[1]]
            elif k == "switch":
                s = [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
            elif k == "drop":
                s = [t[2]]
            elif k == "call":
                s = [t[4]] if t[4] is not None else []
            elif k == "assert":
                s = [t[5]]
            elif k == "yield":
                s = [t[2]]
            succ[i] = [x for x in s if not b["blocks"][x]["c"]]
        self.succ = succ
        order, seen = [], set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            u, it = stack[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    stack.append((v, iter(succ[v])))
                    break
            else:
                order.append(u)
                stack.pop()
        order.reverse()
        self.rpo = {u: i for i, u in enumerate(order)}
        pred = [[] for _ in range(n)]
        for u in order:
            for v in succ[u]:
                pred[v].append(u)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for u in order[1:]:
                new = None
                for p in pred[u]:
                    if p in idom:
                        new = p if new is None else self._int(idom, p, new)
                if idom.get(u) != new:
                    idom[u] = new
                    ch = True
        self.idom = idom
        self.loops = {}
        for u in order:
            for v in succ[u]:
                if self.dom(v, u):
                    body = self.loops.setdefault(v, {v})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(pred[x])

    def _int(self, idom, a, b):
        while a != b:
            while self.rpo[a] > self.rpo[b]:
                a = idom[a]
            while self.rpo[b] > self.rpo[a]:
                b = idom[b]
        return a

    def dom(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]


def intmax(t):
    """largest value of a selection among integer literals"""
    if t.op == "int":
        return t.a[0]
    if t.op == "ite":
        a, b = intmax(t.a[1]), intmax(t.a[2])
        return None if a is None or b is None else max(a, b)
    return None


STATUS = {"OK": 200, "CREATED": 201, "ACCEPTED": 202, "NO_CONTENT": 204, "PARTIAL_CONTENT": 206, "NOT_MODIFIED": 304, "BAD_REQUEST": 400,
          "NOT_FOUND": 404, "RANGE_NOT_SATISFIABLE": 416, "INTERNAL_SERVER_ERROR": 500}


def deepunk(c):
    return c["k"] == "unk" or (c["k"] == "agg" and isinstance(c["v"], list) and any(isinstance(x, dict) and deepunk(x) for x in c["v"]))


class Engine:
    def __init__(self, prog, models, stubs=None, fetch_mode="ok"):
        self.P = prog
        self.models = models
        self.stubs = stubs or {}
        self.given = {}
        self.fetch_mode = fetch_mode
        self.nlin = 0
        self.suspend = None  # called at every suspension point
        self.unroll = 0  # follow loops for so many iterations before summarising them
        self.sharp = False  # decide branches by linear arithmetic too
        self.ntaut = 0
        self.maporder = "fwd"  # order in which a literal hash map is iterated
        self._cell = 0
        self.cellty = {}
        self.cfgs = {}
        self.panics = []  # (site, kind, cond, chain)
        self.opaque = []  # unmodelled constructs
        self.bodies_seen = set()
        self.calls = 0
        self.depth = 0
        self.stack = []
        self.loops_seen = []
        self.notes = []
        self.steps = 0
        for p, a in prog.adts.items():
            if a["kind"] == "enum" and a["v"]:
                DISC[p] = sorted(int(v["d"]) if v["d"] is not None else i for i, v in enumerate(a["v"]))
            for i, v in enumerate(a["v"]):
                from term import _vn
                _vn[(p, i)] = v["name"]

    # ---------------- cells
    def newcell(self):
        self._cell += 1
        return self._cell

    def alloc(self, st, v):
        c = self.newcell()
        st.cells[c] = v
        return mk("ref", c, ())

    def state(self):
        return St({}, PC(None, TRUE), [])

    # ---------------- types
    def ty(self, i, sub=()):
        """resolved type tuple"""
        if i is None:
            return ("other", None)
        if isinstance(i, tuple):
            return i
        t = self.P.types[i]
        k = t[0]
        if k in ("int", "float"):
            return (k, t[1])
        if k in ("bool", "char", "str", "never"):
            return (k,)
        if k in ("ref", "ptr"):
            return (k, self.ty(t[1], sub), t[2])
        if k == "slice":
            return (k, self.ty(t[1], sub))
        if k == "array":
            return (k, self.ty(t[1], sub), t[2])
        if k == "tuple":
            return (k, tuple(self.ty(x, sub) for x in t[1]))
        if k == "adt":
            return (k, t[1], tuple(self.ty(x, sub) for x in t[2]))
        if k == "param":
            for idx, v in sub:
                if idx == t[1]:
                    return v
            return ("param", t[1], t[2])
        if k in ("closure", "coroutine"):
            return (k, t[1], sub)
        if k == "dyn":
            return (k, tuple(t[1]) if isinstance(t[1], list) else t[1])
        if k == "fndef":
            return (k, t[1]["id"], tuple(self.ty(x, sub) for x in t[1]["args"]), _FN(t[1]))
        return tuple(x if not isinstance(x, list) else repr(x) for x in t)

    def tyname(self, t):
        k = t[0]
        if k in ("int", "float"):
            return t[1]
        if k in ("bool", "char"):
            return k
        if k == "slice":
            return "seq:" + (self.tyname(t[1]) or "?")
        if k == "str":
            return "seq:u8"
        if k == "array":
            return "seq:" + (self.tyname(t[1]) or "?")
        if k == "adt":
            p = t[1]
            if p == "std::vec::Vec":
                return "seq:" + (self.tyname(t[2][0]) or "?")
            if p in SEQS:
                return "seq:u8"
            if p in PTRS:
                return self.tyname(t[2][0])
            if p == "std::collections::HashMap":
                return "map:%s,%s" % (self.tyname(t[2][0]), self.tyname(t[2][1]))
            return "adt:" + p
        if k in ("ref", "ptr"):
            return self.tyname(t[1])
        return None

    def local_ty(self, fr, l):
        return self.ty(fr.b["locals"][l][0], fr.sub)

    def place_ty(self, fr, pl):
        t = self.local_ty(fr, pl[0])
        var = None
        for e in pl[1]:
            if e[0] == "*":
                if t[0] in ("ref", "ptr"):
                    t = t[1]
                elif t[0] == "adt" and t[2]:
                    t = t[2][0]
            elif e[0] == "f":
                t = self.ty(e[2], fr.sub)
            elif e[0] in ("i", "ci"):
                if t[0] in ("slice", "array"):
                    t = t[1]
        return t

    def op_ty(self, fr, op):
        if op[0] == "c":
            return self.ty(op[1]["t"], fr.sub)
        return self.place_ty(fr, op[1])

    # ---------------- symbolic inputs
    def symval(self, st, name, t):
        k = t[0]
        g = self.given.get(name)
        if g is not None:
            return g(st) if callable(g) else g
        if k in ("int", "float"):
            v = sym(name, t[1])
            return seqs.OVERRIDE.get(v, v)
        if k in ("bool", "char"):
            v = sym(name, k)
            return seqs.OVERRIDE.get(v, v)
        if k in ("ref", "ptr"):
            r = self.alloc(st, self.symval(st, name, t[1]))
            self.cellty[r.a[0]] = (t[1], ())
            return r
        if k == "tuple":
            return mk("tup", tuple(self.symval(st, "%s.%d" % (name, i), x) for i, x in enumerate(t[1])))
        if k == "array" and isinstance(t[2], int) and t[2] <= 32:
            return seq([self.symval(st, "%s[%d]" % (name, i), t[1]) for i in range(t[2])])
        if k == "adt":
            p = t[1]
            if p in PTRS:
                r = self.alloc(st, self.symval(st, name, t[2][0]))
                self.cellty[r.a[0]] = (t[2][0], ())
                return r
            if p in ("std::ops::Range",):
                return mk("adt", p, 0, (self.symval(st, name + ".start", t[2][0]), self.symval(st, name + ".end", t[2][0])))
            if p == "tokio::sync::Mutex":
                r = self.alloc(st, self.symval(st, name, t[2][0]))
                return mk("adt", p, 0, (r,))
            a = self.P.adts.get(p)
            if a and a["kind"] == "struct" and a.get("local"):
                sub = tuple(enumerate(t[2]))
                return mk("adt", p, 0, tuple(self.symval(st, name + "." + f[0], self.ty(f[1], sub)) for f in a["v"][0]["f"]))
            v = sym(name, self.tyname(t))
            return seqs.OVERRIDE.get(v, v)
        v = sym(name, self.tyname(t))
        return seqs.OVERRIDE.get(v, v)

    # ---------------- pointers
    def proj(self, v, e):
        o = v.op
        if o == "ite":
            c, a, b = v.a
            if e[0] == "v":
                da, db = self.hasvar(a, e[1]), self.hasvar(b, e[1])
                if da is False and db is not False:
                    return self.proj(b, e)
                if db is False and da is not False:
                    return self.proj(a, e)
            return ite(c, self.proj(a, e), self.proj(b, e))
        if e[0] == "f":
            i = e[1]
            if o == "adt":
                return v.a[2][i] if i < len(v.a[2]) else mk("opq", "badfield", v, i, None)
            if o == "tup":
                return v.a[0][i]
            if o in ("clo", "cor"):
                return v.a[1][i]
            if o == "updf":
                return v.a[2] if v.a[1] == i else self.proj(v.a[0], e)
            if v is UNDEF:
                return UNDEF
            if o in ("ref", "bx"):
                return v  # newtype field of a pointer wrapper (Box.0, Pin.pointer)
            t = mk("fld", v, i, e[2] if len(e) > 2 else None)
            return seqs.OVERRIDE.get(t, t)
        if e[0] == "v":
            if o == "adt":
                if v.a[1] == e[1] and e[2] < len(v.a[2]):
                    return v.a[2][e[2]]
                return mk("opq", "badvariant", None)
            if v is UNDEF:
                return UNDEF
            t = mk("vf", v, e[1], e[2], e[3] if len(e) > 3 else None)
            return seqs.OVERRIDE.get(t, t)
        if e[0] == "i":
            return sidx(v, e[1])
        if e[0] == "s":
            return ssub(v, e[1], e[2])
        raise Undet("proj %s" % (e,))

    def hasvar(self, v, k):
        if v.op == "adt":
            return v.a[1] == k
        if v.op == "ite":
            a, b = self.hasvar(v.a[1], k), self.hasvar(v.a[2], k)
            if a is False and b is False:
                return False
            if a is True and b is True:
                return True
            return None
        if v is UNDEF:
            return False
        if v.op == "opq" and v.a[0] == "badvariant":
            return False
        return None

    def pproj(self, p, e):
        if p.op == "ref":
            path = p.a[1]
            if path and path[-1][0] == "s" and e[0] == "s":
                return mk("ref", p.a[0], path[:-1] + (("s", add(path[-1][1], e[1]), e[2]),))
            if path and path[-1][0] == "s" and e[0] == "i":
                return mk("ref", p.a[0], path[:-1] + (("i", add(path[-1][1], e[1])),))
            return mk("ref", p.a[0], path + (e,))
        if p.op == "ite":
            return ite(p.a[0], self.pproj(p.a[1], e), self.pproj(p.a[2], e))
        if p.op == "bx":
            return mk("bx", self.proj(p.a[0], e))
        return mk("pproj", p, e)

    def load(self, st, p):
        o = p.op
        if o == "ref":
            v = st.cells.get(p.a[0], UNDEF)
            for e in p.a[1]:
                v = self.proj(v, e)
            return v
        if o == "ite":
            return ite(p.a[0], self.load(st, p.a[1]), self.load(st, p.a[2]))
        if o == "bx":
            return p.a[0]
        if o == "pproj":
            return self.proj(self.load(st, p.a[0]), p.a[1])
        if p is UNDEF:
            return UNDEF
        t = mk("deref", p, tyof(p))
        if o in ("vf", "fld", "sym", "idx", "mget"):
            # opaque pointer: its pointee is represented by the leaf itself
            return p
        return seqs.OVERRIDE.get(t, t)

    def upd(self, v, path, new):
        if not path:
            return new
        e = path[0]
        if v.op == "ite":
            return ite(v.a[0], self.upd(v.a[1], path, new), self.upd(v.a[2], path, new))
        if e[0] == "f":
            i = e[1]
            if v.op == "adt":
                f = list(v.a[2])
                if i >= len(f):
                    raise Undet("upd field")
                f[i] = self.upd(f[i], path[1:], new)
                return mk("adt", v.a[0], v.a[1], tuple(f))
            if v.op == "tup":
                f = list(v.a[0])
                f[i] = self.upd(f[i], path[1:], new)
                return mk("tup", tuple(f))
            if v.op in ("clo", "cor"):
                f = list(v.a[1])
                f[i] = self.upd(f[i], path[1:], new)
                return mk(v.op, v.a[0], tuple(f), *v.a[2:])
            return mk("updf", v, i, self.upd(self.proj(v, e), path[1:], new))
        if e[0] == "v":
            if v.op == "adt" and v.a[1] == e[1]:
                f = list(v.a[2])
                f[e[2]] = self.upd(f[e[2]], path[1:], new)
                return mk("adt", v.a[0], v.a[1], tuple(f))
            raise Undet("upd variant")
        if e[0] == "i":
            x = new if len(path) == 1 else self.upd(sidx(v, e[1]), path[1:], new)
            return splice(v, e[1], seq([x]))
        if e[0] == "s":
            if len(path) == 1:
                return splice(v, e[1], new)
            if path[1][0] == "i":
                return self.upd(v, (("i", add(e[1], path[1][1])),) + path[2:], new)
            if path[1][0] == "s":
                return self.upd(v, (("s", add(e[1], path[1][1]), path[1][2]),) + path[2:], new)
        raise Undet("upd %s" % (e,))

    def store(self, st, p, v):
        if p.op == "ref":
            c = p.a[0]
            old = st.cells.get(c, UNDEF)
            if p.a[1] and old is UNDEF:
                # field-wise initialisation
                old = mk("opq", "uninit", None)
            st.cells[c] = self.upd(old, p.a[1], v)
            return
        if p.op == "ite":
            c = p.a[0]
            self.store(st, p.a[1], merge_val(c, v, self.load(st, p.a[1])))
            self.store(st, p.a[2], merge_val(c, self.load(st, p.a[2]), v))
            return
        self.note_opaque("store through %s" % p.op)

    def note_opaque(self, what):
        self.opaque.append((what, self.stack[-1] if self.stack else "?"))

    def opq(self, name, *args):
        self.note_opaque(name)
        return mk("opq", name, tuple(args), fresh("o"), None)

    # ---------------- places & operands
    def place(self, fr, st, pl):
        p = mk("ref", fr.cell(pl[0]), ())
        var = None
        cur = None
        for e in pl[1]:
            k = e[0]
            if k == "*":
                p = self.load(st, p)
                if p.op in ("adt",) and p.a[0] in PTRS and p.a[2]:
                    p = p.a[2][0]
            elif k == "dc":
                var = e[1]
            elif k == "f":
                tn = self.tyname(self.ty(e[2], fr.sub))
                if var is not None:
                    p = self.pproj(p, ("v", var, e[1], tn))
                    var = None
                else:
                    p = self.pproj(p, ("f", e[1], tn))
            elif k == "i":
                i = st.cells[fr.cell(e[1])]
                p = self.pproj(p, ("i", i))
            elif k == "ci":
                off = I(e[1])
                if e[3]:
                    off = sub(slen(self.load(st, p)), off)
                p = self.pproj(p, ("i", off))
            elif k == "sub":
                n = slen(self.load(st, p))
                a = I(e[1])
                end = sub(n, I(e[2])) if e[3] else I(e[2])
                p = self.pproj(p, ("s", a, sub(end, a)))
            else:
                raise Undet("place proj " + k)
        return p

    def operand(self, fr, st, op):
        if op[0] == "c":
            return self.const(st, op[1], fr)
        pl = op[1]
        if not pl[1]:
            c = fr.cell(pl[0])
            v = st.cells.get(c, UNDEF)
            if op[0] == "mv":
                if v.op not in ("int", "bool"):
                    st.cells[c] = UNDEF
            return v
        p = self.place(fr, st, pl)
        v = self.load(st, p)
        if op[0] == "mv" and v.op == "guard":
            # moved out of: the drop of what contained it releases nothing
            try:
                self.store(st, p, UNDEF)
            except Undet:
                pass
        return v

    def const(self, st, c, fr):
        k = c["k"]
        if k == "int":
            return I(c["v"])
        if k == "bool":
            return B(bool(c["v"]))
        if k == "char":
            v = c["v"]
            return I(ord(v) if isinstance(v, str) else v)
        if k == "float":
            import struct
            t = self.ty(c["t"])
            if t[1] == "f32":
                return F(struct.unpack("<f", struct.pack("<I", int(c["v"])))[0])
            return F(struct.unpack("<d", struct.pack("<Q", int(c["v"])))[0])
        if k == "str":
            v = c["v"]
            return mk("bx", seq([I(b) for b in (v.encode() if isinstance(v, str) else bytes(v))]))
        if k == "bytes":
            return mk("bx", seq([I(b) for b in c["v"]]))
        if k == "fn":
            f = c["v"]
            return mk("fnv", f["id"], tuple(self.ty(x, fr.sub) for x in f["args"]), _FN(f))
        if k == "ref":
            v = c["v"]
            return mk("bx", self.const(st, v, fr))
        if k == "agg":
            return self.aggconst(st, c, fr)
        if k == "zst":
            t = self.ty(c["t"], fr.sub)
            if t[0] == "tuple":
                return UNIT
            if t[0] == "adt":
                return mk("adt", t[1], 0, ())
            if t[0] in ("closure",):
                return mk("clo", t[1], (), fr.sub)
            if t[0] == "array":
                return seq([])
            if t[0] == "fndef":
                return mk("fnv", t[1], t[2], t[3])
            return UNIT
        return mk("opq", "const", c.get("n") or "", repr(c.get("t")), None)

    def aggconst(self, st, c, fr):
        t = self.ty(c["t"], fr.sub)
        v = c["v"]
        if t[0] in ("array", "slice"):
            return seq([self.const(st, x, fr) for x in v])
        if t[0] == "tuple":
            return mk("tup", tuple(self.const(st, x, fr) for x in v))
        if t[0] == "adt":
            n = c.get("n") or ""
            if t[1].endswith("::StatusCode") and n.rsplit("::", 1)[-1] in STATUS:
                return mk("adt", "$status", 0, (I(STATUS[n.rsplit("::", 1)[-1]]),))
            if t[1].endswith("::HeaderName") and n:
                return mk("call", "const " + n, (), None)
            if isinstance(v, dict):
                return mk("adt", t[1], v.get("variant", 0), tuple(self.const(st, x, fr) for x in v.get("f", [])))
            if len(v) == 2 and isinstance(v[0], int) and isinstance(v[1], list):
                return mk("adt", t[1], v[0], tuple(self.const(st, x, fr) for x in v[1]))
            if isinstance(v, list) and "var" in c and not deepunk(c):
                return mk("adt", t[1], c["var"] or 0, tuple(self.const(st, x, fr) for x in v))
            if n:
                return mk("call", "const " + n, (), None)
        return mk("opq", "aggconst", repr(c)[:80], None)

    # ---------------- rvalues
    def disc(self, v):
        if v.op == "adt":
            a = self.P.adts.get(v.a[0])
            if a and v.a[1] < len(a["v"]):
                d = a["v"][v.a[1]]["d"]
                return I(int(d) if d is not None else v.a[1])
            return I(v.a[1])
        if v.op == "ite":
            return ite(v.a[0], self.disc(v.a[1]), self.disc(v.a[2]))
        if v.op == "updf":
            return self.disc(v.a[0])
        if v is UNDEF:
            return mk("opq", "disc-undef", None)
        t = mk("disc", v)
        return seqs.OVERRIDE.get(t, t)

    def rvalue(self, fr, st, rv, dty, dest=None):
        k = rv[0]
        if k == "use":
            return self.operand(fr, st, rv[1])
        if k == "ref":
            return self.place(fr, st, rv[1])
        if k == "disc":
            return self.disc(self.load(st, self.place(fr, st, rv[1])))
        if k == "bin":
            a, b = self.operand(fr, st, rv[2]), self.operand(fr, st, rv[3])
            return self.binop(rv[1], a, b, self.op_ty(fr, rv[2]))
        if k == "un":
            a = self.operand(fr, st, rv[2])
            if rv[1] == "Not":
                t = self.op_ty(fr, rv[2])
                if t[0] == "bool":
                    return tnot(a)
                lo, hi = INTS[t[1]]
                return sub(I(-1), a) if lo < 0 else sub(I(hi), a)
            if rv[1] == "Neg":
                t = self.op_ty(fr, rv[2])
                if t[0] == "float":
                    return F(-fval(a)) if a.op == "flt" else mk("fneg", a)
                return scale(a, -1)
            if rv[1].startswith("PtrMetadata"):
                return slen(self.load(st, a))
            return self.opq("unop " + rv[1], a)
        if k == "cast":
            return self.cast(st, rv[1], self.operand(fr, st, rv[2]), self.op_ty(fr, rv[2]), self.ty(rv[3], fr.sub))
        if k == "agg":
            vs = [self.operand(fr, st, o) for o in rv[3]]
            ak = rv[1]
            if ak == "array":
                return seq(vs)
            if ak == "tuple":
                return mk("tup", tuple(vs))
            if ak == "adt":
                path, vi, ti, uf = rv[2]
                if path in PTRS and len(vs) == 1:
                    return vs[0]
                if uf is not None:
                    return mk("adt", path, 0, tuple(vs))
                return mk("adt", path, vi, tuple(vs))
            if ak == "closure":
                return mk("clo", rv[2], tuple(vs), fr.sub)
            if ak == "coroutine":
                return mk("cor", rv[2], tuple(vs), fr.sub)
        if k == "rep":
            v = self.operand(fr, st, rv[1])
            if rv[2] is None:
                return self.opq("repeat")
            return srep(I(rv[2]), v)
        return self.opq("rvalue " + str(rv[0]))

    def cast(self, st, kind, v, fty, tty):
        if kind in ("IntToInt",):
            if tty[0] == "int":
                if fty[0] == "bool":
                    return b2i(v)
                w = trunc(v, tty[1])
                if w.op == "trunc" and v.op != "trunc" and fty[0] == "int" and tyof(v) != fty[1]:
                    lo, hi = INTS[tty[1]]
                    if self.implied(st, tand(le(I(lo), v), le(v, I(hi)))):
                        return v
                return w
            if tty[0] == "char":
                return v
            return v
        if kind == "IntToFloat":
            return itof(v, tty[1])
        if kind == "FloatToInt":
            return ftoi(v, tty[1])
        if kind == "FloatToFloat":
            if v.op == "flt":
                if tty[1] == "f32":
                    import struct
                    return F(struct.unpack("<f", struct.pack("<f", fval(v)))[0])
                return v
            return mk("ftof", fty[1], tty[1], v)
        if "Transmute" in kind:
            if fty[0] == "int" and tty[0] == "int":
                return trunc(v, tty[1])
            return v
        return v  # pointer casts, unsizing, reification

    def binop(self, op, a, b, t):
        if t[0] == "float":
            n = {"Add": "fadd", "Sub": "fsub", "Mul": "fmul", "Div": "fdiv", "Rem": "frem"}.get(op)
            if n:
                return fop(n, a, b)
            if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                if a.op == "flt" and b.op == "flt":
                    x, y = fval(a), fval(b)
                    return B({"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y, "Eq": x == y, "Ne": x != y}[op])
                if op in ("Gt", "Ge"):
                    a, b, op = b, a, {"Gt": "Lt", "Ge": "Le"}[op]
                if op == "Ne":
                    return tnot(mk("fEq", a, b))
                return mk("f" + op, a, b)
            return self.opq("float " + op)
        if op == "Eq":
            return self.eqv(a, b)
        if op == "Ne":
            return tnot(self.eqv(a, b))
        if op in ("Lt", "Le", "Gt", "Ge"):
            if t[0] == "bool":
                a, b = b2i(a), b2i(b)
            if op == "Lt":
                return lt(a, b)
            if op == "Le":
                return le(a, b)
            if op == "Gt":
                return lt(b, a)
            return le(b, a)
        if op == "Cmp":
            o = "std::cmp::Ordering"
            return ite(lt(a, b), mk("adt", o, 0, ()), ite(self.eqv(a, b), mk("adt", o, 1, ()), mk("adt", o, 2, ())))
        if t[0] == "bool":
            if op == "BitAnd":
                return tand(a, b)
            if op == "BitOr":
                return tor(a, b)
            if op == "BitXor":
                return ite(a, tnot(b), b)
        ty = t[1] if t[0] == "int" else None
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            r = {"A": add, "S": sub, "M": mul}[op[0]](a, b)
            lo, hi = INTS[ty]
            ov = tor(lt(r, I(lo)), lt(I(hi), r))
            return mk("tup", (r, ov))
        if op in ("Add", "Sub", "Mul"):
            return trunc({"A": add, "S": sub, "M": mul}[op[0]](a, b), ty)
        if op in ("AddUnchecked", "SubUnchecked", "MulUnchecked"):
            return {"A": add, "S": sub, "M": mul}[op[0]](a, b)
        if op == "Div":
            return div(a, b)
        if op == "Rem":
            return rem(a, b)
        return bitop(op, a, b, ty)

    def eqv(self, a, b):
        return eq(a, b)

    # ---------------- control flow
    def cfg(self, b):
        c = self.cfgs.get(b["id"])
        if c is None:
            c = self.cfgs[b["id"]] = CFG(b)
        return c

    def merge(self, sts):
        if len(sts) == 1:
            return sts[0]
        sts = list(sts)
        if len(sts) == 2:
            return self.merge2(sts[0], sts[1])
        # innermost forks first: keeps selectors short
        def path(pc):
            out = []
            while pc is not None:
                out.append(id(pc))
                pc = pc.parent
            return out[::-1]
        order = {}
        ps = [path(s.pc) for s in sts]
        for p in ps:
            for x in p:
                order.setdefault(x, len(order))
        sts = [s for _, s in sorted(zip([[order[x] for x in p] for p in ps], sts), key=lambda z: z[0])]
        dep = [common(a.pc, b.pc).depth for a, b in zip(sts, sts[1:])]
        while len(sts) > 1:
            i = max(range(len(dep)), key=lambda j: dep[j])
            sts[i:i + 2] = [self.merge2(sts[i], sts[i + 1])]
            dep.pop(i)
            for j in (i - 1, i):
                if 0 <= j < len(dep):
                    dep[j] = common(sts[j].pc, sts[j + 1].pc).depth
        return sts[0]

    def merge2(self, a, b):
        anc = common(a.pc, b.pc)
        ca, cb = a.pc.cond(anc), b.pc.cond(anc)
        cells = {}
        ra, rb = a.pc.rel(anc), b.pc.rel(anc)
        flip = len(rb) < len(ra) or (len(rb) == len(ra) and ca.op == "ite" and cb.op != "ite")
        for c, v in a.cells.items():
            w = b.cells.get(c, UNDEF)
            cells[c] = v if v is w else (merge_val(cb, w, v) if flip else merge_val(ca, v, w))
        for c, w in b.cells.items():
            if c not in cells:
                cells[c] = w
        n = 0
        while n < len(a.ev) and n < len(b.ev) and a.ev[n] is b.ev[n]:
            n += 1
        ev = a.ev[:n] + a.ev[n:] + b.ev[n:]
        lit = tor(ca, cb)
        if cb is tnot(ca):
            lit = TRUE
        lit = anc.facts.simp(lit)
        if lit.op == "ite" and self.ntaut < 1500:
            self.ntaut += 1
            if taut(anc.facts, lit, [24]):
                lit = TRUE
        pc = anc if lit is TRUE else PC(anc, lit)
        return St(cells, pc, ev)

    def exec_scope(self, fr, blocks, header, st, is_loop):
        cfg = self.cfg(fr.b)
        pending = {header: [st]}
        back, exits, rets = [], {}, []
        first = True
        while pending:
            u = min(pending, key=lambda x: cfg.rpo.get(x, 10 ** 9))
            s = self.merge(pending.pop(u))
            if u in cfg.loops and not (u == header and is_loop):
                outs = self.mir_loop(fr, u, s)
            else:
                outs = self.exec_block(fr, u, s)
            for tgt, s2 in outs:
                if tgt == "ret":
                    rets.append(s2)
                elif is_loop and tgt == header:
                    back.append(s2)
                elif blocks is not None and tgt not in blocks:
                    exits.setdefault(tgt, []).append(s2)
                else:
                    pending.setdefault(tgt, []).append(s2)
        return back, exits, rets

    def mir_loop(self, fr, h, st):
        cfg = self.cfg(fr.b)
        blocks = cfg.loops[h]

        def body(s):
            back, exits, rets = self.exec_scope(fr, blocks, h, s, True)
            ex = [(k, self.merge(v)) for k, v in sorted(exits.items(), key=lambda x: cfg.rpo.get(x[0], 0))]
            if rets:
                ex.append(("ret", self.merge(rets)))
            return (self.merge(back) if back else None), ex

        return self.loop(st, body, "%s:bb%d" % (fr.b["path"], h))

    # -------- loop summarisation
    def loop(self, st0, body, name):
        np, no, nn = len(self.panics), len(self.opaque), len(self.notes)
        bk, ex = body(st0.copy())
        if bk is None:
            return ex
        del self.panics[np:]
        del self.opaque[no:]
        del self.notes[nn:]
        if self.unroll:
            # the facts of the run decide every iteration: follow them
            out, s = [], st0
            for _ in range(self.unroll):
                s, ex = body(s.copy())
                out.extend(ex)
                if s is None:
                    return out
            del self.panics[np:]
            del self.opaque[no:]
            del self.notes[nn:]
        n = self.literal_trip(st0, bk)
        if n is not None:
            out, s = [], st0
            for _ in range(n + 1):
                s, ex = body(s.copy())
                out.extend(ex)
                if s is None:
                    return out
            del self.panics[np:]
            del self.opaque[no:]
            del self.notes[nn:]
        r = self.summarise(st0, body, name, bk)
        if isinstance(r, int):
            # concrete trip count: unfold the (bounded) loop
            out = []
            s = st0.copy()
            for _ in range(r + 1):
                b, ex = body(s)
                out.extend(ex)
                if b is None:
                    return out
                s = b
            if infeasible(s.pc.facts):
                return out
            raise Undet("loop did not end after %d iterations: %s" % (r, name))
        return r

    def settle(self, st, w):
        """resolve selections the path facts decide"""
        while w.op == "ite":
            c = st.pc.facts.simp(w.a[0])
            if c.op != "bool":
                c = st.pc.facts.deep(c)
            if c is TRUE or (c is not FALSE and self.implied(st, c)):
                w = w.a[1]
            elif c is FALSE or self.implied(st, tnot(c)):
                w = w.a[2]
            else:
                break
        return w

    def literal_trip(self, st0, bk):
        """number of iterations of a loop driven by an iterator over a literal range or sequence"""
        for c, v in st0.cells.items():
            w = bk.cells.get(c)
            if w is not None and w.op == "ite" and v.op in ("it", "adt", "lazy"):
                w = self.settle(bk, w)
            if w is None or w is v or v.op != w.op:
                continue
            if v.op == "adt" and v.a[0].endswith("::Range") and w.a[0] == v.a[0]:
                (a, b), (a2, b2) = v.a[2], w.a[2]
            elif v.op == "it" and v.a[0] is w.a[0]:
                (a, b), (a2, b2) = v.a[1:], w.a[1:]
            else:
                continue
            if a.op == b.op == a2.op == "int" and b2 is b and a2.a[0] == a.a[0] + 1 and b.a[0] - a.a[0] <= 2500:
                return b.a[0] - a.a[0]
            if a.op == a2.op == "int" and b2 is b and b.op == "ite" and a2.a[0] == a.a[0] + 1:
                m = intmax(b)
                if m is not None and m - a.a[0] <= 64:
                    return m - a.a[0]
        return None

    def flat(self, t, path=()):
        """constructor skeleton: yields (path, leaf)"""
        if t.op == "adt":
            for i, x in enumerate(t.a[2]):
                yield from self.flat(x, path + (i,))
        elif t.op == "tup":
            for i, x in enumerate(t.a[0]):
                yield from self.flat(x, path + (i,))
        elif t.op in ("it", "lazy"):
            for i, x in enumerate(t.a):
                if isinstance(x, T):
                    yield from self.flat(x, path + (i,))
        else:
            yield path, t

    def template(self, init, back, cur, pre):
        """generalise: cur is current template (with phis) whose re-evaluation gave back"""
        if cur is back:
            return cur
        if cur.op == back.op and cur.op in ("adt", "tup", "it", "lazy", "ref") and init is not None and init.op == cur.op:
            if cur.op == "adt" and cur.a[:2] == back.a[:2] == init.a[:2]:
                return mk("adt", cur.a[0], cur.a[1], tuple(self.template(i, b, c, pre) for i, b, c in zip(init.a[2], back.a[2], cur.a[2])))
            if cur.op == "tup":
                return mk("tup", tuple(self.template(i, b, c, pre) for i, b, c in zip(init.a[0], back.a[0], cur.a[0])))
            if cur.op in ("it", "lazy") and len(cur.a) == len(back.a) and all((isinstance(x, T)) == (isinstance(y, T)) and (isinstance(x, T) or x == y) for x, y in zip(cur.a, back.a)):
                return mk(cur.op, *[self.template(i, b, c, pre) if isinstance(c, T) else c for i, b, c in zip(init.a, back.a, cur.a)])
            if cur.op == "ref" and cur.a[0] == back.a[0] and len(cur.a[1]) == len(back.a[1]) and [e[0] for e in cur.a[1]] == [e[0] for e in back.a[1]] and [e[0] for e in init.a[1]] == [e[0] for e in cur.a[1]]:
                okk = True
                path = []
                for ei, eb, ec in zip(init.a[1], back.a[1], cur.a[1]):
                    e2 = []
                    for x, y, z in zip(ei, eb, ec):
                        if isinstance(z, T):
                            e2.append(self.template(x, y, z, pre))
                        elif y == z:
                            e2.append(z)
                        else:
                            okk = False
                            e2.append(z)
                    path.append(tuple(e2))
                if okk:
                    return mk("ref", cur.a[0], tuple(path))
        if cur in pre:
            return cur
        if cur.op in ("it", "lazy"):
            raise Undet("iterator state of a loop is not regular")
        ty = tyof(cur) or tyof(back)
        if ty is None or isnum(cur):
            if isnum(cur) or isnum(back):
                ty = pre.get("ty") or (ty if ty in INTS else "num")
        if ty is None and cur.op in ("seq", "cat", "smap", "sub", "splice", "bmap", "rec"):
            ty = "seq:?"
        if ty is None and (cur.op in ("bool", "lt0", "eq0", "not", "eq", "exists") or back.op in ("bool", "lt0", "eq0", "not", "eq")):
            ty = "bool"
        p = fresh("phi", ty)
        pre[p] = (init,)
        return p

    def freeze(self, st, v, base):
        """back-edge value: gates resolved under the path facts, references to cells born inside
        the loop body replaced by their values"""
        v = liftite(st.pc.facts.deep(v))
        m = {}
        for x in subterms(v):
            if x.op == "ref" and x.a[0] not in base.cells and x.a[0] in st.cells and st.cells[x.a[0]] is not UNDEF:
                m[x] = mk("bx", self.freeze(st, self.load(st, x), base))
        return subst(v, m) if m else v

    def intty(self, cell, init):
        ct = self.cellty.get(cell)
        if ct:
            t = self.ty(ct[0], ct[1]) if not isinstance(ct[0], tuple) else ct[0]
            if t[0] == "int":
                return t[1]
        return None

    def summarise(self, st0, body, name, bk):
        phis = {}
        tmpl = {}
        for c, v in st0.cells.items():
            w = bk.cells.get(c, UNDEF)
            if w is not v and v is not UNDEF:
                if w.op == "ite" and v.op in ("it", "lazy", "adt"):
                    w = self.settle(bk, w)
                w = self.freeze(bk, w, st0)
                if w is v or w is self.freeze(bk, v, st0):
                    continue
                phis["ty"] = self.intty(c, v)
                tmpl[c] = self.template(v, w, v, phis)
        phis.pop("ty", None)
        marks = len(self.panics), len(self.opaque), len(self.notes)
        for rnd in range(8):
            s = st0.copy()
            s.cells.update(tmpl)
            s.pc = PC(s.pc, TRUE)
            anc = s.pc
            b, ex = body(s)
            del self.panics[marks[0]:]
            del self.opaque[marks[1]:]
            del self.notes[marks[2]:]
            if b is None:
                return ex  # cannot iterate from a general state either
            changed = False
            for c, v in st0.cells.items():
                if v is UNDEF:
                    continue
                cur = tmpl.get(c, v)
                w = b.cells.get(c, UNDEF)
                if w is cur:
                    continue
                if w.op == "ite" and cur.op in ("it", "lazy", "adt"):
                    w = self.settle(b, w)
                w = self.freeze(b, w, st0)
                if w is cur or w is self.freeze(b, cur, st0):
                    continue
                phis["ty"] = self.intty(c, v)
                t2 = self.template(v, w, cur, phis)
                phis.pop("ty", None)
                if t2 is not cur:
                    tmpl[c] = t2
                    changed = True
            if not changed:
                break
        else:
            raise Undet("loop template did not stabilise: " + name)
        # equations
        eqs = {}

        def collect(init, cur, back):
            if cur in phis:
                eqs[cur] = (init, back)
                return
            if cur is back and not any(x in phis for x in subterms(cur)):
                return
            if cur.op in ("adt",):
                for i, c, w in zip(init.a[2], cur.a[2], back.a[2]):
                    collect(i, c, w)
            elif cur.op == "tup":
                for i, c, w in zip(init.a[0], cur.a[0], back.a[0]):
                    collect(i, c, w)
            elif cur.op in ("it", "lazy"):
                for i, c, w in zip(init.a, cur.a, back.a):
                    if isinstance(c, T):
                        collect(i, c, w)
            elif cur.op == "ref":
                for ei, ec, ew in zip(init.a[1], cur.a[1], back.a[1]):
                    for i, c, w in zip(ei, ec, ew):
                        if isinstance(c, T):
                            collect(i, c, w)

        for c, t in tmpl.items():
            w = b.cells.get(c, UNDEF)
            if w.op == "ite" and t.op in ("it", "lazy", "adt"):
                w = self.settle(b, w)
            collect(st0.cells[c], t, self.freeze(b, w, st0))
        k = fresh("k", "usize")
        sol = self.solve(eqs, k, b.pc.rel(anc))
        # closed-form state at iteration k
        def at(kk):
            s = st0.copy()
            m = {p: (subst(v, {k: kk}) if kk is not k else v) for p, v in sol.items()}
            for c, t in tmpl.items():
                s.cells[c] = subst(t, m)
            return s

        s = at(k)
        s.pc = PC(s.pc, le(I(0), k))
        anc = s.pc
        b, ex = body(s)
        del self.panics[marks[0]:]
        del self.opaque[marks[1]:]
        del self.notes[marks[2]:]
        # find the main exit
        main = None
        N = None
        for i, (key, es) in enumerate(ex):
            n = self.tripcount(es.pc.rel(anc), k)
            if n is not None:
                main, N = i, n
                break
        if N is not None:
            N = st0.pc.facts.deep(N)
            if N.op == "int" and 0 <= N.a[0] <= 320:
                return N.a[0]
        if main is None and not ex:
            raise Undet("loop exit not found: " + name)
        # run again with k < N to get the early exits
        s = at(k)
        s.pc = PC(s.pc, le(I(0), k))
        if N is not None:
            s.pc = PC(s.pc, lt(k, N))
        anc2 = s.pc
        nev = len(s.ev)
        pmark = len(self.panics)
        b2, ex2 = body(s)
        # panics inside the loop are existential in k: keep, tagged
        for j in range(pmark, len(self.panics)):
            site, kind, cond, ch = self.panics[j]
            self.panics[j] = (site, kind, cond, ch)
        conds = []
        for key, es in ex2:
            cnd = es.pc.cond(anc2)
            conds.append((key, es, cnd))
        anyc = FALSE
        for _, _, c in conds:
            anyc = tor(anyc, c)
        evs = []
        if b2 is not None and len(b2.ev) > nev:
            evs = b2.ev[nev:]
        out = []
        NN = N
        if NN is None:
            NN = mkfirst(None, k, anyc)
        ex_lit = mkexists(N, k, anyc) if N is not None else TRUE
        kx = mkfirst(N, k, anyc) if N is not None else NN
        loopev = ("loop", name, NN if N is not None else kx, k, tuple(evs)) if evs else None
        self.loops_seen.append((name, len(sol), str(N)[:80]))
        for key, es, c in conds:
            r = st0.copy()
            if not r.assume(ex_lit):
                continue
            m = {k: kx}
            memo = {}
            r.cells = {cc: subst(v, m, memo) for cc, v in es.cells.items()}
            if len(conds) > 1:
                if not r.assume(subst(c, m, memo)):
                    continue
            r.ev = list(st0.ev) + ([loopev] if loopev else []) + [e for e in es.ev[nev:]]
            out.append((key, r))
        if N is not None:
            key, es = ex[main]
            r = st0.copy()
            okk = r.assume(tnot(ex_lit))
            if okk:
                m = {k: N}
                memo = {}
                r.cells = {cc: subst(v, m, memo) for cc, v in es.cells.items()}
                r.ev = list(st0.ev) + ([loopev] if loopev else []) + [e for e in es.ev[nev:]]
                out.append((key, r))
        return out

    def tripcount(self, lits, k):
        for l in lits:
            if not free_in(l, lambda x: x is k):
                continue
            if l.op == "lt0":
                p = l.a[0]
                d = _p(p)
                ck = d.pop((k,), 0)
                p0 = _up(d)
                if ck < 0 and not free_in(p0, lambda x: x is k):
                    c = -ck
                    if c == 1:
                        return tmax(add(p0, I(1)), I(0))
                    return tmax(div(add(p0, I(c)), I(c)), I(0))
                # symbolic negative coefficient: p0 - sum(m)*k
                return None
            if l.op == "eq0":
                d = _p(l.a[0])
                ck = d.pop((k,), 0)
                p0 = _up(d)
                if abs(ck) == 1 and not free_in(p0, lambda x: x is k):
                    return p0 if ck == -1 else scale(p0, -1)
            return None
        return None

    def solve(self, eqs, k, contlits):
        sol = {}
        pend = dict(eqs)
        facts = Facts()
        for l in contlits:
            facts.add(l)
        pend = {p: (i, facts.deep(w)) for p, (i, w) in pend.items()}
        isphi = lambda x: x in pend and x not in sol
        progress = True
        while pend and progress:
            progress = False
            for p in list(pend):
                init, back = pend[p]
                w = subst(back, sol) if sol else back
                r = self.solve1(p, init, w, k, lambda x: x in pend)
                if r is not None:
                    sol[p] = r
                    del pend[p]
                    progress = True
        if pend:
            # joint recursion, kept symbolic
            ps = list(pend)
            bodies = [subst(pend[p][1], sol) if sol else pend[p][1] for p in ps]
            lv = 1 + max([bvlevel(x) for x in bodies] + [bvlevel(pend[p][0]) for p in ps] + [bvlevel(k)])
            m = {p: mk("bvr", lv, j) for j, p in enumerate(ps)}
            m[k] = mk("bv", lv)
            bb = tuple(subst(x, m) for x in bodies)
            inits = tuple(pend[p][0] for p in ps)
            for j, p in enumerate(ps):
                sol[p] = mk("rec", j, k, inits, lv, bb)
            # already solved ones may mention pending phis only through substitution order
            sol2 = {}
            for p, v in sol.items():
                sol2[p] = subst(v, {q: sol[q] for q in ps}) if p not in ps else v
            sol = sol2
        return sol

    def solve1(self, p, init, w, k, unsolved):
        dep = lambda t, but=None: free_in(t, lambda x: unsolved(x) and x is not but)
        if w is p:
            return init
        if dep(w, p):
            return None
        selfdep = free_in(w, lambda x: x is p)
        if isnum(p) or p.a[1] == "num":
            d = sub(w, p)
            if not free_in(d, lambda x: x is p):
                if not free_in(d, lambda x: x is k):
                    return add(init, mul(d, k))
                return add(init, mk_psum(k, d))
        if not selfdep:
            # value overwritten every iteration: init at k=0, body(k-1) afterwards
            if not free_in(w, lambda x: x is k):
                return ite(eq(k, I(0)), init, w)
            return ite(eq(k, I(0)), init, subst(w, {k: sub(k, I(1))}))
        if w.op == "cat" and w.a[0][0] is p:
            rest = cat(*w.a[0][1:])
            if not free_in(rest, lambda x: x is p):
                return cat(init, mk_scat(k, rest))
        if w.op == "minsert" and w.a[0] is p and not free_in(mk("tup", (w.a[1], w.a[2])), lambda x: x is p):
            return mk_mbuild(init, k, TRUE, w.a[1], w.a[2])
        if w.op == "splice" and w.a[0] is p:
            r = self.solve_splice(p, init, w, k)
            if r is not None:
                return r
        if w.op == "ite":
            cases = list(gcases(w))
            act = [(c, v) for c, v in cases if v is not p]
            if act and not any(free_in(c, lambda x: x is p) for c, v in cases):
                if not any(free_in(v, lambda x: x is p) for c, v in act):
                    return mk_last(init, k, act)
                if all(v.op == "cat" and v.a[0][0] is p and not free_in(cat(*v.a[0][1:]), lambda x: x is p) for c, v in act):
                    e = seq([])
                    for c, v in reversed(act):
                        e = ite(c, cat(*v.a[0][1:]), e)
                    return cat(init, mk_scat(k, e))
                if all(v.op == "minsert" and v.a[0] is p and not free_in(mk("tup", v.a[1:]), lambda x: x is p) for c, v in act):
                    kk, vv, cc = act[-1][1].a[1], act[-1][1].a[2], FALSE
                    for c, v in reversed(act):
                        kk, vv, cc = ite(c, v.a[1], kk), ite(c, v.a[2], vv), tor(c, cc)
                    return mk_mbuild(init, k, cc, kk, vv)
                if isnum(p) or p.a[1] == "num":
                    ds = [(c, sub(v, p)) for c, v in act]
                    if not any(free_in(d, lambda x: x is p) for c, d in ds):
                        e = I(0)
                        for c, d in reversed(ds):
                            e = ite(c, d, e)
                        return add(init, mk_psum(k, e))
        return None

    def solve_splice(self, p, init, w, k):
        """in-place update of disjoint blocks: splice(p, m*k+c, vals) with vals reading p only inside the block"""
        _, start, vals = w.a
        n = slen(vals)
        d = _p(start)
        # start = m*k + c
        mcoef = {}
        rest = {}
        for mono, c in d.items():
            if k in mono:
                mm = list(mono)
                mm.remove(k)
                mcoef[tuple(mm)] = c
            else:
                rest[mono] = c
        m, c0 = _up(mcoef), _up(rest)
        if free_in(m, lambda x: x is k) or free_in(c0, lambda x: x is k) or free_in(c0, lambda x: x is p) or m is I(0):
            return None
        if not (n.op == "int" and m.op == "int" and n.a[0] <= m.a[0]):
            return None
        reads = [x for x in subterms(vals) if x.op in ("idx", "rd", "sub", "len") and _srcof(x) is p]
        for x in subterms(vals):
            if x is not p:
                continue
        inner = subst(vals, {x: _rebase(x, init) for x in reads})
        if free_in(inner, lambda x: x is p):
            return None
        for x in reads:
            if x.op == "len":
                continue
            off = x.a[1] if x.op in ("idx", "sub") else x.a[3]
            ln = I(1) if x.op == "idx" else (x.a[2] if x.op == "sub" else I(WIDTH[x.a[0]]))
            rel = sub(off, start)
            hi = add(rel, ln)
            if not (rel.op == "int" and hi.op == "int" and rel.a[0] >= 0 and hi.a[0] <= m.a[0]):
                return None
        return mk_bmap(init, m, c0, k, inner)

    # ---------------- blocks
    def exec_block(self, fr, u, st):
        self.steps += 1
        if self.steps > 400000:
            raise Undet("step limit")
        bb = fr.b["blocks"][u]
        try:
            for s in bb["s"]:
                k = s[0]
                if k == "=":
                    dty = None
                    v = self.rvalue(fr, st, s[2], dty)
                    pl = s[1]
                    if pl[1]:
                        self.store(st, self.place(fr, st, pl), v)
                    else:
                        st.cells[fr.cell(pl[0])] = v
                elif k in ("sl", "sd"):
                    st.cells.pop(fr.cell(s[1]), None) if k == "sl" else None
                elif k == "setd":
                    pass
            return self.term(fr, st, bb["t"])
        except Dead:
            return []

    def term(self, fr, st, t):
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            return [("ret", st)]
        if k == "switch":
            v = self.operand(fr, st, t[1])
            ty = self.op_ty(fr, t[1])
            return self.switch(st, v, ty, t[2], t[3])
        if k == "drop":
            self.drop(fr, st, t[1])
            return [(t[2], st)]
        if k == "assert":
            c = self.operand(fr, st, t[1])
            good = c if t[2] else tnot(c)
            self.check(st, good, t[3], t[6] if len(t) > 6 else "")
            return [(t[5], st)]
        if k == "call":
            return self.callterm(fr, st, t)
        if k == "yield":
            return []
        return []

    def switch(self, st, v, ty, arms, other):
        v = st.pc.facts.simp(v)
        if v.op == "opq" or v is UNDEF:
            self.note_opaque("switch on opaque")
        outs = []
        rest = st
        alive = True
        for val, bb in arms:
            if v.op == "bool" or ty[0] == "bool":
                c = v if int(val) else tnot(v)
            else:
                val = int(val)
                if ty[0] == "int" and ty[1][0] == "i" and val > INTS[ty[1]][1]:
                    val = wrapint(val, ty[1])
                c = eq(v, I(val))
            c = rest.pc.facts.simp(c)
            if self.sharp and c.op != "bool":
                if self.implied(rest, c):
                    c = TRUE
                elif self.implied(rest, tnot(c)):
                    c = FALSE
            if c is FALSE:
                continue
            if c is TRUE:
                outs.append((bb, rest))
                alive = False
                break
            s = rest.copy()
            if s.assume(c):
                outs.append((bb, s))
            if rest is st:
                rest = st.copy()
            if not rest.assume(tnot(c)):
                alive = False
                break
        if alive and other is not None:
            outs.append((other, rest))
        return outs

    def site(self, span):
        return "%s" % (self.stack[-1] if self.stack else "?")

    def check(self, st, good, kind, span):
        """a runtime check: records the potential panic, continues assuming it passes"""
        g = st.pc.facts.simp(good)
        if g is TRUE or (g is not FALSE and self.implied(st, g)):
            return
        self.panics.append(((self.stack[-1] if self.stack else "?", span), kind, tand(st.pc.cond(), tnot(g)), tuple(self.stack)))
        if g is FALSE:
            raise Dead()
        if not st.assume(g):
            raise Dead()

    def implied(self, st, g):
        if self.nlin > 4000:
            return False
        self.nlin += 1
        return implied(st.pc.facts, g)

    def panic(self, st, kind, span=""):
        self.panics.append(((self.stack[-1] if self.stack else "?", span), kind, st.pc.cond(), tuple(self.stack)))
        raise Dead()

    def drop(self, fr, st, pl):
        v = self.load(st, self.place(fr, st, pl)) if True else None
        self.dropval(st, v)
        if not pl[1]:
            st.cells[fr.cell(pl[0])] = UNDEF

    def dropval(self, st, v, d=0):
        if v is UNDEF or d > 4:
            return
        if v.op == "guard":
            st.ev.append(("unlock", v.a[0], st.pc))
        elif v.op == "ite":
            # conditional: record under its own guard
            for x in (v.a[1], v.a[2]):
                if x.op == "guard":
                    st.ev.append(("unlock", x.a[0], st.pc))
        elif v.op == "adt":
            for x in v.a[2]:
                self.dropval(st, x, d + 1)
        elif v.op == "tup":
            for x in v.a[0]:
                self.dropval(st, x, d + 1)

    # ---------------- calls
    def callterm(self, fr, st, t):
        f, args, dest, target, fty, span = t[1], t[2], t[3], t[4], t[5], t[6]
        vals = [self.operand(fr, st, a) for a in args]
        tys = [self.op_ty(fr, a) for a in args]
        dty = self.place_ty(fr, dest)
        self.span = span
        if f[0] == "c" and f[1]["k"] == "fn":
            v = self.callfn(st, f[1]["v"], [self.ty(x, fr.sub) for x in f[1]["v"]["args"]], vals, tys, dty, span)
        else:
            fv = self.operand(fr, st, f)
            v = self.callval(st, fv, vals, tys, dty)
        if target is None:
            return []
        if dest[1]:
            self.store(st, self.place(fr, st, dest), v)
        else:
            st.cells[fr.cell(dest[0])] = v
        return [(target, st)]

    def callval(self, st, fv, vals, tys=None, dty=("other", None)):
        """call a closure / fn value with positional args"""
        v = fv
        n = 0
        while v.op in ("ref", "bx") and n < 4:
            v2 = self.load(st, v)
            if v2.op in ("clo", "fnv", "ref", "bx"):
                if v2.op in ("clo", "fnv"):
                    break
                v = fv = v2
                n += 1
                continue
            break
        else:
            v2 = v
        inner = v2 if fv.op in ("ref", "bx") else fv
        if inner.op == "fnv":
            f = inner.a[2].f
            return self.callfn(st, f, list(inner.a[1]), vals, tys or [("other", None)] * len(vals), dty, "")
        if inner.op == "clo":
            b = self.P.bodies.get(inner.a[0])
            if b is None:
                return self.opq("closure body missing", *vals)
            t1 = self.ty(b["locals"][1][0], inner.a[2])
            if t1[0] == "ref":
                me = fv if fv.op in ("ref",) else self.alloc(st, inner)
            else:
                me = inner
            if b["argc"] == 1 + len(vals):
                return self.callbody(st, b, inner.a[2], [me] + vals)
            if b["argc"] == 1 + 1 and len(vals) != 1:
                return self.callbody(st, b, inner.a[2], [me, mk("tup", tuple(vals))])
            return self.opq("closure arity", *vals)
        if inner.op == "ite":
            c = st.pc.facts.simp(inner.a[0])
            if c is TRUE:
                return self.callval(st, inner.a[1], vals, tys, dty)
            if c is FALSE:
                return self.callval(st, inner.a[2], vals, tys, dty)
            s1, s2 = st.copy(), st.copy()
            rs = []
            for s, cc, x in ((s1, c, inner.a[1]), (s2, tnot(c), inner.a[2])):
                if s.assume(cc):
                    try:
                        rs.append((s, self.callval(s, x, vals, tys, dty)))
                    except Dead:
                        pass
            return self.joinret(st, rs)
        return self.opq("call of opaque function", *vals)

    def joinret(self, st, rs):
        """rs: [(state, value)] -> sets st to the merge, returns merged value"""
        if not rs:
            raise Dead()
        c = self.newcell()
        for s, v in rs:
            s.cells[c] = v
        m = self.merge([s for s, _ in rs])
        v = m.cells.pop(c)
        st.cells, st.pc, st.ev = m.cells, m.pc, m.ev
        return v

    def branch(self, st, cond, ft, ff):
        """evaluate ft/ff under cond / not cond and join"""
        c = st.pc.facts.simp(cond)
        if c is TRUE:
            return ft(st)
        if c is FALSE:
            return ff(st)
        rs = []
        for cc, f in ((c, ft), (tnot(c), ff)):
            s = st.copy()
            if s.assume(cc):
                try:
                    rs.append((s, f(s)))
                except Dead:
                    pass
        return self.joinret(st, rs)

    def callbody(self, st, b, sub, args):
        if self.depth > 60:
            raise Undet("inlining depth")
        if self.stack.count(b["path"]) > 3:
            raise Undet("recursion in " + b["path"])
        self.bodies_seen.add(b["id"])
        fr = Frame(self, b, sub)
        for i, a in enumerate(args):
            st.cells[fr.cell(i + 1)] = a
        self.depth += 1
        self.stack.append(b["path"])
        try:
            back, exits, rets = self.exec_scope(fr, None, 0, St(st.cells, st.pc, st.ev), False)
        finally:
            self.depth -= 1
            self.stack.pop()
        if not rets:
            raise Dead()
        m = self.merge(rets)
        rv = m.cells.get(fr.cell(0), UNDEF)
        if rv is UNDEF:
            rv = UNIT
        for l, c in fr.cells.items():
            m.cells.pop(c, None)
        st.cells, st.pc, st.ev = m.cells, m.pc, m.ev
        return rv

    def find_impl(self, trait, selfty, method):
        """local impl method for a trait on a concrete type -> (body, subst)"""
        cands = []
        for im in self.P.impls:
            if im["trait"] != trait:
                continue
            env = {}
            it = self.ty(im["self"])
            if unify(it, selfty, env):
                for n, mid in im["m"]:
                    if n == method and mid in self.P.bodies:
                        cands.append((it[0] == "param", mid, env))
        if not cands:
            return None
        cands.sort(key=lambda x: x[0])
        _, mid, env = cands[0]
        return self.P.bodies[mid], tuple(sorted(env.items()))

    def callfn(self, st, f, targs, vals, tys, dty, span):
        self.calls += 1
        if f["ctor"]:
            path, vi = f["ctor"][0], f["ctor"][1]
            return mk("adt", path, vi or 0, tuple(vals))
        fid = f["id"]
        res = f.get("res")
        stub = self.stubs.get(f["path"]) or (res and self.stubs.get(res["path"]))
        if stub:
            return stub(self, st, f, targs, vals, tys, dty)
        tr = f.get("trait")
        if tr:
            name = f["path"].rsplit("::", 1)[1]
            if "::<" in name:
                name = name.split("::<")[0]
            selfty = targs[0] if targs else ("other", None)
            r = self.trait_dispatch(st, f, tr, name, selfty, targs, vals, tys, dty)
            if r is not None:
                return r
            h = self.models.trait_model(tr, name)
            if h:
                return h(Ctx(self, st, f, targs, tys, dty, span, name), *vals)
            if res and res["k"] == "item" and res["local"] and res["id"] in self.P.bodies:
                return self.callbody(st, self.P.bodies[res["id"]], tuple(enumerate(self.ty(x) for x in res["args"])), vals)
            h = self.models.path_model(f["path"])
            if h:
                return h(Ctx(self, st, f, targs, tys, dty, span, name), *vals)
            return self.extern(st, f, targs, vals, tys, dty)
        if fid in self.P.bodies:
            b = self.P.bodies[fid]
            return self.callbody(st, b, tuple(enumerate(targs)), vals)
        if res and res["id"] in self.P.bodies:
            return self.callbody(st, self.P.bodies[res["id"]], tuple(enumerate(targs)), vals)
        h = self.models.path_model(f["path"])
        if h:
            name = f["path"].rsplit("::", 1)[1]
            return h(Ctx(self, st, f, targs, tys, dty, span, name), *vals)
        return self.extern(st, f, targs, vals, tys, dty)

    def trait_dispatch(self, st, f, tr, name, selfty, targs, vals, tys, dty):
        if selfty[0] in ("param", "other", "dyn"):
            # dynamic object whose concrete value is known
            if vals and selfty[0] == "dyn":
                v = vals[0]
                if v.op in ("ref", "bx"):
                    v = self.load(st, v)
                while v.op in ("ref", "bx"):
                    v = self.load(st, v)
                if v.op == "adt" and v.a[0] in self.P.adts:
                    im = self.find_impl(tr, ("adt", v.a[0], ()), name)
                    if im:
                        return self.callbody(st, im[0], im[1], vals)
            return None
        if self.models.prefers(tr, name, selfty):
            return None
        im = self.find_impl(tr, selfty, name)
        if im and not (im[0].get("derived") and self.models.trait_model(tr, name)):
            return self.callbody(st, im[0], im[1], vals)
        # provided (default) method of a local trait
        if f["id"] in self.P.bodies and selfty[0] in ("adt", "ref"):
            return self.callbody(st, self.P.bodies[f["id"]], tuple(enumerate(targs)), vals)
        return None

    def deepval(self, st, v, d=0):
        """value with references replaced by what they point to"""
        if d > 12:
            return v
        if v.op in ("ref", "bx"):
            return self.deepval(st, self.load(st, v), d + 1)
        if v.op in ("int", "bool", "sym", "flt", "bv"):
            return v
        if not free_in(v, lambda x: x.op in ("ref", "bx")):
            return v
        m = {}
        for x in subterms(v):
            if x.op in ("ref", "bx"):
                m[x] = self.deepval(st, self.load(st, x), d + 1)
        return subst(v, m)

    def extern(self, st, f, targs, vals, tys, dty):
        """unmodelled external function: uninterpreted result, mutable arguments havocked"""
        name = norm(f["path"])
        dv = tuple(self.deepval(st, v) for v in vals)
        for v, t in zip(vals, tys):
            if t[0] == "ref" and t[2]:
                try:
                    self.store(st, v, mk("opq", name + "#mut", dv, fresh("o"), None))
                except Undet:
                    pass
        if dty[0] == "never":
            self.panic(st, "diverge:" + name)
        self.note_opaque("extern " + name)
        return mk("opq", name, dv, self.tyname(dty))


class _FN:
    """hashable wrapper for a fn description"""
    __slots__ = ("f", "k")

    def __init__(self, f):
        self.f = f
        self.k = f["id"] + "|" + ",".join(map(str, f["args"]))

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return isinstance(o, _FN) and self.k == o.k

    def __repr__(self):
        return self.f["path"]


class Ctx:
    __slots__ = ("e", "st", "f", "targs", "tys", "dty", "span", "name")

    def __init__(self, e, st, f, targs, tys, dty, span, name):
        self.e, self.st, self.f, self.targs, self.tys, self.dty, self.span, self.name = e, st, f, targs, tys, dty, span, name


NORM = {}


def norm(path):
    """strip generic arguments: Vec::<T, A>::push -> Vec::push, <impl [T]>::len -> [T]::len"""
    r = NORM.get(path)
    if r is not None:
        return r
    out, i, n = [], 0, len(path)
    while i < n:
        if path.startswith("::<", i):
            d, j = 0, i + 2
            while j < n:
                if path[j] == "<":
                    d += 1
                elif path[j] == ">" and path[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            if j < n:
                i = j + 1
                continue
        out.append(path[i])
        i += 1
    r = NORM[path] = "".join(out)
    return r


def unify(pat, t, env):
    if pat[0] == "param":
        if pat[1] in env:
            return env[pat[1]] == t
        env[pat[1]] = t
        return True
    if pat[0] != t[0]:
        return False
    if pat[0] == "adt":
        if pat[1] != t[1]:
            return False
        if not t[2] or not pat[2]:
            return True
        return len(pat[2]) == len(t[2]) and all(unify(a, b, env) for a, b in zip(pat[2], t[2]))
    if pat[0] in ("ref", "ptr", "slice"):
        return unify(pat[1], t[1], env)
    if pat[0] == "array":
        return unify(pat[1], t[1], env)
    if pat[0] == "tuple":
        return len(pat[1]) == len(t[1]) and all(unify(a, b, env) for a, b in zip(pat[1], t[1]))
    if pat[0] == "dyn":
        return True
    return pat == t


def gcases(t, c=TRUE, depth=0):
    """(guard, leaf) cases of a gated value"""
    if t.op == "ite" and depth < 400:
        yield from gcases(t.a[1], tand(c, t.a[0]), depth + 1)
        yield from gcases(t.a[2], tand(c, tnot(t.a[0])), depth + 1)
    else:
        yield c, t


# ---------------- binders
def _bind(k, *ts):
    lv = 1 + max([bvlevel(t) for t in ts] + [0])
    bv = mk("bv", lv)
    return (lv,) + tuple(subst(t, {k: bv}) for t in ts)


def _monolast(N, k, c):
    """exists k<N with c monotone in k (c = p(k) < 0, coefficient of k negative): decided at N-1"""
    if c.op == "lt0" and N is not None:
        d = _p(c.a[0])
        ck = d.get((k,), 0)
        rest = _up({m: x for m, x in d.items() if m != (k,)})
        if not free_in(rest, lambda x: x is k):
            if ck < 0:
                return tand(lt(I(0), N), subst(c, {k: sub(N, I(1))}))
            if ck > 0:
                return tand(lt(I(0), N), subst(c, {k: I(0)}))
    return None


def mkexists(N, k, c):
    if c is FALSE:
        return FALSE
    if not free_in(c, lambda x: x is k):
        return tand(lt(I(0), N), c)
    r = _monolast(N, k, c)
    if r is not None:
        return r
    lv, b = _bind(k, c)
    return exists0(N, lv, b)


def mkfirst(N, k, c):
    if c is FALSE and N is not None:
        return N
    if not free_in(c, lambda x: x is k):
        return I(0)
    lv, b = _bind(k, c)
    return mk("firstk", N if N is not None else I(-1), lv, b)


def mk_psum(k, d):
    i = fresh("j", "usize")
    lv, b = _bind(i, subst(d, {k: i}))
    return mk("psum", k, lv, b)


def mk_scat(k, s):
    """concatenation of s(0..k)"""
    i = fresh("j", "usize")
    s = subst(s, {k: i})
    n = slen(s)
    if n.op == "int" and n.a[0] == 1:
        return smap(k, i, sidx(s, I(0)))
    if s.op == "sub" and not free_in(s.a[0], lambda x: x is i) and not free_in(n, lambda x: x is i):
        if sub(subst(s.a[1], {i: add(i, I(1))}), s.a[1]) is n:
            return ssub(s.a[0], subst(s.a[1], {i: I(0)}), mul(n, k))
    if n.op == "int" and n.a[0] > 0 and s.op == "seq":
        m = n.a[0]
        j = fresh("j", "usize")
        e = s.a[0][m - 1]
        e = subst(e, {i: div(j, I(m))})
        for q in range(m - 2, -1, -1):
            e = ite(eq(rem(j, I(m)), I(q)), subst(s.a[0][q], {i: div(j, I(m))}), e)
        return smap(mul(I(m), k), j, e)
    lv, b = _bind(i, s)
    return scat0(k, lv, b)


def scat0(k, lv, b):
    if k.op == "int" and k.a[0] <= 32:
        return cat(*[subst(b, {mk("bv", lv): I(j)}) for j in range(k.a[0])])
    return mk("scat", k, lv, b)


def mk_mbuild(init, k, c, key, val):
    i = fresh("j", "usize")
    m = {k: i}
    lv, c2, k2, v2 = _bind(i, subst(c, m), subst(key, m), subst(val, m))
    return mk("mbuild", init, k, lv, c2, k2, v2)


def mk_last(init, k, cases):
    """value of the last iteration j<k whose guard holds, else init"""
    cc, vv = FALSE, None
    for c, v in reversed(cases):
        vv = v if vv is None else ite(c, v, vv)
        cc = tor(c, cc)
    i = fresh("j", "usize")
    lv, c2, v2 = _bind(i, subst(cc, {k: i}), subst(vv, {k: i}))
    return last0(init, k, lv, c2, v2)


def last0(init, k, lv, c, v):
    if c is FALSE:
        return init
    bv = mk("bv", lv)
    # unique-key iteration over a map: guard pins the key -> lookup
    M = None
    for x in subterms(c):
        if x.op == "mkey" and x.a[1] is bv:
            M = x.a[0]
            break
    if M is not None and k is mk("mcount", M):
        key = mk("mkey", M, bv)
        K = pinned(c, key)
        if K is not None:
            m = {key: K, mk("mval", M, bv): mget(M, K)}
            v2, c2 = subst(v, m), subst(c, m)
            if not free_in(v2, lambda x: x is bv) and not free_in(c2, lambda x: x is bv):
                return ite(tand(mhas(M, K), c2), v2, init)
    return mk("last", init, k, lv, c, v)


def pinned(c, key):
    """constant K such that guard c implies key == K"""
    lits = []

    def conj(t):
        if t.op == "ite" and t.a[2] is FALSE:
            conj(t.a[0])
            conj(t.a[1])
        elif t.op == "ite" and t.a[1] is FALSE:
            conj(t.a[2])
        else:
            lits.append(t)

    conj(c)
    d = None
    payload = {}
    for l in lits:
        if l.op == "eq0":
            p = _p(l.a[0])
            cst = p.pop((), 0)
            if len(p) == 1:
                (mono, cf), = p.items()
                if len(mono) == 1 and cf in (1, -1):
                    x = mono[0]
                    val = -cst * cf
                    if x.op == "disc" and x.a[0] is key:
                        d = val
                    elif x.op == "vf" and x.a[0] is key:
                        payload[(x.a[1], x.a[2])] = val
        elif l.op == "eq" and key in l.a:
            o = l.a[0] if l.a[1] is key else l.a[1]
            if o.op == "adt":
                return o
    ty = tyof(key)
    if d is None or not ty or not ty.startswith("adt:"):
        return None
    return keyconst(ty[4:], d, payload)


ADTS = {}


def keyconst(path, d, payload):
    a = ADTS.get(path)
    if a is None:
        return None
    for i, v in enumerate(a["v"]):
        if (int(v["d"]) if v["d"] is not None else i) == d:
            fs = []
            for j in range(len(v["f"])):
                if (i, j) not in payload:
                    return None
                fs.append(I(payload[(i, j)]))
            return mk("adt", path, i, tuple(fs))
    return None


# ---------------- maps
def mhas(m, q):
    if m.op == "map0":
        return FALSE
    if m.op == "minsert":
        return tor(eq(m.a[1], q), mhas(m.a[0], q))
    if m.op == "mremove":
        return tand(tnot(eq(m.a[1], q)), mhas(m.a[0], q))
    if m.op == "ite":
        return ite(m.a[0], mhas(m.a[1], q), mhas(m.a[2], q))
    t = mk("mhas", m, q)
    return seqs.OVERRIDE.get(t, t)


def mget(m, q):
    if m.op == "minsert":
        return ite(eq(m.a[1], q), m.a[2], mget(m.a[0], q))
    if m.op == "mremove":
        return mget(m.a[0], q)
    if m.op == "ite":
        return ite(m.a[0], mget(m.a[1], q), mget(m.a[2], q))
    t = mk("mget", m, q, mapty(m)[1])
    return seqs.OVERRIDE.get(t, t)


def mapty(m):
    t = tyof(m)
    if t and t.startswith("map:"):
        return t[4:].split(",", 1)
    return (None, None)


def mk_bmap(base, m, c0, k, vals):
    i = fresh("j", "usize")
    lv, v2 = _bind(i, subst(vals, {k: i}))
    return bmap0(base, m, c0, k, lv, v2)


def bmap0(base, m, c0, n, lv, elems):
    """base with blocks [c0+m*j, +len) replaced by elems(j) for j<n"""
    bv = mk("bv", lv)
    # identity map
    ident = True
    L = slen(elems)
    if elems.op == "seq":
        for q, e in enumerate(elems.a[0]):
            if e is not sidx(base, add(c0, mul(m, bv), I(q))):
                ident = False
                break
        if ident:
            return base
    return mk("bmap", base, m, c0, n, lv, elems)


def _srcof(x):
    if x.op in ("idx", "sub", "len"):
        return x.a[0]
    if x.op == "rd":
        return x.a[2]
    return None


def _rebase(x, init):
    if x.op == "idx":
        return sidx(init, x.a[1])
    if x.op == "sub":
        return ssub(init, x.a[1], x.a[2])
    if x.op == "len":
        return slen(init)
    return rd(x.a[0], x.a[1], init, x.a[3])


def exists0(N, lv, b):
    if b is FALSE or N is I(0):
        return FALSE
    if N.op == "int" and 0 < N.a[0] <= 3:
        r = FALSE
        for k in range(N.a[0]):
            r = tor(r, subst(b, {mk("bv", lv): I(k)}))
        return r
    return mk("exists", N, lv, b)


REBUILD.update({"mhas": mhas, "mget": lambda m, q, t=None: mget(m, q), "last": last0, "bmap": bmap0,
                "exists": exists0, "scat": scat0})


# ---------------- floats & bits
def itof(v, ty):
    if v.op == "int":
        return F(float(v.a[0]))
    return mk("itof", ty, v)


def ftoi(v, ty):
    if v.op == "flt":
        x = fval(v)
        if x != x:
            return I(0)
        lo, hi = INTS[ty]
        return I(max(lo, min(hi, int(x)))) if abs(x) != float("inf") else I(hi if x > 0 else lo)
    if v.op == "ite":
        return ite(v.a[0], ftoi(v.a[1], ty), ftoi(v.a[2], ty))
    if v.op == "itof" and fits(v.a[1], ty) and rng(v.a[1])[1] <= 2 ** 53 and v.a[0] == "f64":
        return v.a[1]
    if v.op == "ceil" and v.a[0].op == "fdiv":
        a, b = v.a[0].a
        a = _fint(a)
        b = _fint(b)
        if a is not None and b is not None:
            # exact for operands below 2^32 (quotient needs at most 32 significant bits beyond the point)
            return ite(eq(b, I(0)), mk("ftoi", ty, v), divceil(a, b))
    if v.op == "floor" and v.a[0].op == "fdiv":
        a, b = _fint(v.a[0].a[0]), _fint(v.a[0].a[1])
        if a is not None and b is not None:
            return ite(eq(b, I(0)), mk("ftoi", ty, v), div(a, b))
    return mk("ftoi", ty, v)


def _fint(x):
    if x.op == "itof" and x.a[0] == "f64" and rng(x.a[1])[0] >= 0 and rng(x.a[1])[1] < 2 ** 32:
        return x.a[1]
    if x.op == "flt" and fval(x) == int(fval(x)) and 0 <= fval(x) < 2 ** 32:
        return I(int(fval(x)))
    return None


def mkfld(v, i, ty=None):
    o = v.op
    if o == "adt" and i < len(v.a[2]):
        return v.a[2][i]
    if o == "tup" and i < len(v.a[0]):
        return v.a[0][i]
    if o == "ite":
        return ite(v.a[0], mkfld(v.a[1], i, ty), mkfld(v.a[2], i, ty))
    t = mk("fld", v, i, ty)
    return seqs.OVERRIDE.get(t, t)


REBUILD["fld"] = mkfld


def divceil(a, b):
    return div(add(a, b, I(-1)), b)


def fop(n, a, b):
    if a.op == "flt" and b.op == "flt":
        x, y = fval(a), fval(b)
        try:
            r = {"fadd": x + y, "fsub": x - y, "fmul": x * y}.get(n)
            if n == "fdiv":
                r = x / y
            if r is not None:
                return F(r)
        except ZeroDivisionError:
            pass
    if n in ("fadd", "fmul") and b.id < a.id:
        a, b = b, a
    return mk(n, a, b)


def bitop(op, a, b, ty):
    op = op.replace("Unchecked", "")
    if a.op == "int" and b.op == "int":
        x, y = a.a[0], b.a[0]
        if op == "BitAnd":
            return I(x & y)
        if op == "BitOr":
            return I(x | y)
        if op == "BitXor":
            return I(x ^ y)
        if op == "Shl":
            return I(wrapint(x << (y % (8 * WIDTH[ty])), ty))
        if op == "Shr":
            return I(x >> (y % (8 * WIDTH[ty])))
    if op == "Shl" and b.op == "int":
        return trunc(mul(a, I(1 << b.a[0])), ty)
    if op == "Shr" and b.op == "int" and rng(a)[0] >= 0:
        return div(a, I(1 << b.a[0]))
    if op == "BitAnd":
        if a.op == "int":
            a, b = b, a
        if b.op == "int" and b.a[0] >= 0 and (b.a[0] + 1) & b.a[0] == 0 and rng(a)[0] >= 0:
            return rem(a, I(b.a[0] + 1))
        if b.op == "int" and b.a[0] > 0 and b.a[0] & (b.a[0] - 1) == 0 and rng(a)[0] >= 0:
            return mul(b, rem(div(a, b), I(2)))
    if op in ("BitAnd", "BitOr", "BitXor") and b.id < a.id:
        a, b = b, a
    return mk({"BitAnd": "band", "BitOr": "bor", "BitXor": "bxor", "Shl": "shl", "Shr": "shr"}.get(op, op), *( (a, b, ty) if op == "Shl" else (a, b)))


REBUILD.update({"ftoi": lambda ty, v: ftoi(v, ty), "itof": lambda ty, v: itof(v, ty),
                "fadd": lambda a, b: fop("fadd", a, b), "fmul": lambda a, b: fop("fmul", a, b),
                "fdiv": lambda a, b: fop("fdiv", a, b), "fsub": lambda a, b: fop("fsub", a, b)})
