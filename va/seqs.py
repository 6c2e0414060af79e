"""Sequence algebra on top of term.py (vectors, slices, byte buffers, the file)."""
from term import *

FILE = sym("FILE", "seq:u8")
OVERRIDE = {}  # partitioning: forces chosen value-graph leaves to constants


def bvlevel(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = 0
        st = [t]
        seen = set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "bv":
                r = max(r, x.a[0])
            else:
                from term import _push
                _push(x.a, st)
        memo[t] = r
    return r


def smap(n, ivar, body):
    """sequence of length n whose i-th element is body[ivar := i]"""
    if n.op == "int" and n.a[0] <= 64:
        return seq([subst(body, {ivar: I(i)}) for i in range(max(0, n.a[0]))])
    lv = bvlevel(body) + 1
    bv = mk("bv", lv)
    b = subst(body, {ivar: bv})
    return smap0(n, lv, b)


def smap0(n, lv, b):
    if n.op == "int" and n.a[0] <= 64:
        bv = mk("bv", lv)
        return seq([subst(b, {bv: I(i)}) for i in range(max(0, n.a[0]))])
    # eta: map i -> s[i+c] over n  == sub(s, c, n)
    bv = mk("bv", lv)
    if b.op in ("idx",) or (b.op == "rd" and b.a[0] == "u8"):
        s, off = (b.a[0], b.a[1]) if b.op == "idx" else (b.a[2], b.a[3])
        c = sub(off, bv)
        if not free_in(c, lambda x: x is bv) and not free_in(s, lambda x: x is bv):
            return ssub(s, c, n)
    return mk("smap", n, lv, b)


def seq(xs):
    return mk("seq", tuple(xs))


def srep(n, v):
    return smap(n, fresh("i", "usize"), v)


def slen(s):
    o = s.op
    if o == "seq":
        return I(len(s.a[0]))
    if o == "str":
        return I(len(s.a[0]))
    if o in ("smap", "scan"):
        return s.a[0]
    if o in ("bmap", "splice"):
        return slen(s.a[0])
    if o == "rec" and s.a[0] < len(s.a[2]) and _samelen(s):
        return slen(s.a[2][s.a[0]])
    if o == "sub":
        return s.a[2]
    if o == "mseq":
        return mk("mcount", s.a[0])
    if o == "cat":
        return add(*[slen(x) for x in s.a[0]])
    if o == "ite":
        return ite(s.a[0], slen(s.a[1]), slen(s.a[2]))
    if o == "cast":
        return s.a[0] if False else mk("len", s)
    t = mk("len", s)
    return OVERRIDE.get(t, t)


def cat(*ss):
    out = []
    for s in ss:
        if s.op == "cat":
            out.extend(s.a[0])
        else:
            out.append(s)
    res = []
    for s in out:
        if s.op == "str":
            s = seq([I(b) for b in s.a[0]])
        if s.op == "seq" and not s.a[0]:
            continue
        if res and res[-1].op == "seq" and s.op == "seq":
            res[-1] = seq(res[-1].a[0] + s.a[0])
        elif res and res[-1].op == "sub" and s.op == "sub" and res[-1].a[0] is s.a[0] and add(res[-1].a[1], res[-1].a[2]) is s.a[1]:
            p = res[-1]
            res[-1] = ssub(p.a[0], p.a[1], add(p.a[2], s.a[2]))
        else:
            res.append(s)
    if not res:
        return seq([])
    if len(res) == 1:
        return res[0]
    return mk("cat", tuple(res))


def sidx(s, i):
    o = s.op
    if o == "seq":
        if i.op == "int":
            if 0 <= i.a[0] < len(s.a[0]):
                return s.a[0][i.a[0]]
            return mk("oob", s, i)
        if i.op == "ite":
            return ite(i.a[0], sidx(s, i.a[1]), sidx(s, i.a[2]))
    if o == "str" and i.op == "int":
        return I(s.a[0][i.a[0]])
    if o == "smap":
        return subst(s.a[2], {mk("bv", s.a[1]): i})
    if o == "sub":
        return sidx(s.a[0], add(s.a[1], i))
    if o == "ite":
        return ite(s.a[0], sidx(s.a[1], i), sidx(s.a[2], i))
    if o == "cat":
        pos = I(0)
        for part in s.a[0]:
            l = slen(part)
            c = lt(i, add(pos, l))
            if c is TRUE:
                return sidx(part, sub(i, pos))
            if c is FALSE:
                pos = add(pos, l)
                continue
            break
    if o == "bmap":
        # (base, m, c0, n, lv, elems): block k (k<n) of size m at c0+m*k replaced by elems[bv:=k]
        base, m, c0, n, lv, elems = s.a
        if m.op == "int":
            d = sub(i, c0)
            j = rem(d, m)
            k = div(d, m)
            L = slen(elems)
            if j.op == "int" and lt0(d) is FALSE:
                if L.op == "int" and j.a[0] >= L.a[0]:
                    return sidx(base, i)
                v = subst(sidx(elems, j), {mk("bv", lv): k})
                return ite(lt(k, n), v, sidx(base, i))
    if o == "mseq":
        return mk("tup", (mk("mkey", s.a[0], i), mk("mval", s.a[0], i)))
    if o == "splice":
        base, st, vals = s.a
        n = slen(vals)
        d = sub(i, st)
        below, above = lt0(d), le(n, d)
        if below is TRUE or above is TRUE:
            return sidx(base, i)
        if below is FALSE and above is FALSE:
            return sidx(vals, d)
        return ite(below, sidx(base, i), ite(above, sidx(base, i), sidx(vals, d)))
    if s is FILE:
        return rd("u8", False, FILE, i)
    t = mk("idx", s, i)
    return OVERRIDE.get(t, t)


def ssub(s, start, n):
    if s.op == "sub":
        return ssub(s.a[0], add(s.a[1], start), n)
    if start is I(0) and n is slen(s):
        return s
    if n.op == "int" and n.a[0] == 0:
        return seq([])
    if s.op == "seq" and start.op == "int" and n.op == "int":
        return seq(s.a[0][start.a[0]:start.a[0] + n.a[0]])
    if s.op == "str" and start.op == "int" and n.op == "int":
        return mk("str", s.a[0][start.a[0]:start.a[0] + n.a[0]])
    if s.op == "smap":
        bv = mk("bv", s.a[1])
        return smap0(n, s.a[1], subst(s.a[2], {bv: add(bv, start)}))
    if s.op == "ite":
        return ite(s.a[0], ssub(s.a[1], start, n), ssub(s.a[2], start, n))
    if n.op == "int" and n.a[0] <= 16 and s.op not in ("sym",) and s is not FILE and s.op in ("cat", "bmap"):
        return seq([sidx(s, add(start, I(j))) for j in range(n.a[0])])
    return mk("sub", s, start, n)


def _samelen(s):
    """rec whose body keeps the length of component i: splice(self, ..)"""
    i, k, inits, lv, bodies = s.a
    me = mk("bvr", lv, i)
    b = bodies[i]
    while b.op in ("splice", "bmap"):
        b = b.a[0]
    if b.op == "ite":
        for x in (b.a[1], b.a[2]):
            while x.op in ("splice", "bmap"):
                x = x.a[0]
            if x is not me:
                return False
        return True
    return b is me


def splice(base, start, vals):
    """base with vals written at start"""
    n = slen(vals)
    if n.op == "int" and n.a[0] == 0:
        return base
    if start is I(0) and slen(base) is n:
        return vals
    if base.op == "ite":
        return ite(base.a[0], splice(base.a[1], start, vals), splice(base.a[2], start, vals))
    if base.op == "seq" and start.op == "int" and vals.op == "seq" and start.a[0] >= 0 and start.a[0] + len(vals.a[0]) <= len(base.a[0]):
        xs = list(base.a[0])
        xs[start.a[0]:start.a[0] + len(vals.a[0])] = vals.a[0]
        return seq(xs)
    if vals.op == "sub" and vals.a[0] is base and vals.a[1] is start:
        return base
    if base.op in ("smap", "cat") and start.op == "int" and vals.op == "seq":
        m = slen(base)
        if m.op == "int" and 0 <= start.a[0] and start.a[0] + len(vals.a[0]) <= m.a[0] <= 2048:
            return splice(seq([sidx(base, I(k)) for k in range(m.a[0])]), start, vals)
    return mk("splice", base, start, vals)


def rd(ty, be, s, off):
    """number of machine type ty decoded from bytes s[off..], be=True for big-endian"""
    if isinstance(be, T):
        return ite(be, rd(ty, True, s, off), rd(ty, False, s, off))
    w = WIDTH[ty]
    if s.op == "sub":
        return rd(ty, be, s.a[0], add(s.a[1], off))
    if s.op == "ite":
        return ite(s.a[0], rd(ty, be, s.a[1], off), rd(ty, be, s.a[2], off))
    if w == 1:
        be = False
    if s is FILE or s.op in ("sym", "call", "res", "fld", "vf", "idx", "opq", "bvr", "rec"):
        if w == 1 and ty == "u8" and s is not FILE:
            return sidx(s, off)
        t = mk("rd", ty, be, s, off)
        return OVERRIDE.get(t, t)
    return frombytes(ty, be, [sidx(s, add(off, I(j))) for j in range(w)])


def frombytes(ty, be, elems):
    elems = list(elems)
    w = WIDTH[ty]
    if len(elems) != w:
        return mk("frombytes", ty, tuple(elems))
    if be:
        elems = elems[::-1]
    # elems now little-endian order
    if all(e.op == "int" for e in elems):
        n = int.from_bytes(bytes(e.a[0] & 255 for e in elems), "little")
        if ty in INTS:
            return I(wrapint(n, ty))
        import struct
        b = n.to_bytes(w, "little")
        return F(struct.unpack("<f" if ty == "f32" else "<d", b)[0])
    if w == 1:
        if ty == "u8":
            return elems[0]
        return mk("trunc", ty, elems[0])
    if all(e.op == "byteof" for e in elems):
        x = elems[0].a[1]
        if all(e.a[1] is x and e.a[2] == i and e.a[0] == ty for i, e in enumerate(elems)):
            return x
    # consecutive reads of one buffer
    def src(e):
        if e.op == "idx":
            return e.a[0], e.a[1]
        if e.op == "rd" and e.a[0] == "u8":
            return e.a[2], e.a[3]
        return None
    ss = [src(e) for e in elems]
    if all(ss):
        b0, o0 = ss[0]
        if all(b is b0 and sub(o, o0) is I(i) for i, (b, o) in enumerate(ss)):
            t = mk("rd", ty, False, b0, o0)
            return OVERRIDE.get(t, t)
        if all(b is b0 and sub(o0, o) is I(i) for i, (b, o) in enumerate(ss)):
            t = mk("rd", ty, True, b0, ss[-1][1])
            return OVERRIDE.get(t, t)
    return mk("frombytes", ty, tuple(elems))


def tobytes(ty, be, x):
    w = WIDTH[ty]
    if x.op == "int":
        bs = [I(b) for b in (x.a[0] % (1 << (8 * w))).to_bytes(w, "little")]
    elif x.op == "frombytes" and x.a[0] == ty:
        bs = list(x.a[1])
    elif x.op == "rd" and x.a[0] == ty:
        _, rbe, s, off = x.a
        bs = [sidx(s, add(off, I(j))) for j in range(w)]
        if rbe:
            bs = bs[::-1]
    elif w == 1:
        bs = [trunc(x, "u8") if ty == "i8" else x]
    else:
        bs = [mk("byteof", ty, x, i) for i in range(w)]
    if be:
        bs = bs[::-1]
    return seq(bs)


def mkcall(nm, args, ty=None):
    """application of a library function; expands where the argument shape determines the result"""
    if nm in ("trim_matches", "trim_end_matches", "trim_start_matches") and len(args) == 2 and args[1].op == "int":
        s, ch = args
        n = slen(s)
        if n.op == "int" and n.a[0] <= 12:
            def end(xs):
                return ite(eq(xs[-1], ch), end(xs[:-1]), seq(xs)) if xs and nm != "trim_start_matches" else seq(xs)

            def start(xs):
                return ite(eq(xs[0], ch), start(xs[1:]), end(xs)) if xs and nm != "trim_end_matches" else end(xs)
            return start([sidx(s, I(i)) for i in range(n.a[0])])
    return mk("call", nm, args, ty)


REBUILD.update({
    "call": mkcall,
    "smap": smap0, "sub": ssub, "idx": sidx, "cat": lambda xs: cat(*xs), "len": slen,
    "rd": rd, "splice": splice, "frombytes": lambda ty, es: frombytes(ty, False, es),
})
