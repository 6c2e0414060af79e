"""Models of the external functions async-tiff calls (std, bytes, byteorder, tokio, codecs ...)."""
import re
from engine import *
from engine import _FN
import engine

PM, TM = {}, {}


def P(*names):
    def d(f):
        for n in names:
            PM[n] = f
        return f
    return d


def TR(trait, *names):
    def d(f):
        for n in names:
            TM[(trait, n)] = f
        return f
    return d


class Models:
    def trait_model(self, tr, name):
        return TM.get((norm(tr).rsplit("::", 1)[-1], name))

    def path_model(self, path):
        n = norm(path)
        segs = n.split("::")
        return PM.get("::".join(segs[-2:])) or PM.get(n)

    def prefers(self, tr, name, selfty):
        return False


MODELS = Models()


# ---------------------------------------------------------------- helpers
def isvar(c, v, k):
    return eq(c.e.disc(v), I(k))


def payload(c, v, k, i=0, ty=None):
    return c.e.proj(v, ("v", k, i, c.e.tyname(ty) if ty else None))


def ptype(t, i=0):
    """type argument i of an ADT type"""
    if t[0] in ("ref", "ptr"):
        return ptype(t[1], i)
    if t[0] == "adt" and len(t[2]) > i:
        return t[2][i]
    return None


def deref(c, v):
    n = 0
    while v.op in ("ref", "bx") and n < 8:
        v = c.e.load(c.st, v)
        n += 1
    return v


def sv(c, v):
    """sequence value behind any pointer chain"""
    v = deref(c, v)
    if v.op == "ite":
        return ite(v.a[0], sv(c, v.a[1]), sv(c, v.a[2]))
    if v.op == "guard":
        return sv(c, v.a[0])
    return v


def innermost(c, p):
    """pointer to the non-pointer value behind a chain of pointers"""
    n = 0
    while n < 8:
        if p.op == "ite":
            return ite(p.a[0], innermost(c, p.a[1]), innermost(c, p.a[2]))
        if p.op not in ("ref", "bx"):
            return mk("bx", p)
        v = c.e.load(c.st, p)
        if v.op == "guard":
            p = v.a[0]
        elif v.op in ("ref", "bx") or (v.op == "ite" and v.a[1].op in ("ref", "bx")):
            p = v
        else:
            return p
        n += 1
    return p


def unwrap_or_panic(c, v, k, ty, kind):
    c.e.check(c.st, isvar(c, v, k), kind, c.span)
    return c.st.pc.facts.simp(payload(c, v, k, 0, ty))


# ---------------------------------------------------------------- panics
@P("panicking::panic", "panicking::panic_fmt", "panicking::unreachable_default_msg", "panicking::assert_failed",
   "panicking::panic_nounwind", "panicking::panic_display", "panicking::panic_explicit", "panicking::unreachable_display",
   "option::expect_failed", "panicking::panic_str_2015", "rt::begin_panic", "rt::panic_fmt", "panicking::panic_const_div_by_zero")
def m_panic(c, *a):
    c.e.panic(c.st, "panic", c.span)


# ---------------------------------------------------------------- fmt: text of messages is not modelled
@P("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex", "Argument::new_upper_hex", "Arguments::new", "Arguments::new_v1",
   "Arguments::new_const", "Arguments::from_str", "Arguments::from_str_nonconst", "rt::Argument::new_display")
def m_fmt(c, *a):
    return mk("call", "fmtarg", tuple(c.e.deepval(c.st, x) for x in a), None)


def render(t):
    """the text of a format_args template whose pieces are all plain"""
    if t.op != "call" or t.a[0] != "fmtarg" or len(t.a[1]) != 2 or t.a[1][0].op != "seq" or t.a[1][1].op != "seq":
        return None
    code = [x.a[0] if x.op == "int" else None for x in t.a[1][0].a[0]]
    args = list(t.a[1][1].a[0])
    out = []
    i = 0
    while i < len(code):
        k = code[i]
        i += 1
        if k == 0 and i == len(code):
            return None if args else cat(*out)
        if k is None or k == 0 or 128 <= k < 192 or k > 192:
            return None
        if k == 192:
            if not args or args[0].op != "call" or args[0].a[0] != "fmtarg" or len(args[0].a[1]) != 1:
                return None
            out.append(mk("call", "show", (args.pop(0).a[1][0],), "seq:u8"))
        else:
            out.append(seq([I(x) for x in code[i:i + k]]))
            i += k
    return None


@P("fmt::format")
def m_format(c, *a):
    if len(a) == 1:
        v = render(c.e.deepval(c.st, a[0]))
        if v is not None:
            return v
    return mk("call", "format", tuple(c.e.deepval(c.st, x) for x in a), "seq:u8")


@P("hint::must_use", "convert::identity", "hint::black_box", "intrinsics::black_box")
def m_id(c, v):
    return v


# ---------------------------------------------------------------- pointers
@P("Box::new", "Arc::new", "Rc::new", "Box::pin")
def m_box(c, v):
    return c.e.alloc(c.st, v)


@P("Pin::new_unchecked", "Pin::new", "Pin::as_mut", "Pin::get_mut", "Box::into_pin", "Pin::into_inner", "Box::leak", "Pin::get_unchecked_mut")
def m_pin(c, v):
    if c.name in ("as_mut",):
        x = c.e.load(c.st, v)
        return x if x.op in ("ref", "bx") else v
    return v


@P("Box::new_uninit")
def m_uninit(c):
    return c.e.alloc(c.st, UNDEF)


@P("boxed::box_assume_init_into_vec_unsafe", "slice::into_vec")
def m_boxvec(c, v):
    x = deref(c, v)
    if x.op == "opq":
        raise Undet("vec! lowering")
    while x.op == "updf" or x.op == "adt" and len(x.a[2]) == 1:
        x = x.a[2] if x.op == "updf" else x.a[2][0]
    return x


@TR("Deref", "deref")
@TR("DerefMut", "deref_mut")
def m_deref(c, p):
    v = c.e.load(c.st, p)
    if v.op == "guard":
        return v.a[0]
    if v.op in ("ref", "bx"):
        return v
    if v.op == "ite" and v.a[1].op in ("ref", "bx", "guard"):
        f = lambda x: x.a[0] if x.op == "guard" else x
        return ite(v.a[0], f(v.a[1]), f(v.a[2]))
    return p


@TR("AsRef", "as_ref")
@TR("AsMut", "as_mut")
@TR("Borrow", "borrow")
@TR("BorrowMut", "borrow_mut")
def m_asref(c, p):
    return innermost(c, p)


@P("Arc::as_ref", "Box::as_ref", "Vec::as_slice", "Vec::as_mut_slice", "String::as_str", "String::as_bytes", "str::as_bytes", "slice::as_ref", "Bytes::as_ref",
   "Vec::as_ref", "String::as_mut_str", "BytesMut::as_ref", "BytesMut::as_mut", "array::as_slice", "String::into_bytes", "Vec::into_boxed_slice",
   "BytesMut::freeze", "Vec::into_iter_sorted", "slice::as_mut", "String::into_boxed_str", "Vec::leak")
def m_asptr(c, p):
    if c.name in ("into_bytes", "freeze"):
        return p
    if c.name == "into_boxed_slice":
        return c.e.alloc(c.st, p)
    return innermost(c, p)


@P("Arc::clone", "Rc::clone")
def m_arcclone(c, p):
    return c.e.load(c.st, p)


@TR("Clone", "clone")
@TR("ToOwned", "to_owned")
def m_clone(c, p):
    v = c.e.load(c.st, p)
    n = 0
    st = c.targs[0] if c.targs else None
    if st and (st[0] == "adt" and st[1] == "std::boxed::Box"):
        return c.e.alloc(c.st, c.e.load(c.st, v)) if v.op == "ref" else v
    if c.name == "to_owned":
        return sv(c, p)
    return v


@P("mem::take")
def m_take(c, p):
    v = c.e.load(c.st, p)
    t = c.targs[0]
    c.e.store(c.st, p, default_of(c, t))
    return v


@P("mem::replace")
def m_replace(c, p, n):
    v = c.e.load(c.st, p)
    c.e.store(c.st, p, n)
    return v


@P("mem::swap")
def m_swap(c, a, b):
    x, y = c.e.load(c.st, a), c.e.load(c.st, b)
    c.e.store(c.st, a, y)
    c.e.store(c.st, b, x)
    return UNIT


@P("mem::drop")
def m_drop(c, v):
    c.e.dropval(c.st, v)
    return UNIT


@P("mem::size_of")
def m_sizeof(c):
    n = c.e.tyname(c.targs[0])
    return I(WIDTH[n]) if n in WIDTH else mk("opq", "size_of", n, "usize")


def default_of(c, t):
    k = t[0]
    if k == "int":
        return I(0)
    if k == "bool":
        return FALSE
    if k == "float":
        return F(0.0)
    if k == "adt":
        if t[1] in SEQS:
            return seq([])
        if t[1] == OPTION:
            return NONE
        if t[1] == "std::collections::HashMap":
            return mk("map0", c.e.tyname(t))
    return mk("opq", "default", repr(t), None)


@TR("Default", "default")
def m_default(c):
    return default_of(c, c.targs[0])


# ---------------------------------------------------------------- comparison
@TR("PartialEq", "eq")
def m_eq(c, a, b):
    return veq(c, a, b)


@TR("PartialEq", "ne")
def m_ne(c, a, b):
    return tnot(veq(c, a, b))


def veq(c, a, b):
    x, y = c.e.deepval(c.st, a), c.e.deepval(c.st, b)
    return vequal(c.e, x, y)


def vequal(e, x, y):
    if x is y:
        return TRUE
    if x.op == "ite":
        return ite(x.a[0], vequal(e, x.a[1], y), vequal(e, x.a[2], y))
    if y.op == "ite":
        return ite(y.a[0], vequal(e, x, y.a[1]), vequal(e, x, y.a[2]))
    if x.op == "adt" and y.op != "adt":
        x, y = y, x
    if y.op == "adt" and x.op != "adt":
        r = eq(e.disc(x), e.disc(y))
        a = e.P.adts.get(y.a[0])
        for i, f in enumerate(y.a[2]):
            tn = None
            if a:
                ft = a["v"][y.a[1]]["f"][i][1]
                if ft is not None:
                    tn = e.tyname(e.ty(ft))
            if tn is None:
                tn = "u16" if f.op == "int" else tyof(f)
            r = tand(r, vequal(e, e.proj(x, ("v", y.a[1], i, tn)), f))
        return r
    if x.op == "adt" and y.op == "adt":
        if x.a[1] != y.a[1]:
            return FALSE
        r = TRUE
        for p, q in zip(x.a[2], y.a[2]):
            r = tand(r, vequal(e, p, q))
        return r
    if x.op == "seq" or y.op == "seq":
        if x.op != "seq":
            x, y = y, x
        if y.op == "seq" and len(x.a[0]) != len(y.a[0]):
            return FALSE
        r = eq(slen(y), I(len(x.a[0])))
        for i, p in enumerate(x.a[0]):
            r = tand(r, vequal(e, p, sidx(y, I(i))))
        return r
    return eq(x, y)


@TR("PartialOrd", "lt")
@TR("PartialOrd", "le")
@TR("PartialOrd", "gt")
@TR("PartialOrd", "ge")
def m_ord(c, a, b):
    x, y = deref(c, a), deref(c, b)
    t = c.targs[0]
    while t[0] == "ref":
        t = t[1]
    return c.e.binop({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[c.name], x, y, t)


@TR("Ord", "max")
def m_max(c, a, b):
    return tmax(a, b)


@TR("Ord", "min")
def m_min(c, a, b):
    return tmin(a, b)


@P("cmp::min")
def m_min2(c, a, b):
    return tmin(a, b)


@P("cmp::max")
def m_max2(c, a, b):
    return tmax(a, b)


@TR("Ord", "clamp")
def m_clamp(c, a, lo, hi):
    return tmin(tmax(a, lo), hi)


@TR("Ord", "cmp")
@TR("PartialOrd", "partial_cmp")
def m_cmp(c, a, b):
    x, y = deref(c, a), deref(c, b)
    r = c.e.binop("Cmp", x, y, ("int", "i64"))
    return some(r) if c.name == "partial_cmp" else r


# arithmetic operator traits on references (&a + &b) etc.
@TR("Add", "add")
@TR("Sub", "sub")
@TR("Mul", "mul")
@TR("Div", "div")
@TR("Rem", "rem")
def m_arith(c, a, b):
    x, y = deref(c, a), deref(c, b)
    t = c.targs[0]
    while t[0] == "ref":
        t = t[1]
    op = c.name.capitalize()
    if t[0] == "float":
        return c.e.binop(op, x, y, t)
    if t[0] != "int":
        return c.e.opq("operator " + c.name, x, y)
    if op in ("Div", "Rem"):
        c.e.check(c.st, tnot(eq(y, I(0))), "div-by-zero", c.span)
        return c.e.binop(op, x, y, t)
    r = c.e.binop(op + "WithOverflow", x, y, t)
    c.e.check(c.st, tnot(r.a[0][1]), "Overflow", c.span)
    return r.a[0][0]


@TR("AddAssign", "add_assign")
@TR("SubAssign", "sub_assign")
def m_arithassign(c, a, b):
    x, y = deref(c, a), deref(c, b)
    t = c.targs[0]
    if t[0] != "int":
        return c.e.opq("operator " + c.name, x, y)
    r = c.e.binop(("Add" if c.name.startswith("add") else "Sub") + "WithOverflow", x, y, t)
    c.e.check(c.st, tnot(r.a[0][1]), "Overflow", c.span)
    c.e.store(c.st, a, r.a[0][0])
    return UNIT


@TR("Not", "not")
def m_not(c, a):
    return tnot(deref(c, a))


# ---------------------------------------------------------------- integers
def selfint(c):
    m = re.search(r"<impl ([a-z0-9]+)>", c.f["path"])
    return m.group(1)


def inr(x, ty):
    lo, hi = INTS[ty]
    return tand(le(I(lo), x), le(x, I(hi)))


@P("num::wrapping_add", "num::wrapping_sub", "num::wrapping_mul")
def m_wrap(c, a, b):
    f = {"wrapping_add": add, "wrapping_sub": sub, "wrapping_mul": mul}[c.name]
    return trunc(f(a, b), selfint(c))


@P("num::checked_add", "num::checked_sub", "num::checked_mul")
def m_checked(c, a, b):
    f = {"checked_add": add, "checked_sub": sub, "checked_mul": mul}[c.name]
    r = f(a, b)
    return ite(c.st.pc.facts.simp(inr(r, selfint(c))), some(r), NONE)


@P("num::overflowing_add", "num::overflowing_sub", "num::overflowing_mul")
def m_ovf(c, a, b):
    f = {"overflowing_add": add, "overflowing_sub": sub, "overflowing_mul": mul}[c.name]
    r = f(a, b)
    return mk("tup", (trunc(r, selfint(c)), tnot(inr(r, selfint(c)))))


@P("num::checked_div", "num::checked_rem")
def m_cdiv(c, a, b):
    return ite(eq(b, I(0)), NONE, some(div(a, b) if c.name == "checked_div" else rem(a, b)))


@P("num::checked_next_multiple_of", "num::next_multiple_of")
def m_nmul(c, a, b):
    r = mul(divceil(a, b), b)
    if c.name.startswith("checked"):
        return ite(eq(b, I(0)), NONE, some(r))
    c.e.check(c.st, tnot(eq(b, I(0))), "div-by-zero", c.span)
    return r


@P("num::saturating_sub", "num::saturating_add", "num::saturating_mul")
def m_sat(c, a, b):
    lo, hi = INTS[selfint(c)]
    if c.name == "saturating_sub":
        r = tmax(sub(a, b), I(lo))
        return r
    r = add(a, b) if c.name == "saturating_add" else mul(a, b)
    return tmin(r, I(hi))


@P("num::div_ceil")
def m_divceil(c, a, b):
    c.e.check(c.st, tnot(eq(b, I(0))), "div-by-zero", c.span)
    return divceil(a, b)


@P("num::abs_diff")
def m_absdiff(c, a, b):
    return ite(lt(a, b), sub(b, a), sub(a, b))


@P("num::is_multiple_of")
def m_mulof(c, a, b):
    return ite(eq(b, I(0)), eq(a, I(0)), eq(rem(a, b), I(0)))


@P("num::rem_euclid", "num::div_euclid")
def m_eucl(c, a, b):
    c.e.check(c.st, tnot(eq(b, I(0))), "div-by-zero", c.span)
    return rem(a, b) if c.name == "rem_euclid" else div(a, b)


@P("num::pow")
def m_pow(c, a, b):
    if b.op == "int" and b.a[0] < 64:
        r = I(1)
        for _ in range(b.a[0]):
            r = mul(r, a)
        return r
    return c.e.opq("pow", a, b)


@P("num::swap_bytes")
def m_swapb(c, a):
    t = selfint(c)
    b = tobytes(t, False, a)
    return frombytes(t, True, list(b.a[0]))


@P("num::to_le", "num::from_le")
def m_tole(c, a):
    return a


@P("num::to_be", "num::from_be")
def m_tobe(c, a):
    return m_swapb(c, a)


@P("num::min_value")
def m_minv(c):
    return I(INTS[selfint(c)][0])


@P("num::from_be_bytes", "num::from_le_bytes", "num::from_ne_bytes", "f32::from_be_bytes", "f32::from_le_bytes", "f32::from_ne_bytes",
   "f64::from_be_bytes", "f64::from_le_bytes", "f64::from_ne_bytes")
def m_frombytes(c, b):
    t = selfint(c)
    b = sv(c, b)
    return rd(t, "be" in c.name.split("_")[1], b, I(0)) if b.op != "seq" else frombytes(t, "be" == c.name.split("_")[1], list(b.a[0]))


@P("num::to_be_bytes", "num::to_le_bytes", "num::to_ne_bytes", "f32::to_be_bytes", "f32::to_le_bytes", "f32::to_ne_bytes",
   "f64::to_be_bytes", "f64::to_le_bytes", "f64::to_ne_bytes")
def m_tobytes(c, x):
    return tobytes(selfint(c), c.name.split("_")[1] == "be", x)


@P("f64::ceil", "f64::floor", "f64::round", "f64::trunc", "f32::ceil", "f32::floor", "f32::round", "f64::sqrt", "f64::abs")
def m_round(c, x):
    if x.op == "flt":
        import math
        v = fval(x)
        try:
            return F({"ceil": math.ceil, "floor": math.floor, "trunc": math.trunc, "round": lambda q: math.floor(q + 0.5) if q >= 0 else -math.floor(-q + 0.5), "abs": abs, "sqrt": math.sqrt}[c.name](v))
        except (OverflowError, ValueError):
            return x
    return mk(c.name, x)


@P("f64::max", "f64::min")
def m_fmax(c, a, b):
    return mk("f" + c.name, a, b)


@P("f32::from_bits", "f64::from_bits", "f32::to_bits", "f64::to_bits")
def m_bits(c, x):
    return mk(c.name, x)


# ---------------------------------------------------------------- conversions
def convert(c, v, src, dst):
    """From/Into"""
    e = c.e
    if src == dst:
        return v
    if dst[0] == "int":
        if src[0] == "int" or src[0] == "char":
            return v
        if src[0] == "bool":
            return b2i(v)
    if dst[0] == "float":
        if src[0] == "int":
            return itof(v, dst[1])
        if src[0] == "float":
            return v if v.op == "flt" else mk("ftof", src[1], dst[1], v)
        if src[0] == "bool":
            return itof(b2i(v), dst[1])
    if dst[0] == "char" and src[0] == "int":
        return v
    im = find_from(e, dst, src)
    if im:
        return e.callbody(c.st, im[0], im[1], [v])
    if dst[0] == "adt":
        if dst[1] in SEQS:
            return sv(c, v)
        if dst[1] in ("std::sync::Arc", "std::boxed::Box", "std::rc::Rc"):
            x = deref(c, v) if v.op in ("ref", "bx") else v
            return e.alloc(c.st, x)
        if dst[1] == OPTION:
            return some(v)
        return mk("call", "from:" + dst[1], (e.deepval(c.st, v),), e.tyname(dst))
    return e.opq("convert", v)


def find_from(e, dst, src):
    for im in e.P.impls:
        if norm(im["trait"]) != "std::convert::From":
            continue
        env = {}
        if unify(e.ty(im["self"]), dst, env) and len(im["targs"]) > 1 and unify(e.ty(im["targs"][1]), src, env):
            for n, mid in im["m"]:
                if mid in e.P.bodies:
                    return e.P.bodies[mid], tuple(sorted(env.items()))
    return None


@TR("Into", "into")
def m_into(c, v):
    return convert(c, v, c.targs[0], c.targs[1] if len(c.targs) > 1 else c.dty)


@TR("From", "from")
def m_from(c, v):
    return convert(c, v, c.targs[1] if len(c.targs) > 1 else c.tys[0], c.targs[0])


def tryconv(c, v, src, dst):
    if dst[0] == "int" and src[0] in ("int",):
        return ite(inr(v, dst[1]), ok(v), err(mk("adt", "std::num::TryFromIntError", 0, (UNIT,))))
    if dst[0] == "array" or (dst[0] == "ref" and dst[1][0] == "array"):
        n = dst[2] if dst[0] == "array" else dst[1][2]
        s = sv(c, v)
        if isinstance(n, int):
            good = eq(slen(s), I(n))
            val = seq([sidx(s, I(i)) for i in range(n)]) if n <= 16 else s
            if dst[0] == "ref":
                val = mk("bx", val)
            return ite(c.st.pc.facts.simp(good), ok(val), err(mk("adt", "std::array::TryFromSliceError", 0, (UNIT,))))
    if dst[0] == "adt":
        for im in c.e.P.impls:
            if norm(im["trait"]) == "std::convert::TryFrom":
                env = {}
                if unify(c.e.ty(im["self"]), dst, env) and unify(c.e.ty(im["targs"][1]), src, env):
                    for n, mid in im["m"]:
                        if mid in c.e.P.bodies:
                            return c.e.callbody(c.st, c.e.P.bodies[mid], tuple(sorted(env.items())), [v])
    return c.e.opq("try_from", v)


@TR("TryFrom", "try_from")
def m_tryfrom(c, v):
    return tryconv(c, v, c.targs[1], c.targs[0])


@TR("TryInto", "try_into")
def m_tryinto(c, v):
    return tryconv(c, v, c.targs[0], c.targs[1])


# ---------------------------------------------------------------- Try / ?
def rtypes(t):
    if t[0] == "adt" and t[1] == OPTION:
        return "o", t[2][0], None
    if t[0] == "adt" and t[1] == RESULT:
        return "r", t[2][0], t[2][1]
    return None, None, None


@TR("Try", "branch")
def m_branch(c, v):
    k, a, b = rtypes(c.targs[0])
    e = c.e
    if k == "r":
        g = c.st.pc.facts.simp(isvar(c, v, 0))
        good = mk("adt", CF, 0, (payload(c, v, 0, 0, a),))
        bad = mk("adt", CF, 1, (err(payload(c, v, 1, 0, b)),))
        return c.st.pc.facts.simp(ite(g, good, bad))
    if k == "o":
        g = c.st.pc.facts.simp(isvar(c, v, 1))
        return ite(g, mk("adt", CF, 0, (payload(c, v, 1, 0, a),)), mk("adt", CF, 1, (NONE,)))
    return e.opq("Try::branch", v)


@TR("Try", "from_output")
def m_fromout(c, v):
    k, a, b = rtypes(c.targs[0])
    return ok(v) if k == "r" else some(v) if k == "o" else c.e.opq("from_output")


@TR("FromResidual", "from_residual")
def m_resid(c, v):
    k, a, b = rtypes(c.targs[0])
    if k == "o":
        return NONE
    if k == "r":
        rt = c.targs[1] if len(c.targs) > 1 else c.tys[0]
        k2, a2, b2 = rtypes(rt)
        x = payload(c, v, 1, 0, b2)
        return err(convert(c, x, b2, b))
    return c.e.opq("from_residual", v)


# ---------------------------------------------------------------- Option / Result
@P("Option::is_some")
def m_issome(c, p):
    return isvar(c, deref(c, p), 1)


@P("Option::is_none")
def m_isnone(c, p):
    return isvar(c, deref(c, p), 0)


@P("Result::is_ok")
def m_isok(c, p):
    return isvar(c, deref(c, p), 0)


@P("Result::is_err")
def m_iserr(c, p):
    return isvar(c, deref(c, p), 1)


def T0(c):
    return c.targs[0] if c.targs else None


@P("Option::unwrap", "Option::expect")
def m_ounwrap(c, v, *m):
    return unwrap_or_panic(c, v, 1, T0(c), "Option::" + c.name)


@P("Result::unwrap", "Result::expect")
def m_runwrap(c, v, *m):
    return unwrap_or_panic(c, v, 0, T0(c), "Result::" + c.name)


@P("Result::unwrap_err", "Result::expect_err")
def m_runwrape(c, v, *m):
    return unwrap_or_panic(c, v, 1, c.targs[1], "Result::" + c.name)


@P("Option::unwrap_or")
def m_ouo(c, v, d):
    return ite(isvar(c, v, 1), payload(c, v, 1, 0, T0(c)), d)


@P("Result::unwrap_or")
def m_ruo(c, v, d):
    return ite(isvar(c, v, 0), payload(c, v, 0, 0, T0(c)), d)


@P("Option::unwrap_or_default", "Result::unwrap_or_default")
def m_uod(c, v):
    k = 1 if c.f["path"].startswith("std::option") else 0
    return ite(isvar(c, v, k), payload(c, v, k, 0, T0(c)), default_of(c, T0(c)))


def clo2(c, f, *a):
    return lambda s: c.e.callval(s, f, list(a))


def with_st(c, s):
    return Ctx(c.e, s, c.f, c.targs, c.tys, c.dty, c.span, c.name)


@P("Option::unwrap_or_else")
def m_ouoe(c, v, f):
    return c.e.branch(c.st, isvar(c, v, 1), lambda s: payload(c, v, 1, 0, T0(c)), clo2(c, f))


@P("Result::unwrap_or_else")
def m_ruoe(c, v, f):
    return c.e.branch(c.st, isvar(c, v, 0), lambda s: payload(c, v, 0, 0, T0(c)), clo2(c, f, payload(c, v, 1, 0, c.targs[1])))


@P("Option::map")
def m_omap(c, v, f):
    return c.e.branch(c.st, isvar(c, v, 1), lambda s: some(c.e.callval(s, f, [payload(c, v, 1, 0, T0(c))])), lambda s: NONE)


@P("Option::is_some_and")
def m_isa(c, v, f):
    return c.e.branch(c.st, isvar(c, v, 1), lambda s: c.e.callval(s, f, [payload(c, v, 1, 0, T0(c))]), lambda s: FALSE)


@P("Option::is_none_or")
def m_ino(c, v, f):
    return c.e.branch(c.st, isvar(c, v, 1), lambda s: c.e.callval(s, f, [payload(c, v, 1, 0, T0(c))]), lambda s: TRUE)


@P("Option::filter")
def m_ofilter(c, v, f):
    def g(s):
        p = payload(c, v, 1, 0, T0(c))
        return ite(c.e.callval(s, f, [mk("bx", p)]), some(p), NONE)
    return c.e.branch(c.st, isvar(c, v, 1), g, lambda s: NONE)


@P("Option::map_or")
def m_omapor(c, v, d, f):
    return c.e.branch(c.st, isvar(c, v, 1), lambda s: c.e.callval(s, f, [payload(c, v, 1, 0, T0(c))]), lambda s: d)


@P("Option::map_or_else")
def m_omapore(c, v, d, f):
    return c.e.branch(c.st, isvar(c, v, 1), lambda s: c.e.callval(s, f, [payload(c, v, 1, 0, T0(c))]), lambda s: c.e.callval(s, d, []))


@P("Option::and_then")
def m_oandthen(c, v, f):
    return c.e.branch(c.st, isvar(c, v, 1), lambda s: c.e.callval(s, f, [payload(c, v, 1, 0, T0(c))]), lambda s: NONE)


@P("Option::or")
def m_oor(c, v, w):
    return ite(isvar(c, v, 1), v, w)


@P("Option::and")
def m_oand(c, v, w):
    return ite(isvar(c, v, 1), w, NONE)


@P("Option::or_else")
def m_oorelse(c, v, f):
    return c.e.branch(c.st, isvar(c, v, 1), lambda s: v, clo2(c, f))


@P("Option::ok_or")
def m_okor(c, v, x):
    return ite(isvar(c, v, 1), ok(payload(c, v, 1, 0, T0(c))), err(x))


@P("Option::ok_or_else")
def m_okorelse(c, v, f):
    return c.e.branch(c.st, isvar(c, v, 1), lambda s: ok(payload(c, v, 1, 0, T0(c))), lambda s: err(c.e.callval(s, f, [])))


@P("Option::copied", "Option::cloned")
def m_ocopied(c, v):
    t = T0(c)
    p = payload(c, v, 1, 0, t)
    x = sv(c, p) if p.op in ("ref", "bx", "ite") else p
    return ite(isvar(c, v, 1), some(x), NONE)


@P("Option::take")
def m_otake(c, p):
    v = c.e.load(c.st, p)
    c.e.store(c.st, p, NONE)
    return v


@P("Option::replace")
def m_oreplace(c, p, x):
    v = c.e.load(c.st, p)
    c.e.store(c.st, p, some(x))
    return v


@P("Option::insert", "Option::get_or_insert")
def m_oinsert(c, p, x):
    if c.name == "insert":
        c.e.store(c.st, p, some(x))
    else:
        v = c.e.load(c.st, p)
        c.e.store(c.st, p, ite(isvar(c, v, 1), v, some(x)))
    return c.e.pproj(p, ("v", 1, 0, None))


@P("Option::as_ref", "Option::as_mut", "Option::as_deref", "Option::as_deref_mut")
def m_oasref(c, p):
    p = innermost(c, p)
    v = c.e.load(c.st, p)
    tn = c.e.tyname(T0(c)) if T0(c) else None
    q = c.e.pproj(p, ("v", 1, 0, tn))
    if c.name.startswith("as_deref"):
        q = innermost(c, q) if v.op == "adt" and v.a[1] == 1 else (mk("bx", sv(c, q)) if v.op != "adt" else q)
    return ite(isvar(c, v, 1), some(q), NONE)


@P("Option::flatten")
def m_oflat(c, v):
    return ite(isvar(c, v, 1), payload(c, v, 1, 0, T0(c)), NONE)


@P("Option::zip")
def m_ozip(c, v, w):
    return ite(tand(isvar(c, v, 1), isvar(c, w, 1)), some(mk("tup", (payload(c, v, 1, 0, c.targs[0]), payload(c, w, 1, 0, c.targs[1])))), NONE)


@P("Option::transpose")
def m_otrans(c, v):
    p = payload(c, v, 1)
    a, b = c.targs[0], c.targs[1]
    return ite(isvar(c, v, 1), ite(isvar(c, p, 0), ok(some(payload(c, p, 0, 0, a))), err(payload(c, p, 1, 0, b))), ok(NONE))


@P("Result::ok")
def m_rok(c, v):
    return ite(isvar(c, v, 0), some(payload(c, v, 0, 0, T0(c))), NONE)


@P("Result::err")
def m_rerr(c, v):
    return ite(isvar(c, v, 1), some(payload(c, v, 1, 0, c.targs[1])), NONE)


@P("Result::map")
def m_rmap(c, v, f):
    return c.e.branch(c.st, isvar(c, v, 0), lambda s: ok(c.e.callval(s, f, [payload(c, v, 0, 0, T0(c))])), lambda s: err(payload(c, v, 1, 0, c.targs[1])))


@P("Result::map_err")
def m_rmaperr(c, v, f):
    return c.e.branch(c.st, isvar(c, v, 0), lambda s: ok(payload(c, v, 0, 0, T0(c))), lambda s: err(c.e.callval(s, f, [payload(c, v, 1, 0, c.targs[1])])))


@P("Result::and_then")
def m_randthen(c, v, f):
    return c.e.branch(c.st, isvar(c, v, 0), lambda s: c.e.callval(s, f, [payload(c, v, 0, 0, T0(c))]), lambda s: err(payload(c, v, 1, 0, c.targs[1])))


@P("Result::or_else")
def m_rorelse(c, v, f):
    return c.e.branch(c.st, isvar(c, v, 0), lambda s: v, lambda s: c.e.callval(s, f, [payload(c, v, 1, 0, c.targs[1])]))


@P("Result::as_ref")
def m_rasref(c, p):
    v = c.e.load(c.st, p)
    return ite(isvar(c, v, 0), ok(c.e.pproj(p, ("v", 0, 0, None))), err(c.e.pproj(p, ("v", 1, 0, None))))


@P("bool::then_some")
def m_thensome(c, b, v):
    return ite(b, some(v), NONE)


@P("bool::then")
def m_then(c, b, f):
    return c.e.branch(c.st, b, lambda s: some(c.e.callval(s, f, [])), lambda s: NONE)


# closures called through Fn traits
@TR("FnOnce", "call_once")
@TR("FnMut", "call_mut")
@TR("Fn", "call")
def m_callfn(c, f, args):
    a = list(args.a[0]) if args.op == "tup" else [args]
    return c.e.callval(c.st, f, a)


# ---------------------------------------------------------------- Vec / slices / Bytes / String
@P("Vec::new", "String::new", "Bytes::new", "BytesMut::new", "VecDeque::new")
def m_vnew(c):
    return seq([])


@P("Vec::with_capacity", "BytesMut::with_capacity", "String::with_capacity")
def m_vcap(c, n):
    c.st.ev.append(("alloc", n, c.st.pc, c.e.stack[-1] if c.e.stack else "?", c.span))
    return seq([])


@P("Vec::try_reserve", "Vec::try_reserve_exact")
def m_tryres(c, p, n):
    return ok(UNIT)


@P("Vec::reserve", "Vec::reserve_exact", "HashMap::reserve", "BytesMut::reserve")
def m_res(c, p, n):
    c.st.ev.append(("alloc", n, c.st.pc, c.e.stack[-1] if c.e.stack else "?", c.span))
    return UNIT


@P("Vec::shrink_to_fit")
def m_unit(c, *a):
    return UNIT


@P("vec::from_elem")
def m_fromelem(c, v, n):
    c.st.ev.append(("alloc", n, c.st.pc, c.e.stack[-1] if c.e.stack else "?", c.span))
    return srep(n, v)


@P("Vec::push", "String::push")
def m_push(c, p, v):
    p = innermost(c, p)
    c.e.store(c.st, p, cat(c.e.load(c.st, p), seq([v])))
    return UNIT


@P("Vec::extend_from_slice", "BytesMut::extend_from_slice", "String::push_str", "BufMut::put_slice", "Vec::append")
@TR("BufMut", "put_slice")
def m_extslice(c, p, s):
    p = innermost(c, p)
    c.e.store(c.st, p, cat(c.e.load(c.st, p), sv(c, s)))
    if c.name == "append":
        c.e.store(c.st, innermost(c, s), seq([]))
    return UNIT


@P("Vec::insert")
def m_vinsert(c, p, i, v):
    p = innermost(c, p)
    s = c.e.load(c.st, p)
    c.e.check(c.st, le(i, slen(s)), "bounds", c.span)
    c.e.store(c.st, p, cat(ssub(s, I(0), i), seq([v]), ssub(s, i, sub(slen(s), i))))
    return UNIT


@P("Vec::truncate", "BytesMut::truncate", "Bytes::truncate", "String::truncate")
def m_trunc(c, p, n):
    p = innermost(c, p)
    s = c.e.load(c.st, p)
    c.e.store(c.st, p, ite(lt(n, slen(s)), ssub(s, I(0), n), s))
    return UNIT


@P("Vec::clear", "HashMap::clear")
def m_clear(c, p):
    p = innermost(c, p)
    s = c.e.load(c.st, p)
    c.e.store(c.st, p, seq([]) if "Vec" in c.f["path"] else mk("map0", tyof(s)))
    return UNIT


@P("Vec::resize")
def m_resize(c, p, n, v):
    p = innermost(c, p)
    s = c.e.load(c.st, p)
    c.st.ev.append(("alloc", n, c.st.pc, c.e.stack[-1] if c.e.stack else "?", c.span))
    c.e.store(c.st, p, ite(le(n, slen(s)), ssub(s, I(0), n), cat(s, srep(sub(n, slen(s)), v))))
    return UNIT


@P("Vec::pop")
def m_pop(c, p):
    p = innermost(c, p)
    s = c.e.load(c.st, p)
    n = slen(s)
    has = lt(I(0), n)
    c.e.store(c.st, p, ite(has, ssub(s, I(0), sub(n, I(1))), s))
    return ite(has, some(sidx(s, sub(n, I(1)))), NONE)


@P("Vec::remove", "Vec::swap_remove")
def m_vremove(c, p, i):
    p = innermost(c, p)
    s = c.e.load(c.st, p)
    c.e.check(c.st, lt(i, slen(s)), "bounds", c.span)
    n = slen(s)
    if c.name == "remove":
        c.e.store(c.st, p, cat(ssub(s, I(0), i), ssub(s, add(i, I(1)), sub(n, add(i, I(1))))))
    else:
        last = sidx(s, sub(n, I(1)))
        c.e.store(c.st, p, ssub(splice(s, i, seq([last])), I(0), sub(n, I(1))))
    return sidx(s, i)


@P("Vec::len", "slice::len", "Bytes::len", "str::len", "String::len", "BytesMut::len", "array::len")
def m_len(c, p):
    return slen(sv(c, p))


@TR("Buf", "remaining")
def m_rem(c, p):
    v = sv(c, p)
    return slen(v)


@P("Vec::is_empty", "slice::is_empty", "Bytes::is_empty", "str::is_empty", "String::is_empty", "BytesMut::is_empty")
def m_isempty(c, p):
    return eq(slen(sv(c, p)), I(0))


@P("slice::to_vec", "slice::into_vec2", "str::to_string", "slice::to_owned", "Bytes::to_vec", "Bytes::copy_from_slice", "String::into_owned",
   "Cow::into_owned", "Bytes::from_static", "Bytes::from", "str::to_owned", "Bytes::from_owner", "slice::into_boxed", "str::into_string")
def m_tovec(c, p):
    return sv(c, p)


@TR("ToString", "to_string")
def m_tostring(c, p):
    t = c.targs[0]
    if t[0] == "str" or (t[0] == "adt" and t[1] in SEQS):
        return sv(c, p)
    return mk("call", "to_string", (c.e.deepval(c.st, p),), "seq:u8")


@P("slice::first", "slice::last")
def m_first(c, p):
    p = innermost(c, p)
    s = c.e.load(c.st, p)
    n = slen(s)
    i = I(0) if c.name == "first" else sub(n, I(1))
    return ite(lt(I(0), n), some(c.e.pproj(p, ("i", i))), NONE)


@P("slice::split_first", "slice::split_last")
def m_splitfirst(c, p):
    p = innermost(c, p)
    n = slen(c.e.load(c.st, p))
    if c.name == "split_first":
        t = mk("tup", (c.e.pproj(p, ("i", I(0))), c.e.pproj(p, ("s", I(1), sub(n, I(1))))))
    else:
        t = mk("tup", (c.e.pproj(p, ("i", sub(n, I(1)))), c.e.pproj(p, ("s", I(0), sub(n, I(1))))))
    return ite(lt(I(0), n), some(t), NONE)


def range_bounds(c, idx, n):
    """(start, end) of a range index over length n, or None"""
    if idx.op == "ite":
        a, b = range_bounds(c, idx.a[1], n), range_bounds(c, idx.a[2], n)
        if a and b:
            return ite(idx.a[0], a[0], b[0]), ite(idx.a[0], a[1], b[1])
        return None
    if idx.op != "adt":
        return None
    k = idx.a[0].rsplit("::", 1)[-1]
    f = idx.a[2]
    if k == "Range":
        return f[0], f[1]
    if k == "RangeFrom":
        return f[0], n
    if k == "RangeTo":
        return I(0), f[0]
    if k == "RangeFull":
        return I(0), n
    if k == "RangeInclusive":
        return f[0], add(f[1], I(1))
    if k == "RangeToInclusive":
        return I(0), add(f[0], I(1))
    return None


@P("RangeInclusive::new")
def m_rangeincl(c, a, b):
    return mk("adt", "std::ops::RangeInclusive", 0, (a, b, FALSE))


@TR("Index", "index")
@TR("IndexMut", "index_mut")
def m_index(c, p, i):
    p = innermost(c, p)
    s = c.e.load(c.st, p)
    st = c.targs[0]
    if st[0] == "adt" and st[1] == "std::collections::HashMap":
        q = c.e.deepval(c.st, i)
        c.e.check(c.st, mhas(s, q), "map index", c.span)
        return mk("bx", mget(s, q))
    n = slen(s)
    if isnum(i):
        c.e.check(c.st, lt(i, n), "bounds", c.span)
        return c.e.pproj(p, ("i", i))
    r = range_bounds(c, i, n)
    if r is None:
        return c.e.opq("index", s, i)
    c.e.check(c.st, le(r[0], r[1]), "slice order", c.span)
    c.e.check(c.st, le(r[1], n), "slice bounds", c.span)
    if st[0] in ("str",) or (st[0] == "adt" and st[1] == "std::string::String"):
        c.e.check(c.st, tand(charb(s, r[0]), charb(s, r[1])), "char boundary", c.span)
    return c.e.pproj(p, ("s", r[0], sub(r[1], r[0])))


def charb(s, i):
    if i is I(0) or i is slen(s):
        return TRUE
    return mk("charb", s, i)


@P("slice::get", "slice::get_mut", "str::get", "Vec::get", "Vec::get_mut", "slice::get_unchecked")
def m_get(c, p, i):
    p = innermost(c, p)
    s = c.e.load(c.st, p)
    n = slen(s)
    if isnum(i):
        return ite(lt(i, n), some(c.e.pproj(p, ("i", i))), NONE)
    r = range_bounds(c, i, n)
    if r is None:
        return c.e.opq("get", s, i)
    good = tand(le(r[0], r[1]), le(r[1], n))
    if "str" in norm(c.f["path"]).split("::"):
        good = tand(good, tand(charb(s, r[0]), charb(s, r[1])))
    return ite(good, some(c.e.pproj(p, ("s", r[0], sub(r[1], r[0])))), NONE)


@P("str::is_char_boundary")
def m_icb(c, p, i):
    return charb(sv(c, p), i)


@P("Bytes::slice")
def m_bslice(c, p, r):
    s = sv(c, p)
    n = slen(s)
    b = range_bounds(c, r, n)
    if b is None:
        return c.e.opq("Bytes::slice")
    c.e.check(c.st, le(b[0], b[1]), "slice order", c.span)
    c.e.check(c.st, le(b[1], n), "slice bounds", c.span)
    return ssub(s, b[0], sub(b[1], b[0]))


@P("Bytes::split_to", "BytesMut::split_to", "Bytes::split_off", "Vec::split_off")
def m_splitto(c, p, n):
    p = innermost(c, p)
    s = c.e.load(c.st, p)
    c.e.check(c.st, le(n, slen(s)), "slice bounds", c.span)
    a, b = ssub(s, I(0), n), ssub(s, n, sub(slen(s), n))
    if c.name == "split_off":
        a, b = b, a
    c.e.store(c.st, p, b)
    return a


@P("slice::split_at", "slice::split_at_mut", "str::split_at")
def m_splitat(c, p, n):
    p = innermost(c, p)
    s = c.e.load(c.st, p)
    c.e.check(c.st, le(n, slen(s)), "slice bounds", c.span)
    return mk("tup", (c.e.pproj(p, ("s", I(0), n)), c.e.pproj(p, ("s", n, sub(slen(s), n)))))


@P("slice::copy_from_slice", "slice::clone_from_slice")
def m_cfs(c, p, s):
    p = innermost(c, p)
    d = c.e.load(c.st, p)
    s = sv(c, s)
    c.e.check(c.st, eq(slen(d), slen(s)), "copy_from_slice length", c.span)
    c.e.store(c.st, p, s)
    return UNIT


@P("slice::fill")
def m_fill(c, p, v):
    p = innermost(c, p)
    c.e.store(c.st, p, srep(slen(c.e.load(c.st, p)), v))
    return UNIT


@P("slice::swap")
def m_sswap(c, p, i, j):
    p = innermost(c, p)
    s = c.e.load(c.st, p)
    c.e.check(c.st, tand(lt(i, slen(s)), lt(j, slen(s))), "bounds", c.span)
    a, b = sidx(s, i), sidx(s, j)
    c.e.store(c.st, p, splice(splice(s, i, seq([b])), j, seq([a])))
    return UNIT


def lexlt(c, a, b):
    """a < b for numbers and tuples of them; None where the order is not known"""
    if isnum(a) and isnum(b):
        return lt(a, b)
    if a.op == "tup" and b.op == "tup" and len(a.a) == len(b.a):
        r, same = FALSE, TRUE
        for x, y in zip(a.a, b.a):
            l = lexlt(c, x, y)
            if l is None:
                return None
            r, same = tor(r, tand(same, l)), tand(same, eq(x, y))
        return r
    return None


def sorted_seq(c, xs, ks, after):
    """stable insertion by compare and exchange: after(kx, ky) = x has to come after y"""
    out = []
    for x, k in zip(xs, ks):
        out.append((x, k))
        for i in range(len(out) - 1, 0, -1):
            (a, ka), (b, kb) = out[i - 1], out[i]
            g = after(ka, kb)
            if g is None:
                return None
            out[i - 1] = (ite(g, b, a), ite(g, kb, ka) if ka is not a else ite(g, b, a))
            out[i] = (ite(g, a, b), ite(g, ka, kb) if ka is not a else ite(g, a, b))
    return seq([x for x, _ in out])


@P("Vec::dedup", "slice::sort", "slice::sort_unstable")
def m_dedup(c, p):
    p = innermost(c, p)
    s = c.e.load(c.st, p)
    nm = c.name.rsplit("::", 1)[-1]
    n = slen(s)
    if n.op == "int" and n.a[0] <= 1:
        return UNIT
    r = None
    if s.op == "seq" and len(s.a[0]) <= 5:
        if nm != "dedup":
            r = sorted_seq(c, s.a[0], s.a[0], lambda a, b: lexlt(c, b, a))
        else:
            r = seq([s.a[0][0]])
            for x, y in zip(s.a[0], s.a[0][1:]):
                r = cat(r, ite(vequal(c.e, x, y), seq([]), seq([y])))
    c.e.store(c.st, p, mk("call", "lib:" + ("dedup" if nm == "dedup" else "sort"), (s,), None) if r is None else r)
    return UNIT


@P("slice::sort_by_key", "slice::sort_unstable_by_key", "slice::sort_by_cached_key", "slice::sort_by", "slice::sort_unstable_by")
def m_sortkey(c, p, f):
    p = innermost(c, p)
    s = c.e.load(c.st, p)
    n = slen(s)
    if n.op == "int" and n.a[0] <= 1:
        return UNIT
    if s.op != "seq" or len(s.a[0]) > 5:
        raise Undet(c.name)
    xs = s.a[0]
    if "key" in c.name:
        ks = [c.e.deepval(c.st, c.e.callval(c.st, f, [c.e.alloc(c.st, x)])) for x in xs]
        r = sorted_seq(c, xs, ks, lambda a, b: lexlt(c, b, a))
    else:
        def after(a, b):
            o = c.e.callval(c.st, f, [c.e.alloc(c.st, a), c.e.alloc(c.st, b)])
            return eq(c.e.disc(o), I(1))
        r = sorted_seq(c, xs, xs, after)
    if r is None:
        raise Undet(c.name)
    c.e.store(c.st, p, r)
    return UNIT


@P("slice::rotate_left", "slice::rotate_right")
def m_rotate(c, p, k):
    p = innermost(c, p)
    s = c.e.load(c.st, p)
    n = slen(s)
    c.e.check(c.st, le(k, n), "rotate:mid > len", c.span)
    m = k if "left" in c.name else sub(n, k)
    c.e.store(c.st, p, cat(ssub(s, m, sub(n, m)), ssub(s, I(0), m)))
    return UNIT


@P("num::leading_zeros", "num::trailing_zeros", "num::count_ones", "num::is_power_of_two", "num::isqrt", "num::ilog2")
def m_bits(c, a):
    t = c.tys[0][1]
    nm = c.name.rsplit("::", 1)[-1]
    if nm == "ilog2":
        c.e.check(c.st, lt(I(0), a), "ilog2 of zero", c.span)
    return mk("call", "lib:" + nm, (a, I(8 * WIDTH[t])), "bool" if nm.startswith("is_") else "u32" if nm != "isqrt" else t)


@P("slice::reverse")
def m_srev(c, p):
    p = innermost(c, p)
    s = c.e.load(c.st, p)
    c.e.store(c.st, p, srev(s))
    return UNIT


def srev(s):
    if s.op == "seq":
        return seq(s.a[0][::-1])
    i = fresh("j", "usize")
    n = slen(s)
    return smap(n, i, sidx(s, sub(sub(n, I(1)), i)))


@P("slice::concat", "slice::join")
def m_concat(c, p, *a):
    if a:
        return c.e.opq("join")
    return sflat(c.e.deepval(c.st, p))


@P("slice::contains")
def m_contains(c, p, x):
    s = sv(c, p)
    x = c.e.deepval(c.st, x)
    if s.op == "seq":
        r = FALSE
        for y in s.a[0]:
            r = tor(r, vequal(c.e, y, x))
        return r
    i = fresh("j", "usize")
    return engine.mkexists(slen(s), i, vequal(c.e, sidx(s, i), x))


@P("slice::ends_with", "slice::starts_with", "str::ends_with", "str::starts_with")
def m_endsw(c, p, x):
    s = sv(c, p)
    if isnum(x):
        x = seq([x])
    x = sv(c, x)
    n, m = slen(s), slen(x)
    if m.op == "int" and m.a[0] <= 16:
        off = sub(n, m) if c.name == "ends_with" else I(0)
        r = le(m, n)
        for i in range(m.a[0]):
            r = tand(r, eq(sidx(s, add(off, I(i))), sidx(x, I(i))))
        return r
    return c.e.opq(c.name, s, x)


@P("ascii::is_ascii", "slice::is_ascii", "str::is_ascii")
def m_isascii(c, p):
    s = sv(c, p)
    return mk("sascii", s)


@P("str::from_utf8")
def m_fromutf8(c, p):
    s = sv(c, p)
    return ite(mk("utf8ok", s), ok(mk("bx", s)), err(mk("call", "Utf8Error", (s,), None)))


@P("String::from_utf8")
def m_sfromutf8(c, s):
    return ite(mk("utf8ok", s), ok(s), err(mk("call", "FromUtf8Error", (s,), None)))


@P("String::from_utf8_lossy")
def m_lossy(c, p):
    return mk("call", "utf8lossy", (sv(c, p),), "seq:u8")


@P("str::trim_matches", "str::trim_end_matches", "str::trim_start_matches", "str::trim", "str::trim_end", "str::trim_start")
def m_trim(c, p, *a):
    s = sv(c, p)
    nm = c.name.rsplit("::", 1)[-1]
    if a and a[0].op == "int":
        return mk("bx", mkcall(nm, (s, a[0]), "seq:u8"))
    return mk("bx", mk("call", c.name, (s,) + tuple(c.e.deepval(c.st, x) for x in a), "seq:u8"))


@P("str::strip_suffix")
def m_strip(c, p, x):
    s = sv(c, p)
    x = seq([x]) if isnum(x) else sv(c, x)
    m = slen(x)
    if m.op == "int":
        cc = Ctx(c.e, c.st, c.f, c.targs, c.tys, c.dty, c.span, "ends_with")
        g = m_endsw(cc, mk("bx", s), mk("bx", x))
        return ite(g, some(mk("bx", ssub(s, I(0), sub(slen(s), m)))), NONE)
    return c.e.opq("strip_suffix")


@P("str::chars")
def m_chars(c, p):
    return mk("it", mk("chars", sv(c, p)), I(0), mk("len", mk("chars", sv(c, p))))


# ---------------------------------------------------------------- bytemuck
def bcast(s, src, dst):
    """reinterpret a sequence of src scalars as dst scalars (host little endian)"""
    if src == dst:
        return s
    ws, wd = WIDTH.get(src), WIDTH.get(dst)
    if ws is None or wd is None:
        return mk("call", "bytecast", (s,), "seq:" + str(dst))
    i = fresh("j", "usize")
    n = slen(s)
    if s.op == "seq" and src == "u8" and len(s.a[0]) <= 2048:
        el = s.a[0]
        return seq([frombytes(dst, False, el[k:k + wd]) for k in range(0, len(el) - wd + 1, wd)])
    if s.op == "seq" and dst == "u8" and len(s.a[0]) <= 2048:
        return cat(*[tobytes(src, False, x) for x in s.a[0]])
    if ws == 1:
        return smap(div(n, I(wd)), i, rd(dst, False, s, mul(I(wd), i)) if src == "u8" else mk("call", "bytecast1", (s, i), dst))
    if wd == 1 and dst == "u8":
        if s.op == "smap" and s.a[2].op == "rd" and s.a[2].a[0] == src and s.a[2].a[1] is False:
            src_s, off = s.a[2].a[2], s.a[2].a[3]
            bv = mk("bv", s.a[1])
            if sub(off, mul(I(ws), bv)) is I(0):
                return ssub(src_s, I(0), mul(I(ws), n))
        return mk("call", "tobytes_" + src, (s,), "seq:u8")
    if ws == wd:
        return smap(n, i, trunc(sidx(s, i), dst) if dst in INTS and src in INTS else mk("call", "bits:%s>%s" % (src, dst), (sidx(s, i),), dst))
    return mk("call", "bytecast:%s>%s" % (src, dst), (s,), "seq:" + dst)


def elt(c, t):
    n = c.e.tyname(t)
    return n


@P("bytemuck::cast_slice", "bytemuck::cast_slice_mut", "bytemuck::must_cast_slice", "bytemuck::bytes_of")
def m_castslice(c, p):
    s = sv(c, p)
    a, b = elt(c, c.targs[0]), elt(c, c.targs[1]) if len(c.targs) > 1 else "u8"
    if b and a and WIDTH.get(a, 1) < WIDTH.get(b, 1):
        c.e.check(c.st, mk("call", "castable", (s, sym(a), sym(b)), "bool"), "cast_slice", c.span)
    return mk("bx", bcast(s, a, b))


@P("bytemuck::cast_vec", "allocation::cast_vec")
def m_castvec(c, s):
    a, b = elt(c, c.targs[0]), elt(c, c.targs[1])
    if a != b and WIDTH.get(a) != WIDTH.get(b):
        c.e.check(c.st, FALSE, "cast_vec between differently aligned types", c.span)
    return bcast(s, a, b)


@P("bytemuck::try_cast_vec", "allocation::try_cast_vec")
def m_trycastvec(c, s):
    a, b = elt(c, c.targs[0]), elt(c, c.targs[1])
    if a == b:
        return ok(s)
    # alignment-dependent: either succeeds with the reinterpretation or hands the data back
    g = mk("call", "aligned", (s, sym(str(b))), "bool")
    return ite(g, ok(bcast(s, a, b)), err(mk("tup", (mk("call", "PodCastError", (), None), s))))


@P("bytemuck::pod_collect_to_vec")
def m_podcollect(c, p):
    return bcast(sv(c, p), elt(c, c.targs[0]), elt(c, c.targs[1]))


# ---------------------------------------------------------------- readers
RDR = "bytes::buf::Reader"


@TR("Buf", "reader")
def m_reader(c, v):
    return mk("adt", RDR, 0, (v, I(0)))


@P("Reader::get_ref")
def m_rget(c, p):
    p = innermost(c, p)
    v = c.e.load(c.st, p)
    if v.op == "adt" and v.a[0] == RDR:
        s, pos = v.a[2]
        return mk("bx", ssub(s, pos, sub(slen(s), pos)))
    return c.e.pproj(p, ("f", 0, None))


@P("Reader::into_inner")
def m_rinto(c, v):
    if v.op == "adt" and v.a[0] == RDR:
        s, pos = v.a[2]
        return ssub(s, pos, sub(slen(s), pos))
    return c.e.opq("into_inner")


IOERR = mk("call", "io::Error(UnexpectedEof)", (), None)
CURSOR = "std::io::Cursor"


@P("Cursor::new")
def m_cursor(c, v):
    return mk("adt", CURSOR, 0, (v, I(0)))


@P("Cursor::set_position")
def m_cursorset(c, p, n):
    c.e.store(c.st, c.e.pproj(innermost(c, p), ("f", 1, None)), n)
    return UNIT


@P("Cursor::position")
def m_cursorpos(c, p):
    return c.e.load(c.st, c.e.pproj(innermost(c, p), ("f", 1, None)))


@P("Cursor::into_inner")
def m_cursorinto(c, v):
    return c.e.proj(v, ("f", 0, None))


def rdr_ptr(c, p):
    """pointer to the (seq,pos) reader behind &mut R"""
    p = innermost(c, p)
    v = c.e.load(c.st, p)
    n = 0
    while v.op == "adt" and v.a[0] not in (RDR, CURSOR) and n < 3:
        # a crate-local wrapper around a reader field
        for i, f in enumerate(v.a[2]):
            if f.op == "adt" and f.a[0] in (RDR, CURSOR):
                p = c.e.pproj(p, ("f", i, None))
                v = f
                break
        else:
            return None, None
        n += 1
    if v.op == "adt" and v.a[0] in (RDR, CURSOR):
        return p, v
    return None, None


def known(c, v):
    """a value the path conditions fix"""
    if v.op == "rd":
        b = c.st.pc.facts.bounds.get(v)
        if b and b[0] == b[1]:
            return I(int(b[0]))
    return v


@TR("ReadBytesExt", "read_u8", "read_i8", "read_u16", "read_i16", "read_u32", "read_i32", "read_u64", "read_i64", "read_f32", "read_f64")
def m_rbe(c, p):
    ty = c.name[5:]
    w = WIDTH[ty]
    q, v = rdr_ptr(c, p)
    if q is None:
        return c.e.opq("read on unknown reader")
    s, pos = v.a[2]
    s = sv(c, s)
    be = False
    if w > 1:
        o = c.targs[1]
        nm = o[1].rsplit("::", 1)[-1] if o[0] == "adt" else ""
        if nm not in ("BigEndian", "LittleEndian", "BE", "LE", "NativeEndian", "NetworkEndian"):
            return c.e.opq("byte order " + nm)
        be = nm in ("BigEndian", "BE", "NetworkEndian")
    good = c.st.pc.facts.simp(le(add(pos, I(w)), slen(s)))
    val = known(c, rd(ty, be, s, pos))
    c.e.store(c.st, q, mk("adt", v.a[0], 0, (v.a[2][0], ite(good, add(pos, I(w)), slen(s)))))
    return ite(good, ok(val), err(IOERR))


@TR("Buf", "get_u8", "get_i8", "get_u16", "get_i16", "get_u32", "get_i32", "get_u64", "get_i64", "get_f32", "get_f64",
    "get_u16_le", "get_i16_le", "get_u32_le", "get_i32_le", "get_u64_le", "get_i64_le", "get_f32_le", "get_f64_le")
def m_bufget(c, p):
    nm = c.name[4:]
    le_ = nm.endswith("_le")
    ty = nm.replace("_le", "")
    w = WIDTH[ty]
    p = innermost(c, p)
    s = c.e.load(c.st, p)
    c.e.check(c.st, le(I(w), slen(s)), "Buf underflow", c.span)
    v = known(c, rd(ty, not le_, s, I(0)))
    c.e.store(c.st, p, ssub(s, I(w), sub(slen(s), I(w))))
    return v


@TR("Buf", "advance")
def m_bufadv(c, p, n):
    p = innermost(c, p)
    s = c.e.load(c.st, p)
    c.e.check(c.st, le(n, slen(s)), "Buf underflow", c.span)
    c.e.store(c.st, p, ssub(s, n, sub(slen(s), n)))
    return UNIT


@TR("Read", "read_exact")
def m_readexact(c, p, buf):
    q, v = rdr_ptr(c, p)
    if q is None:
        return c.e.opq("read_exact on unknown reader")
    s, pos = v.a[2]
    s = sv(c, s)
    b = innermost(c, buf)
    old = c.e.load(c.st, b)
    n = slen(old)
    good = c.st.pc.facts.simp(le(add(pos, n), slen(s)))
    c.e.store(c.st, q, mk("adt", v.a[0], 0, (v.a[2][0], ite(good, add(pos, n), slen(s)))))
    c.e.store(c.st, b, ite(good, ssub(s, pos, n), mk("opq", "partial read", None)))
    return ite(good, ok(UNIT), err(IOERR))


@TR("Read", "read")
def m_read(c, p, buf):
    q, v = rdr_ptr(c, p)
    if q is None:
        return c.e.opq("read on unknown reader")
    s, pos = v.a[2]
    s = sv(c, s)
    b = innermost(c, buf)
    old = c.e.load(c.st, b)
    n = tmin(slen(old), sub(slen(s), pos))
    c.e.store(c.st, q, mk("adt", v.a[0], 0, (v.a[2][0], add(pos, n))))
    c.e.store(c.st, b, splice(old, I(0), ssub(s, pos, n)))
    return ok(n)


@TR("Read", "by_ref")
def m_readbyref(c, p):
    return p


def stream(c, p):
    """abstract remaining stream content of a reader value"""
    v = deref(c, p)
    if v.op == "adt" and v.a[0] in (RDR, CURSOR):
        s, pos = v.a[2]
        s = sv(c, s)
        return ssub(s, pos, sub(slen(s), pos))
    if v.op == "codec":
        return v
    if v.op == "adt" and v.a[0] == "$chain":
        return cat(stream(c, v.a[2][0]), stream(c, v.a[2][1]))
    if v.op == "ite":
        return ite(v.a[0], stream(c, v.a[1]), stream(c, v.a[2]))
    return c.e.deepval(c.st, v)


@TR("Read", "chain")
def m_rchain(c, a, b):
    return mk("adt", "$chain", 0, (a, b))


@TR("Read", "take")
def m_rtake(c, a, n):
    s = stream(c, a)
    return mk("adt", CURSOR, 0, (ite(lt(n, slen(s)), ssub(s, I(0), n), s), I(0)))


def codec_result(name, s, ty="seq:u8"):
    """fallible pure external decoder: uninterpreted (ok?, value) of its input"""
    return ite(mk("call", name + ".ok", s, "bool"), ok(mk("call", name, s, ty)), err(mk("call", name + ".err", s, None)))


@TR("Read", "read_to_end")
def m_rte(c, p, buf):
    v = deref(c, p)
    b = innermost(c, buf)
    old = c.e.load(c.st, b)
    if v.op == "codec":
        g = mk("call", v.a[0] + ".ok", v.a[1], "bool")
        d = mk("call", v.a[0], v.a[1], "seq:u8")
        c.e.store(c.st, b, cat(old, ite(g, d, mk("call", v.a[0] + ".partial", v.a[1], "seq:u8"))))
        return ite(g, ok(slen(d)), err(mk("call", v.a[0] + ".err", v.a[1], None)))
    s = stream(c, p)
    c.e.store(c.st, b, cat(old, s))
    return ok(slen(s))


@P("bufread::ZlibDecoder::new", "ZlibDecoder::new")
def m_zlib(c, r):
    return mk("codec", "zlib", (stream(c, r),))


@P("DeflateDecoder::new")
def m_rawdeflate(c, r):
    return mk("codec", "rawdeflate", (stream(c, r),))


@P("GzDecoder::new")
def m_gz(c, r):
    return mk("codec", "gzip", (stream(c, r),))


@P("zstd::Decoder::new", "Decoder::new")
def m_decnew(c, r):
    p = norm(c.f["path"])
    if p.startswith("zstd"):
        return ok(mk("codec", "zstd", (stream(c, r),)))
    if p.startswith("jpeg_decoder") or p.startswith("jpeg"):
        return mk("adt", "$jpeg", 0, (stream(c, r), mk("adt", "$noct", 0, ())))
    if p.startswith("webp"):
        return mk("adt", "$webp", 0, (sv(c, r),))
    return c.e.opq("Decoder::new")


@P("XzReader::new")
def m_xz(c, r, multi):
    return mk("codec", "xz", (stream(c, r), multi))


@P("Decoder::set_color_transform")
def m_ct(c, p, t):
    c.e.store(c.st, c.e.pproj(innermost(c, p), ("f", 1, None)), t)
    return UNIT


@P("decode::Decoder::with_tiff_size_switch", "Decoder::with_tiff_size_switch")
def m_lzwnew(c, order, size):
    return mk("adt", "$lzw", 0, (mk("tup", (c.e.deepval(c.st, order), size)),))


@P("Decoder::new_lzw")
def m_never(c, *a):
    return c.e.opq("never")


@P("Decoder::decode", "decode::Decoder::decode")
def m_decode(c, p, *a):
    v = deref(c, p)
    if v.op == "adt" and v.a[0] == "$jpeg":
        return codec_result("jpeg", tuple(v.a[2]))
    if v.op == "adt" and v.a[0] == "$lzw":
        return codec_result("lzw", (v.a[2][0], sv(c, a[0])))
    if v.op == "adt" and v.a[0] == "$webp":
        g = mk("call", "webp.ok", v.a[2], "bool")
        return ite(g, some(mk("call", "webp", v.a[2], "seq:u8")), NONE)
    return c.e.opq("decode", v)


@P("WebPImage::is_alpha")
def m_isalpha(c, p):
    v = deref(c, p)
    return mk("call", "webp.alpha", v.a[1] if v.op == "call" and v.a[0] == "webp" else (v,), "bool")


@P("zstd::decode_all", "stream::decode_all", "functions::decode_all")
def m_zstdall(c, r):
    return codec_result("zstd", (stream(c, r),))


@P("lerc::get_blob_info")
def m_lercinfo(c, p):
    return codec_result("lerc.info", (sv(c, p),), "adt:lerc::BlobInfo")


@P("lerc::decode")
def m_lercdec(c, p, *dims):
    t = c.e.tyname(c.targs[0])
    a = (sv(c, p), sym("ty:" + str(t))) + tuple(dims)
    g = mk("call", "lerc.ok", a, "bool")
    return ite(g, ok(mk("tup", (mk("call", "lerc", a, "seq:" + str(t)), mk("call", "lerc.mask", a, None)))), err(mk("call", "lerc.err", a, None)))


@P("DecodeParameters::new")
def m_j2kp(c):
    return mk("adt", "$j2kparams", 0, ())


@P("Image::from_bytes_with")
def m_j2k(c, p, prm):
    return codec_result("j2k.image", (sv(c, p), prm), None)


@P("Image::from_bytes")
def m_j2kb(c, p):
    return codec_result("j2k.image", (sv(c, p), mk("adt", "$j2kparams", 0, ())), None)


@P("Image::get_pixels")
def m_j2kpix(c, p, a):
    return codec_result("j2k.pixels", (deref(c, p), a), None)


@P("ArrayBase::from_shape_vec", "impl_constructors::from_shape_vec")
def m_fsv(c, shape, v):
    sh = sv(c, shape)
    n = I(1)
    if sh.op == "seq":
        for x in sh.a[0]:
            n = mul(n, x)
        g = eq(n, slen(v))
    else:
        g = mk("call", "shape_ok", (sh, v), "bool")
    return ite(c.st.pc.facts.simp(g), ok(mk("adt", "$ndarray", 0, (sh, v))), err(mk("call", "ShapeError", (), None)))


@P("TryFromPrimitiveError::new")
def m_tfpe(c, n):
    return mk("call", "TryFromPrimitiveError", (n,), None)


# ---------------------------------------------------------------- HashMap
@P("HashMap::new", "HashMap::with_capacity", "BTreeMap::new", "HashSet::new", "HashSet::with_capacity", "BTreeSet::new")
def m_hnew(c, *a):
    if a:
        c.st.ev.append(("alloc", a[0], c.st.pc, c.e.stack[-1] if c.e.stack else "?", c.span))
    return mk("map0", c.e.tyname(c.dty))


@P("HashMap::insert", "BTreeMap::insert")
def m_hinsert(c, p, k, v):
    p = innermost(c, p)
    m = c.e.load(c.st, p)
    k = c.e.deepval(c.st, k)
    c.e.store(c.st, p, mk("minsert", m, k, v))
    return ite(mhas(m, k), some(mget(m, k)), NONE)


@P("HashSet::insert", "BTreeSet::insert")
def m_hsinsert(c, p, k):
    p = innermost(c, p)
    m = c.e.load(c.st, p)
    k = c.e.deepval(c.st, k)
    c.e.store(c.st, p, mk("minsert", m, k, UNIT))
    return tnot(mhas(m, k))


@P("HashMap::get", "BTreeMap::get")
def m_hget(c, p, k):
    m = sv(c, p)
    k = c.e.deepval(c.st, k)
    return ite(mhas(m, k), some(mk("bx", mget(m, k))), NONE)


@P("HashMap::contains_key", "BTreeMap::contains_key", "HashSet::contains", "BTreeSet::contains")
def m_hhas(c, p, k):
    return mhas(sv(c, p), c.e.deepval(c.st, k))


@P("HashMap::remove", "BTreeMap::remove")
def m_hremove(c, p, k):
    p = innermost(c, p)
    m = c.e.load(c.st, p)
    k = c.e.deepval(c.st, k)
    c.e.store(c.st, p, mk("mremove", m, k))
    return ite(mhas(m, k), some(mget(m, k)), NONE)


def mcount(m):
    if m.op == "map0":
        return I(0)
    if m.op == "minsert":
        return add(mcount(m.a[0]), ite(mhas(m.a[0], m.a[1]), I(0), I(1)))
    if m.op == "mremove":
        return sub(mcount(m.a[0]), ite(mhas(m.a[0], m.a[1]), I(1), I(0)))
    if m.op == "ite":
        return ite(m.a[0], mcount(m.a[1]), mcount(m.a[2]))
    return mk("mcount", m)


@P("HashMap::len", "BTreeMap::len", "HashSet::len", "BTreeSet::len")
def m_hlen(c, p):
    return c.st.pc.facts.deep(mcount(sv(c, p)))


@P("HashMap::is_empty", "HashSet::is_empty", "BTreeMap::is_empty", "BTreeSet::is_empty")
def m_hempty(c, p):
    return c.st.pc.facts.simp(eq(mcount(sv(c, p)), I(0)))


@P("HashSet::remove", "BTreeSet::remove")
def m_hsremove(c, p, k):
    p = innermost(c, p)
    m = c.e.load(c.st, p)
    k = c.e.deepval(c.st, k)
    c.e.store(c.st, p, mk("mremove", m, k))
    return mhas(m, k)


@P("HashMap::entry", "BTreeMap::entry")
def m_entry(c, p, k):
    return mk("adt", "$entry", 0, (innermost(c, p), c.e.deepval(c.st, k)))


@P("Entry::or_insert", "Entry::or_insert_with")
def m_orinsert(c, en, v):
    p, k = en.a[2]
    m = c.e.load(c.st, p)

    def absent(s):
        x = v if c.name == "or_insert" else c.e.callval(s, v, [])
        c.e.store(s, p, mk("minsert", c.e.load(s, p), k, x))
        return UNIT
    c.e.branch(c.st, mhas(m, k), lambda s: UNIT, absent)
    # the place of the value inside the map is not tracked: only an unused result is
    return mk("opq", "map entry", None)


@P("HashMap::drain")
def m_hdrain(c, p):
    p = innermost(c, p)
    m = c.e.load(c.st, p)
    c.e.store(c.st, p, mk("map0", tyof(m)))
    ent = literal_map(c, m)
    if ent is not None:
        return pit(seq([mk("tup", kv) for kv in ent]))
    return mk("it", mk("mseq", m), I(0), mk("mcount", m))


@P("HashMap::iter", "HashMap::keys", "HashMap::values", "HashMap::into_keys", "HashMap::into_values")
def m_hiter(c, p):
    m = sv(c, p)
    i = fresh("j", "usize")
    n = mk("mcount", m)
    ent = literal_map(c, m)
    if ent is not None:
        bx = lambda x: mk("bx", x)
        f = {"iter": lambda k, v: mk("tup", (bx(k), bx(v))), "keys": lambda k, v: bx(k), "values": lambda k, v: bx(v),
             "into_keys": lambda k, v: k, "into_values": lambda k, v: v}[c.name]
        return pit(seq([f(*kv) for kv in ent]))
    k, v = mk("mkey", m, i), mk("mval", m, i)
    e = {"iter": mk("tup", (mk("bx", k), mk("bx", v))), "keys": mk("bx", k), "values": mk("bx", v), "into_keys": k, "into_values": v}[c.name]
    return mk("it", smap(n, i, e), I(0), n)


# ---------------------------------------------------------------- iterators
def pit(s):
    return mk("it", s, I(0), slen(s))


def sflat(s):
    """concatenation of a sequence of sequences"""
    if s.op == "seq":
        return cat(*[x for x in s.a[0]])
    if s.op == "cat":
        return cat(*[sflat(x) for x in s.a[0]])
    if s.op == "ite":
        return ite(s.a[0], sflat(s.a[1]), sflat(s.a[2]))
    i = fresh("k", "usize")
    n = slen(s)
    return subst(engine.mk_scat(i, sidx(s, i)), {i: n})


def range_seq(a, b):
    i = fresh("j", "usize")
    return smap(tmax(sub(b, a), I(0)), i, add(a, i))


def to_it(c, v):
    """pure positional iterator for v, or None"""
    v0 = v
    if v.op == "it":
        return v
    if v.op == "adt":
        k = v.a[0].rsplit("::", 1)[-1]
        if k == "Range":
            return pit(range_seq(v.a[2][0], v.a[2][1]))
        if k == "RangeInclusive":
            return pit(range_seq(v.a[2][0], add(v.a[2][1], I(1))))
        if k == "Option":
            return pit(seq(list(v.a[2])))
    return None


def it_seq(it):
    s, p, e = it.a
    return ssub(s, p, sub(e, p))


def values(c, s):
    """drop one layer of immutable pointers from the elements of a sequence"""
    return c.e.deepval(c.st, s)


def iter_of(c, v, t):
    """IntoIterator::into_iter"""
    if v.op in ("it", "lazy"):
        return v
    if v.op == "adt" and v.a[0].rsplit("::", 1)[-1] in ("Range", "RangeInclusive", "RangeFrom"):
        return v
    if t[0] == "ref":
        p = innermost(c, v)
        s = c.e.load(c.st, p)
        if s.op in ("it", "lazy") or (s.op == "adt" and s.a[0].endswith("Range")):
            return p  # &mut I
        tt = t[1]
        if tt[0] == "adt" and tt[1] == "std::collections::HashMap":
            cc = Ctx(c.e, c.st, c.f, c.targs, c.tys, c.dty, c.span, "iter")
            return m_hiter(cc, v)
        if t[2]:
            return mut_iter(c, p)
        return shared_iter(c, s)
    if t[0] == "adt" and t[1] == "std::collections::HashMap":
        ent = literal_map(c, v)
        if ent is not None:
            return pit(seq([mk("tup", kv) for kv in ent]))
        return mk("it", mk("mseq", v), I(0), mk("mcount", v))
    if t[0] == "adt" and t[1] == OPTION:
        p = payload(c, v, 1, 0, ptype(t))
        return pit(ite(isvar(c, v, 1), seq([p]), seq([])))
    if t[0] == "adt" and t[1] == RESULT:
        p = payload(c, v, 0, 0, ptype(t))
        return pit(ite(isvar(c, v, 0), seq([p]), seq([])))
    if t[0] == "adt" and t[1] in SEQS or t[0] == "array":
        return pit(v)
    if v.op in ("seq", "smap", "cat", "sub", "scat"):
        return pit(v)
    if v.op in ("ref", "bx"):
        return v
    return c.e.opq("into_iter", v)


def shared_iter(c, s):
    i = fresh("j", "usize")
    if s.op == "seq":
        return pit(seq([mk("bx", x) for x in s.a[0]]))
    if s.op == "ite":
        return pit(ite(s.a[0], it_seq(shared_iter(c, s.a[1])), it_seq(shared_iter(c, s.a[2]))))
    return pit(smap(slen(s), i, mk("bx", sidx(s, i))))


def mut_iter(c, p):
    s = c.e.load(c.st, p)
    i = fresh("j", "usize")
    return pit(smap(slen(s), i, c.e.pproj(p, ("i", i))))


@TR("IntoIterator", "into_iter")
def m_intoiter(c, v):
    return iter_of(c, v, c.targs[0])


@P("slice::iter", "Option::iter", "Vec::iter")
def m_iter(c, p):
    v = sv(c, p)
    if "option" in c.f["path"]:
        return pit(ite(isvar(c, v, 1), seq([mk("bx", payload(c, v, 1, 0, T0(c)))]), seq([])))
    return shared_iter(c, v)


@P("slice::iter_mut", "Vec::iter_mut")
def m_itermut(c, p):
    return mut_iter(c, innermost(c, p))


@P("Vec::drain")
def m_vdrain(c, p, r):
    p = innermost(c, p)
    s = c.e.load(c.st, p)
    n = slen(s)
    b = range_bounds(c, r, n)
    if b is None:
        return c.e.opq("drain")
    c.e.check(c.st, tand(le(b[0], b[1]), le(b[1], n)), "slice bounds", c.span)
    c.e.store(c.st, p, cat(ssub(s, I(0), b[0]), ssub(s, b[1], sub(n, b[1]))))
    return pit(ssub(s, b[0], sub(b[1], b[0])))


@P("slice::chunks", "slice::chunks_mut", "slice::chunks_exact", "slice::chunks_exact_mut")
def m_chunks(c, p, m):
    p = innermost(c, p)
    s = c.e.load(c.st, p)
    n = slen(s)
    c.e.check(c.st, tnot(eq(m, I(0))), "chunk size zero", c.span)
    i = fresh("j", "usize")
    exact = "exact" in c.name
    cnt = div(n, m) if exact else divceil(n, m)
    start = mul(m, i)
    ln = m if exact else tmin(m, sub(n, start))
    if "mut" in c.name:
        e = c.e.pproj(p, ("s", start, ln))
    else:
        e = mk("bx", ssub(s, start, ln))
    return mk("it", smap_raw(cnt, i, e), I(0), cnt)


def smap_raw(n, i, e):
    return smap(n, i, e)


@P("slice::windows")
def m_windows(c, p, m):
    s = sv(c, p)
    n = slen(s)
    i = fresh("j", "usize")
    cnt = tmax(sub(add(n, I(1)), m), I(0))
    return mk("it", smap(cnt, i, mk("bx", ssub(s, i, m))), I(0), cnt)


@P("ChunksExact::remainder")
def m_cer(c, p):
    return c.e.opq("remainder")


def adaptor(c, v):
    """normalise the receiver of an adaptor taking self by value"""
    if v.op in ("ref",):
        return v
    x = to_it(c, v)
    return x if x is not None else v


@TR("Iterator", "map", "filter", "filter_map", "flat_map", "take_while", "skip_while", "inspect", "map_while")
def m_lazy(c, v, f):
    return mk("lazy", c.name, adaptor(c, v), f)


@TR("Iterator", "by_ref")
def m_byref(c, p):
    return p


@TR("Iterator", "enumerate")
def m_enum(c, v):
    it = to_it(c, v)
    if it is None:
        return mk("lazy", "enumerate", v, I(0))
    s = it_seq(it)
    i = fresh("j", "usize")
    if s.op == "seq":
        return pit(seq([mk("tup", (I(q), x)) for q, x in enumerate(s.a[0])]))
    return pit(smap(slen(s), i, mk("tup", (i, sidx(s, i)))))


@TR("Iterator", "zip")
def m_zip(c, v, w):
    t = c.targs[1] if len(c.targs) > 1 else ("other",)
    w = iter_of(c, w, t)
    a, b = to_it(c, v), to_it(c, w)
    if a is None or b is None:
        return mk("lazy", "zip", a or v, b or w)
    s, r = it_seq(a), it_seq(b)
    i = fresh("j", "usize")
    n = tmin(slen(s), slen(r))
    n = c.st.pc.facts.deep(n)
    return pit(smap(n, i, mk("tup", (sidx(s, i), sidx(r, i)))))


@P("iter::zip")
def m_zip2(c, v, w):
    a, b = iter_of(c, v, c.tys[0]), iter_of(c, w, c.tys[1])
    cc = Ctx(c.e, c.st, c.f, [c.tys[0], ("other",)], c.tys, c.dty, c.span, "zip")
    return m_zip(cc, a, b)


@P("iter::repeat_n")
def m_repeatn(c, v, n):
    return pit(srep(n, v))


@P("iter::once")
def m_once(c, v):
    return pit(seq([v]))


@TR("Iterator", "chain")
def m_chain(c, v, w):
    t = c.targs[1] if len(c.targs) > 1 else ("other",)
    w = iter_of(c, w, t)
    a, b = to_it(c, v), to_it(c, w)
    if a is None or b is None:
        return c.e.opq("chain of lazy iterators")
    return pit(cat(it_seq(a), it_seq(b)))


@TR("Iterator", "rev")
def m_rev(c, v):
    it = to_it(c, v)
    if it is None:
        return mk("lazy", "rev", v)
    return pit(srev(it_seq(it)))


@TR("Iterator", "copied")
@TR("Iterator", "cloned")
def m_copied(c, v):
    it = to_it(c, v)
    if it is None:
        return mk("lazy", "copied", v)
    return pit(values(c, it_seq(it)))


@TR("Iterator", "take")
def m_itake(c, v, n):
    if v.op == "ref":
        # by_ref().take(n): consumes from the underlying iterator when drained completely
        return mk("lazy", "take", v, n)
    it = to_it(c, v)
    if it is None:
        return mk("lazy", "take", v, n)
    s = it_seq(it)
    return pit(ssub(s, I(0), tmin(n, slen(s))))


@TR("Iterator", "skip")
def m_skip(c, v, n):
    it = to_it(c, v)
    if it is None:
        return c.e.opq("skip")
    s = it_seq(it)
    k = tmin(n, slen(s))
    return pit(ssub(s, k, sub(slen(s), k)))


@TR("Iterator", "step_by")
def m_stepby(c, v, n):
    it = to_it(c, v)
    if it is None:
        return c.e.opq("step_by")
    c.e.check(c.st, tnot(eq(n, I(0))), "step_by(0)", c.span)
    s = it_seq(it)
    i = fresh("j", "usize")
    return pit(smap(divceil(slen(s), n), i, sidx(s, mul(n, i))))


@TR("Iterator", "flatten")
def m_flatten(c, v):
    it = to_it(c, v)
    if it is None:
        return mk("lazy", "flatten", v)
    s = it_seq(it)
    return pit(flat_elems(c, s))


def flat_elems(c, s):
    """flatten a sequence whose elements are sequences / options / pointers to sequences"""
    def one(x):
        ptr = x.op in ("ref", "bx") or (x.op == "ite" and x.a[1].op in ("ref", "bx"))
        x = sv(c, x) if ptr else x
        return seqify(c, x)
    if s.op == "seq":
        return cat(*[one(x) for x in s.a[0]])
    if s.op == "cat":
        return cat(*[flat_elems(c, x) for x in s.a[0]])
    if s.op == "ite":
        return ite(s.a[0], flat_elems(c, s.a[1]), flat_elems(c, s.a[2]))
    i = fresh("k", "usize")
    return subst(engine.mk_scat(i, one(sidx(s, i))), {i: slen(s)})


def seqify(c, x):
    """iteration content of an IntoIterator value"""
    if x.op in ("it",):
        return it_seq(x)
    if x.op == "ite":
        return ite(x.a[0], seqify(c, x.a[1]), seqify(c, x.a[2]))
    if x.op == "adt" and x.a[0] == OPTION:
        return seq(list(x.a[2]))
    if x.op == "lazy":
        acc = c.e.alloc(c.st, seq([]))
        drain(c, x, lambda s, el, chunk: push_acc(c, s, acc, el, chunk))
        return c.e.load(c.st, acc)
    return x


def push_acc(c, s, acc, el, chunk):
    cur = c.e.load(s, acc)
    c.e.store(s, acc, cat(cur, chunk if chunk is not None else seq([el])))
    return [("cont", s)]


# ---- pulling: produce the next element of an iterator held in a cell
def pull(c, s, ref):
    """-> list of (tag, state, elem); tag in elem/skip/none/chunk"""
    e = c.e
    v = e.load(s, ref)
    if v.op == "ite":
        out = []
        cc = s.pc.facts.simp(v.a[0])
        for g, x in ((cc, v.a[1]), (tnot(cc), v.a[2])):
            s2 = s.copy()
            if s2.assume(g):
                e.store(s2, ref, x)
                out += pull(c, s2, ref)
        return out
    if v.op in ("ref",):
        return pull(c, s, v)
    if v.op == "bx":
        return [("opaque", s, None)]
    if v.op == "adt":
        k = v.a[0].rsplit("::", 1)[-1]
        if k in ("Range", "RangeFrom", "RangeInclusive"):
            a = v.a[2][0]
            has = lt(a, v.a[2][1]) if k == "Range" else le(a, v.a[2][1]) if k == "RangeInclusive" else TRUE
            return _split(c, s, has, lambda s1: (e.store(s1, ref, e.upd(v, (("f", 0),), add(a, I(1)))), a)[1])
    if v.op == "it":
        q, pos, end = v.a
        has = lt(pos, end)
        return _split(c, s, has, lambda s1: (e.store(s1, ref, mk("it", q, add(pos, I(1)), end)), sidx(q, pos))[1])
    if v.op == "lazy":
        kind = v.a[0]
        inner = v.a[1]
        if inner.op == "ref":
            tmp = inner
            put = lambda s1: None
        else:
            tmp = e.alloc(s, inner)

            def put(s1, extra=None):
                e.store(s1, ref, mk("lazy", kind, e.load(s1, tmp), *(extra if extra is not None else v.a[2:])))
        out = []
        if kind == "zip":
            for tag, s1, x in pull(c, s, tmp):
                put(s1)
                if tag != "elem":
                    out.append((tag, s1, x))
                    continue
                t2 = e.alloc(s1, v.a[2])
                for tg2, s2, y in pull(c, s1, t2):
                    e.store(s2, ref, mk("lazy", kind, e.load(s2, tmp), e.load(s2, t2)))
                    out.append((tg2, s2, mk("tup", (x, y)) if tg2 == "elem" else y))
            return out
        if kind == "take":
            n = v.a[2]
            for s0, has in ((s.copy(), lt(I(0), n)), (s.copy(), le(n, I(0)))):
                if not s0.assume(has):
                    continue
                if has is le(n, I(0)):
                    out.append(("none", s0, None))
                    continue
                for tag, s1, x in pull(c, s0, tmp):
                    e.store(s1, ref, mk("lazy", kind, inner if inner.op == "ref" else e.load(s1, tmp), sub(n, I(1))))
                    out.append((tag, s1, x))
            return out
        for tag, s1, x in pull(c, s, tmp):
            if tag in ("none", "skip", "opaque"):
                put(s1)
                out.append((tag, s1, x))
                continue
            if tag == "chunk":
                put(s1)
                out.append(("opaque", s1, x))
                continue
            try:
                if kind == "map":
                    y = e.callval(s1, v.a[2], [x])
                    put(s1)
                    out.append(("elem", s1, y))
                elif kind == "inspect":
                    put(s1)
                    out.append(("elem", s1, x))
                elif kind == "copied":
                    put(s1)
                    out.append(("elem", s1, e.load(s1, x) if x.op in ("ref", "bx") else x))
                elif kind == "enumerate":
                    put(s1, (add(v.a[2], I(1)),))
                    out.append(("elem", s1, mk("tup", (v.a[2], x))))
                elif kind == "filter":
                    g = e.callval(s1, v.a[2], [mk("bx", x)])
                    put(s1)
                    out += _fork(s1, g, lambda s2: ("elem", s2, x), lambda s2: ("skip", s2, None))
                elif kind == "filter_map":
                    y = e.callval(s1, v.a[2], [x])
                    put(s1)
                    out += _fork(s1, eq(e.disc(y), I(1)), lambda s2: ("elem", s2, e.proj(y, ("v", 1, 0, None))), lambda s2: ("skip", s2, None))
                elif kind in ("take_while", "map_while"):
                    if kind == "take_while":
                        g = e.callval(s1, v.a[2], [mk("bx", x)])
                        y = x
                    else:
                        o = e.callval(s1, v.a[2], [x])
                        g = eq(e.disc(o), I(1))
                        y = e.proj(o, ("v", 1, 0, None))
                    put(s1)
                    out += _fork(s1, g, lambda s2: ("elem", s2, y), lambda s2: ("none", s2, None))
                elif kind == "flat_map":
                    y = e.callval(s1, v.a[2], [x])
                    put(s1)
                    cc = with_st(c, s1)
                    out.append(("chunk", s1, chunk_of(cc, y)))
                elif kind == "flatten":
                    put(s1)
                    out.append(("chunk", s1, chunk_of(with_st(c, s1), x)))
                else:
                    put(s1)
                    out.append(("opaque", s1, None))
            except Dead:
                continue
        return out
    return [("opaque", s, None)]


def chunk_of(c, y):
    if y.op in ("ref", "bx"):
        return seqify(c, sv(c, y))
    return seqify(c, y)


def _split(c, s, has, f):
    out = []
    s1 = s.copy()
    if s1.assume(has):
        out.append(("elem", s1, f(s1)))
    s2 = s.copy()
    if s2.assume(tnot(has)):
        out.append(("none", s2, None))
    return out


def _fork(s, g, a, b):
    out = []
    s1 = s.copy()
    if s1.assume(g):
        out.append(a(s1))
    s2 = s.copy()
    if s2.assume(tnot(g)):
        out.append(b(s2))
    return out


@TR("Iterator", "next")
def m_next(c, p):
    e = c.e
    rs = []
    s0 = c.st.copy()
    outs = pull(c, c.st, p)
    if any(t in ("skip", "chunk") for t, _, _ in outs) and e.load(s0, p).op == "lazy":
        # filtering and flattening adaptors: their whole content, then its first element
        try:
            c2 = with_st(c, s0)
            q = seqify(c2, e.load(s0, p))
            e.store(s0, p, mk("it", q, I(0), slen(q)))
            c.st.cells, c.st.pc, c.st.ev = s0.cells, s0.pc, s0.ev
            outs = pull(c, c.st, p)
        except (Undet, Dead):
            pass
    for tag, s, x in outs:
        if tag == "elem":
            rs.append((s, some(x)))
        elif tag == "none":
            rs.append((s, NONE))
        else:
            rs.append((s, mk("opq", "iterator next", fresh("o"), None)))
            e.note_opaque("next on " + tag)
    return e.joinret(c.st, rs)


@TR("ExactSizeIterator", "len")
def m_exlen(c, p):
    v = deref(c, p)
    it = to_it(c, v)
    if it is None:
        return c.e.opq("iter len")
    return sub(it.a[2], it.a[1])


def literal_len(v):
    """number of elements of an iterator over a literal sequence, if it is one"""
    if v.op == "it" and v.a[0].op == "seq" and v.a[1].op == "int" and v.a[2].op == "int":
        return v.a[2].a[0] - v.a[1].a[0]
    if v.op == "lazy" and v.a[0] in ("map", "filter", "filter_map", "inspect", "cloned", "copied", "enumerate"):
        return literal_len(v.a[1])
    return None


def literal_map(c, m):
    """the entries of a map built by inserting distinct constant keys into the empty map"""
    ent = []
    while m.op == "minsert" and m.a[1].op == "adt" and not free_in(m.a[1], lambda x: x.op not in ("adt", "int")):
        if all(k is not m.a[1] for k, v in ent):
            ent.append((m.a[1], m.a[2]))
        m = m.a[0]
    if m.op != "map0":
        return None
    ent.sort(key=lambda kv: str(kv[0]), reverse=c.e.maporder == "rev")
    return ent


def drain(c, itv, step, name="iter"):
    """run `step(state, elem, chunk)` for every element; c.st becomes the state after exhaustion.
    step returns [(tag, state)]: 'cont' or an early-exit tag. Returns list of (tag, state) exits incl. 'done'."""
    e = c.e
    if itv.op == "ref":
        itc = itv
    else:
        itc = e.alloc(c.st, itv)

    def body(s):
        backs, exits = [], {}
        for tag, s1, x in pull(c, s, itc):
            if tag == "none":
                exits.setdefault("done", []).append(s1)
            elif tag == "skip":
                backs.append(s1)
            elif tag in ("elem", "chunk"):
                try:
                    for t, s2 in step(s1, x if tag == "elem" else None, x if tag == "chunk" else None):
                        if t == "cont":
                            backs.append(s2)
                        else:
                            exits.setdefault(t, []).append(s2)
                except Dead:
                    pass
            else:
                raise Undet("opaque iterator in " + c.name)
        return (e.merge(backs) if backs else None), [(k, e.merge(v)) for k, v in exits.items()]

    n = literal_len(e.load(c.st, itc))
    if n is not None and n <= 300:
        exs, s = [], c.st
        for _ in range(4 * n + 4):
            s, ex = body(s.copy())
            exs += ex
            if s is None:
                break
        else:
            raise Undet("iterator does not end")
    else:
        exs = e.loop(c.st, body, "%s:%s" % (e.stack[-1] if e.stack else "?", c.name))
    done = [s for t, s in exs if t == "done"]
    others = [(t, s) for t, s in exs if t != "done"]
    if not others:
        if not done:
            raise Dead()
        m = e.merge(done)
        c.st.cells, c.st.pc, c.st.ev = m.cells, m.pc, m.ev
        return []
    return [("done", s) for s in done] + others


def finish(c, exs, vals):
    """join the exits of a drain: vals(tag, state) -> value"""
    if not exs:
        return vals("done", c.st)
    return c.e.joinret(c.st, [(s, vals(t, s)) for t, s in exs])


def try_kind(t):
    if t[0] == "adt" and t[1] == RESULT:
        return "r"
    if t[0] == "adt" and t[1] == OPTION:
        return "o"
    return None


def empty_coll(c, t):
    if t[0] == "adt" and t[1] == "std::collections::HashMap":
        return mk("map0", c.e.tyname(t))
    return seq([])


def add_coll(c, s, t, acc, el, chunk):
    cur = c.e.load(s, acc)
    if t[0] == "adt" and t[1] == "std::collections::HashMap":
        if chunk is not None:
            raise Undet("collect chunks into map")
        c.e.store(s, acc, mk("minsert", cur, c.e.deepval(s, c.e.proj(el, ("f", 0, None))), c.e.proj(el, ("f", 1, None))))
    else:
        c.e.store(s, acc, cat(cur, chunk if chunk is not None else seq([el])))


@TR("Iterator", "collect")
def m_collect(c, v):
    e = c.e
    t = c.targs[1] if len(c.targs) > 1 else c.dty
    k = try_kind(t)
    if not k:
        it = to_it(c, v)
        if it is not None and not (t[0] == "adt" and t[1] == "std::collections::HashMap"):
            if v.op != "ref":
                return wrapcoll(c, t, it_seq(it))
        acc = e.alloc(c.st, empty_coll(c, t))

        def step(s, el, chunk):
            add_coll(c, s, t, acc, el, chunk)
            return [("cont", s)]
        exs = drain(c, v, step)
        return wrapcoll(c, t, finish(c, exs, lambda tg, s: e.load(s, acc)))
    inner = t[2][0]
    acc = e.alloc(c.st, empty_coll(c, inner))
    bad = e.alloc(c.st, UNDEF)
    okv = 0 if k == "r" else 1

    def step(s, el, chunk):
        if chunk is not None:
            raise Undet("collect chunks into Result")
        out = []
        g = s.pc.facts.simp(eq(e.disc(el), I(okv)))
        s1, s2 = s.copy(), s.copy()
        if s1.assume(g):
            add_coll(c, s1, inner, acc, e.proj(el, ("v", okv, 0, None)), None)
            out.append(("cont", s1))
        if s2.assume(tnot(g)):
            if k == "r":
                e.store(s2, bad, e.proj(el, ("v", 1, 0, None)))
            out.append(("bad", s2))
        return out

    exs = drain(c, v, step)

    def val(tg, s):
        if tg == "done":
            x = wrapcoll(c, inner, e.load(s, acc))
            return ok(x) if k == "r" else some(x)
        return err(e.load(s, bad)) if k == "r" else NONE

    return finish(c, exs, val)


def wrapcoll(c, t, x):
    if t[0] == "adt" and t[1] in ("std::sync::Arc", "std::boxed::Box"):
        return c.e.alloc(c.st, x)
    return x


@TR("Extend", "extend")
def m_extend(c, p, v):
    p = innermost(c, p)
    it = iter_of(c, v, c.tys[1])
    x = to_it(c, it)
    if x is not None:
        c.e.store(c.st, p, cat(c.e.load(c.st, p), values(c, it_seq(x))))
        return UNIT
    acc = p

    def step(s, el, chunk):
        cur = c.e.load(s, acc)
        c.e.store(s, acc, cat(cur, chunk if chunk is not None else seq([el])))
        return [("cont", s)]
    exs = drain(c, it, step)
    return finish(c, exs, lambda t, s: UNIT)


@TR("FromIterator", "from_iter")
def m_fromiter(c, v):
    cc = Ctx(c.e, c.st, c.f, [c.tys[0], c.targs[0]], c.tys, c.dty, c.span, "collect")
    return m_collect(cc, iter_of(c, v, c.tys[0]))


@TR("Iterator", "for_each")
def m_foreach(c, v, f):
    fc = c.e.alloc(c.st, f)

    def step(s, el, chunk):
        if chunk is not None:
            raise Undet("for_each over chunks")
        c.e.callval(s, fc, [el])
        return [("cont", s)]
    exs = drain(c, adaptor(c, v), step)
    return finish(c, exs, lambda t, s: UNIT)


@TR("Iterator", "try_for_each")
def m_tryforeach(c, p, f):
    e = c.e
    fc = e.alloc(c.st, f)
    bad = e.alloc(c.st, UNDEF)
    rt = c.dty

    def step(s, el, chunk):
        if chunk is not None:
            raise Undet("try_for_each over chunks")
        r = e.callval(s, fc, [el])
        k = try_kind(rt)
        okv = 0 if k == "r" else 1
        g = s.pc.facts.simp(eq(e.disc(r), I(okv)))
        out = []
        s1, s2 = s.copy(), s.copy()
        if s1.assume(g):
            out.append(("cont", s1))
        if s2.assume(tnot(g)):
            e.store(s2, bad, r)
            out.append(("bad", s2))
        return out

    exs = drain(c, p if p.op == "ref" else adaptor(c, p), step)
    k = try_kind(rt)
    return finish(c, exs, lambda t, s: (ok(UNIT) if k == "r" else some(UNIT)) if t == "done" else e.load(s, bad))


@TR("Iterator", "all", "any")
def m_all(c, p, f):
    e = c.e
    isall = c.name == "all"

    def step(s, el, chunk):
        if chunk is not None:
            raise Undet("all over chunks")
        r = e.callval(s, f, [el])
        stop = tnot(r) if isall else r
        out = []
        s1, s2 = s.copy(), s.copy()
        if s1.assume(tnot(stop)):
            out.append(("cont", s1))
        if s2.assume(stop):
            out.append(("stop", s2))
        return out
    exs = drain(c, p, step)
    return finish(c, exs, lambda t, s: B(isall) if t == "done" else B(not isall))


@TR("Iterator", "position", "find", "find_map")
def m_position(c, p, f):
    e = c.e
    idx = e.alloc(c.st, I(0))
    e.cellty[idx.a[0]] = (("int", "usize"), ())
    res = e.alloc(c.st, UNDEF)

    def step(s, el, chunk):
        if chunk is not None:
            raise Undet("position over chunks")
        if c.name == "find_map":
            o = e.callval(s, f, [el])
            r = eq(e.disc(o), I(1))
        elif c.name == "find":
            r = e.callval(s, f, [mk("bx", el)])
        else:
            r = e.callval(s, f, [el])
        out = []
        s1, s2 = s.copy(), s.copy()
        if s1.assume(tnot(r)):
            e.store(s1, idx, add(e.load(s1, idx), I(1)))
            out.append(("cont", s1))
        if s2.assume(r):
            e.store(s2, res, e.load(s2, idx) if c.name == "position" else el if c.name == "find" else e.proj(o, ("v", 1, 0, None)))
            out.append(("hit", s2))
        return out
    exs = drain(c, p, step)
    return finish(c, exs, lambda t, s: NONE if t == "done" else some(e.load(s, res)))


@TR("Iterator", "fold")
def m_fold(c, v, init, f):
    e = c.e
    acc = e.alloc(c.st, init)
    t = c.targs[1] if len(c.targs) > 1 else None
    if t:
        e.cellty[acc.a[0]] = (t, ())

    def step(s, el, chunk):
        if chunk is not None:
            raise Undet("fold over chunks")
        e.store(s, acc, e.callval(s, f, [e.load(s, acc), el]))
        return [("cont", s)]
    exs = drain(c, adaptor(c, v), step)
    return finish(c, exs, lambda t, s: e.load(s, acc))


@TR("Iterator", "try_fold")
def m_tryfold(c, p, init, f):
    e = c.e
    acc = e.alloc(c.st, init)
    t = c.targs[1] if len(c.targs) > 1 else None
    if t:
        e.cellty[acc.a[0]] = (t, ())
    bad = e.alloc(c.st, UNDEF)
    k = try_kind(c.dty)
    okv = 0 if k == "r" else 1

    def step(s, el, chunk):
        r = e.callval(s, f, [e.load(s, acc), el])
        out = []
        g = s.pc.facts.simp(eq(e.disc(r), I(okv)))
        s1, s2 = s.copy(), s.copy()
        if s1.assume(g):
            e.store(s1, acc, e.proj(r, ("v", okv, 0, e.tyname(t) if t else None)))
            out.append(("cont", s1))
        if s2.assume(tnot(g)):
            e.store(s2, bad, r)
            out.append(("bad", s2))
        return out
    exs = drain(c, p, step)
    return finish(c, exs, lambda t_, s: (ok(e.load(s, acc)) if k == "r" else some(e.load(s, acc))) if t_ == "done" else e.load(s, bad))


@TR("Iterator", "sum", "product")
def m_sum(c, v):
    e = c.e
    acc = e.alloc(c.st, I(0) if c.name == "sum" else I(1))
    e.cellty[acc.a[0]] = (c.targs[1] if len(c.targs) > 1 else c.dty, ())
    it = to_it(c, v)
    if it is not None:
        s = values(c, it_seq(it))
        if s.op == "seq":
            r = I(0) if c.name == "sum" else I(1)
            for x in s.a[0]:
                r = add(r, x) if c.name == "sum" else mul(r, x)
            return r

    def step(s, el, chunk):
        x = e.load(s, el) if el.op in ("ref", "bx") else el
        e.store(s, acc, add(e.load(s, acc), x) if c.name == "sum" else mul(e.load(s, acc), x))
        return [("cont", s)]
    exs = drain(c, adaptor(c, v), step)
    return finish(c, exs, lambda t, s: e.load(s, acc))


@TR("Iterator", "count")
def m_count(c, v):
    it = to_it(c, v)
    if it is not None:
        return sub(it.a[2], it.a[1])
    acc = c.e.alloc(c.st, I(0))
    c.e.cellty[acc.a[0]] = (("int", "usize"), ())

    def step(s, el, chunk):
        c.e.store(s, acc, add(c.e.load(s, acc), I(1) if chunk is None else slen(chunk)))
        return [("cont", s)]
    exs = drain(c, v, step)
    return finish(c, exs, lambda t, s: c.e.load(s, acc))


@TR("Iterator", "min", "max")
def m_itmin(c, v):
    s = seqify(c, adaptor(c, v))
    s = values(c, s)
    if s.op == "seq":
        if not s.a[0]:
            return NONE
        if all(isnum(x) or x.op in ("int", "poly", "sym", "idx", "min", "max", "vf", "rd", "call", "trunc") for x in s.a[0]):
            r = s.a[0][0]
            for x in s.a[0][1:]:
                r = tmin(r, x) if c.name == "min" else tmax(r, x)
            return some(r)
        raise Undet("minimum of non-numbers")
    return ite(eq(slen(s), I(0)), NONE, some(mk("call", "seq" + c.name, (s,), "u64")))


@TR("Iterator", "min_by_key", "max_by_key")
def m_itminkey(c, v, f):
    s = seqify(c, adaptor(c, v))
    if s.op != "seq":
        raise Undet(c.name)
    best = key = None
    for x in s.a[0]:
        k = c.e.callval(c.st, f, [c.e.alloc(c.st, x)])
        if k.op in ("adt", "tup"):
            raise Undet(c.name)
        if best is None:
            best, key = x, k
            continue
        # ties: min keeps the first, max the last
        g = lt(k, key) if c.name == "min_by_key" else le(key, k)
        best, key = ite(g, x, best), ite(g, k, key)
    return NONE if best is None else some(best)


@TR("Iterator", "reduce")
def m_reduce(c, v, f):
    s = seqify(c, adaptor(c, v))
    if s.op != "seq":
        raise Undet("reduce")
    if not s.a[0]:
        return NONE
    r = s.a[0][0]
    for x in s.a[0][1:]:
        r = c.e.callval(c.st, f, [r, x])
    return some(r)


@TR("Iterator", "last", "nth")
def m_last(c, v, *a):
    it = to_it(c, v if v.op != "ref" else c.e.load(c.st, v))
    if it is None:
        return c.e.opq(c.name)
    q, pos, end = it.a
    if c.name == "last":
        return ite(lt(pos, end), some(sidx(q, sub(end, I(1)))), NONE)
    n = a[0]
    has = lt(add(pos, n), end)
    if v.op == "ref":
        c.e.store(c.st, v, mk("it", q, ite(has, add(pos, n, I(1)), end), end))
    return ite(has, some(sidx(q, add(pos, n))), NONE)


@TR("DoubleEndedIterator", "next_back")
def m_nextback(c, p):
    it = to_it(c, c.e.load(c.st, p))
    if it is None:
        return c.e.opq("next_back")
    q, pos, end = it.a
    has = lt(pos, end)
    c.e.store(c.st, p, mk("it", q, pos, ite(has, sub(end, I(1)), end)))
    return ite(has, some(sidx(q, sub(end, I(1)))), NONE)


@TR("DoubleEndedIterator", "rev")
def m_rev2(c, v):
    return m_rev(c, v)


@P("ops::Range::contains", "Range::contains", "RangeInclusive::contains")
def m_rcontains(c, p, x):
    v = deref(c, p)
    x = deref(c, x)
    if "Inclusive" in c.f["path"]:
        return tand(le(v.a[2][0], x), le(x, v.a[2][1]))
    return tand(le(c.e.proj(v, ("f", 0, None)), x), lt(x, c.e.proj(v, ("f", 1, None))))


@P("Range::is_empty")
def m_rempty(c, p):
    v = deref(c, p)
    return le(c.e.proj(v, ("f", 1, None)), c.e.proj(v, ("f", 0, None)))


# ---------------------------------------------------------------- async
@TR("IntoFuture", "into_future")
def m_intofut(c, v):
    return v


@P("future::get_context")
def m_ctx(c, *a):
    return sym("cx")


@TR("Future", "poll")
def m_poll(c, p, cx):
    v = deref(c, p)
    return mk("adt", POLL, 0, (run_future(c, v, p),))


def run_future(c, v, p=None):
    e = c.e
    if v.op == "cor":
        b = e.P.bodies.get(v.a[0])
        if b is None:
            return e.opq("coroutine body")
        c.st.ev.append(("await", v.a[0], c.st.pc))
        return e.callbody(c.st, b, v.a[2], [v, sym("cx")])
    if v.op == "fut":
        if e.suspend:
            e.suspend(c, v)
        return FUTS[v.a[0]](c, *v.a[1:])
    if v.op == "ite":
        return e.branch(c.st, v.a[0], lambda s: run_future(with_st(c, s), v.a[1]), lambda s: run_future(with_st(c, s), v.a[2]))
    if v.op in ("ref", "bx"):
        return run_future(c, deref(c, v))
    c.st.ev.append(("await", "opaque", c.st.pc))
    return e.opq("poll of unknown future", v)


FUTS = {}


def FU(name):
    def d(f):
        FUTS[name] = f
        return f
    return d


@FU("stub")
def f_stub(c, v):
    return v


@TR("MetadataFetch", "fetch")
def m_fetch(c, recv, r):
    return mk("fut", "fetch", recv, r)


def file_of(c, recv):
    return FILE


FERR = mk("call", "fetch-error", (), None)


@FU("fetch")
def f_fetch(c, recv, r):
    a, b = c.e.proj(r, ("f", 0, "u64")), c.e.proj(r, ("f", 1, "u64"))
    c.st.ev.append(("fetch", c.e.deepval(c.st, recv) if recv.op != "ref" else recv, a, b, c.st.pc))
    if callable(c.e.fetch_mode):
        return c.e.fetch_mode(c, a, b)
    v = ssub(FILE, a, sub(b, a))
    if c.e.fetch_mode == "ok":
        return ok(v)
    if c.e.fetch_mode == "short":
        # the inner source may return any number of bytes
        w = mk("call", "fetched", (a, b), "seq:u8")
        return ok(w)
    g = mk("call", "fetch.ok", (a, b), "bool")
    return ite(g, ok(v), err(mk("call", "fetch.err", (a, b), None)))


@TR("AsyncFileReader", "get_bytes")
def m_getbytes(c, recv, r):
    return mk("fut", "get_bytes", recv, r)


@FU("get_bytes")
def f_getbytes(c, recv, r):
    return f_fetch(c, recv, r)


@TR("AsyncFileReader", "get_byte_ranges")
def m_getranges(c, recv, rs):
    return mk("fut", "get_ranges", recv, rs)


@FU("get_ranges")
def f_getranges(c, recv, rs):
    rs = sv(c, rs)
    c.st.ev.append(("fetch_ranges", recv, rs, c.st.pc))
    i = fresh("j", "usize")
    x = sidx(rs, i)
    a, b = c.e.proj(x, ("f", 0, "u64")), c.e.proj(x, ("f", 1, "u64"))
    n = slen(rs)
    v = smap(n, i, ssub(FILE, a, sub(b, a)))
    if c.e.fetch_mode == "ok":
        return ok(v)
    if c.e.fetch_mode == "short":
        return ok(mk("call", "fetched_ranges", (rs,), "seq:seq:u8"))
    if rs.op == "seq":
        g = TRUE
        for x in rs.a[0]:
            g = tand(g, mk("call", "fetch.ok", (c.e.proj(x, ("f", 0, "u64")), c.e.proj(x, ("f", 1, "u64"))), "bool"))
    else:
        g = tnot(mkexists(n, i, tnot(mk("call", "fetch.ok", (a, b), "bool"))))
    return ite(g, ok(v), err(mk("call", "fetchr.err", (rs,), None)))


@P("Mutex::new", "RwLock::new")
def m_mutexnew(c, v):
    return mk("adt", "tokio::sync::Mutex", 0, (c.e.alloc(c.st, v),))


@P("Mutex::lock", "RwLock::read", "RwLock::write")
def m_lock(c, p):
    if "tokio" not in c.f["path"] and "futures" not in c.f["path"]:
        return ok(f_lock(c, p))
    return mk("fut", "lock", p)


@P("Mutex::into_inner", "Mutex::get_mut")
def m_mutinner(c, p):
    v = deref(c, p)
    return c.e.load(c.st, v.a[2][0]) if c.name == "into_inner" else v.a[2][0]


@FU("lock")
def f_lock(c, p):
    v = deref(c, p)
    if v.op == "adt" and v.a[0] == "tokio::sync::Mutex":
        r = v.a[2][0]
    else:
        r = mk("opq", "mutex", fresh("o"), None)
    c.st.ev.append(("lock", r, c.st.pc))
    return mk("guard", r)


# tokio file: abstract (content, position)
@TR("AsyncSeekExt", "seek")
def m_seek(c, p, to):
    return mk("fut", "seek", p, to)


@FU("seek")
def f_seek(c, p, to):
    q = innermost(c, p)
    c.st.ev.append(("seek", q, c.e.deepval(c.st, to), c.st.pc))
    if to.op != "adt":
        raise Undet("seek")
    off = c.e.proj(to, ("v", to.a[1], 0, "u64" if to.a[1] == 0 else "i64"))
    pos = off if to.a[1] == 0 else add(FLEN if to.a[1] == 1 else afile_pos(c, q), off)
    c.e.store(c.st, q, mk("adt", "$afile", 0, (pos,)))
    g = mk("call", "seek.ok", (pos,), "bool")
    c.st.ev.append(("io", "seek.ok", g, c.st.pc))
    return ite(g, ok(pos), err(mk("call", "seek.err", (pos,), None)))


def afile_pos(c, q):
    v = c.e.load(c.st, q)
    if v.op == "adt" and v.a[0] == "$afile":
        return v.a[2][0]
    if v.op == "ite":
        def of(x):
            if x.op == "ite":
                return ite(x.a[0], of(x.a[1]), of(x.a[2]))
            return x.a[2][0] if x.op == "adt" and x.a[0] == "$afile" else mk("call", "fpos", (x,), "u64")
        return of(v)
    return mk("call", "fpos", (v,), "u64")


@TR("AsyncReadExt", "read_exact", "read", "read_buf", "read_to_end")
def m_aread(c, p, buf):
    return mk("fut", c.name, p, buf)


# the length of the file behind an AsyncRead
FLEN = sym("file length", "u64")


@TR("AsyncReadExt", "take")
def m_atake(c, p, n):
    return c.e.alloc(c.st, mk("adt", "$take", 0, (p, n)))


def atake(c, p):
    """(file place, most bytes to read or None)"""
    v = p
    for _ in range(8):
        if v.op == "adt" and v.a[0] == "$take":
            q, n = atake(c, v.a[2][0])
            return q, v.a[2][1] if n is None else tmin(n, v.a[2][1])
        if v.op not in ("ref", "bx", "guard"):
            break
        w = c.e.load(c.st, v.a[0] if v.op == "guard" else v)
        if w.op == "adt" and w.a[0] == "$take":
            v = w
            continue
        if w.op in ("ref", "bx", "guard"):
            v = w
            continue
        break
    return innermost(c, p if v.op == "guard" else v), None


@FU("read_exact")
def f_areadexact(c, p, buf):
    q, m = atake(c, p)
    pos = afile_pos(c, q)
    b = innermost(c, buf)
    n = slen(c.e.load(c.st, b))
    c.st.ev.append(("fileread", pos, n, c.st.pc))
    there = tor(eq(n, I(0)), le(add(pos, n), FLEN))
    if m is not None:
        there = tand(there, le(n, m))
    c.st.ev.append(("io", "read.ok", mk("call", "read.ok", (pos, n), "bool"), c.st.pc))
    g = tand(there, mk("call", "read.ok", (pos, n), "bool"))
    c.e.store(c.st, b, ite(g, ssub(FILE, pos, n), mk("call", "partial", (pos, n), "seq:u8")))
    c.e.store(c.st, q, mk("adt", "$afile", 0, (add(pos, n),)))
    return ite(g, ok(n), err(mk("call", "read.err", (pos, n), None)))


@FU("read_to_end")
def f_areadend(c, p, buf):
    q, m = atake(c, p)
    pos = afile_pos(c, q)
    b = innermost(c, buf)
    rest = sub(FLEN, pos) if c.e.implied(c.st, le(pos, FLEN)) else I(0) if c.e.implied(c.st, le(FLEN, pos)) else tmax(sub(FLEN, pos), I(0))
    n = rest if m is None or c.e.implied(c.st, le(rest, m)) else m if c.e.implied(c.st, le(m, rest)) else tmin(m, rest)
    c.st.ev.append(("fileread", pos, n, c.st.pc))
    g = mk("call", "read.ok", (pos, rest if m is None else m), "bool")
    c.st.ev.append(("io", "read.ok", g, c.st.pc))
    c.e.store(c.st, b, cat(c.e.load(c.st, b), ssub(FILE, pos, n)))
    c.e.store(c.st, q, mk("adt", "$afile", 0, (add(pos, n),)))
    return ite(g, ok(n), err(mk("call", "read.err", (pos, n), None)))


@FU("read")
@FU("read_buf")
def f_aread(c, p, buf):
    raise Undet("partial read")


# object_store
@TR("ObjectStoreExt", "get_range")
@TR("ObjectStore", "get_range")
def m_osget(c, s, path, r):
    return mk("fut", "os_get_range", c.e.deepval(c.st, s), c.e.deepval(c.st, path), r)


@FU("os_get_range")
def f_osget(c, s, path, r):
    a, b = c.e.proj(r, ("f", 0, "u64")), c.e.proj(r, ("f", 1, "u64"))
    c.st.ev.append(("fetch", mk("tup", (s, path)), a, b, c.st.pc))
    g = mk("call", "os.ok", (s, path, a, b), "bool")
    return ite(g, ok(mk("call", "os.range", (s, path, a, b), "seq:u8")), err(mk("call", "os.err", (s, path, a, b), None)))


@TR("ObjectStore", "get_ranges")
def m_osgets(c, s, path, rs):
    return mk("fut", "os_get_ranges", c.e.deepval(c.st, s), c.e.deepval(c.st, path), sv(c, rs))


@FU("os_get_ranges")
def f_osgets(c, s, path, rs):
    c.st.ev.append(("fetch_ranges", mk("tup", (s, path)), rs, c.st.pc))
    i = fresh("j", "usize")
    if rs.op == "seq":
        g = TRUE
        for x in rs.a[0]:
            g = tand(g, mk("call", "os.ok", (s, path, c.e.proj(x, ("f", 0, "u64")), c.e.proj(x, ("f", 1, "u64"))), "bool"))
    else:
        x = sidx(rs, i)
        g = tnot(mkexists(slen(rs), i, tnot(mk("call", "os.ok", (s, path, c.e.proj(x, ("f", 0, "u64")), c.e.proj(x, ("f", 1, "u64"))), "bool"))))
        i = fresh("j", "usize")
    x = sidx(rs, i)
    a, b = c.e.proj(x, ("f", 0, "u64")), c.e.proj(x, ("f", 1, "u64"))
    v = smap(slen(rs), i, mk("call", "os.range", (s, path, a, b), "seq:u8"))
    return ite(g, ok(v), err(mk("call", "oss.err", (s, path, rs), None)))


@TR("TryFutureExt", "map_err")
def m_fmaperr(c, f, g):
    return mk("fut", "map_err", f, g)


@FU("map_err")
def f_maperr(c, f, g):
    v = run_future(c, deref(c, f) if f.op in ("ref", "bx") else f)
    return c.e.branch(c.st, isvar(c, v, 0), lambda s: ok(payload(c, v, 0)), lambda s: err(c.e.callval(s, g, [payload(c, v, 1)])))


@TR("TryFutureExt", "map_ok")
def m_fmapok(c, f, g):
    return mk("fut", "map_ok", f, g)


@FU("map_ok")
def f_mapok(c, f, g):
    v = run_future(c, deref(c, f) if f.op in ("ref", "bx") else f)
    return c.e.branch(c.st, isvar(c, v, 0), lambda s: ok(c.e.callval(s, g, [payload(c, v, 0)])), lambda s: err(payload(c, v, 1)))


@TR("FutureExt", "boxed")
def m_boxed(c, f):
    return c.e.alloc(c.st, f)


# reqwest: request builder as a record of its parts
@P("Client::get")
def m_rqget(c, cl, url):
    return mk("adt", "$req", 0, (mk("call", "GET", (c.e.deepval(c.st, url),), None),))


@P("RequestBuilder::header")
def m_rqheader(c, rb, k, v):
    k = c.e.deepval(c.st, k)
    if k.op == "call" and k.a[0].startswith("const ") and "::header::" in k.a[0]:
        k = seq([I(b) for b in k.a[0].rsplit("::", 1)[-1].lower().replace("_", "-").encode()])
    elif k.op == "seq" and all(x.op == "int" for x in k.a[0]):
        k = seq([I(b) for b in bytes(x.a[0] for x in k.a[0]).lower()])
    return mk("adt", "$req", 0, (mk("call", "header", (c.e.deepval(c.st, rb), c.e.deepval(c.st, k), c.e.deepval(c.st, v)), None),))


@P("RequestBuilder::send")
def m_rqsend(c, rb):
    return mk("fut", "send", rb)


@FU("send")
def f_send(c, rb):
    c.st.ev.append(("http", rb, c.st.pc))
    g = mk("call", "http.ok", (rb,), "bool")
    return ite(g, ok(mk("adt", "$resp", 0, (rb,))), err(mk("call", "http.err", (rb,), None)))


def http_status(r):
    return mk("call", "http.status", (r,), "u16")


@P("Response::error_for_status")
def m_efs(c, r):
    n = http_status(r)
    return ite(tor(lt(n, I(400)), le(I(600), n)), ok(r), err(mk("call", "http.status_err", (r,), None)))


@P("Response::error_for_status_ref")
def m_efsr(c, r):
    n = http_status(deref(c, r))
    return ite(tor(lt(n, I(400)), le(I(600), n)), ok(r), err(mk("call", "http.status_err", (deref(c, r),), None)))


@P("Response::status")
def m_status(c, r):
    return mk("adt", "$status", 0, (http_status(deref(c, r)),))


@P("StatusCode::as_u16")
def m_statusnum(c, p):
    return deref(c, p).a[2][0]


@P("StatusCode::is_success", "StatusCode::is_client_error", "StatusCode::is_server_error", "StatusCode::is_redirection", "StatusCode::is_informational")
def m_statusis(c, p):
    n = deref(c, p).a[2][0]
    k = {"is_informational": 100, "is_success": 200, "is_redirection": 300, "is_client_error": 400, "is_server_error": 500}[c.name]
    return tand(le(I(k), n), lt(n, I(k + 100)))


@P("Response::bytes")
def m_rbytes(c, r):
    return mk("fut", "body", r)


@FU("body")
def f_body(c, r):
    g = mk("call", "http.body_ok", (r,), "bool")
    return ite(g, ok(mk("call", "http.body", (r,), "seq:u8")), err(mk("call", "http.body_err", (r,), None)))


# local decoder trait objects with unknown implementation
@TR("Decoder", "decode_tile")
def m_decodetile(c, recv, *a):
    args = (c.e.deepval(c.st, recv),) + tuple(c.e.deepval(c.st, x) for x in a)
    c.st.ev.append(("decode", args, c.st.pc))
    h = getattr(c.e, "codec_hook", None)
    if h is not None:
        return h(c, args)
    return codec_result("decode_tile", args)


@TR("Iterator", "size_hint")
def m_sizehint(c, p):
    return c.e.opq("size_hint")


@TR("Hash", "hash")
def m_hash(c, *a):
    return UNIT
