"""C03: the declared byte order governs every multi-byte metadata value."""
import re
from api import *
from va_common import *
from checks import c01, c02

RULE = ("for both byte orders and both layouts: every header field, entry count, next-directory offset, entry field and tag value of every type equals the bytes of the file assembled in the "
        "order its first two bytes declare, and that same order is what the directories and the file report")
TECHNIQUE = "abstract interpretation of MIR: each value read is compared, as a term over the file's bytes, with the value assembled in the declared order"
EA = "EndianAwareReader"
READS = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64"]


def cursor(P, be, a, b):
    """two fields read one after the other from the same bytes"""
    def go():
        r = Run(P)
        bs = ssub(FILE, sym("at", "u64"), I(64))
        r.assume(lt(sym("at", "u64"), I(2 ** 40)), le(add(sym("at", "u64"), I(64)), slen(FILE)))
        p = r.ref(r.call(EA + "::new", pos={0: bs, 1: endian(r, be)}))
        rs, off = [], I(0)
        for ty in (a, b):
            w = "%s::read_%s" % (EA, ty)
            got = r.call(w, pos={0: p})
            rs.append(equation(r, r.val(got), ok(rd(ty, be, FILE, add(sym("at", "u64"), off))), where=w))
            off = add(off, I(WIDTH[ty]))
        return worst(rs + [nopanic(r, r.wf)])
    return go


def anchored(P):
    try:
        n = Run(P).N
        n.fn(EA + "::new")
        return [t for t in READS if _has(n, EA + "::read_" + t)]
    except Exception:
        return []


def _has(n, f):
    try:
        n.fn(f)
        return True
    except Exception:
        return False


def obligations(P, tier):
    obs = []
    have = anchored(P)
    for be in (False, True):
        for i, t in enumerate(have):
            obs.append(("cursor/%s/%s" % ("MM" if be else "II", t), cursor(P, be, t, have[(i + 3) % len(have)])))
    for m, rx in ((c02, r"^header/.*TIFF|^next-offset|^read-next|^directory|^chain/ok"), (c01, r"type")):
        for k, f in m.obligations(P, tier):
            if re.search(rx, k):
                obs.append(("%s/%s" % (m.__name__.split(".")[-1], k), f))
    return obs
