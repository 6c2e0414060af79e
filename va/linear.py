"""Emptiness of the polyhedron spanned by path facts (Fourier-Motzkin with integer tightening)."""
from math import gcd
from term import *
from term import _p

INF = float("inf")


def lin(p):
    """poly -> (coefficients per monomial, constant)"""
    if p.op == "int":
        return {}, p.a[0]
    if p.op == "poly":
        d = {m: c for c, m in p.a[0]}
        k = d.pop((), 0)
        return d, k
    return {(p,): 1}, 0


def norm(d, k):
    """d + k <= 0, divided by the gcd of the coefficients and rounded up"""
    g = 0
    for c in d.values():
        g = gcd(g, c)
    if g > 1:
        return {m: c // g for m, c in d.items()}, -((-k) // g)
    return d, k


def infeasible(f, extra=(), maxrows=160, splits=5):
    """True when no integer point satisfies the facts of f and every p <= 0 in extra"""
    rows = []
    seen = set()

    def put(p, off=0):
        d, k = lin(p)
        k += off
        if any(isinstance(c, float) for c in d.values()) or isinstance(k, float):
            return True
        if not d:
            return k <= 0
        d, k = norm(d, k)
        key = (frozenset(d.items()), k)
        if key not in seen:
            seen.add(key)
            rows.append((d, k))
        return True

    for p in extra:
        if not put(p):
            return True
    cand = list(f.lts)
    for L, (lo, hi) in f.bounds.items():
        if hi != INF:
            cand.append(add(L, I(-hi - 1)))
        if lo != -INF:
            cand.append(add(scale(L, -1), I(lo - 1)))
    # what minima and maxima mean
    mms = {}
    todo = [x for p in cand for m in lin(p)[0] for x in m] + [x for d, _ in rows for m in d for x in m]
    while todo:
        x = todo.pop()
        if x.op in ("min", "max") and x not in mms and len(mms) < 12:
            mms[x] = 1
            for y in x.a[:2]:
                cand.append(add(sub(x, y) if x.op == "min" else sub(y, x), I(-1)))
                todo += [q for m in lin(y)[0] for q in m]
    # the part of the facts connected to the goal
    rel = set()
    for d, _ in rows:
        rel |= set(d)
    if not rows:
        for p in cand:
            rel |= set(lin(p)[0])
    used = [False] * len(cand)
    for _ in range(6):
        grew = False
        for i, p in enumerate(cand):
            if used[i]:
                continue
            d = lin(p)[0]
            if any(m in rel for m in d):
                used[i] = True
                if not put(p, 1):
                    return True
                for m in d:
                    if m not in rel:
                        rel.add(m)
                        grew = True
        if not grew or len(rows) > maxrows:
            break
    for m in rel:
        if len(m) == 1:
            lo, hi = f.irng(m[0])
        else:
            lo, hi = rng_m(f, m)
        if lo != -INF:
            put_row(rows, seen, {m: -1}, lo)
        if hi != INF:
            put_row(rows, seen, {m: 1}, -hi)
    mm = [x for x in mms if (x,) in rel][:splits]
    return _cases(rows, mm, maxrows)


def rng_m(f, m):
    lo = hi = 1
    for x in m:
        a, b = f.irng(x)
        if a < 0:
            return -INF, INF
        lo, hi = lo * a, (0 if b == 0 or hi == 0 else hi * b)
    return lo, hi


def put_row(rows, seen, d, k):
    key = (frozenset(d.items()), k)
    if key not in seen:
        seen.add(key)
        rows.append((d, k))


def _cases(rows, mm, maxrows):
    if fm(rows, maxrows):
        return True
    if not mm:
        return False
    x = mm[0]
    for y in x.a[:2]:
        # min(a, b) is a or b
        d, k = lin(sub(y, x) if x.op == "min" else sub(x, y))
        if not _cases(rows + [(d, k)], mm[1:], maxrows):
            return False
    return True


def fm(rows, maxrows):
    rows = [(dict(d), k) for d, k in rows]
    while True:
        for d, k in rows:
            if not d and k > 0:
                return True
        vs = {}
        for d, k in rows:
            for m, c in d.items():
                p = vs.setdefault(m, [0, 0])
                p[c > 0] += 1
        if not vs:
            return False
        m = min(vs, key=lambda v: (vs[v][0] * vs[v][1] - vs[v][0] - vs[v][1], len(v)))
        lo = [(d, k) for d, k in rows if d.get(m, 0) < 0]
        hi = [(d, k) for d, k in rows if d.get(m, 0) > 0]
        new = {}
        for d, k in rows:
            if m not in d:
                key = frozenset(d.items())
                if key not in new or new[key][1] < k:
                    new[key] = (d, k)
        for d1, k1 in lo:
            for d2, k2 in hi:
                a, b = d2[m], -d1[m]
                d = {}
                for q, c in d1.items():
                    if q != m:
                        d[q] = a * c
                for q, c in d2.items():
                    if q != m:
                        d[q] = d.get(q, 0) + b * c
                d = {q: c for q, c in d.items() if c}
                k = a * k1 + b * k2
                if not d:
                    if k > 0:
                        return True
                    continue
                d, k = norm(d, k)
                key = frozenset(d.items())
                if key not in new or new[key][1] < k:
                    new[key] = (d, k)
        rows = list(new.values())
        if len(rows) > maxrows * 4:
            return False


def implied(f, c, depth=0):
    """c holds on every integer point of the facts"""
    c = f.simp(c)
    if c is TRUE:
        return True
    if c is FALSE or depth > 6 or len(f.lts) > 120:
        return False
    if c.op == "lt0":
        return infeasible(f, (scale(c.a[0], -1),))
    if c.op == "not":
        x = c.a[0]
        if x.op == "eq0":
            return False
        if x.op == "ite":
            return implied(f, ite(x.a[0], tnot(x.a[1]), tnot(x.a[2])), depth + 1)
        return False
    if c.op == "eq0":
        return infeasible(f, (add(c.a[0], I(1)),)) and infeasible(f, (sub(I(1), c.a[0]),))
    if c.op == "ite":
        x, a, b = c.a
        if b is FALSE:
            return implied(f, x, depth + 1) and implied(f, a, depth + 1)
        if a is FALSE:
            return implied(f, tnot(x), depth + 1) and implied(f, b, depth + 1)
    return False


def head(c):
    """first literal of a boolean term"""
    while c.op in ("ite", "not"):
        c = c.a[0]
    return c


def taut(f, c, budget):
    """boolean term c holds under the facts, by splitting on its literals"""
    budget[0] -= 1
    if budget[0] < 0:
        return False
    c = f.deep(c)
    if c is TRUE or f.dead:
        return True
    if c.op == "ite":
        h = head(c)
        for x in (h, tnot(h)):
            g = f.copy()
            g.add(x)
            if not g.dead and not taut(g, c, budget):
                return False
        return True
    return implied(f, c) or infeasible(f)
