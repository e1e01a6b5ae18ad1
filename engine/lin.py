"""Affine integer terms and linear entailment (Fourier-Motzkin over small systems)."""
from functools import lru_cache

NONNEG = set()          # symbol names known to be >= 0


def const(c):
    return ("i", c, ())


ZERO = const(0)
ONE = const(1)


def sym(name, nonneg=False):
    if nonneg:
        NONNEG.add(name)
    return ("i", 0, ((name, 1),))


def isint(v):
    return isinstance(v, tuple) and len(v) == 3 and v[0] == "i"


def _mk(c, d):
    return ("i", c, tuple(sorted((k, v) for k, v in d.items() if v)))


def add(a, b):
    if not b[2]:
        return ("i", a[1] + b[1], a[2])
    if not a[2]:
        return ("i", a[1] + b[1], b[2])
    d = dict(a[2])
    for k, v in b[2]:
        d[k] = d.get(k, 0) + v
    return _mk(a[1] + b[1], d)


def scale(a, n):
    if n == 0:
        return ZERO
    return ("i", a[1] * n, tuple((k, v * n) for k, v in a[2]))


def sub(a, b):
    return add(a, scale(b, -1))


def addc(a, n):
    return ("i", a[1] + n, a[2])


def is_const(a):
    return not a[2]


def subst(a, name, val):
    """Replace symbol by affine value."""
    for k, v in a[2]:
        if k == name:
            r = ("i", a[1], tuple(x for x in a[2] if x[0] != name))
            return add(r, scale(val, v))
    return a


def show(a):
    if not isint(a):
        return str(a)
    s = []
    for k, v in a[2]:
        s.append(("" if v == 1 else "-" if v == -1 else "%d*" % v) + k)
    if a[1] or not s:
        s.append(str(a[1]))
    return "+".join(s).replace("+-", "-")


def syms(a):
    return [k for k, _ in a[2]]


def _norm(c):
    from math import gcd
    g = 0
    for _, v in c[2]:
        g = gcd(g, abs(v))
    if g > 1:
        return ("i", c[1] // g, tuple((k, v // g) for k, v in c[2]))   # floor: integer tightening
    return c


@lru_cache(200000)
def _feasible(cons):
    """cons: frozenset of affine terms, each >= 0."""
    cur = set()
    for c in cons:
        c = _norm(c)
        if not c[2]:
            if c[1] < 0:
                return False
            continue
        cur.add(c)
    # substitute equalities
    changed = True
    while changed:
        changed = False
        for c in list(cur):
            neg = scale(c, -1)
            if neg in cur:
                # c == 0 ; solve for a +-1 symbol
                for k, v in c[2]:
                    if abs(v) == 1:
                        # v*k + rest = 0 -> k = -rest/v
                        rest = ("i", c[1], tuple(x for x in c[2] if x[0] != k))
                        val = scale(rest, -v)
                        new = set()
                        for x in cur:
                            y = _norm(subst(x, k, val))
                            if not y[2]:
                                if y[1] < 0:
                                    return False
                                continue
                            new.add(y)
                        cur = new
                        changed = True
                        break
                if changed:
                    break
    # keep only the tightest of parallel constraints
    def tidy(cs):
        best = {}
        for c in cs:
            if c[2] not in best or c[1] < best[c[2]]:
                best[c[2]] = c[1]
        return {("i", v, k) for k, v in best.items()}
    cur = tidy(cur)
    while cur:
        occ = {}
        for c in cur:
            for k, v in c[2]:
                p, n = occ.get(k, (0, 0))
                occ[k] = (p + 1, n) if v > 0 else (p, n + 1)
        if not occ:
            break
        k = min(occ, key=lambda x: (occ[x][0] * occ[x][1], x))
        pos, neg, rest = [], [], []
        for c in cur:
            v = dict(c[2]).get(k, 0)
            (pos if v > 0 else neg if v < 0 else rest).append((c, v))
        new = {c for c, _ in rest}
        for a, va in pos:
            for b, vb in neg:
                r = _norm(add(scale(a, -vb), scale(b, va)))
                if not r[2]:
                    if r[1] < 0:
                        return False
                else:
                    new.add(r)
        cur = tidy(new)
        if len(cur) > 250:
            return True
    return True


def relevant(facts, goal_syms):
    """Facts connected with the given symbols."""
    seen = set(goal_syms)
    out = set()
    changed = True
    while changed:
        changed = False
        for f in facts:
            if f in out:
                continue
            fs = [k for k, _ in f[2]]
            if not fs or any(s in seen for s in fs):
                out.add(f)
                for s in fs:
                    if s not in seen:
                        seen.add(s)
                changed = True
    return out, seen


def feasible(facts, extra=()):
    ss = set()
    for e in extra:
        ss.update(k for k, _ in e[2])
    if extra:
        rel, seen = relevant(facts, ss)
    else:
        rel = set(facts)
        seen = {k for f in facts for k, _ in f[2]}
    cons = set(rel) | set(extra)
    for s in seen:
        if s in NONNEG:
            cons.add(("i", 0, ((s, 1),)))
    return _feasible(frozenset(cons))


def entails_ge(facts, a):
    """facts |= a >= 0"""
    if not a[2]:
        return a[1] >= 0
    if a[1] >= 0 and all(v > 0 and k in NONNEG for k, v in a[2]):
        return True
    return not feasible(facts, (addc(scale(a, -1), -1),))


def entails_eq(facts, a):
    if not a[2]:
        return a[1] == 0
    return entails_ge(facts, a) and entails_ge(facts, scale(a, -1))
