"""Shape obligations on the tree after a mutator: positions, parent links, exact child lists."""
import lin as L
import absint as AI
from absint import some, none
from scenes import Scene, rc, nt, node_field, child_segs, OPTW, OPTV
from facts import simp, thead

PROVEN, REFUTED, UNKNOWN = "proven", "refuted", "undecided"
POSITIONS = ("BeforeBegin", "AfterBegin", "BeforeEnd", "AfterEnd")


def tainted(I, st):
    for n in st.sub:
        if n in I.imprecise:
            return True
    for n in st.notv:
        if n in I.imprecise:
            return True
    for f in st.facts:
        for s in L.syms(f):
            if s in I.imprecise:
                return True
    return False


def imprecise_val(I, v):
    if isinstance(v, str):
        return v in I.imprecise
    if isinstance(v, tuple):
        return any(imprecise_val(I, x) for x in v)
    return False


def judge_eq(I, st, actual, expected):
    """Compare an abstract value with the expected one."""
    actual = I.norm(st, actual)
    if L.isint(actual) and L.isint(expected):
        d = L.sub(actual, expected)
        if st.eq0(d):
            return PROVEN
        if imprecise_val(I, d):
            return UNKNOWN
        up = L.feasible(st.facts, (L.addc(d, -1),)) or L.feasible(st.facts, (L.addc(L.scale(d, -1), -1),))
        return REFUTED if up else PROVEN
    if actual == expected:
        return PROVEN
    if actual[0] == "en" and expected[0] == "en":
        if actual[2] != expected[2]:
            return REFUTED
        if not expected[4]:
            return PROVEN
        x = AI.fget(actual[4], 0)
        if x is None:
            return UNKNOWN
        return judge_eq(I, st, x, expected[4][0][1])
    if actual[0] == "wk" and expected[0] == "wk":
        a, e = actual[1], expected[1]
        if a == e:
            return PROVEN
        if isinstance(a, tuple) or a in st.notes.get("cells", ()) or str(a).startswith("new~"):
            return REFUTED
        return UNKNOWN
    if imprecise_val(I, actual) or actual[0] in ("u", "s"):
        return UNKNOWN
    return UNKNOWN


def gcases(I, st, gid, x, fi):
    """Split on the ranges written so that a group field read at x is determined."""
    states = [st]
    for w in reversed(st.gw):
        if w[1] != gid or w[4] != fi:
            continue
        nxt = []
        for s in states:
            if w[0] == "w1":
                d = L.sub(w[2], x)
                for c in ((d, L.scale(d, -1)), (L.addc(d, -1),), (L.addc(L.scale(d, -1), -1),)):
                    s2 = s.copy()
                    if all(s2.add_ge(q) for q in c):
                        nxt.append(s2)
            else:
                lo, hi = w[2], w[3]
                for c in ((L.addc(L.sub(lo, x), -1),), (L.sub(x, lo), L.addc(L.sub(hi, x), -1)), (L.sub(x, lo), L.sub(x, hi))):
                    s2 = s.copy()
                    if all(s2.add_ge(q) for q in c):
                        nxt.append(s2)
        states = nxt
    return [(s, I.gread(s, gid, x, fi)) for s in states]


def worst(a, b):
    r = {PROVEN: 0, UNKNOWN: 1, REFUTED: 2}
    return a if r[a] >= r[b] else b


class Outcome:
    """Obligations on one final state."""

    def __init__(self, I, st, scen):
        self.I, self.st, self.scen = I, st, scen
        self.res = []
        self.taint = tainted(I, st)

    def add(self, what, status, detail=""):
        if status == REFUTED and self.taint:
            status = UNKNOWN
        self.res.append((what, status, detail))

    def field(self, cell, name):
        return node_field(self.I, self.st, cell, name)

    def show_segs(self, segs):
        o = []
        for s in segs:
            if s[0] == "one":
                v = self.I.norm(self.st, s[1])
                o.append(str(v[1]) if v[0] == "rc" else str(v[0]))
            elif s[0] == "grp":
                o.append("%s[%s..+%s]" % (s[1], L.show(s[2]), L.show(s[3])))
            else:
                o.append("?%s" % s[0])
        return "[" + ", ".join(o) + "]"

    def check_owner(self, owner):
        """Every node listed under owner has its offset as index and owner as parent."""
        I, st = self.I, self.st
        segs = child_segs(I, st, owner)
        if segs is None:
            self.add("childs of %s" % owner, UNKNOWN, "list not tracked")
            return None
        off = L.ZERO
        for s in segs:
            if s[0] == "one":
                v = I.norm(st, s[1])
                if v[0] != "rc":
                    self.add("element of %s" % owner, UNKNOWN, str(v)[:80])
                else:
                    c = v[1]
                    i = self.field(c, "index")
                    p = self.field(c, "parent")
                    known = isinstance(c, tuple) or c in st.notes["cells"] or str(c).startswith("new~")
                    r = judge_eq(I, st, i, off)
                    if not known and r == REFUTED:
                        r = UNKNOWN
                    self.add("index of %s in %s" % (c, owner), r, "recorded %s, is at %s" % (L.show(I.norm(st, i)), L.show(off)))
                    r = judge_eq(I, st, p, some(("wk", owner), OPTW))
                    if not known and r == REFUTED:
                        r = UNKNOWN
                    self.add("parent of %s in %s" % (c, owner), r, "recorded parent %s" % pshow(p))
            elif s[0] == "grp":
                x = I.fresh("x")
                L.NONNEG.add(x)
                xs = L.sym(x)
                g = st.copy()
                if g.add_ge(L.sub(xs, s[2])) and g.add_ge(L.addc(L.sub(L.add(s[2], s[3]), xs), -1)):
                    exp = L.add(off, L.sub(xs, s[2]))
                    r = PROVEN
                    det = ""
                    for s2, v in gcases(I, g, s[1], xs, I.node_idx["index"]):
                        q = judge_eq(I, s2, v, exp)
                        if q != PROVEN:
                            det = "%s[%s] records %s, is at %s" % (s[1], x, L.show(I.norm(s2, v)), L.show(exp))
                        r = worst(r, q)
                    self.add("indexes of %s in %s" % (s[1], owner), r, det)
                    r = PROVEN
                    det = ""
                    for s2, v in gcases(I, g, s[1], xs, I.node_idx["parent"]):
                        q = judge_eq(I, s2, v, some(("wk", owner), OPTW))
                        if q != PROVEN:
                            det = "%s[%s] records parent %s" % (s[1], x, pshow(v))
                        r = worst(r, q)
                    self.add("parents of %s in %s" % (s[1], owner), r, det)
            else:
                self.add("segment of %s" % owner, UNKNOWN, s[0])
            off = L.add(off, I.seglen(s))
        return segs

    def check_detached_group(self, gid, ln):
        I = self.I
        x = I.fresh("x")
        L.NONNEG.add(x)
        xs = L.sym(x)
        g = self.st.copy()
        r = PROVEN
        if g.add_ge(L.addc(L.sub(ln, xs), -1)):
            for s2, v in gcases(I, g, gid, xs, I.node_idx["parent"]):
                r = worst(r, judge_eq(I, s2, v, none(OPTW)))
        self.add("%s is detached" % gid, r, "still records a parent")

    def check_list(self, owner, expected):
        """The child list is exactly the expected sequence."""
        I, st = self.I, self.st
        segs = child_segs(I, st, owner)
        exp = I.normsegs(st, expected)
        if segs is None:
            self.add("list of %s" % owner, UNKNOWN)
            return
        self.add("list of %s is %s" % (owner, self.show_segs(exp)), self.same_segs(segs, exp), "is %s" % self.show_segs(segs))

    def same_segs(self, a, b):
        I, st = self.I, self.st
        a, b = list(a), list(b)
        unknown = any(x[0] not in ("one", "grp") for x in a) or any(
            x[0] == "one" and (I.norm(st, x[1])[0] != "rc" or not self.known(I.norm(st, x[1])[1])) for x in a)
        if len(a) != len(b):
            return UNKNOWN if unknown else REFUTED
        for x, y in zip(a, b):
            if x[0] == "one" and y[0] == "one":
                if I.norm(st, x[1]) != I.norm(st, y[1]):
                    return UNKNOWN if unknown else REFUTED
            elif x[0] == "grp" and y[0] == "grp":
                if x[1] != y[1]:
                    return UNKNOWN if unknown else REFUTED
                for i in (2, 3):
                    if not st.eq0(L.sub(x[i], y[i])):
                        return UNKNOWN if unknown or imprecise_val(I, x[i]) else REFUTED
            else:
                return UNKNOWN if unknown else REFUTED
        return PROVEN

    def known(self, c):
        return isinstance(c, tuple) or c in self.st.notes["cells"] or str(c).startswith("new~")

    def no_dup(self, owners):
        I, st = self.I, self.st
        seen = {}
        grps = {}
        r = PROVEN
        det = ""
        for o in owners:
            segs = child_segs(I, st, o)
            if segs is None:
                r = worst(r, UNKNOWN)
                continue
            for s in segs:
                if s[0] == "one":
                    v = I.norm(st, s[1])
                    if v[0] == "rc":
                        if v[1] in seen:
                            r = worst(r, REFUTED)
                            det = "%s is listed under %s and %s" % (v[1], seen[v[1]], o)
                        seen[v[1]] = o
                elif s[0] == "grp":
                    for (lo, ln, o2) in grps.get(s[1], []):
                        # overlap?
                        d1 = L.sub(L.add(lo, ln), s[2])
                        d2 = L.sub(L.add(s[2], s[3]), lo)
                        if L.feasible(st.facts, (L.addc(d1, -1), L.addc(d2, -1), L.addc(ln, -1), L.addc(s[3], -1))):
                            r = worst(r, REFUTED)
                            det = "nodes of %s are listed under %s and %s" % (s[1], o2, o)
                    grps.setdefault(s[1], []).append((s[2], s[3], o))
        self.add("no node listed twice", r, det)


def pshow(p):
    if p[0] == "en":
        if p[2] == "None":
            return "none"
        x = AI.fget(p[4], 0)
        return str(x[1]) if x else "some"
    return str(p)[:60]
