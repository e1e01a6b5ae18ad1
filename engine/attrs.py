"""Attribute, class and text operations on elements with known attribute lists.

Attribute lists, names and values range over an abstract alphabet: one representative for every class of characters the
analysed functions can tell apart (their character and text constants are read from the MIR), every word up to a length.
"""
import gc
import itertools, os, re, signal, sys, time, multiprocessing
import lin as L
import absint as AI
import strings as ST
from absint import some, none
from scenes import rc
from setops import World, Tree, ELES, fields_of

META = "rphtml::parser::TagMeta"
ATTR = "rphtml::parser::Attr"
OPT = "std::option::Option<?>"
OPTM = "std::option::Option<std::cell::RefCell<rphtml::parser::TagMeta>>"


def attr_value(key, value, quote='"'):
    def data(x):
        return none("std::option::Option<rphtml::parser::AttrData>") if x is None else some(("ag", "rphtml::parser::AttrData", None, ((0, ST.charvec(x)),)), "std::option::Option<rphtml::parser::AttrData>")
    q = none("std::option::Option<char>") if value is None or quote is None else some(L.const(ord(quote)), "std::option::Option<char>")
    nq = value is not None and any(c in ST.WS or c in ST.MUST_QUOTE for c in value)
    return ("ag", ATTR, None, ((0, data(key)), (1, data(value)), (2, q), (3, ("b", nq))))


def meta_value(name, attrs):
    lst = ("vec", tuple(("one", attr_value(k, v)) for k, v in attrs))
    idx = {}
    for i, (k, v) in enumerate(attrs):
        idx[ST.lower(k)] = i
    mp = ("vec", tuple(("one", AI.tup(("str", k), L.const(i))) for k, i in idx.items()))
    return some(("ag", META, None, ((1, AI.FALSE), (2, AI.FALSE), (3, AI.FALSE), (4, ST.charvec(name)), (5, lst), (6, mp))), OPTM)


class AttrWorld(World):
    """A document whose elements have known tag names and attribute lists: {element: (tag, [(name, value)])}."""

    def __init__(self, F, spec, elements, loose=(), **kw):
        World.__init__(self, F, Tree(spec, loose), **kw)
        st = self.S.st
        mi = self.I.node_idx["meta"]
        for n in self.tree.order:
            v = st.heap[n]
            if n in elements or self.tree.kind(n) == "Tag":
                tag, attrs = elements.get(n, ("p", []))
                m = meta_value(tag, attrs)
            else:
                m = none(OPTM)
            st.heap[n] = ("ag", v[1], v[2], tuple(sorted([x for x in v[3] if x[0] != mi] + [(mi, m)])))

    # ---- reading the state
    def meta(self, st, n):
        from scenes import node_field
        v = self.I.norm(st, node_field(self.I, st, n, "meta"))
        if v[0] != "en" or v[2] != "Some":
            return None
        m = self.I.norm(st, AI.fget(v[4], 0))
        return m if m[0] == "ag" else None

    def attrs(self, st, n):
        """Stored attributes [(key, value, quote, need_quote)], '?' where not known; None when the list is not known."""
        I = self.I
        m = self.meta(st, n)
        if m is None:
            return None
        v = I.norm(st, AI.fget(m[3], 5))
        if v[0] != "vec" or any(g[0] != "one" for g in v[1]):
            return None
        out = []
        for g in v[1]:
            a = I.norm(st, g[1])
            if a[0] != "ag":
                return None
            row = []
            for i in (0, 1):
                x = I.norm(st, AI.fget(a[3], i) or ("u",))
                if x[0] == "en" and x[2] == "None":
                    row.append(None)
                elif x[0] == "en" and x[2] == "Some":
                    d = I.norm(st, AI.fget(x[4], 0))
                    c = ST.chars_of(I, st, AI.fget(d[3], 0)) if d[0] == "ag" and AI.fget(d[3], 0) is not None else None
                    row.append("?" if c is None else c)
                else:
                    row.append("?")
            x = I.norm(st, AI.fget(a[3], 2) or ("u",))
            if x[0] == "en" and x[2] == "None":
                row.append(None)
            elif x[0] == "en" and x[2] == "Some":
                c = ST.char(I, st, AI.fget(x[4], 0))
                row.append("?" if c is None else c)
            else:
                row.append("?")
            x = I.norm(st, AI.fget(a[3], 3) or ("u",))
            row.append(x[1] if x[0] == "b" else "?")
            out.append(tuple(row))
        return out

    def name_map(self, st, n):
        m = self.meta(st, n)
        if m is None:
            return None
        v = self.I.norm(st, AI.fget(m[3], 6))
        if v[0] != "vec":
            return None
        out = {}
        for g in v[1]:
            p = self.I.norm(st, g[1]) if g[0] == "one" else ("u",)
            if p[0] != "ag":
                return None
            k, i = ST.text(self.I, st, AI.fget(p[3], 0)), self.I.norm(st, AI.fget(p[3], 1))
            if k is None or not L.isint(i) or i[2]:
                return None
            out[k] = i[1]
        return out

    def attr_result(self, st, v):
        """Option<IAttrValue> as None / True / text / '?'."""
        v = self.I.norm(st, v)
        if v[0] == "en" and v[2] == "None":
            return None
        if v[0] == "en" and v[2] == "Some":
            return self.value_of(st, AI.fget(v[4], 0))
        return "?"

    def value_of(self, st, x):
        x = self.I.norm(st, x)
        if x[0] == "en" and x[2] == "True":
            return True
        if x[0] == "en" and x[2] == "Value":
            t = ST.text(self.I, st, AI.fget(x[4], 0))
            return "?" if t is None else t
        return "?"

    # ---- calls
    def do(self, st, method, eles, *args):
        obj = self.I.fresh("set")
        old, self.S.st = self.S.st, st
        try:
            st.heap[obj] = self.eles(eles)
        finally:
            self.S.st = old
        body = self.method(method)
        if body is None:
            raise AI.Unsupported("no method " + method)
        self.I.steps = 0
        return self.I.call_fn(st, body, [("r", (("H", obj), ()))] + [self.arg(a) for a in args])

    def node_do(self, st, method, ele, *args):
        from setsuite import prim
        nm = prim(self.F, method)
        if nm is None:
            raise AI.Unsupported("no method " + method)
        obj = self.I.fresh("node")
        st.heap[obj] = rc(ele)
        self.I.steps = 0
        return self.I.call_fn(st, nm, [("r", (("H", obj), ()))] + [self.arg(a) for a in args])

    @staticmethod
    def arg(a):
        if a is None:
            return none("std::option::Option<&str>")
        if isinstance(a, tuple) and a[0] == "opt":
            return some(("str", a[1]), "std::option::Option<&str>")
        return ("str", a) if isinstance(a, str) else a


# ---------------------------------------------------------------- alphabet
def constants(F, names):
    """Character constants and single-character texts in the bodies."""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if "char" in x and isinstance(x["char"], str) and len(x["char"]) == 1:
                out.add(x["char"])
            if isinstance(x.get("str"), str) and len(x["str"]) == 1:
                out.add(x["str"])
            if x.get("k") == "switch" and x.get("ty") == "char":
                for v in x.get("vals", ()):
                    try:
                        out.add(chr(int(v[0] if isinstance(v, list) else v)))
                    except Exception:
                        pass
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    for n in names:
        b = F.bodies.get(n)
        if b:
            walk(b["blocks"])
    return out


def reached(F, roots):
    from callgraph import CallGraph
    g = CallGraph(F)
    return g.reach(roots)


# ---------------------------------------------------------------- driver
BUDGET_S = 420
_F = None
_FN = None
_END = None


CASE_S = 45


def _one(case):
    if time.time() > _END:
        return case, [("", "case interpreted", "undecided", "time budget")], 0
    def late(*a):
        raise AI.Budget("time")
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, CASE_S)
    try:
        r = list(_FN(_F, case))
    except (AI.Budget, AI.Unsupported, RecursionError) as e:
        r = [("", "case interpreted", "undecided", "%s: %s" % (type(e).__name__, e))]
    except Exception as e:
        r = [("", "case interpreted", "undecided", "internal %s: %s" % (type(e).__name__, e))]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return case, r, 0


def run_cases(ctx, cases, fn, describe, where):
    """fn(F, case) yields (key, rule, status, detail); fork pool, global deadline."""
    global _F, _FN, _END
    _F, _FN = ctx.F, fn
    _END = time.time() + BUDGET_S
    sys.setrecursionlimit(20000)
    ctx.count("abstract cases", len(cases))
    n = min(8, os.cpu_count() or 1)
    if n <= 1 or len(cases) < 40:
        res = [_one(c) for c in cases]
    else:
        gc.freeze()
        with multiprocessing.get_context("fork").Pool(n) as pool:
            res = pool.map(_one, cases, chunksize=16)
    for case, rows, _ in res:
        d = describe(case)
        for key, rule, status, detail in rows:
            ctx.ob((d + ": " + key) if key else d, rule, status, where(case) if callable(where) else where, detail)


def panic_rows(W, what=""):
    """Panics on the interpreted paths; those that depend on unmodelled values stay undecided."""
    from setsuite import outside
    out, seen = [], set()
    for p in W.I.panics:
        k = (p["msg"], p["fn"])
        if k in seen:
            continue
        seen.add(k)
        st = p.get("st")
        taint = st is None or bool(outside(W.I, st))
        out.append(("%s in %s" % (p["msg"], p["fn"].split("::")[-1]), "no panic" + what, "undecided" if taint else "refuted", p["msg"] + " in " + p["fn"]))
    return out


ENT = {"&quot;": '"', "&apos;": "'", "&#34;": '"', "&#39;": "'", "&#x22;": '"', "&#x27;": "'"}


def unescape(s):
    for k, v in ENT.items():
        s = s.replace(k, v)
    return s


def words(alpha, n):
    for k in range(n + 1):
        for w in itertools.product(alpha, repeat=k):
            yield "".join(w)
