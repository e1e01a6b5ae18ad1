"""Element-set methods on bounded document shapes.

The shape (which nodes exist, their kinds and links) is enumerated; everything else - attributes, text, what a selector
matches, whether a selector parses - stays unknown: matchers are unknown predicates on nodes, and every path is followed.
"""
import re
import lin as L
import absint as AI
import models as M
from absint import some, none
from scenes import Scene, rc, nt, node_field, child_segs, OPTW, OPTV
from facts import simp, thead

COMB = "mesdoc::selector::Combinator"
SEL = "mesdoc::selector::Selector"
MATCHER = "mesdoc::selector::rule::Matcher"
QP = "mesdoc::selector::QueryProcess"
ELES = "mesdoc::interface::elements::Elements"
ERR = "mesdoc::error::Error"


class Tree:
    """Nested spec: [name, children]; names t*/c*/s* are text, comments and special nodes."""

    def __init__(self, spec, loose=()):
        self.kids, self.parent, self.order = {}, {}, []
        self._walk("ROOT", spec, None)
        for k in loose:         # elements outside the document
            nm, sub = (k, []) if isinstance(k, str) else (k[0], k[1])
            self._walk(nm, sub, None)
        self.pos = {n: i for i, n in enumerate(self.order)}

    def _walk(self, name, kids, parent):
        self.order.append(name)
        self.parent[name] = parent
        self.kids[name] = []
        for k in kids:
            nm, sub = (k, []) if isinstance(k, str) else (k[0], k[1])
            self.kids[name].append(nm)
            self._walk(nm, sub, name)

    @staticmethod
    def kind(n):
        return "AbstractRoot" if n.startswith("ROOT") else {"t": "Text", "c": "Comment", "s": "SpacesBetweenTag"}.get(n[0], "Tag")

    def elements(self):
        return [n for n in self.order if self.kind(n) == "Tag"]

    def childs(self, n):
        return [k for k in self.kids[n] if self.kind(k) == "Tag"]

    # axes of one element
    def axis(self, comb, n):
        p = self.parent[n]
        sib = self.childs(p) if p else [n]
        i = sib.index(n) if n in sib else 0
        if comb == "Children":
            return self.childs(n)
        if comb == "ChildrenAll":
            out = []
            for k in self.childs(n):
                out += [k] + self.axis("ChildrenAll", k)
            return out
        if comb == "Parent":
            return [p] if p and self.kind(p) == "Tag" else []
        if comb == "ParentAll":
            return (self.axis("ParentAll", p) + [p]) if p and self.kind(p) == "Tag" else []
        if n not in sib or not p:
            return [] if comb != "Chain" else [n]
        return {"Next": sib[i + 1:i + 2], "NextAll": sib[i + 1:], "Prev": sib[max(i - 1, 0):i], "PrevAll": sib[:i],
                "Siblings": sib[:i] + sib[i + 1:], "Chain": [n]}[comb]

    def union(self, comb, cells):
        out = set()
        for c in cells:
            out |= set(self.axis(comb, c))
        return sorted(out, key=lambda c: self.pos[c])


def fields_of(F, ty):
    """Field name -> index of a crate struct, from the places in the bodies and aggregates."""
    d = {}
    s = F.structs.get(ty)
    if s and s.get("fields"):
        for i, f in enumerate(s["fields"]):
            d[f[0]] = i
    return d


DOC_FIELDS = {"root": r"Rc<std::cell::RefCell<rphtml::parser::Node>>|RefNode", "onerror": r"Rc<std::cell::RefCell<std::option::Option<"}


def doc_index(F, name):
    """Field index in the parser's document type, from the places that read it."""
    cache = F.__dict__.setdefault("_docidx", {})
    if name not in cache:
        cache[name] = {"root": 14, "onerror": 16}[name]
        for b in F.bodies.values():
            for bl in b["blocks"]:
                for x in bl["s"]:
                    pl = (x.get("rv") or {}).get("pl") if isinstance(x, dict) else None
                    for e in (pl["p"] if pl else ()):
                        if e[0] == "f" and len(e) > 3 and e[2] == name and re.match(r"(std::rc::)?(%s)" % DOC_FIELDS[name], e[3]):
                            cache[name] = e[1]
    return cache[name]


def split_lookup(query):
    """The documented lookup optimisation: the segment of highest priority is searched first."""
    pr = [sum(x[3] if len(x) > 3 else 1 for x in seg) for seg in query]
    i = pr.index(max(pr))
    if i > 0 and query[0][0][2] in ("Children", "ChildrenAll"):
        return (query[:i], query[i:])
    return (None, query)


class World:
    """One interpretation: a document, hooks for the selector front end, events."""

    def __init__(self, F, tree, selector=None, parse="ok", max_steps=400000, max_states=4000, extra=None, recurse=12, unroll_nd=14, deadline=None, handler=False):
        self.F, self.tree = F, tree
        self.selector = selector
        self.parse = parse
        self.extra = extra
        self.prims = []
        self.uniq = set()
        self.handler = handler
        self.I = AI.Interp(F, on_call=self.hook, on_usercall=self.user, max_steps=max_steps, max_states=max_states,
                           recurse=recurse, unroll_nd=unroll_nd, max_depth=60, deadline=deadline)
        self.S = Scene(self.I)
        self.mf = fields_of(F, MATCHER)
        root = some(("wk", "ROOT"), OPTW)
        for n in tree.order:
            p = tree.parent[n]
            kw = dict(root=root)
            if n == "ROOT":
                kw["document"] = some(("wk", "DOC"), "std::option::Option<?>")
            idx = tree.kids[p].index(n) if p else 0
            isel = tree.kind(n) in ("Tag", "AbstractRoot")
            self.S.cell(n, tree.kind(n), p, L.const(idx), tree.kids[n] if tree.kids[n] else (None if not isel else []), **kw)
        for n in tree.order:
            self.S.boxed(n)
        self.S.st.heap["DOCV"] = ("ag", "rphtml::parser::Doc", "DOCV", tuple(sorted([(doc_index(F, "root"), rc("ROOT")), (doc_index(F, "onerror"), rc("ONERR"))])))
        h = self.S.st.heap
        h["ONERR"] = some(rc("HND"))
        h["HND"] = ("bx", "HNDB")
        h["HNDB"] = ("s", "HANDLER", "dyn Fn")

    # ---- values
    def eles(self, cells):
        f = fields_of(self.F, ELES)
        out = []
        for c in cells:
            nm = self.I.fresh("in:" + c)
            self.S.st.heap[nm] = rc(c)
            out.append(("one", ("bx", nm)))
        return ("ag", ELES, None, tuple(sorted([(f.get("nodes", 0), ("vec", tuple(out))), (f.get("doc", 1), none())])))

    def comb(self, c):
        return ("en", COMB, c, None, ())

    def matcher(self, kind, pred, prio=1):
        """kind: one | all | both | spec | cache; pred names the unknown predicate (None: always true)."""
        mf = self.mf
        opt = "std::option::Option<?>"
        st = self.S.st

        def h(what):
            nm = "H:%s:%s" % (what, pred)
            st.heap[nm] = ("s", nm, "dyn Fn")
            return some(("bx", nm), opt)
        f = {"all_handle": none(opt), "one_handle": none(opt), "specified_handle": none(opt), "priority": L.const(prio), "in_cache": ("b", kind == "cache")}
        if kind in ("one", "both"):
            f["one_handle"] = h("one")
        if kind in ("all", "both", "spec", "cache"):
            f["all_handle"] = h("cache" if kind == "cache" else "all")
        if kind == "cache":
            f["one_handle"] = h("one")
            self.uniq.add(pred)
        if kind == "spec":
            f["specified_handle"] = h("spec")
        return ("ag", MATCHER, None, tuple(sorted((mf[k], v) for k, v in f.items())))

    def rules(self, q):
        return ("vec", tuple(("one", ("vec", tuple(("one", AI.tup(self.matcher(x[0], x[1], x[3] if len(x) > 3 else 1), self.comb(x[2]))) for x in seg))) for seg in q))

    def mkselector(self, groups):
        """groups: list of (should_in or None, query); each a list of segments-lists [(kind, pred, comb)]."""
        qf = fields_of(self.F, QP)
        sf = fields_of(self.F, SEL)

        rules = self.rules
        ps = []
        for should, query in groups:
            so = none() if should is None else some(rules(should))
            ps.append(("one", ("ag", QP, None, tuple(sorted([(qf["should_in"], so), (qf["query"], rules(query))])))))
        return ("ag", SEL, None, ((sf["process"], ("vec", tuple(ps))),))

    # ---- hooks
    def hook(self, I, st, name, key, args, t, body):
        last = name.split("::")[-1]
        if self.extra:
            r = self.extra(I, st, name, key, args, t, body)
            if r is not None:
                return r
        if last == "trigger_error" and not self.handler:
            st.ev = st.ev + (("report",),)
            return [(st, AI.UNIT)]
        if last == "from_str" and "Selector" in name or key == "str::parse" and "Selector" in t["dt"]:
            return self.parse_result(I, st, args, t)
        if last == "make_comb_all":
            return [(st, AI.tup(self.matcher_st(st, "one", None), I.norm(st, args[-1])))]
        if name == "mesdoc::init":
            return [(st, AI.UNIT)]
        if key == "DocHolder::borrow":
            return [(st, ("gd", next(I.ctr), "r", (("H", "DOCV"), ())))]
        if key == "DocHolder::get_root_node":
            return [(st, rc("ROOT"))]
        if key == "Node::is_document":
            return [(st, AI.tup(AI.FALSE, AI.TRUE))]
        if last in ("index", "parent", "node_type", "typed", "clone_node", "child_nodes_length", "child_nodes_item"):
            return None
        return None

    def matcher_st(self, st, kind, pred):
        old, self.S.st = self.S.st, st
        try:
            return self.matcher(kind, pred)
        finally:
            self.S.st = old

    def parse_result(self, I, st, args, t):
        txt = I.norm(st, args[0])
        label = txt[1] if txt[0] in ("str", "s") else "?"
        outs = []
        for kind in ("ok", "err"):
            if self.parse not in ("both", kind):
                continue
            s = st.copy()
            # the same text parses the same way every time
            prev = [e for e in s.ev if e[0] == "parse" and e[1] == label]
            if prev and prev[0][2] != kind:
                continue
            if not prev:
                s.ev = s.ev + (("parse", label, kind),)
            if kind == "ok":
                outs += self.parsed(I, s, label, self.lookup_arg(I, s, args), t)
                continue
            else:
                v = AI.err(("s", "E:" + str(label), ERR), t["dt"])
            outs.append((s, v))
        return outs

    def lookup_arg(self, I, st, args):
        if len(args) < 2:
            return AI.TRUE          # FromStr
        v = I.norm(st, args[1])
        if v[0] != "b":
            raise AI.Unsupported("lookup mode not known")
        return v

    def parsed(self, I, st, label, lookup, t):
        """A parsed selector: the written segments, passed through the library's own optimisation."""
        spec = self.selector(label) if callable(self.selector) else self.selector
        old, self.S.st = self.S.st, st
        try:
            opt = [n for n in self.F.bodies if n.endswith("selector::Selector::optimize")]
            if not opt:
                full = [(None, (sh or []) + qq) for sh, qq in spec]
                if lookup == AI.TRUE:
                    full = [split_lookup(qq) for _, qq in full]
                return [(st, AI.ok(self.mkselector(full), t["dt"]))]
            groups = ("vec", tuple(("one", self.rules((sh or []) + qq)) for sh, qq in spec))
            obj = I.fresh("selector")
            st.heap[obj] = self.mkselector([])
        finally:
            self.S.st = old
        out = []
        for s, _ in I.call_fn(st, opt[0], [("r", (("H", obj), ())), groups, lookup]):
            out.append((s, AI.ok(I.norm(s, s.heap[obj]), t["dt"])))
        return out

    def cell_of(self, I, st, v):
        v = I.norm(st, v)
        n = 0
        while n < 8:
            n += 1
            if v[0] == "r":
                v = I.norm(st, I.read(st, v[1]))
            elif v[0] == "bx":
                v = I.norm(st, st.heap.get(v[1], AI.UNDEF))
            elif v[0] == "gd":
                v = I.norm(st, I.read(st, v[3]))
            else:
                break
        return v[1] if v[0] in ("rc", "wk") else None

    def cells(self, I, st, v):
        """Cell names of an Elements value; None when not fully known."""
        v = I.norm(st, v)
        n = 0
        while v[0] == "r" and n < 5:
            v = I.norm(st, I.read(st, v[1]))
            n += 1
        if v[0] == "ag":
            f = fields_of(self.F, ELES)
            v = AI.fget(v[3], f.get("nodes", 0))
            v = I.norm(st, v) if v is not None else ("u",)
        if v[0] != "vec":
            return None
        out = []
        for s in I.normsegs(st, v[1]):
            if s[0] != "one":
                return None
            c = self.cell_of(I, st, s[1])
            if c is None:
                return None
            out.append(c)
        return out

    def truth(self, I, st, pred, cell):
        """Fork on an unknown predicate of a node: list of (state, bool)."""
        if pred == "None":
            return [(st, True)]
        sym = ("s", "%s(%s)" % (pred, cell), "bool")
        out = []
        for tr in (True, False):
            for s in I.assume(st.copy(), sym, tr):
                out.append((s, tr))
        return out

    def unique(self, I, st, pred):
        """The one element an id predicate holds for: list of (state, cell or None)."""
        els = self.tree.elements()
        out = []
        for x in els + [None]:
            work = [st.copy()]
            for c in els:
                work = [s2 for s in work for s2 in I.assume(s, ("s", "%s(%s)" % (pred, c), "bool"), c == x)]
            out += [(s, x) for s in work]
        return out

    def known(self, I, st, pred, cell):
        if pred in (None, "None"):
            return True
        v = I.norm(st, ("s", "%s(%s)" % (pred, cell), "bool"))
        return v[1] if v[0] == "b" else None

    def user(self, I, st, fv, args, t, body):
        if fv[0] == "s" and fv[1] == "HANDLER":
            e = I.norm(st, args[0]) if args else ("u",)
            st.ev = st.ev + (("report", e[1] if e[0] == "s" else "?"),)
            return [(st, AI.UNIT)]
        if fv[0] != "s" or not str(fv[1]).startswith("H:"):
            return None
        _, kind, pred = fv[1].split(":", 2)
        if kind == "one":
            c = self.cell_of(I, st, args[0])
            if c is None:
                raise AI.Unsupported("matcher on unknown node")
            if c.startswith("ROOT") or Tree.kind(c) != "Tag":
                st.ev = st.ev + (("asked", c),)
            if pred in self.uniq:
                return [(s, ("b", x == c)) for s, x in self.unique(I, st, pred)]
            return [(s, ("b", tr)) for s, tr in self.truth(I, st, pred, c)]
        if kind in ("all", "cache"):
            cs = self.cells(I, st, args[0])
            if cs is None:
                raise AI.Unsupported("matcher on unknown set")
            if kind == "cache":
                # an id: at most one element of the document has it; with the cache it is looked up in the whole document
                uc = I.norm(st, args[1])
                whole = uc[0] == "en" and uc[2] == "Some" and AI.fget(uc[4], 0) == AI.TRUE
                return [(s, self.eles_st(s, [x] if x and (whole or x in cs) else [])) for s, x in self.unique(I, st, pred)]
            work = [(st, [])]
            for c in cs:
                nw = []
                for s, acc in work:
                    for s2, tr in self.truth(I, s, pred, c):
                        nw.append((s2, acc + [c] if tr else acc))
                work = nw
            return [(s, self.eles_st(s, acc)) for s, acc in work]
        if kind == "spec":
            # calls back for every element child: (child, matched, descend)
            c = self.cell_of(I, st, args[0])
            if c is None:
                raise AI.Unsupported("matcher on unknown node")
            work = [st]
            for k in self.tree.childs(c):
                nw = []
                for s in work:
                    for s2, tr in self.truth(I, s, pred, k):
                        s2.heap["arg:" + k] = rc(k)
                        for s3, _ in I.call_value(s2, args[1], [("r", (("H", "arg:" + k), ())), ("b", tr), AI.TRUE], t, body):
                            nw.append(s3)
                work = nw
            return [(s, AI.UNIT) for s in work]
        return None

    def eles_st(self, st, cells):
        old, self.S.st = self.S.st, st
        try:
            return self.eles(cells)
        finally:
            self.S.st = old

    # ---- running
    def method(self, name):
        for n in self.F.bodies:
            if re.search(r"elements::Elements::<'?\w+>::%s$" % re.escape(name), n) or re.search(r"elements::Elements::%s$" % re.escape(name), n):
                return n
        return None

    def call(self, name, args):
        body = self.method(name) if name not in self.F.bodies else name
        if body is None:
            raise AI.Unsupported("no method " + name)
        return self.I.call_fn(self.S.st, body, args)
