"""Scenarios for the tree mutators: initial shapes, interpretation, expected final shapes."""
import lin as L
import absint as AI
import models as M
from absint import some, none
from scenes import Scene, rc, nt, node_field, child_segs, OPTW, OPTV
from shape import *
from facts import simp, thead

N_T, E_T, T_T = ("mesdoc::interface::node::INodeTrait", "mesdoc::interface::element::IElementTrait", "mesdoc::interface::text::ITextTrait")


def impl(F, method):
    """Body of the node implementation of a trait method."""
    for (tr, m), l in F.trait_impls.items():
        if m == method and tr.split("::")[-1] in ("INodeTrait", "IElementTrait", "ITextTrait"):
            for self_ty, name in l:
                if "Node" in self_ty and name in F.bodies:
                    return name
    return None


class Run:
    def __init__(self, F, name, method, build, frag_is_doc=False, allow=None, parse=None):
        self.F, self.name, self.method = F, name, method
        self.results = []       # (final label, obligations)
        self.conflicts = []
        self.panics = []
        self.usercalls = []
        self.error = None
        self.finals = 0
        self.I = I = AI.Interp(F, on_call=self.hook, max_steps=60000, max_states=600)
        self.doc = frag_is_doc
        self.allow = allow
        self.parse = parse
        self.S = Scene(I)
        self.expect = None
        args = build(self)
        # the hidden root holds the document, so that refusals can be reported
        body = impl(F, method)
        if body is None:
            self.error = "no implementation of " + method
            return
        self.body = body
        try:
            outs = I.call_fn(self.S.st, body, args)
        except (AI.Budget, AI.Unsupported) as e:
            self.error = "%s: %s" % (type(e).__name__, e)
            return
        except RecursionError:
            self.error = "recursion"
            return
        self.finals = len(outs)
        self.outs = outs
        self.panics = I.panics

    def hook(self, I, st, name, key, args, t, body):
        last = name.split("::")[-1]
        if last == "trigger_error":
            st.ev = st.ev + (("report", body["name"], t["sp"]),)
            I.usercalls.append((body["name"], t["sp"], sorted({str(b[0]) for b in st.bor.values() if b[1] == "w" and b[0] not in ("D", "c:D")}), st))
            return [(st, AI.UNIT)]
        if key == "Node::is_document":
            return [(st, AI.tup(("b", self.doc), AI.TRUE))]
        if key == "parser::allow_insert" or last == "allow_insert":
            if self.allow is None:
                return [(st, AI.TRUE)]
            v = self.allow(I, st, args)
            return [(st, v)] if v is not None else None
        if key == "Doc::parse" and self.parse:
            return self.parse(I, st, t)
        if key == "DocHolder::get_root_node":
            return [(st, rc("D"))]
        if last == "tag_names" and name in self.F.bodies:
            M.touch(I, st, args[0], "r", body, t)
            return [(st, ("vec", (("opq", "tag", L.ZERO, L.sym("len(tag)", True), "char"),)))]
        if last == "check_if_content_tag" or key == "parser::is_content_tag":
            return None
        return None


def syms(*names):
    return [L.sym(n, True) for n in names]


def root_fields(I):
    return {}


def base(R, n_childs="grp", n_type="Tag", n_parent=True, extra_p=None):
    """P = [B.., N, A..] below Q below the hidden root R; N holds C.. or nothing."""
    S = R.S
    b, a, c = syms("b", "a", "c")
    S.cell("ROOT", "AbstractRoot", None, L.ZERO, ["Q"])
    S.cell("Q", "Tag", "ROOT", L.ZERO, ["P"])
    S.cell("P", "Tag", "Q", L.ZERO, [("g", "B", b), "N", ("g", "A", a)])
    S.group("B", "P", L.ZERO)
    S.group("A", "P", L.addc(b, 1))
    kids = [("g", "C", c)] if n_childs == "grp" else None
    S.cell("N", n_type, "P" if n_parent else None, b if n_parent else L.ZERO, kids)
    S.group("C", "N", L.ZERO)
    return S, b, a, c


def grp(g, ln, lo=L.ZERO):
    return ("grp", g, lo, ln)


def one(c):
    return ("one", rc(c))


def finals(R):
    out = []
    for i, (s, v) in enumerate(R.outs):
        out.append((s, Outcome(R.I, s, R)))
    return out


def reports(st):
    return sum(1 for e in st.ev if e[0] == "report")


# ---------------------------------------------------------------- builders
def build_set(method_text, node_type, childs, parsed=None):
    """set_text / set_html on N."""
    def build(R):
        S, b, a, c = base(R, childs, node_type)
        if parsed is not None:
            f = L.sym("f", True)
            if parsed == "grp":
                S.cell("D", "AbstractRoot", None, L.ZERO, [("g", "F", f)])
                S.group("F", "D", L.ZERO)
            elif parsed == "none":
                S.cell("D", "AbstractRoot", None, L.ZERO, None)
            else:
                S.cell("D", "AbstractRoot", None, L.ZERO, ["F0", "F1", "F2"])
                for i in range(3):
                    S.cell("F%d" % i, None, "D", L.const(i), None)
        return [S.ref(rc("N"), "self"), ("s", "content", "&str")]
    return build


def parse_both(I, st, t):
    s2 = st.copy()
    s2.ev = s2.ev + (("parse", "Err"),)
    st.ev = st.ev + (("parse", "Ok"),)
    return [(st, AI.ok(("s", "DH", "rphtml::parser::DocHolder"), t["dt"])),
            (s2, AI.err(("s", "perr", "?"), t["dt"]))]


def build_text_remove(R):
    S, b, a, c = base(R, None, "Text")
    return [S.boxed("N")]


def build_remove_child(other=False):
    def build(R):
        S, b, a, c = base(R)
        if other:
            return [S.ref(rc("Q"), "self"), S.boxed("N")]
        return [S.ref(rc("P"), "self"), S.boxed("N")]
    return build


KINDS = ("detached", "other", "before", "after", "child", "fragment", "fragment0", "rootless")


def build_insert(kind, n_childs, pos=None):
    """Target N, content X."""
    def build(R):
        S = R.S
        b, a, c = syms("b", "a", "c")
        b2, a2, f = syms("b2", "a2", "f")
        S.cell("ROOT", "AbstractRoot", None, L.ZERO, ["Q"])
        S.cell("Q", "Tag", "ROOT", L.ZERO, ["P"])
        R.lists = {}
        nk = [("g", "C", c)] if n_childs == "grp" else None
        S.group("C", "N", L.ZERO)
        plist = [("g", "B", b), "N", ("g", "A", a)]
        nidx = b
        S.group("B", "P", L.ZERO)
        S.group("A", "P", L.addc(b, 1))
        xp, xi, xkids, xt = None, L.ZERO, "any", "Tag"
        if kind == "other":
            S.cell("O", "Tag", None, L.ZERO, [("g", "B2", b2), "X", ("g", "A2", a2)])
            S.group("B2", "O", L.ZERO)
            S.group("A2", "O", L.addc(b2, 1))
            xp, xi = "O", b2
        elif kind == "before":
            plist = [("g", "B", b), "X", ("g", "B2", b2), "N", ("g", "A", a)]
            S.group("B2", "P", L.addc(b, 1))
            S.group("A", "P", L.addc(L.add(b, b2), 2))
            nidx = L.addc(L.add(b, b2), 1)
            xp, xi = "P", b
        elif kind == "after":
            plist = [("g", "B", b), "N", ("g", "B2", b2), "X", ("g", "A", a)]
            S.group("B2", "P", L.addc(b, 1))
            S.group("A", "P", L.addc(L.add(b, b2), 2))
            xp, xi = "P", L.addc(L.add(b, b2), 1)
        elif kind == "child":
            nk = [("g", "C", c), "X", ("g", "A2", a2)]
            S.group("A2", "N", L.addc(c, 1))
            xp, xi = "N", c
        elif kind in ("fragment", "fragment0"):
            xt = "AbstractRoot"
            xkids = [("g", "F", f)] if kind == "fragment" else None
            S.group("F", "X", L.ZERO)
        S.cell("P", "Tag", "Q", L.ZERO, plist)
        S.cell("N", "Tag", "P", nidx, nk)
        S.cell("X", xt, xp, xi, xkids)
        args = [S.ref(rc("N"), "self")]
        if pos is not None:
            args.append(S.ref(("en", "mesdoc::interface::element::InsertPosition", pos, None, ()), "pos"))
        args.append(S.ref(S.boxed("X"), "xref"))
        return args
    return build


def expected_lists(kind, n_childs, pos, st=None):
    """Child lists after the insertion (pos) or the replacement (pos None): dict owner -> segments."""
    b, a, c, b2, a2, f = syms("b", "a", "c", "b2", "a2", "f")
    if kind == "fragment" and st is not None and st.eq0(f):
        kind = "fragment0"
    plist = [grp("B", b), one("N"), grp("A", a)]
    nlist = [grp("C", c)] if n_childs == "grp" else []
    ins = [one("X")]
    exp = {}
    if kind == "other":
        exp["O"] = [grp("B2", b2), grp("A2", a2)]
    elif kind == "before":
        plist = [grp("B", b), grp("B2", b2), one("N"), grp("A", a)]
    elif kind == "after":
        plist = [grp("B", b), one("N"), grp("B2", b2), grp("A", a)]
    elif kind == "child":
        nlist = [grp("C", c), grp("A2", a2)]
    elif kind == "fragment":
        ins = [grp("F", f)]
        exp["X"] = []
    elif kind == "fragment0":
        ins = []
        exp["X"] = []
    k = plist.index(one("N"))
    if pos is None:
        if kind != "fragment0":
            plist[k:k + 1] = ins
    elif pos == "BeforeBegin":
        plist[k:k] = ins
    elif pos == "AfterEnd":
        plist[k + 1:k + 1] = ins
    elif pos == "AfterBegin":
        nlist = ins + nlist
    else:
        nlist = nlist + ins
    exp["P"] = plist
    exp["N"] = nlist
    return exp


# ---------------------------------------------------------------- suite
def doc_root(S):
    """Fields that give the hidden root a live document."""
    return dict(document=some(("wk", "DOC"), "std::option::Option<?>"))


def refuse_build(which, depth, pos):
    """N below a chain of `depth` ancestors; X is N, an ancestor, or a document."""
    def build(R):
        S = R.S
        b, a, c = syms("b", "a", "c")
        root = some(("wk", "ROOT"), OPTW)
        chain = ["P%d" % i for i in range(depth)]
        S.cell("ROOT", "AbstractRoot", None, L.ZERO, [chain[0]], **doc_root(S))
        for i, p in enumerate(chain):
            kids = [chain[i + 1]] if i + 1 < depth else [("g", "B", b), "N", ("g", "A", a)]
            S.cell(p, "Tag", chain[i - 1] if i else "ROOT", L.ZERO, kids, root=root)
        S.group("B", chain[-1], L.ZERO)
        S.group("A", chain[-1], L.addc(b, 1))
        S.cell("N", "Tag", chain[-1], b, [("g", "C", c)], root=root)
        S.group("C", "N", L.ZERO)
        if which == "self":
            x = "N"
        elif which == "doc":
            x = S.cell("X", "AbstractRoot", None, L.ZERO, [("g", "F", L.sym("f", True))])
            S.group("F", "X", L.ZERO)
        else:
            x = chain[which]
        R.cells = ["ROOT", "N"] + chain + (["X"] if which == "doc" else [])
        args = [S.ref(rc("N"), "self")]
        if pos is not None:
            args.append(S.ref(("en", "mesdoc::interface::element::InsertPosition", pos, None, ()), "pos"))
        args.append(S.ref(S.boxed(x), "xref"))
        R.heap0 = {c: S.st.heap[c] for c in R.cells}
        return args
    return build


class Scenario:
    def __init__(self, label, method, build, owners, expect=None, detached=(), free_groups=(), refuse=False, **kw):
        self.label, self.method, self.build, self.owners = label, method, build, owners
        self.expect, self.detached, self.free_groups, self.refuse, self.kw = expect, detached, free_groups, refuse, kw


def suite(tier="quick"):
    out = []
    for pos in POSITIONS + (None,):
        m = "insert_adjacent" if pos else "replace_with"
        for kind in ("detached", "other", "before", "after", "child", "fragment", "fragment0"):
            for nch in ("grp", "none"):
                if kind == "child" and nch == "none":
                    continue
                owners = ["ROOT", "Q", "P", "N"] + (["O"] if kind == "other" else []) + (["X"] if kind.startswith("frag") else [])
                out.append(Scenario("%s(%s; content %s, target childs %s)" % (m, pos or "-", kind, nch), m, build_insert(kind, nch, pos), owners,
                                    expect=lambda st, k=kind, n=nch, p=pos: expected_lists(k, n, p, st),
                                    detached=("N",) if pos is None and not kind.startswith("fragment") else ()))
        for depth in (1, 2, 3, 5):
            for which in ["self", "doc"] + list(range(depth)):
                if which in ("self", "doc") and depth != 2:
                    continue
                lab = "itself" if which == "self" else "a document" if which == "doc" else "its ancestor %d level(s) up" % (depth - which)
                out.append(Scenario("%s(%s) of %s refused" % (m, pos or "-", lab), m, refuse_build(which, depth, pos), [], refuse=True,
                                    frag_is_doc=(which == "doc")))
    b, a, c, f = syms("b", "a", "c", "f")

    def P_(mid):
        return dict(P=[grp("B", b)] + mid + [grp("A", a)])
    # content setters
    for nch in ("grp", "none"):
        out.append(Scenario("set_text on an element (childs %s)" % nch, "set_text", build_set(True, "Tag", nch), ["ROOT", "Q", "P", "N"],
                            expect=lambda st: P_([one("N")]), free_groups=(("C", c, "N"),) if nch == "grp" else ()))
        for parsed in ("grp", "none", "three"):
            for allow in ((None,) if parsed != "three" else (0, 1, 2, 3)):
                out.append(Scenario("set_html on an element (childs %s, parsed %s%s)" % (nch, parsed, "" if allow is None else ", %d refused" % allow), "set_html",
                                    build_set(False, "Tag", nch, parsed), ["ROOT", "Q", "P", "N"],
                                    expect=lambda st, pr=parsed, al=allow, n=nch: set_expect(st, pr, al, True, n), free_groups=(("C", c, "N"),) if nch == "grp" else (),
                                    parse=parse_both, allow=allow_n(allow)))
    for parsed in ("grp", "none", "three"):
        for allow in ((None,) if parsed != "three" else (0, 1, 2, 3)):
            out.append(Scenario("set_html on a text node (parsed %s%s)" % (parsed, "" if allow is None else ", %d refused" % allow), "set_html",
                                build_set(False, "Text", None, parsed), ["ROOT", "Q", "P"],
                                expect=lambda st, pr=parsed, al=allow: set_expect(st, pr, al, False, None), detached=("N?",),
                                parse=parse_both, allow=allow_n(allow)))
    out.append(Scenario("set_text on a text node", "set_text", build_set(True, "Text", None), ["ROOT", "Q", "P"], expect=lambda st: P_([one("N")])))
    out.append(Scenario("remove of a text node", "remove", build_text_remove, ["ROOT", "Q", "P"], expect=lambda st: P_([]), detached=("N",)))
    out.append(Scenario("remove_child", "remove_child", build_remove_child(), ["ROOT", "Q", "P", "N"], expect=lambda st: P_([]), detached=("N",)))
    out.append(Scenario("remove_child of another element's child", "remove_child", build_remove_child(True), ["ROOT", "Q", "P", "N"],
                        expect=lambda st: P_([one("N")])))
    return out


def allow_n(n):
    """The first n parsed nodes are refused inside the target."""
    if n is None:
        return None
    bad = {"F%d" % i for i in range(n)} if n != 2 else {"F1", "F2"}

    def allow(I, st, args):
        v = I.norm(st, args[-1])
        nm = v[1] if v[0] == "s" else v[3] if v[0] == "en" else ""
        for i in range(3):
            if nm and str(nm).startswith("F%d." % i):
                return ("b", "F%d" % i not in bad)
        return AI.TRUE
    allow.bad = bad
    return allow


def set_expect(st, parsed, allow, element, n_childs):
    """Child lists after set_html; None when the content is verbatim or parsing failed (nothing may change)."""
    b, a, c, f = syms("b", "a", "c", "f")
    P = [grp("B", b)]
    new = []
    if parsed == "grp":
        new = [grp("F", f)]
    elif parsed == "three":
        bad = allow_n(allow).bad
        new = [one("F%d" % i) for i in range(3) if "F%d" % i not in bad]
    ev = [e for e in st.ev if e[0] == "parse"]
    if not ev or ev[-1][1] == "Err":
        d = dict(P=P + [one("N"), grp("A", a)])
        if element:
            d["N"] = [grp("C", c)] if n_childs == "grp" else []
        return d
    if element:
        return dict(P=P + [one("N"), grp("A", a)], N=new)
    return dict(P=P + new + [grp("A", a)])


_CACHE = {}


def evaluate(F, sc):
    """Runs a scenario: dict(error, finals: [(state, Outcome)], run)."""
    key = (id(F), sc.label)
    if key in _CACHE:
        return _CACHE[key]
    try:
        R = Run(F, sc.label, sc.method, sc.build, **sc.kw)
    except Exception as e:
        import traceback
        R = None
        err = "%s: %s" % (type(e).__name__, e)
        if __import__("os").environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        _CACHE[key] = dict(error=err, run=None, finals=[])
        return _CACHE[key]
    if R.error:
        r = dict(error=R.error, run=R, finals=[])
    else:
        r = dict(error=None, run=R, finals=finals(R))
    _CACHE[key] = r
    return r
