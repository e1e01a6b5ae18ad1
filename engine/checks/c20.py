import re
import absint as AI
import attrs as AT
import lin as L
import setcheck as SC
import setsuite as SS
from attrs import AttrWorld
from scenes import rc

TECHNIQUE = "abstract interpretation of the MIR of every public set method on empty, root, detached and mixed sets: no path may reach a panic"
NOTE = "sets of at most two elements over a document with text, comments, nested and detached elements; ranges and indexes at and beyond every boundary; stack depth and memory are out of scope (C34); Elements::contains with the combinators its own code refuses is excluded"
EXPLAIN = "Every public method of Elements and Texts is interpreted (MIR, no execution) on empty sets, the document root, detached elements, nested elements and mixtures of them, with unknown selectors results, unknown user callbacks, indexes 0,1,2,9,usize::MAX and every kind of range bound. No path may end in a panic: failed assertion (index, overflow), unwrap of None/Err, explicit panic, or a double borrow. Paths whose condition depends on a value the analysis has no model of stay undecided."
ASSUME = ["node links of the input document are consistent (C01)", "user callbacks return"]

SPEC = [["A", ["t0", ["B", ["t1"]], "c0", ["C", [["D", []]]]]], "t2", ["E", ["F", "G"]]]
LOOSE = [["Z", ["t9", "Y", ["X", ["W"]]]], "V"]
TAGS = {"A": ("div", [("class", "x y"), ("id", "a")]), "B": ("input", [("value", "v"), ("type", "text")]),
        "E": ("select", [("name", "n"), ("multiple", None)]), "F": ("option", [("selected", None)]), "G": ("option", [("value", "g")]),
        "Z": ("textarea", []), "V": ("select", []), "Y": ("script", [("class", "")])}
SETS = ([], ["A"], ["B"], ["E"], ["ROOT"], ["Z"], ["V"], ["Y"], ["A", "Z"], ["ROOT", "A"], ["Z", "V"], ["E", "V"], ["D"])
NONE_ARG = ("val", "text", "html", "htmls", "outer_html", "outer_htmls", "length", "is_empty", "document", "empty", "remove", "clone", "into_iter", "get_ref")
TEXTS = ["", "x", "x y", " ", "<b>", "\u00e9", "x\u0085y"]
NAMES = ["", "class", "id", "ID", "nope", "value"]
TSETS = ([], ["t0"], ["t2"], ["t9"], ["t0", "t1"], ["t1", "t9"], ["t1", "t1"], ["Y"], ["t9", "Y"], ["Y", "t1"])
TEXT_NODE = {"text": [()], "html": [()], "set_text": [(x,) for x in TEXTS], "append_text": [(x,) for x in TEXTS], "prepend_text": [(x,) for x in TEXTS],
             "set_html": [("",), ("x",)], "remove": [()], "owner_document": [()], "clone_node": [()], "root": [()], "parent": [()], "root_element": [()]}
MAX = 2 ** 64 - 1


def cases(F):
    C = []
    for s in SETS:
        k = tuple(s)
        for m in NONE_ARG:
            C.append(("set", m, k, ()))
        for m in ("for_each", "each", "map"):
            C.append(("set", m, k, (("fn",),)))
        for m in ("set_text", "set_html", "has_class", "add_class", "remove_class", "toggle_class"):
            for x in TEXTS:
                C.append(("set", m, k, (x,)))
        for m in ("attr", "has_attr", "remove_attr"):
            for x in NAMES:
                C.append(("set", m, k, (x,)))
        for x in NAMES:
            for v in (None, ("opt", ""), ("opt", "a'\"b"), ("opt", "x y")):
                C.append(("set", "set_attr", k, (x, v)))
        for i in (0, 1, 2, 9, MAX):
            C.append(("set", "get", k, (("n", i),)))
        for i in (0, 1, 2, MAX):
            C.append(("set", "texts", k, (("n", i),)))
            C.append(("set", "texts_by", k, (("n", i), ("bfn",))))
            C.append(("set", "texts_by_rec", k, (("n", i), ("bfn",), ("bfn",))))
    for s in TSETS:
        for m in ("length", "is_empty", "remove", "into_iter", "get_ref", "get_mut_ref"):
            C.append(("texts", m, tuple(s), ()))
        for m in ("for_each", "each", "filter_by"):
            C.append(("texts", m, tuple(s), (("fn",),)))
    for t in ("t0", "t1", "t2", "t9", "Y"):
        for m, l in TEXT_NODE.items():
            for a in l:
                C.append(("text", m, (t,), a))
    return C


def body_of(F, kind, m):
    t = {"set": "elements::Elements", "texts": "texts::Texts"}.get(kind)
    for n, b in F.bodies.items():
        if re.search(r"%s(::)?<'?\w+>::%s$|<[\w:]*%s<'?\w+> as [\w:]+>::%s$" % (t, m, t, m), n):
            return n
    return None


def interp(F, case):
    kind, m, cells, args = case
    W = AttrWorld(F, SPEC, TAGS, loose=LOOSE, max_steps=120000, max_states=1500)
    I, st = W.I, W.S.st
    # a callback may answer anything
    I.opt["on_usercall"] = lambda I, st, fv, a, t, body: [(st, ("s", I.fresh("u(") + ")", t["dt"]))] if t["dt"] == "bool" else None
    av = []
    for i, a in enumerate(args):
        if isinstance(a, tuple) and a[0] == "n":
            av.append(L.const(a[1]))
        elif a == ("fn",):
            av.append(("s", "USER%d" % i, "F"))
        elif a == ("bfn",):
            nm = I.fresh("fn%d" % i)
            st.heap[nm] = ("s", "USER%d" % i, "dyn Fn")
            av.append(("bx", nm))
        else:
            av.append(W.arg(a))
    if kind == "set":
        me = W.eles(list(cells))
        body = body_of(F, kind, m)
    elif kind == "texts":
        out = []
        for c in cells:
            nm = I.fresh("in:" + c)
            st.heap[nm] = rc(c)
            out.append(("one", ("bx", nm)))
        me = ("ag", "mesdoc::interface::texts::Texts<'_>", None, ((0, ("vec", tuple(out))),))
        body = body_of(F, kind, m)
    else:
        me = rc(cells[0])
        body = None
        for (tr, mm), l in F.trait_impls.items():
            if mm == m and tr.split("::")[-1] in ("INodeTrait", "ITextTrait"):
                for ty, nm in l:
                    if nm in F.bodies and body is None:
                        body = nm
        if body is None:
            body = SS.prim(F, m)
    if body is None:
        return W, None
    ty = F.bodies[body]["locals"][1]["ty"]
    if ty.startswith("std::boxed::Box"):
        nm = I.fresh("self")
        st.heap[nm] = me
        me = ("bx", nm)
    elif ty.startswith("&"):
        nm = I.fresh("self")
        st.heap[nm] = me
        me = ("r", (("H", nm), ()))
    if len(av) != F.bodies[body]["argc"] - 1:
        raise AI.Unsupported("unexpected signature")
    return W, I.call_fn(st, body, [me] + av)


def total(F, case):
    W, outs = interp(F, case)
    if outs is None:
        return
    rows = AT.panic_rows(W)
    for r in rows:
        yield r
    if not outs and not rows:
        yield "", "no panic", "undecided", "no path returns"
    elif not rows:
        yield "", "no panic", "proven", ""


def describe(case):
    kind, m, cells, args = case
    a = ", ".join("callback" if x in (("fn",), ("bfn",)) else str(x[1]) if isinstance(x, tuple) and x[0] == "n" else repr(x) for x in args)
    return "%s%s.%s(%s)" % ({"set": "", "texts": "texts", "text": "text "}[kind], list(cells), m, a)


def run(ctx):
    F = ctx.F
    J = [j for j in SS.total_jobs(ctx.tier) if not (j["m"] == "find" and j.get("label") == "list" and len(j["set"]) > 1)]
    SC.run(ctx, J, SC.panics)

    def where(c):
        return body_of(F, c[0], c[1]) if c[0] != "text" else SS.prim(F, c[1]) or c[1]
    AT.run_cases(ctx, cases(F), total, describe, where)
