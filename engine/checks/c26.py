import itertools
import attrs as AT
import absint as AI
import strings as ST
import setsuite as SS
from absint import some, none
from scenes import rc
from selworld import SelWorld
from setops import Tree

TECHNIQUE = "abstract interpretation of the MIR of the document accessors, with the parser's id table as an arbitrary (stale or empty) cache, against a reference on the tree"
NOTE = "23 document shapes for title, head, body and document_element; get_element_by_id on every assignment of two ids to four elements, one of them detached, with every possible cached answer"
EXPLAIN = "title, head, body, document_element, get_root_node and get_element_by_id are interpreted from their MIR; the selectors they use run through the library's own (interpreted) parser and matchers. The id table that rphtml fills while parsing is not assumed to be up to date: its answer is any element or none. Nothing is executed."
ASSUME = ["rphtml's id table answers with some element of the parsed document, or none"]
WHERE = "src/lib.rs, src/mesdoc/interface/document.rs"
ACC = ("title", "head", "body", "document_element", "get_root_node")


class DocWorld(SelWorld):
    cache = None

    def doc(self, st):
        nm = self.I.fresh("document")
        st.heap[nm] = ("ag", "Document", None, ((0, ("s", "DOCHOLDER", "rphtml::parser::DocHolder")),))
        return nm

    def hook(self, I, st, name, key, args, t, body):
        if key == "DocHolder::get_element_by_id" and self.cache is not None:
            c = self.cache
            return [(st, some(rc(c), t["dt"]) if c != "-" else none(t["dt"]))]
        return SelWorld.hook(self, I, st, name, key, args, t, body)


def body_of(F, m):
    for (tr, mm), l in F.trait_impls.items():
        if mm == m and tr.split("::")[-1] == "IDocumentTrait":
            for ty, nm in l:
                if nm in F.bodies:
                    return nm
    for n in F.bodies:
        if n.endswith("::IDocumentTrait::" + m):
            return n
    return None


def shapes():
    out = []
    base = {"H": ("html", []), "X": ("head", []), "T": ("title", []), "B": ("body", []), "P": ("p", []), "Q": ("p", [])}

    def add(spec, texts=None, **kw):
        els = dict(base)
        els.update({k: (v, []) for k, v in kw.items()})
        out.append((spec, els, texts or {}))
    tx = {"t1": "one", "t2": "two", "t3": " "}
    add([["H", [["X", [["T", ["t1"]]]], ["B", ["P"]]]]], tx)
    add(["t3", ["H", ["t3x", ["X", ["P", ["T", ["t1"]]]], "c1", ["B", [["Q", ["t2"]]]]]]], dict(tx, t3x=" "))
    add([["H", [["X", ["P"]], ["B", [["T", ["t1"]]]]]]], tx)            # a title in the body only
    add([["H", [["X", [["T", []]]], ["B", []]]]], tx)                     # an empty title
    add([["H", [["X", [["T", ["t1"]], ["U", ["t2"]]]], ["B", []]]]], tx, U="title")
    add([["H", [["X", [["T", ["t1"]]]], ["Y", [["U", ["t2"]]]], ["B", []], ["C", []]]]], tx, U="title", Y="head", C="body")
    add([["H", [["X", []], ["Y", [["U", ["t2"]]]], ["B", []]]]], tx, U="title", Y="head")
    add([["X", [["T", ["t1"]]]], ["B", []]], tx)                          # no html element
    add([["H", []]], tx)
    add(["P", "Q"], tx)
    add([], tx)
    add([["H", [["B", [["C", []]]]]]], tx, C="body")
    add([["P", [["H", [["B", []]]]]], ["G", [["X", [["T", ["t1"]]]]]]], tx, G="html")
    add([["H", [["X", [["T", ["t1"]]]], ["B", [["P", []]]]]]], tx, H="HTML", X="HEAD", T="TITLE", B="Body")
    add([["H", [["X", [["N", [["T", ["t2"]]]]]], ["B", []]]]], tx, N="noscript")
    add([["B", [["X", [["T", ["t1"]]]]]], ["H", []]], tx)
    add([["P", [["B", []]]], ["C", []]], tx, C="body")
    add([["P", [["X", []]]], ["Y", [["T", ["t1"]]]]], tx, Y="head")
    add([["H", [["G", [["B", []]]]]]], tx, G="html")
    add([["T", ["t1"]], ["X", []], ["B", []]], tx)
    add([["H", [["X", [["T", ["t1", "c1", "t2"]]]]]]], tx)
    add([["X", [["Y", [["T", ["t1"]]]], ["U", ["t2"]]]]], tx, Y="head", U="title")
    add([["H", ["P"]]], tx, P="header", H="htmlx")
    return out


def want_of(W, m):
    def first(tag, under="ROOT"):
        return next((e for e in W.tree.order if W.tree.kind(e) == "Tag" and e != "ROOT" and e in W.known and ST.lower(W.known[e][0]) == tag and inside(e, under)), None)

    def inside(e, a):
        p = W.tree.parent.get(e)
        while p is not None:
            if p == a:
                return True
            p = W.tree.parent.get(p)
        return False
    if m == "get_root_node":
        return "ROOT"
    if m in ("head", "body"):
        return first(m)
    if m == "document_element":
        return first("html")
    h = first("head")
    if h is None:
        return None
    l = [e for e in W.tree.order if e in W.known and ST.lower(W.known[e][0]) == "title" and inside(e, h)]
    return "".join(W.text(e) for e in l) if l else None


def read(W, s, v):
    """None, a cell, a text, or '?'."""
    v = W.I.norm(s, v)
    if v[0] == "en":
        if v[2] == "None":
            return None
        if v[2] == "Some":
            v = W.I.norm(s, AI.fget(v[4], 0))
        else:
            return "?"
    c = W.cell_of(W.I, s, v)
    if c is not None:
        return c
    t = ST.text(W.I, s, v)
    return "?" if t is None else t


def access(F, case):
    m, i = case
    spec, els, texts = shapes()[i]
    W = DocWorld(F, spec, {k: v for k, v in els.items() if k in Tree(spec).order}, texts=texts)
    st = W.S.st
    nm = W.doc(st)
    b = body_of(F, m)
    if b is None:
        return
    outs = W.I.call_fn(st, b, [("r", (("H", nm), ()))])
    yield from judge(W, outs, want_of(W, m), "the accessor finds the element the document holds", False)


def judge(W, outs, want, rule, anyof):
    rows = AT.panic_rows(W)
    yield from rows
    if not outs and not rows:
        yield "", rule, "undecided", "no outcome"
    for s, v in outs:
        got = read(W, s, v)
        if got == "?" or len(outs) > 1:
            yield "", rule, "undecided", "result not known"
        else:
            ok = got in want if anyof else got == want
            yield "", rule, "proven" if ok else "undecided" if SS.outside(W.I, s) else "refuted", "gives %s instead of %s" % (got, want)


IDSPEC = [["A", ["t1", ["B", ["C"]]]], "D"]
IDLOOSE = [["X", ["Y"]]]
IDS = (None, "i", "j")


def by_id(F, case):
    ids, cache, ask = case
    names = "ABCDXY"
    els = {n: ("p", [("id", w)] if w else []) for n, w in zip(names, ids)}
    W = DocWorld(F, IDSPEC, els, loose=IDLOOSE)
    W.cache = cache
    st = W.S.st
    nm = W.doc(st)
    b = body_of(F, "get_element_by_id")
    outs = W.I.call_fn(st, b, [("r", (("H", nm), ())), ("str", ask)])
    inside = [n for n in "ABCD" if dict(zip(names, ids))[n] == ask]
    outer = [n for n in "XY" if dict(zip(names, ids))[n] == ask]
    yield from judge(W, outs, inside or (outer + [None]), "get_element_by_id finds an element that has the id now, whatever the parser's table says", True)


def id_cases(tier):
    out = []
    for k in itertools.product(IDS, repeat=4):
        for x in ((None, None), ("i", None), (None, "i")):
            ids = k + x
            if ids.count("i") > 3:
                continue
            for c in ("-", "A", "C", "D", "X", "Y") if tier == "thorough" or k.count("j") < 2 else ("-", "A", "X"):
                out.append((ids, c, "i"))
    return out


def run(ctx):
    n = len(shapes())
    AT.run_cases(ctx, [(m, i) for m in ACC for i in range(n)], access, lambda c: "%s of document %d %s" % (c[0], c[1], shapes()[c[1]][0]), WHERE)
    AT.run_cases(ctx, id_cases(ctx.tier), by_id, lambda c: "get_element_by_id(%r) with ids %s cached %s" % (c[2], " ".join("%s=%s" % (a, b) for a, b in zip("ABCDXY", c[0]) if b), c[1]), WHERE)
