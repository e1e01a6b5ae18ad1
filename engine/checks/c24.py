import itertools
import attrs as AT
import absint as AI
import strings as ST
import setsuite as SS
import lin as L
from attrs import AttrWorld
from setops import Tree

TECHNIQUE = "abstract interpretation of the MIR of the content readers on known documents; the renderer of rphtml is an uninterpreted function of node and options"
NOTE = "text, html, outer_html and their set forms as terms over the renderer; form values on every select with up to three options in and out of groups; text-node collection for every depth limit on trees of depth three"
EXPLAIN = "The readers are interpreted from their MIR with rphtml's Node::build as an uninterpreted function: what is returned must be the term the documentation prescribes (which nodes, in which order, decoded or not, inner or outer). Form values and collected text nodes are compared with a reference. Nothing is executed."
ASSUME = ["rphtml's Node::build(options, inner_text) renders the node it is called on; its output is not analysed (C32)"]
WHERE = "src/lib.rs, src/mesdoc/interface/elements.rs"
OPTS = ["minify_spaces", "lowercase_tagname", "remove_endtag_space", "remove_attr_quote", "remove_comment", "always_close_void", "inner_html", "decode_entity", "encode_content"]


def token(cell, inner_text, opts):
    return "{%s %s %s}" % (cell, "text" if inner_text else "-", "+".join(sorted(opts)))


class ReadWorld(AttrWorld):
    def hook(self, I, st, name, key, args, t, body):
        last = name.split("::")[-1]
        if last == "default" and "RenderOptions" in t["dt"]:
            return [(st, ("ag", "rphtml::config::RenderOptions", None, tuple((i, AI.FALSE) for i in range(len(OPTS)))))]
        if last == "build" and "Node" in name and len(args) == 3:
            v, cell = args[0], None
            for _ in range(6):
                v = I.norm(st, v)
                if v[0] == "rc":
                    cell = v[1]
                    break
                if v[0] != "r":
                    break
                if v[1][0][0] == "H" and v[1][0][1] in self.tree.kids and not v[1][1]:
                    cell = v[1][0][1]
                    break
                v = I.read(st, v[1])
            o = args[1]
            for _ in range(4):
                o = I.norm(st, o)
                if o[0] != "r":
                    break
                o = I.read(st, o[1])
            inner = I.norm(st, args[2])
            if cell is None or inner[0] != "b" or o[0] != "ag":
                raise AI.Unsupported("rendering not known")
            on = []
            for i, n in enumerate(OPTS):
                b = I.norm(st, AI.fget(o[3], i) or ("u",))
                if b[0] != "b":
                    raise AI.Unsupported("rendering option not known")
                if b[1]:
                    on.append(n)
            return [(st, ST.charvec(token(cell, inner[1], on)))]
        if key == "Node::is_document":
            return [(st, AI.tup(AI.FALSE, AI.TRUE))]
        return AttrWorld.hook(self, I, st, name, key, args, t, body)


# ---------------------------------------------------------------- rendering
def D(c, kind="Tag"):
    return token(c, kind in ("Tag", "Comment"), ["decode_entity"])


def raw(c, kind="Tag"):
    return token(c, kind == "Tag", [])


def inner(c):
    return token(c, False, ["inner_html", "encode_content"])


def outer(c):
    return token(c, False, ["encode_content"])


SPEC = ["t0", ["A", ["t1", ["B", ["t2", "c1"]], "D"]], ["E", ["t3"]]]


def render_case(F, case):
    m, given = case
    W = ReadWorld(F, SPEC, {n: ("p", []) for n in "ABDE"})
    if m.startswith("node."):
        m = m[5:]
        outs = W.node_do(W.S.st, m, given[0])
        k = W.tree.kind(given[0])
        c = given[0]
        want = {"text_content": D(c, k), "text": D(c, k), "text_contents": D(c, k), "text_chars": raw(c, k), "html": inner(c), "inner_html": inner(c), "outer_html": outer(c)}[m]
        if c == "ROOT" and m in ("html", "inner_html"):
            want = outer(c)     # a root with several elements: the html of its children
    else:
        outs = W.do(W.S.st, m, list(given))
        want = {"text": "".join(map(D, given)), "html": "".join(map(inner, given[:1])), "htmls": "".join(map(inner, given)),
                "outer_html": "".join(map(outer, given[:1])), "outer_htmls": "".join(map(outer, given))}[m]
    rows = AT.panic_rows(W)
    for r in rows:
        yield r
    rule = "the result is the rendering the method documents"
    if not outs and not rows:
        yield "", rule, "undecided", "no outcome"
    for s, v in outs:
        got = ST.text(W.I, s, v)
        if got is None:
            got = ST.chars_of(W.I, s, v)
        if got is None or len(outs) > 1:
            yield "", rule, "undecided", "result not known"
        else:
            yield "", rule, "proven" if got == want else "undecided" if SS.outside(W.I, s) else "refuted", "gives %s instead of %s" % (got, want)


def render_cases():
    out = []
    els = ("A", "B", "D", "E")
    for m in ("text", "html", "htmls", "outer_html", "outer_htmls"):
        for k in range(0, 4):
            for s in itertools.combinations(els, k):
                out.append((m, s))
        out.append((m, ("E", "A")))
    for m in ("text_content", "text", "text_contents", "text_chars", "html", "inner_html", "outer_html"):
        for c in els + (() if "html" in m else ("t1", "t2", "c1")) + (("ROOT",) if "html" in m else ()):
            out.append(("node." + m, (c,)))
    return out


# ---------------------------------------------------------------- form values
def form_value(W, s, v):
    v = W.I.norm(s, v)
    if v[0] != "en":
        return "?"
    x = AI.fget(v[4], 0)
    if v[2] == "Single":
        t = ST.text(W.I, s, x)
        return "?" if t is None else t
    if v[2] == "Multiple":
        x = W.I.norm(s, x)
        if x[0] != "vec" or any(g[0] != "one" for g in x[1]):
            return "?"
        r = [ST.text(W.I, s, g[1]) for g in x[1]]
        return "?" if None in r else r
    return "?"


def val_case(F, case):
    spec, els, given, want = case
    W = ReadWorld(F, spec, els)
    outs = W.do(W.S.st, "val", list(given))
    rows = AT.panic_rows(W)
    for r in rows:
        yield r
    rule = "val() is the form value of the first element"
    if not outs and not rows:
        yield "", rule, "undecided", "no outcome"
    for s, v in outs:
        got = form_value(W, s, v)
        yield "", rule, "undecided" if got == "?" or len(outs) > 1 else "proven" if got == want else "undecided" if SS.outside(W.I, s) else "refuted", "gives %r instead of %r" % (got, want)


def val_cases():
    out = []
    for tag in ("input", "INPUT", "option", "select", "textarea", "p", "button"):
        for a in ((), (("value", "v w"),), (("VALUE", "x"),), (("value", None),), (("value", ""), ("v", "q")), (("name", "n"), ("value", "z"))):
            want = ""
            if tag.lower() in ("input", "option"):
                want = next((v or "" for k, v in a if k.lower() == "value"), "")
            if tag == "textarea":
                want = D("A")
            out.append((["A", "B"], {"A": (tag, list(a)), "B": ("input", [("value", "other")])}, ("A",), want))
            out.append((["A", "B"], {"A": (tag, list(a)), "B": ("input", [("value", "other")])}, ("A", "B"), want))
    out.append((["A"], {"A": ("input", [("value", "v")])}, (), ""))
    shapes = [["O0", "t1", "O1", "O2"], ["O0", ["G", ["O1"]], "O2"], [["G", ["O0", "O1"]], "O2"], ["O0", ["G", ["O1", "O2"]]], [["G", ["O0"]], ["H", ["O1", "O2"]]], ["c1", "t1"], ["O0"], [["G", [["H", ["O0"]], "O1"]]]]
    for kids in shapes:
        tr = Tree([["S", kids]])
        opts = [n for n in tr.order if n[0] == "O"]
        for multi in (None, "multiple", "MULTIPLE"):
            for sel in itertools.product((0, 1), repeat=len(opts)):
                for novalue in (None,) + tuple(range(len(opts))):
                    els = {"S": ("select" if multi != "MULTIPLE" else "SELECT", [(multi, None)] if multi else []), "G": ("optgroup", []), "H": ("optgroup", [])}
                    for i, (n, s) in enumerate(zip(opts, sel)):
                        els[n] = ("option", ([] if novalue == i else [("value", "v%d" % i)]) + ([("selected", None)] if s else []))
                    val = {n: "" if novalue == i else "v%d" % i for i, n in enumerate(opts)}
                    chosen = [val[n] for n, s in zip(opts, sel) if s]
                    if multi:
                        want = chosen
                    elif chosen:
                        want = chosen[0]
                    else:
                        direct = [n for n in opts if tr.parent[n] == "S"]
                        want = val[direct[0]] if direct else ""
                    out.append(([["S", kids]], els, ("S",), want))
    return out


# ---------------------------------------------------------------- text nodes
TSPEC = [["A", ["t1", ["B", ["t2", ["D", ["t3", ["E", ["t4"]]]], "c1", "t5"]], "s1", ["G", ["t6"]], "H"]], ["J", ["t7"]]]


def texts_of(tr, els, e, limit):
    """(text node, depth) below e in document order; limit 0: no limit."""
    out = []

    def go(n, d):
        for k in tr.kids[n]:
            if tr.kind(k) in ("Text", "SpacesBetweenTag"):
                out.append((k, d))
            elif tr.kind(k) == "Tag":
                if els.get(k, ("p", []))[0] in ("script", "style", "textarea", "title"):
                    out.append((k, d))
                elif limit == 0 or d + 1 < limit:
                    go(k, d + 1)
    if els.get(e, ("p", []))[0] in ("script", "style", "textarea", "title") and not tr.kids[e]:
        return [(e, 0)]
    go(e, 0)
    return out


def texts_case(F, case):
    given, limit, htag = case
    els = {n: ("p", []) for n in "ABDEGHJ"}
    els["H"] = (htag, [])
    W = ReadWorld(F, TSPEC, els)
    st = W.S.st
    outs = W.do(st, "texts", list(given), L.const(limit))
    rows = AT.panic_rows(W)
    for r in rows:
        yield r
    want = [x for e in given for x, _ in texts_of(W.tree, els, e, limit)]
    rule = "the text nodes within the depth, in document order"
    if not outs and not rows:
        yield "", rule, "undecided", "no outcome"
    for s, v in outs:
        got = W.cells(W.I, s, v)
        yield "", rule, "undecided" if got is None or len(outs) > 1 else "proven" if got == want else "undecided" if SS.outside(W.I, s) else "refuted", "gives %s instead of %s" % (got, want)


def texts_cases():
    return [(s, n, h) for h in ("p", "script", "title", "textarea", "style", "b") for n in range(0, 6) for s in (("A",), ("B",), ("D",), ("E",), ("H",), ("G",), ("A", "J"), ("D", "G", "J"), ())]


def run(ctx):
    AT.run_cases(ctx, render_cases(), render_case, lambda c: "%s of %s" % (c[0], " ".join(c[1]) or "nothing"), WHERE)
    AT.run_cases(ctx, val_cases(), val_case, lambda c: "val of %s %s in %s" % (" ".join(c[2]), sorted((k, v) for k, v in c[1].items() if k[0] in "SAO"), c[0]), WHERE)
    if any("::texts_by_rec" in n for n in ctx.F.bodies):
        AT.run_cases(ctx, texts_cases(), texts_case, lambda c: "texts(%d) of %s, H is <%s>" % (c[1], " ".join(c[0]) or "nothing", c[2]), WHERE)
