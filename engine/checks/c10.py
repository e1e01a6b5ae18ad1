import attrs as AT
import strings as ST
import absint as AI
import lin as L
from attrs import AttrWorld, words
from scenes import child_segs, node_field
from setcheck import where_of
import setsuite as SS

TECHNIQUE = "abstract interpretation of the MIR of set_attr and set_text over an abstract alphabet of markup-significant characters: what is stored is checked against the escaping rule"
NOTE = "values up to 4 symbols over the characters the code distinguishes; text nodes and comments keep what they are given (documented) and are out of scope; the entity encoder and the renderer are rphtml's"
EXPLAIN = "set_attr is interpreted (MIR, no execution) for every value up to 4 symbols over quotes, markup characters, whitespace, ampersand and every character constant of the reached code, on new, existing and boolean attributes: the value must be stored with a delimiting quote that does not occur raw in it, and unescape to what was set. set_text is interpreted on ordinary and raw-text elements: the created text must have no raw markup character and decode to the text given; raw-text elements keep it verbatim."
ASSUME = ["rphtml prints an attribute as key=quote+content+quote when a quote is stored", "htmlentity::encode replaces every character of the named set"]

TEXT_ENT = {"&lt;": "<", "&gt;": ">", "&amp;": "&"}
RAW = ("script", "style", "title", "textarea")


def attr_case(F, case):
    init, name, value = case
    W = AttrWorld(F, ["A"], {"A": ("p", list(init))}, max_steps=60000)
    for i, (k, v) in enumerate(init):
        pass
    outs = W.do(W.S.st, "set_attr", ["A"], name, ("opt", value))
    rows = AT.panic_rows(W)
    for r in rows:
        yield r
    if not outs and not rows:
        yield "", "call interpreted", "undecided", "no path returns"
    for s, _ in outs:
        got = W.attrs(s, "A")
        if got is None:
            yield "", "stored value known", "undecided", "attribute list not known"
            continue
        mine = [x for x in got if x[0] not in (None, "?") and ST.lower(x[0]) == ST.lower(name)]
        if len(mine) != 1 or "?" in mine[0][1:3]:
            yield "", "stored value known", "undecided", "stored %s" % (mine,)
            continue
        k, v, q, nq = mine[0]
        rule = "the value is stored inside a quote it does not contain raw"
        if v is None:
            yield "", rule, "refuted", "the value was dropped"
        elif q is None:
            need = any(c in ST.WS or c in ST.MUST_QUOTE for c in value) or value == ""
            yield "", rule, "refuted" if need else "proven", "stored without a quote"
        elif q not in "\"'":
            yield "", rule, "refuted", "delimiter %r" % q
        elif q in v:
            yield "", rule, "refuted", "content %r contains its delimiter %r" % (v, q)
        else:
            yield "", rule, "proven", ""
        if v is not None:
            ok = AT.unescape(v) == AT.unescape(value)
            yield "", "the stored value unescapes to the value that was set", "proven" if ok else "refuted", "stored %r" % v


def decode(s):
    out, i = "", 0
    while i < len(s):
        if s[i] == "&":
            j = s.find(";", i)
            e = s[i:j + 1] if j > 0 else ""
            tab = dict(TEXT_ENT)
            tab.update(AT.ENT)
            if e in tab:
                out += tab[e]
                i = j + 1
                continue
            if e.startswith("&#") and e[2:-1].isdigit():
                out += chr(int(e[2:-1]))
                i = j + 1
                continue
            return None
        out += s[i]
        i += 1
    return out


def text_case(F, case):
    tag, text = case
    W = AttrWorld(F, [["A", ["t0", "B"]], "C"], {"A": (tag, [])}, max_steps=60000)
    outs = W.do(W.S.st, "set_text", ["A"], text)
    I = W.I
    rows = AT.panic_rows(W)
    for r in rows:
        yield r
    raw = ST.lower(tag) in RAW
    for s, _ in outs:
        foreign = SS.outside(I, s)

        def st_(bad):
            return "proven" if not bad else "undecided" if foreign else "refuted"
        kids = child_segs(I, s, "A")
        own = content(I, s, "A")
        if raw:
            rule = "raw-text elements keep the text verbatim"
            if text == "":
                yield "", rule, st_(own not in (None, "")), "content %r" % (own,)
            elif own == "?":
                yield "", rule, "undecided", "content not known"
            else:
                yield "", rule, st_(own != text), "content %r" % (own,)
            continue
        rule = "text becomes encoded content"
        if kids is None or any(k[0] != "one" or k[1][0] != "rc" for k in kids):
            yield "", rule, "undecided", "children not known"
            continue
        cells = [k[1][1] for k in kids]
        if own not in (None, "?"):
            yield "", rule, st_(True), "content %r set on an ordinary element" % own
            continue
        if not text:
            yield "", "empty text leaves no content", st_(bool(cells)), "children %s" % cells
            continue
        if any(c in W.tree.order for c in cells):
            yield "", "the old content is replaced", st_(True), "children %s" % cells
            continue
        got = [content(I, s, c) for c in cells]
        if any(g in (None, "?") for g in got):
            yield "", rule, "undecided", "text not known"
            continue
        g = "".join(got)
        bad = "raw markup in %r" % g if "<" in g or ">" in g else None
        d = decode(g)
        if bad is None and d != text:
            bad = "%r does not decode to the text" % g
        yield "", rule, st_(bad), bad or ""


def content(I, s, cell):
    v = I.norm(s, node_field(I, s, cell, "content"))
    if v[0] == "en" and v[2] == "None":
        return None
    if v[0] == "en" and v[2] == "Some":
        c = ST.chars_of(I, s, AI.fget(v[4], 0))
        return "?" if c is None else c
    if v[0] == "s" and v[1].startswith(cell + "."):
        return None         # never written
    return "?"


def run(ctx):
    F = ctx.F
    W = AttrWorld(F, ["A"], {})
    b1 = [W.method("set_attr")]
    consts = AT.constants(F, AT.reached(F, [x for x in b1 if x]))
    ctx.analysed["character constants of the reached code"] = " ".join(sorted(repr(c) for c in consts))[:200]
    core = "\"'a >&"
    extra = sorted((consts | set("<=`\n\\\u00e9")) - set(core))
    n = 4 if ctx.tier == "quick" else 5
    inits = [((), "n"), ((("n", "old"),), "n"), ((("N", None),), "n"), ((("x", "'"), ("n", "it's")), "N")]
    C = []
    for init, name in inits:
        for w in words(core[:4], n):
            C.append((init, name, w))
        for e in extra + list(core[4:]):
            for w in (e, e + '"', "'" + e, "\"" + e + "'", "'\"" + e, e + "'\"'", "\"'" + e + "\"", "a" + e, e + e, "\"" + e + "\"'", "'" + e + "\""):
                C.append((init, name, w))
        for w in ("&quot;", "&apos;\"'", "\"\"\"\"\"\"", "''''''", "\"'\"'\"'", "'\"'\"'\"", "a" * 40 + "\"" + "b" * 10 + "'"):
            C.append((init, name, w))
    AT.run_cases(ctx, C, attr_case, lambda c: "set_attr(%r, %r) on <p %s>" % (c[1], c[2], " ".join("%s=%r" % x for x in c[0])), where_of(F, "set_attr"))
    T = []
    for tag in ("p", "div", "Script1", "pre", "a"):
        for w in words("<a&", 3):
            T.append((tag, w))
        for w in ("</p>", ">", "\"", "'", "&lt;", "&amp;lt;", "\u00e9<", "\u4e2d&", " ", "\n<", "a>b", "<!--", "-->"):
            T.append((tag, w))
    for tag in RAW + ("SCRIPT", "Style", "TEXTAREA"):
        for w in words("<a&", 2):
            T.append((tag, w))
    AT.run_cases(ctx, T, text_case, lambda c: "set_text(%r) on <%s>" % (c[1], c[0]), where_of(F, "set_text"))
