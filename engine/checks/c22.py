import itertools
import attrs as AT
import absint as AI
import setsuite as SS
from setops import Tree
from selworld import SelWorld
import selworld as SWD
from selref import Doc, p_list

TECHNIQUE = "abstract interpretation of the MIR of parser and matchers (heap shapes with known tags, attributes and texts over a representative alphabet), compared with a reference meaning of each selector"
NOTE = "tag, class, id, attribute, :empty, :root, :contains, :checked, :header, :input, :submit; values are all words up to a length over a representative alphabet; each through filter, is, not and find"
EXPLAIN = "Registration, parser, matcher factories and query drivers are interpreted from their MIR on abstract documents; per selector the set of matching elements of all four entry points is compared with the reference meaning, every element that is matched or missed wrongly is reported. Nothing is executed; regular expressions of the patterns are evaluated by an equivalent expression."
ASSUME = ["rphtml's Node::build with inner_text yields the texts below the node in document order, decoded when decode_entity is set"]
WHERE = "src/mesdoc/rules/"
ENTRY = ("filter", "is", "not", "find")


def evaluate(F, spec, els, texts, sel, entries=ENTRY, subset=None):
    """Rows for one selector on one document."""
    tree = Tree(spec)
    doc = Doc(tree, els, texts)
    word = p_list(sel)
    every = tree.elements()
    rule = "the selector matches exactly the elements it stands for"
    want = {e for e in every if doc.match(sel, e)}
    for m in entries:
        w = SelWorld(F, spec, els, texts=texts)
        if m == "find":
            given = ["ROOT"]
            exp = [e for e in every if e in want]
        else:
            given = subset or every
            exp = [e for e in given if e in want]
            if m == "not":
                exp = [e for e in given if e not in want]
        outs = w.do(w.S.st, m, given, word)
        rows = AT.panic_rows(w)
        for r in rows:
            yield (m + ": " + r[0],) + r[1:]
        if not outs and not rows:
            yield m, rule, "undecided", "no outcome"
        for s, v in outs:
            if m == "is":
                b = w.I.norm(s, v)
                if b[0] != "b":
                    yield m, rule, "undecided", "result not known"
                else:
                    yield m, rule, "proven" if b[1] == bool(exp) else "undecided" if SS.outside(w.I, s) or len(outs) > 1 else "refuted", "is(%s) gives %s" % (word, b[1])
                continue
            try:
                got = w.cells(w.I, s, v)
            except Exception:
                got = None
            if got is None:
                yield m, rule, "undecided", "result not known"
                continue
            bad = len(outs) > 1 or SS.outside(w.I, s)
            if got == exp:
                yield m, rule, "undecided" if len(outs) > 1 else "proven", ""
            else:
                extra = [(e, els.get(e)) for e in got if e not in exp]
                miss = [(e, els.get(e)) for e in exp if e not in got]
                yield m, rule, "undecided" if bad else "refuted", "%s(%s): wrongly matched %s, missed %s%s" % (m, word, extra[:3], miss[:3], "" if extra or miss else ", order %s instead of %s" % (got, exp))


# ---------------------------------------------------------------- documents
def attr_doc(values):
    """Elements with attribute k of each value, one without value, one without it, one with another attribute."""
    els, kids = {}, []
    for i, v in enumerate(values):
        n = "E%d" % i
        els[n] = ("p", [("k", v)])
        kids.append(n)
    els["EN"] = ("p", [("k", None)])
    els["EM"] = ("p", [])
    els["EO"] = ("p", [("kk", "a"), ("o", "a")])
    els["EU"] = ("b", [("o", "b"), ("K", "a-b")])
    els["E"] = ("div", [])
    return [["E", kids + ["EN", "EM", "EO", "EU"]]], els, {}


def wl(alpha, n):
    return list(AT.words(alpha, n))


def forms():
    """Selects with options (selected or not, groups, other tags), inputs of every type."""
    out = []
    for multi in (False, True):
        for sel in itertools.product((0, 1), repeat=3):
            els = {"S": ("select", [("multiple", None)] if multi else []), "X": ("p", [])}
            for i, s in enumerate(sel):
                els["O%d" % i] = ("option", [("value", "v")] + ([("selected", None if i else "")] if s else []))
            out.append(([["S", ["O0", "t1", "O1", "O2"]]], dict(els)))
            els["G"] = ("optgroup", [])
            out.append(([["S", ["O0", ["G", ["O1"]], "O2"]]], dict(els)))
            out.append(([["S", [["G", ["O0", "O1"]], "O2"]]], dict(els)))
            out.append(([["X", ["O0", "O1"]], "O2"], dict(els)))
            out.append(([["S", ["X", "O0", "c1", "O1", "G", "O2"]]], dict(els)))
    els, kids = {}, []
    n = 0
    for tag in ("input", "INPUT", "button", "p", "select", "textarea", "option", "h1", "H2", "h3", "h4", "h5", "h6", "h7", "h", "html", "hr", "header"):
        for ty in (None, "", "checkbox", "radio", "RADIO", "text", "submit", "submitx", "Checkbox "):
            if tag not in ("input", "button", "p") and ty not in (None, "checkbox"):
                continue
            for ch in (0, 1):
                a = ([] if ty is None else [("type", ty)]) + ([("checked", None)] if ch else [])
                els["N%d" % n] = (tag, a)
                kids.append("N%d" % n)
                n += 1
    els["N"] = ("form", [])
    third = (len(kids) + 2) // 3
    for i in range(0, len(kids), third):
        k = kids[i:i + third]
        out.append(([["N", k]], {x: els[x] for x in k + ["N"]}))
    return out


def names(F, tier):
    """Cases: (label, spec, els, texts, sel)."""
    cases = []
    # attributes
    alpha = "a- b" if tier != "quick" else "a- "
    vals = wl(alpha, 3) + ["A", "ab", "ba", "a\tb", "b\na", "a\u00a0b", "\u00e9"]
    docs = [attr_doc(vals[i:i + 24]) for i in range(0, len(vals), 24)]
    ops = ["=", "^=", "$=", "*=", "~=", "|=", "!="]
    words = wl("a- b", 2 if tier == "quick" else 3) + ["A", "B", "\u00e9", "a\tb"]
    for d in docs:
        for op in ops:
            for v in words:
                cases.append(("attr",) + d + (((([("attr", "k", op, v)],),)),))
        for nm in ("k", "K", "kk", "o", "x"):
            cases.append(("attr",) + d + ((([("attr", nm, None, None)],),),))
            for op in ops:
                cases.append(("attr",) + d + ((([("attr", nm, op, "a")],),),))
                cases.append(("attr",) + d + ((([("attr", nm, op, "a", "'")],),),))
                cases.append(("attr",) + d + ((([("attr", nm, op, "a", "")],),),))
    # classes
    cv = [w for w in wl("ab \t", 3)] + ["A", "aB", "a\nb", "a\rb", "a\x0cb", "ab  ba", "a-b", " ab ba "]
    for i in range(0, len(cv), 24):
        els, kids = {"C": ("p", [("class", None)]), "Z": ("p", []), "Y": ("p", [("CLASS", "a ab")])}, ["Y", "Z"]
        for j, v in enumerate(cv[i:i + 24]):
            els["K%d" % j] = ("p", [("class", v)])
            kids.append("K%d" % j)
        for n in ("a", "b", "ab", "A", "aB", "ba", "a-b", "aa", "c"):
            cases.append(("class", [["C", kids]], els, {}, (([("class", n)],),)))
        cases.append(("class", [["C", kids]], els, {}, (([("class", "a"), ("class", "b")],),)))
        cases.append(("class", [["C", kids]], els, {}, (([("tag", "p"), ("class", "ab")],),)))
    # tags
    tags = ["p", "P", "pp", "b", "div", "DIV", "Div", "my-tag", "h1", "svg", "a", "A", "di", "divv"]
    els = {"T%d" % i: (t, []) for i, t in enumerate(tags)}
    spec = [["T0", ["T1", ["T2", ["T3"]], "T4"]]] + ["T%d" % i for i in range(5, len(tags))]
    for t in tags + ["q", "MY-TAG", "*"]:
        cases.append(("tag", spec, els, {}, ((([("any",)] if t == "*" else [("tag", t)]),),)))
    # ids (distinct)
    els = {"I0": ("p", [("id", "a")]), "I1": ("p", [("id", "b")]), "I2": ("p", [("ID", "cc")]), "I3": ("p", [("id", "A")]), "I4": ("p", [("id", None)]), "I5": ("p", [])}
    for n in ("a", "b", "cc", "A", "B", "x"):
        cases.append(("id", [["I0", ["I1", "I2"]], ["I5", ["I3", "I4"]]], els, {}, (([("id", n)],),)))
        cases.append(("id", [["I0", ["I1", "I2"]], ["I5", ["I3", "I4"]]], els, {}, (([("tag", "p"), ("id", n)],),)))
    # :empty, :root
    els = {n: ("p", []) for n in "ABDEGHJ"}
    spec = [["A", ["B", ["D", ["c1"]], ["E", ["t1"]], ["G", ["c2", "t2"]], ["H", ["c3", "J", "c4"]]]]]
    cases.append(("empty", spec, els, {"t1": "x", "t2": " "}, (([("pseudo", "empty")],),)))
    spec = [["A", [["B", ["s1"]], ["D", ["s2", "c1"]], ["E", ["c5", "c6"]], ["G", ["H"]]]]]
    cases.append(("empty", spec, els, {}, (([("pseudo", "empty")],),)))
    for tagA in ("html", "HTML", "div"):
        for tagB in ("html", "body"):
            els = {"A": (tagA, []), "B": (tagB, []), "D": ("html", [])}
            cases.append(("root", [["A", ["B"]]], els, {}, (([("pseudo", "root")],),)))
            cases.append(("root", ["c1", ["A", [["B", ["D"]]]]], els, {}, (([("pseudo", "root")],),)))
            cases.append(("root", [["A", ["B"]]], els, {}, (([("tag", "html"), ("pseudo", "root")],),)))
    # :contains
    tx = wl("ab", 2) + ["aab", "a b", "A", "&", "<", "ba ", "a&b", "\u00e9a"]
    for i, t in enumerate(tx):
        spec = [["A", ["t1", ["B", ["t2"]], ["D", ["c1"]]]], ["E", ["t3"]]]
        els = {n: ("p", []) for n in "ABDE"}
        for q in ["a", "b", "ab", "ba", "aa", "A", "a b", "aab", "", "&", "<", "amp", "&b", "\u00e9"]:
            for qt in ("'", '"') + (("",) if q and " " not in q and q != "<" else ()):
                if qt != "'" and i % 3:
                    continue
                cases.append(("contains", spec, els, {"t1": t, "t2": "b", "t3": "a"}, (([("contains", q, qt)],),)))
    # forms
    for spec, els in forms():
        for n in ("checked", "header", "input", "submit"):
            cases.append(("form", spec, els, {}, (([("pseudo", n)],),)))
    return cases


def one(F, case):
    label, spec, els, texts, sel = case
    for r in evaluate(F, spec, els, texts, sel, ENTRY):
        yield r


def run(ctx):
    SWD.table(ctx.F)
    cases = names(ctx.F, ctx.tier)
    AT.run_cases(ctx, cases, one, lambda c: "%s %s" % (c[0], p_list(c[4])), WHERE)
