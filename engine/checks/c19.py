import attrs as AT
import strings as ST
import absint as AI
from attrs import AttrWorld, words
from setcheck import where_of

TECHNIQUE = "abstract interpretation of the MIR of the class methods over an abstract alphabet: every class attribute and argument up to a length, compared with set semantics"
NOTE = "words up to 4 (attribute) and 3 (argument) symbols; quote characters in class names are left to C10"
EXPLAIN = "add_class, remove_class, toggle_class and has_class are interpreted (MIR, no execution) on elements whose class attribute and argument are every word over {name a, name b, whitespace} up to a length, plus words with every other whitespace and every character constant of the reached code; the stored attribute must be the set operation the method names."
ASSUME = ["characters that no reached function distinguishes behave alike"]

METHODS = ("add_class", "remove_class", "toggle_class", "has_class")


def tokens(s):
    out, cur = [], ""
    for c in s or "":
        if c in ST.WS:
            if cur:
                out.append(cur)
            cur = ""
        else:
            cur += c
    return out + ([cur] if cur else [])


def uniq(l):
    return list(dict.fromkeys(l))


def judge(m, old, arg, new, attr_there):
    """None or what is wrong."""
    o, a, n = uniq(tokens(old)), uniq(tokens(arg)), uniq(tokens(new))
    if m == "add_class":
        want = set(o) | set(a)
    elif m == "remove_class":
        want = set(o) - set(a)
    else:
        want = set(o) ^ set(a)
    if set(n) != want:
        extra, missing = sorted(set(n) - want), sorted(want - set(n))
        return "classes %s instead of %s" % (n, [x for x in uniq(o + a) if x in want])
    keep = [x for x in o if x not in a]
    if [x for x in n if x in keep] != keep:
        return "the other classes changed their order: %s" % n
    return None


def run_case(F, case):
    m, old, arg = case
    others = [("id", "i"), ("title", "t")]
    own = [] if old is None else [("class", None if old is True else old)]
    A = others[:1] + own + others[1:]
    W = AttrWorld(F, ["A", "B"], {"A": ("p", A), "B": ("p", [("class", "b")])}, max_steps=60000)
    outs = W.do(W.S.st, m, ["A"], arg)
    rows = AT.panic_rows(W)
    for r in rows:
        yield r
    if not outs and not rows:
        yield "", "method returns", "undecided", "no path returns"
    cur = None if old in (None, True) else old
    for s, v in outs:
        if m == "has_class":
            if not tokens(arg):
                continue
            v = W.I.norm(s, v)
            want = set(tokens(arg)) <= set(tokens(cur))
            if v[0] != "b":
                yield "", "has_class is true exactly when every named class is there", "undecided", "answer not known"
            else:
                yield "", "has_class is true exactly when every named class is there", "proven" if v[1] == want else "refuted", "returned %s" % v[1]
            continue
        got = W.attrs(s, "A")
        if got is None or any("?" in x[:2] for x in got):
            yield "", "stored classes known", "undecided", "attribute list not known"
            continue
        cls = [x for x in got if x[0] is not None and ST.lower(x[0]) == "class"]
        rest = [x[:2] for x in got if x[0] is None or ST.lower(x[0]) != "class"]
        if rest != others:
            yield "other attributes", "other attributes stay as they are", "refuted", "now %s" % rest
            continue
        if len(cls) > 1:
            yield "", "one class attribute", "refuted", "class attribute stored %d times" % len(cls)
            continue
        new = AT.unescape(cls[0][1] or "") if cls else ""
        bad = judge(m, cur, arg, new, bool(cls))
        yield "", "exactly the named classes change", "proven" if not bad else "refuted", bad or ""


def two_case(F, case):
    m, c1, c2, arg = case
    W = AttrWorld(F, ["A", "B"], {"A": ("p", [("class", c1)] if c1 is not None else []), "B": ("p", [("class", c2)] if c2 is not None else [])}, max_steps=60000)
    outs = W.do(W.S.st, m, ["A", "B"], arg)
    for r in AT.panic_rows(W):
        yield r
    for s, v in outs:
        if m == "has_class":
            v = W.I.norm(s, v)
            want = any(set(tokens(arg)) <= set(tokens(c)) for c in (c1, c2) if c is not None)
            yield "", "has_class is true when one element has every named class", "undecided" if v[0] != "b" else "proven" if v[1] == want else "refuted", "returned %s" % (v[1:2],)
            continue
        for n, old in (("A", c1), ("B", c2)):
            got = W.attrs(s, n)
            if got is None or any("?" in x[:2] for x in got):
                yield n, "stored classes known", "undecided", "attribute list not known"
                continue
            new = " ".join(x[1] or "" for x in got if x[0] and ST.lower(x[0]) == "class")
            bad = judge(m, old, arg, new, True)
            yield n, "every element of the set changes by itself", "proven" if not bad else "refuted", bad or ""


def cases(ctx):
    F = ctx.F
    thorough = ctx.tier == "thorough"
    W = AttrWorld(F, ["A"], {})
    bodies = [W.method(m) for m in METHODS if W.method(m)]
    consts = AT.constants(F, AT.reached(F, bodies)) - set("\"'&;") - set(ST.WS)
    ctx.analysed["character constants of the reached code"] = " ".join(sorted(repr(c) for c in consts))[:200]
    olds = [None, True] + list(words("ab ", 4 if not thorough else 5))
    args = list(words("ab ", 3 if not thorough else 4))
    C = []
    for m in METHODS:
        for o in olds:
            for a in args:
                C.append((m, o, a))
        for w in "\t\n\x0c\r\xa0\x0b\u2003\u3000" + "".join(sorted(consts - set("ab"))) + "A\u00e9":
            for o in ("a", "b a", "a" + w + "b", w + "a", "a" + w, w, "b " + w + "a", "a" + w + w + "b a", None):
                for a in ("a", w + "a", "a" + w, "a" + w + "b", w, "b" + w, w + "a" + w + "b" + w, "c " + w):
                    C.append((m, o, a))
    for m in METHODS:
        for o in ("aa bb cc", "cc aa bb aa", "a aa aaa", "one two one"):
            for a in ("aa", "bb cc", "cc bb", "a", "aaa aa", "dd", "dd ee", "ee dd cc", "aa aa", "one", "two one"):
                C.append((m, o, a))
    return C


def run(ctx):
    F = ctx.F
    AT.run_cases(ctx, cases(ctx), run_case, lambda c: "%s(%r) on class=%r" % (c[0], c[2], c[1]), lambda c: where_of(F, c[0]))
    two = [(m, c1, c2, a) for m in METHODS for c1 in (None, "a", "b a") for c2 in (None, "b", "a c") for a in ("a", "b", "a b", "c a")]
    AT.run_cases(ctx, two, two_case, lambda c: "%s(%r) on two elements class=%r, %r" % (c[0], c[3], c[1], c[2]), lambda c: where_of(F, c[0]))
