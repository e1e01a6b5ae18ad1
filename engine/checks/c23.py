import itertools
import attrs as AT
import selworld as SWD
from checks.c22 import evaluate
from selref import p_list

TECHNIQUE = "abstract interpretation of the MIR of parser, matchers and query drivers over enumerated sibling rows, subsets of them and An+B coefficients, compared with a reference meaning of each pseudo-class"
NOTE = "rows of up to 4 siblings over two tags with texts and comments between, up to two nested rows, every non-empty subset as input of filter; An+B for A in -3..3 and B in -4..6 on rows of up to 6"
EXPLAIN = "The registered factories, the An+B parsing and arithmetic, the sibling grouping and the three kinds of handles (one element, whole set, specified) are interpreted from their MIR; the elements each entry point (filter, is, not, find) gives are compared with the positions the definition prescribes. Nothing is executed."
ASSUME = []
WHERE = "src/mesdoc/rules/pseudo.rs"
PLAIN = ["first-child", "last-child", "only-child", "first-of-type", "last-of-type", "only-of-type"]
NTH = ["nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"]


def spell(a, b):
    if a == 0:
        return [str(b)] + (["+%d" % b] if b > 0 else [])
    n = {1: "n", -1: "-n"}.get(a, "%dn" % a)
    if b == 0:
        return [n]
    return ["%s%+d" % (n, b)] + ["%s %s %d" % (n, "+" if b > 0 else "-", abs(b))]


def row(tags, sep):
    """Spec of one row: elements R0.. of the tags, with text or comments between."""
    kids, els = [], {}
    for i, t in enumerate(tags):
        if sep:
            kids.append("%s%d" % (sep, i))
        kids.append("R%d" % i)
        els["R%d" % i] = (t, [])
    return kids, els


def cases(tier):
    out = []
    # plain pseudo-classes and small positions on every row, with every subset
    n = 4 if tier == "quick" else 5
    for k in range(1, n + 1):
        for tags in itertools.product("ab", repeat=k):
            if tags[0] == "b":
                continue            # the tags are interchangeable
            for sep in ("", "t") if k < 4 else ("c",):
                kids, els = row(tags, sep)
                els["P"] = ("div", [])
                for top in (False, True):
                    if top and k == 4:
                        continue
                    spec = kids if top else [["P", kids]]
                    subs = [s for m in range(1, k + 1) for s in itertools.combinations(["R%d" % i for i in range(k)], m)]
                    if k >= 4:
                        subs = [s for s in subs if len(s) in (2, 3)]
                    for name in PLAIN:
                        sel = (([("pseudo", name)],),)
                        out.append((spec, els, sel, ("filter", "is", "not", "find"), None))
                        for s in subs:
                            if len(s) < k:
                                out.append((spec, els, sel, ("filter",), s))
                    for name in NTH:
                        for a, b in ((0, 1), (0, 2), (2, 1), (1, 2), (-1, 2)):
                            if k == 4 and (a, b) in ((0, 1), (1, 2)):
                                continue
                            sel = (([("nth", name, a, b, spell(a, b)[0])],),)
                            out.append((spec, els, sel, ("filter", "find"), None))
                            for s in subs:
                                if len(s) < k and (k < 4 or len(s) == 2):
                                    out.append((spec, els, sel, ("filter",), s))
    # nested rows, sets that leave and re-enter a row
    els = {"P": ("div", []), "A": ("a", []), "B": ("a", []), "D": ("b", []), "E": ("a", []), "G": ("b", []), "H": ("a", [])}
    spec = [["P", ["t1", ["A", ["B", "D", "E"]], "G", ["H", ["X"]]]]]
    els["X"] = ("a", [])
    every = ["P", "A", "B", "D", "E", "G", "H", "X"]
    subs = [s for m in (2, 3, 4) for s in itertools.combinations(every, m)]
    if tier == "quick":
        subs = subs[::3]
    for name in PLAIN:
        sel = (([("pseudo", name)],),)
        out.append((spec, els, sel, ("filter", "is", "not", "find"), None))
        for s in subs:
            out.append((spec, els, sel, ("filter",), s))
    for name in NTH:
        for a, b in ((0, 2), (2, 1), (-1, 2)):
            sel = (([("nth", name, a, b, spell(a, b)[0])],),)
            out.append((spec, els, sel, ("filter", "is", "not", "find"), None))
            for s in subs[::2]:
                out.append((spec, els, sel, ("filter",), s))
    # An+B
    for tags in ("aaaaaa", "aabaab", "a"):
        kids, els = row(tags, "")
        els["P"] = ("div", [])
        for name in NTH:
            for a in range(-3, 4):
                for b in range(-4, 8):
                    for w in spell(a, b)[:1 if tags != "aaaaaa" else 2]:
                        out.append(([["P", kids]], els, (([("nth", name, a, b, w)],),), ("filter", "find"), None))
            for w, a, b in (("odd", 2, 1), ("even", 2, 0), (" odd ", 2, 1), ("0n+2", 0, 2), ("12", 0, 12), ("12n+2", 12, 2), ("2n+0", 2, 0), ("-0n+1", 0, 1), ("10n-9", 10, -9), ("  2n  +  1  ", 2, 1), ("1n+0", 1, 0)):
                out.append(([["P", kids]], els, (([("nth", name, a, b, w)],),), ("filter", "is", "not", "find"), None))
    # combined with other parts: a position is one among all siblings, not among those matched so far
    kids, els = row("abab", "t")
    for i, n in enumerate(("R1", "R2", "R3")):
        els[n] = (els[n][0], [("class", "x")])
    els["P"] = ("div", [])
    for s in [("pseudo", x) for x in PLAIN] + [("nth", x, a, b, spell(a, b)[0]) for x in NTH for a, b in ((0, 1), (0, 2), (2, 0), (-1, 3))]:
        for other in (("class", "x"), ("tag", "a"), ("tag", "b")):
            comp = [other, s] if other[0] == "tag" else [s, other]
            out.append(([["P", kids]], els, ((comp,),), ("filter", "find"), None))
            if other[0] == "class":
                out.append(([["P", kids]], els, (([other, s],),), ("filter", "is", "not", "find"), None))
        out.append(([["P", kids]], els, (([("not", (([s],),))],),), ("filter", "find"), None))
        out.append(([["P", kids]], els, (([("has", (([s],),))],),), ("filter", "find"), None))
        out.append(([["P", kids]], els, (([("tag", "div")], ">", [s]),), ("filter", "find"), None))
    return out


def one(F, case):
    spec, els, sel, entries, sub = case
    return evaluate(F, spec, els, {}, sel, entries, list(sub) if sub else None)


def show(c):
    def f(x):
        return x if isinstance(x, str) else "%s(%s)" % (x[0], " ".join(map(f, x[1])))
    return "%s on %s [%s]%s" % (p_list(c[2]), " ".join(map(f, c[0])), "".join(v[0][0] for v in c[1].values()), " given " + " ".join(c[4]) if c[4] else "")


def run(ctx):
    SWD.table(ctx.F)
    AT.run_cases(ctx, cases(ctx.tier), one, show, WHERE)
