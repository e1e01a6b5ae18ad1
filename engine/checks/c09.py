import itertools
import attrs as AT
import strings as ST
import absint as AI
import lin as L
from absint import some, none
from attrs import AttrWorld
from scenes import rc
from setcheck import where_of
import setsuite as SS

TECHNIQUE = "abstract interpretation of the MIR of the attribute methods: every history of two operations on enumerated attribute lists, all spellings, compared with a case-insensitive dictionary; the id lookup is interpreted with an arbitrary (stale) id table"
NOTE = "histories of two changes (three in the thorough tier) over three names in every spelling; initial lists up to two attributes"
EXPLAIN = "attr, has_attr, set_attr, remove_attr and get_attributes are interpreted (MIR, no execution) after every history of changes; what they return and what stays stored must be a dictionary keyed by the ASCII-lowercased name. The lookup behind #id selectors is interpreted with the parser's id table replaced by an arbitrary answer."
ASSUME = ["rphtml: the name table of a parsed tag maps the lowercased names to their positions"]

VAL = {"v": "1", "w": "2"}


def model(init, ops):
    d = {}
    for k, v in init:
        d[ST.lower(k)] = v
    for op in ops:
        if op[0] == "set":
            d[ST.lower(op[1])] = op[2]
        else:
            d.pop(ST.lower(op[1]), None)
    return d


def history(F, case):
    init, ops, spell = case
    W = AttrWorld(F, ["A", "B"], {"A": ("p", list(init)), "B": ("p", [("n", "other")])}, max_steps=60000)
    states = [W.S.st]
    for op in ops:
        nw = []
        for s in states:
            if op[0] == "set":
                r = W.do(s, "set_attr", ["A"], op[1], None if op[2] is None else ("opt", op[2]))
            else:
                r = W.do(s, "remove_attr", ["A"], op[1])
            nw += [x for x, _ in r]
        states = nw
    want = model(init, ops)
    rows = AT.panic_rows(W)
    for r in rows:
        yield r
    if not states and not rows:
        yield "", "history interpreted", "undecided", "no path returns"
    for st in states:
        for name in spell:
            exp = want.get(ST.lower(name), "absent")
            exp = None if exp == "absent" else True if exp is None else exp
            for s, v in W.do(st.copy(), "attr", ["A"], name):
                got = W.attr_result(s, v)
                yield "attr(%r)" % name, "reads the value last set, under any spelling", "undecided" if got == "?" else "proven" if got == exp else "refuted", "returned %r, expected %r" % (got, exp)
            for s, v in W.do(st.copy(), "has_attr", ["A"], name):
                v = W.I.norm(s, v)
                yield "has_attr(%r)" % name, "true exactly while the attribute is set", "undecided" if v[0] != "b" else "proven" if v[1] == (exp is not None) else "refuted", "returned %s" % (v[1:2],)
        for s, v in W.node_do(st.copy(), "get_attributes", "A"):
            v = W.I.norm(s, v)
            lst = None
            if v[0] == "vec" and all(g[0] == "one" and W.I.norm(s, g[1])[0] == "ag" for g in v[1]):
                lst = []
                for g in v[1]:
                    p = W.I.norm(s, g[1])
                    lst.append((ST.text(W.I, s, AI.fget(p[3], 0)), W.value_of(s, AI.fget(p[3], 1))))
            if lst is None or any(k is None or x == "?" for k, x in lst):
                yield "get_attributes", "lists every attribute once", "undecided", "list not known"
            else:
                ok = len(lst) == len(want) and {ST.lower(k): x for k, x in lst} == {k: True if x is None else x for k, x in want.items()}
                yield "get_attributes", "lists every attribute once", "proven" if ok else "refuted", "returned %s" % lst
        stored = W.attrs(st, "A")
        if stored is None or any("?" in x[:2] for x in stored):
            yield "stored", "stored once", "undecided", "attribute list not known"
        else:
            kept = [(ST.lower(k), x) for k, x, _, _ in stored if k is not None]
            stray = [x for k, x, _, _ in stored if k is None and x is not None]
            ok = sorted(k for k, _ in kept) == sorted(want) and not stray and all(want[k] == x for k, x in kept)
            yield "stored", "what is serialised is exactly the attributes that are set", "proven" if ok else "refuted", "stored %s" % [x[:2] for x in stored]
        other = W.attrs(st, "B")
        if other is not None and [x[:2] for x in other] != [("n", "other")]:
            yield "other element", "other elements keep their attributes", "refuted", "now %s" % other


def histories(tier):
    names = ("n", "N", "mK")
    spell = ("n", "N", "mk", "MK", "Mk")
    ops = [("set", n, v) for n in names for v in ("1", "", None)] + [("rm", n) for n in ("n", "N", "MK", "mk")]
    inits = [(), (("n", "0"),), (("N", "0"),), (("Mk", "0"), ("N", None)), (("n", "0"), ("mk", "9"))]
    C = []
    for i in inits:
        for k in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
            if k == 3 and i not in inits[:3:2]:
                continue
            for o in itertools.product(ops, repeat=k):
                C.append((i, o, spell))
    # other characters of names; non-ASCII letters keep their case
    for a, b, same in (("data-X", "DATA-x", 1), ("x:Y", "X:y", 1), ("a_B1", "A_b1", 1), ("\u00c9", "\u00e9", 0), ("K", "\u212a", 0), ("class", "CLASS", 1), ("id", "ID", 1), ("Value", "vALUE", 1)):
        for i in ((), ((a, "0"),), ((b, "0"),)):
            for o in (("set", a, "1"),), (("rm", a),), (("set", b, "1"), ("rm", a)), (("set", a, "1"), ("set", b, "2")), (("rm", b), ("set", a, "3")):
                C.append((i, o, (a, b)))
    return C


def show(c):
    init, ops, _ = c
    f = lambda k, v: k if v is None else "%s=%r" % (k, v)
    return "<p %s> then %s" % (" ".join(f(k, v) for k, v in init), "; ".join("set_attr(%s)" % f(o[1], o[2]) if o[0] == "set" else "remove_attr(%s)" % o[1] for o in ops) or "nothing")


# ---------------------------------------------------------------- ids
def id_case(F, case):
    """ids: element -> id or None; cached: the element the id table answers with, or None."""
    ids, cached = case
    spec = ["t0", ["A", [["B", ["t1", "D"]], "C"]]]
    el = {n: ("p", [("class", "k")] + ([] if i is None else [("Id" if n == "B" else "id", i)])) for n, i in ids.items()}
    W = AttrWorld(F, spec, el, max_steps=60000, unroll_nd=30)

    def hook(I, st, name, key, args, t, body):
        if key == "DocHolder::get_element_by_id":
            return [(st, none(t["dt"]) if cached is None else some(rc(cached), t["dt"]))]
        if key == "Node::is_document":
            return [(st, AI.tup(AI.FALSE, AI.TRUE))]
        return None
    W.extra = hook
    nm = [n for (tr, m), l in F.trait_impls.items() if m == "get_element_by_id" for _, n in l if n in F.bodies]
    if not nm:
        raise AI.Unsupported("no get_element_by_id")
    st = W.S.st
    st.heap["DOCUMENT"] = ("ag", "Document", None, ((0, ("s", "DOCHOLDER", "rphtml::parser::DocHolder")),))
    outs = W.I.call_fn(st, nm[0], [("r", (("H", "DOCUMENT"), ())), ("str", "x")])
    rows = AT.panic_rows(W)
    for r in rows:
        yield r
    have = [n for n in W.tree.order if ids.get(n) == "x"]
    if not outs and not rows:
        yield "", "lookup interpreted", "undecided", "no path returns"
    for s, v in outs:
        v = W.I.norm(s, v)
        if v[0] != "en" or v[2] not in ("Some", "None"):
            yield "", "finds an element with that id", "undecided", "answer not known"
            continue
        c = W.cell_of(W.I, s, AI.fget(v[4], 0)) if v[2] == "Some" else None
        if v[2] == "Some" and c is None:
            yield "", "finds an element with that id", "undecided", "answer not known"
            continue
        ok = (c in have) if have else c is None
        yield "", "finds an element that has the id now, and none otherwise", "proven" if ok else "undecided" if SS.outside(W.I, s) else "refuted", "returned %s, the id is on %s" % (c, have or "no element")


def id_cases():
    els = ("A", "B", "C", "D")
    out = []
    for vals in itertools.product((None, "x", "y"), repeat=3):
        ids = dict(zip(("B", "C", "D"), vals))
        ids["A"] = None
        for c in (None,) + els:
            out.append((ids, c))
    for c in (None,) + els:
        out.append(({"A": "x", "B": None, "C": None, "D": "X"}, c))
        out.append(({"A": "X", "B": None, "C": "", "D": None}, c))
    return out


def run(ctx):
    F = ctx.F
    AT.run_cases(ctx, histories(ctx.tier), history, show, "attribute methods")
    AT.run_cases(ctx, id_cases(), id_case, lambda c: "lookup of id x with %s, id table answers %s" % (" ".join("%s#%s" % kv for kv in sorted(c[0].items()) if kv[1] is not None) or "no ids", c[1]), "get_element_by_id")
