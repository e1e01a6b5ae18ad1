import itertools, sys, time
import attrs as AT
import absint as AI
import lin as L
import strings as ST
import selparse as SP
import selwords as SW
from setops import fields_of, SEL, QP, COMB

TECHNIQUE = "abstract interpretation of the MIR of the registration code and the parser: the rule table is built by interpretation, every instance of every rule and every documented form is parsed abstractly, and the factory reached, the groups, compounds and combinators of the result are compared with what was written"
NOTE = "every rule of the interpreted table x its instances; every documented form; all compounds of two and three parts over five combinators (spelled with and without blanks) and both lookup modes"
EXPLAIN = "mesdoc::init is interpreted to obtain the registered rules; a hook records which rule's factory the parser reaches for each word, so a rule that hides another one, a form that is no longer recognised, a lost or swapped combinator, a dropped compound part or a duplicated registration is reported with the word that shows it. Nothing is executed."

# forms listed in the documentation (README): they must be recognised
DOCUMENTED = ["*", "#id", ".class", "p", "[attr]", "[attr=value]", "[attr='value']", '[attr="value"]', "[attr*=value]", "[attr^=value]", "[attr$=value]", "[attr~=value]", "[attr|=value]", "[attr!=value]",
              "[attr='value with blanks']", "[ attr = 'value' ]", "[data-x]", ":root", ":empty", ":first-child", ":last-child", ":only-child", ":nth-child(2)", ":nth-child(2n+1)", ":nth-child(odd)", ":nth-child(even)",
              ":nth-child( -n + 3 )", ":nth-last-child(1)", ":nth-last-child(2n)", ":first-of-type", ":last-of-type", ":only-of-type", ":nth-of-type(2)", ":nth-of-type(n)", ":nth-last-of-type(2n-1)", ":not(p)", ":not(.a, #b)", ":not( p )",
              ":contains(text)", ":contains('a text')", ':contains("text")', ":has(p)", ":has(> p)", ":has(.a .b)", ":checked", ":header", ":input", ":submit", "p.class#id[attr]:first-child", "a\\.b", ".a\\:b", "p:not(:first-child)", ":not([a=b])"]
# what the documentation does not offer
COMBS = [(" ", "ChildrenAll"), ("  ", "ChildrenAll"), ("\n\t", "ChildrenAll"), (">", "Children"), (" > ", "Children"), ("\t>\n", "Children"), ("+", "Next"), (" + ", "Next"), ("~", "NextAll"), (" ~ ", "NextAll"), ("\u00a0>\u00a0", "Children")]

_I = _ST = _FS = None
_MADE = []
_SEEN = []      # what each factory was given: [(text, name, data)]


def given(I, st, v):
    """The matched queue as (text, {data}) rows; '?' where not known."""
    mf = fields_of(I.F, "mesdoc::selector::pattern::Matched")
    v = I.norm(st, v)
    if v[0] != "vec" or any(g[0] != "one" for g in v[1]):
        return "?"
    out = []
    for g in v[1]:
        m = I.norm(st, g[1])
        if m[0] != "ag":
            return "?"
        c = ST.chars_of(I, st, AI.fget(m[3], mf["chars"]))
        d = I.norm(st, AI.fget(m[3], mf["data"]) or ("u",))
        rows = "?"
        if d[0] == "vec" and all(h[0] == "one" and I.norm(st, h[1])[0] == "ag" for h in d[1]):
            rows = tuple(sorted((str(ST.text(I, st, AI.fget(I.norm(st, h[1])[3], 0))), str(ST.text(I, st, AI.fget(I.norm(st, h[1])[3], 1)))) for h in d[1]))
        out.append(("?" if c is None else c, rows))
    return tuple(out)


def _hook(F, fr):
    make = [n for n in F.bodies if n.endswith("selector::rule::Rule::make")]

    def call(I, st, name, key, args, t, body):
        if name in make:
            v = I.norm(st, args[0])
            loc = v
            for _ in range(6):
                if loc[0] == "r":
                    if loc[1][0][0] == "H" and not loc[1][1]:
                        break
                    nx = I.norm(st, I.read(st, loc[1]))
                    if nx[0] not in ("r", "rc", "bx"):
                        break
                    loc = nx
                else:
                    break
            nm = loc[1][0][1] if loc[0] == "r" else loc[1]
            _SEEN.append(given(I, st, args[1]) if len(args) > 1 else "?")
            I.front.hook = None
            try:
                outs = I.call_fn(st, name, args, t.get("dt"))
            finally:
                I.front.hook = call
            out = []
            for s, m in outs:
                tag = len(_MADE)
                _MADE.append(nm)
                m = I.norm(s, m)
                if m[0] == "ag":
                    m = ("ag", m[1], m[2], tuple(x for x in m[3] if x[0] != 99) + ((99, L.const(tag)),))
                out.append((s, m))
            return out
        return None
    return call


class Front(SP.Front):
    hook = None

    def call(self, I, st, name, key, args, t, body):
        if self.hook:
            r = self.hook(I, st, name, key, args, t, body)
            if r is not None:
                return r
        return SP.Front.call(self, I, st, name, key, args, t, body)


def setup(F):
    global _I, _ST, _FS
    fr = Front(F)
    _I = AI.Interp(F, on_call=fr.call, recurse=12, max_depth=80, max_steps=3000000, max_states=4000, unroll_nd=200)
    _I.front = fr
    _I, _ST = SP.table(F, _I)
    fr.hook = _hook(F, fr)
    _FS = next(n for n in F.bodies if n.endswith("selector::Selector::from_str") and F.bodies[n]["argc"] == 2)


def parse(word, lookup):
    """('Ok', groups) | ('Err', None) | ('?', why); groups: [[[(rule, combinator)]]] as written (should_in + query)."""
    _MADE.clear()
    _I.panics.clear()
    _I.steps = 0
    _I.opt["deadline"] = time.time() + 25
    try:
        outs = _I.call_fn(_ST.copy(), _FS, [("str", word), ("b", lookup)])
    except (AI.Budget, AI.Unsupported) as e:
        return "?", str(e)[:100]
    if len(outs) != 1:
        return ("panic", _I.panics[0]["msg"]) if not outs and _I.panics else ("?", "%d outcomes" % len(outs))
    st, v = outs[0]
    v = _I.norm(st, v)
    if v[0] != "en":
        return "?", "result not known"
    if v[2] == "Err":
        return "Err", None
    I, F = _I, _I.F
    qf, sf = fields_of(F, QP), fields_of(F, SEL)

    def items(x):
        x = I.norm(st, x)
        if x[0] != "vec" or any(g[0] != "one" for g in x[1]):
            raise AI.Unsupported("list not known")
        return [I.norm(st, g[1]) for g in x[1]]

    def segs(x):
        out = []
        for seg in items(x):
            row = []
            for s in items(seg):
                m, c = I.norm(st, AI.fget(s[3], 0)), I.norm(st, AI.fget(s[3], 1))
                tag = AI.fget(m[3], 99)
                row.append((_MADE[tag[1]] if tag is not None else "?", c[2] if c[0] == "en" else "?"))
            out.append(row)
        return out
    try:
        sel = I.norm(st, AI.fget(v[4], 0))
        gs = []
        for p in items(AI.fget(sel[3], sf["process"])):
            sh = I.norm(st, AI.fget(p[3], qf["should_in"]))
            a = segs(AI.fget(sh[4], 0)) if sh[0] == "en" and sh[2] == "Some" else []
            gs.append(a + segs(AI.fget(p[3], qf["query"])))
    except AI.Unsupported as e:
        return "?", str(e)
    return "Ok", gs


def check_instance(case):
    _, word, cell, name = case
    r, gs = parse(word, True)
    rule = "a text a rule's pattern covers reaches that rule's matcher"
    if r == "?":
        yield "", rule, "undecided", gs
    elif r != "Ok":
        yield "", rule, "refuted", "%s is not recognised (%s)" % (word, r)
    else:
        got = [m for g in gs for seg in g for m, _ in seg]
        yield "", rule, "proven" if got == [cell] else "undecided" if "?" in got else "refuted", "reaches the matchers of %s" % [_NAMES.get(x, x) for x in got]


def check_doc(case):
    _, word = case
    r, gs = parse(word, True)
    yield "", "documented form is recognised", "proven" if r == "Ok" and gs and gs[0] else "undecided" if r == "?" else "refuted", "%s %s" % (r, gs if r == "?" else "")


def check_compound(case):
    """parts: lists of simple selectors; combs between them."""
    _, groups, lookup = case
    word = ""
    want = []
    for gi, (parts, combs) in enumerate(groups):
        if gi:
            word += ","
        row = []
        for i, p in enumerate(parts):
            if i:
                word += combs[i - 1][0]
            word += "".join(p)
            row.append((combs[i - 1][1] if i else "ChildrenAll", sorted(_OWN[x] for x in p)))
        want.append(row)
    r, gs = parse(word, lookup)
    rule = "groups, compounds and combinators are the written ones"
    if r == "?":
        yield word, rule, "undecided", gs
        return
    if r != "Ok":
        yield word, rule, "refuted", "not recognised (%s)" % r
        return
    got = [[(seg[0][1] if seg else "?", sorted(str(m) for m, _ in seg)) for seg in g] for g in gs]
    chain = all(c == "Chain" for g in gs for seg in g for _, c in seg[1:])
    if any("?" in m for g in got for _, m in g):
        yield word, rule, "undecided", "matchers not known"
        return
    nm = lambda rows: [[(c, [_NAMES.get(x, x) for x in m]) for c, m in g] for g in rows]
    yield word, rule, "proven" if got == want else "refuted", "parsed as %s, written %s" % (nm(got), nm(want))
    yield word, "the simple selectors of one compound apply to the same element", "proven" if chain else "refuted", str([[c for _, c in seg] for g in gs for seg in g])


_NAMES, _OWN = {}, {}


def one(F, case):
    return {"inst": check_instance, "doc": check_doc, "comp": check_compound}[case[0]](case)


def run(ctx):
    sys.setrecursionlimit(20000)
    F = ctx.F
    try:
        setup(F)
    except (AI.Budget, AI.Unsupported, StopIteration) as e:
        ctx.ob("registration", "the registries are built", "undecided", "", str(e)[:200])
        return
    I, st = _I, _ST
    for p in I.panics:
        ctx.ob("registration: " + p["msg"], "registering the built-in rules does not panic", "undecided", p["sp"], p["fn"])
    rs = SW.rules(I, st)
    if not rs:
        ctx.ob("registration", "the rule table is known", "undecided", "", "table not known")
        return
    where = F.bodies[_FS]["sp"]
    ctx.count("rules", len(rs))
    names = [n for n, _ in rs]
    for n in sorted(set(str(x) for x in names)):
        k = names.count(n)
        ctx.ob("rule " + n, "registered once", "proven" if k == 1 else "refuted" if n != "None" else "undecided", where, "%d registrations" % k)
    cases = []
    for n, cell in rs:
        q = SW.queue(I, st, cell, F)
        _NAMES[cell[1]] = n
        if q is None:
            ctx.ob("rule " + str(n), "pattern known", "undecided", where, "queue not known")
            continue
        for w in good(q):
            cases.append(("inst", w, cell[1], n))
    for w in DOCUMENTED:
        cases.append(("doc", w))
    for s in ("p", ".c", "#i", "[a=b]", ":empty", "*", ":not(a)", ":nth-child(2)"):
        r, gs = parse(s, True)
        if r == "Ok" and len(gs) == 1 and len(gs[0]) == 1 and len(gs[0][0]) == 1:
            _OWN[s] = str(gs[0][0][0][0])
    simple = [s for s in ("p", ".c", "#i", "[a=b]", ":empty", "*", ":not(a)", ":nth-child(2)") if s in _OWN]
    ctx.count("simple selectors in compounds", len(simple))
    comps = [["p"], [".c"], ["#i"], ["[a=b]"], [":empty"], ["p", ".c"], ["p", ".c", "#i"], [".c", ":empty", "[a=b]"], [":nth-child(2)"], [":not(a)"], ["*", ".c"]]
    comps = [c for c in comps if all(s in _OWN for s in c)]
    for lookup in (True, False):
        for a, c, b in itertools.product(comps, COMBS, comps):
            cases.append(("comp", (((a, b), (c,)),), lookup))
        few = [c for c in comps if c in (["p"], ["#i"], ["p", ".c"])]
        basic = [c for c in COMBS if c[0] in (" ", ">", "+", " ~ ")]
        for a, c, b, d, e in itertools.product(few, basic, few, basic, few):
            cases.append(("comp", (((a, b, e), (c, d)),), lookup))
        for a, b in itertools.product(comps, comps):
            cases.append(("comp", (((a,), ()), ((b,), ())), lookup))
            cases.append(("comp", (((a, b), (COMBS[3],)), ((b, a), (COMBS[6],))), lookup))
    rev = next((n for n in F.bodies if n.endswith("selector::Combinator::reverse")), None)
    for c in sorted({c for _, c in COMBS} | {"Chain"}) if rev else []:
        J = AI.Interp(F, max_steps=5000)
        s0 = AI.St()
        s0.heap["C"] = ("en", COMB, c, None, ())
        outs = J.call_fn(s0, rev, [("r", (("H", "C"), ()))])
        ctx.ob("combinator " + c, "every combinator the parser produces can be looked up in reverse", "proven" if outs and not J.panics else "refuted" if J.panics and not outs else "undecided", F.bodies[rev]["sp"], "%d outcomes, %d panics" % (len(outs), len(J.panics)))

    def show(c):
        return {"inst": lambda: "%s as %s" % (c[1], c[3]), "doc": lambda: c[1], "comp": lambda: "lookup" if c[2] else "no lookup"}[c[0]]()
    AT.run_cases(ctx, cases, one, show, where)


def good(q):
    """Instances every place of which its pattern accepts by definition."""
    ok = {"Spaces": ["", " "], "Nth": ["n", "2", "2n", "-n+3", "2n+1", "even", "odd"], "NestedSelector": ["a", "a b", ".a,#b"], "Identity": ["a", "a-1_b", "h1", "not", "first-child", "n"], "AttrKey": ["a", "data-x", "a1"]}
    per = []
    for p in q:
        if p[0] == "lit":
            per.append([p[1]])
        elif p[1] in ok:
            per.append(ok[p[1]])
        elif p[1] == "RegExp":
            per.append(["", "=b", "='b c'", '="b"', "^=b", "$='b'", "*=b", "~=b", "|=b", "!=b"] if "=" in p[2][:20] else ["a", "'a b'", '"a"'])
        else:
            return []
    base = [x[0] for x in per]
    out = ["".join(base)]
    for i, x in enumerate(per):
        for s in x[1:]:
            out.append("".join(base[:i] + [s] + base[i + 1:]))
    return out
