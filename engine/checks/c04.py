import time
import attrs as AT
import absint as AI
import selparse as SP
import selwords as SW
from setsuite import outside

TECHNIQUE = "abstract interpretation of the MIR of the selector front end (registration, patterns, tokenizer, factories, optimizer) over enumerated words of character classes derived from the interpreted rule table; every reachable panic (assert, unwrap/expect, index, overflow, explicit) on an exact path is a violation"
NOTE = "words: all of length 2 over 44 character classes, every instance and prefix of every rule, one inserted or replaced class at every place of every parameterised rule, compounds; all longer than that are not explored (length 3 in the thorough tier)"
EXPLAIN = "Selector::from_str is interpreted on its MIR (nothing is executed) from the interpreted state of the registries; the abstract words use one representative per character class that constants, ranges and regular expressions of the reached code can tell apart. Arithmetic asserts, bounds checks, failed unwraps and explicit panics reached on a path with no unmodelled value are violations."
ASSUME = ["regular expressions are matched leftmost-first as the regex crate documents; the equivalent expression is evaluated for each abstract word"]

_I = _ST = _FS = None
WORD_S = 25


def parse(word, lookup=True):
    _I.panics.clear()
    _I.unknown_calls.clear()
    _I.steps = 0
    _I.opt["deadline"] = time.time() + WORD_S
    return _I.call_fn(_ST.copy(), _FS, [("str", word), ("b", lookup)])


def one(F, word):
    try:
        outs = parse(word[1:], word[0] == "+")
    except (AI.Budget, AI.Unsupported) as e:
        outs = None
        why = type(e).__name__ + " " + str(e)[:120]
    seen = set()
    bad = False
    for p in _I.panics:
        k = (p["msg"], p["fn"])
        if k in seen:
            continue
        seen.add(k)
        taint = p.get("st") is None or bool(outside(_I, p["st"]))
        bad = True
        yield "%s in %s" % (p["msg"], p["fn"].split("::")[-1]), "parsing never panics", "undecided" if taint else "refuted", "%s in %s (%s)" % (p["msg"], p["fn"], p["sp"])
    if outs is None:
        if not bad:
            yield "", "parsing never panics", "undecided", why
        return
    if not bad:
        res = {o[1][2] for o in outs if o[1][0] == "en"}
        yield "", "parsing never panics", "proven" if outs and res <= {"Ok", "Err"} else "undecided", "returns " + "/".join(sorted(res))


def run(ctx):
    global _I, _ST, _FS
    import sys
    sys.setrecursionlimit(20000)
    F = ctx.F
    _FS = next((n for n in F.bodies if n.endswith("selector::Selector::from_str") and n in F.bodies and F.bodies[n]["argc"] == 2), None)
    if _FS is None:
        ctx.ob("Selector::from_str", "parser found", "undecided", "", "no such function")
        return
    where = F.bodies[_FS]["sp"]
    try:
        _I, _ST = SP.table(F)
    except (AI.Budget, AI.Unsupported) as e:
        ctx.ob("registration", "the registries are built", "undecided", where, str(e)[:200])
        return
    for p in _I.panics:
        ctx.ob("registration: " + p["msg"], "registering the built-in rules does not panic", "undecided", p["sp"], p["fn"])
    ws = SW.words(F, _I, _ST, ctx.tier)
    ctx.count("functions", len(AT.reached(F, [_FS])))
    # "+": with the lookup optimisation (queries); "-": without (filters, `is`, `closest`)
    AT.run_cases(ctx, ["+" + w for w in ws] + ["-" + w for w in ws[:2100]], one, lambda w: repr(w[1:]) + ("" if w[0] == "+" else " (no lookup)"), where)
