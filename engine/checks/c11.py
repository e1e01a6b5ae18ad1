import re, sys
import absint as AI
import attrs as AT
import setsuite as SS
import setcheck as SC
import selparse as SP
import selwords as SW
import checks.c04 as P
import checks.c19 as K
import checks.c06 as EFF
from callgraph import CallGraph
import checks.c20 as T
from cfg import CFG
from facts import simp

TECHNIQUE = "abstract interpretation of the MIR with recurrence detection: a loop header or a recursive call reached again in the same abstract state with no choice in between never ends; plus a structural check that every cycle of every loop of the library passes a step that changes what its exit conditions read"
NOTE = "structural part: every loop of every function; recurrence: every set method on enumerated trees, sets and selectors, and the parser on the rule instances, their prefixes and compounds; longer inputs rest on the structural part"
EXPLAIN = "For every loop in the MIR the cycles are searched for one on which nothing that the loop's branches read is written and no call can change it: such a cycle, once entered, never ends. Methods and parser are interpreted on the enumerated abstract inputs; a header state that comes back unchanged without a non-deterministic choice is reported as a non-terminating path. Nothing is executed."

PURE = re.compile(r"::(len|is_empty|is_some|is_none|is_ok|is_err|eq|ne|lt|le|gt|ge|cmp|partial_cmp|deref|as_ref|as_str|get_ref|get|index|contains|first|last|as_slice|iter|clone|is|is_ascii\w*|starts_with|ends_with|borrow|length|unwrap|expect|into|from|as_deref|to_string|chars|trim\w*|min|max|count|node_type|tag_name|id|contains_key|unwrap_or|unwrap_or_default|fmt|as_bytes|ptr_eq|is_char_boundary)$")


def locs(x, out):
    if isinstance(x, dict):
        if "l" in x and "p" in x:
            out.add(x["l"])
            for e in x["p"]:
                if e[0] == "idx":
                    out.add(e[1])
            return
        for v in x.values():
            locs(v, out)
    elif isinstance(x, list):
        for v in x:
            locs(v, out)


def structure(ctx, F):
    global _G, _F
    _G, _F = CallGraph(F), F
    _Q.clear()
    n = 0
    for name, b in F.bodies.items():
        cfg = AI_cfg(F, b)
        for h, loop in cfg["loops"].items():
            n += 1
            st, why = progress(b, cfg, h, loop)
            ctx.ob("loop at %s" % b["blocks"][h]["t"].get("sp", b["sp"]), "every cycle of the loop changes what its exit reads", st, "%s (%s)" % (name, b["blocks"][h]["t"].get("sp", "")), why)
    ctx.count("loops", n)
    ctx.count("functions", len(F.bodies))
    rec = _I.selfrec()
    ctx.count("functions on a call cycle", len(rec))


_I = None


def AI_cfg(F, b):
    return _I.cfg(b)


_G = None
_Q = {}
STATEFUL = re.compile(r"Cell::(set|replace|swap|take|update)|RefCell::(replace|swap|take)|Mutex|RwLock|Atomic|Once|rand|time|env")


def quiet(t, b):
    """The call reaches only crate functions that write no node and run no callback: it changes nothing an exit reads."""
    targets, tags = _G.resolve(t, b)
    if not targets or any(x in ("user", "param") for x in tags):
        return False
    return all(quiet_fn(n) for n in targets)


def quiet_fn(n):
    if n not in _Q:
        ok = True
        for r in _G.reach([n]):
            if r.endswith("::trigger_error"):
                continue        # the error handler is told, it does not edit the loop's document
            if any(e[0] == "write" for e in EFF.effects(_F, _G, r)):
                ok = False
            for _, _, _, tags in _G.calls.get(r, ()):
                if any(x in ("user", "param") or x.startswith("ext:") and STATEFUL.search(x) for x in tags):
                    ok = False
            if not ok:
                break
        _Q[n] = ok
    return _Q[n]


_F = None


def progress(b, cfg, h, loop):
    blocks = b["blocks"]
    # what decides: locals read by switches in the loop, closed backwards over assignments and pure calls in the loop
    dec = set()
    for x in loop:
        t = blocks[x]["t"]
        if t["k"] == "switch":
            locs(t["o"], dec)
        elif t["k"] == "assert":
            locs(t.get("o") or t.get("c") or {}, dec)
    ch = True
    while ch:
        ch = False
        for x in loop:
            bl = blocks[x]
            for s in bl["s"]:
                if "rv" in s and s["pl"]["l"] in dec:
                    u = set()
                    locs(s["rv"], u)
                    if u - dec:
                        dec |= u
                        ch = True
            t = bl["t"]
            if t["k"] == "call" and t["d"]["l"] in dec:
                u = set()
                locs(t["a"], u)
                if u - dec:
                    dec |= u
                    ch = True
    # loop-carried: locals of the decision read before written on some way from the header
    live = _I.live_at(b, h)
    carried = dec & set(live)
    prog, unknown = set(), set()
    for x in loop:
        bl = blocks[x]
        for s in bl["s"]:
            if "rv" in s:
                if s["pl"]["l"] in carried or (s["pl"]["p"] and s["pl"]["p"][0][0] == "deref"):
                    prog.add(x)
        t = bl["t"]
        if t["k"] == "call":
            if t["d"]["l"] in carried:
                prog.add(x)
            at = t.get("at") or []
            p = t["f"].get("path") or "?"
            if any(a.startswith("&mut") for a in at) or "path" not in t["f"]:
                (prog if re.search(r"::(next|next_back|pop|pop_front|pop_back|remove|split_off|truncate|push\w*|insert|extend|append|drain|clear|retain)$", p) else unknown).add(x)
            elif not PURE.search(p) and not quiet(t, b):
                unknown.add(x)
    def cyc(avoid):
        seen, w = set(), [y for y in cfg["succ"][h] if y in loop] if h not in avoid else []
        while w:
            x = w.pop()
            if x == h:
                return True
            if x in seen or x in avoid or x not in loop:
                continue
            seen.add(x)
            w += cfg["succ"][x]
        return False
    if not cyc(prog):
        return "proven", "%d blocks, %d carried locals" % (len(loop), len(carried))
    if cyc(prog | unknown):
        return "refuted", "a way round the loop changes nothing its exits read (locals %s)" % sorted(b["locals"][l].get("n") or "_%d" % l for l in carried)
    return "undecided", "progress depends on calls not followed: " + ", ".join(sorted({(blocks[x]["t"]["f"].get("path") or "?").split("::")[-1] for x in unknown}))


def judge(j, r):
    for fn, sp, kind, taint in r.get("diverged", ()):
        yield "%s in %s" % (kind, fn.split("::")[-1]), "the call returns", "undecided" if taint else "refuted", "the same state comes back in %s (%s)" % (fn, sp)
    if not r.get("diverged"):
        yield "", "the call returns", "proven", ""


def word(F, w):
    P._I.diverged.clear()
    P._I.active.clear()
    try:
        P.parse(w[1:], w[0] == "+")
        err = None
    except (AI.Budget, AI.Unsupported) as e:
        err = type(e).__name__ + " " + str(e)[:100]
    d = SS.diverged(P._I)
    for fn, sp, kind, taint in d:
        yield "%s in %s" % (kind, fn.split("::")[-1]), "parsing ends", "undecided" if taint else "refuted", "the same state comes back in %s (%s)" % (fn, sp)
    if not d:
        yield "", "parsing ends", "undecided" if err else "proven", err or ""


def misc(F, case):
    try:
        W, outs = T.interp(F, case)
    except (AI.Budget, AI.Unsupported) as e:
        yield "", "the call returns", "undecided", str(e)[:100]
        return
    if outs is None:
        return
    d = SS.diverged(W.I)
    for fn, sp, kind, taint in d:
        yield "%s in %s" % (kind, fn.split("::")[-1]), "the call returns", "undecided" if taint else "refuted", "the same state comes back in %s (%s)" % (fn, sp)
    if not d:
        yield "", "the call returns", "proven", ""


def sample(J, tier):
    if tier == "thorough":
        return J
    # sets and selectors repeat per method: keep every method, thin the rest
    seen, out = {}, []
    for j in J:
        k = (j["m"], j.get("label"))
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= 14:
            out.append(j)
    return out


def add_jobs():
    """add() of long sets: the merge and its binary search have to meet every gap."""
    tree = [["A", ["B", "C", "D"]], "E", ["F", ["G", "H"]], "I"]
    els = list("ABCDEFGHI")
    J = []
    for x in els:
        J.append(dict(m="add", tree=tree, set=els, other=[x]))
        rest = [e for e in els if e != x]
        J.append(dict(m="add", tree=tree, set=rest, other=[x]))
        J.append(dict(m="add", tree=tree, set=[x], other=rest))
    for a, z in ((0, 3), (1, 5), (2, 8), (4, 9), (0, 9)):
        J.append(dict(m="add", tree=tree, set=els[a:z], other=els[1::2]))
        J.append(dict(m="add", tree=tree, set=els[::2], other=els[a:z]))
        J.append(dict(m="add", tree=tree, set=els[1::3], other=els[a:z]))
    return J


def run(ctx):
    global _I
    sys.setrecursionlimit(20000)
    F = ctx.F
    _I = AI.Interp(F)
    structure(ctx, F)
    AI.DIVERGENCE = True
    try:
        J = [j for j in SS.total_jobs(ctx.tier) if not (j["m"] == "find" and j.get("label") == "list" and len(j["set"]) > 1)]
        J = sample(J, ctx.tier) + sample(SS.traversal_jobs(ctx.tier) + SS.until_jobs(ctx.tier) + SS.prim_jobs(ctx.tier), ctx.tier) + add_jobs()
        SC.run(ctx, J, judge)
        AT.run_cases(ctx, T.cases(F), misc, T.describe, lambda c: T.body_of(F, c[0], c[1]) or c[1])
        P._FS = next((n for n in F.bodies if n.endswith("selector::Selector::from_str") and F.bodies[n]["argc"] == 2), None)
        try:
            P._I, P._ST = SP.table(F)
        except (AI.Budget, AI.Unsupported) as e:
            ctx.ob("registration", "the registries are built", "undecided", "", str(e)[:200])
            return
        ws = SW.words(F, P._I, P._ST, "quick")
        ws = ws[:2100] + (ws[2100:] if ctx.tier == "thorough" else ws[2100::8])
        AT.run_cases(ctx, ["+" + w for w in ws] + ["-" + w for w in ws[:400]], word, lambda w: repr(w[1:]) + ("" if w[0] == "+" else " (no lookup)"), F.bodies[P._FS]["sp"])
    finally:
        AI.DIVERGENCE = False
