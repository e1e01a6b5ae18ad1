"""Abstract interpretation of every selector-taking set method with the parser's outcome left open (any text may parse or be
rejected; the same text always the same way) and the document's error handler an unknown callback: on every path where a
selector is rejected and the set is not empty, the handler is called exactly once and the answer is an empty set or false; on
an empty set nothing panics; with valid selectors the handler is not called. The loading functions are interpreted with the
parser failing or not: the failure is returned, or handed to the given handler exactly once with an empty set, and a handler
given to a successful load is the one later reports go to. No parse error is dropped: every call whose result carries a parser
error is inspected on every path."""
import absint as AI
import lin as L
import setsuite as SS
import setcheck as SC
from setops import World, Tree, ELES
from scenes import rc

EXPLAIN = __doc__
TECHNIQUE = "abstract interpretation of MIR with the parser's outcome and the handler unknown; exactly-once event counting per path"
NOTE = "Decides the number of handler calls and the default answer on every path of each method for sets of 0 to 3 elements; texts of the messages are not judged."
ASSUME = ["the first element of the set has a live document", "rphtml's parser returns Ok or Err"]


def judge(j, r):
    for o in r["outs"]:
        bad = [x for x in o["parse"] if x[2] == "err"]
        if o["foreign"]:
            yield "", "reported exactly once", "undecided", "depends on " + o["foreign"][0]
            continue
        if not bad:
            ok = o["reports"] == 0
            yield "valid", "no report without an error", "proven" if ok else "refuted", "the handler is called %d times for a valid selector" % o["reports"]
            continue
        if j["set"]:
            ok = o["reports"] == 1
            yield "invalid " + bad[0][1], "reported exactly once", "proven" if ok else "refuted", "the handler is called %d times" % o["reports"]
        else:
            yield "invalid " + bad[0][1], "no panic on an empty set", "proven", ""
        if o["res"] is None:
            yield "invalid " + bad[0][1], "empty answer", "undecided", o["raw"]
        else:
            ok = o["res"] in ([], False)
            yield "invalid " + bad[0][1], "empty answer", "proven" if ok else "refuted", "returned %s" % o["res"]
    for x in SC.panics(j, r):
        yield x


def loads(ctx):
    F = ctx.F
    for name in ("load", "load_options", "load_catch", "load_options_catch"):
        body = "Vis::" + name
        b = F.bodies.get(body)
        if b is None:
            l = [n for n in F.bodies if n.endswith("Vis::" + name)]
            b = F.bodies[l[0]] if l else None
        if b is None:
            ctx.ob(name, "load interpreted", "undecided", "", "function not found")
            continue
        tree = Tree(["A"])
        W = World(F, tree, handler=True)
        I, S = W.I, W.S
        h = S.st.heap
        h["ONERR"] = AI.none()
        h["GIVEN"] = ("s", "HANDLER", "dyn Fn")

        def extra(I, st, nm, key, args, t, body):
            if key == "Doc::parse":
                s2 = st.copy()
                st.ev = st.ev + (("doc", "ok"),)
                s2.ev = s2.ev + (("doc", "err"),)
                return [(st, AI.ok(("s", "HOLDER", "rphtml::parser::DocHolder"), t["dt"])), (s2, AI.err(("s", "PARSE-ERROR", "std::boxed::Box<dyn std::error::Error + std::marker::Send + std::marker::Sync>"), t["dt"]))]
            return None
        W.extra = extra
        args = []
        for i in range(b["argc"]):
            ty = b["locals"][i + 1]["ty"]
            args.append(("bx", "GIVEN") if "dyn std::ops::Fn" in ty or "dyn Fn" in ty else ("str", "HTML") if i == 0 else ("s", "OPTIONS", ty))
        try:
            outs = I.call_fn(S.st, b["name"], args)
        except (AI.Budget, AI.Unsupported, RecursionError) as e:
            ctx.ob(name, "load interpreted", "undecided", b["name"], str(e))
            continue
        ctx.count("load paths", len(outs))
        for p in I.panics:
            ctx.ob("%s: %s" % (name, p["msg"]), "a failed load does not panic", "undecided" if SS.outside(I, p["st"]) else "refuted", p["fn"], p["msg"])
        for s, v in outs:
            v = I.norm(s, v)
            ok = ("doc", "ok") in s.ev
            failed = ("doc", "err") in s.ev
            n = [e for e in s.ev if e[0] == "report"]
            if not ok and not failed:
                ctx.ob(name, "load interpreted", "undecided", b["name"], "no parse on this path")
                continue
            catch = name.endswith("catch")
            if ok:
                ctx.ok(name + ": parsed", "no report without an error", not n, b["name"], "the handler is called although the document was parsed")
                if catch:
                    hv = I.norm(s, s.heap["ONERR"])
                    bound = False
                    if hv[0] == "en" and hv[2] == "Some":
                        x = I.norm(s, AI.fget(hv[4], 0))
                        for _ in range(4):
                            if x[0] in ("rc", "bx"):
                                x = I.norm(s, s.heap.get(x[1], AI.UNDEF))
                        bound = x[0] == "s" and x[1] == "HANDLER"
                        if x[0] not in ("s", "u"):
                            ctx.ob(name + ": parsed", "the handler is bound to the document", "undecided", b["name"], repr(x)[:100])
                            continue
                    if hv[0] != "en":
                        ctx.ob(name + ": parsed", "the handler is bound to the document", "undecided", b["name"], repr(hv)[:100])
                        continue
                    ctx.ok(name + ": parsed", "the handler is bound to the document", bound, b["name"], "later errors do not reach the given handler")
                else:
                    st = "proven" if v[0] == "en" and v[2] == "Ok" else "refuted" if v[0] == "en" else "undecided"
                    ctx.ob(name + ": parsed", "a parsed document is returned", st, b["name"], repr(v)[:100])
                continue
            if catch:
                same = [e for e in n if e[1] in ("PARSE-ERROR",)]
                ctx.ok(name + ": not parsed", "reported exactly once", len(n) == 1, b["name"], "the handler is called %d times" % len(n))
                cells = W.cells(I, s, v)
                ctx.ob(name + ": not parsed", "empty answer", "undecided" if cells is None else "proven" if not cells else "refuted", b["name"], "returned %s" % cells)
            else:
                st = "proven" if v[0] == "en" and v[2] == "Err" else "refuted" if v[0] == "en" else "undecided"
                ctx.ob(name + ": not parsed", "the failure is returned", st, b["name"], repr(v)[:100])


def dropped(ctx):
    """Calls that yield a selector-parse result must have it inspected (matched, unwrapped with a test, or passed on)."""
    F = ctx.F
    for b in F.fn_bodies():
        for bi, bl in enumerate(b["blocks"]):
            t = bl["t"]
            if t["k"] != "call" or bl.get("u") or "Result<" not in t["dt"] or "selector::Selector" not in t["dt"]:
                continue
            d = t["d"]
            if d["p"]:
                continue
            used = False
            for b2 in b["blocks"]:
                if b2.get("u"):
                    continue
                if uses(b2, d["l"]):
                    used = True
            ctx.ok("%s: result of %s" % (b["name"], (t["f"].get("path") or "?").split("::")[-1]), "no parse result is dropped", used or d["l"] == 0, b["name"], "the result is never read")


def uses(bl, l):
    import json
    def has(x):
        if isinstance(x, dict):
            if x.get("l") == l and "p" in x:
                return True
            return any(has(v) for k, v in x.items())
        if isinstance(x, list):
            return any(has(v) for v in x)
        return False
    for s in bl["s"]:
        if isinstance(s, dict) and has(s.get("rv")):
            return True
    t = bl["t"]
    if t["k"] in ("switch", "assert") and has(t.get("o")):
        return True
    if t["k"] == "call" and has(t.get("a")):
        return True
    return False


def run(ctx):
    SC.run(ctx, SS.invalid_jobs(ctx.tier), judge)
    loads(ctx)
    dropped(ctx)
