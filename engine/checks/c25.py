import itertools
import attrs as AT
import absint as AI
import setsuite as SS
import lin as L
from attrs import AttrWorld
from checks import c20 as TOT
from checks import c24 as RD

TECHNIQUE = "abstract interpretation of the MIR of every method that takes a user callback, with the callback as an unknown predicate: every answer sequence is explored, and the recorded calls and the result are compared with a reference replayed on the same answers"
NOTE = "element sets of up to four elements (repeated and out-of-order members included) and text sets of up to three; callbacks answer both ways at every call; texts_by and texts_by_rec on a tree of depth four with every depth limit up to four"
EXPLAIN = "for_each, each, map, filter_by, not_by, is_by, is_all_by of Elements, for_each, each, filter_by of Texts, texts_by and texts_by_rec are interpreted with a callback that records its arguments and forks on its answer. On every path the calls must be the documented ones (each member once, in order, with its position; stopping where documented) and the result the one these answers imply."
ASSUME = ["the callback itself does not change the set", "a callback is an arbitrary function: its answers are not correlated"]
WHERE = "src/mesdoc/interface/elements.rs, src/mesdoc/interface/texts.rs, src/lib.rs"
SPEC = [["A", ["t0", ["B", ["t1"]], "c0"]], "t2", "C", "D", "H"]
BOOL = ("filter_by", "not_by", "is_by", "is_all_by")


class Replay:
    """The recorded calls, handed out one by one to the reference."""
    def __init__(self, log):
        self.log, self.i, self.bad = log, 0, None

    def ask(self, *want):
        if self.bad:
            return None
        if self.i >= len(self.log):
            self.bad = "the callback is not called with %s" % (want,)
            return None
        got, ans = self.log[self.i]
        self.i += 1
        if got != want:
            self.bad = "call %d is with %s instead of %s" % (self.i, got, want)
            return None
        return ans

    def left(self):
        if not self.bad and self.i < len(self.log):
            self.bad = "an extra call with %s" % (self.log[self.i][0],)
        return self.bad


def ref(m, members, R, W=None, els=None, limit=None):
    """The documented calls and result."""
    if m in ("for_each", "each"):
        for i, c in enumerate(members):
            if R.ask("H", i, c) is False:
                break
        return None
    if m == "map":
        return [R.ask("H", i, c) for i, c in enumerate(members)]
    if m == "filter_by":
        return [c for i, c in enumerate(members) if R.ask("H", i, c)]
    if m == "not_by":
        return [c for i, c in enumerate(members) if not R.ask("H", i, c)]
    if m in ("is_by", "is_all_by"):
        stop = m == "is_by"
        out = not stop
        for i, c in enumerate(members):
            if R.ask("H", i, c) is stop:
                out = stop
                break
        return out if members or stop else None
    if m in ("texts_by", "texts_by_rec"):
        out = []
        content = ("script", "style", "textarea", "title")

        def go(n, d):
            for k in W.tree.kids[n]:
                if W.tree.kind(k) in ("Text", "SpacesBetweenTag") or W.tree.kind(k) == "Tag" and els[k][0] in content:
                    if R.ask("H", d, k):
                        out.append(k)
                elif W.tree.kind(k) == "Tag" and (limit == 0 or d + 1 < limit):
                    if m == "texts_by" or R.ask("R", k):
                        go(k, d + 1)
        for e in members:
            if els[e][0] in content and not W.tree.kids[e]:
                if R.ask("H", 0, e):
                    out.append(e)
            else:
                go(e, 0)
        return out


def case_fn(F, case):
    kind, m, cells, limit, htag = case
    els = {n: ("p", []) for n in "ABCDEGHJ"}
    els["H"] = (htag, [])
    W = AttrWorld(F, RD.TSPEC if limit is not None else SPEC, els, max_steps=300000, max_states=4000)
    I, st = W.I, W.S.st

    def user(I, st, fv, a, t, body):
        if fv[0] != "s" or not fv[1].startswith("USER:"):
            return None
        w = fv[1][5:]
        got = [w]
        for x in a:
            n = I.norm(st, x)
            if L.isint(n):
                got.append(n[1] if not n[2] else "?")
            else:
                got.append(W.cell_of(I, st, x))
        got = tuple(got)
        k = sum(1 for e in st.ev if e[0] == "by")
        if m == "map":
            sym = ("s", "R:%d" % k, "T")
            st.ev = st.ev + (("by", got, sym[1]),)
            return [(st, sym)]
        out = []
        for b in (True, False):
            s = st.copy()
            s.ev = s.ev + (("by", got, b),)
            out.append((s, ("b", b)))
        return out
    I.opt["on_usercall"] = user
    args = []
    if limit is not None:
        args.append(L.const(limit))
        for w in ("H", "R")[:2 if m == "texts_by_rec" else 1]:
            nm = I.fresh("fn" + w)
            st.heap[nm] = ("s", "USER:" + w, "dyn Fn")
            args.append(("bx", nm))
    else:
        args.append(("s", "USER:H", "F"))
    body = TOT.body_of(F, kind, m)
    if body is None:
        return
    if kind == "texts":
        out = []
        for c in cells:
            nm = I.fresh("in:" + c)
            st.heap[nm] = TOT.rc(c)
            out.append(("one", ("bx", nm)))
        me = ("ag", "mesdoc::interface::texts::Texts<'_>", None, ((0, ("vec", tuple(out))),))
    else:
        me = W.eles(list(cells))
    nm = I.fresh("self")
    st.heap[nm] = me
    outs = I.call_fn(st, body, [("r", (("H", nm), ()))] + args)
    rows = AT.panic_rows(W)
    for r in rows:
        yield r
    calls, result = "every callback gets its member, position and turn", "the result is what the callback's answers imply"
    if not outs and not rows:
        yield "", calls, "undecided", "no outcome"
    bad = {}
    for s, v in outs:
        log = [(e[1], e[2]) for e in s.ev if e[0] == "by"]
        out = bool(SS.outside(I, s))
        R = Replay(log)
        want = ref(m, list(cells), R, W, els, limit)
        if any("?" in g or None in g for g, _ in log):
            bad[calls] = ("undecided", "argument not known")
            continue
        if R.left():
            bad.setdefault(calls, ("undecided" if out else "refuted", "%s; answers %s" % (R.bad, [a for _, a in log])))
            continue
        v = I.norm(s, v)
        if m in ("for_each", "each"):
            got, want = W.cells(I, s, v), list(cells)
        elif m == "map":
            got = None
            if v[0] == "vec" and all(g[0] == "one" for g in v[1]):
                got = [(I.norm(s, g[1]) + (None, None))[1] for g in v[1]]
        elif m in ("is_by", "is_all_by"):
            got = v[1] if v[0] == "b" else None
            if want is None:
                want = got
        else:
            got = W.cells(I, s, v)
        if got is None:
            bad.setdefault(result, ("undecided", "result not known"))
        elif got != want:
            bad[result] = ("undecided" if out else "refuted", "gives %s instead of %s for the answers %s" % (got, want, [a for _, a in log]))
    for r in (calls, result):
        if outs:
            st_, d = bad.get(r, ("proven", ""))
            yield "", r, st_, d


def cases(F, tier):
    out = []
    sets = [()] + [s for k in (1, 2, 3) for s in itertools.permutations("ABC", k)] + [("A", "A"), ("B", "A", "B"), ("A", "B", "C", "D"), ("D", "A", "C", "B")]
    for m in ("for_each", "each", "map") + BOOL:
        out += [("set", m, s, None, "p") for s in sets]
    if TOT.body_of(F, "texts", "for_each"):
        for m in ("for_each", "each", "filter_by"):
            for k in range(0, 4):
                out += [("texts", m, s, None, "p") for s in itertools.permutations(("t0", "t1", "t2"), k)]
            out += [("texts", m, s, None, h) for s in (("t1", "t1"), ("H",), ("t0", "H"), ("H", "t0", "t1"), ("H", "H")) for h in ("script", "title")]
    if TOT.body_of(F, "set", "texts_by"):
        for m in ("texts_by", "texts_by_rec"):
            for h in ("p", "script", "title"):
                for n in range(0, 6 if tier == "thorough" else 5):
                    for s in ((), ("B",), ("D",), ("E",), ("H",), ("G", "J"), ("H", "D")) + ((("A",), ("J", "A")) if m == "texts_by" or tier == "thorough" else ()):
                        out.append(("set", m, s, n, h))
    return out


def describe(c):
    return "%s%s.%s(%scallback)" % ("texts" if c[0] == "texts" else "", list(c[2]), c[1], "%d, " % c[3] if c[3] is not None else "") + (" with H <%s>" % c[4] if c[3] is not None else "")


def run(ctx):
    AT.run_cases(ctx, cases(ctx.F, ctx.tier), case_fn, describe, WHERE)
