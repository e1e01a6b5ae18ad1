"""Runs jobs of the set suite and turns the summaries into obligations of one property."""
import setsuite as SS
from setops import Tree
import re


def where_of(F, m):
    m = m.rstrip("#")
    for n in F.bodies:
        if re.search(r"elements::Elements::(<'?\w+>::)?%s$" % re.escape(m), n):
            return n
    return SS.prim(F, m) or m


def run(ctx, jobs, judge):
    """judge(job, out, verdicts) yields (key suffix, rule, status, detail)."""
    F = ctx.F
    ctx.count("method/shape/selector combinations", len(jobs))
    methods = set()
    for r in SS.run_jobs(F, jobs):
        j = r["job"]
        methods.add(j["m"].rstrip("#"))
        d = SS.describe(j)
        w = where_of(F, j["m"])
        if r["error"]:
            ctx.ob(d, "method interpreted", "undecided", w, r["error"])
            continue
        ctx.count("abstract paths", len(r["outs"]))
        if not r["outs"] and not r["panics"]:
            ctx.ob(d, "method interpreted", "undecided", w, "no path returns")
        for key, rule, status, detail in judge(j, r):
            ctx.ob((d + ": " + key) if key else d, rule, status, w, detail)
    ctx.analysed["methods"] = ", ".join(sorted(methods | set((ctx.analysed.get("methods") or "").split(", ")) - {""}))


def answers(rule):
    def judge(j, r):
        for st, det, o in SS.verdicts(r):
            yield "", rule, st, det
    return judge


def root_of(T, c):
    while T.parent.get(c):
        c = T.parent[c]
    return c


def ordered(j, r):
    T = SS.tree_of(j)
    for o in r["outs"]:
        res = o["res"]
        if not isinstance(res, list):
            if res is None:
                yield "", "document order, no duplicates", "undecided", "answer not known"
            continue
        by = {}     # there is no order between elements of different trees
        for c in res:
            by.setdefault(root_of(T, c), []).append(T.pos.get(c, -1))
        ok = all(a < b for pos in by.values() for a, b in zip(pos, pos[1:]))
        st = "proven" if ok else "undecided" if o["foreign"] else "refuted"
        yield "", "document order, no duplicates", st, "" if ok else "returned %s when %s" % (res, o["preds"])


def elements_only(j, r):
    for o in r["outs"]:
        res = o["res"]
        if res is None:
            yield "", "only elements are returned", "undecided", "answer not known"
            continue
        if isinstance(res, list):
            bad = [c for c in res if Tree.kind(c) != "Tag" and not (c in j["set"])]
            st = "proven" if not bad else "undecided" if o["foreign"] else "refuted"
            yield "", "only elements are returned", st, "returned %s" % bad if bad else ""
        if o["asked"] and any(c not in j["set"] for c in o["asked"]):
            bad = [c for c in o["asked"] if c not in j["set"]]
            yield "matched nodes", "only elements are matched", "undecided" if o["foreign"] else "refuted", "the matcher was asked about %s" % bad[:3]


def panics(j, r):
    seen = set()
    for p in r["panics"]:
        k = (p["msg"], p["fn"])
        if k in seen:
            continue
        seen.add(k)
        yield "%s in %s" % (p["msg"], p["fn"].split("::")[-1]), "no panic", "undecided" if p["taint"] else "refuted", p["msg"] + " in " + p["fn"]
    if not seen:
        yield "", "no panic", "proven", ""


def both(*js):
    def judge(j, r):
        for f in js:
            for x in f(j, r):
                yield x
    return judge


def once(j, r):
    """No duplicates, whatever the order of the starting set."""
    for o in r["outs"]:
        res = o["res"]
        if isinstance(res, list):
            ok = len(set(res)) == len(res)
            yield "", "no duplicates", "proven" if ok else "undecided" if o["foreign"] else "refuted", "" if ok else "returned %s when %s" % (res, o["preds"])
