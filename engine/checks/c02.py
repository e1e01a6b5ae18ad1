"""Abstract interpretation of insertion and replacement with the target itself, each ancestor or a document as content:
the call is refused, reported to the document's error handler, and no tree link is written."""
import treeops as T
from shape import *
from scenes import node_field

EXPLAIN = __doc__
TECHNIQUE = 'abstract interpretation of MIR (refusal paths leave heap unchanged and report)'
NOTE = 'Refusal scenarios (self, ancestor at several depths, document) are interpreted; every path must leave the shape unchanged and report. Ancestor depth is enumerated, sibling counts are symbolic.'
ASSUME = ["ancestor chains of 1 to 5 levels are enumerated"]


def run(ctx):
    F = ctx.F
    for sc in T.suite(ctx.tier):
        if not sc.refuse:
            continue
        ctx.count("scenarios")
        r = T.evaluate(F, sc)
        where = r["run"].body if r["run"] is not None and getattr(r["run"], "body", None) else sc.method
        if r["error"]:
            ctx.ob(sc.label, "mutator interpreted", "undecided", where, r["error"])
            continue
        R = r["run"]
        for st, _ in r["finals"]:
            t = tainted(R.I, st)
            ctx.count("abstract paths")
            changed = []
            for c in R.cells:
                for f in ("childs", "parent", "index"):
                    i = R.I.node_idx[f]
                    a, b = dict(R.heap0[c][3]).get(i), dict(st.heap[c][3]).get(i)
                    if a != b:
                        changed.append("%s.%s" % (c, f))
            for w in st.gw:
                if w[4] in (R.I.node_idx["parent"], R.I.node_idx["index"]):
                    changed.append("a child's links")
            ctx.ob(sc.label + ": tree unchanged", "no tree write on a refused call", "proven" if not changed else "undecided" if t else "refuted", where,
                   "writes " + ", ".join(changed[:5]))
            n = T.reports(st)
            ctx.ob(sc.label + ": reported", "refusal reported", "proven" if n else "undecided" if t else "refuted", where, "no error is reported on this path")
