"""Abstract interpretation of insertion and replacement: the final child lists are exactly the original ones with the
content moved to its place, in order, and nothing else lost."""
import treeops as T
from shape import *

EXPLAIN = __doc__
TECHNIQUE = 'abstract interpretation of MIR (shape analysis: multiset and order of child segments)'
NOTE = 'For each insertion/replacement scenario the final segments must equal the specified sequence; trusts the same summaries as C01.'
ASSUME = ["as for C01"]


def run(ctx):
    F = ctx.F
    for sc in T.suite(ctx.tier):
        if sc.refuse or sc.expect is None:
            continue
        ctx.count("scenarios")
        r = T.evaluate(F, sc)
        where = r["run"].body if r["run"] is not None and getattr(r["run"], "body", None) else sc.method
        if r["error"]:
            ctx.ob(sc.label, "mutator interpreted", "undecided", where, r["error"])
            continue
        ctx.count("abstract paths", len(r["finals"]))
        for st, _ in r["finals"]:
            o = Outcome(r["run"].I, st, sc)
            for w, l in sc.expect(st).items():
                o.check_list(w, l)
            for what, status, det in o.res:
                ctx.ob("%s: %s" % (sc.label, what.split(" is ")[0]), "exact child list", status, where, what + "; " + det)
