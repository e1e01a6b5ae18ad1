"""Abstract interpretation of every tree mutator over a segmented list/shape domain: after the call every listed node
records its offset and its list's owner, nothing is listed twice, and what left a list has no parent."""
import treeops as T
from shape import *
from scenes import OPTW, child_segs
from absint import none
import lin as L

EXPLAIN = __doc__
TECHNIQUE = 'abstract interpretation of MIR (shape analysis of child lists with symbolic lengths)'
NOTE = "Every mutator is interpreted over trees with symbolic sibling counts; the final child lists, positions and parent links are proved segment-wise. Trusts rustc's MIR, the summaries of std and rphtml callees and that the scenario shapes cover the callers' aliasing; undecided obligations are reported in the evidence and never alarm."
ASSUME = ["the tree is consistent before the call (the parser's output is), parent nodes are alive",
          "rphtml's create_text_node returns a parentless node with index 0; Doc::parse returns a consistent tree",
          "lists split into symbolic segments around the target: lengths are unbounded; chains of ancestors are concrete"]


def run(ctx):
    F = ctx.F
    for sc in T.suite(ctx.tier):
        if sc.refuse:
            continue
        ctx.count("scenarios")
        r = T.evaluate(F, sc)
        where = r["run"].body if r["run"] is not None and getattr(r["run"], "body", None) else sc.method
        if r["error"]:
            ctx.ob(sc.label, "mutator interpreted", "undecided", where, r["error"])
            continue
        ctx.count("abstract paths", len(r["finals"]))
        ctx.count("abstract steps", r["run"].I.steps)
        for i, (st, o0) in enumerate(r["finals"]):
            o = Outcome(r["run"].I, st, sc)
            for w in sc.owners:
                o.check_owner(w)
            o.no_dup(sc.owners)
            for d in sc.detached:
                gone(o, sc, d)
            for gid, ln, owner in sc.free_groups:
                segs = child_segs(o.I, st, owner)
                if segs is not None and not any(s[0] == "grp" and s[1] == gid for s in segs):
                    o.check_detached_group(gid, ln)
            for what, status, det in o.res:
                rule = "index" if what.startswith("index") else "parent" if what.startswith("parent") else "listed once" if what.startswith("no node") else "detached" if "detached" in what else "list tracked"
                ctx.ob("%s: %s" % (sc.label, what), "tree: " + rule, status, where, det)


def gone(o, sc, d):
    name = d.rstrip("?")
    listed = False
    for w in sc.owners:
        segs = child_segs(o.I, o.st, w)
        if segs is None:
            return
        if any(s[0] == "one" and o.I.norm(o.st, s[1]) == ("rc", name) for s in segs):
            listed = True
    if listed:
        return
    o.add("%s is detached" % name, judge_eq(o.I, o.st, o.field(name, "parent"), none(OPTW)), "still records a parent")
