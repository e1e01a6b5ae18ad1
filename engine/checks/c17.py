"""Abstract interpretation of every traversal, until, filter (selector, callback and set variants), membership and insertion
method on enumerated document shapes, with selectors and callbacks as unknown predicates: the answer (or, for insertions, the
final child lists) must be the one the method's name prescribes on every path, and the combinator tables must be exact
inverses."""
import setsuite as SS
import setcheck as SC
import tables

EXPLAIN = __doc__
TECHNIQUE = "abstract interpretation of MIR over enumerated document shapes against the axis/mode/place of each method"
NOTE = "Exact for the listed trees and sets; combinator tables are decided completely. Larger trees are not covered."
ASSUME = ["node links of the input document are consistent (C01)", "inserted elements are ordinary elements that may be inserted at the target"]


def run(ctx):
    tables.combinators(ctx)
    J = [j for j in SS.traversal_jobs(ctx.tier) if j.get("label", "simple").startswith("simple")]
    J += [j for j in SS.until_jobs(ctx.tier) if not j["label"].endswith("pair")]
    J += [j for j in SS.filter_jobs(ctx.tier) if j.get("label", "simple").startswith("simple")]
    J += SS.forest_jobs(ctx.tier) + SS.unsorted_jobs(ctx.tier) + SS.pick_jobs(ctx.tier) + SS.insert_jobs(ctx.tier)
    SC.run(ctx, J, SC.answers("the method's own axis, mode or place"))
