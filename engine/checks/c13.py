"""Abstract interpretation of every set-producing method (find, traversals, until methods, closest, filters, add) on
enumerated document shapes and starting sets in document order, with unknown selectors of every combinator and list form: on
every path the returned nodes are strictly increasing in document order, so sorted and without duplicates."""
import setsuite as SS
import setcheck as SC

EXPLAIN = __doc__
TECHNIQUE = "abstract interpretation of MIR over enumerated document shapes, matchers as unknown predicates"
NOTE = "Exact for the listed trees, starting sets and selector forms; larger trees are not covered."
ASSUME = ["node links of the input document are consistent (C01)", "starting sets are in document order without duplicates"]


def run(ctx):
    SC.run(ctx, SS.unsorted_jobs(ctx.tier), SC.once)
    J = SS.traversal_jobs(ctx.tier) + SS.find_jobs(ctx.tier) + SS.until_jobs(ctx.tier) + SS.filter_jobs(ctx.tier) + SS.forest_jobs(ctx.tier) + [j for j in SS.pick_jobs(ctx.tier) if j["m"] != "contains"]
    SC.run(ctx, J, SC.ordered)
