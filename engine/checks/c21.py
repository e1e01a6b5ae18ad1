"""Abstract interpretation of selection with compound selectors on enumerated document shapes: the parsed segments (unknown
predicates joined by combinators, chains and lists, with unknown-rule priorities that make the optimiser look any segment up
first) go through the library's own optimisation and matching code; on every path the answer equals the relational composition
of the written selector - for find, children/next/prev/siblings/parent(s), until methods, closest, filter, not, is, is_all and
has - whichever kind of matcher (per element, per set, both, per child, id lookup) the rules provide."""
import setsuite as SS
import setcheck as SC

EXPLAIN = __doc__
TECHNIQUE = "abstract interpretation of MIR over enumerated document shapes against the relational meaning of the selector"
NOTE = "Exact for the listed trees and selector forms of up to three segments; the text-to-segment parser is outside (C04, C16)."
ASSUME = ["node links of the input document are consistent (C01)", "an id belongs to at most one element"]


def run(ctx):
    J = SS.find_jobs(ctx.tier) + SS.traversal_jobs(ctx.tier) + SS.until_jobs(ctx.tier) + SS.filter_jobs(ctx.tier)
    SC.run(ctx, [j for j in J if j.get("sel")], SC.answers("relational composition of the whole selector"))
