"""Abstract interpretation of the traversal code on enumerated sibling and tree shapes. (a) The node primitives (next/previous
sibling(s), siblings, children and the callback variants) on every sibling list of elements, text and comments up to the
bound and every position in it: the answer is exactly the elements on the named side. (b) Every traversal method of element
sets on mixed trees, without and with an unknown selector (an uninterpreted predicate on nodes): nothing but elements is
returned or handed to a matcher, and without a selector the answer is exactly the axis."""
import setsuite as SS
import setcheck as SC

EXPLAIN = __doc__
TECHNIQUE = "abstract interpretation of MIR over enumerated document shapes, matchers as unknown predicates"
NOTE = "Exact on every sibling list up to the stated length and every traversal method on the listed trees; other lengths are not covered. Uses the std/rphtml summaries of the engine."
ASSUME = ["node links of the input document are consistent (C01)"]


def run(ctx):
    SC.run(ctx, SS.prim_jobs(ctx.tier), SC.both(SC.answers("exactly the elements on the named side"), SC.elements_only))
    J = SS.traversal_jobs(ctx.tier) + [j for j in SS.until_jobs(ctx.tier) if j["label"].startswith("simple")]
    plain = [j for j in J if not j.get("sel")]
    SC.run(ctx, plain, SC.both(SC.answers("exactly the axis"), SC.elements_only))
    SC.run(ctx, [j for j in J if j.get("sel")], SC.elements_only)
