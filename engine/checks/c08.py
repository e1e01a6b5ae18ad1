"""Borrow typestate: RefCell guards are tracked as abstract objects through every mutator scenario and through every node
method run on an arbitrary node; no second borrow of a node that a live mutable guard covers, and no user callback while
a mutable guard is live."""
import treeops as T
import absint as AI
import lin as L
import models as M
from shape import tainted
from scenes import Scene, rc
from facts import thead, pointee

EXPLAIN = __doc__
TECHNIQUE = 'typestate of RefCell guards over MIR abstract interpretation'
NOTE = 'Guards are tracked as abstract objects through every mutator scenario and every node method on an arbitrary node; definite conflicts only are reported, distinct symbols are not assumed to alias.'
ASSUME = ["distinct symbolic nodes are not assumed to alias; aliasing of target, content and parents is enumerated by the scenarios"]


def generic_args(I, S, body):
    args = []
    for i in range(1, body["argc"] + 1):
        ty = body["locals"][i]["ty"]
        if i == 1 and ("Rc<std::cell::RefCell<rphtml::parser::Node>>" in ty):
            S.cell("S", None, "any", None, "any")
            if ty.startswith("&"):
                args.append(S.ref(rc("S"), "self"))
            elif thead(ty) == "Box":
                args.append(S.boxed("S"))
            else:
                args.append(rc("S"))
            continue
        args.append(I.mksym(S.st, "arg%d" % i, ty))
    return args


def hook(top):
    """Summary of tag_names for callers (it only reads its node); the method itself is analysed on its own.  The document
    parsed from a string is private to the call, its root is no node a callback could reach."""
    def h(I, st, name, key, args, t, body):
        last = name.split("::")[-1]
        if last == "tag_names" and name in I.F.bodies and name != top:
            M.touch(I, st, args[0], "r", body, t)
            return [(st, ("vec", (("opq", "tag", L.ZERO, L.sym("len(tag)", True), "char"),)))]
        return None
    return h


def node_methods(F):
    out = []
    for (tr, m), l in F.trait_impls.items():
        if tr.split("::")[-1] in AI.NODE_TRAITS:
            for self_ty, name in l:
                if name in F.bodies:
                    out.append(name)
    for n, b in F.bodies.items():
        if b.get("trait_default") and any(("::" + t + "::") in ("::" + n) for t in AI.NODE_TRAITS) and "{closure" not in n and "#" not in n:
            out.append(n)
    return sorted(set(out))


def record(ctx, I, label, where):
    seen = set()
    for kind, cell, fn, sp, fn0, sp0, st in I.conflicts:
        k = (fn, sp, fn0)
        if k in seen:
            continue
        seen.add(k)
        status = "undecided" if tainted(I, st) else "refuted"
        ctx.ob("%s: %s while borrowed" % (label, fn), "no conflicting borrow", status, "%s (%s)" % (fn, sp),
               "node %s is already %s borrowed by %s (%s)" % (cell, "mutably" if kind[0] == "w" else "", fn0, sp0))
    useen = set()
    for fn, sp, held, st in I.usercalls:
        held = [h for h in held if "Doc::parse" not in h]
        if held and (fn, sp) not in useen:
            useen.add((fn, sp))
            ctx.ob("%s: callback in %s" % (label, fn), "no callback under a mutable borrow", "undecided" if tainted(I, st) else "refuted", "%s (%s)" % (fn, sp),
                   "node %s is mutably borrowed" % held)
    if not seen:
        ctx.ob(label, "no conflicting borrow", "proven", where)
    if not useen and I.usercalls:
        ctx.ob(label + ": callbacks", "no callback under a mutable borrow", "proven", where)


def run(ctx):
    F = ctx.F
    for sc in T.suite(ctx.tier):
        r = T.evaluate(F, sc)
        if r["error"]:
            ctx.ob(sc.label, "no conflicting borrow", "undecided", sc.method, r["error"])
            continue
        ctx.count("scenarios")
        record(ctx, r["run"].I, sc.label, r["run"].body)
    for name in node_methods(F):
        b = F.bodies[name]
        I = AI.Interp(F, on_call=hook(name), max_steps=12000, max_states=300)
        S = Scene(I)
        short = name.split("::")[-1]
        try:
            I.call_fn(S.st, name, generic_args(I, S, b))
        except Exception as e:
            record(ctx, I, "node method " + short, name)
            ctx.ob("node method " + short + " (rest)", "no conflicting borrow", "undecided", name, "%s: %s" % (type(e).__name__, str(e)[:200]))
            continue
        ctx.count("node methods")
        ctx.count("abstract steps", I.steps)
        record(ctx, I, "node method " + short, name)
