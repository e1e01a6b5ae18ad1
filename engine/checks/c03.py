"""Lock-order and effect analysis of the selector registries.  Every Mutex/RwLock guard is followed from its lock call to
its drop; for each call made with a guard alive the locks its callees can take (through trait dispatch, boxed matcher
factories and closures) give ordering edges.  The order must be acyclic and irreflexive; nothing that runs under a guard may
visit a document node or call user code; registries are written only inside the one-time initialisation (or as a
look-up-then-insert cache); and every use of an initialised registry is dominated by that initialisation."""
from callgraph import CallGraph
from locks import Locks
from cfg import CFG
from facts import simp

EXPLAIN = __doc__
TECHNIQUE = "lock-order graph, lock-effect and dominance analysis on MIR with call graph"
NOTE = ("Sound for blocking locks reached through the resolved call graph (trait objects by implementation, boxed closures by signature); "
        "trusts std's Mutex/Once and lazy_static; regex compilation is assumed not to call back.")
ASSUME = ["external crates (regex, rphtml, std) do not call back into the crate except through closures handed to them"]


def cycles(edges):
    adj = {}
    for a, b in edges:
        adj.setdefault(a, set()).add(b)
    bad = []
    for a, b in sorted(edges):
        # is a reachable from b?
        seen, w = set(), [b]
        while w:
            x = w.pop()
            if x in seen:
                continue
            seen.add(x)
            w += list(adj.get(x, ()))
        if a in seen:
            bad.append((a, b))
    return bad


def short(n):
    return n.replace("mesdoc::", "")


def run(ctx):
    F = ctx.F
    G = CallGraph(F)
    Lk = Locks(F, G)
    locks = sorted({l for v in Lk.acq.values() for _, l, _, _ in v})
    ctx.count("registries locked", len(locks))
    ctx.count("lock sites", sum(len(v) for v in Lk.acq.values()))
    ctx.count("functions", len(G.calls))
    E = Lk.edges()
    ctx.count("lock order edges", len(E))
    bad = set(cycles(set(E)))
    for (h, a), (fn, sp, via) in sorted(E.items()):
        key = "order %s -> %s" % (h, a)
        if h == a:
            ctx.ob(key, "a held lock is not taken again", "refuted", "%s (%s)" % (short(fn), sp), "%s is taken again while held, through %s" % (h, [short(v) for v in via]))
        elif (h, a) in bad:
            ctx.ob(key, "one global lock order", "refuted", "%s (%s)" % (short(fn), sp), "%s is taken while %s is held, and elsewhere the other way round (via %s)" % (a, h, [short(v) for v in via]))
        else:
            ctx.ob(key, "one global lock order", "proven", "%s (%s)" % (short(fn), sp))
    # what runs under a lock
    memo = {}

    def effects(n):
        if n not in memo:
            r = G.reach([n])
            found = None
            for x in sorted(r):
                for i, t, cs, tags in G.calls.get(x, ()):
                    if "user" in tags:
                        found = found or ("user code", x, t["sp"])
                    for tg in tags:
                        if tg.startswith("node:"):
                            found = found or ("a document node (%s)" % tg[5:], x, t["sp"])
            memo[n] = found
        return memo[n]
    nun = 0
    for fn, sp, H, cs, tags in Lk.under_lock():
        nun += 1
        hit = None
        if "user" in tags:
            hit = ("user code", fn, sp)
        for tg in tags:
            if tg.startswith("node:"):
                hit = ("a document node (%s)" % tg[5:], fn, sp)
        for c in sorted(cs):
            if hit:
                break
            hit = effects(c)
        key = "%s under %s" % (short(fn), "+".join(sorted(H)))
        if hit:
            ctx.ob(key, "no search or callback under a lock", "refuted", "%s (%s)" % (short(fn), sp), "%s is reached in %s (%s) with %s held" % (hit[0], short(hit[1]), hit[2], sorted(H)))
        else:
            ctx.ob(key + " " + str(nun), "no search or callback under a lock", "proven", "%s (%s)" % (short(fn), sp))
    ctx.count("calls made under a lock", nun)
    # filled once
    once_fns = {n for n, l in Lk.once.items() if any(nm.startswith("once ") for _, nm, _ in l)}
    once_cl = {c for n, l in Lk.once.items() for _, nm, cl in l if nm.startswith("once ") for c in cl}
    inside = G.reach(once_cl)
    roots = [b["name"] for b in F.fn_bodies() if b.get("reach") or (b.get("impl_trait") and not b["impl_trait"].startswith(("std::ops::Deref", "lazy_static::")))]
    outside = G.reach(roots, through=lambda a, c: c not in once_cl)
    registries = set()
    for fn, w in sorted(Lk.wr.items()):
        for l, sp in w.items():
            if fn in inside and fn not in outside:
                registries.add(l)
                ctx.ob("%s filled in %s" % (l, short(fn)), "filled only by the one-time initialisation", "proven", "%s (%s)" % (short(fn), sp))
    for fn, w in sorted(Lk.wr.items()):
        for l, sp in w.items():
            if fn in inside and fn not in outside:
                continue
            if fn not in outside:
                continue
            b = F.bodies[fn]
            # a cache: the same guard is read before it is written
            cfg = CFG(b)
            reads, writes = [], []
            for i, t, cs, tags in G.calls.get(fn, ()):
                key = simp(t["f"].get("res") or t["f"].get("path") or "")
                if "Guard as Deref::deref" in key:
                    reads.append(i)
                elif "Guard as DerefMut::deref_mut" in key:
                    writes.append(i)
            ok = all(any(cfg.dominates(r, x) for r in reads) for x in writes)
            if l in registries or not ok:
                path = None
                for r in roots:
                    path = path or (G.path(r, fn) if fn in G.reach([r], through=lambda a, c: c not in once_cl) else None)
                ctx.ob("%s written in %s" % (l, short(fn)), "filled only by the one-time initialisation", "refuted", "%s (%s)" % (short(fn), sp),
                       "reachable from %s without going through the one-time initialisation" % short((path or ["?"])[0]))
            else:
                ctx.ob("%s cached in %s" % (l, short(fn)), "cache: looked up before it is written", "proven", "%s (%s)" % (short(fn), sp))
    # initialisation precedes use
    if registries:
        must = Lk.must_init(once_fns)
        regs = set(registries)
        # lazy values whose initialiser takes a registry lock count as uses as well
        use = {}
        for n, v in Lk.acq.items():
            if n in inside and n not in outside:
                continue
            for i, l, m, sp in v:
                if l in regs:
                    use.setdefault(n, []).append((i, l, sp))
        # functions that may be entered before the initialisation
        entry = {r for r in roots if r not in must or True}
        maybe = set()
        work = [r for r in roots]
        while work:
            n = work.pop()
            if n in maybe or n not in G.calls or n in once_cl:
                continue
            maybe.add(n)
            b = F.bodies[n]
            cfg = CFG(b)
            inits = [i for i, t, cs, tags in G.calls[n] if (t["f"].get("res") or t["f"].get("path")) in must]
            for i, t, cs, tags in G.calls[n]:
                if any(x != i and cfg.dominates(x, i) for x in inits):
                    continue
                for c in cs:
                    if c not in maybe and c not in once_cl:
                        work.append(c)
        for n, v in sorted(use.items()):
            b = F.bodies[n]
            cfg = CFG(b)
            inits = [i for i, t, cs, tags in G.calls[n] if (t["f"].get("res") or t["f"].get("path")) in must]
            for i, l, sp in v:
                ok = n not in maybe or any(cfg.dominates(x, i) for x in inits)
                ctx.ok("%s read in %s" % (l, short(n)), "initialisation precedes every use", ok, "%s (%s)" % (short(n), sp),
                       "%s can be read from a public call that has not run the initialisation" % l)
    ctx.count("registries filled by the initialisation", len(registries))
