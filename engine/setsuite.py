"""Jobs over element-set methods: what is called on which shape, and what the answer has to be.

Every job is interpreted once; each property judges the same summaries by its own rule.
"""
import gc
import os, re, sys, time, itertools, multiprocessing
import lin as L
import absint as AI
from scenes import rc
from setops import World, Tree, COMB, ELES, fields_of

CA = "ChildrenAll"
BUDGET_S = 420
BIG = ["t0", ["A", ["t1", ["B", ["D"]], "c1", "C", ["E", ["G", "t3"]], "t2"]], "F"]
SMALL = ["s0", ["A", ["B", "t1", ["C", ["D"]]]]]
WIDE = [["A", ["B", "C", "t1", "D"]], "E"]
DEEP = [["A", [["B", [["C", ["t1", ["D", ["E"]]]]]]]]]
TREES = {"deep": DEEP, "big": BIG, "small": SMALL, "wide": WIDE}

AXES = {"children": "Children", "next": "Next", "next_all": "NextAll", "prev": "Prev", "prev_all": "PrevAll", "siblings": "Siblings",
        "parent": "Parent", "parents": "ParentAll"}
UNTIL = {"next_until": "NextAll", "prev_until": "PrevAll", "parents_until": "ParentAll"}


def q(*segs):
    """Compound selectors: each a list of (kind, pred, comb)."""
    return [list(s) if isinstance(s, list) else [s] for s in segs]


def selectors(tier):
    S = {}
    for k in ("one", "all", "both", "spec", "cache"):
        S["simple:" + k] = [(None, q((k, "m", CA)))]
    S["list"] = [(None, q(("one", "m", CA))), (None, q(("one", "n", CA)))]
    S["list:all"] = [(None, q(("all", "m", CA))), (None, q(("one", "n", CA)))]
    S["chain"] = [(None, q([("one", "m", CA), ("one", "n", "Chain")]))]
    S["chain:all"] = [(None, q([("spec", "m", CA), ("all", "n", "Chain")]))]
    for c in ("ChildrenAll", "Children", "NextAll", "Next"):
        S["pair:" + c] = [(None, q(("one", "m", CA), ("one", "n", c)))]
        S["pair:all:" + c] = [(None, q(("one", "m", CA), ("all", "n", c)))]
        S["pair:spec:" + c] = [(None, q(("all", "m", CA), ("spec", "n", c)))]
    return S


def lookups():
    """The searched-first segment (highest priority) is not the first one."""
    S = {}
    for c in ("ChildrenAll", "Children", "NextAll", "Next"):
        S["lookup:" + c] = [(None, q(("one", "m", CA, 1), ("one", "n", c, 10)))]
        S["lookup:all:" + c] = [(None, q(("all", "m", CA, 1), ("all", "n", c, 10)))]
        S["lookup:cache:" + c] = [(None, q(("one", "m", CA, 1), ("cache", "n", c, 100)))]
        S["lookup:head:" + c] = [(None, q(("one", "m", "Children", 1), ("one", "n", c, 10)))]
        S["lookup:nextfirst:" + c] = [(None, q(("one", "m", "Next", 1), ("one", "n", c, 10)))]
        S["lookup:chain:" + c] = [(None, q([("one", "m", CA, 1)], [("one", "n", c, 1), ("all", "o", "Chain", 10)]))]
        S["lookup:cachehead:" + c] = [(None, q(("cache", "m", CA, 100), ("one", "n", c, 10)))]
    for c1, c2 in (("Children", "ChildrenAll"), ("ChildrenAll", "Children"), ("NextAll", "Children"), ("Children", "Next")):
        S["lookup3:%s:%s" % (c1, c2)] = [(None, q(("one", "m", CA, 1), ("one", "n", c1, 1), ("one", "o", c2, 10)))]
        S["lookup1+2:%s:%s" % (c1, c2)] = [(None, q(("one", "m", CA, 1), ("one", "n", c1, 10), ("one", "o", c2, 1)))]
    S["chain:prio"] = [(None, q([("one", "m", CA, 1), ("one", "n", "Chain", 10)]))]
    S["chain:prio:child"] = [(None, q([("one", "m", "Children", 1), ("one", "n", "Chain", 10), ("all", "o", "Chain", 5)]))]
    return S


# ---------------------------------------------------------------- specification
class Spec:
    """Relational meaning of a selector on a tree, predicates given by `pred`."""

    def __init__(self, tree, pred):
        self.T, self.pred = tree, pred

    def steps(self, start, query, head=None):
        cur = list(start)
        for i, seg in enumerate(query):
            comb = head if i == 0 and head is not None else seg[0][2]
            if cur and isinstance(cur[0], tuple):       # an element outside a document: the search starts above it
                top = cur[0][1]
                cand = [top] + self.T.axis(CA, top) if comb == CA else [top] if comb == "Children" else []
            else:
                cand = self.T.union(comb, cur)
            cur = [c for c in cand if all(self.pred(p, c) for x in seg for p in (x[1],))]
        return cur

    def select(self, start, groups, head=None):
        out = set()
        for should, query in groups:
            full = (should or []) + query
            if head is not None and full[0][0][2] != CA:
                full = [[("one", None, head)]] + full
                h = None
            else:
                h = head
            out |= set(self.steps(start, full, h))
        return self.order(out)

    def matches(self, cell, groups):
        top = cell
        while self.T.parent.get(top):
            top = self.T.parent[top]
        if self.T.kind(top) == "AbstractRoot":
            return cell in self.select([top], groups)
        return cell in self.select([("above", top)], groups)

    def order(self, cells):
        return sorted(set(cells), key=lambda c: self.T.pos[c])


def expected(job, tree, pred):
    """Answer of a job under a predicate assignment."""
    s = Spec(tree, pred)
    m, S = job["m"], job["set"]
    g = job.get("sel")
    if m == "find":
        return s.select(S, g)
    if m in AXES:
        if not g:
            return tree.union(AXES[m], S)
        return s.select(S, g, AXES[m])
    if m in UNTIL:
        out = []
        near = {"next_until": False, "prev_until": True, "parents_until": True}[m]
        for e in S:
            ax = tree.axis(UNTIL[m], e)
            for x in (reversed(ax) if near else ax):
                u = s.matches(x, g)
                if u and not job["contains"]:
                    break
                if job.get("filter") is None or s.matches(x, job["filter"]):
                    out.append(x)
                if u:
                    break
        return s.order(out)
    if m == "closest":
        out = []
        for e in S:
            for x in [e] + list(reversed(tree.axis("ParentAll", e))):
                if s.matches(x, g):
                    out.append(x)
                    break
        return s.order(out)
    if m == "filter":
        return [x for x in S if s.matches(x, g)]
    if m == "not":
        return [x for x in S if not s.matches(x, g)]
    if m == "is":
        return any(s.matches(x, g) for x in S)
    if m == "is_all":
        return all(s.matches(x, g) for x in S)
    if m == "has":
        return [x for x in S if any(s.matches(d, g) for d in tree.axis(CA, x))]
    O = job.get("other")
    if m == "filter_in":
        return [x for x in S if x in O]
    if m == "not_in":
        return [x for x in S if x not in O]
    if m == "is_in":
        return any(x in O for x in S)
    if m == "is_all_in":
        return all(x in O for x in S)
    if m == "has_in":
        return [x for x in S if any(d in O for d in tree.axis(CA, x))]
    if m == "add":
        return s.order(list(S) + list(O))
    if m == "filter_by":
        return [x for x in S if pred("h", x)]
    if m == "not_by":
        return [x for x in S if not pred("h", x)]
    if m == "is_by":
        return any(pred("h", x) for x in S)
    if m == "is_all_by":
        return all(pred("h", x) for x in S)
    if m == "eq":
        return S[job["i"]:job["i"] + 1]
    if m == "first":
        return S[:1]
    if m == "last":
        return S[-1:]
    if m == "cloned":
        return list(S)
    if m == "contains":
        return any(x in tree.axis({"ChildrenAll": "ParentAll", "Children": "Parent", "NextAll": "PrevAll", "Next": "Prev", "Chain": "Chain"}[job["comb"]], job["ele"])
                   or (x == "ROOT" and job["comb"] in ("ChildrenAll",)) or (x == "ROOT" and job["comb"] == "Children" and tree.parent[job["ele"]] == "ROOT") for x in S)
    if m == "slice":
        a, b = job["range"]
        n = len(S)
        lo = 0 if a is None else a
        hi = n if b is None else min(b[1] + (1 if b[0] == "=" else 0), n)
        return S[lo:hi] if lo < hi else []
    if m in PRIMS:
        e = S[0]
        ax = tree.axis(PRIMS[m], e)
        return ax
    if m == "child_nodes_item_since_by":
        kids = tree.kids[S[0]]
        seq = list(reversed(kids[:job["i"] + 1])) if job["rev"] else kids[job["i"]:]
        out = []
        for c in seq:
            if tree.kind(c) == "Tag":
                out.append(c)
                if not pred("h", c):
                    break
        return out
    if m in INSERTS:
        return None
    raise KeyError(m)


PRIMS = {"next_element_sibling": "Next", "next_element_siblings": "NextAll", "previous_element_sibling": "Prev", "previous_element_siblings": "PrevAll",
         "siblings#": "Siblings", "children#": "Children", "children_by": "Children"}
INSERTS = {"append": ("self", "BeforeEnd"), "prepend": ("self", "AfterBegin"), "before": ("self", "BeforeBegin"), "after": ("self", "AfterEnd"),
           "append_to": ("arg", "BeforeEnd"), "prepend_to": ("arg", "AfterBegin"), "insert_before": ("arg", "BeforeBegin"), "insert_after": ("arg", "AfterEnd"),
           "replace_with": ("self", "Replace")}


def expected_kids(job, tree):
    """Child lists after an insertion: each target in turn gets the whole content, in its order, at the named place."""
    kids = {n: list(k) for n, k in tree.kids.items()}
    par = dict(tree.parent)
    who, place = INSERTS[job["m"]]
    targets, content = (job["set"], job["other"]) if who == "self" else (job["other"], job["set"])

    def anc(n):
        out = []
        while n:
            out.append(n)
            n = par.get(n)
        return out
    for t in targets:
        moved = [c for c in content if c not in anc(t)]
        if place == "Replace" and not content:
            continue
        if place in ("BeforeBegin", "AfterEnd", "Replace") and par.get(t) is None:
            continue
        for c in moved:
            if par.get(c):
                kids[par[c]].remove(c)
            par[c] = None
        if place in ("BeforeEnd", "AfterBegin"):
            kids[t] = kids[t] + moved if place == "BeforeEnd" else moved + kids[t]
            dest = t
        else:
            dest = par[t]
            i = kids[dest].index(t)
            j = i if place == "BeforeBegin" else i + 1
            kids[dest][j:j] = moved
            if place == "Replace":
                kids[dest].remove(t)
                par[t] = None
        for c in moved:
            par[c] = dest
    return kids, par


# ---------------------------------------------------------------- interpretation of one job
def tree_of(job):
    return Tree(TREES[job["tree"]] if isinstance(job["tree"], str) else job["tree"], job.get("loose", ()))


def diverged(I):
    return sorted({(d["fn"], str(d["sp"]), d["kind"], bool(outside(I, d["st"]))) for d in I.diverged})


def run_job(F, job):
    tree = tree_of(job)
    sels = {"SEL": job.get("sel"), "FLT": job.get("filter")}
    W = World(F, tree, selector=lambda label: sels.get(label) or [(None, q(("one", "m", CA)))], parse=job.get("parse", "ok"),
              deadline=_DEADLINE, handler=job.get("handler", False), max_steps=job.get("steps", 600000), max_states=20000)
    I, S = W.I, W.S
    m = job["m"]
    me = W.eles(job["set"]) if m not in PRIMS and m != "child_nodes_item_since_by" else None
    args = [S.ref(me, "self")] if me else [S.ref(rc(job["set"][0]), "self")]
    name = m
    txt = ("str", "SEL") if job.get("sel") else ("str", "")
    if m in AXES or m in ("find", "closest", "filter", "not", "is", "is_all", "has"):
        args.append(txt)
    elif m in UNTIL:
        args += [txt, ("str", "FLT" if job.get("filter") else ""), ("b", job["contains"])]
    elif m in ("filter_in", "not_in", "is_in", "is_all_in", "has_in"):
        args.append(S.ref(W.eles(job["other"]), "other"))
    elif m == "add":
        args.append(W.eles(job["other"]))
    elif m in PRIMS or m == "child_nodes_item_since_by":
        name = prim(F, m.rstrip("#"))
        if name is None:
            return dict(job=job, outs=[], panics=[], error="no method " + m, steps=0)
        if m == "child_nodes_item_since_by":
            args += [L.const(job["i"]), ("b", job["rev"])]
        if m in ("children_by", "child_nodes_item_since_by"):
            S.st.heap["CB"] = ("s", "H:by:h", "dyn Fn")
            args.append(("bx", "CB"))

            def seen(I, st, fv, a, t, body):
                if fv[0] == "s" and fv[1] == "H:by:h":
                    c = W.cell_of(I, st, a[0])
                    st.ev = st.ev + (("seen", c),)
                    if m == "children_by":
                        return [(st, AI.UNIT)]
                    return [(s, ("b", tr)) for s, tr in W.truth(I, st, "h", c)]
                return None
            I.opt["on_usercall"] = seen
    elif m.endswith("_by"):
        S.st.heap["H:by"] = ("s", "H:by:h", "dyn Fn")
        args.append(("s", "H:by:h", "dyn Fn"))
        old = W.user

        def user(I, st, fv, a, t, body):
            if fv[0] == "s" and fv[1] == "H:by:h":
                c = W.cell_of(I, st, a[1])
                i = I.norm(st, a[0])
                st.ev = st.ev + (("by", i[1] if L.isint(i) and not i[2] else "?", c),)
                return [(s, ("b", tr)) for s, tr in W.truth(I, st, "h", c)]
            return old(I, st, fv, a, t, body)
        I.opt["on_usercall"] = user
    elif m in INSERTS:
        args.append(S.ref(W.eles(job["other"]), "other"))

        def plain(I, st, nm, key, ar, t, body):
            # ordinary elements: everything may be inserted
            last = nm.split("::")[-1]
            if last == "allow_insert":
                return [(st, AI.TRUE)]
            if last == "tag_names" and nm in F.bodies:
                return [(st, ("vec", (("opq", "tag", L.ZERO, L.sym("len(tag)", True), "char"),)))]
            return None
        W.extra = plain
    elif m == "eq":
        args.append(L.const(job["i"]))
    elif m == "contains":
        args += [S.ref(S.boxed(job["ele"]), "ele"), S.ref(W.comb(job["comb"]), "comb")]
    elif m == "slice":
        args.append(("s", "RANGE", "?"))
        a, b = job["range"]

        def bound(I, st, name, key, ar, t, body):
            last = name.split("::")[-1]
            if last in ("start_bound", "end_bound"):
                x = a if last == "start_bound" else b
                if x is None:
                    return [(st, ("en", t["dt"], "Unbounded", None, ()))]
                kind = "Included" if last == "start_bound" or x[0] == "=" else "Excluded"
                n = x if last == "start_bound" else x[1]
                obj = I.fresh("bound") + "*"
                st.heap[obj] = L.const(n)
                return [(st, ("en", t["dt"], kind, None, ((0, ("r", (("H", obj), ()))),)))]
            return None
        W.extra = bound
    out = dict(job=job, outs=[], panics=[], error=None, steps=0, diverged=())
    try:
        outs = W.call(name, args)
    except (AI.Budget, AI.Unsupported, RecursionError) as e:
        out["error"] = "%s: %s" % (type(e).__name__, e)
        return out
    except Exception as e:
        out["error"] = "internal %s: %s" % (type(e).__name__, e)
        return out
    finally:
        out["diverged"] = diverged(I)
    out["steps"] = I.steps
    out["called"] = len(I.called)
    for s, v in outs:
        v = I.norm(s, v)
        res = v[1] if v[0] == "b" else W.cells(I, s, v)
        if v[0] != "b" and I.isbool(v):
            res = None
        if m in ("children_by", "child_nodes_item_since_by"):
            res = [e[1] for e in s.ev if e[0] == "seen"]
        elif v[0] == "en" and v[2] in ("Some", "None"):
            c = None if v[2] == "None" else W.cell_of(I, s, AI.fget(v[4], 0))
            res = [] if v[2] == "None" else None if c is None else [c]
        elif m in INSERTS:
            res = True
        preds = {}
        for k, x in s.sub.items():
            if isinstance(k, str) and re.match(r"[a-z]\(", k) and x[0] == "b":
                preds[k] = x[1]
        foreign = outside(I, s)
        kids = {n: _kids(I, s, n) for n in tree.order}
        par = {n: _par(I, s, n) for n in tree.order} if m in INSERTS else None
        out["outs"].append(dict(kids=kids if m in INSERTS else None, par=par, res=res, foreign=foreign, preds=preds, reports=sum(1 for e in s.ev if e[0] == "report"), parse=[e for e in s.ev if e[0] == "parse"],
                                asked=[e[1] for e in s.ev if e[0] == "asked"], by=[e[1:] for e in s.ev if e[0] == "by"],
                                intact=all(kids[n] == tree.kids[n] for n in tree.order), raw=repr(v)[:200] if res is None else ""))
    for p in I.panics:
        st = p.get("st")
        taint = st is None or bool(outside(I, st))
        out["panics"].append(dict(msg=p["msg"], fn=p["fn"], taint=taint, exact=p.get("exact", True)))
    return out


def outside(I, s):
    """Symbols a path depends on that are not the unknown predicates of the job: results of calls the analysis has no model of."""
    names = set(str(k) for k in s.sub) | set(str(k) for k in s.notv) | {n for f in s.facts for n in L.syms(f)}
    return sorted(n for n in names if not re.match(r"[a-z]\(|\w+\.begin_at$", n))[:4]


def _par(I, s, n):
    from scenes import node_field
    v = I.norm(s, node_field(I, s, n, "parent"))
    if v[0] == "en" and v[2] == "None":
        return None
    if v[0] == "en" and v[2] == "Some":
        x = I.norm(s, AI.fget(v[4], 0))
        if x[0] == "wk":
            return x[1]
    return "?"


def prim(F, name):
    """The node implementation of a trait method, or the trait's own body."""
    for (tr, m), l in F.trait_impls.items():
        if m == name and tr.split("::")[-1] in ("INodeTrait", "IElementTrait", "ITextTrait"):
            for self_ty, nm in l:
                if "Node" in self_ty and nm in F.bodies:
                    return nm
    for n in F.bodies:
        if n.endswith("Trait::" + name):
            return n
    return None


def _kids(I, s, n):
    from scenes import child_segs
    r = child_segs(I, s, n)
    if r is None:
        return None
    out = []
    for x in r:
        if x[0] != "one" or x[1][0] != "rc":
            return None
        out.append(x[1][1])
    return out


_F = None
_DEADLINE = None


def _init(path):
    global _F
    sys.setrecursionlimit(20000)
    if _F is None:
        from facts import Facts
        _F = Facts(path)


def _work(job):
    if _DEADLINE and time.time() > _DEADLINE:
        return dict(job=job, outs=[], panics=[], error="time budget", steps=0)
    try:
        return run_job(_F, job)
    except Exception as e:
        return dict(job=job, outs=[], panics=[], error="internal %s: %s" % (type(e).__name__, e), steps=0)


def run_jobs(F, jobs):
    global _F, _DEADLINE
    _F = F
    _DEADLINE = _DEADLINE or time.time() + BUDGET_S
    sys.setrecursionlimit(20000)
    n = min(8, os.cpu_count() or 1)
    if n <= 1 or len(jobs) < 20:
        return [_work(j) for j in jobs]
    import lin
    gc.freeze()
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(n, initializer=_init, initargs=(None,)) as pool:
        return pool.map(_work, jobs, chunksize=4)


# ---------------------------------------------------------------- job lists
def subsets(tree, sizes):
    els = Tree(TREES[tree]).elements()
    for k in sizes:
        for c in itertools.combinations(els, k):
            yield list(c)


def traversal_jobs(tier):
    S = selectors(tier)
    J = []
    for m in AXES:
        for s in [[]] + list(subsets("big", (1, 2))):
            J.append(dict(m=m, tree="big", set=s))
        for s in (["B", "C", "E"], ["A", "B", "D"], ["B", "D", "G"], ["A", "C", "F"], ["D", "E", "G"]):
            J.append(dict(m=m, tree="big", set=s))
        for k in ("simple:one", "simple:all", "simple:both", "simple:spec"):
            for s in (["B"], ["C"], ["E"], ["A"], ["D"], ["F"], ["B", "C"], ["B", "E"], ["A", "D"], ["D", "G"], ["A", "F"], ["A", "B", "D"]):
                J.append(dict(m=m, tree="big", set=s, sel=S[k], label=k))
        for k in ("list", "list:all", "chain", "chain:all"):
            for s in (["B"], ["D"], ["B", "C"], ["A", "D"]):
                J.append(dict(m=m, tree="small", set=s, sel=S[k], label=k))
        for k in [x for x in S if x.startswith("pair:")]:
            for s in (["B"], ["C"], ["A"], ["B", "D"]):
                J.append(dict(m=m, tree="small", set=s, sel=S[k], label=k))
        # the head of the selector already has a combinator
        for c in ("Children", "NextAll", "Next"):
            for s in (["B"], ["A"], ["D"]):
                J.append(dict(m=m, tree="small", set=s, sel=[(None, q(("one", "m", c)))], label="head:" + c))
    return J


def find_jobs(tier):
    S = dict(selectors(tier))
    S.update(lookups())
    J = []
    for k, g in S.items():
        small = k.startswith(("pair", "lookup", "list", "chain"))
        sets = (["ROOT"], ["A"], ["B", "C"], ["A", "C"], ["A", "C", "D"], []) if small else (["ROOT"], ["A"], ["B"], ["A", "E"], ["A", "B"], ["B", "E"], ["A", "B", "D", "F"], ["A", "F"], [])
        for s in sets:
            J.append(dict(m="find", tree="small" if small else "big", set=list(s), sel=g, label=k))
        if k.startswith("lookup") and ("Children" in k or tier == "thorough"):
            for s in (["C"], ["B", "D"]):
                J.append(dict(m="find", tree="deep", set=list(s), sel=g, label=k))
        if small and ("Next" in k):
            for s in (["ROOT"], ["A"], ["A", "E"], ["B", "D"]):
                J.append(dict(m="find", tree="wide", set=list(s), sel=g, label=k))
    for c in ("Children", "NextAll", "Next"):
        for s in (["ROOT"], ["A"], ["B"], ["B", "D"]):
            J.append(dict(m="find", tree="wide", set=list(s), sel=[(None, q(("one", "m", c)))], label="head:" + c))
            J.append(dict(m="find", tree="wide", set=list(s), sel=[(None, q(("all", "m", c)))], label="head:all:" + c))
    return J


def until_jobs(tier):
    S = selectors(tier)
    J = []
    for m in UNTIL:
        for cont in (True, False):
            for s in (["B"], ["C"], ["E"], ["D"], ["G"], ["F"], ["B", "C"], ["C", "E"], ["D", "G"], ["B", "D"], ["A", "F"]):
                for k in ("simple:one", "simple:all"):
                    J.append(dict(m=m, tree="big", set=s, sel=S[k], contains=cont, label=k))
                J.append(dict(m=m, tree="big", set=s, sel=S["simple:one"], filter=[(None, q(("one", "f", CA)))], contains=cont, label="filtered"))
            for s in (["B"], ["C"], ["D"], ["B", "C"]):
                J.append(dict(m=m, tree="wide", set=s, sel=S["pair:Children"], contains=cont, label="pair:Children"))
                J.append(dict(m=m, tree="wide", set=s, sel=S["simple:one"], filter=[(None, q(("one", "f", CA), ("one", "n", "Children")))], contains=cont, label="filtered pair"))
    return J


def filter_jobs(tier):
    S = selectors(tier)
    J = []
    for m in ("filter", "not", "is", "is_all", "has", "closest"):
        for k in ("simple:one", "simple:all", "simple:both", "simple:spec", "simple:cache"):
            for s in (["B"], ["B", "C"], ["A", "D"], ["B", "C", "E"], ["D", "E", "F"]):
                J.append(dict(m=m, tree="big", set=s, sel=S[k], label=k))
        for k in ("list", "list:all", "chain", "chain:all"):
            for s in (["B"], ["B", "C"], ["A", "D"], ["A", "B", "D"]):
                J.append(dict(m=m, tree="small", set=s, sel=S[k], label=k))
        for k in [x for x in S if x.startswith("pair:")]:
            for s in (["D"], ["B", "C"], ["A", "D"]):
                J.append(dict(m=m, tree="small" if "Next" not in k else "wide", set=s, sel=S[k], label=k))
    for m in ("filter_in", "not_in", "is_in", "is_all_in", "has_in", "add"):
        for s in ([], ["B"], ["B", "C"], ["A", "D"], ["B", "C", "E"], ["A", "B", "D", "G"], ["C"]):
            for o in ([], ["B"], ["C"], ["B", "C"], ["C", "E"], ["A", "D", "C"], ["D", "G", "F"], ["B", "C", "E"], ["A", "B", "D", "C", "E", "G", "F"]):
                J.append(dict(m=m, tree="big", set=s, other=[x for x in Tree(BIG).order if x in o]))
    for s in subsets("wide", (3, 4, 5)):
        for o in subsets("wide", (1, 2, 3)):
            J.append(dict(m="add", tree="wide", set=s, other=o))
    for m in ("filter_by", "not_by", "is_by", "is_all_by"):
        for s in ([], ["B"], ["B", "C"], ["A", "D", "E"], ["A", "B", "D", "C"]):
            J.append(dict(m=m, tree="big", set=s))
    return J


def pick_jobs(tier):
    J = []
    sets = ([], ["B"], ["B", "C"], ["A", "D", "E"], ["A", "B", "D", "C"])
    for s in sets:
        for m in ("first", "last", "cloned"):
            J.append(dict(m=m, tree="big", set=s))
        for i in (0, 1, 2, 3, 4, 5, 1000):
            J.append(dict(m="eq", tree="big", set=s, i=i))
        for a in (None, 0, 1, 2, 3, 4, 9):
            for b in (None, ("<", 0), ("<", 1), ("<", 2), ("<", 4), ("<", 9), ("=", 0), ("=", 1), ("=", 3), ("=", 4), ("=", 9)):
                J.append(dict(m="slice", tree="big", set=s, range=(a, b)))
    T = Tree(BIG)
    for c in ("ChildrenAll", "Children", "NextAll", "Next", "Chain"):
        for e in T.elements():
            for s in (["A"], ["B"], ["C"], ["ROOT"], ["B", "E"], ["A", "C"], []):
                J.append(dict(m="contains", tree="big", set=s, ele=e, comb=c))
    return J


def forest_jobs(tier):
    """Sets with elements of two documents of the same shape and of a removed element."""
    S = selectors(tier)
    J = []
    loose = [["ROOT2", ["s9", ["K", ["L", "t9", ["M", ["N"]]]]]], ["Z", ["Y", "t8", ["X", ["W"]]]]]
    base = dict(tree="small", loose=loose)
    sets = (["A", "K"], ["B", "L"], ["C", "M"], ["D", "N"], ["B", "C", "L", "M"], ["C", "X"], ["D", "N", "W"], ["A", "Z"], ["B", "Y"], ["A", "B", "K", "L"], ["L", "Y"])
    for s in sets:
        for m in AXES:
            J.append(dict(base, m=m, set=s, label="two trees"))
            for k in ("simple:one", "simple:all"):
                J.append(dict(base, m=m, set=s, sel=S[k], label="two trees, " + k))
        for k in ("simple:one", "simple:all", "pair:Children"):
            if len(s) == 2 or k == "simple:one":
                J.append(dict(base, m="find", set=s, sel=S[k], label="two trees, " + k))
        for m in ("filter", "not", "has", "closest"):
            J.append(dict(base, m=m, set=s, sel=S["simple:one"], label="two trees"))
        for m in UNTIL:
            for c in (True, False):
                J.append(dict(base, m=m, set=s, sel=S["simple:one"], contains=c, label="two trees"))
        for o in sets:
            for m in ("add", "filter_in", "not_in"):
                J.append(dict(base, m=m, set=s, other=o, label="two trees"))
    for s in (["B"], ["C", "D"]):
        for o in (["L"], ["M", "N"], ["X", "W"], ["B", "L"], ["A", "K"]):
            J.append(dict(base, m="add", set=s, other=o, label="two trees"))
            J.append(dict(base, m="add", set=o, other=s, label="two trees"))
    return J


def unsorted_jobs(tier):
    """Sets that are not in document order: elements were moved after the set was made, or trees were added in another order."""
    S = selectors(tier)
    J = []
    loose = [["ROOT2", ["s9", ["K", ["L", "t9", ["M", ["N"]]]]]]]
    base = dict(tree="wide", loose=loose)
    sets = (["C", "B"], ["D", "B", "C"], ["B", "A"], ["E", "C"], ["E", "A"], ["C", "A", "D"], ["D", "E", "B"], ["L", "B"], ["M", "A"], ["K", "E", "A"], ["N", "D", "L"])
    for s in sets:
        for m in AXES:
            J.append(dict(base, m=m, set=s, label="unsorted"))
            J.append(dict(base, m=m, set=s, sel=S["simple:one"], label="unsorted"))
        for k in ("simple:one", "simple:all"):
            J.append(dict(base, m="find", set=s, sel=S[k], label="unsorted, " + k))
        for m in ("filter", "not", "is", "is_all", "has", "closest"):
            J.append(dict(base, m=m, set=s, sel=S["simple:one"], label="unsorted"))
        for m in UNTIL:
            J.append(dict(base, m=m, set=s, sel=S["simple:one"], contains=True, label="unsorted"))
        for o in sets + (["A", "B", "C", "D", "E"], ["B"], ["B", "C", "L"]):
            for m in ("add", "filter_in", "not_in", "is_in", "is_all_in", "has_in"):
                J.append(dict(base, m=m, set=s, other=o, label="unsorted"))
                J.append(dict(base, m=m, set=o, other=s, label="unsorted"))
    return J


def invalid_jobs(tier):
    """Selector-taking methods on sets of several sizes, the selector (and the until filter) valid or not."""
    J = []
    S = [(None, q(("one", "m", CA)))]
    f = [(None, q(("one", "f", CA)))]
    for m in list(AXES) + ["find", "filter", "not", "is", "is_all", "has", "closest"]:
        for s in ([], ["B"], ["D"], ["A", "D"], ["B", "C", "E"]):
            J.append(dict(m=m, tree="big", set=s, sel=S, parse="both", handler=True, label="valid or not"))
    for m in UNTIL:
        for cont in (True, False):
            for s in ([], ["B"], ["A", "D"], ["B", "C", "E"]):
                J.append(dict(m=m, tree="big", set=s, sel=S, parse="both", handler=True, contains=cont, label="valid or not"))
                J.append(dict(m=m, tree="big", set=s, sel=S, filter=f, parse="both", handler=True, contains=cont, label="valid or not, filtered"))
    return J


def prim_jobs(tier):
    """Every sibling list of elements, text and comments up to a length, every position of the element."""
    J = []
    n = 4 if tier == "quick" else 5
    for k in range(1, n + 1):
        for combo in itertools.product("Etc", repeat=k):
            if combo.count("E") == 0 and k > 2:
                continue
            names = ["%s%d" % ("X" if c == "E" else c, i) for i, c in enumerate(combo)]
            spec = [["P", names], "Q"]
            for m in ("children#", "children_by"):
                J.append(dict(m=m, tree=spec, set=["P"]))
            for i in range(k):
                for rev in (True, False):
                    if k <= 3:
                        J.append(dict(m="child_nodes_item_since_by", tree=spec, set=["P"], i=i, rev=rev))
                if combo[i] != "E":
                    continue
                for m in ("next_element_sibling", "next_element_siblings", "previous_element_sibling", "previous_element_siblings", "siblings#"):
                    J.append(dict(m=m, tree=spec, set=[names[i]]))
    for m in PRIMS:
        J.append(dict(m=m, tree=["Q"], set=["ROOT"]))
        J.append(dict(m=m, tree=["t0", "Q", "t1"], set=["Q"]))
    return J


def insert_jobs(tier):
    J = []
    spec = [["P", ["A", "t0", "B", "c0", "D"]], ["Q", ["E", "F"]], "G"]
    targets = [["A"], ["B"], ["D"], ["Q"], ["G"], ["E"]]
    contents = [["E"], ["F"], ["G"], ["E", "F"], ["A", "D"], ["B", "D"], ["A", "B", "D"], ["F", "G"], ["D", "E", "G"], ["Q"], []]
    for m, (who, place) in INSERTS.items():
        for t in targets + [["B", "Q"]]:
            for c in contents:
                if set(t) & set(c):
                    continue
                tr = Tree(spec)
                if place == "Replace" and any(set(tr.axis("ParentAll", x)) & set(c) for x in t):
                    continue
                J.append(dict(m=m, tree=spec, set=t if who == "self" else c, other=c if who == "self" else t))
    return J


def total_jobs(tier):
    """Every set method on empty sets, the root, detached elements and mixtures."""
    S = selectors(tier)
    J = []
    loose = [["Z", ["t9", "Y", ["X", ["W"]]]], "V"]
    base = dict(tree="small", loose=loose)
    sets = ([], ["ROOT"], ["Z"], ["V"], ["Y"], ["W"], ["A"], ["A", "Z"], ["ROOT", "A"], ["Z", "V"], ["D", "W"], ["ROOT", "Z"])
    sels = ("simple:one", "simple:all", "simple:spec", "simple:cache", "list", "chain", "pair:Children", "pair:all:NextAll")
    for s in sets:
        for m in AXES:
            J.append(dict(base, m=m, set=s))
            for k in sels:
                J.append(dict(base, m=m, set=s, sel=S[k], label=k))
        for m in ("find", "filter", "not", "is", "is_all", "has", "closest"):
            for k in sels:
                J.append(dict(base, m=m, set=s, sel=S[k], label=k))
            if m != "find":
                J.append(dict(base, m=m, set=s, label="empty selector"))
        for m in UNTIL:
            for c in (True, False):
                J.append(dict(base, m=m, set=s, contains=c, label="empty selector"))
                for k in ("simple:one", "pair:Children"):
                    J.append(dict(base, m=m, set=s, sel=S[k], contains=c, label=k))
                    J.append(dict(base, m=m, set=s, sel=S[k], filter=S["simple:one"], contains=c, label=k + " filtered"))
        for m in ("first", "last", "cloned"):
            J.append(dict(base, m=m, set=s))
        for m in ("filter_by", "not_by", "is_by", "is_all_by"):
            J.append(dict(base, m=m, set=s))
        for i in (0, 1, 2, 9):
            J.append(dict(base, m="eq", set=s, i=i))
        for a in (None, 0, 1, 3, 2 ** 63):
            for b in (None, ("<", 0), ("=", 0), ("<", 1), ("=", 2), ("<", 9), ("=", 2 ** 64 - 1), ("<", 2 ** 64 - 1)):
                J.append(dict(base, m="slice", set=s, range=(a, b)))
        for o in sets:
            for m in ("filter_in", "not_in", "is_in", "is_all_in", "has_in", "add"):
                J.append(dict(base, m=m, set=s, other=o))
            for m in INSERTS:
                J.append(dict(base, m=m, set=s, other=o))
        for e in ("A", "Z", "W", "D"):
            for c in ("ChildrenAll", "Children", "NextAll", "Next", "Chain"):
                J.append(dict(base, m="contains", set=s, ele=e, comb=c))
    for m in PRIMS:
        for e in ("ROOT", "Z", "V", "Y", "W", "A"):
            J.append(dict(base, m=m, set=[e]))
    return J


def show(x):
    if isinstance(x, str):
        return x
    return "%s(%s)" % (x[0], " ".join(show(k) for k in x[1])) if x[1] else x[0]


def describe(j):
    d = "%s on {%s} of %s" % (j["m"].rstrip("#"), ",".join(j["set"]), j["tree"] if isinstance(j["tree"], str) else " ".join(show(x) for x in j["tree"]))
    if j.get("label"):
        d += " selector " + j["label"]
    for k in ("other", "contains", "i", "rev", "range", "ele", "comb"):
        if k in j:
            d += " %s=%s" % (k, j[k])
    return d


def verdicts(r):
    """Compare each path's answer with the specification: yields (status, detail, out)."""
    j = r["job"]
    tree = tree_of(j)
    for o in r["outs"]:
        if o["res"] is None:
            yield "undecided", "answer not known: " + o["raw"], o
            continue
        if o["kids"] is not None:
            ek, ep = expected_kids(j, tree)
            bad = [n for n in tree.order if o["kids"][n] != ek[n]]
            if any(o["kids"][n] is None for n in bad):
                yield "undecided", "child lists not known", o
            elif bad and o["foreign"]:
                yield "undecided", "depends on " + o["foreign"][0], o
            elif bad:
                yield "refuted", "children of %s: expected %s, got %s" % (bad[0], ek[bad[0]], o["kids"][bad[0]]), o
            else:
                yield "proven", "", o
            continue
        bad = None
        for dflt in (False, True):
            exp = expected(j, tree, lambda p, c: True if p is None else o["preds"].get("%s(%s)" % (p, c), dflt))
            got = o["res"]
            if isinstance(exp, list):
                same = sorted(set(got)) == sorted(set(exp)) if isinstance(got, list) else False
            else:
                same = got == exp
            if not same:
                bad = (exp, got, {k: v for k, v in o["preds"].items()}, dflt)
                break
        if bad:
            if o["foreign"]:
                yield "undecided", "depends on " + o["foreign"][0], o
                continue
            yield "refuted", "expected %s, got %s when %s" % bad[:3], o
        else:
            yield "proven", "", o
