import itertools
import attrs as AT
import absint as AI
import strings as ST
import setsuite as SS
import lin as L
from attrs import AttrWorld
from scenes import rc, node_field, child_segs
from setops import Tree
from checks import c10 as ESC
from checks import c19 as CLS
from checks import c20 as TOT

TECHNIQUE = "abstract interpretation of the MIR of every editing method on known documents: the whole final forest (children, parents, positions, attributes, texts) is compared with a reference DOM"
NOTE = "a document of eleven nodes, a detached tree and a fragment; every ordered choice of up to two targets and two inserted elements (three in the thorough tier), nested and adjacent ones included; a fragment inserted at several targets (which copies) and set_html's parser are outside"
EXPLAIN = "Each editing method of a set, and the text-node editors, is interpreted from its MIR on a concrete forest. The reference applies the documented single-element operation to each member in order. Every child list, parent link, position, attribute list and text of the final heap must be the reference's; so a skipped or doubled member, a wrong place, or a collateral change is seen wherever it is."
ASSUME = ["rphtml: void elements take no children, title and textarea only text", "set_html's parsed nodes are rphtml's"]
WHERE = "src/lib.rs, src/mesdoc/interface/elements.rs"
SPEC = [["A", ["t1", ["B", ["C", "t3"]], "D"]], "t2", ["E", ["F", "c1"]], "G", "H"]
LOOSE = [["X", ["Y"]], ["ROOTf", ["K", "t9", "L"]], ["ROOTp0", ["N", "tn"]], ["ROOTp1", ["O"]], ["ROOTp2", ["Q"]]]
VOID = ("area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr")
TAGS = {"G": ("br", []), "H": ("title", [])}
INSERT = ("append", "prepend", "before", "after", "replace_with", "append_to", "prepend_to", "insert_before", "insert_after")
FLIP = {"append_to": "append", "prepend_to": "prepend", "insert_before": "before", "insert_after": "after"}


class EditWorld(AttrWorld):
    def hook(self, I, st, name, key, args, t, body):
        last = name.split("::")[-1]
        if last == "allow_insert":
            tag = ST.chars_of(I, st, args[0])
            if tag is None:
                tag = ST.text(I, st, args[0])
            v = I.norm(st, args[1])
            if tag is None or v[0] != "en":
                raise AI.Unsupported("allow_insert of an unknown tag or node")
            return [(st, ("b", allowed(tag, v[2])))]
        if key == "Doc::parse":
            k = sum(1 for e in st.ev if e[0] == "parse")
            st.ev = st.ev + (("parse", k),)
            return [(st, AI.ok(("s", "DH:%d" % k, "rphtml::parser::DocHolder"), t["dt"]))]
        if key == "DocHolder::get_root_node":
            v = args[0]
            for _ in range(4):
                v = I.norm(st, v)
                if v[0] != "r":
                    break
                v = I.read(st, v[1])
            if v[0] == "s" and v[1].startswith("DH:"):
                return [(st, rc("ROOTp" + v[1][3:]))]
            return [(st, rc("ROOT"))]
        if key == "Node::is_document":
            return [(st, AI.tup(AI.FALSE, AI.TRUE))]
        return AttrWorld.hook(self, I, st, name, key, args, t, body)


def allowed(tag, kind):
    tag = ST.lower(tag)
    if tag in VOID:
        return False
    if tag in ("title", "textarea"):
        return kind in ("Text", "SpacesBetweenTag")
    return True


class Dom:
    """Reference forest."""
    def __init__(self, tree, tags):
        self.kids = {n: list(k) for n, k in tree.kids.items()}
        self.parent = dict(tree.parent)
        self.kind = tree.kind
        self.tags = tags
        self.attrs = {n: list(tags.get(n, ("p", []))[1]) for n in tree.order if tree.kind(n) == "Tag"}
        self.text = {}
        self.members = None

    def tag(self, n):
        return self.tags.get(n, ("p", []))[0]

    def detach(self, n):
        p = self.parent.get(n)
        if p is not None:
            self.kids[p].remove(n)
        self.parent[n] = None

    def above(self, n, t):
        """n is t or an ancestor of t"""
        while t is not None:
            if t == n:
                return True
            t = self.parent.get(t)
        return False

    def insert(self, place, target, node):
        """True when the node went in."""
        if self.kind(target) != "Tag" or self.above(node, target):
            return False
        inner = place in ("append", "prepend")
        if not inner and self.parent[target] is None:
            return False
        frag = self.kind(node) == "AbstractRoot"
        if inner and not frag and not allowed(self.tag(target), "Tag"):
            return False
        moved = list(self.kids[node]) if frag else [node]
        for x in moved:
            self.detach(x)
        if inner:
            moved = [x for x in moved if allowed(self.tag(target), self.kind(x))]
        if not moved:
            return False
        p = target if inner else self.parent[target]
        l = self.kids[p]
        i = {"append": len(l), "prepend": 0}.get(place)
        if i is None:
            i = l.index(target) + (1 if place == "after" else 0)
        l[i:i] = moved
        for x in moved:
            self.parent[x] = p
        return True

    def put(self, place, targets, content):
        members = []
        for t in targets:
            if place == "replace_with":
                if not content:
                    members.append(t)
                    continue
                for x in content[:-1]:
                    self.insert("before", t, x)
                last = content[-1]
                p = self.parent[t]
                single = [last] if self.kind(last) == "Tag" else list(self.kids[last])
                if self.kind(t) == "Tag" and p is not None and self.insert("before", t, last):
                    self.detach(t)
                    members.append(single[0] if len(single) == 1 else t)
                else:
                    members.append(t)
            else:
                for x in content if place in ("append", "before") else content[::-1]:
                    self.insert(place, t, x)
                members.append(t)
        return members

    def clear(self, t):
        for x in list(self.kids[t]):
            self.detach(x)


RAW = ("script", "style", "textarea", "title")


def reference(W, case):
    m, targets, arg, tags = case
    d = Dom(W.tree, tags)
    if m in INSERT:
        T, C = (targets, arg) if m not in FLIP else (arg, targets)
        d.members = d.put(FLIP.get(m, m), list(T), list(C))
        if m in FLIP:
            d.members = list(targets)
        return d
    d.members = list(targets)
    k = 0
    for t in targets:
        if m == "remove":
            if d.parent[t] is not None:
                d.detach(t)
        elif m in ("empty", "set_text"):
            x = "" if m == "empty" else arg
            if d.tag(t) in RAW:
                d.text[t] = x
            else:
                d.clear(t)
                if x:
                    d.kids[t] = [("new", x)]
        elif m == "set_html":
            if d.tag(t) in RAW:
                d.text[t] = arg
                continue
            src = "ROOTp%d" % k
            k += 1
            d.clear(t)
            new = [x for x in d.kids[src] if allowed(d.tag(t), d.kind(x))]
            for x in list(d.kids[src]):
                d.detach(x)
            d.kids[t] = new
            for x in new:
                d.parent[x] = t
        elif m == "set_attr":
            n, v = arg
            l = d.attrs[t]
            hit = [i for i, (a, _) in enumerate(l) if ST.lower(a) == ST.lower(n)]
            if hit:
                l[hit[0]] = (l[hit[0]][0], v)
            else:
                l.append((n, v))
        elif m == "remove_attr":
            d.attrs[t] = [x for x in d.attrs[t] if ST.lower(x[0]) != ST.lower(arg)]
        elif m.endswith("_class"):
            old = next((v for a, v in d.attrs[t] if ST.lower(a) == "class"), None)
            o, a = CLS.uniq(CLS.tokens(old)), CLS.uniq(CLS.tokens(arg))
            n = {"add_class": [x for x in o] + [x for x in a if x not in o], "remove_class": [x for x in o if x not in a],
                 "toggle_class": [x for x in o if x not in a] + [x for x in a if x not in o]}[m]
            d.attrs[t] = [x for x in d.attrs[t] if ST.lower(x[0]) != "class"] + [("class", frozenset(n))]
    return d


def edit(F, case):
    m, targets, arg, tags = case
    W = EditWorld(F, SPEC, tags, loose=LOOSE, max_steps=200000)
    I, st = W.I, W.S.st
    ref = reference(W, case)
    if m in INSERT:
        nm = I.fresh("content")
        st.heap[nm] = W.eles(list(arg))
        args = [("r", (("H", nm), ()))]
    elif m == "set_attr":
        args = [W.arg(arg[0]), W.arg(None if arg[1] is None else ("opt", arg[1]))]
    elif arg is None:
        args = []
    else:
        args = [W.arg(arg)]
    body = W.method(m)
    if body is None:
        return
    self_ = W.eles(list(targets))
    if F.bodies[body]["locals"][1]["ty"].startswith("&"):
        nm = I.fresh("set")
        st.heap[nm] = self_
        self_ = ("r", (("H", nm), ()))
    I.steps = 0
    outs = I.call_fn(st, body, [self_] + args)
    rows = AT.panic_rows(W)
    yield from rows
    rule = "the forest after the edit is the reference's"
    if not outs and not rows:
        yield "", rule, "undecided", "no outcome"
    for s, v in outs:
        bad, unknown = compare(W, s, ref, case)
        if m != "remove" and bad is None:
            got = W.cells(I, s, v)
            if got is None:
                unknown = unknown or "the returned set is not known"
            elif got != ref.members:
                bad = "the returned set holds %s instead of %s" % (got, ref.members)
        if bad is None and len(outs) > 1:
            unknown = unknown or "several outcomes"
        if bad is not None:
            yield "", rule, "undecided" if SS.outside(I, s) else "refuted", bad
        elif unknown:
            yield "", rule, "undecided", unknown
        else:
            yield "", rule, "proven", ""


def compare(W, s, ref, case):
    I = W.I
    unknown = None
    for n in W.tree.order:
        if n.startswith("ROOTp"):
            continue
        seg = child_segs(I, s, n)
        if seg is None or any(g[0] != "one" or g[1][0] != "rc" for g in seg):
            unknown = unknown or "children of %s not known" % n
            continue
        got = [g[1][1] for g in seg]
        want = ref.kids[n]
        if len(got) != len(want) or any(isinstance(w, str) and w != g for g, w in zip(got, want)):
            return "children of %s are %s instead of %s" % (n, got, want), None
        for i, (g, w) in enumerate(zip(got, want)):
            if not isinstance(w, str):
                if g in W.tree.order:
                    return "%s is below %s instead of a new text" % (g, n), None
                c = ESC.content(I, s, g)
                if c in (None, "?"):
                    unknown = unknown or "new text of %s not known" % n
                elif ESC.decode(c) != w[1]:
                    return "the new text of %s is %r" % (n, c), None
            p = I.norm(s, node_field(I, s, g, "parent"))
            c = W.cell_of(I, s, AI.fget(p[4], 0)) if p[0] == "en" and p[2] == "Some" else None
            if p[0] != "en":
                unknown = unknown or "parent of %s not known" % g
            elif c != n:
                return "the parent of %s is %s instead of %s" % (g, c, n), None
            ix = I.norm(s, node_field(I, s, g, "index"))
            if not L.isint(ix) or ix[2]:
                unknown = unknown or "position of %s not known" % g
            elif ix[1] != i:
                return "the position of %s is %d instead of %d" % (g, ix[1], i), None
        if ref.parent.get(n) is None and not n.startswith("ROOT"):
            p = I.norm(s, node_field(I, s, n, "parent"))
            if p[0] == "en" and p[2] == "Some":
                return "%s has a parent, but is detached" % n, None
        if W.tree.kind(n) == "Tag":
            a = W.attrs(s, n)
            if a is None or any("?" in x[:2] for x in a):
                unknown = unknown or "attributes of %s not known" % n
            else:
                got = [(k, v) for k, v, *_ in a if k is not None or v is not None]     # a removed attribute leaves an empty entry
                want = list(ref.attrs[n])
                cls = next((v for k, v in want if isinstance(v, frozenset)), None)
                if cls is not None:
                    mine = next((v for k, v in got if ST.lower(k) == "class"), None)
                    if frozenset(CLS.tokens(mine)) != cls:
                        return "the classes of %s are %r instead of %s" % (n, mine, sorted(cls)), None
                    got = [x for x in got if ST.lower(x[0]) != "class"]
                    want = [x for x in want if not isinstance(x[1], frozenset)]
                if got != want:
                    return "the attributes of %s are %s instead of %s" % (n, got, want), None
        c = ESC.content(I, s, n)
        if n in ref.text:
            if c == "?":
                unknown = unknown or "content of %s not known" % n
            elif (c or "") != ref.text[n]:
                return "the content of %s is %r instead of %r" % (n, c, ref.text[n]), None
        elif c not in (None, "?"):
            return "the content of %s became %r" % (n, c), None
    return None, unknown


def sets_of(names, k):
    return [s for i in range(0, k + 1) for s in itertools.permutations(names, i)]


def cases(tier):
    T1 = ("A", "B", "D", "E", "H", "X")
    C1 = ("A", "B", "C", "D", "E", "X", "Y")
    out = []
    for m in INSERT:
        two = sets_of(("B", "D", "E", "X", "A"), 2)
        con = sets_of(("C", "D", "F", "E", "X", "B"), 2)
        if m in FLIP and tier != "thorough":
            two, con = two[:11], con[:17]
        for t in two:
            for c in con:
                out.append((m, t, c, TAGS))
        for t in ("G", "H"):
            for c in (("C",), ("D", "E")):
                out.append((m, (t,), c, TAGS) if m not in FLIP else (m, c, (t,), TAGS))
        for t in ("A", "B", "E", "X", "H", "G", "Y"):
            for c in (("ROOTf",), ("ROOTf", "D"), ("C", "ROOTf")):
                out.append((m, (t,), c, TAGS) if m not in FLIP else (m, c, (t,), TAGS))
        trip = [("B", "D", "E"), ("E", "D", "B"), ("A", "B", "C")]
        for t in trip:
            for c in ((), ("F",), ("X",), ("F", "X"), ("F", "X", "Y"), ("Y", "F", "H")):
                out.append((m, t, c, TAGS) if m not in FLIP else (m, c, t, TAGS))
        for t in (("ROOT",), ("ROOT", "B"), ("B", "ROOT")):
            out.append((m, t, ("X",), TAGS) if m not in FLIP else (m, ("X",), t, TAGS))
    many = sets_of(("A", "B", "C", "D", "E"), 2) + [("A", "B", "C"), ("C", "B", "A"), ("D", "E", "X"), ("B", "D", "E"), ("E", "H", "A"), ("A", "A"), ("H",), ("X", "Y")]
    el = {n: ("p", [("class", "a b"), ("n", "v")] if n in "ABX" else [("N", "w")]) for n in "ABCDEFXY"}
    el.update(TAGS)
    for s in many:
        out.append(("remove", s, None, TAGS))
        out.append(("empty", s, None, TAGS))
        for x in ("", "x", "a<b"):
            out.append(("set_text", s, x, TAGS))
        if len(s) <= 3:
            out.append(("set_html", s, "<n>", TAGS))
        for a in (("n", "z"), ("m", "z"), ("N", None)):
            if len(set(s)) == len(s):
                out.append(("set_attr", s, a, el))
        for a in ("n", "N", "zz", "class"):
            out.append(("remove_attr", s, a, el))
        if len(set(s)) == len(s):
            for m in ("add_class", "remove_class", "toggle_class"):
                for a in ("a", "c", "c a", "b d"):
                    out.append((m, s, a, el))
    return out


# ---------------------------------------------------------------- text nodes
def text_case(F, case):
    m, cell, old, arg = case
    W = EditWorld(F, SPEC, TAGS, loose=LOOSE)
    I, st = W.I, W.S.st
    loc = (("H", cell), (("f", I.node_idx["content"], I.node_fty["content"]),))
    I.write(st, loc, AI.none(I.node_fty["content"]) if old is None else AI.some(ST.charvec(old), I.node_fty["content"]))
    body = next((nm for (tr, mm), l in F.trait_impls.items() if mm == m and tr.split("::")[-1] in ("ITextTrait", "INodeTrait") for _, nm in l if nm in F.bodies), None)
    if body is None:
        return
    nm = I.fresh("self")
    st.heap[nm] = rc(cell)
    outs = I.call_fn(st, body, [("r", (("H", nm), ())), ("str", arg)])
    rows = AT.panic_rows(W)
    yield from rows
    want = {"append_text": (old or "") + arg, "prepend_text": arg + (old or ""), "set_text": arg or old}[m]
    rule = "the text becomes exactly what the editor says"
    if not outs and not rows:
        yield "", rule, "undecided", "no outcome"
    ref = Dom(W.tree, TAGS)
    ref.text[cell] = want or ""
    for s, _ in outs:
        bad, unknown = compare(W, s, ref, case)
        st_ = "undecided" if (SS.outside(I, s) if bad is not None else unknown) else "refuted" if bad is not None else "proven"
        yield "", rule, st_, bad or unknown or ""


def text_set_case(F, case):
    cells = case
    W = EditWorld(F, SPEC, TAGS, loose=LOOSE)
    I, st = W.I, W.S.st
    body = TOT.body_of(F, "texts", "remove")
    out = []
    for c in cells:
        nm = I.fresh("in:" + c)
        st.heap[nm] = rc(c)
        out.append(("one", ("bx", nm)))
    outs = I.call_fn(st, body, [("ag", "mesdoc::interface::texts::Texts<'_>", None, ((0, ("vec", tuple(out))),))])
    rows = AT.panic_rows(W)
    yield from rows
    ref = Dom(W.tree, TAGS)
    for c in cells:
        ref.detach(c)
    rule = "exactly the texts of the set leave the document"
    if not outs and not rows:
        yield "", rule, "undecided", "no outcome"
    for s, _ in outs:
        bad, unknown = compare(W, s, ref, case)
        yield "", rule, "undecided" if (SS.outside(I, s) if bad is not None else unknown) else "refuted" if bad is not None else "proven", bad or unknown or ""


def describe(c):
    return "%s.%s(%s)" % (list(c[1]), c[0], "" if c[2] is None else list(c[2]) if c[0] in INSERT else repr(c[2]))


def run(ctx):
    F = ctx.F
    AT.run_cases(ctx, cases(ctx.tier), edit, describe, WHERE)
    T = [(m, c, old, x) for m in ("append_text", "prepend_text", "set_text") for c in ("t1", "t2", "t3") + (("c1",) if m == "set_text" else ())
         for old in (None, "", "o", "old <", "\u00e9\u00e9") for x in ("", "x", "xyz", "&lt;", "\u4e2d ")]
    AT.run_cases(ctx, T, text_case, lambda c: "%s.%s(%r) on %r" % (c[1], c[0], c[3], c[2]), WHERE)
    if TOT.body_of(F, "texts", "remove"):
        AT.run_cases(ctx, [s for k in range(0, 4) for s in itertools.permutations(("t1", "t2", "t3"), k)] + [("t9",), ("t9", "t1")], text_set_case, lambda c: "texts%s.remove()" % list(c), WHERE)
