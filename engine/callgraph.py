"""Call graph over the fact base: direct calls, trait dispatch, closures passed to callees, boxed callbacks by signature."""
import re
from facts import simp, thead, pointee, split_top

FN_CALL = re.compile(r"(^|::)Fn(Mut|Once)?::call(_mut|_once)?$")
# external callees that store or drop a closure without running it
HOLD = {"Box::new", "Rc::new", "Arc::new", "RefCell::new", "Cell::new", "Mutex::new", "Vec::push", "VecDeque::push_back", "Vec::insert", "HashMap::insert", "BTreeMap::insert",
        "Box as From::from", "Option as From::from", "mem::drop", "mem::replace", "mem::take", "Some", "Box::into_pin",
        "Iterator::map", "Iterator::filter", "Iterator::filter_map", "Iterator::take_while", "Iterator::skip_while", "Iterator::flat_map", "Iterator::scan", "Iterator::inspect", "Iterator::map_while", "Iterator::rev", "Iterator::enumerate", "Iterator::take", "Iterator::skip", "Iterator::zip", "Iterator::chain", "Iterator::peekable", "Iterator::cloned", "Iterator::copied", "IntoIterator::into_iter", "I as IntoIterator::into_iter"}
_lt = re.compile(r"'[a-zA-Z_]\w*\s?|'\{erased\}\s?")


def norm_ty(t):
    t = re.sub(r"for<[^>]*>\s?", "", t)
    t = _lt.sub("", t)
    t = re.sub(r"\s*\+\s*(?=[)>,]|$)", "", t)
    t = re.sub(r"\s*\+ std::marker::(Send|Sync)", "", t)
    t = re.sub(r"<(, )*>", "", t)
    t = t.replace("&(dyn ", "&dyn ").replace("<(dyn ", "<dyn ")
    t = re.sub(r"\(dyn ([\w:]+)\)", r"dyn \1", t)
    # unbalanced parens left by the replacements above
    out, d = "", 0
    for c in t:
        if c == "(":
            d += 1
        elif c == ")":
            if d == 0:
                continue
            d -= 1
        out += c
    return re.sub(r"\s+", " ", out).strip()


def dyn_fn(ty):
    """(arg types, return type) of the first dyn Fn in a callee type, or None."""
    m = re.search(r"dyn (?:for<[^>]*> )?std::ops::Fn(?:Mut|Once)?\(", ty)
    if not m:
        return None
    i = m.end()
    d, j = 1, i
    while j < len(ty) and d:
        if ty[j] == "(":
            d += 1
        elif ty[j] == ")":
            d -= 1
        j += 1
    args = tuple(norm_ty(x) for x in split_top(ty[i:j - 1]))
    rest = ty[j:].lstrip()
    ret = "()"
    if rest.startswith("->"):
        rest = rest[2:].strip()
        d, k = 0, 0
        while k < len(rest):
            c = rest[k]
            if c in "<([":
                d += 1
            elif c in ">)]":
                if d == 0:
                    break
                d -= 1
            elif d == 0 and (c == "," or rest.startswith(" + ", k)):
                break
            k += 1
        ret = norm_ty(rest[:k])
    return args + ("->" + ret,)


class CallGraph:
    def __init__(self, F):
        self.F = F
        boxed = set()            # closure types that are coerced to a trait object somewhere
        for b in F.fn_bodies():
            for bl in b["blocks"]:
                for s in bl["s"]:
                    rv = s.get("rv") or {}
                    if rv.get("k") == "cast" and "dyn " in rv.get("ty", "dyn "):
                        o = rv.get("o") or {}
                        pl = o.get("m") or o.get("c")
                        if pl:
                            boxed |= set(re.findall(r"\{closure@[^}]*\}", b["locals"][pl["l"]]["ty"]))
        self.sig = {}            # boxed closures by argument and return types
        for b in F.fn_bodies():
            n = b["name"]
            if "{closure#" in n.split("::")[-1]:
                env = re.findall(r"\{closure@[^}]*\}", b["locals"][1]["ty"])
                if env and env[0] not in boxed:
                    continue
                args = tuple(norm_ty(b["locals"][i]["ty"]) for i in range(2, b["argc"] + 1)) + ("->" + norm_ty(b["locals"][0]["ty"]),)
                self.sig.setdefault(args, []).append(n)
        self.usersigs = set()
        for b in F.fn_bodies():
            if b.get("reach") or b.get("trait_default") or b.get("impl_trait"):
                for i in range(1, b["argc"] + 1):
                    ty = b["locals"][i]["ty"]
                    if "{closure#" not in b["name"].split("::")[-1]:
                        sg = dyn_fn(ty)
                        if sg:
                            self.usersigs.add(sg)
        self.fnvals = {}         # functions used as values, by argument types
        for b in F.fn_bodies():
            for o in self._operands(b):
                k = o.get("k")
                if k and "fn" in k:
                    n = k["fn"].get("res") or k["fn"].get("path")
                    if n in F.bodies:
                        bb = F.bodies[n]
                        args = tuple(norm_ty(bb["locals"][i]["ty"]) for i in range(1, bb["argc"] + 1)) + ("->" + norm_ty(bb["locals"][0]["ty"]),)
                        self.fnvals.setdefault(args, set()).add(n)
        self.node_traits = {t for t in F.traits if t.split("::")[-1] in ("INodeTrait", "IElementTrait", "ITextTrait", "IDocumentTrait", "IUncareNodeTrait")}
        self.invokers = self._invokers()
        self.calls = {}
        for b in F.fn_bodies():
            self.calls[b["name"]] = [(i, bl["t"]) + self.resolve(bl["t"], b) for i, bl in enumerate(b["blocks"]) if bl["t"]["k"] == "call" and not bl.get("u")]

    def _invokers(self):
        """Generic functions that may run a callable they are given."""
        inv = set()
        ch = True
        while ch:
            ch = False
            for b in self.F.fn_bodies():
                n = b["name"]
                if n in inv:
                    continue
                for bl in b["blocks"]:
                    t = bl["t"]
                    if t["k"] != "call" or bl.get("u") or "ptr" in t["f"]:
                        continue
                    f = t["f"]
                    gen = [a for a in f.get("args") or () if re.match(r"^&?(mut )?(impl .*|[A-Z]\w{0,2})$", a)]
                    path = f.get("res") or f["path"]
                    if not gen and not (path in inv and any("{closure@" in a for a in f.get("args") or ())):
                        continue
                    if FN_CALL.search(f["path"]) or path in inv or (path not in self.F.bodies and simp(path) not in HOLD and not f.get("trait")):
                        inv.add(n)
                        ch = True
                        break
        return inv

    def _operands(self, b):
        for bl in b["blocks"]:
            for s in bl["s"]:
                if s["k"] == "assign":
                    rv = s["rv"]
                    for x in [rv.get("o"), rv.get("a"), rv.get("b")] + list(rv.get("ops") or []):
                        if isinstance(x, dict):
                            yield x
            t = bl["t"]
            if t["k"] == "call":
                for x in t["a"]:
                    if isinstance(x, dict):
                        yield x

    def resolve(self, t, b):
        """(set of crate functions possibly called, set of tags: 'user' callback, 'node' trait dispatch, 'ext:<key>')."""
        f = t["f"]
        out, tags = set(), set()
        if "ptr" in f:
            tags.add("user")
            return out, tags
        path = f.get("res") or f["path"]
        if path in self.F.bodies:
            out.add(path)
            # closures handed to a generic callee run inside it, if it runs what it is given
            if path in self.invokers:
                for c in f.get("closures", ()):
                    if c in self.F.bodies:
                        out.add(c)
            self._trait_tag(f, tags)
            return out, tags
        if FN_CALL.search(f["path"]):
            cl = [c for c in f.get("closures", ()) if c in self.F.bodies]
            sty = (f.get("args") or [""])[0]
            if sty.startswith("{closure@") and cl:
                out.add(cl[0])
                return out, tags
            sig = dyn_fn(sty)
            if sig is not None:
                out |= set(self.sig.get(sig, ())) | set(self.fnvals.get(sig, ()))
                if not out or self._user_sig(sig) or sig in self.usersigs:
                    tags.add("user")
                return out, tags
            # a type parameter: whatever the callers pass
            tags.add("param")
            if b.get("reach"):
                tags.add("user")
            return out, tags
        tr = f.get("trait")
        if tr:
            base = tr.split("<")[0]
            m = f["path"].split("::")[-1]
            if base in self.F.traits:
                for self_ty, name in self.F.trait_impls.get((base, m), ()):
                    if name in self.F.bodies:
                        out.add(name)
                d = "%s::%s" % (base, m)
                if d in self.F.bodies:
                    out.add(d)
                self._trait_tag(f, tags)
                return out, tags
        # external callee: closures handed to it run inside it
        if simp(path) in HOLD:
            tags.add("ext:" + simp(path))
            return out, tags
        for c in f.get("closures", ()):
            if c in self.F.bodies:
                out.add(c)
        for o in t["a"]:
            k = o.get("k") if isinstance(o, dict) else None
            if k and "fn" in k:
                n = k["fn"].get("res") or k["fn"].get("path")
                if n in self.F.bodies:
                    out.add(n)
        tags.add("ext:" + simp(path))
        return out, tags

    def _trait_tag(self, f, tags):
        tr = (f.get("trait") or "").split("<")[0]
        if tr in self.node_traits:
            tags.add("node:" + f["path"].split("::")[-1])

    def _user_sig(self, sig):
        return len(sig) == 2 and "std::error::Error" in sig[0]

    def callees(self, name):
        out = set()
        for _, _, cs, _ in self.calls.get(name, ()):
            out |= cs
        return out

    def reach(self, roots, through=None):
        seen, work = set(), [r for r in roots if r in self.F.bodies]
        while work:
            n = work.pop()
            if n in seen or "#promoted" in n:
                continue
            seen.add(n)
            for c in self.callees(n):
                if c not in seen and (through is None or through(n, c)):
                    work.append(c)
        return seen

    def path(self, src, dst):
        prev, work = {src: None}, [src]
        while work:
            n = work.pop(0)
            if n == dst:
                out = []
                while n:
                    out.append(n)
                    n = prev[n]
                return out[::-1]
            for c in sorted(self.callees(n)):
                if c not in prev:
                    prev[c] = n
                    work.append(c)
        return None
