"""Abstract interpretation of MIR over a segment/shape domain.

Abstract values (immutable tuples):
  ('i', c, terms)                 affine integer (chars are integers too)
  ('b', bool)                     known boolean
  ('c', 'ge'|'eq', lin)           boolean  lin >= 0 / lin == 0
  ('nb', v) ('and', a, b) ('or', a, b)
  ('s', name, ty)                 opaque term
  ('d', name, ty, vars)           discriminant of an opaque enum
  ('en', ty, variant, base, flds) enum value, flds: ((i, v), ...) (lazy when base given)
  ('ag', ty, base, flds)          struct / tuple
  ('clo', def, flds)              closure
  ('fn', callee)                  function item
  ('str', text)
  ('r', loc) ('sl', loc, start, len)   pointer / slice pointer
  ('bx', obj) ('rc', cell) ('wk', cell)
  ('gd', gid, kind, loc)          RefCell guard
  ('vec', segs)                   list of segments
  ('it', kind, ...)               iterator
  ('u',)                          undefined
Segments: ('one', v) ('grp', gid, start, len) ('opq', name, start, len, ety) ('loop', lid, len)
Locations: (root, path); root = ('L', frame, local) | ('H', obj); path items ('f', i) ('v', variant) ('x', lin)
Cells of node groups are the heap objects ('gc', gid, lin).
"""
import re, time, itertools
import lin as L
from facts import simp, thead, targs, pointee, split_top

UNDEF = ("u",)
NODE_TRAITS = ("INodeTrait", "IElementTrait", "ITextTrait", "IUncareNodeTrait")
INT_TYPES = {"usize", "u8", "u16", "u32", "u64", "isize", "i8", "i16", "i32", "i64", "char"}
UNSIGNED = {"usize", "u8", "u16", "u32", "u64", "char"}
TRUE, FALSE = ("b", True), ("b", False)


DIVERGENCE = False       # look for states that come back unchanged (C11)


def recursive(adj):
    """Nodes on a cycle (iterative Tarjan)."""
    idx, low, on, st, out = {}, {}, set(), [], set()
    for root in adj:
        if root in idx:
            continue
        work = [(root, iter(adj.get(root, ())))]
        idx[root] = low[root] = len(idx)
        st.append(root)
        on.add(root)
        while work:
            n, it = work[-1]
            for m in it:
                if m not in idx:
                    idx[m] = low[m] = len(idx)
                    st.append(m)
                    on.add(m)
                    work.append((m, iter(adj.get(m, ()))))
                    break
                elif m in on:
                    low[n] = min(low[n], idx[m])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[n])
                if low[n] == idx[n]:
                    comp = []
                    while True:
                        x = st.pop()
                        on.discard(x)
                        comp.append(x)
                        if x == n:
                            break
                    if len(comp) > 1 or n in adj.get(n, ()):
                        out.update(comp)
    return out


def live_locals(body, h):
    """Locals read at or after block h before being overwritten as a whole."""
    from cfg import succs
    blocks = body["blocks"]

    def uses(x, out, store=False):
        if isinstance(x, dict):
            if "l" in x and "p" in x:
                out.add(x["l"])
                for e in x["p"]:
                    if e[0] == "idx":
                        out.add(e[1])
                return
            for v in x.values():
                uses(v, out)
        elif isinstance(x, list):
            for v in x:
                uses(v, out)
    gen, kill = [], []
    for bl in blocks:
        g, k = set(), set()

        def rd(x):
            o = set()
            uses(x, o)
            g.update(o - k)

        def wr(pl):
            if pl["p"]:
                rd(pl)
            else:
                k.add(pl["l"])
        for s in bl["s"]:
            if "rv" in s:
                rd(s["rv"])
                wr(s["pl"])
            elif s.get("k") == "dead":
                l = s.get("l")
                if isinstance(l, int) and l not in g:
                    k.add(l)
            else:
                rd({a: b for a, b in s.items() if a != "k"})
        t = bl["t"]
        if t["k"] == "call":
            rd(t["a"])
            rd(t["f"])
            wr(t["d"])
        else:
            rd({a: b for a, b in t.items() if a not in ("k", "sp", "t", "vals", "other")})
        if t["k"] == "return":
            if 0 not in k:
                g.add(0)
        gen.append(g)
        kill.append(k)
    live = [set() for _ in blocks]
    ch = True
    while ch:
        ch = False
        for i in range(len(blocks) - 1, -1, -1):
            o = set()
            for x in succs(blocks[i]["t"]):
                o |= live[x]
            n = gen[i] | (o - kill[i])
            if n != live[i]:
                live[i] = n
                ch = True
    return live[h]


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


def none(ty="std::option::Option<?>"):
    return ("en", ty, "None", None, ())


def some(v, ty="std::option::Option<?>"):
    return ("en", ty, "Some", None, ((0, v),))


def ok(v, ty="std::result::Result<?>"):
    return ("en", ty, "Ok", None, ((0, v),))


def err(v, ty="std::result::Result<?>"):
    return ("en", ty, "Err", None, ((0, v),))


UNIT = ("ag", "()", None, ())


def tup(*vs):
    return ("ag", "()", None, tuple(enumerate(vs)))


def fget(flds, i):
    for k, v in flds:
        if k == i:
            return v
    return None


def fset(flds, i, v):
    d = dict(flds)
    d[i] = v
    return tuple(sorted(d.items()))


class St:
    __slots__ = ("env", "heap", "sub", "notv", "facts", "neq", "bor", "gw", "groups", "ev", "path", "notes")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.sub = {}
        self.notv = {}
        self.facts = frozenset()
        self.neq = ()
        self.bor = {}
        self.gw = ()
        self.groups = {}
        self.ev = ()
        self.path = ()
        self.notes = {}

    def copy(self):
        s = St.__new__(St)
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.sub = dict(self.sub)
        s.notv = dict(self.notv)
        s.facts = self.facts
        s.neq = self.neq
        s.bor = dict(self.bor)
        s.gw = self.gw
        s.groups = dict(self.groups)
        s.ev = self.ev
        s.path = self.path
        s.notes = dict(self.notes)
        return s

    def ge(self, a):
        return L.entails_ge(self.facts, a)

    def eq0(self, a):
        return L.entails_eq(self.facts, a)

    def add_ge(self, a):
        if not a[2]:
            return a[1] >= 0
        if not L.feasible(self.facts, (a,)):
            return False
        self.facts = self.facts | {a}
        for n in self.neq:
            if self.eq0(n):
                return False
        return True

    def add_eq(self, a):
        return self.add_ge(a) and self.add_ge(L.scale(a, -1))

    def add_ne(self, a):
        if not a[2]:
            return a[1] != 0
        if self.eq0(a):
            return False
        if self.ge(a):
            return self.add_ge(L.addc(a, -1))
        if self.ge(L.scale(a, -1)):
            return self.add_ge(L.addc(L.scale(a, -1), -1))
        self.neq = self.neq + (a,)
        return True


def subst_val(v, name, val):
    """Substitute an integer symbol in a value."""
    if not isinstance(v, tuple):
        return v
    if L.isint(v):
        return L.subst(v, name, val)
    return tuple(subst_val(x, name, val) for x in v)


def mentions(v, name):
    if isinstance(v, str):
        return v == name
    if isinstance(v, tuple):
        return any(mentions(x, name) for x in v)
    return False


INT_RANGE = {"%s%s" % (k, "size" if n == 0 else n): ((0, 2 ** (n or 64) - 1) if k == "u" else (-2 ** ((n or 64) - 1), 2 ** ((n or 64) - 1) - 1)) for k in "ui" for n in (0, 8, 16, 32, 64, 128)}


class Interp:
    def __init__(self, facts, **opt):
        self.F = facts
        self.ctr = itertools.count(1)
        self.imprecise = set()
        self.panics = []
        self.diverged = []
        self.active = []
        self.lives = {}
        self.conflicts = []
        self.usercalls = []
        self.loops = {}
        self.opt = dict(divergence=DIVERGENCE, max_states=3000, unroll_det=40, unroll_nd=0, max_depth=40, recurse=1, inline=None, on_call=None,
                        max_steps=400000)
        self.opt.update(opt)
        self.steps = 0
        self.stack = []
        self.dts = []
        self.called = set()
        self.unknown_calls = {}
        self.cfgs = {}
        self.node_idx = {}
        self.node_fty = {}
        self._scan_fields()
        import models, strings, stdmore
        self.models = models.MODELS
        self.prefix_models = models.PREFIX

    # ---------------------------------------------------------------- names
    def fresh(self, base, imprecise=False):
        n = "%s~%d" % (base, next(self.ctr))
        if imprecise:
            self.imprecise.add(n)
        return n

    def _scan_fields(self):
        cache = self.F.__dict__.get("_node_fields")
        if cache:
            self.node_idx, self.node_fty = dict(cache[0]), dict(cache[1])
            return
        self._scan_bodies()
        self.F.__dict__["_node_fields"] = (dict(self.node_idx), dict(self.node_fty))

    def _scan_bodies(self):
        for b in self.F.bodies.values():
            for bl in b["blocks"]:
                for s in bl["s"]:
                    if s["k"] == "assign":
                        for pl in (s["pl"], s["rv"].get("pl"), (s["rv"].get("o") or {}).get("c") if isinstance(s["rv"].get("o"), dict) else None):
                            if pl:
                                self._scan_place(b, pl)

    def _scan_place(self, b, pl):
        ty = b["locals"][pl["l"]]["ty"]
        for p in pl["p"]:
            if p[0] == "deref":
                ty = pointee(ty) if ty[:1] in "&*" else pointee(ty)
            elif p[0] == "f":
                if ty.endswith("parser::Node"):
                    self.node_idx[p[2]] = p[1]
                    self.node_fty[p[2]] = p[3]
                ty = p[3]
            else:
                ty = ""

    # ---------------------------------------------------------------- symbols
    def mksym(self, st, name, ty, imprecise=False):
        ty = ty.strip()
        if imprecise:
            self.imprecise.add(name)
        h = thead(ty)
        if ty in INT_TYPES:
            return L.sym(name, ty in UNSIGNED)
        if ty == "bool":
            return ("s", name, "bool")
        if ty == "()":
            return UNIT
        if h == "Rc":
            return ("rc", "c:" + name)
        if h == "Weak":
            return ("wk", "c:" + name)
        if h in ("&", "&mut", "*"):
            p = pointee(ty)
            if thead(p) == "str":
                return ("s", name, ty)
            obj = name + "*"
            if obj not in st.heap:
                st.heap[obj] = self.mksym(st, name + ".*", p, imprecise) if not self._isnodedyn(p) else ("rc", "c:" + name)
            if thead(p) == "[]":
                if st.heap[obj][0] != "vec":
                    return ("s", name, ty)
                return ("sl", (("H", obj), ()), L.ZERO, self.veclen(st.heap[obj]))
            return ("r", (("H", obj), ()))
        if h == "Box":
            p = pointee(ty)
            obj = name + "*"
            if obj not in st.heap:
                st.heap[obj] = ("rc", "c:" + name) if self._isnodedyn(p) else self.mksym(st, name + ".*", p, imprecise)
            return ("bx", obj)
        if h == "Vec" or h == "VecDeque":
            a = targs(ty)
            return ("vec", (("opq", name, L.ZERO, L.sym("len(%s)" % name, True), a[0] if a else "?"),))
        if h == "[]":
            inner = ty[1:-1]
            m = re.match(r"^(.*); (\d+)$", inner)
            if m:
                if int(m.group(2)) > 8:
                    return ("vec", (("opq", name, L.ZERO, L.const(int(m.group(2))), m.group(1)),))
                return ("vec", tuple(("one", self.mksym(st, "%s[%d]" % (name, i), m.group(1), imprecise)) for i in range(int(m.group(2)))))
            return ("vec", (("opq", name, L.ZERO, L.sym("len(%s)" % name, True), inner),))
        if h == "()" and ty.startswith("("):
            parts = split_top(ty[1:-1])
            return ("ag", ty, None, tuple((i, self.mksym(st, "%s.%d" % (name, i), p, imprecise)) for i, p in enumerate(parts)))
        if ty.endswith("parser::Node") or ty in self.F.structs:
            return ("ag", ty, name, ())
        if h == "RefCell":
            return self.mksym(st, name, pointee(ty), imprecise)
        return ("s", name, ty)

    def _isnodedyn(self, p):
        h = thead(p)
        return h.startswith("dyn ") and h[4:] in NODE_TRAITS

    # ---------------------------------------------------------------- vectors
    def seglen(self, s):
        if s[0] == "one":
            return L.ONE
        if s[0] == "loop":
            return s[2]
        return s[3]

    def veclen(self, v):
        n = L.ZERO
        for s in v[1]:
            n = L.add(n, self.seglen(s))
        return n

    def normsegs(self, st, segs):
        out = []
        for s in segs:
            if s[0] == "one":
                v = self.norm(st, s[1])
                if isinstance(v, tuple) and v[0] == "rc" and isinstance(v[1], tuple) and v[1][0] == "gc":
                    s = ("grp", v[1][1], v[1][2], L.ONE)
            ln = self.seglen(s)
            if ln == L.ZERO or (s[0] != "one" and ln[2] and st.eq0(ln)):
                continue
            if out and s[0] in ("grp", "opq") and out[-1][0] == s[0] and out[-1][1] == s[1]:
                p = out[-1]
                if st.eq0(L.sub(L.add(p[2], p[3]), s[2])):
                    out[-1] = (p[0], p[1], p[2], L.add(p[3], s[3])) + p[4:]
                    continue
            out.append(s)
        return tuple(out)

    def split(self, st, segs, idx):
        """Split at idx; list of (state, left, right); right None when idx is past the end."""
        res = []
        work = [(st, 0, L.ZERO)]
        while work:
            s, i, off = work.pop()
            if i == len(segs):
                if s.eq0(L.sub(idx, off)):
                    res.append((s, tuple(segs), ()))
                else:
                    a = s.copy()
                    if a.add_eq(L.sub(idx, off)):
                        res.append((a, tuple(segs), ()))
                    b = s
                    if b.add_ge(L.addc(L.sub(idx, off), -1)):
                        res.append((b, tuple(segs), None))
                continue
            seg = segs[i]
            ln = self.seglen(seg)
            d = L.sub(idx, off)
            if s.eq0(d):
                res.append((s, tuple(segs[:i]), tuple(segs[i:])))
                continue
            if s.ge(L.sub(d, ln)):
                work.append((s, i + 1, L.add(off, ln)))
                continue
            a = s.copy()
            if a.add_ge(L.sub(d, ln)):
                work.append((a, i + 1, L.add(off, ln)))
            b = s
            if not b.add_ge(L.addc(L.sub(ln, d), -1)):
                continue
            if seg[0] == "one":
                if b.add_eq(d):
                    res.append((b, tuple(segs[:i]), tuple(segs[i:])))
                continue
            # inside (or at the start of) a group
            if not b.ge(d):
                c = b.copy()
                if c.add_ge(L.addc(L.scale(d, -1), -1)):
                    res.append((c, tuple(segs), None))     # negative: cannot be for unsigned
                if not b.add_ge(d):
                    continue
            if seg[0] == "loop":
                n1, n2 = self.fresh("cut"), None
                l1 = L.sym(n1, True)
                left = ("loop", seg[1], d)
                right = ("loop", seg[1], L.sub(ln, d))
            else:
                left = (seg[0], seg[1], seg[2], d) + seg[4:]
                right = (seg[0], seg[1], L.add(seg[2], d), L.sub(ln, d)) + seg[4:]
            res.append((b, tuple(segs[:i]) + (left,), (right,) + tuple(segs[i + 1:])))
        return res

    def first_of(self, st, segs):
        """First element of a non empty list: list of (state, value|None, rest)."""
        if not segs:
            return [(st, None, ())]
        seg = segs[0]
        if seg[0] == "one":
            return [(st, seg[1], tuple(segs[1:]))]
        ln = self.seglen(seg)
        res = []
        z = st.copy()
        if z.add_eq(ln):
            res += self.first_of(z, segs[1:])
        if st.add_ge(L.addc(ln, -1)):
            if seg[0] == "grp":
                v = ("rc", ("gc", seg[1], seg[2]))
                rest = ("grp", seg[1], L.addc(seg[2], 1), L.addc(ln, -1))
            elif seg[0] == "opq":
                v = self.mksym(st, "%s[%s]" % (seg[1], L.show(seg[2])), seg[4])
                rest = ("opq", seg[1], L.addc(seg[2], 1), L.addc(ln, -1), seg[4])
            else:
                v = ("s", self.fresh("loopel", True), "?")
                rest = ("loop", seg[1], L.addc(ln, -1))
            res.append((st, v, (rest,) + tuple(segs[1:])))
        return res

    def elem_at(self, st, segs, idx):
        """list of (state, value) or (state, None) when out of range."""
        out = []
        for s, left, right in self.split(st, segs, idx):
            if right is None:
                out.append((s, None))
                continue
            for s2, v, _ in self.first_of(s, right):
                out.append((s2, v))
        return out

    # ---------------------------------------------------------------- normalisation
    def norm(self, st, v):
        while isinstance(v, tuple) and v and v[0] == "s" and v[1] in st.sub:
            v = st.sub[v[1]]
        return v

    # ---------------------------------------------------------------- reading
    def gread(self, st, gid, x, fi):
        name = self.fname(fi)
        for w in reversed(st.gw):
            if w[1] != gid or w[4] != fi:
                continue
            if w[0] == "w1":
                d = L.sub(w[2], x)
                if st.eq0(d):
                    return w[5]
                if st.ge(L.addc(d, -1)) or st.ge(L.addc(L.scale(d, -1), -1)):
                    continue
                return ("s", self.fresh("g?", True), "?")
            lo, hi = w[2], w[3]
            if st.ge(L.sub(x, lo)) and st.ge(L.addc(L.sub(hi, x), -1)):
                if w[5] is None:
                    return ("s", self.fresh("g?", True), "?")
                return subst_val(w[5], w[6], x)
            if st.ge(L.addc(L.sub(lo, x), -1)) or st.ge(L.sub(x, hi)) or st.ge(L.sub(lo, hi)):
                continue
            return ("s", self.fresh("g?", True), "?")
        g = st.groups[gid]
        if name in g:
            v = g[name]
            return v(x) if callable(v) else v
        return self.mksym(st, "%s[%s].%s" % (gid, L.show(x), name), self.node_fty.get(name, "?"))

    def fname(self, i):
        for k, v in self.node_idx.items():
            if v == i:
                return k
        return str(i)

    def step(self, st, v, p, fty=None):
        v = self.norm(st, v)
        k = v[0]
        if p[0] == "v":
            if k == "s":
                return ("en", v[2], p[1], v[1], ())
            return v
        if p[0] == "f":
            i = p[1]
            ty = p[2] if len(p) > 2 else "?"
            if k in ("ag", "en"):
                x = fget(v[-1], i)
                if x is not None:
                    return x
                base = v[2] if k == "ag" else v[3]
                if base is None:
                    return UNDEF
                nm = "%s.%s" % (base, i if k == "ag" else "%s.%s" % (v[2], i))
                if k == "ag" and v[1].endswith("parser::Node"):
                    nm = "%s.%s" % (base, self.fname(i))
                return self.mksym(st, nm, ty, base in self.imprecise)
            if k == "clo":
                x = fget(v[2], i)
                return x if x is not None else UNDEF
            if k == "bx":
                return v
            if k == "s":
                return self.mksym(st, "%s.%s" % (v[1], i), ty, v[1] in self.imprecise)
            if k == "it" and v[1] == "range" and i in (0, 1):
                return v[2 + i]
            if k in ("vec", "it"):
                return v
            return UNDEF
        if p[0] == "x":
            if k == "vec":
                r = None
                s0 = st.copy()
                outs = [o for o in self.elem_at(s0, v[1], p[1])]
                outs = [o for o in outs if o[1] is not None]
                if len(outs) == 1:
                    # materialised heap objects are deterministic, keep them
                    for o, hv in outs[0][0].heap.items():
                        st.heap.setdefault(o, hv)
                    return outs[0][1]
                return ("s", self.fresh("el?", True), self._ety(v))
            if k == "s":
                return ("s", "%s[%s]" % (v[1], L.show(p[1])), "?")
            return UNDEF
        raise Unsupported("step %r" % (p,))

    def _ety(self, v):
        for s in v[1]:
            if s[0] == "opq":
                return s[4]
        return "?"

    def rootval(self, st, root):
        if root[0] == "L":
            return st.env.get(root, UNDEF)
        obj = root[1]
        if obj in st.heap:
            return st.heap[obj]
        if isinstance(obj, str):
            if obj.startswith("c:"):
                v = ("ag", "rphtml::parser::Node", obj[2:], ())
            else:
                v = ("s", obj, "?")
            st.heap[obj] = v
            return v
        return UNDEF

    def read(self, st, loc):
        root, path = loc
        if root[0] == "H" and isinstance(root[1], tuple) and root[1][0] == "gc":
            if not path:
                return ("ag", "rphtml::parser::Node", "%s[%s]" % (root[1][1], L.show(root[1][2])), ())
            assert path[0][0] == "f"
            v = self.gread(st, root[1][1], root[1][2], path[0][1])
            path = path[1:]
        else:
            v = self.rootval(st, root)
        for p in path:
            v = self.step(st, v, p)
        return self.norm(st, v)

    def upd(self, st, v, path, new):
        if not path:
            return new
        v = self.norm(st, v)
        p = path[0]
        k = v[0]
        if p[0] == "v":
            if k == "s":
                v = ("en", v[2], p[1], v[1], ())
            return self.upd(st, v, path[1:], new)
        if p[0] == "f":
            i = p[1]
            inner = new if len(path) == 1 else self.upd(st, self.step(st, v, p), path[1:], new)
            if k == "ag":
                return ("ag", v[1], v[2], fset(v[3], i, inner))
            if k == "en":
                return ("en", v[1], v[2], v[3], fset(v[4], i, inner))
            if k == "clo":
                return ("clo", v[1], fset(v[2], i, inner))
            if k == "s":
                return ("ag", v[2], v[1], ((i, inner),))
            if k == "u":
                return ("ag", "?", None, ((i, inner),))
            if k == "vec":
                return inner
            return ("ag", "?", None, ((i, inner),))
        if p[0] == "x" and k == "vec":
            outs = self.split(st.copy(), v[1], p[1])
            outs = [o for o in outs if o[2]]
            if len(outs) == 1:
                s, left, right = outs[0]
                f = [o for o in self.first_of(s, right) if o[1] is not None]
                if len(f) == 1:
                    inner = new if len(path) == 1 else self.upd(f[0][0], f[0][1], path[1:], new)
                    return ("vec", left + (("one", inner),) + f[0][2])
            return ("vec", (("opq", self.fresh("upd", True), L.ZERO, self.veclen(v), self._ety(v)),))
        return v

    def write(self, st, loc, new):
        root, path = loc
        if root[0] == "H" and isinstance(root[1], tuple) and root[1][0] == "gc":
            _, gid, x = root[1]
            if not path:
                st.ev = st.ev + (("overwrite", root[1]),)
                return
            fi = path[0][1]
            if len(path) > 1:
                cur = self.gread(st, gid, x, fi)
                new = self.upd(st, cur, path[1:], new)
            st.gw = st.gw + (("w1", gid, x, None, fi, new),)
            return
        if not path:
            v = new
        else:
            v = self.upd(st, self.rootval(st, root), path, new)
        if root[0] == "L":
            st.env[root] = v
        else:
            st.heap[root[1]] = v

    # ---------------------------------------------------------------- places
    def place(self, st, fid, pl):
        """-> ('loc', loc) or ('slice', loc, start, len)"""
        cur = ("loc", (("L", fid, pl["l"]), ()))
        for p in pl["p"]:
            if p[0] == "deref":
                v = self.read(st, cur[1]) if cur[0] == "loc" else None
                cur = self.deref(st, v)
            elif p[0] == "f":
                cur = ("loc", (cur[1][0], cur[1][1] + (("f", p[1], p[3]),)))
            elif p[0] == "down":
                cur = ("loc", (cur[1][0], cur[1][1] + (("v", p[1]),)))
            elif p[0] in ("idx", "cidx"):
                if p[0] == "idx":
                    ix = self.norm(st, st.env.get(("L", fid, p[1]), UNDEF))
                    if not L.isint(ix):
                        ix = L.sym(self.fresh("ix", True), True)
                else:
                    ix = None
                if cur[0] == "slice":
                    base, start, ln = cur[1], cur[2], cur[3]
                else:
                    base, start = cur[1], L.ZERO
                    v = self.read(st, base)
                    ln = self.veclen(v) if v[0] == "vec" else L.sym(self.fresh("len", True), True)
                if ix is None:
                    ix = L.addc(ln, -p[1]) if p[2] else L.const(p[1])
                cur = ("loc", (base[0], base[1] + (("x", L.add(start, ix)),)))
            elif p[0] == "sub":
                if cur[0] == "slice":
                    base, start, ln = cur[1], cur[2], cur[3]
                else:
                    base, start = cur[1], L.ZERO
                    v = self.read(st, base)
                    ln = self.veclen(v) if v[0] == "vec" else L.sym(self.fresh("len", True), True)
                fr, to, fe = int(p[1]), int(p[2]), p[3]
                nl = L.addc(ln, -fr - to) if fe else L.const(to - fr)
                cur = ("slice", base, L.addc(start, fr), nl)
            else:
                raise Unsupported("proj %r" % (p,))
        return cur

    def deref(self, st, v):
        v = self.norm(st, v)
        if v[0] == "r":
            return ("loc", v[1])
        if v[0] == "sl":
            return ("slice", v[1], v[2], v[3])
        if v[0] == "bx":
            return ("loc", (("H", v[1]), ()))
        if v[0] == "rc":
            return ("loc", (("H", v[1]), ()))
        if v[0] == "s":
            obj = v[1] + "*"
            if obj not in st.heap:
                st.heap[obj] = self.mksym(st, v[1] + ".*", pointee(v[2]) if v[2] != "?" else "?", v[1] in self.imprecise)
            return ("loc", (("H", obj), ()))
        if v[0] == "gd":
            return ("loc", v[3])
        obj = self.fresh("ptr", True) + "*"
        st.heap[obj] = v if v[0] == "str" else ("s", obj, "?")
        return ("loc", (("H", obj), ()))

    def read_place(self, st, fid, pl):
        c = self.place(st, fid, pl)
        if c[0] == "slice":
            return ("sl", c[1], c[2], c[3])
        return self.read(st, c[1])

    # ---------------------------------------------------------------- operands
    def const(self, st, k, body):
        if "variant" in k and not k["variant"] is None and isinstance(k["variant"], str):
            return ("en", k["ty"], k["variant"], None, ())
        if "int" in k:
            return L.const(int(k["int"]))
        if "bool" in k:
            return ("b", k["bool"] in (True, "true"))
        if "char" in k:
            c = k["char"]
            return L.const(ord(c) if len(c) == 1 else int(c))
        if "str" in k:
            return ("str", k["str"])
        if "promoted" in k:
            return self.promoted(st, k, body)
        if "raw" in k:
            return ("s", "raw:" + repr(k["raw"]), k["ty"])
        if "chars" in k:
            return ("s", "chars:" + repr(k["chars"]), k["ty"])
        if "closure" in k:
            return ("clo", k["closure"], ())
        if "fn" in k:
            return ("fn", k["fn"].get("res") or k["fn"]["path"], k["fn"].get("virt"))
        if "static" in k:
            return ("s", "static:" + str(k["static"]), k["ty"])
        if k["ty"] == "()":
            return UNIT
        if isinstance(k.get("named"), str) and k["named"] in self.F.bodies and not self.F.bodies[k["named"]]["argc"]:
            v = self.named(st, k["named"])
            if v is not None:
                return v
        if k.get("zst") or "named" in k:
            m = k["ty"]
            return ("s", "const:" + str(k.get("named") or m), m)
        return ("s", "const:" + k["ty"], k["ty"])

    def named(self, st, name):
        """Value of a constant item: its body is evaluated."""
        fid = ("P", name)
        try:
            outs = self.run_body(st.copy(), self.F.bodies[name], [], fid=fid)
        except Unsupported:
            return None
        if len(outs) != 1:
            return None
        s, v = outs[0]
        for o, hv in s.heap.items():
            st.heap.setdefault(o, hv)
        for o, hv in s.env.items():
            if o[1] == fid:
                st.env[o] = hv
        return v

    def promoted(self, st, k, body):
        name = k["promoted"] if isinstance(k["promoted"], str) else None
        if name not in self.F.bodies:
            name = "%s#promoted%s" % (body["name"], k["promoted"])
        if name in self.F.bodies:
            key = "prom:" + name
            b = self.F.bodies[name]
            fid = ("P", name)
            for i, bl in enumerate(b["blocks"]):
                pass
            try:
                outs = self.run_body(st.copy(), b, [], fid=fid)
                if len(outs) == 1:
                    s, v = outs[0]
                    for o, hv in s.heap.items():
                        st.heap.setdefault(o, hv)
                    for o, hv in s.env.items():
                        if o[1] == fid:
                            st.env[o] = hv
                    return v
            except Unsupported:
                pass
        return ("s", "prom:%s:%s" % (body["name"], k["promoted"]), k["ty"])

    def operand(self, st, fid, o, body):
        if "k" in o:
            return self.const(st, o["k"], body)
        pl = o.get("c") or o.get("m")
        if pl is None:
            return ("s", "rtcheck", "bool")
        return self.read_place(st, fid, pl)

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, fid, rv, body, destty):
        k = rv["k"]
        if k == "use":
            return self.operand(st, fid, rv["o"], body)
        if k in ("ref", "rawptr"):
            if rv["pl"]["p"] and rv["pl"]["p"][-1][0] == "deref":
                # reborrow of a string slice
                v = self.norm(st, self.read_place(st, fid, dict(l=rv["pl"]["l"], p=rv["pl"]["p"][:-1])))
                if v[0] == "str" or v[0] == "s" and v[2].startswith("&") and thead(pointee(v[2])) == "str":
                    return v
            c = self.place(st, fid, rv["pl"])
            if c[0] == "slice":
                return ("sl", c[1], c[2], c[3])
            return ("r", c[1])
        if k == "bin":
            a = self.norm(st, self.operand(st, fid, rv["a"], body))
            b = self.norm(st, self.operand(st, fid, rv["b"], body))
            return self.binop(st, rv["op"], a, b, self.opty(rv["a"], body) or self.opty(rv["b"], body))
        if k == "un":
            a = self.norm(st, self.operand(st, fid, rv["o"], body))
            if rv["op"] == "Not":
                return self.bnot(a)
            if rv["op"] == "Neg" and L.isint(a):
                return L.scale(a, -1)
            if rv["op"] == "PtrMetadata":
                if a[0] == "sl":
                    return a[3]
                if a[0] == "r":
                    v = self.read(st, a[1])
                    if v[0] == "vec":
                        return self.veclen(v)
                return L.sym(self.fresh("meta", True), True)
            return ("s", self.fresh("un", True), destty)
        if k == "cast":
            v = self.norm(st, self.operand(st, fid, rv["o"], body))
            return self.cast(st, v, rv["ty"], rv["ck"])
        if k == "discr":
            v = self.norm(st, self.read_place(st, fid, rv["pl"]))
            vars_ = tuple((int(a), b) for a, b in rv.get("vars", []))
            if v[0] == "en":
                for n, nm in vars_:
                    if nm == v[2]:
                        return L.const(n)
                return L.sym(self.fresh("discr", True))
            if v[0] == "s":
                return ("d", v[1], v[2], vars_)
            return L.sym(self.fresh("discr", True))
        if k == "agg":
            ops = [self.operand(st, fid, o, body) for o in rv["ops"]]
            if rv["ak"] == "closure":
                return ("clo", rv["def"], tuple(enumerate(ops)))
            if rv["ak"] == "array":
                return ("vec", tuple(("one", o) for o in ops))
            if rv["ak"] == "tuple":
                return ("ag", "()", None, tuple(enumerate(ops)))
            if rv.get("enum"):
                return ("en", destty, rv["var"], None, tuple(enumerate(ops)))
            if rv["ak"] == "rawptr":
                return ops[0]
            h = thead(destty)
            if h == "Range" and len(ops) == 2 and L.isint(ops[0]) and L.isint(ops[1]):
                return ("it", "range", ops[0], ops[1])
            return ("ag", destty, None, tuple(enumerate(ops)))
        if k == "repeat":
            v = self.operand(st, fid, rv["o"], body)
            n = rv.get("n")
            try:
                n = int(n)
            except (TypeError, ValueError):
                n = None
            if n is not None and n <= 8:
                return ("vec", tuple(("one", v) for _ in range(n)))
            return ("s", self.fresh("rep", True), destty)
        return ("s", self.fresh("rv", True), destty)

    def opty(self, o, body):
        if "k" in o:
            return o["k"]["ty"]
        pl = o.get("c") or o.get("m")
        if not pl:
            return None
        ty = body["locals"][pl["l"]]["ty"]
        for p in pl["p"]:
            if p[0] == "deref":
                ty = pointee(ty)
            elif p[0] == "f":
                ty = p[3]
            else:
                return None
        return ty

    def cast(self, st, v, ty, ck):
        if v[0] == "bx" and ck == "BoxDerefTransmute":
            return ("r", (("H", v[1]), ()))
        if "Unsize" in ck:
            p = pointee(ty)
            if v[0] == "r" and thead(p) == "[]" and not re.search(r"; \d+\]$", p):
                a = self.read(st, v[1])
                if a[0] == "vec":
                    return ("sl", v[1], L.ZERO, self.veclen(a))
            return v
        if ck in ("Transmute", "PtrToPtr") or "Pointer" in ck:
            if ty in INT_TYPES:
                return L.sym(self.fresh("addr", True), True)
            return v
        if ck == "IntToInt" and v[0] == "d":
            return L.sym("discr(%s)" % v[1])
        return v

    def bnot(self, a):
        if a[0] == "b":
            return ("b", not a[1])
        if a[0] == "nb":
            return a[1]
        return ("nb", a)

    def binop(self, st, op, a, b, ty):
        ai, bi = L.isint(a), L.isint(b)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            o = op[:3]
            r = self.binop(st, o, a, b, ty)
            ov = FALSE
            if ty in ("usize", "u64", "u32", "u8", "u16") and L.isint(r):
                if o == "Sub":
                    ov = ("c", "ge", L.addc(L.scale(r, -1), -1))
                elif ty in ("u8", "u16"):
                    ov = ("c", "ge", L.addc(r, -(256 if ty == "u8" else 65536)))
            elif ty in ("isize", "i64", "i32"):
                if not (L.isint(r) and L.is_const(r)):
                    ov = ("s", self.fresh("ovf", True), "bool")
            elif not L.isint(r):
                ov = ("s", self.fresh("ovf", True), "bool")
            rng = INT_RANGE.get(ty)
            if rng and L.isint(r) and L.is_const(r) and not rng[0] <= r[1] <= rng[1]:
                ov = TRUE
            return tup(r, ov)
        if op in ("Add", "AddUnchecked") and ai and bi:
            return L.add(a, b)
        if op in ("Sub", "SubUnchecked") and ai and bi:
            return L.sub(a, b)
        if op == "Mul" and ai and bi and (L.is_const(a) or L.is_const(b)):
            return L.scale(a, b[1]) if L.is_const(b) else L.scale(b, a[1])
        if op in ("Div", "Rem") and ai and bi and L.is_const(a) and L.is_const(b) and b[1] != 0:
            # truncating division
            d = abs(a[1]) // abs(b[1])
            if (a[1] < 0) != (b[1] < 0):
                d = -d
            return L.const(d if op == "Div" else a[1] - d * b[1])
        if op == "Div" and ai and bi and L.is_const(b) and b[1] > 0:
            if L.is_const(a) and a[1] >= 0:
                return L.const(a[1] // b[1])
            if st.ge(a):
                q = L.sym("(%s)/%d" % (L.show(a), b[1]), True)
                st.facts = st.facts | {L.sub(a, L.scale(q, b[1])), L.sub(L.addc(L.scale(q, b[1]), b[1] - 1), a)}
                return q
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") and ai and bi:
            d = L.sub(b, a)
            if op == "Lt":
                c = ("c", "ge", L.addc(d, -1))
            elif op == "Le":
                c = ("c", "ge", d)
            elif op == "Gt":
                c = ("c", "ge", L.addc(L.scale(d, -1), -1))
            elif op == "Ge":
                c = ("c", "ge", L.scale(d, -1))
            elif op == "Eq":
                c = ("c", "eq", d)
            else:
                c = ("nb", ("c", "eq", d))
            return self.decide(st, c)
        if op in ("Eq", "Ne"):
            r = self.value_eq(st, a, b)
            if r is not None:
                return r if op == "Eq" else self.bnot(r)
        if op == "BitAnd" and self.isbool(a) and self.isbool(b):
            if a == FALSE or b == FALSE:
                return FALSE
            return b if a == TRUE else a if b == TRUE else ("and", a, b)
        if op == "BitOr" and self.isbool(a) and self.isbool(b):
            if a == TRUE or b == TRUE:
                return TRUE
            return b if a == FALSE else a if b == FALSE else ("or", a, b)
        if op == "Cmp" and ai and bi:
            return ("cmp", L.sub(a, b))
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            return ("s", "%s(%s,%s)" % (op, key(a), key(b)), "bool")
        if ty in INT_TYPES:
            if L.isint(a) and L.isint(b):
                return L.sym("%s(%s,%s)" % (op, L.show(a), L.show(b)), ty in UNSIGNED)
            return L.sym(self.fresh("arith", True), ty in UNSIGNED)
        return ("s", self.fresh("bin", True), ty or "?")

    def isbool(self, v):
        return v[0] in ("b", "c", "nb", "and", "or") or (v[0] == "s" and v[2] == "bool")

    def value_eq(self, st, a, b):
        """Boolean value for a == b, or None."""
        a, b = self.norm(st, a), self.norm(st, b)
        if L.isint(a) and L.isint(b):
            return self.decide(st, ("c", "eq", L.sub(a, b)))
        if a[0] == "b" and b[0] == "b":
            return ("b", a[1] == b[1])
        if self.isbool(a) and b[0] == "b":
            return a if b[1] else self.bnot(a)
        if self.isbool(b) and a[0] == "b":
            return b if a[1] else self.bnot(b)
        if a[0] == "str" and b[0] == "str":
            return ("b", a[1] == b[1])
        if a[0] == "en" and b[0] == "en":
            if a[2] != b[2]:
                return FALSE
            if not a[4] and not b[4] and not (a[3] and b[3] and a[3] != b[3]):
                return TRUE
            if len(a[4]) == len(b[4]) == 1:
                return self.value_eq(st, a[4][0][1], b[4][0][1])
            return None
        if a[0] in ("d", "s") and L.isint(b) and a[0] == "d":
            return ("deq", a, b)
        if b[0] == "d" and L.isint(a):
            return ("deq", b, a)
        if a[0] == "s" and b[0] == "en" and not b[4]:
            return ("veq", a, b[2])
        if b[0] == "s" and a[0] == "en" and not a[4]:
            return ("veq", b, a[2])
        if a[0] == "s" and a == b:
            return TRUE
        if a[0] == "d" and b[0] == "d":
            if a[1] == b[1]:
                return TRUE
            return ("s", "deq(%s,%s)" % tuple(sorted((a[1], b[1]))), "bool")
        return None

    def decide(self, st, c):
        if c[0] == "c":
            if c[1] == "ge":
                if st.ge(c[2]):
                    return TRUE
                if st.ge(L.addc(L.scale(c[2], -1), -1)):
                    return FALSE
            else:
                if st.eq0(c[2]):
                    return TRUE
                if st.ge(L.addc(c[2], -1)) or st.ge(L.addc(L.scale(c[2], -1), -1)):
                    return FALSE
                if c[2] in st.neq or L.scale(c[2], -1) in st.neq:
                    return FALSE
        if c[0] == "nb":
            d = self.decide(st, c[1])
            if d[0] == "b":
                return ("b", not d[1])
            return c
        return c

    def assume(self, st, c, truth):
        """States in which the boolean value has the given truth. `st` may be reused."""
        c = self.norm(st, c)
        if c[0] == "b":
            return [st] if c[1] == truth else []
        if c[0] == "nb":
            return self.assume(st, c[1], not truth)
        if c[0] == "c":
            a = c[2]
            if c[1] == "ge":
                good = st.add_ge(a) if truth else st.add_ge(L.addc(L.scale(a, -1), -1))
                return [st] if good else []
            if truth:
                return [st] if st.add_eq(a) else []
            return [st] if st.add_ne(a) else []
        if c[0] == "and":
            if truth:
                return [s2 for s in self.assume(st, c[1], True) for s2 in self.assume(s, c[2], True)]
            r = self.assume(st.copy(), c[1], False)
            for s in self.assume(st, c[1], True):
                r += self.assume(s, c[2], False)
            return r
        if c[0] == "or":
            return self.assume(st, ("and", self.bnot(c[1]), self.bnot(c[2])), not truth)
        if c[0] == "veq":
            return self.refine_variant(st, c[1], c[2], truth)
        if c[0] == "deq":
            d, n = c[1], c[2]
            if L.is_const(n):
                for val, nm in d[3]:
                    if val == n[1]:
                        return self.refine_variant(st, ("s", d[1], d[2]), nm, truth)
            return [st]
        if c[0] == "s":
            st.sub[c[1]] = ("b", truth)
            return [st]
        return [st]

    def refine_variant(self, st, symv, variant, truth):
        symv = self.norm(st, symv)
        if symv[0] == "en":
            return [st] if (symv[2] == variant) == truth else []
        if symv[0] != "s":
            return [st]
        name, ty = symv[1], symv[2]
        ex = st.notv.get(name, frozenset())
        if truth:
            if variant in ex:
                return []
            st.sub[name] = ("en", ty, variant, name, ())
            return [st]
        st.notv[name] = ex | {variant}
        return [st]

    # ---------------------------------------------------------------- control flow
    def cfg(self, body):
        n = body["name"]
        if n in self.cfgs:
            return self.cfgs[n]
        succ = []
        for b in body["blocks"]:
            t = b["t"]
            k = t["k"]
            s = []
            if k == "goto":
                s = [t["t"]]
            elif k == "switch":
                s = [x[1] for x in t["vals"]] + ([t["other"]] if t.get("other") is not None else [])
            elif k in ("drop", "assert", "call"):
                if t.get("t") is not None:
                    s = [t["t"]]
            succ.append(s)
        # dominators by DFS numbering, natural loops
        order, seen = [], set()

        def dfs(r):
            stack = [(r, iter(succ[r]))]
            seen.add(r)
            while stack:
                u, it = stack[-1]
                for v in it:
                    if v not in seen:
                        seen.add(v)
                        stack.append((v, iter(succ[v])))
                        break
                else:
                    order.append(u)
                    stack.pop()
        dfs(0)
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for u in rpo:
            for v in succ[u]:
                preds[v].append(u)
        idom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == rpo[0]:
                    return False
                b = idom[b]
        loops = {}
        for u in rpo:
            for v in succ[u]:
                if dom(v, u):
                    blk = loops.setdefault(v, {v})
                    work = [u]
                    while work:
                        x = work.pop()
                        if x not in blk:
                            blk.add(x)
                            work += preds[x]
        c = dict(succ=succ, loops=loops, rpo=rpo, idom=idom, preds=preds, dom=dom)
        self.cfgs[n] = c
        return c

    def call_fn(self, st, name, args, dt=None):
        """Interpret a body; list of (state, return value). dt: result type at the call site."""
        body = self.F.bodies[name]
        self.called.add(name)
        if self.opt.get("divergence"):
            k = None
            if name in self.stack or name in self.selfrec():
                try:
                    k = (name, self.canon(st, [self.norm(st, a) for a in args]))
                except RecursionError:
                    k = None
                if k is not None and k[1] is not None and k in self.active:
                    self.diverged.append(dict(fn=name, sp=body["sp"], st=st, kind="recursion", stack=list(self.stack)))
                    return []
            self.active.append(k)
        self.stack.append(name)
        self.dts.append(dt)
        try:
            return self.run_body(st, body, args)
        finally:
            self.stack.pop()
            self.dts.pop()
            if self.opt.get("divergence"):
                self.active.pop()

    def selfrec(self):
        """Functions of the library that can call themselves, directly or not (memoised per fact base)."""
        r = getattr(self.F, "_selfrec", None)
        if r is None:
            from callgraph import CallGraph
            G = CallGraph(self.F)
            adj = {n: {c for row in l for c in row[2] if c in self.F.bodies} for n, l in G.calls.items()}
            r = recursive(adj)
            self.F._selfrec = r
        return r

    def generic(self, ty):
        """A type parameter that is the result type of an enclosing function: its instance at the call site."""
        for i in range(len(self.stack) - 1, -1, -1):
            if not re.match(r"^[A-Z]\w*$", ty):
                break
            b = self.F.bodies.get(self.stack[i])
            if b and i < len(self.dts) and self.dts[i] and b["locals"][0]["ty"] == ty:
                ty = self.dts[i]
        return ty

    def run_body(self, st, body, args, fid=None):
        if fid is None:
            fid = next(self.ctr)
        for i, a in enumerate(args):
            st.env[("L", fid, i + 1)] = a
        backs, exits, rets = self.explore([(st, 0)], body, fid, None, None)
        out = []
        for s in rets:
            v = self.norm(s, s.env.get(("L", fid, 0), UNIT))
            if not (isinstance(fid, tuple) and fid[0] == "P"):
                s.env = {k: x for k, x in s.env.items() if k[1] != fid}
            out.append((s, v))
        return self.dedupe(out)

    def dedupe(self, outs):
        if len(outs) < 2:
            return outs
        seen, res = set(), []
        for s, v in outs:
            try:
                k = hash((repr(v), repr(sorted(s.heap.items(), key=repr)), repr(sorted(s.env.items(), key=repr)), s.facts, s.gw,
                          s.ev, repr(sorted(s.sub.items())), repr(s.bor), s.neq))
            except Exception:
                k = id(s)
            if k in seen:
                continue
            seen.add(k)
            res.append((s, v))
        return res

    def explore(self, work, body, fid, loop, head):
        """Run from the given (state, block) items inside a loop (or the whole body)."""
        cfg = self.cfg(body)
        backs, exits, rets = [], [], []
        work = list(work)
        first = True
        n = 0
        while work:
            st, b = work.pop()
            at_start = first
            first = False
            while True:
                n += 1
                self.steps += 1
                if self.steps > self.opt["max_steps"] or len(work) > self.opt["max_states"] or self.steps % 512 == 0 and self.opt.get("deadline") and time.time() > self.opt["deadline"]:
                    raise Budget(body["name"])
                if loop is not None and not at_start:
                    if b == head:
                        backs.append(st)
                        break
                    if b not in loop:
                        exits.append((st, b))
                        break
                if b in cfg["loops"] and not (at_start and b == head):
                    e, r = self.do_loop(st, body, fid, b)
                    rets += r
                    for s2, b2 in e:
                        work.append((s2, b2))
                    at_start = False
                    # items re-entering through the while loop are checked there
                    st = None
                    break
                at_start = False
                nxt = self.block(st, body, fid, b)
                if not nxt:
                    break
                ret = [s for s, x in nxt if x == "ret"]
                rets += ret
                nxt = [(s, x) for s, x in nxt if x != "ret"]
                if not nxt:
                    break
                for it in nxt[1:]:
                    work.append(it)
                st, b = nxt[0]
        return backs, exits, rets

    # ---- divergence: a state that comes back unchanged with no choice taken in between comes back for ever
    def live_at(self, body, h):
        k = (body["name"], h)
        if k not in self.lives:
            self.lives[k] = live_locals(body, h)
        return self.lives[k]

    def canon(self, st, roots):
        """The part of the state reachable from the roots, with heap names replaced by their order of discovery."""
        ids, todo, out = {}, [], []

        def walk(v):
            if not isinstance(v, tuple) or not v:
                return v
            if v[0] in ("rc", "wk", "bx", "H") and len(v) == 2 and isinstance(v[1], str):
                if v[1] not in ids:
                    ids[v[1]] = len(ids)
                    todo.append(("H", v[1]))
                return (v[0], ids[v[1]])
            if v[0] == "L" and len(v) == 3:
                if v not in ids:
                    ids[v] = len(ids)
                    todo.append(v)
                return ("L", ids[v])
            if v[0] == "gd" and len(v) == 4:
                return ("gd", 0, v[2], walk(v[3]))
            return tuple(walk(x) for x in v)
        for r in roots:
            out.append(walk(r))
        n = 0
        while todo:
            n += 1
            if n > 400:
                return None
            k = todo.pop(0)
            if k[0] == "H":
                out.append(walk(self.norm(st, st.heap.get(k[1], UNDEF))))
                out.append(repr(st.bor.get(k[1])) if isinstance(st.bor, dict) else None)
            else:
                out.append(walk(self.norm(st, st.env.get(k, UNDEF))))
        return repr((out, st.facts, st.neq, len(st.sub)))

    def loop_key(self, st, body, fid, h):
        try:
            live = sorted(self.live_at(body, h))
            return self.canon(st, [(i, self.norm(st, st.env.get(("L", fid, i), UNDEF))) for i in live])
        except RecursionError:
            return None

    def do_loop(self, st, body, fid, h):
        loop = self.cfg(body)["loops"][h]
        exits, rets = [], []
        work = [(st, 0, 0)]
        chain = {}      # id(state) -> keys of the choice-free iterations that led to it
        while work:
            s, n, nd = work.pop()
            snap = s.copy()
            npan = len(self.panics)
            keys = chain.pop(id(s), ())
            bk, ex, rt = self.explore([(s, h)], body, fid, loop, h)
            if not bk:
                exits += ex
                rets += rt
                continue
            if len(bk) + len(ex) + len(rt) == 1 and n < self.opt["unroll_det"]:
                if len(self.panics) == npan and self.opt.get("divergence"):
                    if not keys:
                        keys = (self.loop_key(snap, body, fid, h),)
                    k = self.loop_key(bk[0], body, fid, h)
                    if k is not None and k in keys:
                        self.diverged.append(dict(fn=body["name"], sp=body["blocks"][h]["t"].get("sp"), st=bk[0], kind="loop", stack=list(self.stack)))
                        continue
                    chain[id(bk[0])] = keys + (k,)
                work.append((bk[0], n + 1, nd))
                continue
            if nd < self.opt["unroll_nd"]:
                exits += ex
                rets += rt
                for x in bk:
                    work.append((x, n + 1, nd + 1))
                continue
            del self.panics[npan:]
            e, r, more = self.generalise(snap, body, fid, h, loop)
            exits += e
            rets += r
            for m in more:
                work.append((m, 0, nd))
        return exits, rets

    # structural differences between two values -> list of (path, a, b)
    def vdiff(self, a, b, path=()):
        if a == b:
            return []
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] and len(a) == len(b):
            if a[0] in ("ag", "en", "clo", "it"):
                if a[0] == "en" and a[2] != b[2]:
                    return [(path, a, b)]
                fa, fb = (a[-1], b[-1]) if a[0] != "it" else (None, None)
                if a[0] == "it":
                    out = []
                    for i in range(1, len(a)):
                        if a[i] != b[i]:
                            if isinstance(a[i], tuple) and isinstance(b[i], tuple):
                                out += self.vdiff(a[i], b[i], path + (("t", i),))
                            else:
                                return [(path, a, b)]
                    return out
                if a[:-1] != b[:-1] or [k for k, _ in fa] != [k for k, _ in fb]:
                    return [(path, a, b)]
                out = []
                for (k, x), (_, y) in zip(fa, fb):
                    if x != y:
                        out += self.vdiff(x, y, path + (("k", k),))
                return out
        return [(path, a, b)]

    def vset(self, v, path, new):
        if not path:
            return new
        k, i = path[0]
        if k == "t":
            return v[:i] + (self.vset(v[i], path[1:], new),) + v[i + 1:]
        return v[:-1] + (fset(v[-1], i, self.vset(fget(v[-1], i), path[1:], new)),)

    def vget(self, v, path):
        for k, i in path:
            v = v[i] if k == "t" else fget(v[-1], i)
        return v

    def state_diff(self, s0, s1):
        out = []
        for k, v in s0.env.items():
            w = s1.env.get(k, UNDEF)
            if w != v and v != UNDEF and w != UNDEF:
                for p, a, b in self.vdiff(self.norm(s1, v), self.norm(s1, w)):
                    out.append((k, p, a, b))
        for k, v in s0.heap.items():
            w = s1.heap.get(k, UNDEF)
            if w != v and w != UNDEF:
                for p, a, b in self.vdiff(self.norm(s1, v), self.norm(s1, w)):
                    out.append((("H", k), p, a, b))
        return out

    def getroot(self, s, root):
        return s.env.get(root, UNDEF) if root[0] == "L" else s.heap.get(root[1], UNDEF)

    def setroot(self, s, root, v):
        if root[0] == "L":
            s.env[root] = v
        else:
            s.heap[root[1]] = v

    def rootty(self, body, root):
        if root[0] == "L":
            return None
        return None

    def havoc_leaf(self, st, v, vb, lid, n, body, root):
        nm = "h%s.%d" % (lid, n)
        if L.isint(v):
            return L.sym(nm, st.ge(v) and self.leaf_unsigned(body, root))
        if self.isbool(v):
            self.imprecise.add(nm)
            return ("s", nm, "bool")
        if v[0] == "vec":
            ety = "?"
            for s in v[1] + (vb[1] if vb[0] == "vec" else ()):
                if s[0] == "opq":
                    ety = s[4]
            return ("vec", v[1] + (("loop", nm, L.sym("len(%s)" % nm, True)),))
        if v[0] == "rc":
            return ("rc", "c:" + nm)
        if v[0] == "wk":
            return ("wk", "c:" + nm)
        if v[0] == "bx":
            obj = nm + "*"
            inner = st.heap.get(v[1], ("s", obj, "?"))
            st.heap[obj] = ("rc", "c:" + nm) if inner[0] == "rc" else ("s", nm + ".*", "?")
            return ("bx", obj)
        self.imprecise.add(nm)
        ty = v[1] if v[0] in ("en", "ag") else v[2] if v[0] == "s" else "?"
        if v[0] == "u" or ty == "?":
            if vb[0] in ("en", "ag"):
                ty = vb[1]
            elif root[0] == "L":
                ty = body["locals"][root[2]]["ty"] if root[2] < len(body["locals"]) else "?"
        if v[0] == "ag" and ty == "()":
            ty = "?"
        return ("s", nm, ty if isinstance(ty, str) else "?")

    def leaf_unsigned(self, body, root):
        return True

    def generalise(self, st, body, fid, h, loop):
        lid = "%d" % next(self.ctr)
        changed = {}     # (root, path) -> (entry value, id)
        kname = "k" + lid
        ids = [0]
        npan = len(self.panics)

        def build(kmode, extra=(), gws=()):
            s = st.copy()
            for (root, path), (v0, n, c, vb) in changed.items():
                cur = self.getroot(s, root)
                if kmode and c is not None and L.isint(v0):
                    nv = L.add(v0, L.scale(L.sym(kname, True), c))
                else:
                    nv = self.havoc_leaf(s, v0, vb, lid, n, body, root)
                try:
                    self.setroot(s, root, self.vset(cur, path, nv))
                except Exception:
                    self.setroot(s, root, self.havoc_leaf(s, cur, vb, lid, n, body, root))
            s.gw = s.gw + tuple(gws)
            for f in extra:
                if not s.add_ge(f):
                    return None
            return s

        lim = self.early_limit(st, body, fid, h, loop)
        within = [] if lim is None else [L.addc(L.sub(lim, L.sym(kname, True)), -1)]
        backs = []
        for rnd in range(9):
            s1 = build(True, within)
            if s1 is None:
                break
            s1b = s1.copy()
            bk, ex, rt = self.explore([(s1, h)], body, fid, loop, h)
            new = False
            k1 = L.addc(L.sym(kname, True), 1)
            for b in bk:
                for key_, (v0, n, c, vb) in list(changed.items()):
                    if c is None:
                        continue
                    cur = self.vget_safe(b, key_[0], key_[1])
                    if cur is None or not L.isint(cur) or not b.eq0(L.sub(cur, L.add(v0, L.scale(k1, c)))):
                        changed[key_] = (v0, n, None, vb)
                        new = True
                for root, p, a, v in self.state_diff(s1b, b):
                    # only new leaves
                    covered = any(r == root and p[:len(pp)] == pp for (r, pp) in changed)
                    if covered:
                        continue
                    # a coarser leaf replaces finer ones
                    for key_ in [k for k in changed if k[0] == root and k[1][:len(p)] == p]:
                        del changed[key_]
                    v0 = self.vget(self.norm(st, self.getroot(st, root)), p) if True else a
                    if v0 is None:
                        v0 = a
                    c = None
                    if L.isint(v0) and L.isint(v) and L.isint(a):
                        d = L.sub(v, a)
                        if L.is_const(d):
                            c = d[1]
                    changed[(root, p)] = (v0, ids[0], c, v)
                    ids[0] += 1
                    new = True
            if not new:
                backs = bk
                break
        else:
            raise Budget("loop in " + body["name"])
        # bounds of the counters that are not affine in the turn number
        bounds = []
        for key_, (v0, n, c, vb) in list(changed.items()):
            root, p = key_
            if not L.isint(v0) or c is not None:
                continue
            hn = "h%s.%d" % (lid, n)
            ds = set()
            for b in backs:
                cur = self.vget_safe(b, root, p)
                if cur is None or not L.isint(cur):
                    ds.add(None)
                    continue
                d = L.sub(cur, L.sym(hn))
                ds.add(d[1] if L.is_const(d) else None)
            self.imprecise.add(hn)
            if None not in ds and ds:
                lo, hi = min(ds), max(ds)
                hs = L.sym(hn)
                k = L.sym(kname, True)
                if lo >= 0:
                    bounds.append(L.sub(hs, v0))
                if hi <= 0:
                    bounds.append(L.sub(v0, hs))
                bounds.append(L.sub(L.add(v0, L.scale(k, hi)), hs))
                bounds.append(L.sub(hs, L.add(v0, L.scale(k, lo))))
        # growth of vectors
        for key_, (v0, n, c, vb) in changed.items():
            if v0[0] != "vec":
                continue
            root, p = key_
            nm = "h%s.%d" % (lid, n)
            apps = []
            okp = True
            base = None
            for b in backs:
                cur = self.vget_safe(b, root, p)
                if cur is None or cur[0] != "vec":
                    okp = False
                    break
                pre = v0[1] + (("loop", nm, L.sym("len(%s)" % nm, True)),)
                if cur[1][:len(pre)] == pre:
                    apps.append((cur[1][len(pre):], b))
                else:
                    okp = False
                    break
            if okp:
                mx = 0
                mn = 99
                for a, b in apps:
                    cnt = len(a) if all(x[0] == "one" for x in a) else 99
                    mx, mn = max(mx, cnt), min(mn, cnt)
                if mx < 99:
                    k = L.sym(kname, True)
                    bounds.append(L.sub(L.scale(k, mx), L.sym("len(%s)" % nm)))
                    bounds.append(L.sub(L.sym("len(%s)" % nm), L.scale(k, mn)))
                self.loops[nm] = dict(kind="append", apps=apps, k=kname, fn=body["name"])
            else:
                self.loops[nm] = dict(kind="opaque", k=kname, fn=body["name"])
                self.imprecise.add(nm)
                self.imprecise.add("len(%s)" % nm)
                # the length relation to the initial part is lost as well
                changed[key_] = (("vec", ()), n, c, vb)
        # pass 2: with the counter; discover loop invariants and group writes
        bounds = bounds + within
        s2 = build(True, bounds)
        if s2 is None:
            # the segment is empty
            bounds = [x for x in bounds if x not in within]
            done = build(True, bounds + [L.sub(lim, L.sym(kname, True)), L.sub(L.sym(kname, True), lim)]) if lim is not None else None
            if done is None:
                return [], [], []
            self.close_k(done, kname, lim)
            return [], [], [done]
        s2b = s2.copy()
        ng = len(s2.gw)
        bk, ex, rt = self.explore([(s2, h)], body, fid, loop, h)
        # candidate invariants: conditions tested in the body, weakened by one step
        cands = []
        ent = build(True, bounds)
        for b in bk:
            for f in b.facts - s2b.facts:
                if any(k == kname or k.startswith("h" + lid + ".") or k.startswith("len(h" + lid + ".") for k in L.syms(f)):
                    for w in (0, 1):
                        g = L.addc(f, w)
                        if g not in cands:
                            cands.append(g)
        cands = cands[:24]
        # entry: k = 0 and havocked symbols at their entry value
        def at_entry(f):
            f = L.subst(f, kname, L.ZERO)
            for key_, (v0, n, c, vb) in changed.items():
                if L.isint(v0) and c is None:
                    f = L.subst(f, "h%s.%d" % (lid, n), v0)
                if v0[0] == "vec":
                    f = L.subst(f, "len(h%s.%d)" % (lid, n), L.ZERO)
            return f

        def at_back(f, b):
            f0 = f
            f = L.subst(f, kname, L.addc(L.sym(kname, True), 1))
            for key_, (v0, n, c, vb) in changed.items():
                root, p = key_
                if L.isint(v0) and c is None:
                    cur = self.vget_safe(b, root, p)
                    if cur is None or not L.isint(cur):
                        return None
                    f = L.subst(f, "h%s.%d" % (lid, n), L.subst(cur, "__", L.ZERO))
                if v0[0] == "vec":
                    nm = "h%s.%d" % (lid, n)
                    if ("len(%s)" % nm) in L.syms(f):
                        cur = self.vget_safe(b, root, p)
                        if cur is None or cur[0] != "vec":
                            return None
                        f = L.subst(f, "len(%s)" % nm, L.sub(self.veclen(cur), self.veclen(v0)))
            return f
        cands = [f for f in cands if st.ge(at_entry(f))]
        # iterators never run past their end
        invs = []
        for rnd in range(4):
            invs = list(cands)
            s = build(True, bounds + invs)
            if s is None:
                cands = []
                invs = []
                break
            sb = s.copy()
            bk, ex, rt = self.explore([(s, h)], body, fid, loop, h)
            keep = []
            for f in cands:
                good = True
                for b in bk:
                    g = at_back(f, b)
                    if g is None or not b.ge(g):
                        good = False
                        break
                if good:
                    keep.append(f)
            if len(keep) == len(cands):
                break
            cands = keep
        else:
            invs = []
            s = build(True, bounds)
            bk, ex, rt = self.explore([(s, h)], body, fid, loop, h)
        base = build(True, bounds + invs)
        more = []
        drv = None
        gws, univ = self.group_writes(st, base, bk, kname, len(base.gw), lim, drv)
        if lim is not None:
            # generic turn: strictly before the end of the segment
            s = build(True, bounds + invs, gws)
            if s is not None:
                bk, ex, rt = self.explore([(s, h)], body, fid, loop, h)
                self._record_append(changed, lid, bk, kname, fid)
            else:
                bk, ex, rt = [], [], []
            # only exits with the segment unfinished
            bounds = [x for x in bounds if x not in within]
            done = build(True, bounds + [f for f in invs if self.inv_at_end(f, kname, lim, base)]
                         + [L.sub(lim, L.sym(kname, True)), L.sub(L.sym(kname, True), lim)], gws)
            if done is not None:
                self.close_k(done, kname, lim)
                more = [done]
            return ex, rt, more
        s = build(True, bounds + invs, gws)
        if s is None:
            return [], [], []
        bk, ex, rt = self.explore([(s, h)], body, fid, loop, h)
        self._record_append(changed, lid, bk, kname, fid)
        return ex, rt, more

    def inv_at_end(self, f, kname, lim, base):
        return True

    def early_limit(self, st, body, fid, h, loop):
        """Turns the driving iterator spends in the segment it is at (None: not driven by a segmented list)."""
        s = st.copy()
        bk, ex, rt = self.explore([(s, h)], body, fid, loop, h)
        cand = None
        for b in bk:
            for root, p, a, v in self.state_diff(st, b):
                if not p or p[-1][0] != "t" or not (L.isint(a) and L.isint(v)):
                    continue
                d = L.sub(v, a)
                if not L.is_const(d) or d[1] not in (1, -1):
                    continue
                itv = self.vget(self.norm(st, self.getroot(st, root)), p[:-1])
                if itv and itv[0] == "it" and itv[1] in ("slice", "own"):
                    lim = self.current_segment(st, itv, d[1], p[-1][1])
                    if lim is not None:
                        return lim
        return None

    def _record_append(self, changed, lid, backs, kname, fid):
        for key_, (v0, n, c, vb) in changed.items():
            if v0[0] != "vec":
                continue
            nm = "h%s.%d" % (lid, n)
            info = self.loops.get(nm)
            if not info or info["kind"] != "append":
                continue
            root, p = key_
            apps = []
            for b in backs:
                cur = self.vget_safe(b, root, p)
                pre = v0[1] + (("loop", nm, L.sym("len(%s)" % nm, True)),)
                if cur is not None and cur[0] == "vec" and cur[1][:len(pre)] == pre:
                    apps.append((cur[1][len(pre):], b))
            info["apps"] = apps

    def close_k(self, s, kname, lim):
        """Replace the finished counter by its final value everywhere."""
        s.env = {k: subst_val(v, kname, lim) for k, v in s.env.items()}
        s.heap = {k: subst_val(v, kname, lim) for k, v in s.heap.items()}
        s.gw = tuple(subst_val(w, kname, lim) for w in s.gw)
        s.facts = frozenset(L.subst(f, kname, lim) for f in s.facts)

    def vget_safe(self, b, root, p):
        v = self.norm(b, self.getroot(b, root))
        try:
            for k, i in p:
                v = v[i] if k == "t" else fget(v[-1], i)
                if v is None:
                    return None
                v = self.norm(b, v)
            return v
        except Exception:
            return None

    def current_segment(self, st, itv, c, ti):
        """Length of the group segment the iterator is at (None: single segment / not a group)."""
        if itv[1] == "slice":
            vec = self.read(st, itv[2])
            if vec[0] != "vec":
                return None
            segs = vec[1]
            pos, end = itv[3], itv[4]
        else:
            segs = itv[2][1]
            pos, end = itv[3], itv[4]
        segs = self.normsegs(st, segs)
        if len(segs) < 2:
            return None
        off = L.ZERO
        if c == 1 and ti == 3:
            for s in segs:
                ln = self.seglen(s)
                if st.eq0(L.sub(pos, off)):
                    if s[0] == "one":
                        return None
                    # remaining part of the segment, bounded by the end of the iterator
                    if st.ge(L.sub(end, L.add(off, ln))):
                        return ln
                    if st.ge(L.sub(L.add(off, ln), end)):
                        return L.sub(end, off)
                    return None
                if st.ge(L.addc(L.sub(pos, off), -1)) and st.ge(L.addc(L.sub(L.add(off, ln), pos), -1)) and s[0] != "one":
                    if st.ge(L.sub(end, L.add(off, ln))):
                        return L.sub(L.add(off, ln), pos)
                    return L.sub(end, pos) if st.ge(L.sub(L.add(off, ln), end)) else None
                off = L.add(off, ln)
            return None
        if c == -1 and ti == 4:
            for s in segs:
                off = L.add(off, self.seglen(s))
            for s in reversed(segs):
                ln = self.seglen(s)
                if st.eq0(L.sub(end, off)):
                    if s[0] == "one":
                        return None
                    if st.ge(L.sub(L.sub(off, ln), pos)):
                        return ln
                    if st.ge(L.sub(pos, L.sub(off, ln))):
                        return L.sub(end, pos)
                    return None
                off = L.sub(off, ln)
            return None
        return None

    def group_writes(self, st, base, backs, kname, ng, lim, drv):
        """Universal effect of the completed turns on node groups."""
        k = L.sym(kname, True)
        cells = {}
        for bi, b in enumerate(backs):
            if lim is not None:
                # turns on later segments are handled when the segment is reached
                if not b.copy().add_ge(L.addc(L.sub(lim, k), -1)):
                    continue
                bb = b
            for w in b.gw[ng:]:
                if w[0] == "w1":
                    cells.setdefault((w[1], w[4]), []).append((bi, w[2], w[5], b))
                else:
                    cells.setdefault((w[1], w[4]), []).append((bi, None, None, b))
        out = []
        nb = 0
        for b in backs:
            if lim is not None and not b.copy().add_ge(L.addc(L.sub(lim, k), -1)):
                continue
            nb += 1
        for (g, fi), ws in cells.items():
            j = "j" + kname + str(fi)
            L.NONNEG.add(j)
            idxs = {w[1] for w in ws}
            if len(idxs) == 1 and None not in idxs:
                x = next(iter(idxs))
                co = dict(x[2]).get(kname, 0)
                a0 = L.subst(x, kname, L.ZERO)
                vals = {w[2] for w in ws}
                whole = len({w[0] for w in ws}) == nb
                if co == 1:
                    lo, hi = a0, L.add(a0, k)
                    kv = L.sub(L.sym(j), a0)
                elif co == -1:
                    lo, hi = L.addc(L.sub(a0, k), 1), L.addc(a0, 1)
                    kv = L.sub(a0, L.sym(j))
                else:
                    out.append(("wr", g, L.const(-10 ** 9), L.const(10 ** 9), fi, None, j))
                    continue
                # last write of each turn
                if whole and len(vals) == 1:
                    v = subst_val(next(iter(vals)), kname, kv)
                else:
                    v = None
                out.append(("wr", g, lo, hi, fi, v, j))
            else:
                out.append(("wr", g, L.const(-10 ** 9), L.const(10 ** 9), fi, None, j))
        return out, None

    # ---------------------------------------------------------------- blocks
    def block(self, st, body, fid, b):
        bl = body["blocks"][b]
        for s in bl["s"]:
            k = s["k"]
            if k == "assign":
                pl = s["pl"]
                ty = body["locals"][pl["l"]]["ty"] if not pl["p"] else (pl["p"][-1][3] if pl["p"][-1][0] == "f" else "?")
                v = self.rvalue(st, fid, s["rv"], body, ty)
                if s["rv"]["k"] == "bin" and v[0] == "cmp":
                    pass
                self.assign(st, fid, pl, v, body, s["sp"])
            elif k == "dead":
                if not (isinstance(fid, tuple) and fid[0] == "P"):
                    st.env.pop(("L", fid, s["l"]), None)
            elif k == "setdiscr":
                pass
        t = bl["t"]
        k = t["k"]
        if k == "goto":
            return [(st, t["t"])]
        if k == "return":
            return [(st, "ret")]
        if k in ("unreachable", "resume"):
            return []
        if k == "drop":
            try:
                v = self.read_place(st, fid, t["pl"])
                self.release(st, v)
            except Unsupported:
                pass
            return [(st, t["t"])]
        if k == "switch":
            return self.switch(st, body, fid, t)
        if k == "assert":
            if t.get("msg") == "other" or t.get("msg", "").startswith("other"):
                return [(st, t["t"])]
            c = self.operand(st, fid, t["o"], body)
            bad = self.assume(st.copy(), c, not t["exp"])
            for s in bad:
                self.panic(s, t.get("msg", "assert"), body, t["sp"])
            good = self.assume(st, c, t["exp"])
            return [(s, t["t"]) for s in good]
        if k == "call":
            return self.call(st, body, fid, t)
        raise Unsupported("term " + k)

    def assign(self, st, fid, pl, v, body, sp):
        c = self.place(st, fid, pl)
        if c[0] == "slice":
            return
        loc = c[1]
        if loc[0][0] == "H" and loc[1]:
            st.notes.setdefault("w", ())
            st.notes["w"] = st.notes["w"] + ((loc[0][1], loc[1][0][1] if loc[1][0][0] == "f" else None, body["name"], sp),)
        self.write(st, loc, v)

    def panic(self, st, msg, body, sp, exact=True):
        self.panics.append(dict(msg=msg, fn=body["name"] if isinstance(body, dict) else body, sp=sp, st=st, stack=tuple(self.stack)))

    def release(self, st, v):
        v = self.norm(st, v)
        if not isinstance(v, tuple) or not v:
            return
        if v[0] == "gd":
            st.bor.pop(v[1], None)
            return
        if v[0] in ("ag", "clo"):
            for _, x in v[-1]:
                self.release(st, x)
        elif v[0] == "en":
            for _, x in v[4]:
                self.release(st, x)

    def switch(self, st, body, fid, t):
        v = self.norm(st, self.operand(st, fid, t["o"], body))
        vals = [(int(a), b) for a, b in t["vals"]]
        other = t.get("other")
        res = []
        if self.isbool(v) or v[0] in ("veq", "deq"):
            v = self.decide(st, v)
            rest = {0, 1}
            for a, b in vals:
                rest.discard(a)
                s = st.copy()
                for s2 in self.assume(s, v, bool(a)):
                    s2.path = s2.path + ((t["sp"], a),)
                    res.append((s2, b))
            if other is not None:
                for a in rest:
                    for s2 in self.assume(st.copy(), v, bool(a)):
                        s2.path = s2.path + ((t["sp"], a),)
                        res.append((s2, other))
            return res
        if L.isint(v):
            if L.is_const(v):
                for a, b in vals:
                    if a == v[1]:
                        return [(st, b)]
                return [(st, other)] if other is not None else []
            for a, b in vals:
                s = st.copy()
                if s.add_eq(L.addc(v, -a)):
                    s.path = s.path + ((t["sp"], a),)
                    res.append((s, b))
            if other is not None:
                s = st
                good = True
                for a, b in vals:
                    if not s.add_ne(L.addc(v, -a)):
                        good = False
                        break
                if good and body["blocks"][other]["t"]["k"] != "unreachable":
                    s.path = s.path + ((t["sp"], "other"),)
                    res.append((s, other))
            return res
        if v[0] == "d":
            name, ty, vars_ = v[1], v[2], dict(v[3])
            ex = st.notv.get(name, frozenset())
            left = [nm for n, nm in v[3] if nm not in ex]
            for a, b in vals:
                nm = vars_.get(a)
                if nm is None or nm in ex:
                    continue
                if nm in left:
                    left.remove(nm)
                s = st.copy()
                s.sub[name] = ("en", ty, nm, name, ())
                s.path = s.path + ((t["sp"], nm),)
                res.append((s, b))
            if other is not None and left and body["blocks"][other]["t"]["k"] != "unreachable":
                s = st
                if len(left) == 1:
                    s.sub[name] = ("en", ty, left[0], name, ())
                else:
                    s.notv[name] = ex | {vars_[a] for a, b in vals if a in vars_}
                s.path = s.path + ((t["sp"], "|".join(left)),)
                res.append((s, other))
            return res
        if v[0] == "cmp":
            # discriminant of Ordering: -1, 0, 1
            for a, b in vals + ([(None, other)] if other is not None else []):
                for val in ([a] if a is not None else [x for x in (-1, 0, 1) if x not in [y for y, _ in vals]]):
                    s = st.copy()
                    val = val if val <= 1 else val - 256
                    g = s.add_eq(v[1]) if val == 0 else s.add_ge(L.addc(v[1] if val > 0 else L.scale(v[1], -1), -1))
                    if g:
                        res.append((s, b))
            return res
        # unknown: every successor
        for a, b in vals:
            res.append((st.copy(), b))
        if other is not None and body["blocks"][other]["t"]["k"] != "unreachable":
            res.append((st, other))
        return res

    # ---------------------------------------------------------------- calls
    def devirt(self, trait_method):
        """Body implementing a node / document trait method."""
        tr, m = trait_method.rsplit("::", 1)
        tr = tr.split("<")[0]
        short = tr.split("::")[-1]
        if short in NODE_TRAITS or short == "IDocumentTrait":
            for self_ty, name in self.F.trait_impls.get((tr, m), []):
                if name in self.F.bodies:
                    return name
            if trait_method in self.F.bodies:
                return trait_method
        return None

    def resolve(self, f):
        if f.get("virt"):
            d = self.devirt(f["virt"])
            return d or f["virt"]
        p = f.get("res") or f.get("path")
        if p in self.F.bodies:
            # a trait method of a node trait called on Self: use the implementation
            if f.get("trait"):
                d = self.devirt(p)
                if d:
                    return d
            return p
        if f.get("trait") or p.split("::")[-2:-1]:
            d = self.devirt(p)
            if d:
                return d
        return p

    def call(self, st, body, fid, t):
        args = [self.norm(st, self.operand(st, fid, a, body)) for a in t["a"]]
        f = t["f"]
        dest = t["d"]
        outs = self.do_call(st, body, t, f, args)
        res = []
        for s, v in outs:
            if t.get("t") is None:
                continue
            self.assign(s, fid, dest, v, body, t["sp"])
            res.append((s, t["t"]))
        return res

    def do_call(self, st, body, t, f, args):
        if "path" not in f:
            return self.opaque(st, body, t, "fnptr", args)
        name = self.resolve(f)
        key_ = simp(name)
        hook = self.opt["on_call"]
        if hook:
            r = hook(self, st, name, key_, args, t, body)
            if r is not None:
                return r
        if t.get("t") is None and (key_.startswith("panicking::") or key_ in ("rt::begin_panic", "rt::panic_fmt") or "panic" in key_):
            self.panic(st, "panic", body, t["sp"])
            return []
        m = self.models.get(key_)
        if m is not None and name not in self.F.bodies:
            r = m(self, st, t, args, body)
            if r is not None:
                return r
        if name in self.F.bodies and "{closure" in name.split("::")[-1] and len(args) == 2 and f["path"].split("::")[-1] in ("call", "call_mut", "call_once"):
            # Fn-trait call resolved to the closure: the arguments come as one tuple
            x = self.norm(st, args[1])
            if x[0] == "ag":
                return self.call_value(st, args[0], [v for _, v in x[3]], t, body)
        if name in self.F.bodies:
            inl = self.opt["inline"]
            if self.stack.count(name) < self.opt["recurse"] and len(self.stack) < self.opt["max_depth"] and (inl is None or inl(name)):
                b = self.F.bodies[name]
                if b["kind"] in ("Fn", "AssocFn", "Ctor") or True:
                    return self.call_fn(st, name, args, t.get("dt"))
            return self.opaque(st, body, t, key_, args)
        last = key_.split("::")[-1]
        for pref, mm in self.prefix_models:
            if re.search(pref, key_):
                r = mm(self, st, t, args, body)
                if r is not None:
                    return r
        # call of a local closure through Fn* traits
        return self.opaque(st, body, t, key_, args)

    def call_value(self, st, fv, args, t, body):
        """Call a closure / function value with unpacked arguments."""
        fv = self.norm(st, fv)
        n = 0
        while fv[0] in ("r", "bx") and n < 6:
            fv2 = self.read(st, fv[1]) if fv[0] == "r" else self.norm(st, st.heap.get(fv[1], UNDEF))
            if fv2[0] == "clo":
                return self.run_closure(st, fv2, fv, args, t, body)
            fv = fv2
            n += 1
        if fv[0] == "clo":
            return self.run_closure(st, fv, None, args, t, body)
        if fv[0] == "fn":
            return self.do_call(st, body, t, dict(path=fv[1], virt=fv[2]) if fv[2] else dict(path=fv[1]), args)
        st.ev = st.ev + (("usercall", body["name"], t["sp"], tuple(sorted({b[1] for b in st.bor.values()}))),)
        self.usercalls.append((body["name"], t["sp"], sorted({str(b[0]) for b in st.bor.values() if b[1] == "w"}), st))
        hook = self.opt.get("on_usercall")
        if hook:
            r = hook(self, st, fv, args, t, body)
            if r is not None:
                return r
        for a in args:
            self.havoc_arg(st, a, "cb")
        nm = self.fresh("cb")
        return [(st, self.mksym(st, nm, t["dt"] if t["f"].get("path", "").split("::")[-1].startswith("call") else "?"))]

    def run_closure(self, st, clo, ref, args, t, body):
        name = clo[1]
        if name not in self.F.bodies or self.stack.count(name) >= self.opt["recurse"] or len(self.stack) > self.opt["max_depth"]:
            for _, x in clo[2]:
                self.havoc_arg(st, x, "clo")
            for a in args:
                self.havoc_arg(st, a, "clo")
            return [(st, self.mksym(st, self.fresh("clo", True), self.closure_ret(name)))]
        b = self.F.bodies[name]
        ty = b["locals"][1]["ty"]
        if ty.startswith("&"):
            if ref is None:
                obj = self.fresh("clo") + "*"
                st.heap[obj] = clo
                selfv = ("r", (("H", obj), ()))
            else:
                selfv = ("r", ref[1]) if ref[0] == "r" else ("r", (("H", ref[1]), ()))
        else:
            selfv = clo
        return self.call_fn(st, name, [selfv] + list(args))

    def closure_ret(self, name):
        b = self.F.bodies.get(name)
        return b["locals"][0]["ty"] if b else "?"

    def havoc_arg(self, st, v, why):
        """Forget what can be written through a value handed to unknown code."""
        v = self.norm(st, v)
        if v[0] == "r":
            loc = v[1]
            cur = self.read(st, loc)
            if cur[0] in ("rc", "wk", "fn", "str", "gd"):
                return
            if cur[0] == "vec":
                nm = self.fresh("hv", True)
                self.imprecise.add("len(%s)" % nm)
                self.write(st, loc, ("vec", (("opq", nm, L.ZERO, L.sym("len(%s)" % nm, True), self._ety(cur)),)))
            elif L.isint(cur):
                self.write(st, loc, L.sym(self.fresh("hv", True), True))
            elif cur[0] in ("en", "s"):
                self.write(st, loc, ("s", self.fresh("hv", True), cur[1] if cur[0] == "en" else cur[2]))
            elif cur[0] == "b" or self.isbool(cur):
                self.write(st, loc, ("s", self.fresh("hv", True), "bool"))
            elif cur[0] == "it":
                self.write(st, loc, ("it", "opq", self.fresh("hv", True), "?"))
            elif cur[0] == "ag" and not cur[1].endswith("parser::Node"):
                for i, x in cur[3]:
                    sub = (loc[0], loc[1] + (("f", i, "?"),))
                    self.havoc_arg(st, ("r", sub), why)
        elif v[0] == "clo":
            for _, x in v[2]:
                self.havoc_arg(st, x, why)
        elif v[0] == "bx":
            cur = st.heap.get(v[1])
            if cur is not None and cur[0] == "clo":
                self.havoc_arg(st, cur, why)

    def opaque(self, st, body, t, key_, args):
        self.unknown_calls[key_] = self.unknown_calls.get(key_, 0) + 1
        tys = t.get("at") or []
        pure = True
        for i, a in enumerate(args):
            ty = tys[i] if i < len(tys) else ""
            if ty.startswith("&") and re.match(r"^&('\w+ )?mut ", ty):
                self.havoc_arg(st, a, "opaque")
                pure = False
            elif a[0] == "clo" or "{closure@" in ty or "dyn " in ty and "Fn" in ty:
                self.havoc_arg(st, a, "opaque")
                pure = False
            elif a[0] == "gd":
                self.release(st, a)
        dt = t["dt"]
        if pure and not any(x in key_ for x in ("Doc::parse", "Node::build", "clone_node", "create_text_node", "Mutex", "fnptr")):
            nm = "%s(%s)" % (key_, ",".join(self.argkey(st, a) for a in args))
            if len(nm) > 160:
                import hashlib
                nm = nm[:60] + "#" + hashlib.sha1(nm.encode()).hexdigest()[:10]
        else:
            nm = self.fresh(key_, not pure)
        if any(self.argimp(st, a) for a in args):
            self.imprecise.add(nm)
        return [(st, self.mksym(st, nm, dt))]

    def argkey(self, st, a, d=0):
        a = self.norm(st, a)
        if d > 3:
            return "."
        if a[0] == "r":
            try:
                return "&" + self.argkey(st, self.read(st, a[1]), d + 1)
            except Exception:
                return "&?"
        if a[0] == "bx":
            return "B" + self.argkey(st, st.heap.get(a[1], UNDEF), d + 1)
        if a[0] == "sl":
            return "[%s;%s;%s]" % (self.argkey(st, self.read(st, a[1]), d + 1), L.show(a[2]), L.show(a[3]))
        return key(a)

    def argimp(self, st, a):
        return False


def key(v):
    if L.isint(v):
        return L.show(v)
    if v[0] == "s":
        return v[1]
    if v[0] == "str":
        return repr(v[1])
    if v[0] == "en":
        return "%s(%s)" % (v[2], ",".join(key(x) for _, x in v[4]) if v[4] else (v[3] or ""))
    return repr(v)
