"""Abstract transformers of the standard library and rphtml callees used by the crate."""
import re
import lin as L
from facts import simp, thead, targs, pointee, split_top

MODELS = {}
PREFIX = []


def model(*keys):
    def deco(f):
        for k in keys:
            MODELS[k] = f
        return f
    return deco


def prefix(rx):
    def deco(f):
        PREFIX.append((rx, f))
        return f
    return deco


def A():
    import absint
    return absint


# ------------------------------------------------------------------ helpers
def under(I, st, v):
    """Follow references down to the value."""
    v = I.norm(st, v)
    n = 0
    while v[0] == "r" and n < 6:
        v = I.read(st, v[1])
        n += 1
    return v


def vloc(I, st, v):
    """Location of the list behind a (possibly nested) reference; None when it is not a list."""
    v = I.norm(st, v)
    n = 0
    while v[0] == "r" and n < 6:
        x = I.read(st, v[1])
        if x[0] == "vec":
            return v[1], x
        if x[0] == "bx":
            y = I.norm(st, st.heap.get(x[1], ("u",)))
            if y[0] == "vec":
                return (("H", x[1]), ()), y
        v = x
        n += 1
    if v[0] == "bx":
        y = I.norm(st, st.heap.get(v[1], ("u",)))
        if y[0] == "vec":
            return (("H", v[1]), ()), y
    return None


def slice_of(I, st, v):
    """(loc, start, len, vec) of a slice or reference to a list."""
    v = I.norm(st, v)
    if v[0] == "r":
        x = I.read(st, v[1])
        if x[0] == "sl":
            v = x
        elif x[0] == "r":
            return slice_of(I, st, x)
    if v[0] == "sl":
        x = I.read(st, v[1])
        if x[0] == "vec":
            return v[1], v[2], v[3], x
        return None
    lv = vloc(I, st, v)
    if lv:
        return lv[0], L.ZERO, I.veclen(lv[1]), lv[1]
    return None


def setvec(I, st, loc, segs):
    I.write(st, loc, ("vec", I.normsegs(st, segs)))


def symopt(I, st, v, names=("None", "Some")):
    """Case split of an Option / Result value: list of (state, variant, payload or None)."""
    v = I.norm(st, v)
    if v[0] == "r":
        v = I.read(st, v[1])
    if v[0] == "en":
        x = A().fget(v[4], 0)
        if x is None and v[3] is not None and v[2] != "None":
            ty = targs(v[1])
            pt = ty[0] if ty else "?"
            if v[2] == "Err" and len(ty) > 1:
                pt = ty[1]
            x = I.mksym(st, "%s.%s.0" % (v[3], v[2]), pt, v[3] in I.imprecise)
        return [(st, v[2], x)]
    if v[0] == "s":
        out = []
        ty = targs(v[2])
        for nm in names:
            if nm in st.notv.get(v[1], ()):
                continue
            s = st.copy()
            s.sub[v[1]] = ("en", v[2], nm, v[1], ())
            x = None
            if nm != "None":
                pt = ty[0] if ty else "?"
                if nm == "Err":
                    pt = ty[1] if len(ty) > 1 else "?"
                x = I.mksym(s, "%s.%s.0" % (v[1], nm), pt, v[1] in I.imprecise)
            out.append((s, nm, x))
        return out
    # unknown: both
    out = []
    for nm in names:
        s = st.copy()
        out.append((s, nm, None if nm == "None" else ("s", I.fresh("pl", True), "?")))
    return out


RES = ("Ok", "Err")


def opt_names(t, i=0):
    at = (t.get("at") or [""])
    ty = at[i] if i < len(at) else ""
    return RES if "Result" in thead(ty.lstrip("&")) or thead(pointee(ty) if ty[:1] == "&" else ty) == "Result" else ("None", "Some")


def refto(I, st, v):
    obj = I.fresh("tmp") + "*"
    st.heap[obj] = v
    return ("r", (("H", obj), ()))


def vals(outs):
    return outs


def A_some(v, t):
    return A().some(v, t["dt"])


# ------------------------------------------------------------------ Box / Rc / RefCell
@model("Box::new", "Box::pin")
def box_new(I, st, t, a, b):
    obj = I.fresh("box")
    st.heap[obj] = a[0]
    return [(st, ("bx", obj))]


@model("Box::new_uninit")
def box_uninit(I, st, t, a, b):
    obj = I.fresh("box")
    st.heap[obj] = ("ag", "?", None, ())
    return [(st, ("bx", obj))]


@model("boxed::box_assume_init_into_vec_unsafe", "slice::into_vec", "[]::into_vec")
def box_into_vec(I, st, t, a, b):
    v = a[0]
    x = I.norm(st, st.heap.get(v[1], ("u",))) if v[0] == "bx" else ("u",)
    n = 0
    while x[0] == "ag" and n < 6:
        fl = x[3]
        if not fl:
            break
        x = I.norm(st, fl[-1][1])
        n += 1
    if x[0] == "vec":
        return [(st, ("vec", I.normsegs(st, x[1])))]
    return None


@model("Box::downcast")
def downcast(I, st, t, a, b):
    return [(st, A().ok(a[0], t["dt"]))]


@model("Box as Drop::drop")
def nop(I, st, t, a, b):
    return [(st, A().UNIT)]


@model("Rc::new", "Arc::new")
def rc_new(I, st, t, a, b):
    c = I.fresh("new")
    st.heap[c] = a[0]
    return [(st, ("rc", c))]


@model("RefCell::new", "Mutex::new", "hint::must_use", "T as Into::into", "T as From::from", "I as IntoIterator::into_iter")
def ident(I, st, t, a, b):
    if simp(t["f"].get("res") or t["f"]["path"]).endswith("into_iter"):
        r = to_iter(I, st, a[0], t)
        return [(st, r)] if r is not None else [(st, a[0])]
    key = simp(t["f"].get("res") or t["f"]["path"])
    if key.startswith("T as") and (t.get("at") or [""])[0].lstrip("&") != t["dt"].lstrip("&"):
        return None
    return [(st, a[0])]


@model("Rc as Clone::clone", "Arc as Clone::clone")
def rc_clone(I, st, t, a, b):
    return [(st, under(I, st, a[0]))]


@model("Rc as Deref::deref", "Arc as Deref::deref")
def rc_deref(I, st, t, a, b):
    v = under(I, st, a[0])
    if v[0] == "rc":
        return [(st, ("r", (("H", v[1]), ())))]
    return None


@model("Rc::downgrade")
def rc_down(I, st, t, a, b):
    v = under(I, st, a[0])
    if v[0] == "rc":
        return [(st, ("wk", v[1]))]
    return None


@model("Rc::ptr_eq")
def rc_ptr_eq(I, st, t, a, b):
    return same(I, st, a[0], a[1])


@model("Weak as Clone::clone")
def wk_clone(I, st, t, a, b):
    return [(st, under(I, st, a[0]))]


@model("Weak::upgrade")
def wk_up(I, st, t, a, b):
    v = under(I, st, a[0])
    if v[0] == "wk":
        return [(st, A().some(("rc", v[1]), t["dt"]))]
    if v[0] == "s":
        return [(st, A().some(("rc", "c:up(%s)" % v[1]), t["dt"]))]
    return None


def same_cell(I, st, x, y):
    """True / False / lin / None(unknown)"""
    if x == y:
        return True
    gx, gy = isinstance(x, tuple) and x[0] == "gc", isinstance(y, tuple) and y[0] == "gc"
    if gx and gy:
        if x[1] != y[1]:
            return False
        return L.sub(x[2], y[2])
    known = st.notes.get("cells", ())
    kx = gx or x in known or (isinstance(x, str) and x.startswith("new~"))
    ky = gy or y in known or (isinstance(y, str) and y.startswith("new~"))
    if kx and ky:
        return False
    return None


def same(I, st, a, b):
    x, y = under(I, st, a), under(I, st, b)
    if x[0] == "bx":
        x = I.norm(st, st.heap.get(x[1], ("u",)))
    if y[0] == "bx":
        y = I.norm(st, st.heap.get(y[1], ("u",)))
    if x[0] in ("rc", "wk") and y[0] in ("rc", "wk"):
        r = same_cell(I, st, x[1], y[1])
        if r is True or r is False:
            return [(st, ("b", r))]
        if r is not None:
            return [(st, I.decide(st, ("c", "eq", r)))]
        k = tuple(sorted((str(x[1]), str(y[1]))))
        return [(st, ("s", "same(%s,%s)" % k, "bool"))]
    return None


@model("Node::is_same")
def is_same(I, st, t, a, b):
    return same(I, st, a[0], a[1])


@model("Node::is_document")
def is_document(I, st, t, a, b):
    v = a[0]
    if v[0] == "r" and "node_type" in I.node_idx:
        x = I.read(st, (v[1][0], v[1][1] + (("f", I.node_idx["node_type"], I.node_fty["node_type"]),)))
        r = []
        x = I.norm(st, x)
        if x[0] == "en":
            return [(st, ("b", x[2] in ("AbstractRoot",)))]
    return None


def check_borrow(I, st, cell, path, kind, b, t):
    for gid, (c, k, fn, sp, pth) in st.bor.items():
        if (kind == "r" and k == "r") or pth != path:
            continue
        r = same_cell(I, st, c, cell)
        if r is not True and r is not False and r is not None:
            r = True if st.eq0(r) else None if L.feasible(st.facts, (r, L.scale(r, -1))) else False
        if r is True:
            st.ev = st.ev + (("conflict", k + kind, str(cell), b["name"], t["sp"], fn, sp),)
            I.conflicts.append((k + kind, str(cell), b["name"], t["sp"], fn, sp, st))


def touch(I, st, v, kind, b, t):
    """A summarised callee borrows this node for its own duration."""
    x = under(I, st, v)
    if x[0] == "bx":
        x = I.norm(st, st.heap.get(x[1], ("u",)))
    if x[0] == "rc":
        check_borrow(I, st, x[1], (), kind, b, t)


@model("RefCell::borrow", "RefCell::borrow_mut")
def borrow(I, st, t, a, b):
    key = simp(t["f"].get("res") or t["f"]["path"])
    kind = "w" if key.endswith("mut") else "r"
    v = a[0]
    n = 0
    while v[0] == "r" and n < 4:
        x = I.read(st, v[1]) if v[1][0][0] == "L" or v[1][1] else None
        if x is not None and x[0] in ("r", "rc"):
            v = x
            n += 1
            continue
        break
    if v[0] == "rc":
        loc = (("H", v[1]), ())
    elif v[0] == "r":
        loc = v[1]
    else:
        d = I.deref(st, v)
        loc = d[1]
    if loc[0][0] == "H":
        cell = loc[0][1]
        path = tuple(x[:2] for x in loc[1])
        check_borrow(I, st, cell, path, kind, b, t)
        gid = next(I.ctr)
        st.bor[gid] = (cell, kind, b["name"], t["sp"], path)
    else:
        gid = next(I.ctr)
    return [(st, ("gd", gid, kind, loc))]


@model("Ref as Deref::deref", "RefMut as Deref::deref", "RefMut as DerefMut::deref_mut")
def guard_deref(I, st, t, a, b):
    v = under_gd(I, st, a[0])
    if v is not None:
        return [(st, ("r", v[3]))]
    return None


def under_gd(I, st, v):
    v = I.norm(st, v)
    n = 0
    while v[0] == "r" and n < 5:
        v = I.read(st, v[1])
        n += 1
    return v if v[0] == "gd" else None


# ------------------------------------------------------------------ calls through Fn traits
@model("Box as Fn::call", "Box as FnMut::call_mut", "Fn::call", "FnMut::call_mut", "FnOnce::call_once", "& as Fn::call",
       "&mut as FnMut::call_mut", "Box as FnOnce::call_once")
def fn_call(I, st, t, a, b):
    args = []
    if len(a) > 1:
        x = I.norm(st, a[1])
        if x[0] == "ag":
            args = [v for _, v in x[3]]
        else:
            args = [x]
    return I.call_value(st, a[0], args, t, b)


# ------------------------------------------------------------------ Vec
@model("Vec::new", "Vec::with_capacity", "Vec as Default::default", "VecDeque::with_capacity", "VecDeque::new")
def vec_new(I, st, t, a, b):
    return [(st, ("vec", ()))]


@model("Vec::push", "VecDeque::push_back")
def vec_push(I, st, t, a, b):
    lv = vloc(I, st, a[0])
    if not lv:
        return None
    setvec(I, st, lv[0], lv[1][1] + (("one", a[1]),))
    return [(st, A().UNIT)]


@model("VecDeque::push_front")
def vec_push_front(I, st, t, a, b):
    lv = vloc(I, st, a[0])
    if not lv:
        return None
    setvec(I, st, lv[0], (("one", a[1]),) + lv[1][1])
    return [(st, A().UNIT)]


@model("Vec::len", "VecDeque::len")
def vec_len(I, st, t, a, b):
    lv = vloc(I, st, a[0])
    return [(st, I.veclen(lv[1]))] if lv else None


@model("Vec::is_empty", "VecDeque::is_empty")
def vec_is_empty(I, st, t, a, b):
    lv = vloc(I, st, a[0])
    if not lv:
        return None
    return [(st, I.decide(st, ("c", "eq", I.veclen(lv[1]))))]


@model("[]::len", "[T]::len")
def sl_len(I, st, t, a, b):
    s = slice_of(I, st, a[0])
    return [(st, s[2])] if s else None


@model("[]::is_empty")
def sl_is_empty(I, st, t, a, b):
    s = slice_of(I, st, a[0])
    return [(st, I.decide(st, ("c", "eq", s[2])))] if s else None


@model("Vec::pop")
def vec_pop(I, st, t, a, b):
    lv = vloc(I, st, a[0])
    if not lv:
        return None
    loc, v = lv
    ln = I.veclen(v)
    out = []
    z = st.copy()
    if z.add_eq(ln):
        out.append((z, A().none(t["dt"])))
    if st.add_ge(L.addc(ln, -1)):
        for s, left, right in I.split(st, v[1], L.addc(ln, -1)):
            if not right:
                continue
            for s2, x, rest in I.first_of(s, right):
                if x is None:
                    continue
                setvec(I, s2, loc, left)
                out.append((s2, A().some(x, t["dt"])))
    return out


@model("Vec::remove")
def vec_remove(I, st, t, a, b):
    lv = vloc(I, st, a[0])
    if not lv or not L.isint(a[1]):
        return None
    loc, v = lv
    out = []
    for s, left, right in I.split(st, v[1], a[1]):
        if right is None:
            I.panic(s, "Vec::remove out of range", b, t["sp"])
            continue
        for s2, x, rest in I.first_of(s, right):
            if x is None:
                I.panic(s2, "Vec::remove out of range", b, t["sp"])
                continue
            setvec(I, s2, loc, left + rest)
            out.append((s2, x))
    return out


@model("Vec::insert")
def vec_insert(I, st, t, a, b):
    lv = vloc(I, st, a[0])
    if not lv or not L.isint(a[1]):
        return None
    loc, v = lv
    out = []
    for s, left, right in I.split(st, v[1], a[1]):
        if right is None:
            I.panic(s, "Vec::insert out of range", b, t["sp"])
            continue
        setvec(I, s, loc, left + (("one", a[2]),) + right)
        out.append((s, A().UNIT))
    return out


@model("Vec::clear")
def vec_clear(I, st, t, a, b):
    lv = vloc(I, st, a[0])
    if not lv:
        return None
    setvec(I, st, lv[0], ())
    return [(st, A().UNIT)]


@model("Vec::append")
def vec_append(I, st, t, a, b):
    x, y = vloc(I, st, a[0]), vloc(I, st, a[1])
    if not x or not y:
        return None
    setvec(I, st, x[0], x[1][1] + y[1][1])
    setvec(I, st, y[0], ())
    return [(st, A().UNIT)]


@model("Vec::truncate")
def vec_trunc(I, st, t, a, b):
    lv = vloc(I, st, a[0])
    if not lv or not L.isint(a[1]):
        return None
    out = []
    for s, left, right in I.split(st, lv[1][1], a[1]):
        setvec(I, s, lv[0], left)
        out.append((s, A().UNIT))
    return out


@model("Vec::split_off")
def vec_split_off(I, st, t, a, b):
    lv = vloc(I, st, a[0])
    if not lv or not L.isint(a[1]):
        return None
    out = []
    for s, left, right in I.split(st, lv[1][1], a[1]):
        if right is None:
            I.panic(s, "split_off out of range", b, t["sp"])
            continue
        setvec(I, s, lv[0], left)
        out.append((s, ("vec", I.normsegs(s, right))))
    return out


def range_of(I, st, v, ln):
    """(lo, hi) of a range value or None."""
    v = I.norm(st, v)
    if v[0] == "it" and v[1] == "range":
        return v[2], v[3]
    if v[0] == "ag" or v[0] == "s":
        h = thead(v[1] if v[0] == "ag" else v[2])
        f = dict(v[3]) if v[0] == "ag" else {}
        g = lambda i: I.norm(st, f[i]) if i in f else None
        if h == "RangeFull":
            return L.ZERO, ln
        if h == "RangeTo" and g(0) is not None and L.isint(g(0)):
            return L.ZERO, g(0)
        if h == "RangeFrom" and g(0) is not None and L.isint(g(0)):
            return g(0), ln
        if h == "Range" and g(0) is not None and L.isint(g(0)) and L.isint(g(1)):
            return g(0), g(1)
        if h == "RangeToInclusive" and g(0) is not None and L.isint(g(0)):
            return L.ZERO, L.addc(g(0), 1)
    return None


def cut(I, st, b, t, segs, lo, hi):
    """Split a list at lo and hi: list of (state, left, mid, right)."""
    out = []
    for s, left, rest in I.split(st, segs, lo):
        if rest is None:
            I.panic(s, "range start out of range", b, t["sp"])
            continue
        d = L.sub(hi, lo)
        if not s.ge(d):
            bad = s.copy()
            if bad.add_ge(L.addc(L.scale(d, -1), -1)):
                I.panic(bad, "inverted range", b, t["sp"])
            if not s.add_ge(d):
                continue
        for s2, mid, right in I.split(s, rest, d):
            if right is None:
                I.panic(s2, "range end out of range", b, t["sp"])
                continue
            out.append((s2, left, mid, right))
    return out


def segs_of_iter(I, st, v, t, b):
    """List of (state, segments) an iterable yields, or None."""
    v = I.norm(st, v)
    if v[0] == "vec":
        return [(st, v[1])]
    if v[0] == "r":
        x = I.read(st, v[1])
        if x[0] == "vec":
            return None
        return segs_of_iter(I, st, x, t, b)
    if v[0] == "en" and thead(v[1]) == "Option":
        return [(st, (("one", v[4][0][1]),) if v[2] == "Some" and v[4] else ())]
    if v[0] == "bx":
        x = I.norm(st, st.heap.get(v[1], ("u",)))
        return segs_of_iter(I, st, x, t, b)
    if v[0] == "ag" and not v[1].startswith(("(", "std::")):
        for self_ty, nm in I.F.trait_impls.get(("std::iter::IntoIterator", "into_iter"), ()):
            if thead(self_ty) == thead(v[1]) and nm in I.F.bodies:
                out = []
                for s, x in I.call_fn(st, nm, [v]):
                    r = segs_of_iter(I, s, x, t, b)
                    if r is None:
                        return None
                    out += r
                return out
    if v[0] != "it":
        return None
    if v[1] == "own":
        out = []
        for s, _, mid, _ in cut(I, st, b, t, v[2][1], v[3], v[4]):
            out.append((s, mid))
        return out
    if v[1] == "slice":
        x = I.read(st, v[2])
        if x[0] != "vec":
            return None
        out = []
        for s, _, mid, _ in cut(I, st, b, t, x[1], v[3], v[4]):
            out.append((s, tuple(m if m[0] != "one" else ("one", m[1]) for m in mid)))
        return out
    if v[1] == "rev":
        r = segs_of_iter(I, st, v[2], t, b)
        if r is None:
            return None
        out = []
        for s, sg in r:
            if all(x[0] == "one" for x in sg):
                out.append((s, tuple(reversed(sg))))
            elif len(sg) == 1 and s.ge(L.addc(L.scale(I.seglen(sg[0]), -1), 1)):
                out.append((s, sg))
            else:
                return None
        return out
    if v[1] == "cloned":
        return segs_of_iter(I, st, v[2], t, b)
    if v[1] == "map":
        r = segs_of_iter(I, st, v[2], t, b)
        if r is None:
            return None
        work = [(s, sg, ()) for s, sg in r]
        out = []
        while work:
            s, sg, acc = work.pop()
            if not sg:
                out.append((s, acc))
                continue
            g = sg[0]
            if g[0] == "one":
                arg = g[1]
                if v[2][1] in ("slice",):
                    arg = refto(I, s, arg)
                for s2, x in I.call_value(s, v[3], [arg], t, b):
                    work.append((s2, sg[1:], acc + (("one", x),)))
                continue
            if g[0] == "grp":
                j = I.fresh("mj")
                L.NONNEG.add(j)
                x0 = ("rc", ("gc", g[1], L.sym(j)))
                arg = refto(I, s, x0) if v[2][1] == "slice" else x0
                s1 = s.copy()
                n0, e0, w0 = len(s1.gw), s1.ev, dict(s1.heap)
                res = I.call_value(s1, v[3], [arg], t, b)
                if len(res) == 1 and I.norm(res[0][0], res[0][1]) == x0 and len(res[0][0].gw) == n0:
                    work.append((s, sg[1:], acc + (g,)))
                    continue
                nm = I.fresh("map", True)
                work.append((s, sg[1:], acc + (("opq", nm, L.ZERO, g[3], "?"),)))
                continue
            nm = I.fresh("map", True)
            work.append((s, sg[1:], acc + (("opq", nm, L.ZERO, I.seglen(g), "?"),)))
        return out
    d = drain(I, st, v, t, b)
    if d is not None:
        return [(s, tuple(("one", x) for x in xs)) for s, xs in d]
    return None


def finite(I, st, it, d=0):
    """The iterator walks a list of known elements."""
    if d > 8 or it[0] != "it":
        return False
    k = it[1]
    if k == "slice":
        v = I.read(st, it[2])
        return v[0] == "vec" and not it[3][2] and not it[4][2] and all(x[0] == "one" for x in v[1])
    if k == "own":
        return not it[3][2] and not it[4][2] and all(x[0] == "one" for x in it[2][1])
    if k == "range":
        return not it[2][2] and not it[3][2]
    if k == "chain":
        return finite(I, st, it[2], d + 1) and finite(I, st, it[3], d + 1)
    if k == "zip":
        return finite(I, st, it[2], d + 1) or finite(I, st, it[3], d + 1)
    if k in ("rev", "enum", "map", "cloned", "filter", "filter_map", "take_while", "skip_while", "skipn", "taken", "peek", "map_while", "inspect"):
        return finite(I, st, it[2], d + 1)
    return False


def drain(I, st, it, t, b, limit=400):
    """All items of a finite iterator: list of (state, items), or None."""
    if not finite(I, st, it):
        return None
    work, out = [(st, it, [])], []
    while work:
        s, i, acc = work.pop()
        if len(acc) > limit or len(work) > 600:
            return None
        for s2, n, x in it_next(I, s, i, False, t, b):
            if x is None:
                out.append((s2, acc))
            else:
                work.append((s2, n, acc + [x]))
    return out


def fork(I, st, v):
    """States in which a boolean value is true / false."""
    v = I.norm(st, v)
    if v[0] == "b":
        return [(st, v[1])]
    return [(s, tr) for tr in (True, False) for s in I.assume(st.copy(), v, tr)]


def opq_list(I, nm=None, ety="?"):
    nm = nm or I.fresh("lst", True)
    I.imprecise.add(nm)
    I.imprecise.add("len(%s)" % nm)
    return ("vec", (("opq", nm, L.ZERO, L.sym("len(%s)" % nm, True), ety),))


def iter_item(t):
    m = re.search(r"Item ?= ?([^>]+)>", t.get("dt", ""))
    return m.group(1) if m else "?"


@model("Vec as Extend::extend", "Vec::extend_from_slice", "VecDeque as Extend::extend")
def vec_extend(I, st, t, a, b):
    lv = vloc(I, st, a[0])
    if not lv:
        return None
    src = a[1]
    x = I.norm(st, src)
    if x[0] == "sl" or (x[0] == "r" and vloc(I, st, x)):
        s4 = slice_of(I, st, x)
        r = [(s, mid) for s, _, mid, _ in cut(I, st, b, t, s4[3][1], s4[1], L.add(s4[1], s4[2]))] if s4 else None
    else:
        r = segs_of_iter(I, st, src, t, b)
    if r is None:
        ty = (t.get("at") or ["", ""])[0]
        setvec(I, st, lv[0], lv[1][1] + opq_list(I, None, "?")[1])
        return [(st, A().UNIT)]
    out = []
    for s, sg in r:
        lv = vloc(I, s, a[0])
        setvec(I, s, lv[0], lv[1][1] + sg)
        out.append((s, A().UNIT))
    return out


@model("Vec::splice", "Vec::drain")
def vec_splice(I, st, t, a, b):
    lv = vloc(I, st, a[0])
    if not lv:
        return None
    loc, v = lv
    rg = range_of(I, st, a[1], I.veclen(v))
    if rg is None:
        nm = I.fresh("spl", True)
        setvec(I, st, loc, opq_list(I)[1])
        return [(st, ("it", "opq", I.fresh("drn", True), "?"))]
    if len(a) > 2:
        ins = segs_of_iter(I, st, a[2], t, b)
        if ins is None:
            ins = [(st, opq_list(I)[1])]
    else:
        ins = [(st, ())]
    out = []
    for s, sg in ins:
        for s2, left, mid, right in cut(I, s, b, t, vloc(I, s, a[0])[1][1], rg[0], rg[1]):
            setvec(I, s2, loc, left + sg + right)
            m = ("vec", I.normsegs(s2, mid))
            out.append((s2, ("it", "own", m, L.ZERO, I.veclen(m))))
    return out


@model("Vec::retain", "Vec::dedup_by", "Vec::dedup", "Vec::dedup_by_key")
def vec_retain(I, st, t, a, b):
    lv = vloc(I, st, a[0])
    if not lv:
        return None
    loc, v = lv
    ln = I.veclen(v)
    key = simp(t["f"].get("res") or t["f"]["path"])
    segs = I.normsegs(st, v[1])
    if key.endswith("::retain") and all(x[0] == "one" for x in segs):
        work = [(st, 0, ())]
        out = []
        while work:
            s, i, acc = work.pop()
            if i == len(segs):
                setvec(I, s, loc, acc)
                out.append((s, A().UNIT))
                continue
            for s2, r in I.call_value(s, a[1], [refto(I, s, segs[i][1])], t, b):
                for truth in (True, False):
                    for s3 in I.assume(s2.copy(), r, truth):
                        work.append((s3, i + 1, acc + (segs[i],) if truth else acc))
        return out
    if key.endswith("::dedup_by") and all(x[0] == "one" for x in segs):
        work, out = [(st, 0, ())], []
        while work:
            s, i, acc = work.pop()
            if i == len(segs):
                setvec(I, s, loc, acc)
                out.append((s, A().UNIT))
                continue
            if not acc:
                work.append((s, i + 1, (segs[i],)))
                continue
            for s2, r in I.call_value(s, a[1], [refto(I, s, segs[i][1]), refto(I, s, acc[-1][1])], t, b):
                for truth in (True, False):
                    for s3 in I.assume(s2.copy(), r, truth):
                        work.append((s3, i + 1, acc if truth else acc + (segs[i],)))
        return out
    nm = I.fresh("kept", True)
    n = L.sym("len(%s)" % nm, True)
    I.imprecise.add("len(%s)" % nm)
    st.add_ge(L.sub(ln, n))
    I.write(st, loc, ("vec", (("opq", nm, L.ZERO, n, I._ety(v)),)))
    return [(st, A().UNIT)]


@model("[]::reverse")
def sl_reverse(I, st, t, a, b):
    s4 = slice_of(I, st, a[0])
    if not s4:
        return None
    loc, start, ln, v = s4
    segs = I.normsegs(st, v[1])
    if all(x[0] == "one" for x in segs) or (len(segs) == 1 and st.ge(L.addc(L.scale(ln, -1), 1))):
        setvec(I, st, loc, tuple(reversed(segs)))
    else:
        nm = I.fresh("rev", True)
        I.write(st, loc, ("vec", (("opq", nm, L.ZERO, ln, I._ety(v)),)))
    return [(st, A().UNIT)]


def sort_concrete(I, st, t, a, b, segs):
    """Stable insertion sort through the comparator; states fork when the order is not decided."""
    work, out = [(st, (), 0, None)], []
    n = 0
    while work:
        s, acc, i, j = work.pop()
        n += 1
        if n > 400:
            return None
        if i == len(segs):
            out.append((s, acc))
            continue
        if j is None:
            j = len(acc)
        if j == 0:
            work.append((s, (segs[i],) + acc, i + 1, None))
            continue
        for s2, r in I.call_value(s, a[1], [refto(I, s, acc[j - 1][1]), refto(I, s, segs[i][1])], t, b):
            r = I.norm(s2, r)
            if r[0] != "en":
                return None
            if r[2] == "Greater":
                work.append((s2, acc, i, j - 1))
            else:
                work.append((s2, acc[:j] + (segs[i],) + acc[j:], i + 1, None))
    return out


@model("[]::sort_by", "[]::sort", "[]::sort_by_key", "[]::sort_unstable", "[]::sort_unstable_by")
def sl_sort(I, st, t, a, b):
    s4 = slice_of(I, st, a[0])
    if not s4:
        return None
    segs = I.normsegs(st, s4[3][1])
    key = simp(t["f"].get("res") or t["f"]["path"])
    if key.endswith(("sort_by", "sort_unstable_by")) and len(segs) <= 12 and all(x[0] == "one" for x in segs) and s4[1] == L.ZERO:
        r = sort_concrete(I, st, t, a, b, segs)
        if r is not None:
            for s, acc in r:
                setvec(I, s, s4[0], acc)
            return [(s, A().UNIT) for s, _ in r]
    nm = I.fresh("sorted", True)
    I.write(st, s4[0], ("vec", (("opq", nm, L.ZERO, s4[2], I._ety(s4[3])),)))
    return [(st, A().UNIT)]


@model("Vec as Deref::deref", "Vec as DerefMut::deref_mut", "Vec::as_slice", "Vec::as_mut_slice", "[]::as_slice", "Vec as AsRef::as_ref")
def vec_deref(I, st, t, a, b):
    s4 = slice_of(I, st, a[0])
    if not s4:
        return None
    return [(st, ("sl", s4[0], s4[1], s4[2]))]


@model("Vec as Clone::clone", "[]::to_vec", "VecDeque as Clone::clone")
def vec_clone(I, st, t, a, b):
    s4 = slice_of(I, st, a[0])
    if not s4:
        return None
    out = []
    for s, _, mid, _ in cut(I, st, b, t, s4[3][1], s4[1], L.add(s4[1], s4[2])):
        out.append((s, ("vec", I.normsegs(s, mid))))
    return out


@model("Vec as Index::index", "Vec as IndexMut::index_mut", "[] as Index::index", "[] as IndexMut::index_mut", "VecDeque as Index::index")
def vec_index(I, st, t, a, b):
    s4 = slice_of(I, st, a[0])
    if not s4:
        return None
    loc, start, ln, v = s4
    ix = I.norm(st, a[1])
    if L.isint(ix):
        out = []
        bad = st.copy()
        if not bad.ge(L.addc(L.sub(ln, ix), -1)) and bad.add_ge(L.sub(ix, ln)):
            I.panic(bad, "index out of range", b, t["sp"])
        if not st.add_ge(L.addc(L.sub(ln, ix), -1)):
            return []
        p = L.add(start, ix)
        for s, x in I.elem_at(st, v[1], p):
            if x is None:
                continue
            out.append((s, ("r", (loc[0], loc[1] + (("x", p),)))))
        return out
    rg = range_of(I, st, ix, ln)
    if rg is None:
        return [(st, ("sl", loc, start, L.sym(I.fresh("rlen", True), True)))]
    lo, hi = rg
    bad = st.copy()
    if not bad.ge(L.sub(hi, lo)) and bad.add_ge(L.addc(L.sub(lo, hi), -1)):
        I.panic(bad, "inverted range", b, t["sp"])
    bad = st.copy()
    if not bad.ge(L.sub(ln, hi)) and bad.add_ge(L.addc(L.sub(hi, ln), -1)):
        I.panic(bad, "range end out of range", b, t["sp"])
    if not (st.add_ge(L.sub(hi, lo)) and st.add_ge(L.sub(ln, hi))):
        return []
    return [(st, ("sl", loc, L.add(start, lo), L.sub(hi, lo)))]


@model("[]::get", "[]::get_mut", "[]::first", "[]::last", "[]::last_mut", "[]::first_mut", "Vec::get", "VecDeque::get")
def sl_get(I, st, t, a, b):
    s4 = slice_of(I, st, a[0])
    if not s4:
        return None
    loc, start, ln, v = s4
    key = simp(t["f"].get("res") or t["f"]["path"]).split("::")[-1]
    if key.startswith("get"):
        ix = I.norm(st, a[1])
        if not L.isint(ix):
            return None
    elif key.startswith("first"):
        ix = L.ZERO
    else:
        ix = L.addc(ln, -1)
    out = []
    bad = st.copy()
    if bad.add_ge(L.sub(ix, ln)) if not key.startswith("last") else bad.add_eq(ln):
        out.append((bad, A().none(t["dt"])))
    if st.add_ge(L.addc(L.sub(ln, ix), -1)) and st.add_ge(L.addc(ln, -1)):
        p = L.add(start, ix)
        for s, x in I.elem_at(st, v[1], p):
            if x is not None:
                out.append((s, A().some(("r", (loc[0], loc[1] + (("x", p),))), t["dt"])))
    return out


@model("[]::split_last", "[]::split_first")
def sl_split_last(I, st, t, a, b):
    s4 = slice_of(I, st, a[0])
    if not s4:
        return None
    loc, start, ln, v = s4
    last = simp(t["f"].get("res") or t["f"]["path"]).endswith("last")
    out = []
    z = st.copy()
    if z.add_eq(ln):
        out.append((z, A().none(t["dt"])))
    if st.add_ge(L.addc(ln, -1)):
        p = L.addc(L.add(start, ln), -1) if last else start
        for s, x in I.elem_at(st, v[1], p):
            if x is not None:
                rest = ("sl", loc, start if last else L.addc(start, 1), L.addc(ln, -1))
                out.append((s, A().some(A().tup(("r", (loc[0], loc[1] + (("x", p),))), rest), t["dt"])))
    return out


# ------------------------------------------------------------------ iterators
def to_iter(I, st, v, t=None):
    v = I.norm(st, v)
    if v[0] == "it":
        return v
    if v[0] == "vec":
        v = ("vec", I.normsegs(st, v[1]))
        return ("it", "own", v, L.ZERO, I.veclen(v))
    if v[0] in ("r", "sl"):
        if v[0] == "r":
            x = I.read(st, v[1])
            if x[0] == "it":
                return None
        s4 = slice_of(I, st, v)
        if s4:
            return ("it", "slice", s4[0], s4[1], L.add(s4[1], s4[2]))
    return None


@model("[]::iter", "[]::iter_mut", "& as IntoIterator::into_iter", "&mut as IntoIterator::into_iter", "Vec as IntoIterator::into_iter",
       "VecDeque::iter")
def into_iter(I, st, t, a, b):
    r = to_iter(I, st, a[0], t)
    if r is None:
        return [(st, ("it", "opq", I.fresh("iter", True), "?"))]
    return [(st, r)]


@model("Iterator::enumerate")
def it_enum(I, st, t, a, b):
    r = to_iter(I, st, a[0]) or ("it", "opq", I.fresh("iter", True), "?")
    return [(st, ("it", "enum", r, L.ZERO))]


@model("Iterator::rev")
def it_rev(I, st, t, a, b):
    r = to_iter(I, st, a[0]) or ("it", "opq", I.fresh("iter", True), "?")
    return [(st, ("it", "rev", r))]


@model("Iterator::map", "Iterator::filter", "Iterator::filter_map", "Iterator::take_while", "Iterator::skip_while", "Iterator::map_while", "Iterator::inspect")
def it_map(I, st, t, a, b):
    k = simp(t["f"].get("res") or t["f"]["path"]).split("::")[-1]
    r = to_iter(I, st, a[0]) or ("it", "opq", I.fresh("iter", True), "?")
    return [(st, ("it", k, r, a[1]))]


@model("Iterator::cloned", "Iterator::copied")
def it_cloned(I, st, t, a, b):
    r = to_iter(I, st, a[0]) or ("it", "opq", I.fresh("iter", True), "?")
    return [(st, ("it", "cloned", r))]


@model("Iterator::skip", "Iterator::take")
def it_skip(I, st, t, a, b):
    k = simp(t["f"].get("res") or t["f"]["path"]).split("::")[-1]
    r = to_iter(I, st, a[0])
    n = I.norm(st, a[1])
    if r is not None and r[1] in ("slice", "own") and L.isint(n):
        out = []
        lim = L.add(r[3], n)
        s = st.copy()
        if s.add_ge(L.sub(r[4], lim)):
            nr = r[:3] + (lim, r[4]) + r[5:] if k == "skip" else r[:3] + (r[3], lim) + r[5:]
            out.append((s, nr))
        if st.add_ge(L.addc(L.sub(lim, r[4]), -1)):
            nr = r[:3] + (r[4], r[4]) + r[5:] if k == "skip" else r
            out.append((st, nr))
        return out
    if r is not None and L.isint(n) and not n[2] and finite(I, st, r):
        return [(st, ("it", k + "n", r, n[1]))]
    return [(st, ("it", "opq", I.fresh("iter", True), "?"))]


@model("Iterator::chain", "Iterator::zip")
def it_chain(I, st, t, a, b):
    k = simp(t["f"].get("res") or t["f"]["path"]).split("::")[-1]
    r = to_iter(I, st, a[0])
    r2 = to_iter(I, st, a[1])
    if r2 is None:
        x = segs_of_iter(I, st, a[1], t, b)
        if x is not None and len(x) == 1:
            st, sg = x[0]
            v = ("vec", sg)
            r2 = ("it", "own", v, L.ZERO, I.veclen(v))
    if r is None or r2 is None:
        return [(st, ("it", "opq", I.fresh("iter", True), "?"))]
    return [(st, ("it", k, r, r2))]


@model("Iterator::peekable", "Iterator::fuse", "Iterator::by_ref")
def it_peekable(I, st, t, a, b):
    k = simp(t["f"].get("res") or t["f"]["path"]).split("::")[-1]
    if k == "by_ref":
        return [(st, a[0])]
    r = to_iter(I, st, a[0]) or ("it", "opq", I.fresh("iter", True), "?")
    return [(st, r)]


@model("Peekable::peek")
def it_peek(I, st, t, a, b):
    v = I.norm(st, a[0])
    it = I.read(st, v[1]) if v[0] == "r" else v
    if it[0] != "it":
        return None
    out = []
    for s, n, x in it_next(I, st, it, False, t, b):
        out.append((s, A().none(t["dt"]) if x is None else A().some(refto(I, s, x), t["dt"])))
    return out


def consumed(I, st, v):
    """(iterator, its location or None) behind a value or reference."""
    v = I.norm(st, v)
    loc = None
    n = 0
    while v[0] in ("r", "bx") and n < 5:
        loc = v[1] if v[0] == "r" else (("H", v[1]), ())
        v = I.norm(st, I.read(st, loc))
        n += 1
    if v[0] == "vec" and loc is None:
        v = to_iter(I, st, v)
    return (v, loc) if v[0] == "it" else (None, None)


@prefix(r"Iterator::(any|all|position|rposition|find|find_map|for_each|fold|count|last|nth|sum|max|min|partition|try_for_each)$")
def it_consume(I, st, t, a, b):
    k = simp(t["f"].get("res") or t["f"]["path"]).split("::")[-1]
    it, loc = consumed(I, st, a[0])
    if it is None or not finite(I, st, it):
        return None
    D = A()
    work, out = [(st, it, 0, a[1] if k in ("fold", "nth") else None)], []
    steps = 0

    def done(s, n, v):
        if loc is not None:
            I.write(s, loc, n)
        out.append((s, v))
    while work:
        s, i, idx, acc = work.pop()
        steps += 1
        if steps > 800:
            return None
        for s2, n, x in it_next(I, s, i, k == "rposition", t, b):
            if x is None:
                v = {"any": D.FALSE, "all": D.TRUE, "position": D.none(t["dt"]), "rposition": D.none(t["dt"]), "find": D.none(t["dt"]), "find_map": D.none(t["dt"]), "for_each": D.UNIT,
                     "fold": acc, "count": L.const(idx), "nth": D.none(t["dt"])}.get(k)
                if k in ("last", "max", "min"):
                    v = D.none(t["dt"]) if acc is None else D.some(acc, t["dt"])
                if k == "sum":
                    v = acc or L.ZERO
                if v is None:
                    return None
                done(s2, n, v)
            elif k in ("any", "all", "position", "rposition", "find"):
                arg = refto(I, s2, x) if k == "find" else x
                for s3, r in I.call_value(s2, a[1], [arg], t, b):
                    for s4, tr in fork(I, s3, r):
                        if tr == (k != "all"):
                            if k == "rposition":
                                return None
                            done(s4, n, {"any": D.TRUE, "all": D.FALSE, "position": D.some(L.const(idx), t["dt"]), "find": D.some(x, t["dt"])}[k])
                        else:
                            work.append((s4, n, idx + 1, acc))
            elif k == "find_map":
                for s3, r in I.call_value(s2, a[1], [x], t, b):
                    for s4, kk, y in symopt(I, s3, r):
                        if kk == "Some":
                            done(s4, n, D.some(y, t["dt"]))
                        else:
                            work.append((s4, n, idx + 1, acc))
            elif k == "for_each":
                for s3, r in I.call_value(s2, a[1], [x], t, b):
                    work.append((s3, n, idx + 1, acc))
            elif k == "fold":
                for s3, r in I.call_value(s2, a[2], [acc, x], t, b):
                    work.append((s3, n, idx + 1, r))
            elif k == "nth":
                if not L.isint(acc) or acc[2]:
                    return None
                if idx == acc[1]:
                    done(s2, n, D.some(x, t["dt"]))
                else:
                    work.append((s2, n, idx + 1, acc))
            elif k == "sum":
                y = under(I, s2, x)
                if not L.isint(y):
                    return None
                work.append((s2, n, idx + 1, L.add(acc or L.ZERO, y)))
            elif k in ("max", "min"):
                y = under(I, s2, x)
                if not L.isint(y) or y[2]:
                    return None
                work.append((s2, n, idx + 1, x if acc is None or (under(I, s2, x)[1] >= under(I, s2, acc)[1]) == (k == "max") else acc))
            else:
                work.append((s2, n, idx + 1, x))
    return out


@model("RangeInclusive::new")
def rangeinc(I, st, t, a, b):
    if L.isint(a[0]) and L.isint(a[1]):
        return [(st, ("it", "range", a[0], L.addc(a[1], 1)))]
    return None


@model("Option::iter")
def opt_iter(I, st, t, a, b):
    out = []
    for s, k, x in symopt(I, st, a[0]):
        out.append((s, ("it", "own", ("vec", (("one", refto(I, s, x)),) if k == "Some" else ()), L.ZERO, L.ONE if k == "Some" else L.ZERO)))
    return out


def it_next(I, st, it, back, t, b, depth=0):
    """list of (state, new iterator, item or None)"""
    k = it[1]
    if k in ("slice", "own"):
        lo, hi = it[3], it[4]
        out = []
        e = st.copy()
        if e.add_ge(L.sub(lo, hi)):
            out.append((e, it, None))
        if not st.add_ge(L.addc(L.sub(hi, lo), -1)):
            return out
        p = L.addc(hi, -1) if back else lo
        nit = it[:3] + ((lo, L.addc(hi, -1)) if back else (L.addc(lo, 1), hi)) + it[5:]
        if k == "slice":
            v = I.read(st, it[2])
            if v[0] != "vec":
                x = I.mksym(st, I.fresh("item", True), opt_inner(t["dt"]))
                return out + [(st, nit, x)]
            for s, x in I.elem_at(st, v[1], p):
                if x is not None:
                    out.append((s, nit, ("r", (it[2][0], it[2][1] + (("x", p),)))))
            return out
        for s, x in I.elem_at(st, it[2][1], p):
            if x is not None:
                out.append((s, nit, x))
        return out
    if k == "range":
        lo, hi = it[2], it[3]
        out = []
        e = st.copy()
        if e.add_ge(L.sub(lo, hi)):
            out.append((e, it, None))
        if st.add_ge(L.addc(L.sub(hi, lo), -1)):
            if back:
                out.append((st, ("it", "range", lo, L.addc(hi, -1)), L.addc(hi, -1)))
            else:
                out.append((st, ("it", "range", L.addc(lo, 1), hi), lo))
        return out
    if k == "rev":
        return [(s, ("it", "rev", n), x) for s, n, x in it_next(I, st, it[2], not back, t, b, depth)]
    if k == "enum":
        if back:
            # index of the last element: position from the end
            inner = it[2]
            rem = iter_len(inner)
            out = []
            for s, n, x in it_next(I, st, inner, True, t, b, depth):
                if x is None:
                    out.append((s, ("it", "enum", n, it[3]), None))
                else:
                    i = L.add(it[3], L.addc(rem, -1)) if rem is not None else L.sym(I.fresh("ei", True), True)
                    out.append((s, ("it", "enum", n, it[3]), A().tup(i, x)))
            return out
        return [(s, ("it", "enum", n, L.addc(it[3], 1) if x is not None else it[3]), A().tup(it[3], x) if x is not None else None)
                for s, n, x in it_next(I, st, it[2], False, t, b, depth)]
    if k == "map":
        out = []
        for s, n, x in it_next(I, st, it[2], back, t, b, depth):
            if x is None:
                out.append((s, ("it", "map", n, it[3]), None))
            else:
                for s2, y in I.call_value(s, it[3], [x], t, b):
                    out.append((s2, ("it", "map", n, it[3]), y))
        return out
    if k == "cloned":
        return [(s, ("it", "cloned", n), None if x is None else under(I, s, x)) for s, n, x in it_next(I, st, it[2], back, t, b, depth)]
    if k in ("filter", "filter_map", "take_while", "skip_while", "map_while", "inspect", "skipn", "taken", "chain", "zip") and finite(I, st, it):
        return it_next_adapter(I, st, it, back, t, b, depth)
    # opaque
    e = st.copy()
    nm = I.fresh("item", True)
    return [(e, it, None), (st, it, I.mksym(st, nm, opt_inner(t["dt"]), True))]


def it_next_adapter(I, st, it, back, t, b, depth):
    k = it[1]
    out = []
    if k in ("filter", "filter_map", "skip_while"):
        work = [(st, it[2], k)]
        while work:
            s, i, _ = work.pop()
            for s2, n, x in it_next(I, s, i, back, t, b, depth):
                if x is None:
                    out.append((s2, (it[0], k, n, it[3]), None))
                    continue
                arg = x if k == "filter_map" else refto(I, s2, x)
                for s3, r in I.call_value(s2, it[3], [arg], t, b):
                    if k == "filter_map":
                        for s4, kk, y in symopt(I, s3, r):
                            if kk == "Some":
                                out.append((s4, ("it", k, n, it[3]), y))
                            else:
                                work.append((s4, n, k))
                        continue
                    for s4, tr in fork(I, s3, r):
                        if tr == (k == "filter"):
                            out.append((s4, ("it", k, n, it[3]) if k == "filter" else n, x))
                        else:
                            work.append((s4, n, k))
        return out
    if k == "inspect":
        for s, n, x in it_next(I, st, it[2], back, t, b, depth):
            if x is None:
                out.append((s, ("it", k, n, it[3]), None))
            else:
                for s2, _ in I.call_value(s, it[3], [refto(I, s, x)], t, b):
                    out.append((s2, ("it", k, n, it[3]), x))
        return out
    if k in ("take_while", "map_while"):
        empty = ("it", "own", ("vec", ()), L.ZERO, L.ZERO)
        for s, n, x in it_next(I, st, it[2], back, t, b, depth):
            if x is None:
                out.append((s, empty, None))
                continue
            for s2, r in I.call_value(s, it[3], [refto(I, s, x) if k == "take_while" else x], t, b):
                if k == "map_while":
                    for s3, kk, y in symopt(I, s2, r):
                        out.append((s3, ("it", k, n, it[3]), y) if kk == "Some" else (s3, empty, None))
                else:
                    for s3, tr in fork(I, s2, r):
                        out.append((s3, ("it", k, n, it[3]), x) if tr else (s3, empty, None))
        return out
    if k == "skipn":
        work = [(st, it[2], it[3])]
        while work:
            s, i, c = work.pop()
            for s2, n, x in it_next(I, s, i, False, t, b, depth):
                if x is None or c == 0:
                    out.append((s2, n if c == 0 else n, x))
                else:
                    work.append((s2, n, c - 1))
        return out
    if k == "taken":
        if it[3] <= 0:
            return [(st, it, None)]
        return [(s, ("it", k, n, it[3] - (x is not None)), x) for s, n, x in it_next(I, st, it[2], False, t, b, depth)]
    if k == "chain":
        f, g = (3, 2) if back else (2, 3)
        for s, n, x in it_next(I, st, it[f], back, t, b, depth):
            if x is not None:
                out.append((s, ("it", k, n, it[3]) if f == 2 else ("it", k, it[2], n), x))
            else:
                for s2, n2, x2 in it_next(I, s, it[g], back, t, b, depth):
                    out.append((s2, ("it", k, n, n2) if f == 2 else ("it", k, n2, n), x2))
        return out
    if k == "zip":
        for s, n, x in it_next(I, st, it[2], back, t, b, depth):
            if x is None:
                out.append((s, ("it", k, n, it[3]), None))
                continue
            for s2, n2, y in it_next(I, s, it[3], back, t, b, depth):
                out.append((s2, ("it", k, n, n2), None if y is None else A().tup(x, y)))
        return out
    return None


def iter_len(it):
    if it[1] in ("slice", "own"):
        return L.sub(it[4], it[3])
    if it[1] == "range":
        return L.sub(it[3], it[2])
    if it[1] in ("rev", "map", "cloned"):
        return iter_len(it[2])
    if it[1] == "enum":
        return iter_len(it[2])
    return None


def opt_inner(ty):
    a = targs(ty)
    return a[0] if a else "?"


@prefix(r" as Iterator::next$|^Iterator::next$|DoubleEndedIterator::next_back$")
def iter_next(I, st, t, a, b):
    key = simp(t["f"].get("res") or t["f"]["path"])
    back = key.endswith("next_back")
    v = I.norm(st, a[0])
    n = 0
    loc = None
    while n < 6:
        if v[0] == "r":
            loc = v[1]
            v = I.read(st, loc)
        elif v[0] == "bx":
            loc = (("H", v[1]), ())
            v = I.read(st, loc)
        else:
            break
        n += 1
    if v[0] != "it":
        if v[0] == "s" and loc is not None:
            # opaque iterator: every call may give another element
            nm = I.fresh("item", True)
            e = st.copy()
            return [(e, A().none(t["dt"])), (st, A().some(I.mksym(st, nm, opt_inner(t["dt"]), True), t["dt"]))]
        return None
    out = []
    for s, nit, x in it_next(I, st, v, back, t, b):
        if loc is not None:
            I.write(s, loc, nit)
        out.append((s, A().none(t["dt"]) if x is None else A().some(x, t["dt"])))
    return out


@model("Iterator::collect")
def it_collect(I, st, t, a, b):
    if thead(t["dt"]) not in ("Vec", "VecDeque"):
        return None
    r = segs_of_iter(I, st, a[0], t, b)
    if r is None:
        return [(st, opq_list(I, None, (targs(t["dt"]) or ("?",))[0]))]
    return [(s, ("vec", I.normsegs(s, sg))) for s, sg in r]


@model("ExactSizeIterator::len")
def it_len(I, st, t, a, b):
    v = under(I, st, a[0])
    if v[0] == "it":
        n = iter_len(v)
        if n is not None:
            return [(st, n)]
    r = range_ends(I, st, a[0])
    if r and not r[0][2] and not r[1][2]:
        return [(st, L.const(max(0, r[1][1] - r[0][1])))]
    return None


@model("[]::binary_search")
def sl_bsearch(I, st, t, a, b):
    """On a known list of known integers; an unsorted list has no defined answer and stays unknown."""
    s4 = slice_of(I, st, a[0])
    w = under(I, st, a[1])
    if not s4 or not L.isint(w) or w[2] or s4[1][2] or s4[2][2]:
        return None
    segs = I.normsegs(st, s4[3][1])
    if any(g[0] != "one" for g in segs):
        return None
    xs = [I.norm(st, g[1]) for g in segs][s4[1][1]:s4[1][1] + s4[2][1]]
    if any(not L.isint(x) or x[2] for x in xs):
        return None
    xs = [x[1] for x in xs]
    if any(p >= q for p, q in zip(xs, xs[1:])):
        return None
    if w[1] in xs:
        return [(st, A().ok(L.const(xs.index(w[1])), t["dt"]))]
    return [(st, A().err(L.const(sum(1 for x in xs if x < w[1])), t["dt"]))]


def range_ends(I, st, v):
    """(start, end) of a Range value, also one whose fields were written one by one."""
    v = under(I, st, v)
    if v[0] == "it" and v[1] == "range":
        return v[2], v[3]
    if v[0] == "ag" and sorted(k for k, _ in v[3]) == [0, 1]:
        x, y = I.norm(st, A().fget(v[3], 0)), I.norm(st, A().fget(v[3], 1))
        if L.isint(x) and L.isint(y):
            return x, y
    return None


@model("Range::is_empty")
def range_empty(I, st, t, a, b):
    r = range_ends(I, st, a[0])
    if r:
        return [(st, I.decide(st, ("c", "ge", L.sub(r[0], r[1]))))]
    return None


# ------------------------------------------------------------------ Option / Result
@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def opt_is(I, st, t, a, b):
    key = simp(t["f"].get("res") or t["f"]["path"])
    want = {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}[key.split("::")[-1]]
    names = RES if key.startswith("Result") else ("None", "Some")
    return [(s, ("b", k == want)) for s, k, _ in symopt(I, st, a[0], names)]


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Result::unwrap_err", "Result::expect_err")
def opt_unwrap(I, st, t, a, b):
    key = simp(t["f"].get("res") or t["f"]["path"])
    names = RES if key.startswith("Result") else ("None", "Some")
    want = ("Err",) if key.endswith("_err") else ("Some", "Ok")
    out = []
    for s, k, x in symopt(I, st, a[0], names):
        if k in want:
            out.append((s, x if x is not None else ("s", I.fresh("pl", True), t["dt"])))
        else:
            I.panic(s, key, b, t["sp"])
    return out


@model("Option::unwrap_or", "Option::unwrap_or_default", "Option::unwrap_or_else", "Result::unwrap_or", "Result::unwrap_or_default",
       "Result::unwrap_or_else")
def opt_unwrap_or(I, st, t, a, b):
    key = simp(t["f"].get("res") or t["f"]["path"])
    names = RES if key.startswith("Result") else ("None", "Some")
    out = []
    for s, k, x in symopt(I, st, a[0], names):
        if k in ("Some", "Ok"):
            out.append((s, x))
        elif key.endswith("unwrap_or"):
            out.append((s, a[1]))
        elif key.endswith("else"):
            out += I.call_value(s, a[1], [x] if k == "Err" else [], t, b)
        else:
            out.append((s, default_of(I, s, t["dt"])))
    return out


def default_of(I, st, ty):
    h = thead(ty)
    if h in ("Vec", "VecDeque"):
        return ("vec", ())
    if h == "Option":
        return A().none(ty)
    if ty in A().INT_TYPES:
        return L.ZERO
    if ty == "bool":
        return A().FALSE
    if h == "String" or ty.endswith("str"):
        return ("str", "")
    return ("s", "default:" + ty, ty)


@prefix(r" as Default::default$|^Default::default$")
def dflt(I, st, t, a, b):
    ty = I.generic(t["dt"])
    if ty != t["dt"]:
        for (tr, m), l in I.F.trait_impls.items():
            if m == "default" and tr.split("::")[-1] == "Default":
                for self_ty, nm in l:
                    if thead(self_ty) == thead(ty) and nm in I.F.bodies:
                        return I.call_fn(st, nm, [])
    if thead(ty) in ("Vec", "VecDeque", "Option", "String") or ty in A().INT_TYPES or ty == "bool":
        return [(st, default_of(I, st, ty))]
    return None


@model("String::new", "String::with_capacity")
def string_new(I, st, t, a, b):
    return [(st, ("str", ""))]


@model("Option::map", "Option::and_then", "Result::map", "Result::and_then", "Option::map_or", "Result::map_err")
def opt_map(I, st, t, a, b):
    key = simp(t["f"].get("res") or t["f"]["path"])
    names = RES if key.startswith("Result") else ("None", "Some")
    m = key.split("::")[-1]
    out = []
    for s, k, x in symopt(I, st, a[0], names):
        hit = k in ("Some", "Ok") if m != "map_err" else k == "Err"
        if not hit:
            if m == "map_or":
                out.append((s, a[1]))
            else:
                out.append((s, ("en", t["dt"], k, None, ((0, x),) if x is not None else ())))
            continue
        for s2, y in I.call_value(s, a[-1], [x], t, b):
            if m in ("and_then", "map_or"):
                out.append((s2, y))
            else:
                out.append((s2, ("en", t["dt"], k, None, ((0, y),))))
    return out


@model("Option::or", "Option::or_else")
def opt_or(I, st, t, a, b):
    key = simp(t["f"].get("res") or t["f"]["path"])
    out = []
    for s, k, x in symopt(I, st, a[0]):
        if k == "Some":
            out.append((s, A().some(x, t["dt"])))
        elif key.endswith("else"):
            out += I.call_value(s, a[1], [], t, b)
        else:
            out.append((s, a[1]))
    return out


@model("Result::ok", "Result::err")
def res_ok(I, st, t, a, b):
    key = simp(t["f"].get("res") or t["f"]["path"])
    want = "Ok" if key.endswith("ok") else "Err"
    return [(s, A().some(x, t["dt"]) if k == want else A().none(t["dt"])) for s, k, x in symopt(I, st, a[0], RES)]


@model("Option::as_ref", "Option::as_mut", "Option::as_deref", "Result::as_ref")
def opt_as_ref(I, st, t, a, b):
    v = I.norm(st, a[0])
    if v[0] != "r":
        return None
    loc = v[1]
    x = I.read(st, loc)
    if x[0] == "r":
        loc = x[1]
        x = I.read(st, loc)
    key = simp(t["f"].get("res") or t["f"]["path"])
    names = RES if key.startswith("Result") else ("None", "Some")
    out = []
    for s, k, y in symopt(I, st, x, names):
        if k == "None":
            out.append((s, A().none(t["dt"])))
        else:
            if I.read(s, loc)[0] != "en":
                I.write(s, loc, ("en", "std::option::Option<?>", k, None, ((0, y),)))
            ty = opt_inner(t["dt"])
            out.append((s, ("en", t["dt"], k, None, ((0, ("r", (loc[0], loc[1] + (("v", k), ("f", 0, pointee(ty)))))),))))
    return out


@model("Option::take")
def opt_take(I, st, t, a, b):
    v = I.norm(st, a[0])
    if v[0] != "r":
        return None
    x = I.read(st, v[1])
    I.write(st, v[1], A().none(t["dt"]))
    return [(st, x)]


@model("Option as Clone::clone", "& as Clone::clone", "String as Clone::clone")
def opt_clone(I, st, t, a, b):
    v = I.norm(st, a[0])
    if v[0] == "r":
        return [(st, I.read(st, v[1]))]
    return None


@model("Option as Try::branch", "Result as Try::branch")
def try_branch(I, st, t, a, b):
    names = RES if simp(t["f"].get("res") or t["f"]["path"]).startswith("Result") else ("None", "Some")
    out = []
    for s, k, x in symopt(I, st, a[0], names):
        if k in ("Some", "Ok"):
            out.append((s, ("en", t["dt"], "Continue", None, ((0, x),))))
        else:
            r = ("en", "residual", k, None, ((0, x),) if x is not None else ())
            out.append((s, ("en", t["dt"], "Break", None, ((0, r),))))
    return out


@model("Option as FromResidual::from_residual", "Result as FromResidual::from_residual")
def from_residual(I, st, t, a, b):
    v = I.norm(st, a[0])
    if v[0] == "en":
        return [(st, ("en", t["dt"], v[2], None, v[4]))]
    return None


# ------------------------------------------------------------------ comparison, strings
@prefix(r" as PartialEq::(eq|ne)$|^PartialEq::(eq|ne)$")
def part_eq(I, st, t, a, b):
    key = simp(t["f"].get("res") or t["f"]["path"])
    x, y = under(I, st, a[0]), under(I, st, a[1])
    r = I.value_eq(st, x, y)
    if r is None:
        kx, ky = I.argkey(st, x), I.argkey(st, y)
        if kx == ky and x[0] in ("s", "str"):
            r = A().TRUE
        else:
            r = ("s", "eq(%s,%s)" % tuple(sorted((kx, ky))), "bool")
    return [(st, I.bnot(r) if key.endswith("ne") else r)]


@model("usize as Ord::cmp", "u32 as Ord::cmp", "isize as Ord::cmp")
def ord_cmp(I, st, t, a, b):
    x, y = under(I, st, a[0]), under(I, st, a[1])
    if L.isint(x) and L.isint(y):
        d = L.sub(x, y)
        if not d[2]:
            return [(st, ("en", "std::cmp::Ordering", "Less" if d[1] < 0 else "Greater" if d[1] > 0 else "Equal", None, ()))]
        return [(st, ("cmp", d))]
    return None


@model("usize as PartialOrd::partial_cmp", "u32 as PartialOrd::partial_cmp", "isize as PartialOrd::partial_cmp", "u64 as PartialOrd::partial_cmp", "i32 as PartialOrd::partial_cmp")
def ord_pcmp(I, st, t, a, b):
    r = ord_cmp(I, st, t, a, b)
    return [(s, A().some(v, t["dt"])) for s, v in r] if r else None


@model("Ordering::reverse")
def ord_reverse(I, st, t, a, b):
    v = I.norm(st, a[0])
    if v[0] == "en":
        return [(st, ("en", v[1], {"Less": "Greater", "Greater": "Less"}.get(v[2], v[2]), None, ()))]
    if v[0] == "cmp":
        return [(st, ("cmp", L.scale(v[1], -1)))]
    return None


@model("Ordering::then_with", "Ordering::then")
def ord_then(I, st, t, a, b):
    v = I.norm(st, a[0])
    if v[0] != "en":
        return None
    if v[2] != "Equal":
        return [(st, v)]
    if simp(t["f"].get("res") or t["f"]["path"]).endswith("then"):
        return [(st, I.norm(st, a[1]))]
    return I.call_value(st, a[1], [], t, b)


@model("String as Deref::deref", "String::as_str", "String as AsRef::as_ref")
def string_deref(I, st, t, a, b):
    x = under(I, st, a[0])
    if x[0] == "str":
        return [(st, x)]
    if x[0] == "s":
        return [(st, ("s", x[1], "&str"))]
    return None


@model("str::is_empty", "String::is_empty")
def str_empty(I, st, t, a, b):
    x = under(I, st, a[0])
    if x[0] == "str":
        return [(st, ("b", x[1] == ""))]
    if x[0] == "s":
        return [(st, ("s", "empty(%s)" % x[1], "bool"))]
    return None


@model("String as From::from", "T as ToOwned::to_owned", "T as ToString::to_string")
def string_from(I, st, t, a, b):
    x = under(I, st, a[0])
    if x[0] == "str":
        return [(st, x)]
    return None


# ------------------------------------------------------------------ rphtml constructors
def blank(I, st, a):
    import strings
    c = strings.chars_of(I, st, a[0]) if a else None
    return c is not None and all(x in strings.WS for x in c)


@model("Node::create_text_node")
def create_text(I, st, t, a, b):
    c = I.fresh("new")
    st.notes["cells"] = st.notes.get("cells", ()) + (c,)
    nd = ("ag", "rphtml::parser::Node", c, tuple(sorted(
        (I.node_idx[k], v) for k, v in dict(
            parent=A().none("std::option::Option<?>"), childs=A().none("std::option::Option<?>"),
            content=A().some(I.norm(st, a[0]), "std::option::Option<std::vec::Vec<char>>") if a else ("u",), meta=A().none("std::option::Option<?>"),
            node_type=("en", "rphtml::parser::NodeType", "SpacesBetweenTag" if blank(I, st, a) else "Text", None, ()), index=L.ZERO).items() if k in I.node_idx)))
    st.heap[c] = nd
    if thead(t["dt"]) == "Rc":
        return [(st, ("rc", c))]
    return [(st, nd)]


@model("Iterator::flatten")
def it_flatten(I, st, t, a, b):
    r = to_iter(I, st, a[0])
    if r is not None and r[1] == "own" and all(s[0] == "one" for s in r[2][1]):
        items = [s[1] for s in r[2][1]]
        if not items:
            return [(st, ("it", "own", ("vec", ()), L.ZERO, L.ZERO))]
        if len(items) == 1:
            x = to_iter(I, st, items[0])
            if x is not None:
                return [(st, x)]
            y = under(I, st, items[0])
            if y[0] == "en" and thead(y[1]) == "Option":
                out = []
                for s, k, z in symopt(I, st, y):
                    out.append((s, ("it", "own", ("vec", (("one", refto(I, s, z)),) if k == "Some" else ()), L.ZERO,
                                    L.ONE if k == "Some" else L.ZERO)))
                return out
    return [(st, ("it", "opq", I.fresh("iter", True), "?"))]


@model("[]::contains")
def sl_contains(I, st, t, a, b):
    s4 = slice_of(I, st, a[0])
    if not s4:
        return None
    x = under(I, st, a[1])
    segs = I.normsegs(st, s4[3][1])
    if all(g[0] == "one" for g in segs) and s4[1] == L.ZERO and st.eq0(L.sub(s4[2], I.veclen(s4[3]))):
        acc = A().FALSE
        for g in segs:
            y = under(I, st, g[1])
            r = I.value_eq(st, x, y)
            if r is None:
                return None
            acc = I.binop(st, "BitOr", acc, r, "bool") if acc != A().FALSE else r
        return [(st, acc)]
    return None


@prefix(r" as (Sub::sub|Add::add)$")
def ref_arith(I, st, t, a, b):
    key = simp(t["f"].get("res") or t["f"]["path"])
    x, y = under(I, st, a[0]), under(I, st, a[1])
    if not (L.isint(x) and L.isint(y)):
        return None
    if key.endswith("add"):
        return [(st, L.add(x, y))]
    r = L.sub(x, y)
    if t["dt"] in A().UNSIGNED and not st.ge(r):
        bad = st.copy()
        if bad.add_ge(L.addc(L.scale(r, -1), -1)):
            I.panic(bad, "subtract overflow", b, t["sp"])
        if not st.add_ge(r):
            return []
    return [(st, r)]


# ------------------------------------------------------------------ hash maps and sets with known keys: lists of (key, value)
def ckey(I, st, v, d=0):
    """Known key as a Python value, or None."""
    v = I.norm(st, v)
    n = 0
    while v[0] == "r" and n < 5:
        v = I.norm(st, I.read(st, v[1]))
        n += 1
    if L.isint(v):
        return ("i", v[1]) if not v[2] else None
    if v[0] == "str":
        return ("t", v[1])
    if v[0] == "vec" and d < 3:
        out = []
        for s in I.normsegs(st, v[1]):
            if s[0] != "one":
                return None
            k = ckey(I, st, s[1], d + 1)
            if k is None:
                return None
            out.append(k)
        return tuple(out)
    return None


def map_find(I, st, m, k):
    """Index of a key, -1 when absent, None when unknown."""
    kk = ckey(I, st, k)
    lv = vloc(I, st, m)
    if kk is None or not lv:
        return None, None, None
    for i, s in enumerate(lv[1][1]):
        if s[0] != "one" or s[1][0] != "ag":
            return None, None, None
        x = ckey(I, st, s[1][3][0][1])
        if x is None:
            return None, None, None
        if x == kk:
            return i, lv[0], lv[1]
    return -1, lv[0], lv[1]


@model("HashMap::with_capacity", "HashMap::new", "HashSet::with_capacity", "HashSet::new", "HashMap as Default::default", "HashSet as Default::default")
def map_new(I, st, t, a, b):
    return [(st, ("vec", ()))]


def _islist(I, st, m):
    return vloc(I, st, m) is not None


@model("HashMap::insert", "HashSet::insert")
def map_insert(I, st, t, a, b):
    i, loc, v = map_find(I, st, a[0], a[1])
    if i is None:
        return None
    isset = len(a) == 2
    pair = ("one", A().tup(I.norm(st, a[1]), A().UNIT if isset else I.norm(st, a[2])))
    if i < 0:
        I.write(st, loc, ("vec", v[1] + (pair,)))
        return [(st, A().TRUE if isset else A().none(t["dt"]))]
    if isset:
        return [(st, A().FALSE)]
    old = v[1][i][1][3][1][1]
    segs = list(v[1])
    segs[i] = pair
    I.write(st, loc, ("vec", tuple(segs)))
    return [(st, A().some(old, t["dt"]))]


@model("HashMap::get", "HashMap::get_mut", "HashSet::get")
def map_get(I, st, t, a, b):
    i, loc, v = map_find(I, st, a[0], a[1])
    if i is None:
        return None
    if i < 0:
        return [(st, A().none(t["dt"]))]
    f = 0 if "HashSet" in simp(t["f"].get("res") or t["f"]["path"]) else 1
    return [(st, A().some(("r", (loc[0], loc[1] + (("x", L.const(i)), ("f", f, "?")))), t["dt"]))]


@model("HashMap::contains_key", "HashSet::contains")
def map_has(I, st, t, a, b):
    i, loc, v = map_find(I, st, a[0], a[1])
    if i is None:
        return None
    return [(st, ("b", i >= 0))]


@model("HashMap::remove", "HashSet::remove", "HashSet::take")
def map_remove(I, st, t, a, b):
    i, loc, v = map_find(I, st, a[0], a[1])
    if i is None:
        return None
    key = simp(t["f"].get("res") or t["f"]["path"])
    if i >= 0:
        pair = v[1][i][1]
        I.write(st, loc, ("vec", v[1][:i] + v[1][i + 1:]))
    if key == "HashSet::remove":
        return [(st, ("b", i >= 0))]
    if i < 0:
        return [(st, A().none(t["dt"]))]
    return [(st, A().some(pair[3][1 if "Map" in key else 0][1], t["dt"]))]


@model("HashMap::len", "HashSet::len")
def map_len(I, st, t, a, b):
    lv = vloc(I, st, a[0])
    return [(st, I.veclen(lv[1]))] if lv else None


@model("HashMap::is_empty", "HashSet::is_empty")
def map_empty(I, st, t, a, b):
    lv = vloc(I, st, a[0])
    return [(st, I.decide(st, ("c", "eq", I.veclen(lv[1]))))] if lv else None


@model("str::trim", "str::trim_start", "str::trim_end")
def str_trim(I, st, t, a, b):
    v = I.norm(st, a[0])
    if v[0] == "str":
        f = {"trim": str.strip, "trim_start": str.lstrip, "trim_end": str.rstrip}[simp(t["f"].get("res") or t["f"]["path"]).split("::")[-1]]
        return [(st, ("str", f(v[1])))]
    return None


# ------------------------------------------------------------------ map entries
@model("HashMap::entry")
def map_entry(I, st, t, a, b):
    i, loc, v = map_find(I, st, a[0], a[1])
    if i is None:
        return None
    return [(st, ("ag", "entry", None, ((0, ("r", loc)), (1, I.norm(st, a[1])))))]


def entry_slot(I, st, e):
    e = I.norm(st, e)
    if e[0] != "ag" or e[1] != "entry":
        return None
    i, loc, v = map_find(I, st, e[3][0][1], e[3][1][1])
    return None if i is None else (i, loc, v, e[3][1][1])


def entry_put(I, st, es, val):
    i, loc, v, k = es
    I.write(st, loc, ("vec", v[1] + (("one", A().tup(k, val)),)))
    return ("r", (loc[0], loc[1] + (("x", L.const(len(v[1]))), ("f", 1, "?"))))


@model("Entry::or_insert_with", "Entry::or_insert", "Entry::or_default")
def entry_or(I, st, t, a, b):
    es = entry_slot(I, st, a[0])
    if es is None:
        return None
    i, loc, v, k = es
    if i >= 0:
        return [(st, ("r", (loc[0], loc[1] + (("x", L.const(i)), ("f", 1, "?")))))]
    kind = simp(t["f"].get("res") or t["f"]["path"]).split("::")[-1]
    if kind == "or_insert":
        return [(st, entry_put(I, st, es, I.norm(st, a[1])))]
    if kind == "or_insert_with":
        out = []
        for s, val in I.call_value(st, a[1], [], t, b):
            es2 = entry_slot(I, s, a[0])
            out.append((s, entry_put(I, s, es2, I.norm(s, val))))
        return out
    return None
