"""More standard-library transformers: option, result, bool, mem, integer and iterator helpers."""
import lin as L
import models as M
from models import model, prefix, under, vloc, A, simp, symopt, slice_of, setvec, refto, fork, RES, to_iter, drain, default_of
from facts import thead, targs


def last(t):
    return simp(t["f"].get("res") or t["f"]["path"]).split("::")[-1]


def names_of(t):
    return RES if simp(t["f"].get("res") or t["f"]["path"]).startswith("Result") else ("None", "Some")


@model("Option::filter")
def opt_filter(I, st, t, a, b):
    out = []
    for s, k, x in symopt(I, st, a[0]):
        if k == "None":
            out.append((s, A().none(t["dt"])))
            continue
        for s2, r in I.call_value(s, a[1], [refto(I, s, x)], t, b):
            for s3, tr in fork(I, s2, r):
                out.append((s3, A().some(x, t["dt"]) if tr else A().none(t["dt"])))
    return out


@model("Option::is_some_and", "Option::is_none_or", "Result::is_ok_and", "Result::is_err_and")
def opt_is_and(I, st, t, a, b):
    m = last(t)
    out = []
    for s, k, x in symopt(I, st, a[0], names_of(t)):
        hit = k in (("Err",) if m == "is_err_and" else ("Some", "Ok"))
        if not hit:
            out.append((s, ("b", m == "is_none_or")))
        else:
            out += I.call_value(s, a[1], [x], t, b)
    return out


@model("Option::map_or_else", "Result::map_or_else", "Result::map_or")
def opt_map_or_else(I, st, t, a, b):
    out = []
    for s, k, x in symopt(I, st, a[0], names_of(t)):
        if k in ("Some", "Ok"):
            out += I.call_value(s, a[2], [x], t, b)
        elif last(t) == "map_or":
            out.append((s, a[1]))
        else:
            out += I.call_value(s, a[1], [x] if k == "Err" else [], t, b)
    return out


@model("Option::ok_or", "Option::ok_or_else")
def opt_ok_or(I, st, t, a, b):
    out = []
    for s, k, x in symopt(I, st, a[0]):
        if k == "Some":
            out.append((s, A().ok(x, t["dt"])))
        elif last(t) == "ok_or":
            out.append((s, A().err(a[1], t["dt"])))
        else:
            out += [(s2, A().err(y, t["dt"])) for s2, y in I.call_value(s, a[1], [], t, b)]
    return out


@model("Option::cloned", "Option::copied")
def opt_cloned(I, st, t, a, b):
    out = []
    for s, k, x in symopt(I, st, a[0]):
        if k == "None":
            out.append((s, A().none(t["dt"])))
            continue
        x = I.norm(s, x)
        v = I.read(s, x[1]) if x[0] == "r" else None
        if v is None:
            return None
        v = I.norm(s, v)
        if v[0] in ("bx", "s") and not L.isint(v):
            return None
        out.append((s, A().some(v, t["dt"])))
    return out


@model("Option::xor", "Option::and", "Option::zip")
def opt_two(I, st, t, a, b):
    m = last(t)
    out = []
    for s, k, x in symopt(I, st, a[0]):
        for s2, k2, y in symopt(I, s, a[1]):
            if m == "and":
                r = ("en", t["dt"], k2, None, ((0, y),) if k2 == "Some" else ()) if k == "Some" else A().none(t["dt"])
            elif m == "zip":
                r = A().some(A().tup(x, y), t["dt"]) if k == k2 == "Some" else A().none(t["dt"])
            else:
                r = A().none(t["dt"]) if k == k2 else A().some(x if k == "Some" else y, t["dt"])
            out.append((s2, r))
    return out


@model("Option::replace", "Option::insert", "mem::replace", "RefCell::replace")
def replace(I, st, t, a, b):
    v = I.norm(st, a[0])
    if v[0] != "r" or last(t) == "insert":
        return None
    key = simp(t["f"].get("res") or t["f"]["path"])
    if key.startswith("RefCell"):
        return None
    old = I.read(st, v[1])
    I.write(st, v[1], A().some(a[1], t["dt"]) if key.startswith("Option") else I.norm(st, a[1]))
    return [(st, old)]


@model("mem::take")
def mem_take(I, st, t, a, b):
    v = I.norm(st, a[0])
    if v[0] != "r":
        return None
    old = I.read(st, v[1])
    d = default_of(I, st, I.generic(t["dt"]))
    if d[0] == "s":
        return None
    I.write(st, v[1], d)
    return [(st, old)]


@model("mem::swap")
def mem_swap(I, st, t, a, b):
    x, y = I.norm(st, a[0]), I.norm(st, a[1])
    if x[0] != "r" or y[0] != "r":
        return None
    p, q = I.read(st, x[1]), I.read(st, y[1])
    I.write(st, x[1], q)
    I.write(st, y[1], p)
    return [(st, A().UNIT)]


@model("bool::then", "bool::then_some")
def bool_then(I, st, t, a, b):
    out = []
    for s, tr in fork(I, st, a[0]):
        if not tr:
            out.append((s, A().none(t["dt"])))
        elif last(t) == "then_some":
            out.append((s, A().some(a[1], t["dt"])))
        else:
            out += [(s2, A().some(y, t["dt"])) for s2, y in I.call_value(s, a[1], [], t, b)]
    return out


@model("Option::flatten")
def opt_flatten(I, st, t, a, b):
    out = []
    for s, k, x in symopt(I, st, a[0]):
        out.append((s, I.norm(s, x) if k == "Some" else A().none(t["dt"])))
    return out


@model("Vec::reserve", "Vec::shrink_to_fit", "Vec::reserve_exact", "String::reserve", "mem::drop")
def nothing(I, st, t, a, b):
    if last(t) == "drop":
        return None
    return [(st, A().UNIT)]


@model("[]::swap")
def sl_swap(I, st, t, a, b):
    s4 = slice_of(I, st, a[0])
    i, j = I.norm(st, a[1]), I.norm(st, a[2])
    if s4 is None or not (L.isint(i) and L.isint(j)) or i[2] or j[2] or s4[1] != L.ZERO:
        return None
    segs = list(I.normsegs(st, s4[3][1]))
    if not all(g[0] == "one" for g in segs):
        return None
    if i[1] >= len(segs) or j[1] >= len(segs):
        I.panic(st, "index out of range", b, t["sp"])
        return []
    segs[i[1]], segs[j[1]] = segs[j[1]], segs[i[1]]
    setvec(I, st, s4[0], tuple(segs))
    return [(st, A().UNIT)]


@model("Vec::swap_remove")
def swap_remove(I, st, t, a, b):
    lv = vloc(I, st, a[0])
    i = I.norm(st, a[1])
    if not lv or not L.isint(i) or i[2]:
        return None
    segs = list(I.normsegs(st, lv[1][1]))
    if not all(g[0] == "one" for g in segs):
        return None
    if i[1] >= len(segs):
        I.panic(st, "index out of range", b, t["sp"])
        return []
    x = segs[i[1]]
    segs[i[1]] = segs[-1]
    setvec(I, st, lv[0], tuple(segs[:-1]))
    return [(st, x[1])]


@prefix(r"^(usize|isize|u8|u16|u32|u64|i32|i64)::(saturating_sub|saturating_add|checked_sub|checked_add|wrapping_sub|wrapping_add|abs|min|max|abs_diff|pow|signum|is_positive|is_negative|rem_euclid|div_euclid|checked_mul|saturating_mul|checked_div|checked_rem)$|^(usize|isize|u32|u64|i32) as Ord::(min|max)$|^cmp::(min|max)$")
def int_op(I, st, t, a, b):
    m = last(t)
    xs = [I.norm(st, under(I, st, x)) for x in a]
    if not all(L.isint(x) for x in xs):
        return None
    ty = t["dt"]
    inner = (targs(ty) or ("usize",))[0] if thead(ty) == "Option" else ty
    uns = inner in A().UNSIGNED
    x = xs[0]
    y = xs[1] if len(xs) > 1 else None
    conc = all(not v[2] for v in xs)
    if m in ("min", "max"):
        out = []
        for s, tr in fork(I, st, I.decide(st, ("c", "ge", L.sub(x, y)))):
            out.append((s, (y if tr else x) if m == "min" else (x if tr else y)))
        return out
    if m in ("saturating_sub", "checked_sub", "wrapping_sub"):
        d = L.sub(x, y)
        if not uns:
            return [(st, A().some(d, ty) if m.startswith("checked") else d)]
        out = []
        for s, tr in fork(I, st, I.decide(st, ("c", "ge", d))):
            if tr:
                out.append((s, A().some(d, ty) if m == "checked_sub" else d))
            elif m == "wrapping_sub":
                return None
            else:
                out.append((s, A().none(ty) if m == "checked_sub" else L.ZERO))
        return out
    if m in ("saturating_add", "checked_add", "wrapping_add"):
        d = L.add(x, y)
        if conc and d[1] >= 2 ** 64:
            return None
        return [(st, A().some(d, ty) if m.startswith("checked") else d)]
    if m == "abs" or m == "abs_diff":
        d = L.sub(x, y) if y is not None else x
        return [(s, d if tr else L.scale(d, -1)) for s, tr in fork(I, st, I.decide(st, ("c", "ge", d)))]
    if not conc:
        return None
    p, q = x[1], (y[1] if y is not None else None)
    if m == "signum":
        return [(st, L.const((p > 0) - (p < 0)))]
    if m in ("is_positive", "is_negative"):
        return [(st, ("b", p > 0 if m == "is_positive" else p < 0))]
    if m in ("rem_euclid", "div_euclid") and q:
        r = p % abs(q)
        return [(st, L.const(r if m == "rem_euclid" else (p - r) // q))]
    if m in ("checked_div", "checked_rem"):
        if q == 0:
            return [(st, A().none(ty))]
        d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
        return [(st, A().some(L.const(d if m == "checked_div" else p - d * q), ty))]
    if m in ("checked_mul", "saturating_mul") and abs(p * q) < 2 ** 62:
        return [(st, A().some(L.const(p * q), ty) if m == "checked_mul" else L.const(p * q))]
    return None


@model("iter::once", "iter::empty")
def iter_once(I, st, t, a, b):
    v = ("vec", (("one", I.norm(st, a[0])),) if a else ())
    return [(st, ("it", "own", v, L.ZERO, L.const(len(v[1]))))]


@model("Iterator::flat_map")
def flat_map(I, st, t, a, b):
    r = to_iter(I, st, a[0])
    if r is None:
        return None
    d = drain(I, st, r, t, b)
    if d is None:
        return None
    out = []
    for s, xs in d:
        work = [(s, 0, [])]
        while work:
            s1, i, acc = work.pop()
            if i == len(xs):
                v = ("vec", tuple(("one", x) for x in acc))
                out.append((s1, ("it", "own", v, L.ZERO, L.const(len(acc)))))
                continue
            for s2, y in I.call_value(s1, a[1], [xs[i]], t, b):
                sg = M.segs_of_iter(I, s2, y, t, b)
                if sg is None:
                    return None
                for s3, segs in sg:
                    if not all(g[0] == "one" for g in segs):
                        return None
                    work.append((s3, i + 1, acc + [g[1] for g in segs]))
    return out


@model("VecDeque::pop_front", "VecDeque::pop_back")
def deque_pop(I, st, t, a, b):
    lv = vloc(I, st, a[0])
    if not lv:
        return None
    segs = I.normsegs(st, lv[1][1])
    if not all(g[0] == "one" for g in segs):
        return None
    if not segs:
        return [(st, A().none(t["dt"]))]
    x = segs[0] if last(t) == "pop_front" else segs[-1]
    setvec(I, st, lv[0], segs[1:] if last(t) == "pop_front" else segs[:-1])
    return [(st, A().some(x[1], t["dt"]))]


@model("ptr::eq")
def ptr_eq(I, st, t, a, b):
    x, y = I.norm(st, a[0]), I.norm(st, a[1])
    if x[0] == "r" and y[0] == "r" and x[1] == y[1]:
        return [(st, A().TRUE)]
    return None


@model("Node::clone_node")
def clone_node(I, st, t, a, b):
    """rphtml: a deep copy; every position in the subtree is made relative to the copied node's (unsigned subtraction)."""
    v = I.norm(st, a[0])
    n = 0
    while v[0] == "r" and v[1][1] == () and n < 4:
        if v[1][0][0] == "H" and I.norm(st, st.heap.get(v[1][0][1], ("u",)))[0] == "ag":
            break
        v = I.norm(st, I.read(st, v[1]))
        n += 1
    if v[0] != "r" or v[1][0][0] != "H" or v[1][1] != ():
        return None
    src = v[1][0][1]
    ix = I.node_idx
    if not all(k in ix for k in ("index", "parent", "childs", "node_type")):
        return None

    def get(cell, k):
        return I.norm(st, I.read(st, (("H", cell), (("f", ix[k], I.node_fty[k]),))))

    def kids(cell):
        c = get(cell, "childs")
        if c[0] == "en" and c[2] == "None":
            return None
        if c[0] != "en":
            raise LookupError
        x = I.norm(st, A().fget(c[4], 0) or ("u",))
        if x[0] != "vec" or not all(g[0] == "one" and I.norm(st, g[1])[0] == "rc" for g in x[1]):
            raise LookupError
        return [I.norm(st, g[1])[1] for g in x[1]]

    made = []

    def copy(cell, depth=0):
        if depth > 12 or not isinstance(cell, str):
            raise LookupError
        ks = kids(cell)
        new = I.fresh("copy")
        made.append((cell, new))
        f = {ix["index"]: L.ZERO, ix["parent"]: A().none("std::option::Option<?>"), ix["node_type"]: get(cell, "node_type")}
        for k in ("root", "document", "content", "meta"):
            if k in ix:
                f[ix[k]] = get(cell, k)
        f[ix["childs"]] = A().none("std::option::Option<?>")
        st.heap[new] = ("ag", "rphtml::parser::Node", new, tuple(sorted(f.items())))
        if ks is not None:
            out = []
            for k in ks:
                c = copy(k, depth + 1)
                g = dict(st.heap[c][3])
                g[ix["parent"]] = A().some(("wk", new), "std::option::Option<?>")
                g[ix["index"]] = get(k, "index")
                st.heap[c] = ("ag", "rphtml::parser::Node", c, tuple(sorted(g.items())))
                out.append(("one", ("rc", c)))
            f[ix["childs"]] = A().some(("vec", tuple(out)), "std::option::Option<?>")
            st.heap[new] = ("ag", "rphtml::parser::Node", new, tuple(sorted(f.items())))
        return new
    try:
        new = copy(src)
    except LookupError:
        return None
    st.notes["cells"] = st.notes.get("cells", ()) + tuple(c for _, c in made)
    # positions
    pos = get(src, "begin_at") if "begin_at" in ix else ("s", src + ".begin_at", "usize")
    if not L.isint(pos):
        pos = L.sym(src + ".begin_at", True)
    for old, _ in made:
        if old == src:
            continue
        p = get(old, "begin_at") if "begin_at" in ix else L.sym(old + ".begin_at", True)
        if not L.isint(p):
            p = L.sym(old + ".begin_at", True)
        d = L.sub(p, pos)
        if not st.ge(d):
            bad = st.copy()
            if bad.add_ge(L.addc(L.scale(d, -1), -1)):
                I.panic(bad, "overflow of the copied positions", b, t["sp"])
            if not st.add_ge(d):
                return []
    if thead(t["dt"]) == "Rc":
        return [(st, ("rc", new))]
    return None
