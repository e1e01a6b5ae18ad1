"""Initial abstract heaps: every tree around the node a mutator is called on, up to group lengths."""
import lin as L
import absint as AI
from absint import some, none

NODE = "rphtml::parser::Node"
NT = "rphtml::parser::NodeType"
OPTW = "std::option::Option<std::rc::Weak<std::cell::RefCell<rphtml::parser::Node>>>"
OPTV = "std::option::Option<std::vec::Vec<std::rc::Rc<std::cell::RefCell<rphtml::parser::Node>>>>"


def rc(c):
    return ("rc", c)


def nt(v):
    return ("en", NT, v, None, ())


class Scene:
    def __init__(self, I):
        self.I = I
        self.st = AI.St()
        self.st.notes["cells"] = ()
        self.lists = {}

    def cell(self, name, ntype="Tag", parent=None, index=None, childs=None, **fields):
        """childs: None (no list), or list of ('g', gid, len) / cell names; 'any' leaves it open."""
        I, st = self.I, self.st
        st.notes["cells"] = st.notes["cells"] + (name,)
        f = {}
        if ntype is not None:
            f["node_type"] = nt(ntype)
        if parent != "any":
            f["parent"] = some(("wk", parent), OPTW) if parent else none(OPTW)
        if index is not None:
            f["index"] = index
        if childs != "any":
            if childs is None:
                f["childs"] = none(OPTV)
            else:
                f["childs"] = some(("vec", self.segs(childs)), OPTV)
        f.update(fields)
        st.heap[name] = ("ag", NODE, name, tuple(sorted((I.node_idx[k], v) for k, v in f.items() if k in I.node_idx)))
        return name

    def segs(self, childs):
        out = []
        for c in childs:
            if isinstance(c, tuple) and c[0] == "g":
                out.append(("grp", c[1], L.ZERO, c[2]))
            else:
                out.append(("one", rc(c)))
        return tuple(out)

    def group(self, gid, parent, base, **fields):
        """Nodes gid[0..): index base + x, parent link to `parent`."""
        g = dict(index=lambda x, b=base: L.add(b, x))
        g["parent"] = some(("wk", parent), OPTW) if parent else none(OPTW)
        g.update(fields)
        self.st.groups[gid] = g

    def tree(self, name, members, ntype="Tag", parent=None, index=None, **kw):
        """An element with the given child list; positions and parent links are consistent."""
        off = L.ZERO
        segs = []
        for m in members:
            if isinstance(m, tuple):
                _, gid, ln = m[:3]
                kw2 = m[3] if len(m) > 3 else {}
                self.group(gid, name, off, **kw2)
                segs.append(("g", gid, ln))
                off = L.add(off, ln)
            else:
                self.pending.append((m, name, off))
                segs.append(m)
                off = L.addc(off, 1)
        return self.cell(name, ntype, parent, index, segs, **kw)

    pending = []

    def boxed(self, cell):
        obj = "box:" + cell
        self.st.heap[obj] = rc(cell)
        return ("bx", obj)

    def ref(self, v, name):
        self.st.heap[name] = v
        return ("r", (("H", name), ()))


def node_field(I, st, cell, name):
    return I.read(st, (("H", cell), (("f", I.node_idx[name], I.node_fty[name]),)))


def child_segs(I, st, cell):
    v = node_field(I, st, cell, "childs")
    v = I.norm(st, v)
    if v[0] == "en" and v[2] == "None":
        return ()
    if v[0] == "en" and v[2] == "Some":
        x = AI.fget(v[4], 0)
        x = I.norm(st, x) if x is not None else None
        if x is not None and x[0] == "vec":
            return I.normsegs(st, x[1])
    return None
