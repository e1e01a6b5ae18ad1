"""Documents with known tags and attributes, queried through the library's own parser and matchers (all interpreted)."""
import itertools
import absint as AI
import strings as ST
import selparse as SP
from absint import some, none
from scenes import rc
from attrs import AttrWorld

DECODE = 7      # RenderOptions.decode_entity
_TAB = {}


def table(F):
    """Heap of the registries, with names no other interpreter hands out."""
    k = id(F)
    if k not in _TAB:
        I = SP.interp(F)
        I.ctr = itertools.count(10 ** 7)
        I, st = SP.table(F, I)
        _TAB[k] = {n: v for n, v in st.heap.items()}
    return _TAB[k]


class SelWorld(AttrWorld):
    def __init__(self, F, spec, elements, loose=(), texts=None, **kw):
        self.texts = texts
        self.known = elements
        tab = table(F)
        kw.setdefault("max_steps", 1500000)
        AttrWorld.__init__(self, F, spec, elements, loose=loose, **kw)
        fr = SP.Front(F)
        self.I.front = fr
        self.front = fr
        self.I.opt["recurse"] = 12
        self.I.opt["max_depth"] = 90
        self.I.opt["unroll_nd"] = 60
        self.S.st.heap.update({k: v for k, v in tab.items() if k not in self.S.st.heap})

    def hook(self, I, st, name, key, args, t, body):
        last = name.split("::")[-1]
        if self.texts is not None and last == "build" and "Node" in name and len(args) == 3:
            return self.build(I, st, args)
        if last == "default" and "RenderOptions" in t["dt"]:
            return [(st, ("ag", "rphtml::config::RenderOptions", None, tuple((i, AI.FALSE) for i in range(9))))]
        if last == "owner_document" and t["dt"].startswith("std::option::Option"):
            nm = I.fresh("document")
            st.heap[nm] = ("ag", "Document", None, ((0, ("s", "DOCHOLDER", "rphtml::parser::DocHolder")),))
            return [(st, some(("bx", nm), t["dt"]))]
        if key == "DocHolder::get_element_by_id":
            w = ST.text(I, st, args[1])
            if w is None:
                raise AI.Unsupported("id not known")
            hit = [e for e in self.tree.order if e in self.known and any(ST.lower(k) == "id" and v == w for k, v in self.known[e][1])]
            return [(st, some(rc(hit[0]), t["dt"]) if hit else none(t["dt"]))]
        if key == "Node::is_document":
            tops = self.tree.childs("ROOT")
            rest = [k for k in self.tree.kids["ROOT"] if self.tree.kind(k) == "Text"]
            ok = len(tops) == 1 and not rest and ST.lower(self.known.get(tops[0], ("p", []))[0]) == "html"
            return [(st, AI.tup(AI.TRUE if ok else AI.FALSE, AI.TRUE))]
        r = self.front.call(I, st, name, key, args, t, body)
        if r is not None:
            return r
        if last == "from_str" and "Selector" in name or key == "str::parse" and "Selector" in t["dt"] or last == "make_comb_all" or name == "mesdoc::init":
            return None
        return AttrWorld.hook(self, I, st, name, key, args, t, body)

    def build(self, I, st, args):
        """rphtml's Node::build on known texts: inner text of an element, or a text node's own content."""
        v = args[0]
        cell = None
        for _ in range(6):
            v = I.norm(st, v)
            if v[0] == "rc":
                cell = v[1]
                break
            if v[0] == "r":
                if v[1][0][0] == "H" and v[1][0][1] in self.tree.kids:
                    cell = v[1][0][1]
                    break
                v = I.read(st, v[1])
                continue
            break
        inner = I.norm(st, args[2])
        if cell is None or inner[0] != "b":
            raise AI.Unsupported("rendering of an unknown node")
        o = args[1]
        for _ in range(4):
            o = I.norm(st, o)
            if o[0] != "r":
                break
            o = I.read(st, o[1])
        dec = I.norm(st, AI.fget(o[3], DECODE) or ("u",)) if o[0] == "ag" else ("u",)
        if dec[0] != "b":
            raise AI.Unsupported("rendering options not known")
        kind = self.tree.kind(cell)
        if inner[1] and kind == "Tag" or not inner[1] and kind == "Text":
            x = self.text(cell)
            return [(st, ST.charvec(x if dec[1] else x.replace("&", "&amp;").replace("<", "&lt;").replace("\u00e9", "&eacute;")))]
        raise AI.Unsupported("rendering of markup")

    def text(self, e):
        if self.tree.kind(e) == "Text":
            return self.texts.get(e, "")
        return "".join(self.text(k) for k in self.tree.kids[e] if self.tree.kind(k) in ("Tag", "Text"))
