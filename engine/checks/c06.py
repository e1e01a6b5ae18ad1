"""Effect analysis: from every reading method of element sets, nodes, documents and text sets, no function reachable through
the call graph (trait dispatch, matcher closures, helpers) takes a mutable view of a node's cell, and none creates or copies
a node; the handle-duplicating method shares the node (reference-count increment) instead of copying it."""
import re
from callgraph import CallGraph
from facts import simp

EXPLAIN = __doc__
TECHNIQUE = "interprocedural effect analysis (node writes, node creation) over the resolved call graph"
NOTE = "Sound for writes through RefCell guards and Cell/RefCell setters in the crate; rphtml's readers (render, text, lookup) are trusted; user callbacks are outside."
ASSUME = ["rphtml functions Node::build, DocHolder::render/get_element_by_id/get_root_node and Node::is_same/is_document do not modify nodes"]
READ_SET = ["find", "filter", "filter_by", "filter_in", "children", "prev", "prev_all", "prev_until", "next", "next_all", "next_until", "siblings", "parent",
            "parents", "parents_until", "closest", "is", "is_by", "is_in", "is_all", "is_all_by", "is_all_in", "not", "not_by", "not_in", "has", "has_in",
            "eq", "first", "last", "slice", "add", "val", "text", "html", "htmls", "outer_html", "outer_htmls", "attr", "has_attr", "has_class", "get", "get_ref",
            "for_each", "each", "map", "length", "is_empty", "document", "cloned", "contains", "texts", "texts_by", "texts_by_rec", "into_iter"]
READ_NODE = ["index", "clone_node", "typed", "node_type", "parent", "owner_document", "text_contents", "text_chars", "text_content", "text", "root_element",
             "is", "is_root_element", "cloned", "next_element_sibling", "next_element_siblings", "previous_element_sibling", "previous_element_siblings",
             "siblings", "value", "tag_name", "tag_names", "child_nodes_length", "child_nodes_item", "child_nodes_item_since_by", "child_nodes", "children",
             "children_by", "get_attribute", "get_attributes", "has_attribute", "html", "inner_html", "outer_html", "texts", "texts_by", "texts_by_rec",
             "into_text", "to_node", "get_element_by_id", "source_code", "get_root_node", "document_element", "title", "head", "body", "onerror"]
READ_TEXTS = ["length", "is_empty", "get_ref", "for_each", "each", "filter_by", "into_iter", "get_mut_ref"]
CREATE = {"Node::clone_node", "Node::create_text_node", "Node::new", "Doc::parse", "Node::deep_clone", "Doc::parse_file"}
NODE_TY = re.compile(r"rphtml::parser::(Node|TagMeta|Attr|AttrData|Doc)\b|Vec<std::rc::Rc<std::cell::RefCell<rphtml")


def effects(F, G, name):
    """Direct node writes and creations in one function."""
    out = []
    b = F.bodies[name]
    for bl in b["blocks"]:
        t = bl["t"]
        if t["k"] != "call" or bl.get("u"):
            continue
        key = simp(t["f"].get("res") or t["f"].get("path") or "")
        args = " ".join(t["f"].get("args") or []) + " " + " ".join(t.get("at") or [])
        if key == "RefMut as DerefMut::deref_mut" and NODE_TY.search(args):
            out.append(("write", "mutable view of %s" % (NODE_TY.search(args).group(0).split("::")[-1]), t["sp"]))
        elif key in ("RefCell::replace", "RefCell::swap", "RefCell::take", "RefCell::replace_with", "Cell::set", "Cell::replace") and NODE_TY.search(args):
            out.append(("write", key, t["sp"]))
        elif key in CREATE:
            out.append(("create", key, t["sp"]))
        elif key.endswith("INodeTrait::copy_node") or key.endswith("IElementTrait::copied"):
            out.append(("create", key.split("::")[-1], t["sp"]))
    return out


def roots(F):
    out = []
    for b in F.fn_bodies():
        n = b["name"]
        if "{closure" in n or "#" in n:
            continue
        last = n.split("::")[-1]
        if not (b.get("reach") or b.get("trait_default") or b.get("impl_trait")):
            continue
        if "Elements" in n.split(last)[0] and last in READ_SET and ("Elements::<" in n or "Elements<" in n) and "Clone" not in n:
            out.append(("set." + last, n))
        elif "Texts" in n and last in READ_TEXTS:
            out.append(("texts." + last, n))
        elif last in READ_NODE and re.search(r"\bI(Node|Element|Document|Text)Trait\b", n):
            out.append(("node." + last, n))
    return out


def run(ctx):
    F = ctx.F
    G = CallGraph(F)
    eff = {b["name"]: effects(F, G, b["name"]) for b in F.fn_bodies()}
    ctx.count("functions", len(eff))
    ctx.count("functions that write or create nodes", sum(1 for v in eff.values() if v))
    rs = roots(F)
    ctx.count("reading methods", len(rs))
    for label, r in rs:
        reach = G.reach([r])
        hit = {"write": None, "create": None}
        for x in sorted(reach):
            for kind, what, sp in eff.get(x, ()):
                if hit[kind] is None:
                    hit[kind] = (x, what, sp)
        for kind, rule in (("write", "no node is written"), ("create", "no node is created or copied")):
            h = hit[kind]
            if h:
                p = G.path(r, h[0]) or [r, h[0]]
                ctx.ob("%s %s" % (label, kind), rule, "refuted", "%s (%s)" % (h[0], h[2]), "%s: %s, reached as %s" % (label, h[1], " -> ".join(x.split("::")[-1] for x in p[:8])))
            else:
                ctx.ob("%s %s: %d functions" % (label, kind, len(reach)), rule, "proven", r)
