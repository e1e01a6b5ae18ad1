"""Every feature combination is type-checked by rustc from the working tree, and the public API of each build is read back
from the compiler: gated methods are present exactly when their feature (or one of their features) is on, the rest always."""
import itertools
from runner import dump, Abort

EXPLAIN = __doc__
TECHNIQUE = "exhaustive type-checking of all feature combinations + public API read from the compiler"
NOTE = "Exhaustive over the 8 combinations of text/insertion/destroy plus full; decides presence of the documented methods by name and receiver."
TEXT = ["texts", "texts_by", "texts_by_rec"]
INSERT = ["append", "append_to", "prepend", "prepend_to", "insert_before", "before", "insert_after", "after", "replace_with"]
DESTROY = ["remove", "empty"]
ALWAYS = ["find", "filter", "filter_by", "filter_in", "children", "prev", "prev_all", "prev_until", "next", "next_all", "next_until", "siblings", "parent",
          "parents", "parents_until", "closest", "is", "is_by", "is_in", "is_all", "is_all_by", "is_all_in", "not", "not_by", "not_in", "has", "has_in",
          "eq", "first", "last", "slice", "add", "val", "text", "set_text", "html", "set_html", "outer_html", "attr", "has_attr", "set_attr", "remove_attr",
          "has_class", "add_class", "remove_class", "toggle_class", "get", "for_each", "each", "map", "length", "is_empty"]
LOAD = ["load", "load_catch", "load_options", "load_options_catch", "dom"]
T_INSERT = ["insert_adjacent", "replace_with"]
T_DESTROY = ["remove_child"]
T_TEXT = ["texts", "texts_by", "texts_by_rec"]
T_ALWAYS = ["get_attribute", "set_attribute", "remove_attribute", "has_attribute", "inner_html", "outer_html", "children", "siblings", "next_element_sibling", "previous_element_sibling"]
X_TEXT = ["append_text", "prepend_text", "remove"]


def api(F):
    els, vis = set(), set()
    for b in F.fn_bodies():
        if not b.get("reach") or "{closure" in b["name"]:
            continue
        n = b["name"]
        last = n.split("::")[-1]
        if "Elements::<" in n and not n.startswith("<"):
            els.add(last)
        if n.startswith("Vis::") or "::Vis::" in n:
            vis.add(last)
    tr = {}
    for t in F.traits.values():
        tr[t["name"].split("::")[-1]] = {m[0] for m in t["methods"]}
    clone = any((im.get("trait") or "").startswith("std::clone::Clone") and "Elements<" in im["self"] for im in F.impls)
    texts = any(s.split("::")[-1].startswith("Texts") for s in F.structs)
    return els, vis, tr, clone, texts


def run(ctx):
    feats = ["text", "insertion", "destroy"]
    combos = []
    for r in range(4):
        combos += [",".join(c) for c in itertools.combinations(feats, r)]
    combos.append("full")
    for c in combos:
        on = set(feats) if c == "full" else set(x for x in c.split(",") if x)
        label = c or "no features"
        try:
            F = ctx.facts(c)
        except Abort as e:
            first = next((l for l in str(e).splitlines() if l.startswith("error")), str(e)[:200])
            ctx.ob("build [%s]" % label, "builds", "refuted", "features: " + label, first)
            continue
        ctx.count("feature combinations built")
        ctx.ob("build [%s]" % label, "builds", "proven", "features: " + label)
        els, vis, tr, clone, texts = api(F)
        ctx.count("public items read", len(els) + len(vis))

        def want(names, have, cond, what):
            for n in names:
                ok = (n in have) == cond
                ctx.ok("%s %s [%s]" % (what, n, label), "gated exactly by its feature" if cond is not True or names not in (ALWAYS, LOAD, T_ALWAYS) else "always present", ok, "features: " + label,
                       "%s %s is %s with %s" % (what, n, "missing" if cond else "present", label))
        t, i, d = "text" in on, "insertion" in on, "destroy" in on
        want(TEXT, els, t, "Elements method")
        want(INSERT, els, i, "Elements method")
        want(DESTROY, els, i or d, "Elements method")
        want(ALWAYS, els, True, "Elements method")
        want(LOAD, vis, True, "Vis function")
        et, xt = tr.get("IElementTrait"), tr.get("ITextTrait")
        if et:
            want(T_TEXT, et, t, "element method")
            want(T_INSERT, et, i, "element method")
            want(T_DESTROY, et, i or d, "element method")
            want(T_ALWAYS, et, True, "element method")
        if xt is not None:
            want(X_TEXT, xt, t, "text node method")
        ctx.ok("Elements: Clone [%s]" % label, "gated exactly by its feature", clone == (i or d), "features: " + label, "Clone for Elements is %s" % ("present" if clone else "missing"))
