"""Reference meaning of the selectors over an abstract document: which elements a selector text stands for.

A selector is a structure, printed to text for the library and evaluated here: ("tag", n), ("class", n), ("id", n), ("any",),
("attr", name, op, value), ("pseudo", name), ("nth", kind, a, b, spelling), ("contains", text), ("not", sel), ("has", sel);
a compound is a list of those; a complex selector is [compound, comb, compound, ...]; a selector list is a tuple of complex ones.
"""
WSP = " \t\n\r\x0c"


class Doc:
    """tree: setops.Tree; els: {name: (tag, [(attr, value|None)])}; texts: {text node: text}."""

    def __init__(self, tree, els, texts=None):
        self.tree, self.els, self.texts = tree, els, texts or {}

    def tag(self, e):
        return self.els.get(e, ("p", []))[0].lower()

    def has_attr(self, e, n):
        return any(k.lower() == n.lower() for k, _ in self.els.get(e, ("p", []))[1])

    def attr(self, e, n):
        """Value, None when the attribute has none or is missing."""
        for k, v in self.els.get(e, ("p", []))[1]:
            if k.lower() == n.lower():
                return v
        return None

    def text(self, e):
        if self.tree.kind(e) == "Text":
            return self.texts.get(e, "")
        return "".join(self.text(k) for k in self.tree.kids[e] if self.tree.kind(k) in ("Tag", "Text", "SpacesBetweenTag"))

    def up(self, e):
        p = self.tree.parent[e]
        return p if p is not None and self.tree.kind(p) == "Tag" else None

    # ---- simple selectors
    def simple(self, s, e):
        t, k = self.tree, s[0]
        if k == "any":
            return True
        if k == "tag":
            return self.tag(e) == s[1].lower()
        if k == "class":
            v = self.attr(e, "class")
            w = v or ""
            for c in WSP:
                w = w.replace(c, " ")
            return s[1] in [x for x in w.split(" ") if x]
        if k == "id":
            return self.attr(e, "id") == s[1]
        if k == "attr":
            return self.attribute(s, e)
        if k == "contains":
            return s[1] in self.text(e)
        if k == "not":
            return not self.match(s[1], e)
        if k == "has":
            return any(self.match(s[1], x) for x in t.axis("ChildrenAll", e))
        sib = t.childs(t.parent[e])
        same = [x for x in sib if self.tag(x) == self.tag(e)]
        if k == "nth":
            row = same if "of-type" in s[1] else sib
            pos = row.index(e) + 1 if "last" not in s[1] else len(row) - row.index(e)
            return prog(s[2], s[3], pos)
        n = s[1]
        if n == "first-child":
            return sib[0] == e
        if n == "last-child":
            return sib[-1] == e
        if n == "only-child":
            return sib == [e]
        if n == "first-of-type":
            return same[0] == e
        if n == "last-of-type":
            return same[-1] == e
        if n == "only-of-type":
            return same == [e]
        if n == "empty":
            return all(t.kind(x) == "Comment" for x in t.kids[e])
        if n == "root":
            return self.tag(e) == "html" and t.parent[e] is not None and t.kind(t.parent[e]) == "AbstractRoot"
        if n == "header":
            return self.tag(e) in ("h1", "h2", "h3", "h4", "h5", "h6")
        if n == "input":
            return self.tag(e) in ("input", "select", "textarea", "button")
        if n == "submit":
            return self.tag(e) in ("input", "button") and self.attr(e, "type") == "submit"
        if n == "checked":
            return self.checked(e)
        raise KeyError(n)

    def attribute(self, s, e):
        name, op, val = s[1:4]
        if op is None:
            return self.has_attr(e, name)
        v = self.attr(e, name)
        if op == "=":
            return (v or "") == val
        if op == "!=":
            return (v or "") != val
        if op == "|=":
            return (v or "") == val or v is not None and v.startswith(val + "-")
        if val == "" or v is None:
            return False
        if op == "^=":
            return v.startswith(val)
        if op == "$=":
            return v.endswith(val)
        if op == "*=":
            return val in v
        if op == "~=":
            w = v
            for c in WSP:
                w = w.replace(c, " ")
            return val in w.split(" ")
        raise KeyError(op)

    def checked(self, e):
        tag = self.tag(e)
        if tag == "input":
            return (self.attr(e, "type") or "").lower() in ("checkbox", "radio") and self.has_attr(e, "checked")
        if tag != "option":
            return False
        if self.has_attr(e, "selected"):
            return True
        p = self.up(e)
        if p is None or self.tag(p) != "select" or self.has_attr(p, "multiple"):
            return False
        sib = self.tree.childs(p)
        if any(self.tag(x) == "option" for x in sib[:sib.index(e)]):
            return False
        return not any(self.tag(x) == "option" and self.has_attr(x, "selected") for x in self.tree.axis("ChildrenAll", p))

    # ---- compound, complex, lists
    def compound(self, c, e):
        return all(self.simple(s, e) for s in c)

    def complex(self, c, e):
        """c: [compound, comb, compound, ...], matched from its last compound."""
        if not self.compound(c[-1], e):
            return False
        if len(c) == 1:
            return True
        rest, comb, t = c[:-2], c[-2], self.tree
        p = self.up(e)
        if comb == " ":
            while p is not None:
                if self.complex(rest, p):
                    return True
                p = self.up(p)
            return False
        if comb == ">":
            return p is not None and self.complex(rest, p)
        sib = t.childs(t.parent[e])
        i = sib.index(e)
        if comb == "+":
            return i > 0 and self.complex(rest, sib[i - 1])
        return any(self.complex(rest, x) for x in sib[:i])

    def match(self, sel, e):
        return any(self.complex(c, e) for c in sel)


def prog(a, b, pos):
    """pos = a*k + b for some k >= 0."""
    if a == 0:
        return pos == b
    return (pos - b) % a == 0 and (pos - b) // a >= 0


# ---------------------------------------------------------------- printing
def p_simple(s):
    k = s[0]
    if k == "any":
        return "*"
    if k == "tag":
        return s[1]
    if k == "class":
        return "." + s[1]
    if k == "id":
        return "#" + s[1]
    if k == "attr":
        if s[2] is None:
            return "[%s]" % s[1]
        q = s[4] if len(s) > 4 else '"'
        return "[%s%s%s%s%s]" % (s[1], s[2], q, s[3], q)
    if k == "contains":
        q = s[2] if len(s) > 2 else "'"
        return ":contains(%s%s%s)" % (q, s[1], q)
    if k in ("not", "has"):
        return ":%s(%s)" % (k, p_list(s[1]))
    if k == "nth":
        return ":%s(%s)" % (s[1], s[4])
    return ":" + s[1]


def p_complex(c):
    out = ""
    for i, x in enumerate(c):
        out += "".join(map(p_simple, x)) if i % 2 == 0 else x if x == " " else " %s " % x
    return out


def p_list(sel):
    return ", ".join(map(p_complex, sel))
