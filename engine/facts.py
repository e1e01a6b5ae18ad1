"""Loading of the fact base and name helpers."""
import json, re
from functools import lru_cache


def split_top(s, sep=","):
    out, d, cur = [], 0, ""
    i = 0
    while i < len(s):
        c = s[i]
        if c in "<([{":
            d += 1
        elif c in ">)]}":
            if c == ">" and i > 0 and s[i - 1] == "-":
                pass
            else:
                d -= 1
        if c == sep and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


@lru_cache(None)
def strip_generics(p):
    """Remove every <...> group (not `<impl ..>` heads)."""
    out, d = "", 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            d += 1
        elif c == ">" and not (i and p[i - 1] == "-"):
            d -= 1
        elif d == 0:
            out += c
        i += 1
    return re.sub(r"(::)+", "::", out).strip(":")


@lru_cache(None)
def thead(t):
    """Head of a type: 'Vec', 'Option', '&', '&mut', '[]', '()', 'dyn X'."""
    t = t.strip()
    if t.startswith("&"):
        t2 = re.sub(r"^&('\w+ )?", "", t)
        return "&mut" if t2.startswith("mut ") else "&"
    if t.startswith("("):
        inner = t[1:-1]
        if inner.startswith("dyn "):
            return thead(inner)
        return "()"
    if t.startswith("["):
        return "[]"
    if t.startswith("*"):
        return "*"
    if t.startswith("dyn "):
        m = re.match(r"dyn (?:for<[^>]*> )?([\w:]+)", t)
        return "dyn " + (m.group(1).split("::")[-1] if m else "?")
    t = strip_generics(t)
    return t.split("::")[-1]


@lru_cache(None)
def targs(t):
    m = re.match(r"^[^<]*<(.*)>$", t.strip())
    if not m:
        return ()
    return tuple(a for a in split_top(m.group(1)) if not a.startswith("'"))


@lru_cache(None)
def pointee(t):
    t = t.strip()
    if t.startswith("&"):
        t = re.sub(r"^&('\w+ )?(mut )?", "", t)
    elif t.startswith("*"):
        t = re.sub(r"^\*(const|mut) ", "", t)
    else:
        a = targs(t)
        t = a[0] if a else "?"
    if t.startswith("(dyn "):
        t = t[1:-1]
    return t


@lru_cache(None)
def simp(path):
    """Short stable key of a callee path."""
    m = re.match(r"^<(.+) as (.+)>::(\w+)(~\d+)?$", path)
    if m:
        # the ' as ' must be at top level
        inner = path[1:path.rindex(">::")]
        d, pos = 0, -1
        for i in range(len(inner)):
            c = inner[i]
            if c in "<([":
                d += 1
            elif c in ">)]" and inner[i - 1] != "-":
                d -= 1
            elif d == 0 and inner.startswith(" as ", i):
                pos = i
        if pos >= 0:
            return thead(inner[:pos]) + " as " + thead(inner[pos + 4:]) + "::" + m.group(3)
    m = re.match(r"^(.*?)<impl (.+)>::(\w+)$", path)
    if m:
        inner = m.group(2)
        if " for " in inner:
            tr, ty = inner.split(" for ", 1)
            return thead(ty) + " as " + thead(tr) + "::" + m.group(3)
        return thead(inner) + "::" + m.group(3)
    p = strip_generics(path)
    return "::".join(p.split("::")[-2:])


class Facts:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d
        self.bodies = {b["name"]: b for b in d["bodies"]}
        self.statics = {s["name"]: s for s in d["statics"]}
        self.traits = {t["name"]: t for t in d["traits"]}
        self.impls = d["impls"]
        self.enums = {e["name"]: e for e in d["enums"]}
        self.structs = {s["name"]: s for s in d["structs"]}
        # (trait, method) -> [(self type, body)]
        self.trait_impls = {}
        for im in self.impls:
            if im.get("trait"):
                for m in im["methods"]:
                    self.trait_impls.setdefault((im["trait"].split("<")[0], m[0]), []).append((im["self"], m[1]))
        self.trait_defaults = {}
        for t in self.traits.values():
            for m in t["methods"]:
                self.trait_defaults[m[1]] = m[2]

    def fn_bodies(self):
        return [b for b in self.bodies.values() if "#promoted" not in b["name"]]

    def find(self, suffix):
        return [n for n in self.bodies if n == suffix or n.endswith("::" + suffix)]

    def one(self, suffix):
        r = self.find(suffix)
        return r[0] if len(r) == 1 else None

    def closures_of(self, name):
        return [n for n in self.bodies if n.startswith(name + "::{closure#") and "#promoted" not in n]
