"""Abstract words for the selector parser.

A character is represented by its class: two characters no constant, range or predicate of the reached code (or of the
regular expressions it holds) tells apart have one representative.  Words are built from the interpreted rule table: one
instance per rule, its prefixes, and one change at every place.
"""
import re
import attrs as AT
import absint as AI
import lin as L
import selparse as SP
import strings as ST

# letters, digits, signs the grammar uses, ASCII and Unicode blanks, controls, two-, three- and four-byte characters
BASE = ["a", "n", "A", "0", "1", "_", "-", "+", ">", "~", ",", "*", "#", ".", ":", "[", "]", "(", ")", "=", "^", "$", "|", "!", "'", '"', "\\", "/", "<", "`", "{", "}",
        " ", "\n", "\t", "\x0b", "\u00a0", "\u3000", "\x00", "\x1c", "\u00e9", "\u0663", "\u4e2d", "\U0001f600"]
NTH = ["n", "1", "0", "2n", "-n", "+n", "2n+1", "2n-1", "-2n + 3", "+0", "-1", "even", "odd", "0n+1", "2147483647", "2147483648", "-2147483648", "-2147483649",
       "99999999999999999999", "99999999999999999999n", "n+99999999999999999999", "4294967296n", "9223372036854775808n+1", "1\u0663", "1\u0663n", "n + 1\u0663", "+", "-", "2n+", "ev", "od", "n n", "01", "01n"]
VALUES = ["", "=b", "='b'", '="b"', "^=b", "$=b", "*=b", "~=b", "|=b", "!=b", "=''", '=""', "='b", '="b', "=", "^=", "^", " = 'b c' ", "='b\\'c'", "='\u4e2d'", "=\u4e2d", "= ", "='\\"]
TEXTS = ["a", "'a b'", '"a"', "", "'a", "\u4e2d", "'\\'", "a)b"]


def rules(I, st):
    """[(name, rule object)] of the interpreted registry."""
    out = []
    for k, v in st.heap.items():
        if not (isinstance(k, str) and k.startswith("static:") and "RULES" in k):
            continue
        v = I.norm(st, v)
        if v[0] == "ag" and v[1].startswith("std::sync"):
            v = I.norm(st, AI.fget(v[3], 0))
        if v[0] != "vec":
            continue
        for g in v[1]:
            if g[0] != "one":
                return None
            x = I.norm(st, g[1])
            nm = ST.text(I, st, AI.fget(x[3], 0))
            cell = I.norm(st, AI.fget(x[3], 1))
            out.append((nm, cell))
    return out or None


def rule_object(I, st, cell):
    return I.norm(st, I.read(st, (("H", cell[1]), ()))) if cell[0] in ("rc", "bx") else cell


def queue(I, st, cell, F):
    """Patterns of a rule: ('lit', text) | ('pat', type name, detail) | None if not known."""
    from setops import fields_of
    r = rule_object(I, st, cell)
    if r[0] != "ag":
        return None
    i = fields_of(F, r[1].split("<")[0]).get("queues")
    q = I.norm(st, AI.fget(r[3], i)) if i is not None else ("u",)
    if q[0] != "vec":
        return None
    out = []
    for g in q[1]:
        if g[0] != "one":
            return None
        x = I.front.struct_of(I, st, g[1])
        if L.isint(x) and not x[2]:
            out.append(("lit", chr(x[1])))
        elif x[0] == "vec":
            t = "".join(chr(I.norm(st, h[1])[1]) for h in x[1])
            out.append(("lit", t))
        elif x[0] == "ag":
            d = ""
            if x[3]:
                c = I.norm(st, AI.fget(x[3], 0))
                if c[0] == "en" and c[4]:
                    c = AI.fget(c[4], 0)
                d = ST.text(I, st, c) or ""
            out.append(("pat", x[1].split("<")[0].split("::")[-1], d))
        else:
            return None
    return out


def samples(p):
    if p[0] == "lit":
        return [p[1]]
    n = p[1]
    if n == "Spaces":
        return ["", " "]
    if n == "Nth":
        return NTH
    if n == "RegExp":
        return VALUES if "=" in p[2][:20] else TEXTS
    if n == "NestedSelector":
        return ["a", "", "a b", ".a,b", ":not(a)", "(", "[a", "a > ", ">a", "*", "\u4e2d", "a,"]
    return ["a", "a-1", "\u4e2d", "1", "a\\"]


def instances(q):
    """One instance per sample of each place, the other places at their first sample."""
    base = [samples(p)[0] for p in q]
    out = ["".join(base)]
    for i, p in enumerate(q):
        for s in samples(p)[1:]:
            out.append("".join(base[:i] + [s] + base[i + 1:]))
    return out


def alphabet(F):
    roots = [n for n in F.bodies if n.endswith("selector::Selector::from_str")]
    out = list(BASE)
    chars = AT.constants(F, AT.reached(F, roots))
    for c in chars:
        if c not in out and not (c.isalnum() and c.isascii()):
            out.append(c)
    return out


def words(F, I, st, tier):
    out, seen = [], set()

    def add(w):
        if w not in seen:
            seen.add(w)
            out.append(w)
    rs = rules(I, st) or []
    alpha = alphabet(F)
    forms, full, sigs = [], [], set()
    for nm, cell in rs:
        q = queue(I, st, cell, F)
        if q is None:
            continue
        ins = instances(q)
        forms += ins
        # rules built from the same patterns differ in their first word only: one of them is taken apart place by place
        sig = tuple(p[1:] if p[0] == "pat" else p[1][-1] for p in q)
        if any(p[0] == "pat" for p in q) and (tier == "thorough" or sig not in sigs):
            sigs.add(sig)
            full.append(ins[0])
    for w in AT.words(alpha, 1):
        add(w)
    for w in forms:
        add(w)
    for w in forms:
        for k in range(len(w)):
            add(w[:k])
    # compounds: every form after, before and beside another
    firsts = []
    for nm, cell in rs:
        q = queue(I, st, cell, F)
        if q is not None:
            firsts.append(instances(q)[0])
    for f in firsts:
        for c in ("a" + f, f + ".a", f + " a", "a > " + f, "a," + f, f + "," + f, f + "\u3000>\u3000" + f, f + "  " + f, f + " ", " " + f, ">" + f, f + ">", f + " , ", f + ",,a", "a ~ + " + f, ":not(" + f + ")", ":not(a " + f + ") b", ":has(" + f, f + "\\"):
            add(c)
    # nesting: every depth, closed as often or less or more often
    nest = []
    for nm, cell in rs:
        q = queue(I, st, cell, F)
        if q and any(p[0] == "pat" and p[1] == "NestedSelector" for p in q):
            i = next(k for k, p in enumerate(q) if p[0] == "pat" and p[1] == "NestedSelector")
            nest.append("".join(samples(p)[0] for p in q[:i]))
    for a in nest:
        for b in nest:
            for inner in ("a", "", "[a", "[a='", "a >", "a,", ":nth-child(2", "\u4e2d", "*"):
                for opened in ((a,), (a, b), (a, b, a), (a, "p ", b, ".c > ", a)):
                    k = sum(1 for o in opened if o in nest)
                    for c in range(k + 2):
                        add("".join(opened) + inner + ")" * c)
    # long words
    for w in ("a" * 130, ".a" * 30, "a " * 30, "a " * 30 + "a", "a," * 30, "a>" * 30 + "a", "[a='" + "b" * 120 + "']", "[a='" + "b" * 120, "[" + "a" * 120, ":nth-child(" + "1" * 60 + ")", ":nth-child(" + "1" * 60 + "n+1)", ":contains(" + "\u4e2d" * 60 + ")", " " * 80, "#" + "a\\:" * 30, "a" + "\\" * 41, ":not(" + "a" * 100 + ")", "*" * 50):
        add(w)
    for w in AT.words(alpha, 2):
        add(w)
    for f in full + ["a > b", "a, b"]:
        for k in range(len(f) + 1):
            for c in alpha:
                add(f[:k] + c + f[k:])
                if k < len(f):
                    add(f[:k] + c + f[k + 1:])
    if tier == "thorough":
        core = [c for c in alpha if not c.isalnum()]
        for w in AT.words(core, 3):
            add(w)
    return out
