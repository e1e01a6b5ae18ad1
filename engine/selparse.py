"""Interpretation of the selector front end: registries, rule table, patterns and parser, on known or unknown text.

The lazily built registries are evaluated by interpreting their initialisers and `mesdoc::init`; locks are transparent here
(their discipline is C03's); regular expressions are evaluated on known text with an equivalent expression.
"""
import re
import lin as L
import absint as AI
import models as M
import strings as ST
from absint import some, none, ok, err
from models import under

PAT = "selector::pattern::Pattern"
REGEX = "regex::Regex"
CAPS = "regex::Captures"
MATCH = "regex::Match"
OPT = "std::option::Option<?>"


_SP = "\\t\\n\\x0b\\x0c\\r \\x85\\xa0\\u1680\\u2000-\\u200a\\u2028\\u2029\\u202f\\u205f\\u3000"
_S = {False: "[" + _SP + "]", True: _SP}


def pyre(p):
    """The same expression in Python's syntax (the subset used here is common to both)."""
    p = p.replace("\\z", "\\Z")
    # `\\s` is Unicode White_Space there; Python's also takes four control characters
    p = re.sub(r"\\([\\s])", lambda m: _S[len(re.findall(r"(?<!\\)\[", p[:m.start()])) > len(re.findall(r"(?<!\\)\]", p[:m.start()]))] if m.group(1) == "s" else m.group(0), p)
    # possessive '?+' exists in Python 3.11+ and Rust reads `\\?+` as repeated '?': make it a greedy group
    p = re.sub(r"(\\\\|\\.|\[[^\]]*\]|.)\?\+", r"(?:\1)*", p)
    return re.compile(p)


class Front:
    """Hook for the interpreter: statics, locks, regular expressions and pattern dispatch."""

    def __init__(self, F):
        self.F = F
        self.impls = {}          # method -> {self type: body}
        for (tr, m), l in F.trait_impls.items():
            if tr.endswith(PAT):
                for ty, nm in l:
                    self.impls.setdefault(m, {})[ty] = nm
        self.trace = []

    # ---- helpers
    def struct_of(self, I, st, v):
        x = I.norm(st, v)
        for _ in range(8):
            if x[0] == "r":
                x = I.norm(st, I.read(st, x[1]))
            elif x[0] == "bx":
                x = I.norm(st, st.heap.get(x[1], ("u",)))
            elif x[0] == "gd":
                x = I.norm(st, I.read(st, x[3]))
            else:
                break
        return x

    def static(self, I, st, name, init, t, body):
        obj = "static:" + name
        if obj in st.heap:
            return [(st, ("r", (("H", obj), ())))]
        outs = []
        for s, v in I.call_value(st, init, [], t, body):
            s.heap[obj] = v
            outs.append((s, ("r", (("H", obj), ()))))
        return outs

    def call(self, I, st, name, key, args, t, body):
        last = name.split("::")[-1]
        if re.search(r"lazy::Lazy(::<\w+>)?::get$", name) or key.endswith("Lazy::get"):
            nm = I.norm(st, args[0])
            n = nm[1] if nm[0] == "s" else None
            if n is None and nm[0] == "r":
                x = I.norm(st, I.read(st, nm[1]))
                n = x[1] if x[0] == "s" else repr(nm[1])
            if n is None:
                return None
            return self.static(I, st, n, args[1], t, body)
        if key.endswith(("OnceLock::get_or_init", "LazyLock::force", "OnceCell::get_or_init")) and len(args) == 2:
            return self.static(I, st, I.argkey(st, args[0]), args[1], t, body)
        if key == "Once::call_once":
            flag = "once:" + I.argkey(st, args[0])
            if flag in st.heap:
                return [(st, AI.UNIT)]
            st.heap[flag] = AI.TRUE
            return [(s, AI.UNIT) for s, _ in I.call_value(st, args[1], [], t, body)]
        if key in ("Mutex::lock", "RwLock::read", "RwLock::write"):
            return [(st, ok(I.norm(st, args[0]), t["dt"]))]
        if re.match(r"(MutexGuard|RwLock\w+Guard) as Deref(Mut)?::deref", key):
            x = I.norm(st, args[0])
            if x[0] == "r":
                y = I.norm(st, I.read(st, x[1]))
                return [(st, y if y[0] == "r" else x)]
            return [(st, x)]
        if key == "T as Into::into":
            at = (t.get("at") or [""])[0]
            for n in self.F.bodies:
                m = re.match(r"<(.*) as std::convert::From<(.*)>>::from$", n)
                if m and t["dt"].split("<")[0] == m.group(1).split("<")[0] and at.split("<")[0] == m.group(2).split("<")[0]:
                    return I.call_fn(st, n, args, t.get("dt"))
            return None
        r = self.regex(I, st, key, last, args, t)
        if r is not None:
            return r
        return self.pattern(I, st, name, key, last, args, t, body)

    def pattern(self, I, st, name, key, last, args, t, body):
        p = t["f"].get("virt") or t["f"].get("path") or ""
        if last in self.impls and (p.split("<")[0].endswith("Pattern::" + last) or name.endswith("Pattern::" + last)) and args:
            x = self.struct_of(I, st, args[0])
            tgt = None
            if x[0] == "ag":
                for ty, nm in self.impls[last].items():
                    if ty.split("<")[0] == x[1].split("<")[0]:
                        tgt = nm
                if tgt is None and last == "is_nested":
                    tgt = next((n for n in self.F.bodies if n.endswith("Pattern::is_nested")), None)
            elif x[0] == "vec":
                tgt = self.impls[last].get("std::vec::Vec<char>")
            elif L.isint(x):
                tgt = self.impls[last].get("char")
            elif x[0] == "sl":
                tgt = self.impls[last].get("&[char]")
            if tgt is None and last == "is_nested":
                return [(st, AI.FALSE)]
            if tgt is None:
                return None
            # the implementation wants a reference to its own type
            ref = self.as_ref(I, st, args[0], x)
            return I.call_fn(st, tgt, [ref] + list(args[1:]), t.get("dt"))
        return None

    def as_ref(self, I, st, v, x):
        v = I.norm(st, v)
        for _ in range(8):
            if v[0] == "r":
                y = I.norm(st, I.read(st, v[1]))
                if y[0] in ("r", "bx", "gd"):
                    v = y
                    continue
                return v
            if v[0] == "bx":
                return ("r", (("H", v[1]), ()))
            break
        nm = I.fresh("pat")
        st.heap[nm] = x
        return ("r", (("H", nm), ()))

    # ---- regular expressions
    def regex(self, I, st, key, last, args, t):
        if key == "Regex::new":
            p = ST.text(I, st, args[0])
            if p is None:
                return None
            try:
                pyre(p)
            except re.error:
                return [(st, err(("s", "regex error", "regex::Error"), t["dt"]))]
            return [(st, ok(("ag", REGEX, None, ((0, ("str", p)),)), t["dt"]))]
        if key.startswith("Regex::"):
            x = self.struct_of(I, st, args[0])
            if x[0] == "rc":
                x = I.norm(st, st.heap.get(x[1], ("u",)))
            p = AI.fget(x[3], 0)[1] if x[0] == "ag" and x[1] == REGEX else None
            s = ST.text(I, st, args[1]) if len(args) > 1 else None
            if p is None or s is None:
                return None
            m = pyre(p).search(s)
            if last == "is_match":
                return [(st, ("b", m is not None))]
            if last in ("captures", "find"):
                if m is None:
                    return [(st, none(t["dt"]))]
                gs = [m.group(i) for i in range((m.re.groups or 0) + 1)]
                if last == "find":
                    return [(st, some(self.match(m, 0), t["dt"]))]
                return [(st, some(("ag", CAPS, None, tuple((i, none(OPT) if g is None else some(self.match(m, i), OPT)) for i, g in enumerate(gs))), t["dt"]))]
            return None
        if key.startswith("Captures"):
            x = self.struct_of(I, st, args[0])
            if x[0] != "ag" or x[1] != CAPS:
                return None
            if last == "len":
                return [(st, L.const(len(x[3])))]
            if last == "iter":
                return [(st, ST.own([v for _, v in x[3]]))]
            i = under(I, st, args[1]) if len(args) > 1 else ("u",)
            if not L.isint(i) or i[2]:
                return None
            v = AI.fget(x[3], i[1])
            if last == "get":
                return [(st, none(t["dt"]) if v is None else v)]
            if last == "index":
                if v is None or v[2] == "None":
                    I.panic(st, "no such group", {"name": I.stack[-1] if I.stack else "?"}, t["sp"])
                    return []
                nm = I.fresh("cap")
                st.heap[nm] = AI.fget(AI.fget(v[4], 0)[3], 0)
                return [(st, ("r", (("H", nm), ())))]
            return None
        if key.startswith("Match::"):
            x = self.struct_of(I, st, args[0])
            if x[0] != "ag" or x[1] != MATCH:
                return None
            s, a, b = (AI.fget(x[3], i) for i in (0, 1, 2))
            if last == "as_str":
                return [(st, s)]
            if last == "start":
                return [(st, a)]
            if last == "end":
                return [(st, b)]
            if last == "len":
                return [(st, L.const(len(s[1].encode())))]
        if key == "CapturesIter as Iterator::next" or key.startswith("SubCaptureMatches"):
            return None
        return None

    @staticmethod
    def match(m, i):
        st = len(m.string[:m.start(i)].encode())
        return ("ag", MATCH, None, ((0, ("str", m.group(i))), (1, L.const(st)), (2, L.const(st + len(m.group(i).encode())))))


def interp(F, **kw):
    fr = Front(F)
    kw.setdefault("max_steps", 3000000)
    kw.setdefault("max_states", 4000)
    kw.setdefault("unroll_nd", 200)
    I = AI.Interp(F, on_call=fr.call, recurse=12, max_depth=80, **kw)
    I.front = fr
    return I


def table(F, I=None):
    """State after `mesdoc::init` and the rule list [(name, rule cell)]."""
    I = I or interp(F)
    st = AI.St()
    outs = I.call_fn(st, "mesdoc::init", [])
    if len(outs) != 1:
        raise AI.Unsupported("the registration has %d outcomes" % len(outs))
    return I, outs[0][0]
