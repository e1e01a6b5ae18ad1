"""Lock analysis: which registry each guard belongs to, what is held at every call, lock order, what runs under a lock,
which functions fill a registry and whether the one-time initialisation precedes every use."""
import re
from facts import simp, thead, targs
from cfg import CFG

LOCK = {"Mutex::lock": "x", "RwLock::read": "s", "RwLock::write": "x"}
TRY = {"Mutex::try_lock", "RwLock::try_read", "RwLock::try_write"}
ONCE = {"Once::call_once", "Once::call_once_force", "OnceLock::get_or_init", "OnceCell::get_or_init"}


def defs(b):
    d = {}
    for bi, bl in enumerate(b["blocks"]):
        for s in bl["s"]:
            if s["k"] == "assign" and not s["pl"]["p"]:
                d.setdefault(s["pl"]["l"], []).append(("a", s["rv"]))
        t = bl["t"]
        if t["k"] == "call" and not t["d"]["p"]:
            d.setdefault(t["d"]["l"], []).append(("c", t))
    return d


def op_local(o):
    pl = o.get("m") or o.get("c")
    return pl["l"] if pl else None


def trace_static(F, b, d, o, depth=0):
    """Name of the static an operand points into, ('param', i), or None."""
    if depth > 12:
        return None
    k = o.get("k")
    if k:
        if "static" in k:
            return k["static"]
        if "promoted" in k:
            pb = F.bodies.get(k["promoted"] if isinstance(k["promoted"], str) else "")
            return None if pb is None else None
        if "named" in k:
            return None
        return None
    l = op_local(o)
    if l is None:
        return None
    if 1 <= l <= b["argc"] and l not in d:
        return ("param", l)
    for kind, x in d.get(l, ()):
        if kind == "a":
            if x["k"] in ("use", "cast") and isinstance(x.get("o"), dict):
                r = trace_static(F, b, d, x["o"], depth + 1)
            elif x["k"] in ("ref", "rawptr"):
                r = trace_static(F, b, d, {"c": x["pl"]}, depth + 1)
            else:
                r = None
        else:
            key = simp(x["f"].get("res") or x["f"].get("path") or "")
            if key.endswith("::deref") or key.endswith("Lazy::get") or key.endswith("::force") or key.endswith("get_or_init") or key.endswith("::as_ref") or key.endswith("::borrow"):
                r = trace_static(F, b, d, x["a"][0], depth + 1) if x["a"] else None
            else:
                r = None
        if r is not None:
            return r
    return None


class Locks:
    def __init__(self, F, G):
        self.F, self.G = F, G
        self.by_type = {}
        self.acq = {}          # fn -> [(block, lock, mode, sp)]
        self.param_acq = {}    # fn -> set of param indexes locked
        self.once = {}         # fn -> [(block, once name, closures)]
        self.wr = {}           # fn -> {lock: sp}  (guard dereferenced mutably)
        self.ret = {}          # fn -> set of locks whose guard is returned
        self.held = {}         # fn -> {block: frozenset(locks)}
        self.unknown = []
        bodies = [b for b in F.fn_bodies() if not b["name"].endswith("__static_ref_initialize")]
        for b in F.fn_bodies():
            self._scan(b)
        # helpers that return a guard or lock a parameter: iterate
        for _ in range(4):
            if not self._propagate():
                break
        for b in F.fn_bodies():
            self.held[b["name"]] = self._held(b)
        # transitive acquisitions
        self.tr = {n: {l for _, l, _, _ in v} for n, v in self.acq.items()}
        for n, l in self.once.items():
            for _, o, _ in l:
                self.tr.setdefault(n, set()).add(o)
        ch = True
        while ch:
            ch = False
            for n, cs in G.calls.items():
                cur = self.tr.setdefault(n, set())
                for _, _, c, _ in cs:
                    for x in c:
                        new = self.tr.get(x, set()) - cur
                        if new:
                            cur |= new
                            ch = True

    def lock_id(self, b, d, t):
        r = trace_static(self.F, b, d, t["a"][0])
        if isinstance(r, str):
            return self.canon(r)
        ty = (t["f"].get("args") or ["?"])[0]
        if isinstance(r, tuple):
            self.param_acq.setdefault(b["name"], {})[r[1]] = t
            return None
        return "mutex of " + ty

    def canon(self, name):
        name = re.sub(r"^<(.*) as std::ops::Deref>::deref::.*$", r"\1", name)
        return name.split("::")[-1]

    def _scan(self, b):
        d = None
        for i, bl in enumerate(b["blocks"]):
            t = bl["t"]
            if t["k"] != "call" or bl.get("u"):
                continue
            key = simp(t["f"].get("res") or t["f"].get("path") or "")
            if key in LOCK:
                d = d or defs(b)
                l = self.lock_id(b, d, t)
                if l:
                    self.acq.setdefault(b["name"], []).append((i, l, LOCK[key], t["sp"]))
            elif key in ONCE:
                d = d or defs(b)
                r = trace_static(self.F, b, d, t["a"][0])
                nm = "once " + (self.canon(r) if isinstance(r, str) else "?")
                cl = [c for c in t["f"].get("closures", ()) if c in self.F.bodies]
                for o in t["a"]:
                    k = o.get("k") or {}
                    if "fn" in k:
                        n = k["fn"].get("res") or k["fn"]["path"]
                        if n in self.F.bodies:
                            cl.append(n)
                self.once.setdefault(b["name"], []).append((i, nm, cl))
            elif key == "Lazy::get":
                d = d or defs(b)
                nm = re.search(r"<(.*) as ", b["name"])
                cl = [c for c in t["f"].get("closures", ()) if c in self.F.bodies]
                self.once.setdefault(b["name"], []).append((i, "lazy " + (nm.group(1).split("::")[-1] if nm else "?"), cl))

    def _propagate(self):
        ch = False
        for b in self.F.fn_bodies():
            d = None
            for i, bl in enumerate(b["blocks"]):
                t = bl["t"]
                if t["k"] != "call" or bl.get("u"):
                    continue
                n = t["f"].get("res") or t["f"].get("path")
                pa = self.param_acq.get(n)
                if pa:
                    d = d or defs(b)
                    for p, lt in pa.items():
                        r = trace_static(self.F, b, d, t["a"][p - 1])
                        if isinstance(r, str):
                            e = (i, self.canon(r), "x", t["sp"])
                            if e not in self.acq.setdefault(b["name"], []):
                                self.acq[b["name"]].append(e)
                                ch = True
                        elif isinstance(r, tuple):
                            if r[1] not in self.param_acq.setdefault(b["name"], {}):
                                self.param_acq[b["name"]][r[1]] = t
                                ch = True
            # guard returned
            if "Guard<" in b["locals"][0]["ty"]:
                locks = {l for _, l, _, _ in self.acq.get(b["name"], ())}
                for i, bl in enumerate(b["blocks"]):
                    t = bl["t"]
                    if t["k"] == "call":
                        n = t["f"].get("res") or t["f"].get("path")
                        locks |= self.ret.get(n, set())
                if locks - self.ret.get(b["name"], set()):
                    self.ret.setdefault(b["name"], set()).update(locks)
                    ch = True
        return ch

    def _held(self, b):
        """Locks held at the terminator of every block (before the call takes effect)."""
        cfg = CFG(b)
        acq = {}
        for i, l, m, sp in self.acq.get(b["name"], ()):
            acq.setdefault(i, set()).add(l)
        at = {}

        def step(bi, st):
            st = dict(st)
            bl = b["blocks"][bi]
            for s in bl["s"]:
                if s["k"] == "dead":
                    st.pop(s["l"], None)
                elif s["k"] == "assign":
                    got = set()
                    rv = s["rv"]
                    for o in [rv.get("o")] + list(rv.get("ops") or []):
                        if isinstance(o, dict) and "m" in o and o["m"]["l"] in st:
                            got |= st.pop(o["m"]["l"])
                    if got:
                        st[s["pl"]["l"]] = frozenset(st.get(s["pl"]["l"], frozenset()) | got)
            t = bl["t"]
            held = set()
            for v in st.values():
                held |= v
            at[bi] = at.get(bi, frozenset()) | frozenset(held)
            if t["k"] == "drop":
                if not t["pl"]["p"]:
                    st.pop(t["pl"]["l"], None)
            elif t["k"] == "call":
                moved = set()
                for o in t["a"]:
                    if isinstance(o, dict) and "m" in o and o["m"]["l"] in st:
                        moved |= st.pop(o["m"]["l"])
                dt = t.get("dt", "")
                n = t["f"].get("res") or t["f"].get("path") or ""
                new = set()
                if bi in acq and "Guard<" in dt:
                    new |= acq[bi]
                if n in self.ret:
                    new |= self.ret[n]
                if "Guard<" in dt:
                    new |= moved
                if new:
                    st[t["d"]["l"]] = frozenset(new)
                key = simp(n)
                if key.endswith("DerefMut::deref_mut") and "Guard" in key:
                    self._write(b, t, st)
            return st

        def join(a, c):
            r = dict(a)
            for k, v in c.items():
                r[k] = r.get(k, frozenset()) | v
            return r
        cfg.forward({}, step, join)
        return at

    def _write(self, b, t, st):
        d = defs(b)
        o = t["a"][0]
        l = op_local(o)
        seen = set()
        while l is not None and l not in seen:
            seen.add(l)
            if l in st:
                for x in st[l]:
                    self.wr.setdefault(b["name"], {})[x] = t["sp"]
                return
            nxt = None
            for kind, x in d.get(l, ()):
                if kind == "a" and x["k"] == "ref":
                    nxt = x["pl"]["l"]
                elif kind == "a" and x["k"] == "use" and isinstance(x.get("o"), dict):
                    nxt = op_local(x["o"])
            l = nxt

    # ------------------------------------------------------------------ results
    def edges(self):
        """(held, acquired) -> example (function, span, path)."""
        out = {}
        for b in self.F.fn_bodies():
            n = b["name"]
            held = self.held.get(n, {})
            acq = {}
            for i, l, m, sp in self.acq.get(n, ()):
                acq.setdefault(i, set()).add(l)
            for i, nm, cl in self.once.get(n, ()):
                acq.setdefault(i, set()).add(nm)
            for i, t, cs, tags in self.G.calls.get(n, ()):
                H = held.get(i, frozenset())
                if not H:
                    continue
                A = set(acq.get(i, ()))
                for c in cs:
                    A |= self.tr.get(c, set())
                for h in H:
                    for a in A:
                        out.setdefault((h, a), (n, t["sp"], sorted(cs)[:2]))
        # what an initialisation acquires while it runs
        for n, l in self.once.items():
            for i, nm, cl in l:
                for c in cl:
                    for a in self.tr.get(c, set()):
                        out.setdefault((nm, a), (n, "", [c]))
        return out

    def under_lock(self):
        """Calls made with a lock held: (fn, span, held, callees, tags)."""
        for b in self.F.fn_bodies():
            n = b["name"]
            held = self.held.get(n, {})
            for i, t, cs, tags in self.G.calls.get(n, ()):
                H = held.get(i, frozenset())
                if H:
                    yield n, t["sp"], H, cs, tags

    def must_init(self, once_fns):
        """Functions that run the one-time initialisation on every path to their return."""
        must = set(once_fns)
        ch = True
        while ch:
            ch = False
            for b in self.F.fn_bodies():
                n = b["name"]
                if n in must:
                    continue
                blocks = [i for i, t, cs, tags in self.G.calls.get(n, ()) if (t["f"].get("res") or t["f"].get("path")) in must]
                if not blocks:
                    continue
                cfg = CFG(b)
                rets = [i for i, bl in enumerate(b["blocks"]) if bl["t"]["k"] == "return"]
                if rets and all(any(cfg.dominates(x, r) for x in blocks) for r in rets if r in cfg.dom()):
                    must.add(n)
                    ch = True
        return must
