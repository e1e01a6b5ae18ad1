import re, sys
import absint as AI
import strings as ST
import attrs as AT
import selparse as SP
import selwords as SW
import checks.c16 as W
from callgraph import CallGraph
from cfg import CFG
from facts import simp

TECHNIQUE = "dataflow over the MIR: every consumer of a hash-container iterator (found by its type, through adaptors and closures) must be order-insensitive; every read of process-wide mutable state must not flow into a decision; history independence of the parser and its caches by abstract interpretation of pairs of parses"
NOTE = "every function of the library for hash order, clocks, addresses and global state; history: all ordered pairs of 16 selector words that use different patterns and caches; what rphtml and regex do inside is trusted"
EXPLAIN = "For each call whose receiver is an iterator over a HashMap/HashSet the consumer is classified (any/all/count/collect into a map: order-insensitive; collect into or push onto a sequence that is not sorted afterwards: order leaks). Statics are inventoried: a value read from an atomic, cell or thread-local that reaches a branch or a result is a dependence on history or thread. The parser is interpreted after every other word and must give what it gives first. Nothing is executed."
ASSUME = ["rphtml and regex are deterministic functions of their arguments"]

HIT = re.compile(r"(?:std::collections|hashbrown)::(?:hash_map|hash_set|hash::map|hash::set)::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|ExtractIf|Union|Intersection|Difference|SymmetricDifference)\b")
ADAPT = {"map", "filter", "filter_map", "cloned", "copied", "by_ref", "into_iter", "flat_map", "flatten", "chain", "inspect", "peekable", "fuse", "clone", "map_while", "borrow", "deref", "deref_mut", "zip", "rev", "scan", "iter", "skip_while", "take_while"}
INSENS = {"any", "all", "count", "sum", "product", "min", "max", "size_hint", "len", "is_empty", "eq", "drop", "for_each_drop"}
SEQ = re.compile(r"^(std::(vec::Vec|string::String|collections::(VecDeque|LinkedList)|boxed::Box<\[)|mesdoc::interface::elements::Elements)")
MAPS = re.compile(r"^std::collections::(HashMap|HashSet|BTreeMap|BTreeSet|BinaryHeap|hash_|btree_)")
APPEND = re.compile(r"(Vec|String|VecDeque|LinkedList)(<.*>)? ?(as Extend)?::(push|push_str|push_back|push_front|insert|insert_str|extend|extend_from_slice|append)$|fmt::Write|::write_(str|fmt)$|Elements::push$")
LOOPOK = re.compile(r"::(clone|to_string|to_owned|as_str|deref|deref_mut|from|into|as_ref|borrow|len|eq|ne|is_empty|get|contains|contains_key|index|cmp|lt|gt|le|ge|unwrap|max|min)$|^(HashMap|HashSet|BTreeMap|BTreeSet)\b.*::(insert|remove|entry|get_mut)$|Iterator::next$|IntoIterator::into_iter$")
CLOCK = re.compile(r"std::time::(SystemTime|Instant)|std::env::|std::thread::(current|ThreadId)|std::process::id|RandomState::new$|\brand::|getrandom|std::panic::Location|fmt::rt::Argument.*new_pointer|Pointer as|hash::BuildHasher::hash_one")
CELL = re.compile(r"std::sync::atomic::Atomic(\w+)(?:::<[^>]*>)?::(\w+)$|std::sync::atomic::Atomic::<\w+>::(\w+)$|std::thread::LocalKey(?:::<.*>)?::(\w+)$")


def path_of(t):
    return t["f"].get("res") or t["f"].get("path") or ""


def consumers(ctx, F):
    n = 0
    for name, b in F.bodies.items():
        cfg = None
        for i, bl in enumerate(b["blocks"]):
            t = bl["t"]
            if t["k"] != "call" or "path" not in t["f"]:
                continue
            hit = [j for j, x in enumerate(t.get("at") or []) if HIT.search(x)]
            p = path_of(t)
            last = t["f"]["path"].split("::")[-1]
            if not hit:
                continue
            n += 1
            key = "%s: %s over a hash container" % (name.split("::")[-1] if "{closure" not in name else "::".join(name.split("::")[-2:]), last)
            rule = "hash order does not reach a result"
            sp = t["sp"]
            if last in ADAPT and HIT.search(t["dt"]):
                st, why = "proven", "adaptor; its consumer is checked"
            elif last in INSENS:
                st, why = "proven", "order-insensitive"
            elif last in ("collect", "from_iter"):
                if MAPS.match(t["dt"]):
                    st, why = "proven", "collected into a keyed container"
                elif SEQ.match(t["dt"]):
                    st, why = ("undecided", "collected, then sorted") if sorts(b) else ("refuted", "the order of the hash container becomes the order of " + t["dt"][:60])
                else:
                    st, why = "undecided", "collected into " + t["dt"][:60]
            elif last in ("extend", "append", "extend_from_slice") and hit != [0]:
                rt = t["at"][0].replace("&mut ", "")
                if MAPS.match(rt):
                    st, why = "proven", "added to a keyed container"
                elif SEQ.match(rt):
                    st, why = ("undecided", "appended, then sorted") if sorts(b) else ("refuted", "the order of the hash container becomes the order of " + rt[:60])
                else:
                    st, why = "undecided", rt[:60]
            elif last == "next":
                cfg = cfg or CFG(b)
                st, why = loop(F, b, cfg, i)
            else:
                st, why = "undecided", "consumer %s" % last
            ctx.ob(key, rule, st, "%s (%s)" % (name, sp), why)
    ctx.count("hash iterator call sites", n)
    ctx.count("functions", len(F.bodies))


def sorts(b):
    return any(bl["t"]["k"] == "call" and re.search(r"::sort\w*$", bl["t"]["f"].get("path", "")) for bl in b["blocks"])


def loop(F, b, cfg, i):
    """A `next` on a hash iterator: what does the loop around it do with the order?"""
    def reach(starts, stop=None):
        seen, w = set(), list(starts)
        while w:
            x = w.pop()
            if x in seen or x == stop:
                continue
            seen.add(x)
            w += cfg.s[x]
        return seen
    fw = reach(cfg.s[i])
    if i not in fw:
        return "undecided", "one element is taken"
    inl = {x for x in fw if i in reach([x])} | {i}
    exits = [(x, y) for x in inl for y in cfg.s[x] if y not in inl and not dead_end(b, cfg, y)]
    bad = unk = None
    for x in inl:
        t = b["blocks"][x]["t"]
        if t["k"] != "call" or x == i:
            continue
        k = simp(path_of(t)) if "path" in t["f"] else "?"
        if APPEND.search(k) and not MAPS.match((t.get("at") or [""])[0].replace("&mut ", "")):
            bad = "%s in the loop" % k
        elif not LOOPOK.search(k) and not MAPS.match((t.get("at") or [""])[0].replace("&mut ", "").replace("&", "")):
            unk = k
    if bad:
        return ("undecided", bad + ", then sorted") if sorts(b) else ("refuted", bad + ": elements are appended in hash order")
    if unk:
        return "undecided", "calls %s in the loop" % unk
    if len(exits) > 1:
        return "undecided", "leaves the loop early"
    return "proven", "every element is visited; only keyed containers change"


def dead_end(b, cfg, y):
    seen, w = set(), [y]
    while w:
        x = w.pop()
        if x in seen:
            continue
        seen.add(x)
        if b["blocks"][x]["t"]["k"] == "return":
            return False
        w += cfg.s[x]
    return True


def locals_of(x, out):
    if isinstance(x, dict):
        if "l" in x and "p" in x:
            out.add(x["l"])
        for v in x.values():
            locals_of(v, out)
    elif isinstance(x, list):
        for v in x:
            locals_of(v, out)


def flows(b, src):
    """Does local `src` reach a branch, the result or another call's argument?"""
    taint = {src}
    ch = True
    while ch:
        ch = False
        for bl in b["blocks"]:
            for s in bl["s"]:
                if "rv" in s:
                    u = set()
                    locals_of(s["rv"], u)
                    d = s["pl"]["l"]
                    if u & taint and d not in taint:
                        taint.add(d)
                        ch = True
            t = bl["t"]
            if t["k"] == "call":
                u = set()
                locals_of(t["a"], u)
                if u & taint and t["d"]["l"] not in taint:
                    taint.add(t["d"]["l"])
                    ch = True
    if 0 in taint:
        return "reaches the result"
    for bl in b["blocks"]:
        t = bl["t"]
        if t["k"] == "switch":
            u = set()
            locals_of(t["o"], u)
            if u & taint:
                return "decides a branch"
    return None


def globals_(ctx, F):
    n = 0
    known = {}
    for nm, s in F.statics.items():
        ty = s["ty"]
        n += 1
        st = "refuted" if s.get("mut") else "proven" if not re.search(r"Atomic|Cell|LocalKey|Mutex|RwLock", ty) or re.match(r"lazy_static::lazy::Lazy<std::sync::(Mutex|RwLock)<|std::sync::(OnceLock|LazyLock|Once)\b", ty) else "undecided"
        if re.search(r"Atomic", ty):
            st = "proven"       # its readers are checked below
        ctx.ob("static " + nm.split("::")[-1] if "__stability" not in nm else "static " + nm.split(" as ")[0].split("::")[-1] + " (lazy)", "process-wide state is write-once or behind a checked cache", st, s["sp"], ty[:80])
    ctx.count("statics", n)
    m = 0
    for name, b in F.bodies.items():
        for bl in b["blocks"]:
            t = bl["t"]
            if t["k"] != "call" or "path" not in t["f"]:
                continue
            p = path_of(t)
            m += 1
            if CLOCK.search(p) or CLOCK.search(t["f"]["path"]):
                why = flows(b, t["d"]["l"])
                ctx.ob("%s: %s" % (name.split("::")[-1], simp(p)), "no clock, environment, thread, address or random value reaches a result", "refuted" if why else "undecided", "%s (%s)" % (name, t["sp"]), why or "value not followed")
            c = CELL.search(p) or CELL.search(t["f"]["path"])
            if c:
                op = next(g for g in c.groups()[1:] if g)
                if op == "store":
                    continue
                why = flows(b, t["d"]["l"])
                local = "LocalKey" in p
                ctx.ob("%s: %s" % (name.split("::")[-1], simp(p)), "no answer depends on counters or caches of earlier calls", "undecided" if local else "refuted" if why else "proven", "%s (%s)" % (name, t["sp"]), why or "the value is not used")
        for bl in b["blocks"]:
            for s in bl["s"]:
                if s.get("rv", {}).get("k") == "cast" and "PointerExpose" in str(s["rv"].get("ck")):
                    why = flows(b, s["pl"]["l"])
                    ctx.ob("%s: address as a number" % name.split("::")[-1], "no address reaches a result", "undecided", "%s (%s)" % (name, s["sp"]), why or "")
    ctx.count("call sites", m)


WORDS = ["p", ".c", "#i", "[a=b]", "[a^='b c']", "[a]", ":nth-child(2n+1)", ":nth-child(3)", ":nth-last-of-type(odd)", ":contains('x y')", ":contains(x)", ":not(p > .c)", "a > b", "a, b ~ c", "a  b + #i", "["]


def history(F, case):
    first, second = case
    out = []
    for pre in (None, first):
        st = W._ST
        if pre is not None:
            got = run_word(pre, st.copy())
            if got is None:
                yield "", "an earlier parse does not change a later one", "undecided", "no single outcome"
                return
            st = got[0]
        got = run_word(second, st.copy())
        if got is None:
            yield "", "an earlier parse does not change a later one", "undecided", "no single outcome"
            return
        out.append(got[1])
    yield "", "an earlier parse does not change a later one", "proven" if out[0] == out[1] else "undecided" if "?" in str(out) else "refuted", "first %s, afterwards %s" % (out[0], out[1]) if out[0] != out[1] else ""


def run_word(word, st):
    import time
    I = W._I
    W._MADE.clear()
    W._SEEN.clear()
    I.panics.clear()
    I.steps = 0
    I.opt["deadline"] = time.time() + 25
    try:
        outs = I.call_fn(st, W._FS, [("str", word), ("b", True)])
    except (AI.Budget, AI.Unsupported):
        return None
    if len(outs) != 1:
        return None
    s, v = outs[0]
    v = I.norm(s, v)
    return s, (v[2] if v[0] == "en" else "?", tuple((W._NAMES.get(m, m)) for m in W._MADE), tuple(W._SEEN))


def run(ctx):
    sys.setrecursionlimit(20000)
    F = ctx.F
    consumers(ctx, F)
    globals_(ctx, F)
    try:
        W.setup(F)
    except (AI.Budget, AI.Unsupported, StopIteration) as e:
        ctx.ob("parser", "history interpreted", "undecided", "", str(e)[:100])
        return
    AT.run_cases(ctx, [(a, b) for a in WORDS for b in WORDS], history, lambda c: "%s after %s" % (c[1], c[0]), F.bodies[W._FS]["sp"])
