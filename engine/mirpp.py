"""Pretty printer for dumped bodies (debugging aid)."""
import json, sys, re

def short(p):
    p = re.sub(r"mesdoc::(interface|selector|rules)::", "", p)
    p = p.replace("std::rc::Rc<std::cell::RefCell<rphtml::parser::Node>>", "RefNode")
    p = re.sub(r"\b(std|core|alloc|rphtml)::(\w+::)*", "", p)
    return p

def place(p):
    s = "_%d" % p["l"]
    for e in p["p"]:
        k = e[0]
        if k == "deref": s = "(*%s)" % s
        elif k == "f": s += "." + (e[2] or str(e[1]))
        elif k == "idx": s += "[_%d]" % e[1]
        elif k == "cidx": s += "[%s%d]" % ("-" if e[2] else "", e[1])
        elif k == "sub": s += "[%s..%s%s]" % (e[1], "-" if e[3] else "", e[2])
        elif k == "down": s = "(%s as %s)" % (s, e[1])
        else: s += ".?"
    return s

def konst(k):
    for x in ("str", "int", "bool", "char", "variant", "promoted", "named", "static", "chars", "closure"):
        if x in k: return "%s:%s" % (x, json.dumps(k[x], ensure_ascii=False))
    if "fn" in k: return "fn " + short(k["fn"].get("res") or k["fn"]["path"])
    return "const<%s>" % short(k["ty"])

def op(o):
    if "c" in o: return place(o["c"])
    if "m" in o: return "move " + place(o["m"])
    if "k" in o: return konst(o["k"])
    return "rc"

def rv(r):
    k = r["k"]
    if k == "use": return op(r["o"])
    if k == "ref": return ("&mut " if r["mut"] else "&") + place(r["pl"])
    if k == "bin": return "%s(%s, %s)" % (r["op"], op(r["a"]), op(r["b"]))
    if k == "un": return "%s(%s)" % (r["op"], op(r["o"]))
    if k == "cast": return "%s as %s [%s]" % (op(r["o"]), short(r["ty"]), r["ck"])
    if k == "discr": return "discr(%s)" % place(r["pl"])
    if k == "agg":
        n = r.get("adt") or r.get("def") or r["ak"]
        return "%s%s{%s}" % (short(n), ("::" + r["var"]) if r.get("enum") else "", ", ".join(map(op, r["ops"])))
    if k == "rawptr": return "&raw " + place(r["pl"])
    return k + " " + r.get("dbg", "")

def body(b, cleanup=False):
    out = ["fn %s  [%s] argc=%d" % (b["name"], b["sp"], b["argc"])]
    for i, l in enumerate(b["locals"]):
        out.append("   _%d: %s%s" % (i, short(l["ty"]), ("  // " + l["n"]) if "n" in l else ""))
    for i, bl in enumerate(b["blocks"]):
        if bl["u"] and not cleanup: continue
        out.append(" bb%d:" % i)
        for s in bl["s"]:
            if s["k"] == "assign": out.append("    %s = %s" % (place(s["pl"]), rv(s["rv"])))
            elif s["k"] == "setdiscr": out.append("    setdiscr %s %s" % (place(s["pl"]), s["vi"]))
        t = bl["t"]; k = t["k"]
        if k == "goto": out.append("    goto bb%d" % t["t"])
        elif k == "switch": out.append("    switch %s %s other bb%d" % (op(t["o"]), " ".join("%s:bb%d" % (v, x) for v, x in t["vals"]), t["other"]))
        elif k == "call":
            f = t["f"]
            n = ("ptr " + op(f["ptr"])) if "ptr" in f else short(f.get("res") or ("dyn " + f["virt"] if "virt" in f else f["path"]))
            if not "ptr" in f and "res" not in f and "virt" not in f: n = "?" + n
            if f.get("closures"): n += " {" + ",".join(short(c) for c in f["closures"]) + "}"
            out.append("    %s = %s(%s) -> %s   // %s" % (place(t["d"]), n, ", ".join(map(op, t["a"])), t["t"], t["sp"]))
        elif k == "drop": out.append("    drop %s (%s) -> bb%d" % (place(t["pl"]), short(t["ty"]), t["t"]))
        elif k == "assert": out.append("    assert %s==%s %s(%s) -> bb%d" % (op(t["o"]), t["exp"], t["msg"], ", ".join(map(op, t["ops"])), t["t"]))
        else: out.append("    " + k)
    return "\n".join(out)

if __name__ == "__main__":
    f = json.load(open(sys.argv[1]))
    for b in f["bodies"]:
        if any(x in b["name"] for x in sys.argv[2:]) : print(body(b)); print()
