"""Builds the fact base from /repo's working tree, runs a check, writes evidence."""
import os, sys, json, time, hashlib, subprocess, importlib, glob, shutil, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")


class Abort(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["PATH"] = "/usr/local/bin:" + os.path.expanduser("~/.cargo/bin") + ":" + e.get("PATH", "")
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def nightly_sysroot():
    r = sh(["rustc", "+nightly", "--print", "sysroot"])
    if r.returncode:
        raise Abort("no nightly toolchain: " + r.stdout[-500:])
    return r.stdout.strip().splitlines()[-1]


def build_driver():
    src = os.path.join(VERIF, "driver")
    h = hashlib.sha1()
    for f in sorted(glob.glob(src + "/src/*.rs") + [src + "/Cargo.toml"]):
        h.update(open(f, "rb").read())
    stamp = os.path.join(BUILD, "drv", "stamp-" + h.hexdigest()[:16])
    exe = os.path.join(BUILD, "drv", "release", "mirfacts")
    if not (os.path.exists(stamp) and os.path.exists(exe)):
        os.makedirs(BUILD, exist_ok=True)
        r = sh(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "drv")], cwd=src)
        if r.returncode:
            raise Abort("driver does not build:\n" + r.stdout[-2000:])
        open(stamp, "w").write("")
    return exe


def tree_hash(extra=""):
    h = hashlib.sha1(extra.encode())
    fs = []
    for d, ds, names in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        for n in sorted(names):
            fs.append(os.path.join(d, n))
    fs += [os.path.join(REPO, "Cargo.toml")]
    for f in fs:
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def had_lock():
    return os.path.exists(os.path.join(REPO, "Cargo.lock"))


def fresh(tgt):
    """Forget the crate's own build products, so that cargo compiles the working tree again."""
    for pat in ("/debug/.fingerprint/visdom-*", "/debug/build/visdom", "/debug/build/visdom-*", "/debug/deps/*visdom-*"):
        for d in glob.glob(tgt + pat):
            shutil.rmtree(d, ignore_errors=True) if os.path.isdir(d) else os.remove(d)


def dump(features="full"):
    """MIR facts of the library, from the working tree."""
    exe = build_driver()
    dh = hashlib.sha1(open(exe, "rb").read()).hexdigest()[:10]
    out = os.path.join(BUILD, "facts-%s-%s.json" % (features or "none", tree_hash(dh)))
    if os.path.exists(out):
        return out
    for f in glob.glob(os.path.join(BUILD, "facts-%s-*.json" % (features or "none"))):
        os.remove(f)
    tgt = os.path.join(BUILD, "vt")
    fresh(tgt)
    lock = had_lock()
    tmp = out + ".tmp%d" % os.getpid()
    cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "--target-dir", tgt]
    if features:
        cmd += ["--features", features]
    env = dict(LD_LIBRARY_PATH=nightly_sysroot() + "/lib", MIRFACTS_CRATE="visdom", MIRFACTS_OUT=tmp,
               RUSTC_WORKSPACE_WRAPPER=exe, RUSTFLAGS="-Zmir-opt-level=0 -Awarnings")
    r = sh(cmd, cwd=REPO, env=env)
    if r.returncode == 0 and not os.path.exists(tmp):
        shutil.rmtree(tgt, ignore_errors=True)
        r = sh(cmd, cwd=REPO, env=env)
    if not lock and had_lock():
        os.remove(os.path.join(REPO, "Cargo.lock"))
    if r.returncode or not os.path.exists(tmp):
        raise Abort("the library does not build:\n" + r.stdout[-3000:])
    os.rename(tmp, out)
    return out


class Ctx:
    """Collects obligations of one property."""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obl = []            # dict(key, rule, where, status, detail)
        self.analysed = {}
        self.assumptions = []
        self._facts = {}

    @property
    def F(self):
        return self.facts("full")

    def facts(self, features):
        if features not in self._facts:
            from facts import Facts
            self._facts[features] = Facts(dump(features))
        return self._facts[features]

    def ob(self, key, rule, status, where="", detail=""):
        assert status in ("proven", "refuted", "undecided")
        self.obl.append(dict(key=key, rule=rule, status=status, where=where, detail=str(detail)[:600]))

    def ok(self, key, rule, cond, where="", detail=""):
        self.ob(key, rule, "proven" if cond else "refuted", where, detail if not cond else "")

    def count(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)


def known_findings():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                d = dict(x.split("=", 1) for x in l[6:].split() if "=" in x)
                out.append((d.get("property"), d.get("key"), l))
    return out


def run_one(pid, tier, seed):
    t0 = time.time()
    mod = importlib.import_module("checks." + pid.lower())
    ctx = Ctx(pid, tier)
    try:
        mod.run(ctx)
    except Abort:
        raise
    except Exception as e:
        # a construct the analysis does not understand: nothing is claimed about it, and nothing is reported
        ctx.ob("analysis stopped early", "analysis completes", "undecided", "", "%s: %s" % (type(e).__name__, e))
        if os.environ.get("VERIF_VERBOSE"):
            traceback.print_exc()
    refuted = [o for o in ctx.obl if o["status"] == "refuted"]
    undecided = [o for o in ctx.obl if o["status"] == "undecided"]
    proven = [o for o in ctx.obl if o["status"] == "proven"]
    kf = known_findings()
    fresh = []
    for o in refuted:
        k = [x for x in kf if x[0] == pid and x[1] == o["key"]]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, o["key"]))
        else:
            fresh.append(o)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    samples = []
    seen = {}
    for o in proven + undecided:
        if seen.get(o["rule"], 0) < 2 and len(samples) < 40:
            seen[o["rule"]] = seen.get(o["rule"], 0) + 1
            samples.append("%s: %s [%s] %s" % (o["status"], o["key"], o["rule"], o["where"]))
    rules = {}
    for o in ctx.obl:
        r = rules.setdefault(o["rule"], dict(proven=0, refuted=0, undecided=0))
        r[o["status"]] += 1
    cov = dict(explanation=getattr(mod, "EXPLAIN", mod.__doc__ or ""),
               obligations=len(ctx.obl), discharged=len(proven), undecided_obligations=len(undecided),
               undecided=["%s: %s" % (o["key"], o["detail"]) for o in undecided][:60],
               analysed=ctx.analysed, rules=rules, samples=samples,
               checker_cmd="python3 check.py " + pid,
               trusted_base=["rustc's MIR for the current tree", "driver/ (fact extraction)", "engine/ (the analysis)",
                             "summaries of std and rphtml callees in engine/models.py"])
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "other"), coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=ctx.assumptions + getattr(mod, "ASSUME", []), violations=len(fresh))
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d proven, %d undecided, %d refuted (%.1f s)" % (pid, len(ctx.obl), len(proven), len(undecided), len(refuted), time.time() - t0))
    if os.environ.get("VERIF_VERBOSE"):
        for o in undecided:
            print("  undecided", o["key"], o["where"], o["detail"][:200])
    if fresh:
        rp = os.path.join(VERIF, "evidence", pid + ".violation.txt")
        with open(rp, "w") as f:
            for o in fresh:
                f.write("%s\n  rule: %s\n  at: %s\n  %s\n" % (o["key"], o["rule"], o["where"], o["detail"]))
        for o in fresh[:10]:
            print("  %s | %s | %s | %s" % (o["key"], o["rule"], o["where"], o["detail"][:300]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


def main(args):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if args and args[0] == "setup":
        try:
            build_driver()
            dump("full")
            return 0
        except Abort as e:
            print(e)
            return 2
    if args == ["all"]:
        args = sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(os.path.join(VERIF, "engine/checks/c[0-9][0-9].py")))
    rc = 0
    for pid in args:
        try:
            rc = max(rc, run_one(pid, tier, seed))
        except Abort as e:
            print("ERROR: %s" % e)
            rc = 2
        except Exception:
            traceback.print_exc()
            rc = 2
    return rc
