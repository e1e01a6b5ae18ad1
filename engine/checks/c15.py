"""rustc forbids unsafe code over the whole library; every call the library can reach is checked against the std functions
with ambient effects; and a witness crate that fails to compile if a document handle or element set becomes Send or Sync."""
import os, re, shutil
import runner
from runner import sh, BUILD, REPO, had_lock, Abort, fresh
from callgraph import CallGraph

EXPLAIN = __doc__
TECHNIQUE = "forbid(unsafe_code) build, effect reachability over the call graph, compile-time !Send/!Sync witness"
NOTE = "Sound for the crate's own code in the full-feature build; effects inside rphtml, regex and std callees other than the listed entry points are trusted."
ASSUME = ["dependencies (rphtml, regex, lazy_static, thiserror) are trusted to be effect free"]
BAD = re.compile(r"^(<)?(std::fs|std::net|std::env|std::process|std::os|std::thread::(spawn|sleep|Builder|scope|park|current)|std::io::(stdin|stdout|stderr|_print|_eprint|copy)|std::io::stdio|"
                 r"std::panic::(set_hook|take_hook|catch_unwind)|std::panicking::set_hook|std::time::(SystemTime|Instant)|std::alloc|std::intrinsics|std::ffi|std::ptr::(read|write)|std::mem::transmute|std::backtrace)")

WIT = '''#![allow(dead_code)]
// Compiles only while T implements neither Send nor Sync: otherwise `A` is ambiguous.
trait AmbiguousIfImpl<A> { fn some_item() {} }
impl<T: ?Sized> AmbiguousIfImpl<()> for T {}
#[allow(dead_code)] struct InvalidSend;
impl<T: ?Sized + Send> AmbiguousIfImpl<InvalidSend> for T {}
#[allow(dead_code)] struct InvalidSync;
impl<T: ?Sized + Sync> AmbiguousIfImpl<InvalidSync> for T {}
fn w() { let _ = <%s as AmbiguousIfImpl<_>>::some_item; }
'''
TYPES = [("Elements", "visdom::types::Elements<'static>"), ("BoxDynElement", "visdom::types::BoxDynElement<'static>"), ("BoxDynNode", "visdom::types::BoxDynNode<'static>"),
         ("BoxDynText", "visdom::types::BoxDynText<'static>"), ("Texts", "visdom::types::Texts<'static>"), ("Document", "visdom::Document")]


def forbid_unsafe(ctx):
    tgt = os.path.join(BUILD, "vt-forbid")
    lock = had_lock()
    fresh(tgt)
    r = sh(["cargo", "+nightly", "check", "--offline", "--lib", "--features", "full", "--target-dir", tgt], cwd=REPO, env=dict(RUSTFLAGS="-Funsafe_code -Awarnings"))
    if not lock and had_lock():
        os.remove(os.path.join(REPO, "Cargo.lock"))
    if r.returncode == 0:
        ctx.ob("no unsafe code", "forbid(unsafe_code)", "proven", "src/")
    else:
        errs = re.findall(r"error[^\n]*\n\s*--> ([^\n]*)", r.stdout)
        if "unsafe" in r.stdout and ("unsafe_code" in r.stdout or "unsafe-code" in r.stdout or "E0453" in r.stdout):
            ctx.ob("no unsafe code", "forbid(unsafe_code)", "refuted", errs[0] if errs else "src/", r.stdout[-400:])
        else:
            ctx.ob("no unsafe code", "forbid(unsafe_code)", "undecided", "src/", r.stdout[-300:])


def witness(ctx):
    d = os.path.join(BUILD, "witness")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "witness"\nversion = "0.0.0"\nedition = "2018"\n[dependencies]\nvisdom = { path = "%s", features = ["full"] }\n[workspace]\n[lib]\npath = "src/lib.rs"\n' % REPO)
    lock = os.path.join(REPO, "Cargo.lock")
    wl = os.path.join(d, "Cargo.lock")
    if os.path.exists(wl):
        os.remove(wl)
    tgt = os.path.join(BUILD, "vt-wit")
    fresh(tgt)
    for name, ty in TYPES:
        with open(os.path.join(d, "src/lib.rs"), "w") as f:
            f.write(WIT % ty)
        r = sh(["cargo", "+nightly", "check", "--offline", "--target-dir", tgt], cwd=d, env=dict(RUSTFLAGS="-Awarnings"))
        if r.returncode == 0:
            ctx.ob("%s is neither Send nor Sync" % name, "compile-time witness", "proven", ty)
        elif "E0283" in r.stdout or "E0790" in r.stdout:
            ctx.ob("%s is neither Send nor Sync" % name, "compile-time witness", "refuted", ty, "the type now implements Send or Sync: " + (re.search(r"error\[[^\n]*", r.stdout) or [r.stdout[-200:]])[0])
        else:
            ctx.ob("%s is neither Send nor Sync" % name, "compile-time witness", "undecided", ty, r.stdout[-300:])


def run(ctx):
    F = ctx.F
    G = CallGraph(F)
    n = 0
    hits = {}
    for b in F.fn_bodies():
        bad = None
        for bl in b["blocks"]:
            t = bl["t"]
            if t["k"] != "call" or bl.get("u"):
                continue
            n += 1
            p = t["f"].get("res") or t["f"].get("path") or ""
            if BAD.match(p) and not p.startswith("std::alloc::exchange"):
                bad = (p, t["sp"])
        if b.get("unsafe"):
            ctx.ob("unsafe fn %s" % b["name"], "no unsafe function", "refuted", b["sp"])
        if bad:
            ctx.ob("effect in %s" % b["name"].replace("mesdoc::", ""), "no ambient effect", "refuted", "%s (%s)" % (b["name"], bad[1]), "calls " + bad[0])
        else:
            ctx.ob(b["name"].replace("mesdoc::", ""), "no ambient effect", "proven", b["sp"])
    for s in F.statics.values():
        ctx.ok("static " + s["name"].split("::")[-1] + " " + s["ty"][:40], "no mutable static", not s.get("mut"), s["sp"], "static mut")
    ctx.count("call sites", n)
    forbid_unsafe(ctx)
    witness(ctx)
