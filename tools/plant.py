#!/usr/bin/env python3
"""plant.py ID PROPERTY  -- takes the edit in /tmp/mut (a copy of /repo) and the demonstration /tmp/demo.rs, confirms both, stores
/verif/seeded/ID, and runs the property's check against the copy.  NEEDS / BREAKS come from the environment."""
import os, sys, subprocess, json, shutil, tempfile
sid, pid = sys.argv[1:3]
M = "/tmp/mut"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
d = sh("git -C %s diff" % M).stdout
assert d.strip(), "no edit"
r = sh("cargo test --workspace --features full --no-fail-fast --offline -- --test-threads 8", cwd=M, env=env)
fails = [l for l in r.stdout.splitlines() if l.startswith("test ") and "FAILED" in l]
npass = sum(1 for l in r.stdout.splitlines() if l.startswith("test ") and l.endswith(" ok"))
print("tests ok:", npass, "failed:", fails)
if "error" in r.stdout and npass == 0:
    print(r.stdout[-3000:]); sys.exit(1)
if fails or npass < 183:
    print("NOT KEPT: tests"); sys.exit(1)
out = os.path.join(V, "seeded", sid)
os.makedirs(out, exist_ok=True)
open(out + "/patch.diff", "w").write(d)
shutil.copy("/tmp/demo.rs", out + "/demo.rs")
open(out + "/demo.sh", "w").write('''#!/bin/bash
# exit 0 when the demonstration passes against the library in the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export REPO="$repo"
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock" 2>/dev/null
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
visdom = { path = "$repo", features = ["full"] }
[workspace]
T
unset RUSTFLAGS RUSTDOCFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH="/usr/local/bin:$HOME/.cargo/bin:$PATH"
cd "$w" && cargo build --offline -q 2>"$w/log" || { cat "$w/log"; exit 3; }
timeout 60 "$w/target/debug/demo"
''')
os.chmod(out + "/demo.sh", 0o755)
json.dump(dict(property=pid, needs=os.environ["NEEDS"], what_it_breaks=os.environ["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
a = sh("bash %s/demo.sh" % out, cwd="/repo")
b = sh("bash %s/demo.sh" % out, cwd=M)
print("demo HEAD rc", a.returncode, "patched rc", b.returncode)
if a.returncode != 0 or b.returncode in (0, 3):
    print(a.stdout[-1500:], b.stdout[-1500:])
    print("NOT KEPT: demo"); shutil.rmtree(out); sys.exit(1)
c = sh("git -C /repo apply --check %s/patch.diff" % out)
print("apply", c.returncode, c.stdout)
if os.path.exists(os.path.join(V, "engine/checks/%s.py" % pid.lower())):
    c = sh("python3 check.py %s" % pid, cwd=V, env=dict(os.environ, VERIF_REPO=M))
    print(c.stdout[-1500:]); print("CAUGHT" if c.returncode == 1 and "VIOLATION" in c.stdout else "MISSED rc=%d" % c.returncode)
