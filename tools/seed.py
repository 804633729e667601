#!/usr/bin/env python3
"""Tools for the planted changes in /verif/seeded.
  seed.py new ID PROP        take the diff of the scratch copy /tmp/seedw as ID/patch.diff, put demo.sh there
  seed.py valid [ID..]       demo passes unchanged, patch builds, stable tests pass, demo fails (in /tmp/seedw)
  seed.py caught [ID..]      apply to /repo, run the property's quick check, undo
"""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
W = os.environ.get("SEEDW", "/tmp/seedw")
DEMO = """#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
S=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$S"' EXIT
mkdir "$S/src"
cp "$D/main.rs" "$S/src/main.rs"
cp "$R/Cargo.lock" "$S/Cargo.lock"
cat > "$S/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
ariadne-dns = { path = "$R" }
[workspace]
T
cd "$S" || exit 3
CARGO_TARGET_DIR="$S/target" CARGO_NET_OFFLINE=true cargo build -q --offline 2> "$S/log" || { cat "$S/log"; exit 3; }
cd "$R" && timeout 120 "$S/target/debug/demo" "$S"
"""
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh():
    if not os.path.exists(W):
        sh("cp -a /repo %s" % W)
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq src", W)
def ids(a):
    return a or sorted(d for d in os.listdir(SEED) if os.path.exists(os.path.join(SEED, d, "patch.diff")))
def tests():
    base = json.load(open("/opt/vp/BASELINE.json"))
    r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", W)
    return r.returncode == 0 and "11 passed" in r.stdout, r.stdout[-1500:]
def main():
    cmd, a = sys.argv[1], sys.argv[2:]
    if cmd == "fresh":
        fresh()
    elif cmd == "new":
        d = os.path.join(SEED, a[0]); os.makedirs(d, exist_ok=True)
        r = sh("git diff", W)
        open(os.path.join(d, "patch.diff"), "w").write(r.stdout)
        p = os.path.join(d, "demo.sh")
        if not os.path.exists(p):
            open(p, "w").write(DEMO); os.chmod(p, 0o755)
        sh("git checkout -q -- .", W)
    elif cmd == "valid":
        fresh()
        for i in ids(a):
            d = os.path.join(SEED, i)
            fresh()
            ok = sh("bash %s/demo.sh" % d, W)
            ap = sh("git apply %s/patch.diff" % d, W)
            t, out = tests()
            bad = sh("bash %s/demo.sh" % d, W)
            good = ok.returncode == 0 and ap.returncode == 0 and t and bad.returncode not in (0, 3)
            print(i, "VALID" if good else "INVALID", "unchanged:", ok.returncode, "apply:", ap.returncode, "tests:", t, "patched:", bad.returncode, flush=True)
            if not good:
                print(ok.stdout[-1500:], ap.stdout, "" if t else out, bad.stdout[-1500:])
        fresh()
    elif cmd == "caught":
        for i in ids(a):
            d = os.path.join(SEED, i)
            prop = json.load(open(os.path.join(d, "meta.json")))["property"]
            assert sh("git status --porcelain", "/repo").stdout == "", "/repo is not clean"
            assert sh("git apply %s/patch.diff" % d, "/repo").returncode == 0, i
            try:
                r = sh("./run.sh %s quick" % prop, ROOT)
            finally:
                sh("git checkout -- .", "/repo")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            why = [l for l in r.stdout.splitlines() if "[" in l and "]:" in l]
            print(i, prop, "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode, (why[0][:160] if why else r.stdout[-300:]), flush=True)
main()
