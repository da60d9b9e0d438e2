#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a bug description (development aid; no check uses this).

usage: plant.py FILE.py...   each defines: id, property, needs, breaks, edits=[(file, old, new), ...], main (demo source)
Confirms in a scratch copy that the change builds, passes the stable tests, and that the demo tells the two trees apart.
"""
import json, os, subprocess, sys, shutil, runpy

DEMO = r'''#!/bin/bash
# run with cwd = the repository: exit 0 if it behaves, nonzero if not
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
binschema = { path = "$repo/binschema" }
serde = { version = "1", features = ["derive"] }
[profile.dev]
debug = false
TOML
cp "$here/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 250 cargo run -q --offline
'''
PRE = '''#![allow(unused_imports, dead_code)]
use binschema::{*, error::*, value::*};
use serde::{Serialize, Deserialize, ser, de, Serializer, Deserializer};
'''
S = "/tmp/plant"
run = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def scratch():
    if not os.path.exists(S + "/repo"):
        os.makedirs(S, exist_ok=True)
        run("cp -a /repo %s/repo" % S)
    run("cd %s/repo && git fetch -q origin 2>/dev/null; git reset -q --hard && git clean -fdq" % S)
    # follow /repo's HEAD
    run("cd %s/repo && git pull -q /repo HEAD; git reset -q --hard FETCH_HEAD" % S)


def blame_ok(f, old):
    """at least one changed line is of the base commit"""
    base = run("git -C /repo rev-list --max-parents=0 HEAD").stdout.decode().split()[0]
    src = open("/repo/" + f).read()
    l0 = src[: src.index(old)].count("\n") + 1
    l1 = l0 + old.count("\n")
    out = run("git -C /repo blame -l -L%d,%d %s" % (l0, l1, f)).stdout.decode()
    return any(l.lstrip("^").startswith(base[:30]) for l in out.splitlines())


for path in sys.argv[1:]:
    b = runpy.run_path(path)
    d = "/verif/seeded/" + b["id"]
    scratch()
    ok = False
    for f, old, new in b["edits"]:
        p = S + "/repo/" + f
        s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = run("cd %s/repo && git diff" % S).stdout
    base = run("git -C /repo rev-list --max-parents=0 HEAD").stdout.decode().split()[0]
    # lines removed by the patch that stem from the base commit
    nbase = 0
    cur = None
    for f in {e[0] for e in b["edits"]}:
        bl = run("git -C /repo blame -l %s" % f).stdout.decode().splitlines()
        ln = 0
        for l in run("cd %s/repo && git diff -U0 -- %s" % (S, f)).stdout.decode().splitlines():
            if l.startswith("@@"):
                ln = int(l.split()[1][1:].split(",")[0])
            elif l.startswith("-") and not l.startswith("---"):
                if bl[ln - 1].lstrip("^").startswith(base[:30]):
                    nbase += 1
                ln += 1
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/main.rs", "w").write(PRE + b["main"])
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    t = run("cd %s/repo && cargo build --offline --workspace 2>&1 | tail -3; cargo test --offline --workspace 2>&1 | grep -E '^test |error' " % S).stdout.decode()
    passed, failed = t.count("... ok"), t.count("FAILED") + t.count("error")
    r1 = run("cd %s/repo && %s/demo.sh" % (S, d))
    scratch()
    r0 = run("cd %s/repo && %s/demo.sh" % (S, d))
    good = r0.returncode == 0 and r1.returncode != 0 and passed == 8 and failed == 0 and nbase > 0
    print("%-28s %s tests %d/%d demo clean %d patched %d baselines %d" % (b["id"], "OK " if good else "BAD", passed, failed, r0.returncode, r1.returncode, nbase), flush=True)
    if not good:
        print(t[-600:]); print("clean:", r0.stdout.decode()[-1500:]); print("patched:", r1.stdout.decode()[-600:])
