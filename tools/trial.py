#!/usr/bin/env python3
"""Runs checks on a scratch copy of /repo with a change applied (development aid; no check uses this).

usage: trial.py SLOT CHANGE CHECK...      CHANGE: a patch file, 'revert:<commit>', 'tree:<commit>' or 'none'
The copies live in /tmp/trial/SLOT/{verif,repo}; the build caches are kept between trials.
"""
import os, subprocess, sys, shutil

slot, change, ids = sys.argv[1], sys.argv[2], sys.argv[3:]
root = "/tmp/trial/" + slot
os.makedirs(root, exist_ok=True)
run = lambda c, **k: subprocess.run(c, shell=True, **k)
run("rsync -a --delete --exclude out --exclude evidence --exclude .git --exclude harness/target-ir --exclude harness/target-native /verif/ %s/verif/" % root) \
    if shutil.which("rsync") else run("mkdir -p %s/verif && cd /verif && tar cf - --exclude=./out --exclude=./evidence --exclude=./.git --exclude=./harness/target-ir --exclude=./harness/target-native --exclude=./seeded . | tar xf - -C %s/verif" % (root, root))
if not os.path.exists(root + "/repo/.git"):
    run("git clone -q /repo %s/repo" % root)
run("cd %s/repo && git fetch -q origin && git reset -q --hard && git checkout -q --detach origin/HEAD && git clean -fdq" % root)
if change.startswith("revert:"):
    r = run("cd %s/repo && git revert -n %s" % (root, change[7:]))
elif change.startswith("tree:"):
    r = run("cd %s/repo && git checkout -q %s -- binschema binschema_derive" % (root, change[5:]))
elif change != "none":
    r = run("cd %s/repo && git apply %s" % (root, os.path.abspath(change)))
else:
    r = run("true")
if r.returncode:
    print(slot, change, "DOES NOT APPLY")
    sys.exit(3)
for c in ids:
    p = run("cd %s/verif && timeout 900 python3 run_check.py %s" % (root, c), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = p.stdout.decode()
    first = [l for l in out.splitlines() if "counterexample" in l or "CHECK ERROR" in l]
    print("%-10s %-60s %s exit %d  %s" % (slot, os.path.basename(os.path.dirname(change)) or change, c, p.returncode, first[0][:330] if first else ""), flush=True)
