#!/usr/bin/env python3
"""Builds the engine and the harness' dependencies, so that checks start quickly."""
import os
import sys

sys.argv = ["run_check.py", "C01"]
import run_check as rc

os.makedirs(rc.OUT, exist_ok=True)
rc.build_engine()
for f, profile in ((rc.build_ir, "ir"), (rc.build_native, "native")):
    d = os.path.join(rc.OUT, "setup")
    os.makedirs(d, exist_ok=True)
    res = {"dir": d}
    f("c01", profile, res)
    if "error" in res:
        print(res["error"])
        sys.exit(1)
for f in ("module.ll", "replay"):
    p = os.path.join(rc.OUT, "setup", f)
    if os.path.exists(p):
        os.unlink(p)
print("ready")
