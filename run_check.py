#!/usr/bin/env python3
"""Decides one property of binschema by symbolic execution of the real code.

usage: run_check.py <property id> [--keep] [--jobs entry,entry] [--verbose]

Steps (see DESIGN.md): build the engine if it is not built; compile the
harness together with /repo's current sources to LLVM IR (and, for replay, to
a native program); execute the harness entries symbolically, letting the SMT
solver decide every branch, memory access and assertion over all inputs within
the bounds; replay counterexamples, and one model per explored path, on the
native build; write evidence/<id>.json.

exit 0: held; exit 1: VIOLATION line printed; exit 2: the check itself failed.
"""
import resource
import json, os, re, shutil, subprocess, sys, threading, time, hashlib, fcntl

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BINSCHEMA_REPO", "/repo")
OUT = os.path.join(VERIF, "out")
ENGINE = os.path.join(VERIF, "engine", "target", "release", "irsym")
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)
import checks  # noqa: E402

T0 = time.time()
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THREADS = os.cpu_count() or 4


def log(*a):
    text = " ".join(str(x) for x in a)
    if len(text) > 4000:
        text = text[:2000] + " ... " + text[-2000:]
    print("[%6.1fs]" % (time.time() - T0), text, flush=True)


def fail(msg):
    log("CHECK ERROR:", msg)
    sys.exit(2)


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER"):
            if k not in ("CARGO_HOME",):
                del e[k]
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def sh(cmd, cwd, extra=None, timeout=800):
    e = env()
    if extra:
        e.update(extra)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def build_engine():
    src = os.path.join(VERIF, "engine", "src")
    newest = max(os.path.getmtime(os.path.join(src, f)) for f in os.listdir(src))
    if os.path.exists(ENGINE) and os.path.getmtime(ENGINE) >= newest:
        return
    rc, out = sh(["cargo", "build", "--release", "--offline"], os.path.join(VERIF, "engine"))
    if rc != 0 or not os.path.exists(ENGINE):
        fail("engine build failed:\n" + out[-3000:])
    os.utime(ENGINE)
    log("engine built")


def force_rebuild(target, profile):
    """cargo decides freshness by mtime; the crates under test are always rebuilt."""
    fp = os.path.join(target, profile, ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith(("binschema", "harness")):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)


def build_ir(feature, profile, res):
    target = os.path.join(HARNESS, "target-ir")
    force_rebuild(target, profile)
    deps = os.path.join(target, profile, "deps")
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.endswith(".ll"):
                os.unlink(os.path.join(deps, f))
    rc, out = sh(["cargo", "rustc", "--offline", "--lib", "--crate-type", "cdylib", "--profile", profile,
                  "--features", "ir," + feature, "--", "--emit=llvm-ir",
                  "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], HARNESS, {"CARGO_TARGET_DIR": target})
    lls = [f for f in os.listdir(deps) if f.endswith(".ll") and f.startswith("harness")] if os.path.isdir(deps) else []
    if rc != 0 or len(lls) != 1:
        res["error"] = "IR build failed (rc %d, %s):\n%s" % (rc, lls, out[-4000:])
        return
    dst = os.path.join(res["dir"], "module.ll")
    shutil.move(os.path.join(deps, lls[0]), dst)
    res["ll"] = dst
    res["t"] = time.time()


def build_native(feature, profile, res):
    target = os.path.join(HARNESS, "target-native")
    force_rebuild(target, profile)
    rc, out = sh(["cargo", "build", "--offline", "--profile", profile, "--features", feature, "--bin", "replay"],
                 HARNESS, {"CARGO_TARGET_DIR": target})
    exe = os.path.join(target, profile, "replay")
    if rc != 0 or not os.path.exists(exe):
        res["error"] = "native build failed:\n" + out[-4000:]
        return
    dst = os.path.join(res["dir"], "replay")
    shutil.copy2(exe, dst)
    res["exe"] = dst
    res["t"] = time.time()


def case_line(entry, params, hexbytes, choices):
    f = lambda xs: ",".join(str(x) for x in xs) if xs else "-"
    return "%s %s %s %s" % (entry, f(params), hexbytes or "-", f(choices))


def limit_stack():
    """What is run from here (the replay above all) runs on the usual 8 MiB of stack, whatever it is here."""
    hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
    want = 8 << 20
    if hard == resource.RLIM_INFINITY or hard >= want:
        resource.setrlimit(resource.RLIMIT_STACK, (want, hard))


limit_stack()


def run_native(exe, lines, timeout=120, prefix=()):
    try:
        p = subprocess.run(list(prefix) + [exe], input=("\n".join(lines) + "\n").encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace").splitlines(), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("utf-8", "replace").splitlines(), ""


def reproduces(exe, v, line):
    """Replay a counterexample natively; returns (reproduced, what happened)."""
    if v["kind"] == "hang":
        rc, out, err = run_native(exe, [line], timeout=20)
        return rc == "timeout" or rc not in (0,), "rc=%s %s" % (rc, out[:1])
    rc, out, err = run_native(exe, [line], timeout=60)
    what = "rc=%s %s %s" % (rc, out[:1], err[-300:])
    if rc == "timeout" or rc != 0:
        return True, what
    o = out[0] if out else ""
    if o.startswith(("assert", "panic")):
        return True, what
    if v["kind"] in ("memory", "ub"):
        vg = shutil.which("valgrind")
        if vg:
            rc, out, err = run_native(exe, [line], timeout=300,
                                      prefix=[vg, "--error-exitcode=99", "--quiet", "--leak-check=no"])
            if rc not in (0, "timeout"):
                return True, "valgrind: " + err[:1500]
    return False, what


def load_findings():
    res = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(\{.*?\}) (.*)", l.strip())
            if m:
                res.append((m.group(1), json.loads(m.group(2)), m.group(3)))
    return res


def matches(f, v):
    """A finding lists exact values of fields of the violation."""
    for k, want in f.items():
        if k == "params":
            if v["params"] != want:
                return False
        elif k == "choices":
            if v["choices"] != want:
                return False
        elif v.get(k) != want:
            return False
    return True


def expand(c, tier):
    """The job list of a check for a tier."""
    jobs = []
    for j in c["jobs"]:
        if j.get("tier") and j["tier"] != tier:
            continue
        base = dict(entry=j["entry"], params=j.get("params", []))
        opts = dict(c.get("opts", {}))
        opts.update(j.get("opts", {}))
        if tier == "thorough":
            base.update(time_limit=5400, max_paths=100_000_000)
        base.update(opts)
        n = j.get("shards", 1)
        for k in range(n):
            b = dict(base)
            if n > 1:
                b["shard"] = [k, n]
            b["id"] = "%s%s%s" % (j["entry"], j.get("params", []), "/%d:%d" % (k, n) if n > 1 else "")
            jobs.append(b)
    return jobs


def cross_check(jobs_out, tmp):
    """Thorough tier: the dumped queries are re-decided by a second solver."""
    n = 0
    bad = []
    files = []
    for j in jobs_out:
        for k, (text, ans) in enumerate(j.get("smt2") or []):
            files.append((text, ans))
    import random
    rnd = random.Random(SEED)
    rnd.shuffle(files)
    files = files[:400]
    from concurrent.futures import ThreadPoolExecutor

    def one(ix):
        text, ans = files[ix]
        p = os.path.join(tmp, "q%d.smt2" % ix)
        open(p, "w").write(text)
        try:
            r = subprocess.run(["cvc5", "--tlimit=60000", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=90)
            o = r.stdout.decode().strip().splitlines()
            got = o[0] if o else ""
        except Exception as e:
            got = "error %s" % e
        os.unlink(p)
        return got, ans

    with ThreadPoolExecutor(THREADS) as ex:
        for got, ans in ex.map(one, range(len(files))):
            if got in ("sat", "unsat"):
                n += 1
                if got != ans:
                    bad.append((got, ans))
    return n, bad


def main():
    argv = sys.argv[1:]
    pid = argv[0]
    verbose = "--verbose" in argv
    only = None
    if "--jobs" in argv:
        only = argv[argv.index("--jobs") + 1].split(",")
    c = checks.CHECKS[pid]
    feature = c.get("feature", pid.lower())
    work = os.path.join(OUT, pid)
    os.makedirs(work, exist_ok=True)
    for f in os.listdir(work):
        if f.startswith("violation-") or f in ("module.ll", "replay", "jobs.json", "result.json"):
            os.unlink(os.path.join(work, f))
    # one build at a time in the shared target directories
    lock = open(os.path.join(OUT, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    build_engine()
    ir, nat = {"dir": work}, {"dir": work}
    tb = time.time()
    ths = [threading.Thread(target=build_ir, args=(feature, "ir", ir)),
           threading.Thread(target=build_native, args=(feature, "native", nat))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    fcntl.flock(lock, fcntl.LOCK_UN)
    for r in (ir, nat):
        if "error" in r:
            fail(r["error"])
    build_s = time.time() - tb
    log("built IR and native replay in %.1f s" % build_s)
    jobs = expand(c, TIER)
    if only:
        jobs = [j for j in jobs if j["entry"] in only]
    if TIER == "thorough":
        for j in jobs:
            j.setdefault("dump", 1)
    json.dump(jobs, open(os.path.join(work, "jobs.json"), "w"))
    e = dict(os.environ)
    if verbose:
        e["IRSYM_VERBOSE"] = "1"
    budget = 760 if TIER == "quick" else 6 * 3600
    try:
        p = subprocess.run([ENGINE, ir["ll"], os.path.join(work, "jobs.json"), os.path.join(work, "result.json"), str(THREADS), str(int(max(60, budget - 60 - (time.time() - T0))))],
                           env=e, timeout=max(120, budget + 30 - (time.time() - T0)))
        if p.returncode != 0:
            fail("engine exited with %s" % p.returncode)
    except subprocess.TimeoutExpired:
        fail("engine exceeded the time budget")
    res = json.load(open(os.path.join(work, "result.json")))
    J = res["jobs"]
    log("symbolic execution: %d jobs, %d paths, %d queries, solver %.1f s" % (
        len(J), sum(j.get("paths", 0) for j in J), sum(j.get("queries", 0) for j in J), sum(j.get("solver_s", 0) for j in J)))
    errors = ["%s: %s" % (j["id"], x) for j in J for x in j["errors"]]

    # ---- validate explored paths against the native build
    lines, expect = [], []
    for j in J:
        for t in j["traces"]:
            lines.append(case_line(j["entry"], j["params"], t[0], t[1]))
            expect.append("ok " + ",".join(t[2]))
    validated = 0
    if lines:
        nch = max(1, min(THREADS, len(lines) // 200 + 1))
        chunks = [(i * len(lines) // nch, (i + 1) * len(lines) // nch) for i in range(nch)]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(nch) as ex:
            outs = list(ex.map(lambda ab: run_native(nat["exe"], lines[ab[0]:ab[1]], timeout=600), chunks))
        mism = 0
        for (a, b), (rc, out, err) in zip(chunks, outs):
            if rc != 0 or len(out) != b - a:
                errors.append("native replay of explored paths ended with %s after %d of %d cases (case: %s) %s" % (
                    rc, len(out), b - a, lines[min(a + len(out), b - 1)], err[-300:]))
            for i, o in enumerate(out):
                if i + a < b:
                    if o.rstrip() == expect[a + i].rstrip():
                        validated += 1
                    else:
                        mism += 1
                        if mism <= 3:
                            errors.append("path model behaves differently natively: %s: symbolic %r native %r" % (
                                lines[a + i][:400], expect[a + i][:400], o[:400]))
        log("replayed %d path models natively, %d agree" % (len(lines), validated))

    # ---- counterexamples
    findings = load_findings()
    seen_findings, viols, unconfirmed = {}, [], []
    for j in J:
        for v in j["violations"]:
            v = dict(v, entry=j["entry"], params=j["params"])
            line = case_line(v["entry"], v["params"], v["bytes"], v["choices"])
            v["case"] = line
            ok, what = reproduces(nat["exe"], v, line)
            v["native"] = what
            if not ok:
                unconfirmed.append(v)
                continue
            kf = [f for f in findings if f[0] == pid and matches(f[1], v)]
            if kf:
                seen_findings[kf[0][2]] = 1
            else:
                viols.append(v)
    for v in unconfirmed:
        errors.append("counterexample does not reproduce natively: %s %s at %s (%s): %s; native: %s" % (
            v["kind"], v["msg"], v["loc"], v["stack"][-3:] if v["stack"] else "", v["case"][:300], v["native"]))
    covers = {}
    for j in J:
        for k, n in j.get("covers", {}).items():
            covers[k] = covers.get(k, 0) + n
    names = c.get("covers", {})
    for k, name in names.items():
        if not covers.get(str(k)) and not only:
            errors.append("cover point %s (%s) was not reached: the check would be vacuous there" % (k, name))

    nx, xbad = 0, []
    if TIER == "thorough" and not viols:
        tmp = os.path.join(work, "smt")
        os.makedirs(tmp, exist_ok=True)
        nx, xbad = cross_check(J, tmp)
        shutil.rmtree(tmp, ignore_errors=True)
        log("cross-checked %d solver answers with cvc5, %d disagree" % (nx, len(xbad)))
        for b in xbad[:3]:
            errors.append("solver disagreement: cvc5 %s, z3 %s" % b)

    # ---- evidence
    fns = sorted({f for j in J for f in j.get("functions", [])})
    repo_fns = [f for f in fns if "binschema" in f]
    S = lambda k: sum(j.get(k, 0) for j in J)
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": c.get("level", "model_checking"),
        "coverage": {
            "states": S("paths"),
            "transitions": S("decisions"),
            "traces_validated_against_impl": validated,
            "samples": [],
            "bounds": c["bounds"] if isinstance(c["bounds"], str) else c["bounds"][TIER],
            "outside_bounds": c.get("outside", ""),
            "jobs": len(J),
            "paths_pruned_by_assumptions": S("paths_assume"),
            "paths_ending_in_violation": S("paths_viol"),
            "assertions_evaluated": S("asserts"),
            "assertions_with_symbolic_condition": S("asserts_symbolic"),
            "instructions_executed_symbolically": S("instrs"),
            "queries": S("queries"), "queries_unsat": S("unsat"), "queries_sat": S("sat"),
            "query_cache_hits": S("query_cache_hits"),
            "queries_rechecked_with_cvc5": nx,
            "solver": res["solver"], "solver_seconds": round(S("solver_s"), 3),
            "slowest_query_seconds": round(max([j.get("solver_max_s", 0) for j in J] or [0]), 3),
            "symbolic_bytes_on_one_path_max": max([j.get("max_sym_bytes", 0) for j in J] or [0]),
            "longest_path_instructions": max([j.get("max_path_steps", 0) for j in J] or [0]),
            "functions_encoded": len(fns),
            "functions_encoded_of_binschema": len(repo_fns),
            "functions_encoded_list": [],
            "cover_points": {names.get(k, names.get(int(k), k)) if k.isdigit() else k: n for k, n in sorted(covers.items())},
            "ir_sha256": hashlib.sha256(open(ir["ll"], "rb").read()).hexdigest(),
            "build_seconds": round(build_s, 1),
            "engine_seconds": round(res["wall_s"], 1),
            "check_errors": errors[:20],
        },
        "assumptions": checks.COMMON_ASSUMPTIONS + c.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2),
        "violations": len(viols),
    }
    step = max(1, len(lines) // 12)
    ev["coverage"]["samples"] = ["%s -> %s" % (l[:300], x[:300]) for l, x in list(zip(lines, expect))[::step][:12]] or ["(no completed path)"]
    size, keep = 0, []
    for f in sorted(repo_fns, key=len):
        size += len(f) + 4
        if size > 24000:
            break
        keep.append(f)
    ev["coverage"]["functions_encoded_list"] = sorted(keep)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    if "--keep" not in argv and not viols and not errors:
        for f in ("module.ll", "result.json", "replay"):
            try:
                os.unlink(os.path.join(work, f))
            except FileNotFoundError:
                pass
    for t in seen_findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    for e in errors:
        log("CHECK ERROR:", e)
    if viols:
        keys = set()
        for k, v in enumerate(viols):
            path = os.path.join(work, "violation-%d.json" % k)
            with open(path, "w") as f:
                json.dump(dict(property=pid, replay="echo '%s' | %s" % (v["case"], nat["exe"]), **v), f, indent=1)
            key = (v["kind"], v["msg"], v["loc"])
            if key in keys:
                continue
            keys.add(key)
            log("counterexample: %s: %s at %s; case: %s; native: %s" % (v["kind"], v["msg"], v["loc"], v["case"][:500], v["native"][:300]))
            print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, VERIF)), flush=True)
        sys.exit(1)
    if errors:
        sys.exit(2)
    log("property %s held on everything explored" % pid)
    sys.exit(0)


if __name__ == "__main__":
    main()
