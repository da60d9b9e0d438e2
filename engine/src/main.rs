//! irsym: solver-based symbolic execution of rustc-emitted LLVM IR.
//!
//! usage: irsym <module.ll> <jobs.json> <out.json> [threads] [seconds]

mod exec;
mod fp;
mod ir;
mod solver;
mod term;

use serde_json::{json, Value};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

fn job_cfg(j: &Value) -> exec::Cfg {
    let n = |k: &str, d: u64| j.get(k).and_then(|v| v.as_u64()).unwrap_or(d);
    exec::Cfg {
        params: j.get("params").and_then(|v| v.as_array()).map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default(),
        max_steps: n("max_steps", 20_000_000),
        max_depth: n("max_depth", 1500) as usize,
        max_paths: n("max_paths", 2_000_000),
        time_limit_s: n("time_limit", 600),
        stub_fmt: n("stub_fmt", 1) == 1,
        alloc_limit: n("alloc_limit", 1 << 26),
        shard: {
            let s = j.get("shard").and_then(|v| v.as_array());
            match s { Some(a) => (a[0].as_u64().unwrap(), a[1].as_u64().unwrap()), None => (0, 1) }
        },
        keep_traces: n("keep_traces", 2000) as usize,
        solver_timeout_ms: n("solver_timeout_ms", 120_000) as u32,
        dump: n("dump", 0) == 1,
        max_viol_per_key: n("max_viol_per_key", 3) as usize,
    }
}

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

fn run_job(m: &ir::Module, j: &Value) -> Value {
    let t0 = Instant::now();
    let entry = j["entry"].as_str().unwrap();
    let mut ex = exec::Exec::new(m, job_cfg(j));
    ex.run(entry);
    if *exec::PROFILE {
        eprintln!("{} {:?}:", entry, j["params"]);
        ex.print_forks();
    }
    let funcs: Vec<&str> = ex.funcs.iter().map(|&f| m.funcs[f as usize].pretty.as_str()).collect();
    let s = &ex.stats;
    let viols: Vec<Value> = ex.viols.iter().map(|v| json!({
        "kind": v.kind, "msg": v.msg, "loc": v.loc, "stack": v.stack,
        "bytes": hex(&v.bytes), "choices": v.choices, "observed": v.observed.iter().map(|x| x.to_string()).collect::<Vec<_>>(),
    })).collect();
    let traces: Vec<Value> = ex.traces.iter().map(|t| json!([hex(&t.bytes), t.choices, t.observed.iter().map(|x| x.to_string()).collect::<Vec<_>>()])).collect();
    json!({
        "id": j["id"], "entry": entry, "params": j["params"],
        "errors": ex.errors,
        "violations": viols,
        "traces": traces,
        "covers": ex.covers.iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<_, _>>(),
        "functions": funcs,
        "paths": s.paths_done, "paths_assume": s.paths_assume, "paths_viol": s.paths_viol,
        "instrs": s.instrs, "forks": s.forks, "decisions": s.decisions,
        "asserts": s.asserts, "asserts_symbolic": s.asserts_symbolic,
        "max_depth": s.max_depth, "max_sym_bytes": s.max_vars, "max_path_steps": s.max_path_steps,
        "queries": ex.solver.queries, "query_cache_hits": ex.solver.cache_hits,
        "unsat": ex.solver.unsat, "sat": ex.solver.sat,
        "solver_s": ex.solver.time_ns as f64 / 1e9, "solver_max_s": ex.solver.max_ns as f64 / 1e9,
        "terms": ex.ts.nodes.len(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "smt2": ex.solver.dump.take().unwrap_or_default(),
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: irsym <module.ll> <jobs.json> <out.json> [threads] [seconds]");
        std::process::exit(2);
    }
    let t0 = exec::start();
    if let Some(s) = a.get(5) {
        exec::DEADLINE_MS.store(s.parse::<u64>().unwrap() * 1000, Ordering::SeqCst);
    }
    let text = std::fs::read_to_string(&a[1]).expect("read module");
    let m = ir::Module::parse(text).expect("parse module");
    let parse_s = t0.elapsed().as_secs_f64();
    let jobs: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("jobs")).expect("jobs json");
    let jobs = jobs.as_array().unwrap().clone();
    let threads: usize = a.get(4).map(|s| s.parse().unwrap()).unwrap_or(8);
    let next = AtomicUsize::new(0);
    let results: Mutex<Vec<Option<Value>>> = Mutex::new(vec![None; jobs.len()]);
    std::thread::scope(|sc| {
        for _ in 0..threads.min(jobs.len()) {
            std::thread::Builder::new().stack_size(1 << 29).spawn_scoped(sc, || loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                if k >= jobs.len() { break; }
                let j = &jobs[k];
                if exec::past_deadline() {
                    results.lock().unwrap()[k] = Some(json!({"id": j["id"], "entry": j["entry"], "params": j["params"], "errors": ["not run: out of time"], "violations": [], "traces": []}));
                    continue;
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_job(&m, j)));
                let v = match r {
                    Ok(v) => v,
                    Err(e) => {
                        let s = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        json!({"id": j["id"], "entry": j["entry"], "errors": [format!("engine panic: {}", s)], "violations": [], "traces": []})
                    }
                };
                if std::env::var_os("IRSYM_VERBOSE").is_some() {
                    eprintln!("job {} {} {:?}: paths {} viol {} errors {} wall {:.2}", k, j["entry"], j["params"], v["paths"], v["violations"].as_array().map(|a| a.len()).unwrap_or(0), v["errors"], v["wall_s"].as_f64().unwrap_or(0.0));
                }
                results.lock().unwrap()[k] = Some(v);
            }).unwrap();
        }
    });
    let res: Vec<Value> = results.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect();
    let out = json!({"parse_s": parse_s, "wall_s": t0.elapsed().as_secs_f64(), "solver": solver::version(), "functions_in_module": m.funcs.len(), "jobs": res});
    std::fs::write(&a[3], serde_json::to_string(&out).unwrap()).expect("write output");
}
