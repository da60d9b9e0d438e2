//! Symbolic executor: depth-first exploration of all feasible paths of one
//! harness entry point.  Every undecided branch is put to the SMT solver; a
//! path ends normally, at a failed assumption, or at a violation.

use crate::ir::*;
use crate::solver::{Answer, Solver};
use crate::term::{mask, sext_u128, Node, Terms, T};
use std::collections::{HashSet, BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(T),
    A(Rc<[Val]>),
    U,
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    /// symbolic bytes, T(0) = concrete; empty = all concrete
    pub sym: Vec<T>,
    pub sizet: Option<T>,
    pub heap: bool,
    pub ro: bool,
}

impl Obj {
    fn byte(&self, off: u64) -> B {
        let o = off as usize;
        if o < self.sym.len() && self.sym[o] != T(0) { return B::S(self.sym[o]); }
        B::C(self.data.get(o).copied().unwrap_or(0))
    }
    fn grow(&mut self, n: u64) {
        let n = n.min(self.size) as usize;
        if self.data.len() < n { self.data.resize(n, 0); }
    }
    fn set(&mut self, off: u64, b: B) {
        let o = off as usize;
        self.grow(off + 1);
        match b {
            B::C(v) => {
                self.data[o] = v;
                if o < self.sym.len() { self.sym[o] = T(0); }
            }
            B::S(t) => {
                if self.sym.len() <= o { self.sym.resize(self.data.len().max(o + 1), T(0)); }
                self.sym[o] = t;
            }
        }
    }
    fn conc_range(&self, off: u64, n: u64) -> bool {
        if self.sym.is_empty() { return true; }
        let a = (off as usize).min(self.sym.len());
        let b = ((off + n) as usize).min(self.sym.len());
        self.sym[a..b].iter().all(|t| *t == T(0))
    }
}

#[derive(Copy, Clone, Debug)]
pub enum B { C(u8), S(T) }

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub bb: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u64>,
    pub dst: u32,
    pub next: u32,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub objs: BTreeMap<u64, Rc<Obj>>,
    pub next_addr: u64,
    pub pc: Vec<T>,
    pub known: HashMap<T, bool>,
    pub pinned: Vec<u128>,
    pub model: Vec<u128>,
    pub memo: HashMap<T, u128>,
    pub nbytes: u32,
    pub choices: Vec<u64>,
    pub observed: Vec<T>,
    pub steps: u64,
    pub heap_live: u64,
    pub alloc_limit: u64,
    pub depth: u32,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub loc: String,
    pub stack: Vec<String>,
    pub bytes: Vec<u8>,
    pub choices: Vec<u64>,
    pub observed: Vec<u64>,
}

#[derive(Debug)]
pub enum Stop {
    Done,
    Assume,
    Viol { kind: &'static str, msg: String, loc: String },
    Error(String),
}

type R<X> = Result<X, Stop>;

fn unsup<X>(s: impl Into<String>) -> R<X> { Err(Stop::Error(s.into())) }

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
enum Bi {
    None,
    SymBytes, SymChoose, SymAssume, SymAssert, SymCover, SymObserve, SymParam, SymConcretize, SymAllocLimit, SymHeapLive,
    Alloc, AllocZeroed, Dealloc, Realloc, Malloc, Calloc, Free, CRealloc, Memalign,
    Memcpy, Memset, Bcmp, Memcmp, Strlen,
    Panic, Abort, FmtWrite, HashKeys, Nop, RetZero, Clock, TlsKey,
    Intr,
}

pub struct Cfg {
    pub params: Vec<u64>,
    pub max_steps: u64,
    pub max_depth: usize,
    pub max_paths: u64,
    pub time_limit_s: u64,
    pub stub_fmt: bool,
    pub alloc_limit: u64,
    pub shard: (u64, u64),
    pub keep_traces: usize,
    pub solver_timeout_ms: u32,
    pub dump: bool,
    pub max_viol_per_key: usize,
}

pub struct Trace {
    pub bytes: Vec<u8>,
    pub choices: Vec<u64>,
    pub observed: Vec<u64>,
}

/// For working on the engine: say where paths part (IRSYM_FORKS=1).
pub static PROFILE: std::sync::LazyLock<bool> = std::sync::LazyLock::new(|| std::env::var_os("IRSYM_FORKS").is_some());

#[derive(Default)]
pub struct Stats {
    pub paths_done: u64,
    pub paths_assume: u64,
    pub paths_viol: u64,
    pub instrs: u64,
    pub forks: u64,
    pub decisions: u64,
    pub asserts: u64,
    pub asserts_symbolic: u64,
    pub max_depth: usize,
    pub max_vars: u32,
    pub max_path_steps: u64,
    pub max_concretize: u64,
}

pub struct Exec<'m> {
    pub m: &'m Module,
    pub ts: Terms,
    pub solver: Solver,
    pub cfg: Cfg,
    pub stats: Stats,
    bi: Vec<Bi>,
    stack: Vec<State>,
    vars: Vec<T>,
    pub viols: Vec<Violation>,
    viol_keys: HashMap<(String, String, String), usize>,
    pub traces: Vec<Trace>,
    pub covers: BTreeMap<u64, u64>,
    pub funcs: BTreeSet<u32>,
    pub errors: Vec<String>,
    fork_sites: HashMap<String, u64>,
    t0: Instant,
}

/// Milliseconds since `start` after which every job gives up.
pub static DEADLINE_MS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(u64::MAX);
pub fn start() -> Instant {
    static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    *START.get_or_init(Instant::now)
}
/// Once something is found, little more time is spent.
fn found() {
    let now = start().elapsed().as_millis() as u64;
    DEADLINE_MS.fetch_min(now + 90_000, std::sync::atomic::Ordering::SeqCst);
}
pub fn past_deadline() -> bool {
    start().elapsed().as_millis() as u64 > DEADLINE_MS.load(std::sync::atomic::Ordering::SeqCst)
}

fn classify(name: &str, pretty: &str, stub_fmt: bool) -> Bi {
    match name {
        "sym_bytes" => return Bi::SymBytes,
        "sym_choose" => return Bi::SymChoose,
        "sym_assume" => return Bi::SymAssume,
        "sym_assert" => return Bi::SymAssert,
        "sym_cover" => return Bi::SymCover,
        "sym_observe" => return Bi::SymObserve,
        "sym_param" => return Bi::SymParam,
        "sym_concretize" => return Bi::SymConcretize,
        "sym_alloc_limit" => return Bi::SymAllocLimit,
        "sym_heap_live" => return Bi::SymHeapLive,
        "malloc" => return Bi::Malloc,
        "calloc" => return Bi::Calloc,
        "free" => return Bi::Free,
        "realloc" => return Bi::CRealloc,
        "posix_memalign" => return Bi::Memalign,
        "memcpy" | "memmove" => return Bi::Memcpy,
        "memset" => return Bi::Memset,
        "bcmp" => return Bi::Bcmp,
        "memcmp" => return Bi::Memcmp,
        "strlen" => return Bi::Strlen,
        "abort" => return Bi::Abort,
        // threads do not end, variables are not set, and time stands still
        "getenv" | "__cxa_thread_atexit_impl" | "pthread_self" | "pthread_setspecific" => return Bi::RetZero,
        "pthread_key_create" => return Bi::TlsKey,
        "clock_gettime" => return Bi::Clock,
        _ => {}
    }
    if name.starts_with("llvm.") { return Bi::Intr; }
    match pretty {
        "__rustc::__rust_alloc" => return Bi::Alloc,
        "__rustc::__rust_alloc_zeroed" => return Bi::AllocZeroed,
        "__rustc::__rust_dealloc" => return Bi::Dealloc,
        "__rustc::__rust_realloc" => return Bi::Realloc,
        "__rustc::__rust_no_alloc_shim_is_unstable_v2" => return Bi::Nop,
        "std::io::stdio::_print" | "std::io::stdio::_eprint" => return Bi::Nop,
        "core::fmt::write" if stub_fmt => return Bi::FmtWrite,
        "core::cell::panic_already_borrowed" | "core::cell::panic_already_mutably_borrowed"
        | "core::option::unwrap_failed" | "core::option::expect_failed" | "core::result::unwrap_failed"
        | "alloc::raw_vec::capacity_overflow" | "alloc::raw_vec::handle_error" | "alloc::alloc::handle_alloc_error"
        | "__rustc::rust_begin_unwind" | "__rustc::rust_panic" | "__rustc::__rust_alloc_error_handler"
        | "std::process::abort" | "__rustc::__rust_abort" | "std::panicking::rust_panic_with_hook" => return Bi::Panic,
        _ => {}
    }
    if pretty.starts_with("core::panicking::") { return Bi::Panic; }
    if pretty.starts_with("core::slice::index::") && pretty.contains("fail") { return Bi::Panic; }
    if pretty.starts_with("core::str::") && pretty.contains("_fail") && !pretty.contains("rt") { return Bi::Panic; }
    if pretty.ends_with("::hashmap_random_keys") { return Bi::HashKeys; }
    Bi::None
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, cfg: Cfg) -> Self {
        let bi = m.funcs.iter().map(|f| classify(&f.name, &f.pretty, cfg.stub_fmt)).collect();
        let mut solver = Solver::new(cfg.solver_timeout_ms);
        if cfg.dump { solver.dump = Some(vec![]); }
        Exec {
            m,
            ts: Terms::new(),
            solver,
            cfg,
            stats: Stats::default(),
            bi,
            stack: vec![],
            vars: vec![],
            viols: vec![],
            viol_keys: HashMap::new(),
            traces: vec![],
            covers: BTreeMap::new(),
            funcs: BTreeSet::new(),
            errors: vec![],
            fork_sites: HashMap::new(),
            t0: Instant::now(),
        }
    }

    // ------------------------------------------------------------ solver

    fn eval(&mut self, st: &mut State, t: T) -> u128 {
        self.ts.eval(t, &st.model, &mut st.memo)
    }

    fn slice(&mut self, st: &State, t: T) -> Vec<T> {
        let vs = self.ts.varset(t);
        let mut inset = vec![false; self.vars.len()];
        for &v in vs.iter() { inset[v as usize] = true; }
        let mut out = vec![];
        let sets: Vec<Rc<Vec<u32>>> = st.pc.iter().map(|&c| self.ts.varset(c)).collect();
        let mut used = vec![false; st.pc.len()];
        loop {
            let mut changed = false;
            for (i, s) in sets.iter().enumerate() {
                if used[i] { continue; }
                if s.iter().any(|&v| inset[v as usize]) {
                    used[i] = true;
                    changed = true;
                    for &v in s.iter() { inset[v as usize] = true; }
                    out.push(st.pc[i]);
                }
            }
            if !changed { break; }
        }
        out
    }

    fn learn(&mut self, st: &mut State, t: T) {
        if let Some(v) = self.ts.as_const(t) { debug_assert!(v == 1); return; }
        if st.known.get(&t) == Some(&true) { return; }
        if let Node::And(a, b) = *self.ts.node(t) {
            self.learn(st, a);
            self.learn(st, b);
            st.known.insert(t, true);
            return;
        }
        st.known.insert(t, true);
        let n = self.ts.not(t);
        st.known.insert(n, false);
        st.pc.push(t);
        self.pin(st, t);
    }

    /// Record the variable bits that `t` (true on this path) determines.
    fn pin(&mut self, st: &mut State, t: T) {
        match *self.ts.node(t) {
            Node::And(a, b) => { self.pin(st, a); self.pin(st, b); }
            Node::Eq(a, b) => {
                if self.ts.as_const(b).is_some() { self.pin_bits(st, a); }
                else if self.ts.as_const(a).is_some() { self.pin_bits(st, b); }
            }
            // (single bits)
            Node::Not(a) => self.pin_bits(st, a),
            _ => self.pin_bits(st, t),
        }
    }
    fn pin_bits(&mut self, st: &mut State, t: T) {
        let (v, m) = match *self.ts.node(t) {
            Node::Var(v) => (v, mask(self.ts.w(t))),
            Node::Extract(hi, lo, x) => match *self.ts.node(x) {
                Node::Var(v) => (v, mask(hi - lo + 1) << lo),
                _ => return,
            },
            Node::Concat(ref p) => {
                let p = p.clone();
                for &q in p.iter() { self.pin_bits(st, q); }
                return;
            }
            Node::SExt(x) => return self.pin_bits(st, x),
            _ => return,
        };
        let v = v as usize;
        if st.pinned.len() <= v { st.pinned.resize(v + 1, 0); }
        st.pinned[v] |= m;
    }

    fn all_pinned(&mut self, st: &State, t: T) -> bool {
        let vs = self.ts.varset(t);
        vs.iter().all(|&v| st.pinned.get(v as usize).copied().unwrap_or(0) == 0xff)
    }

    /// Decide a boolean term on this path; if both values are feasible the
    /// other one is queued as a sibling state that re-executes the current
    /// instruction (callers must not have had side effects yet).
    fn decide(&mut self, st: &mut State, t: T) -> R<bool> {
        if let Some(v) = self.ts.as_const(t) { return Ok(v == 1); }
        if let Some(&b) = st.known.get(&t) { return Ok(b); }
        let cur = self.eval(st, t) == 1;
        if self.all_pinned(st, t) { return Ok(cur); }
        self.stats.decisions += 1;
        let nt = self.ts.not(t);
        let (yes, no) = if cur { (t, nt) } else { (nt, t) };
        let mut q = self.slice(st, no);
        q.push(no);
        match self.solver.check(&mut self.ts, &q) {
            Answer::Unsat => {
                st.known.insert(t, cur);
                st.known.insert(nt, !cur);
                self.pin(st, yes);
                Ok(cur)
            }
            Answer::Unknown => unsup("solver returned unknown (time limit)"),
            Answer::Sat(m) => {
                let mut sib = st.clone();
                for (v, x) in m { sib.model[v as usize] = x; }
                sib.memo.clear();
                self.learn(&mut sib, no);
                sib.depth += 1;
                self.stack.push(sib);
                self.stats.forks += 1;
                if *PROFILE {
                    let w = self.where_(st);
                    *self.fork_sites.entry(w[..w.len().min(4)].join(" < ")).or_insert(0) += 1;
                }
                self.learn(st, yes);
                st.depth += 1;
                Ok(cur)
            }
        }
    }

    fn concretize_t(&mut self, st: &mut State, t: T) -> R<u128> {
        if let Some(v) = self.ts.as_const(t) { return Ok(v); }
        let w = self.ts.w(t);
        // resolve ite over constants by its conditions
        let mut t = t;
        loop {
            match *self.ts.node(t) {
                Node::Ite(c, a, b) => { t = if self.decide(st, c)? { a } else { b }; }
                _ => break,
            }
            if let Some(v) = self.ts.as_const(t) { return Ok(v); }
        }
        if w > 128 { return unsup("concretize wide term"); }
        let v = self.eval(st, t);
        let k = self.ts.c(v, w);
        let e = self.ts.eq(t, k);
        self.decide(st, e)?;
        Ok(v)
    }

    fn concretize(&mut self, st: &mut State, v: &Val) -> R<u128> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(t) => self.concretize_t(st, *t),
            Val::U => Ok(0),
            Val::A(_) => unsup("aggregate used as scalar"),
        }
    }

    // ------------------------------------------------------------ values

    fn term(&mut self, v: &Val, w: u32) -> T {
        match v {
            Val::C(c) => self.ts.c(*c, w),
            Val::S(t) => { debug_assert_eq!(self.ts.w(*t), w); *t }
            Val::U => self.ts.c(0, w),
            Val::A(_) => panic!("aggregate as scalar term"),
        }
    }
    fn norm(&self, t: T) -> Val {
        match self.ts.node(t) { Node::Const(c) => Val::C(*c), _ => Val::S(t) }
    }
    fn cval(c: &Cst) -> Val {
        match c {
            Cst::Int(v) => Val::C(*v),
            Cst::Undef => Val::U,
            Cst::Agg(a) => Val::A(a.iter().map(Self::cval).collect()),
        }
    }
    fn op(&self, st: &State, o: &Op) -> Val {
        match o {
            Op::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Op::C(c) => Self::cval(c),
        }
    }
    fn lane(v: &Val, i: usize) -> Val {
        match v { Val::A(a) => a[i].clone(), Val::U => Val::U, _ => panic!("lane of scalar") }
    }

    fn bin(&mut self, k: Bin, w: u32, a: &Val, b: &Val) -> R<Val> {
        let z = Val::C(0);
        let a = if let Val::U = a { &z } else { a };
        let b = if let Val::U = b { &z } else { b };
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w > 128 { return unsup("wide arithmetic"); }
            let (x, y) = (*x, *y);
            let m = mask(w);
            let r = match k {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem if y == 0 =>
                    return Err(Stop::Viol { kind: "ub", msg: "division by zero".into(), loc: String::new() }),
                Bin::UDiv => x / y,
                Bin::URem => x % y,
                Bin::SDiv => sext_u128(x, w).wrapping_div(sext_u128(y, w)) as u128,
                Bin::SRem => sext_u128(x, w).wrapping_rem(sext_u128(y, w)) as u128,
                Bin::Shl => if y >= w as u128 { 0 } else { x << y },
                Bin::LShr => if y >= w as u128 { 0 } else { x >> y },
                Bin::AShr => (sext_u128(x, w) >> y.min(w as u128 - 1)) as u128,
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
            };
            return Ok(Val::C(r & m));
        }
        let (x, y) = (self.term(a, w), self.term(b, w));
        let r = match k {
            Bin::Add => self.ts.add(x, y),
            Bin::Sub => self.ts.sub(x, y),
            Bin::Mul => self.ts.mul(x, y),
            Bin::UDiv => self.ts.udiv(x, y),
            Bin::URem => self.ts.urem(x, y),
            Bin::SDiv => self.ts.sdiv(x, y),
            Bin::SRem => self.ts.srem(x, y),
            Bin::Shl => self.ts.shl(x, y),
            Bin::LShr => self.ts.lshr(x, y),
            Bin::AShr => self.ts.ashr(x, y),
            Bin::And => self.ts.and(x, y),
            Bin::Or => self.ts.or(x, y),
            Bin::Xor => self.ts.xor(x, y),
        };
        Ok(self.norm(r))
    }

    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        let z = Val::C(0);
        let a = if let Val::U = a { &z } else { a };
        let b = if let Val::U = b { &z } else { b };
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext_u128(x, w), sext_u128(y, w));
            let r = match p {
                Pred::Eq => x == y, Pred::Ne => x != y,
                Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
                Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy,
            };
            return Val::C(r as u128);
        }
        let (x, y) = (self.term(a, w), self.term(b, w));
        let r = match p {
            Pred::Eq => self.ts.eq(x, y), Pred::Ne => self.ts.ne(x, y),
            Pred::Ugt => self.ts.ult(y, x), Pred::Uge => self.ts.ule(y, x),
            Pred::Ult => self.ts.ult(x, y), Pred::Ule => self.ts.ule(x, y),
            Pred::Sgt => self.ts.slt(y, x), Pred::Sge => self.ts.sle(y, x),
            Pred::Slt => self.ts.slt(x, y), Pred::Sle => self.ts.sle(x, y),
        };
        self.norm(r)
    }

    fn fcmp(&mut self, p: u8, w: u32, a: &Val, b: &Val) -> R<Val> {
        if w != 32 && w != 64 { return unsup("fcmp width"); }
        let (x, y) = (self.term(a, w), self.term(b, w));
        // IEEE comparison from the bits
        let (eb, fb) = if w == 32 { (8, 23) } else { (11, 52) };
        let isnan = |s: &mut Self, t: T| {
            let e = s.ts.extract(fb + eb - 1, fb, t);
            let f = s.ts.extract(fb - 1, 0, t);
            let ones = s.ts.c(!0, eb);
            let z = s.ts.c(0, fb);
            let a = s.ts.eq(e, ones);
            let b = s.ts.ne(f, z);
            s.ts.and(a, b)
        };
        let nx = isnan(self, x);
        let ny = isnan(self, y);
        let un = self.ts.or(nx, ny);
        // map to a totally ordered unsigned key, with -0 = +0
        let key = |s: &mut Self, t: T| {
            let sg = s.ts.extract(w - 1, w - 1, t);
            let mag = s.ts.extract(w - 2, 0, t);
            let z1 = s.ts.c(0, 1);
            let mag = s.ts.concat(&[z1, mag]);
            let zero = s.ts.c(0, w);
            let neg = s.ts.sub(zero, mag);
            s.ts.ite(sg, neg, mag)
        };
        let kx = key(self, x);
        let ky = key(self, y);
        let eq = self.ts.eq(kx, ky);
        let lt = self.ts.slt(kx, ky);
        let gt = self.ts.slt(ky, kx);
        let mut r = self.ts.fls();
        for (bit, c) in [(1u8, eq), (2, gt), (4, lt)] {
            if p & bit != 0 { r = self.ts.or(r, c); }
        }
        let ord = self.ts.not(un);
        r = self.ts.and(r, ord);
        if p & 8 != 0 { r = self.ts.or(r, un); }
        Ok(self.norm(r))
    }

    fn fbin(&mut self, k: FBin, w: u32, a: &Val, b: &Val) -> R<Val> {
        let (Val::C(x), Val::C(y)) = (a, b) else {
            if w != 32 && w != 64 { return unsup("float width"); }
            let (x, y) = (self.term(a, w), self.term(b, w));
            return match self.ts.fbin(k, x, y) {
                Some(r) => Ok(self.norm(r)),
                None => unsup("symbolic floating-point remainder"),
            };
        };
        Ok(Val::C(match w {
            32 => {
                let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                (match k { FBin::Add => x + y, FBin::Sub => x - y, FBin::Mul => x * y, FBin::Div => x / y, FBin::Rem => x % y }).to_bits() as u128
            }
            64 => {
                let (x, y) = (f64::from_bits(*x as u64), f64::from_bits(*y as u64));
                (match k { FBin::Add => x + y, FBin::Sub => x - y, FBin::Mul => x * y, FBin::Div => x / y, FBin::Rem => x % y }).to_bits() as u128
            }
            _ => return unsup("float width"),
        }))
    }

    /// towards zero, saturating
    fn fp_to_int(&mut self, v: &Val, fw: u32, tw: u32, signed: bool) -> R<Val> {
        if fw != 32 && fw != 64 { return unsup("float width"); }
        if let Val::C(c) = v {
            let f = if fw == 32 { f32::from_bits(*c as u32) as f64 } else { f64::from_bits(*c as u64) };
            let r = if signed {
                let (lo, hi) = ((-1i128 << (tw - 1)), ((1u128 << (tw - 1)) - 1) as i128);
                (f as i128).clamp(lo, hi) as u128
            } else {
                (f as u128).min(mask(tw))
            };
            return Ok(Val::C(r & mask(tw)));
        }
        let t = self.term(v, fw);
        match self.ts.fp_to_int(t, tw, signed) {
            Some(r) => Ok(self.norm(r)),
            None => unsup("symbolic conversion of a float to a wide integer"),
        }
    }

    fn ext(&mut self, v: &Val, fw: u32, tw: u32, signed: bool) -> Val {
        match v {
            Val::U => Val::C(0),
            Val::C(c) if tw <= 128 => Val::C(if signed { sext_u128(*c, fw) as u128 & mask(tw) } else { *c }),
            _ => {
                let t = self.term(v, fw);
                let r = if signed { self.ts.sext(t, tw) } else { self.ts.zext(t, tw) };
                self.norm(r)
            }
        }
    }
    fn trunc(&mut self, v: &Val, fw: u32, tw: u32) -> Val {
        match v {
            Val::U => Val::C(0),
            Val::C(c) => Val::C(*c & mask(tw)),
            _ => { let t = self.term(v, fw); let r = self.ts.trunc(t, tw); self.norm(r) }
        }
    }

    /// flatten a scalar or vector to one bit-vector
    fn to_bits(&mut self, ty: &Ty, v: &Val) -> Val {
        match ty {
            Ty::Vector(n, e) => {
                if let Val::U = v { return Val::U; }
                let w = e.bits();
                let parts: Vec<T> = (0..*n as usize).rev().map(|i| { let l = Self::lane(v, i); self.term(&l, w) }).collect();
                let t = self.ts.concat(&parts);
                self.norm(t)
            }
            _ => v.clone(),
        }
    }
    fn from_bits(&mut self, ty: &Ty, v: &Val) -> Val {
        match ty {
            Ty::Vector(n, e) => {
                if let Val::U = v { return Val::U; }
                let w = e.bits();
                let t = self.term(v, w * n);
                let lanes: Vec<Val> = (0..*n).map(|i| { let x = self.ts.extract(i * w + w - 1, i * w, t); self.norm(x) }).collect();
                Val::A(lanes.into())
            }
            _ => v.clone(),
        }
    }

    fn cast(&mut self, st: &mut State, k: CastK, ft: &Ty, tt: &Ty, v: &Val) -> R<Val> {
        if ft.lanes() > 0 && tt.lanes() == ft.lanes() && k != CastK::Bits {
            if let Val::U = v { return Ok(Val::U); }
            let (fe, te) = (ft.elem(0).unwrap(), tt.elem(0).unwrap());
            let mut out = vec![];
            for i in 0..ft.lanes() as usize { let l = Self::lane(v, i); out.push(self.cast(st, k, &fe, &te, &l)?); }
            return Ok(Val::A(out.into()));
        }
        let (fw, tw) = (ft.bits(), tt.bits());
        Ok(match k {
            CastK::Trunc => self.trunc(v, fw, tw),
            CastK::Zext => self.ext(v, fw, tw, false),
            CastK::Sext => self.ext(v, fw, tw, true),
            CastK::Bits => {
                if let Val::U = v { return Ok(Val::U); }
                if ft.lanes() > 0 || tt.lanes() > 0 {
                    let b = self.to_bits(ft, v);
                    return Ok(self.from_bits(tt, &b));
                }
                if fw < tw { self.ext(v, fw, tw, false) } else if fw > tw { self.trunc(v, fw, tw) } else { v.clone() }
            }
            CastK::FpExt | CastK::FpTrunc => {
                if !matches!((fw, tw), (32, 64) | (64, 32)) { return unsup("float width"); }
                match v {
                    Val::C(c) if fw == 32 => Val::C((f32::from_bits(*c as u32) as f64).to_bits() as u128),
                    Val::C(c) => Val::C((f64::from_bits(*c as u64) as f32).to_bits() as u128),
                    _ => { let t = self.term(v, fw); let r = self.ts.fconv(t, tw); self.norm(r) }
                }
            }
            CastK::UiToFp | CastK::SiToFp => {
                if tw != 32 && tw != 64 { return unsup("float width"); }
                let signed = k == CastK::SiToFp;
                match v {
                    Val::C(c) => {
                        let s = sext_u128(*c, fw);
                        Val::C(if tw == 32 { (if signed { s as f32 } else { *c as f32 }).to_bits() as u128 }
                            else { (if signed { s as f64 } else { *c as f64 }).to_bits() as u128 })
                    }
                    _ => { let t = self.term(v, fw); let r = self.ts.int_to_fp(t, tw, signed); self.norm(r) }
                }
            }
            CastK::FpToUi | CastK::FpToSi => self.fp_to_int(v, fw, tw, k == CastK::FpToSi)?,
        })
    }

    // ------------------------------------------------------------ memory

    fn viol<X>(kind: &'static str, msg: impl Into<String>) -> R<X> {
        Err(Stop::Viol { kind, msg: msg.into(), loc: String::new() })
    }

    fn new_obj(&mut self, st: &mut State, size: u64, align: u64, heap: bool) -> u64 {
        let al = align.max(16);
        let base = (st.next_addr + 32 + al - 1) / al * al;
        st.next_addr = base + size;
        st.objs.insert(base, Rc::new(Obj { size, data: vec![], sym: vec![], sizet: None, heap, ro: false }));
        base
    }

    /// base address of the object holding [addr, addr+n), or an error
    fn locate(&mut self, st: &mut State, addr: u64, n: u64) -> R<(u64, bool)> {
        if let Some((&b, o)) = st.objs.range(..=addr).next_back() {
            if addr - b <= o.size && n <= o.size - (addr - b) {
                if let Some(sz) = o.sizet {
                    let end = addr - b + n;
                    let e = self.ts.c(end as u128, 64);
                    let ok = self.ts.ule(e, sz);
                    if !self.decide(st, ok)? {
                        return Self::viol("memory", "access beyond the end of an allocation");
                    }
                }
                return Ok((b, false));
            }
            if addr - b < o.size { return Self::viol("memory", "access crosses the end of an object"); }
        }
        if let Some(g) = self.m.global_at(addr) {
            let gl = &self.m.globals[g as usize];
            if addr - gl.addr <= gl.size && n <= gl.size - (addr - gl.addr) {
                return Ok((gl.addr, true));
            }
        }
        Self::viol("memory", format!("invalid access of {} bytes at {:#x}", n, addr))
    }

    /// live allocations, but those a static still refers to (a lazily filled
    /// cell, a cache of a thread) are not leaks
    fn heap_unrooted(&mut self, st: &State) -> usize {
        let total = st.objs.values().filter(|o| o.heap).count();
        let mut work: Vec<u64> = st.objs.iter().filter(|(b, o)| !o.heap && self.m.global_at(**b).is_some_and(|g| self.m.globals[g as usize].addr == **b)).map(|(b, _)| *b).collect();
        let mut seen = HashSet::new();
        while let Some(b) = work.pop() {
            let o = &st.objs[&b];
            let mut off = 0;
            while off + 8 <= o.data.len() as u64 {
                if o.conc_range(off, 8) {
                    let p = u64::from_le_bytes(o.data[off as usize..off as usize + 8].try_into().unwrap());
                    if let Some((&t, u)) = st.objs.range(..=p).next_back() {
                        if u.heap && p - t <= u.size && seen.insert(t) { work.push(t); }
                    }
                }
                off += 8;
            }
        }
        total - seen.len()
    }

    fn global_obj(&mut self, base: u64) -> R<&'m Vec<u8>> {
        let g = self.m.global_at(base).unwrap();
        match self.m.global_bytes(g) { Ok(b) => Ok(b), Err(e) => unsup(format!("global: {}", e)) }
    }

    /// concrete pointer for an access of n bytes (forks when symbolic)
    fn addr(&mut self, st: &mut State, p: &Val) -> R<u64> { Ok(self.concretize(st, p)? as u64) }

    fn get_bytes(&mut self, st: &mut State, addr: u64, n: u64) -> R<Vec<B>> {
        if n == 0 { return Ok(vec![]); }
        let (b, global) = self.locate(st, addr, n)?;
        let off = addr - b;
        if global {
            let d = self.global_obj(b)?;
            return Ok(d[off as usize..(off + n) as usize].iter().map(|&x| B::C(x)).collect());
        }
        let o = &st.objs[&b];
        Ok((0..n).map(|i| o.byte(off + i)).collect())
    }

    fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64, n: u64) -> R<(&'a mut Obj, u64)> {
        let (b, global) = self.locate(st, addr, n)?;
        if global {
            let g = self.m.global_at(b).unwrap();
            if self.m.globals[g as usize].konst { return Self::viol("memory", "write to constant memory"); }
            let d = self.global_obj(b)?.clone();
            st.objs.insert(b, Rc::new(Obj { size: d.len() as u64, data: d, sym: vec![], sizet: None, heap: false, ro: false }));
        }
        let o = Rc::make_mut(st.objs.get_mut(&b).unwrap());
        Ok((o, addr - b))
    }

    fn put_bytes(&mut self, st: &mut State, addr: u64, bs: &[B]) -> R<()> {
        if bs.is_empty() { return Ok(()); }
        let (o, off) = self.obj_mut(st, addr, bs.len() as u64)?;
        o.grow(off + bs.len() as u64);
        for (i, b) in bs.iter().enumerate() { o.set(off + i as u64, *b); }
        Ok(())
    }

    fn bytes_to_val(&mut self, bs: &[B], w: u32) -> Val {
        if bs.len() <= 16 && bs.iter().all(|b| matches!(b, B::C(_))) {
            let mut v = 0u128;
            for (i, b) in bs.iter().enumerate() { if let B::C(x) = b { v |= (*x as u128) << (8 * i); } }
            return Val::C(v & mask(w));
        }
        let parts: Vec<T> = bs.iter().rev().map(|b| match b { B::C(x) => self.ts.c(*x as u128, 8), B::S(t) => *t }).collect();
        let t = self.ts.concat(&parts);
        let t = self.ts.trunc(t, w);
        self.norm(t)
    }

    fn val_to_bytes(&mut self, v: &Val, w: u32, out: &mut Vec<B>) {
        let n = (w + 7) / 8;
        match v {
            Val::U => for _ in 0..n { out.push(B::C(0)); },
            Val::C(c) => for i in 0..n { out.push(B::C(if i < 16 { (*c >> (8 * i)) as u8 } else { 0 })); },
            Val::S(t) => {
                let t = if n * 8 > w { self.ts.zext(*t, n * 8) } else { *t };
                for i in 0..n {
                    let b = self.ts.extract(8 * i + 7, 8 * i, t);
                    out.push(match self.ts.as_const(b) { Some(c) => B::C(c as u8), None => B::S(b) });
                }
            }
            Val::A(_) => panic!("agg to bytes"),
        }
    }

    fn load_from(&mut self, ty: &Ty, bs: &[B]) -> R<Val> {
        Ok(match ty {
            Ty::Int(w) | Ty::Float(w) => self.bytes_to_val(&bs[..ty.store_size() as usize], *w),
            Ty::Ptr => self.bytes_to_val(&bs[..8], 64),
            Ty::Vector(n, e) if e.bits() % 8 != 0 => {
                let w = n * e.bits();
                let v = self.bytes_to_val(&bs[..((w + 7) / 8) as usize], w);
                self.from_bits(ty, &v)
            }
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                let mut out = vec![];
                for i in 0..ty.n_elems() {
                    let et = ty.elem(i).unwrap();
                    let o = ty.field_off(i) as usize;
                    out.push(self.load_from(&et, &bs[o..o + et.store_size().max(et.size().min(et.store_size())) as usize])?);
                }
                Val::A(out.into())
            }
            _ => return unsup("load type"),
        })
    }

    fn store_to(&mut self, ty: &Ty, v: &Val, out: &mut Vec<Option<B>>, off: usize) -> R<()> {
        match ty {
            Ty::Int(_) | Ty::Float(_) | Ty::Ptr => {
                let mut tmp = vec![];
                self.val_to_bytes(v, ty.bits(), &mut tmp);
                for (i, b) in tmp.into_iter().enumerate() { out[off + i] = Some(b); }
            }
            Ty::Vector(_, e) if e.bits() % 8 != 0 => {
                let b = self.to_bits(ty, v);
                let mut tmp = vec![];
                self.val_to_bytes(&b, ty.bits(), &mut tmp);
                for (i, b) in tmp.into_iter().enumerate() { out[off + i] = Some(b); }
            }
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                if let Val::U = v { return Ok(()); }
                for i in 0..ty.n_elems() {
                    let et = ty.elem(i).unwrap();
                    let l = Self::lane(v, i);
                    self.store_to(&et, &l, out, off + ty.field_off(i) as usize)?;
                }
            }
            _ => return unsup("store type"),
        }
        Ok(())
    }

    fn load(&mut self, st: &mut State, ty: &Ty, p: &Val) -> R<Val> {
        let n = ty.store_size();
        if n == 0 { return Ok(Val::U); }
        if let Val::S(t) = p {
            if let Some(v) = self.load_ite(st, ty, *t)? { return Ok(v); }
        }
        let a = self.addr(st, p)?;
        // fast path for concrete scalars
        if let Ty::Int(_) | Ty::Ptr = ty {
            if n <= 16 {
                if let Some((&b, o)) = st.objs.range(..=a).next_back() {
                    let off = a - b;
                    if o.sizet.is_none() && off + n <= o.data.len() as u64 && o.sym.is_empty() {
                        let mut buf = [0u8; 16];
                        buf[..n as usize].copy_from_slice(&o.data[off as usize..(off + n) as usize]);
                        return Ok(Val::C(u128::from_le_bytes(buf) & mask(ty.bits())));
                    }
                }
            }
        }
        let bs = self.get_bytes(st, a, n)?;
        self.load_from(ty, &bs)
    }

    fn tz(&self, t: T) -> u32 {
        match self.ts.node(t) {
            Node::Const(v) => if *v == 0 { self.ts.w(t) } else { v.trailing_zeros() },
            Node::Concat(p) => {
                let mut n = 0;
                for &q in p.iter().rev() {
                    let z = self.tz(q);
                    n += z;
                    if z < self.ts.w(q) { break; }
                }
                n
            }
            Node::Add(a, b) => self.tz(*a).min(self.tz(*b)),
            Node::Ite(_, a, b) => self.tz(*a).min(self.tz(*b)),
            Node::Mul(a, b) => (self.tz(*a) + self.tz(*b)).min(self.ts.w(t)),
            _ => 0,
        }
    }

    /// Load through a symbolic address as an if-then-else over one object.
    fn load_ite(&mut self, st: &mut State, ty: &Ty, t: T) -> R<Option<Val>> {
        if let Node::Ite(..) = self.ts.node(t) { return Ok(None); }
        if self.all_pinned(st, t) { return Ok(None); }
        let n = ty.store_size();
        if !matches!(ty, Ty::Int(_) | Ty::Ptr | Ty::Float(_)) { return Ok(None); }
        let v = self.eval(st, t) as u64;
        let Ok((b, global)) = self.locate(st, v, n) else { return Ok(None) };
        let size = if global {
            self.global_obj(b)?.len() as u64
        } else {
            let o = &st.objs[&b];
            if o.sizet.is_some() { return Ok(None); }
            o.size
        };
        let step = 1u64 << self.tz(t).min(6);
        if (size / step) > 2048 { return Ok(None); }
        // in bounds?
        let lo = self.ts.c(b as u128, 64);
        let hi = self.ts.c((b + size - n) as u128, 64);
        let c1 = self.ts.ule(lo, t);
        let c2 = self.ts.ule(t, hi);
        let inb = self.ts.and(c1, c2);
        if !self.decide(st, inb)? { return Ok(None); }
        // collect values by offset, merging equal neighbours
        let bytes = self.get_bytes(st, b, size)?;
        let w = ty.bits();
        let mut runs: Vec<(u64, T)> = vec![]; // (first offset, value)
        let first = (step - (b % step)) % step;
        let mut off = first;
        while off + n <= size {
            let x = self.load_from(ty, &bytes[off as usize..(off + n) as usize])?;
            let x = self.term(&x, w);
            if runs.last().map(|r| r.1) != Some(x) { runs.push((off, x)); }
            off += step;
        }
        if runs.is_empty() { return Ok(None); }
        if runs.len() > 300 { return Ok(None); }
        let mut acc = runs[runs.len() - 1].1;
        for i in (0..runs.len() - 1).rev() {
            let bound = self.ts.c((b + runs[i + 1].0) as u128, 64);
            let c = self.ts.ult(t, bound);
            acc = self.ts.ite(c, runs[i].1, acc);
        }
        Ok(Some(self.norm(acc)))
    }

    fn store(&mut self, st: &mut State, ty: &Ty, v: &Val, p: &Val) -> R<()> {
        let n = ty.store_size();
        if n == 0 { return Ok(()); }
        if let (Val::S(t), Ty::Int(8)) = (p, ty) {
            if self.store_sym(st, v, *t)? { return Ok(()); }
        }
        let a = self.addr(st, p)?;
        if let (Val::C(c), Ty::Int(_) | Ty::Ptr) = (v, ty) {
            if n <= 16 {
                let (o, off) = self.obj_mut(st, a, n)?;
                o.grow(off + n);
                o.data[off as usize..(off + n) as usize].copy_from_slice(&c.to_le_bytes()[..n as usize]);
                if !o.sym.is_empty() {
                    for i in off..off + n { if (i as usize) < o.sym.len() { o.sym[i as usize] = T(0); } }
                }
                return Ok(());
            }
        }
        let mut out: Vec<Option<B>> = vec![None; n as usize];
        self.store_to(ty, v, &mut out, 0)?;
        let (o, off) = self.obj_mut(st, a, n)?;
        o.grow(off + n);
        for (i, b) in out.into_iter().enumerate() { if let Some(b) = b { o.set(off + i as u64, b); } }
        Ok(())
    }

    fn memcpy(&mut self, st: &mut State, d: &Val, s: &Val, n: &Val) -> R<()> {
        let n = self.concretize(st, n)? as u64;
        if n == 0 { return Ok(()); }
        if n > 1 << 24 { return Self::viol("memory", "enormous copy"); }
        let d = self.addr(st, d)?;
        let s = self.addr(st, s)?;
        // all-concrete fast path
        let (sb, sg) = self.locate(st, s, n)?;
        let _ = self.locate(st, d, n)?;
        let off = s - sb;
        if !sg {
            let so = st.objs[&sb].clone();
            if so.conc_range(off, n) {
                let end = ((off + n) as usize).min(so.data.len());
                let beg = (off as usize).min(end);
                let tmp = so.data[beg..end].to_vec();
                drop(so);
                let (o, doff) = self.obj_mut(st, d, n)?;
                o.grow(doff + n);
                let doff = doff as usize;
                o.data[doff..doff + tmp.len()].copy_from_slice(&tmp);
                for x in &mut o.data[doff + tmp.len()..doff + n as usize] { *x = 0; }
                if !o.sym.is_empty() {
                    let a = doff.min(o.sym.len());
                    let b = (doff + n as usize).min(o.sym.len());
                    for x in &mut o.sym[a..b] { *x = T(0); }
                }
                return Ok(());
            }
        }
        let bs = self.get_bytes(st, s, n)?;
        self.put_bytes(st, d, &bs)
    }

    /// Is [addr, addr + n) inside one writable object, for the current model?
    /// Returns its base, its size (an upper bound when symbolic), and the
    /// exact size as a term.
    fn writable(&mut self, st: &mut State, addr: u64) -> Option<(u64, u64, T)> {
        let (&b, o) = st.objs.range(..=addr).next_back()?;
        if addr - b > o.size || o.ro { return None; }
        let (size, sizet) = (o.size, o.sizet);
        let exact = match sizet { Some(t) => t, None => self.ts.c(size as u128, 64) };
        Some((b, size, exact))
    }

    /// Fill of a symbolic length, without enumerating the lengths.
    fn memset_sym(&mut self, st: &mut State, d: u64, v: &Val, n: T) -> R<bool> {
        let Some((b, size, exact)) = self.writable(st, d) else { return Ok(false) };
        let off = d - b;
        let max = size - off;
        if max > 1 << 16 { return Ok(false); }
        let new = match v { Val::C(c) => self.ts.c(*c & 0xff, 8), Val::S(t) => self.ts.trunc(*t, 8), _ => self.ts.c(0, 8) };
        let olds = {
            let o = st.objs[&b].clone();
            (0..max).map(|i| o.byte(off + i)).collect::<Vec<B>>()
        };
        let mut diff = vec![];
        for (i, o) in olds.iter().enumerate() {
            let o = match o { B::C(c) => self.ts.c(*c as u128, 8), B::S(t) => *t };
            if o != new {
                diff.push((i as u64, o));
                if diff.len() > 512 { return Ok(false); }
            }
        }
        let offt = self.ts.c(off as u128, 64);
        let end = self.ts.add(offt, n);
        let c1 = self.ts.ule(end, exact);
        let c2 = self.ts.ule(n, exact);
        let ok = self.ts.and(c1, c2);
        if !self.decide(st, ok)? { return Self::viol("memory", "fill beyond the end of an object"); }
        let mut new_bytes = vec![];
        for (i, o) in diff {
            let k = self.ts.c(i as u128, 64);
            let c = self.ts.ult(k, n);
            let x = self.ts.ite(c, new, o);
            let x = match self.ts.as_const(x) { Some(v) => B::C(v as u8), None => B::S(x) };
            new_bytes.push((off + i, x));
        }
        let o = Rc::make_mut(st.objs.get_mut(&b).unwrap());
        for (i, x) in new_bytes { o.set(i, x); }
        Ok(true)
    }

    /// Store of a byte through a symbolic address into one object.
    fn store_sym(&mut self, st: &mut State, v: &Val, p: T) -> R<bool> {
        if let Node::Ite(..) = self.ts.node(p) { return Ok(false); }
        if self.all_pinned(st, p) { return Ok(false); }
        let at = self.eval(st, p) as u64;
        let Some((b, size, exact)) = self.writable(st, at) else { return Ok(false) };
        if size > 1 << 16 { return Ok(false); }
        let new = match v { Val::C(c) => self.ts.c(*c & 0xff, 8), Val::S(t) => self.ts.trunc(*t, 8), _ => return Ok(false) };
        let olds = {
            let o = st.objs[&b].clone();
            (0..size).map(|i| o.byte(i)).collect::<Vec<B>>()
        };
        let mut diff = vec![];
        for (i, o) in olds.iter().enumerate() {
            let o = match o { B::C(c) => self.ts.c(*c as u128, 8), B::S(t) => *t };
            if o != new {
                diff.push((i as u64, o));
                if diff.len() > 64 { return Ok(false); }
            }
        }
        let lo = self.ts.c(b as u128, 64);
        let off = self.ts.sub(p, lo);
        let inb = self.ts.ult(off, exact);
        if !self.decide(st, inb)? { return Ok(false); }
        let mut new_bytes = vec![];
        for (i, o) in diff {
            let k = self.ts.c(i as u128, 64);
            let c = self.ts.eq(off, k);
            let x = self.ts.ite(c, new, o);
            let x = match self.ts.as_const(x) { Some(v) => B::C(v as u8), None => B::S(x) };
            new_bytes.push((i, x));
        }
        let o = Rc::make_mut(st.objs.get_mut(&b).unwrap());
        for (i, x) in new_bytes { o.set(i, x); }
        Ok(true)
    }

    fn memset(&mut self, st: &mut State, d: &Val, v: &Val, n: &Val) -> R<()> {
        if let Val::S(t) = n {
            let t = *t;
            if self.ts.w(t) == 64 && !self.all_pinned(st, t) && !matches!(self.ts.node(t), Node::Ite(..)) {
                let d = self.addr(st, d)?;
                if self.memset_sym(st, d, v, t)? { return Ok(()); }
            }
        }
        let n = self.concretize(st, n)? as u64;
        if n == 0 { return Ok(()); }
        if n > 1 << 24 { return Self::viol("memory", "enormous fill"); }
        let d = self.addr(st, d)?;
        let b = match v { Val::C(c) => B::C(*c as u8), Val::S(t) => { let t = self.ts.trunc(*t, 8); B::S(t) } _ => B::C(0) };
        let bs = vec![b; n as usize];
        self.put_bytes(st, d, &bs)
    }

    fn alloc(&mut self, st: &mut State, size: &Val, align: u64) -> R<u64> {
        match size {
            Val::S(t) => {
                let t = *t;
                let lim = self.ts.c(st.alloc_limit as u128, 64);
                let ok = self.ts.ule(t, lim);
                if !self.decide(st, ok)? {
                    return Self::viol("alloc", format!("single allocation larger than {} bytes", st.alloc_limit));
                }
                if self.all_pinned(st, t) {
                    let v = self.eval(st, t) as u64;
                    return self.alloc(st, &Val::C(v as u128), align);
                }
                // upper bound by binary search on the solver
                let cur = self.eval(st, t) as u64;
                let (mut lo, mut hi) = (cur, st.alloc_limit);
                while lo < hi {
                    let mid = lo + (hi - lo) / 2;
                    let m = self.ts.c(mid as u128, 64);
                    let gt = self.ts.ult(m, t);
                    let mut q = self.slice(st, gt);
                    q.push(gt);
                    match self.solver.check(&mut self.ts, &q) {
                        Answer::Unsat => hi = mid,
                        Answer::Sat(_) => lo = mid + 1,
                        Answer::Unknown => return unsup("solver unknown"),
                    }
                }
                let base = self.new_obj(st, hi, align, true);
                Rc::make_mut(st.objs.get_mut(&base).unwrap()).sizet = Some(t);
                Ok(base)
            }
            v => {
                let n = match v { Val::C(c) => *c as u64, _ => 0 };
                if n > st.alloc_limit {
                    return Self::viol("alloc", format!("single allocation larger than {} bytes", st.alloc_limit));
                }
                st.heap_live += 1;
                Ok(self.new_obj(st, n, align, true))
            }
        }
    }

    fn dealloc(&mut self, st: &mut State, p: u64) -> R<()> {
        match st.objs.get(&p) {
            Some(o) if o.heap => { st.objs.remove(&p); Ok(()) }
            _ => Self::viol("memory", "deallocation of something that is not a live allocation"),
        }
    }

    // ------------------------------------------------------------ running

    pub fn run(&mut self, entry: &str) {
        let Some(&f) = self.m.fn_by_name.get(entry) else {
            self.errors.push(format!("no entry point {}", entry));
            return;
        };
        let mut st = State {
            frames: vec![],
            objs: BTreeMap::new(),
            next_addr: 0x1_0000_0000,
            pc: vec![],
            known: HashMap::new(),
            pinned: vec![],
            model: vec![],
            memo: HashMap::new(),
            nbytes: 0,
            choices: vec![],
            observed: vec![],
            steps: 0,
            heap_live: 0,
            alloc_limit: self.cfg.alloc_limit,
            depth: 0,
        };
        if let Err(Stop::Error(e)) = self.push_frame(&mut st, f, vec![], NONE, NONE) {
            self.errors.push(e);
            return;
        }
        self.stack.push(st);
        while let Some(st) = self.stack.pop() {
            if self.t0.elapsed().as_secs() > self.cfg.time_limit_s || past_deadline() {
                self.errors.push(format!("time limit of {} s (or of the run) reached with {} states pending", self.cfg.time_limit_s, self.stack.len() + 1));
                return;
            }
            if self.stats.paths_done + self.stats.paths_assume + self.stats.paths_viol >= self.cfg.max_paths {
                self.errors.push(format!("path limit {} reached with {} states pending", self.cfg.max_paths, self.stack.len() + 1));
                return;
            }
            self.run_state(st);
            if !self.errors.is_empty() { return; }
        }
    }

    pub fn print_forks(&self) {
        let mut v: Vec<_> = self.fork_sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1));
        for (k, n) in v.iter().take(12) { eprintln!("  {n} forks in {k}"); }
    }

    fn where_(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| self.m.funcs[f.f as usize].pretty.clone()).collect()
    }

    fn run_state(&mut self, mut st: State) {
        let s0 = st.steps;
        let end = loop {
            match self.step(&mut st) {
                Ok(()) => {}
                Err(e) => break e,
            }
            if st.steps > self.cfg.max_steps {
                break Stop::Viol { kind: "hang", msg: format!("more than {} steps on one path", self.cfg.max_steps), loc: String::new() };
            }
            if st.steps & 0xffff == 0 && (self.t0.elapsed().as_secs() > self.cfg.time_limit_s || past_deadline()) {
                break Stop::Error("time limit reached inside a path".into());
            }
        };
        self.stats.instrs += st.steps - s0;
        self.stats.max_path_steps = self.stats.max_path_steps.max(st.steps);
        self.stats.max_vars = self.stats.max_vars.max(st.nbytes);
        // self-check: the path's model must satisfy its path condition
        for i in 0..st.pc.len() {
            let c = st.pc[i];
            if self.ts.eval(c, &st.model, &mut st.memo) != 1 {
                self.errors.push("internal: model does not satisfy the path condition".into());
                return;
            }
        }
        let bytes: Vec<u8> = st.model.iter().take(st.nbytes as usize).map(|&x| x as u8).collect();
        let obs = |s: &mut Self, st: &mut State| -> Vec<u64> {
            let o = st.observed.clone();
            o.into_iter().map(|t| s.ts.eval(t, &st.model, &mut st.memo) as u64).collect()
        };
        match end {
            Stop::Done => {
                self.stats.paths_done += 1;
                let keep = if self.traces.len() < self.cfg.keep_traces { true } else { false };
                if keep {
                    let observed = obs(self, &mut st);
                    self.traces.push(Trace { bytes, choices: st.choices.clone(), observed });
                }
            }
            Stop::Assume => self.stats.paths_assume += 1,
            Stop::Error(e) => {
                let w = self.where_(&st).join(" < ");
                self.errors.push(format!("{} [in {}]", e, w));
            }
            Stop::Viol { kind, msg, loc } => {
                self.stats.paths_viol += 1;
                let observed = obs(self, &mut st);
                let stack = self.where_(&st);
                let key = (kind.to_string(), if kind == "memory" || kind == "hang" { stack.first().cloned().unwrap_or_default() } else { msg.clone() }, loc.clone());
                let n = self.viol_keys.entry(key).or_insert(0);
                *n += 1;
                if *n <= self.cfg.max_viol_per_key {
                    found();
                    self.viols.push(Violation { kind: kind.into(), msg, loc, stack, bytes, choices: st.choices.clone(), observed });
                }
            }
        }
    }

    fn push_frame(&mut self, st: &mut State, f: u32, args: Vec<Val>, dst: u32, next: u32) -> R<()> {
        let body = match self.m.body(f) { Ok(b) => b, Err(e) => return unsup(format!("call: {}", e)) };
        if st.frames.len() >= self.cfg.max_depth {
            return Self::viol("stack", format!("call depth exceeds {}", self.cfg.max_depth));
        }
        self.funcs.insert(f);
        let mut regs = vec![Val::U; body.nregs as usize];
        if args.len() != body.params.len() { return unsup(format!("argument count for {}", self.m.funcs[f as usize].pretty)); }
        for (p, a) in body.params.iter().zip(args) { regs[*p as usize] = a; }
        st.frames.push(Frame { f, bb: 0, ip: 0, regs, allocas: vec![], dst, next });
        self.stats.max_depth = self.stats.max_depth.max(st.frames.len());
        Ok(())
    }

    fn set(&self, st: &mut State, dst: u32, v: Val) {
        if dst != NONE { st.frames.last_mut().unwrap().regs[dst as usize] = v; }
    }

    fn goto(&mut self, st: &mut State, bb: u32) -> R<()> {
        let fr = st.frames.last().unwrap();
        let body = self.m.body(fr.f).unwrap();
        let from = fr.bb;
        let blk = &body.blocks[bb as usize];
        let mut vals = Vec::with_capacity(blk.phis.len());
        for (d, inc) in &blk.phis {
            let mut found = false;
            for (b, o) in inc {
                if *b == from { vals.push((*d, self.op(st, o))); found = true; break; }
            }
            if !found { return unsup("phi without matching predecessor"); }
        }
        let fr = st.frames.last_mut().unwrap();
        for (d, v) in vals { fr.regs[d as usize] = v; }
        fr.bb = bb;
        fr.ip = 0;
        Ok(())
    }

    fn advance(&self, st: &mut State) { st.frames.last_mut().unwrap().ip += 1; }

    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        let fr = st.frames.last().unwrap();
        let body: &'m Body = self.m.body(fr.f).unwrap();
        let ins: &'m Instr = match body.blocks[fr.bb as usize].code.get(fr.ip as usize) {
            Some(i) => i,
            None => return unsup("fell off a block"),
        };
        match &ins.kind {
            Kind::Bin(k, ty, a, b) => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let w = ty.bits();
                let r = if let Ty::Vector(n, e) = ty {
                    let ew = e.bits();
                    if let (Val::U, Val::U) = (&x, &y) { Val::U } else {
                        let mut out = Vec::with_capacity(*n as usize);
                        for i in 0..*n as usize {
                            let (p, q) = (Self::lane(&x, i), Self::lane(&y, i));
                            out.push(self.bin(*k, ew, &p, &q)?);
                        }
                        Val::A(out.into())
                    }
                } else {
                    if matches!(k, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) {
                        if let Val::S(t) = &y {
                            let z = self.ts.c(0, w);
                            let e = self.ts.eq(*t, z);
                            if self.decide(st, e)? { return Self::viol("ub", "division by zero"); }
                        }
                    }
                    self.bin(*k, w, &x, &y)?
                };
                self.set(st, ins.dst, r);
                self.advance(st);
            }
            Kind::ICmp(p, ty, a, b) => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let r = if let Ty::Vector(n, e) = ty {
                    let ew = e.bits();
                    let mut out = Vec::with_capacity(*n as usize);
                    for i in 0..*n as usize {
                        let (u, v) = (Self::lane(&x, i), Self::lane(&y, i));
                        out.push(self.icmp(*p, ew, &u, &v));
                    }
                    Val::A(out.into())
                } else { self.icmp(*p, ty.bits(), &x, &y) };
                self.set(st, ins.dst, r);
                self.advance(st);
            }
            Kind::FCmp(p, ty, a, b) => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                if ty.lanes() > 0 { return unsup("vector fcmp"); }
                let r = self.fcmp(*p, ty.bits(), &x, &y)?;
                self.set(st, ins.dst, r);
                self.advance(st);
            }
            Kind::FBin(k, ty, a, b) => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let r = self.fbin(*k, ty.bits(), &x, &y)?;
                self.set(st, ins.dst, r);
                self.advance(st);
            }
            Kind::FNeg(ty, a) => {
                let x = self.op(st, a);
                let w = ty.bits();
                let r = self.bin(Bin::Xor, w, &x, &Val::C(1 << (w - 1)))?;
                self.set(st, ins.dst, r);
                self.advance(st);
            }
            Kind::Cast(k, ft, tt, a) => {
                let x = self.op(st, a);
                let r = self.cast(st, *k, ft, tt, &x)?;
                self.set(st, ins.dst, r);
                self.advance(st);
            }
            Kind::Select(ty, vec, c, a, b) => {
                let c = self.op(st, c);
                let (x, y) = (self.op(st, a), self.op(st, b));
                let r = if *vec {
                    let mut out = vec![];
                    let et = ty.elem(0).unwrap();
                    for i in 0..ty.n_elems() {
                        let (ci, u, v) = (Self::lane(&c, i), Self::lane(&x, i), Self::lane(&y, i));
                        out.push(self.select(st, &et, &ci, &u, &v)?);
                    }
                    Val::A(out.into())
                } else { self.select(st, ty, &c, &x, &y)? };
                self.set(st, ins.dst, r);
                self.advance(st);
            }
            Kind::Load(ty, p) => {
                let p = self.op(st, p);
                let r = self.load(st, ty, &p)?;
                self.set(st, ins.dst, r);
                self.advance(st);
            }
            Kind::Store(ty, v, p) => {
                let (v, p) = (self.op(st, v), self.op(st, p));
                self.store(st, ty, &v, &p)?;
                self.advance(st);
            }
            Kind::Gep(p, idx, off) => {
                let mut r = self.op(st, p);
                if let Val::U = r { r = Val::C(0); }
                if *off != 0 { r = self.bin(Bin::Add, 64, &r, &Val::C(*off as u128))?; }
                for (o, w, sc) in idx {
                    let v = self.op(st, o);
                    let v = if *w < 64 { self.ext(&v, *w, 64, true) } else if *w > 64 { self.trunc(&v, *w, 64) } else { v };
                    let v = if *sc == 1 { v } else { self.bin(Bin::Mul, 64, &v, &Val::C(*sc as u128))? };
                    r = self.bin(Bin::Add, 64, &r, &v)?;
                }
                self.set(st, ins.dst, r);
                self.advance(st);
            }
            Kind::Alloca(size, al, n) => {
                let n = self.op(st, n);
                let n = self.concretize(st, &n)? as u64;
                let a = self.new_obj(st, size * n, *al, false);
                st.frames.last_mut().unwrap().allocas.push(a);
                self.set(st, ins.dst, Val::C(a as u128));
                self.advance(st);
            }
            Kind::ExtractValue(a, path) => {
                let mut v = self.op(st, a);
                for &i in path { v = match &v { Val::A(x) => x[i as usize].clone(), Val::U => Val::U, _ => return unsup("extractvalue") }; }
                self.set(st, ins.dst, v);
                self.advance(st);
            }
            Kind::InsertValue(ty, a, v, path) => {
                let a = self.op(st, a);
                let v = self.op(st, v);
                let r = Self::insert(ty, &a, &v, path)?;
                self.set(st, ins.dst, r);
                self.advance(st);
            }
            Kind::ExtractElement(_, a, i) => {
                let a = self.op(st, a);
                let i = self.op(st, i);
                let i = self.concretize(st, &i)? as usize;
                let r = Self::lane(&a, i);
                self.set(st, ins.dst, r);
                self.advance(st);
            }
            Kind::InsertElement(ty, a, v, i) => {
                let a = self.op(st, a);
                let v = self.op(st, v);
                let i = self.op(st, i);
                let i = self.concretize(st, &i)? as u32;
                let r = Self::insert(ty, &a, &v, &[i])?;
                self.set(st, ins.dst, r);
                self.advance(st);
            }
            Kind::Shuffle(ty, a, b, mask) => {
                let a = self.op(st, a);
                let b = self.op(st, b);
                let n = ty.n_elems() as i32;
                let out: Vec<Val> = mask.iter().map(|&k| {
                    if k < 0 { Val::U } else if k < n { Self::lane(&a, k as usize) } else { Self::lane(&b, (k - n) as usize) }
                }).collect();
                self.set(st, ins.dst, Val::A(out.into()));
                self.advance(st);
            }
            Kind::Freeze(a) => {
                let v = self.op(st, a);
                self.set(st, ins.dst, v);
                self.advance(st);
            }
            Kind::AtomicRmw(k, ty, p, v) => {
                let (p, v) = (self.op(st, p), self.op(st, v));
                let old = self.load(st, ty, &p)?;
                let w = ty.bits();
                let new = match k {
                    Rmw::Xchg => v,
                    Rmw::Add => self.bin(Bin::Add, w, &old, &v)?,
                    Rmw::Sub => self.bin(Bin::Sub, w, &old, &v)?,
                    Rmw::And => self.bin(Bin::And, w, &old, &v)?,
                    Rmw::Or => self.bin(Bin::Or, w, &old, &v)?,
                    Rmw::Xor => self.bin(Bin::Xor, w, &old, &v)?,
                    Rmw::Nand => { let x = self.bin(Bin::And, w, &old, &v)?; self.bin(Bin::Xor, w, &x, &Val::C(mask(w)))? }
                    Rmw::Max | Rmw::Min | Rmw::UMax | Rmw::UMin => {
                        let pr = match k { Rmw::Max => Pred::Sgt, Rmw::Min => Pred::Slt, Rmw::UMax => Pred::Ugt, _ => Pred::Ult };
                        let c = self.icmp(pr, w, &old, &v);
                        self.select(st, ty, &c, &old, &v)?
                    }
                };
                self.store(st, ty, &new, &p)?;
                self.set(st, ins.dst, old);
                self.advance(st);
            }
            Kind::CmpXchg(ty, p, a, b) => {
                let (p, a, b) = (self.op(st, p), self.op(st, a), self.op(st, b));
                let old = self.load(st, ty, &p)?;
                let c = self.icmp(Pred::Eq, ty.bits(), &old, &a);
                let ct = self.term(&c, 1);
                let eq = self.decide(st, ct)?;
                if eq { self.store(st, ty, &b, &p)?; }
                self.set(st, ins.dst, Val::A(vec![old, Val::C(eq as u128)].into()));
                self.advance(st);
            }
            Kind::Nop => self.advance(st),
            Kind::Call { callee, args, ret, byval } => return self.call(st, ins, callee, args, ret, *byval),
            Kind::Ret(v) => {
                let v = v.as_ref().map(|o| self.op(st, o));
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas { st.objs.remove(&a); }
                if st.frames.is_empty() { return Err(Stop::Done); }
                if let Some(v) = v { self.set(st, fr.dst, v); }
                if fr.next != NONE { self.goto(st, fr.next)?; } else { self.advance(st); }
            }
            Kind::Br(b) => self.goto(st, *b)?,
            Kind::CondBr(c, a, b) => {
                let t = match self.op(st, c) {
                    Val::C(v) => v == 1,
                    Val::S(t) => self.decide(st, t)?,
                    Val::U => return Self::viol("ub", "branch on an undefined value"),
                    _ => return unsup("branch on aggregate"),
                };
                self.goto(st, if t { *a } else { *b })?;
            }
            Kind::Switch(w, v, cases, d) => {
                let v = self.op(st, v);
                let tgt = match &v {
                    Val::C(c) => cases.iter().find(|(k, _)| k == c).map(|x| x.1).unwrap_or(*d),
                    Val::S(t) => {
                        let cur = self.eval(st, *t);
                        match cases.iter().find(|(k, _)| *k == cur) {
                            Some(&(_, tg)) => {
                                let mut c = self.ts.fls();
                                for (k, l) in cases {
                                    if *l == tg {
                                        let kt = self.ts.c(*k, *w);
                                        let e = self.ts.eq(*t, kt);
                                        c = self.ts.or(c, e);
                                    }
                                }
                                if !self.decide(st, c)? { return unsup("switch decision"); }
                                tg
                            }
                            None => {
                                let mut c = self.ts.tru();
                                for (k, _) in cases {
                                    let kt = self.ts.c(*k, *w);
                                    let e = self.ts.ne(*t, kt);
                                    c = self.ts.and(c, e);
                                }
                                if !self.decide(st, c)? { return unsup("switch decision"); }
                                *d
                            }
                        }
                    }
                    Val::U => return Self::viol("ub", "switch on an undefined value"),
                    _ => return unsup("switch on aggregate"),
                };
                self.goto(st, tgt)?;
            }
            Kind::Unreachable => return Self::viol("ub", "reached unreachable code"),
            Kind::Unsupported(s) => return unsup(format!("unsupported: {}", s)),
        }
        Ok(())
    }

    fn insert(ty: &Ty, a: &Val, v: &Val, path: &[u32]) -> R<Val> {
        if path.is_empty() { return Ok(v.clone()); }
        let n = ty.n_elems();
        let mut e: Vec<Val> = match a { Val::A(x) => x.to_vec(), Val::U => vec![Val::U; n], _ => return unsup("insertvalue") };
        let i = path[0] as usize;
        if i >= n { return unsup("insert index"); }
        let et = ty.elem(i).unwrap();
        e[i] = Self::insert(&et, &e[i].clone(), v, &path[1..])?;
        Ok(Val::A(e.into()))
    }

    fn select(&mut self, st: &mut State, ty: &Ty, c: &Val, a: &Val, b: &Val) -> R<Val> {
        match c {
            Val::C(v) => Ok(if *v == 1 { a.clone() } else { b.clone() }),
            Val::U => Ok(b.clone()),
            Val::S(t) => {
                if let Some(&k) = st.known.get(t) { return Ok(if k { a.clone() } else { b.clone() }); }
                if self.all_pinned(st, *t) { let k = self.eval(st, *t) == 1; return Ok(if k { a.clone() } else { b.clone() }); }
                if ty.is_agg() {
                    let d = self.decide(st, *t)?;
                    return Ok(if d { a.clone() } else { b.clone() });
                }
                let w = ty.bits();
                let (x, y) = (self.term(a, w), self.term(b, w));
                let r = self.ts.ite(*t, x, y);
                Ok(self.norm(r))
            }
            Val::A(_) => unsup("select condition"),
        }
    }

    fn read_str(&mut self, st: &mut State, p: &Val, n: &Val) -> String {
        let (Val::C(p), Val::C(n)) = (p, n) else { return String::new() };
        if *n > 4096 { return String::new(); }
        match self.get_bytes(st, *p as u64, *n as u64) {
            Ok(b) => {
                let v: Vec<u8> = b.iter().map(|x| match x { B::C(c) => *c, B::S(_) => b'?' }).collect();
                String::from_utf8_lossy(&v).into_owned()
            }
            Err(_) => String::new(),
        }
    }

    /// decode a &'static core::panic::Location
    fn location(&mut self, st: &mut State, p: &Val) -> Option<String> {
        let Val::C(a) = p else { return None };
        let b = self.get_bytes(st, *a as u64, 24).ok()?;
        let v: Vec<u8> = b.iter().map(|x| match x { B::C(c) => *c, B::S(_) => 0 }).collect();
        let u = |i: usize, n: usize| { let mut x = 0u64; for k in (0..n).rev() { x = (x << 8) | v[i + k] as u64; } x };
        let (sp, sl, line) = (u(0, 8), u(8, 8), u(16, 4));
        if sl == 0 || sl > 400 || line > 100_000 { return None; }
        let mut s = self.read_str(st, &Val::C(sp as u128), &Val::C(sl as u128));
        while s.ends_with('\0') { s.pop(); }
        if s.is_empty() || !s.contains(".rs") { return None; }
        Some(format!("{}:{}", s, line))
    }

    fn fin(&mut self, st: &mut State, ins: &Instr, v: Option<Val>) -> R<()> {
        if let Some(v) = v { self.set(st, ins.dst, v); }
        if ins.next != NONE { self.goto(st, ins.next) } else { self.advance(st); Ok(()) }
    }

    fn call(&mut self, st: &mut State, ins: &'m Instr, callee: &Callee, args: &[(Ty, Op)], ret: &Ty, byval: bool) -> R<()> {
        if byval { return unsup("byval argument"); }
        let f = match callee {
            Callee::Fn(f) => *f,
            Callee::Asm => return self.fin(st, ins, None),
            Callee::Ptr(p) => {
                let p = self.op(st, p);
                let a = self.addr(st, &p)?;
                match self.m.func_at(a) {
                    Some(f) => f,
                    None => return Self::viol("memory", format!("call through an invalid function pointer {:#x}", a)),
                }
            }
        };
        let av: Vec<Val> = args.iter().map(|(_, o)| self.op(st, o)).collect();
        match self.bi[f as usize] {
            Bi::None => return self.push_frame(st, f, av, ins.dst, ins.next),
            Bi::Intr => return self.intrinsic(st, ins, f, args, ret, av),
            Bi::Nop => self.fin(st, ins, None),
            Bi::RetZero => self.fin(st, ins, Some(Val::C(0))),
            Bi::HashKeys => self.fin(st, ins, Some(Val::A(vec![Val::C(0x0123456789abcdef), Val::C(0xfedcba9876543210)].into()))),
            Bi::TlsKey => {
                self.memset(st, &av[0], &Val::C(1), &Val::C(4))?;
                self.fin(st, ins, Some(Val::C(0)))
            }
            Bi::Clock => {
                self.memset(st, &av[1], &Val::C(0), &Val::C(16))?;
                self.fin(st, ins, Some(Val::C(0)))
            }
            Bi::FmtWrite => self.fin(st, ins, Some(Val::C(0))),
            Bi::Panic => {
                let name = self.m.funcs[f as usize].pretty.clone();
                let mut loc = String::new();
                if let Some(l) = av.last() { let l = l.clone(); if let Some(s) = self.location(st, &l) { loc = s; } }
                let mut msg = name.rsplit("::").next().unwrap().to_string();
                if matches!(name.as_str(), "core::panicking::panic" | "core::option::expect_failed" | "core::result::unwrap_failed"
                    | "core::panicking::panic_nounwind" | "core::panicking::panic_explicit") && av.len() >= 2 {
                    let s = self.read_str(st, &av[0].clone(), &av[1].clone());
                    if !s.is_empty() { msg = s; }
                }
                Err(Stop::Viol { kind: "panic", msg, loc })
            }
            Bi::Abort => Self::viol("panic", "abort"),
            Bi::Alloc | Bi::AllocZeroed => {
                let al = self.concretize(st, &av[1])? as u64;
                let p = self.alloc(st, &av[0], al)?;
                self.fin(st, ins, Some(Val::C(p as u128)))
            }
            Bi::Malloc => {
                let p = self.alloc(st, &av[0], 16)?;
                self.fin(st, ins, Some(Val::C(p as u128)))
            }
            Bi::Calloc => {
                let n = self.bin(Bin::Mul, 64, &av[0], &av[1])?;
                let p = self.alloc(st, &n, 16)?;
                self.fin(st, ins, Some(Val::C(p as u128)))
            }
            Bi::Memalign => {
                let al = self.concretize(st, &av[1])? as u64;
                let slot = self.addr(st, &av[0])?;
                let p = self.alloc(st, &av[2], al)?;
                self.store(st, &Ty::Ptr, &Val::C(p as u128), &Val::C(slot as u128))?;
                self.fin(st, ins, Some(Val::C(0)))
            }
            Bi::Dealloc | Bi::Free => {
                let p = self.addr(st, &av[0])?;
                if p != 0 || self.bi[f as usize] == Bi::Dealloc { self.dealloc(st, p)?; }
                self.fin(st, ins, None)
            }
            Bi::Realloc | Bi::CRealloc => {
                let p = self.addr(st, &av[0])?;
                let (al, new) = if self.bi[f as usize] == Bi::Realloc {
                    (self.concretize(st, &av[2])? as u64, av[3].clone())
                } else { (16, av[1].clone()) };
                let old = match st.objs.get(&p) {
                    Some(o) if o.heap => o.clone(),
                    _ => return Self::viol("memory", "reallocation of something that is not a live allocation"),
                };
                let np = self.alloc(st, &new, al)?;
                {
                    let o = Rc::make_mut(st.objs.get_mut(&np).unwrap());
                    let n = (old.data.len()).min(o.size as usize);
                    o.data = old.data[..n].to_vec();
                    let k = old.sym.len().min(n);
                    o.sym = old.sym[..k].to_vec();
                }
                st.objs.remove(&p);
                self.fin(st, ins, Some(Val::C(np as u128)))
            }
            Bi::Memcpy => {
                self.memcpy(st, &av[0], &av[1], &av[2])?;
                self.fin(st, ins, Some(av[0].clone()))
            }
            Bi::Memset => {
                self.memset(st, &av[0], &av[1], &av[2])?;
                self.fin(st, ins, Some(av[0].clone()))
            }
            Bi::Bcmp | Bi::Memcmp => {
                let n = self.concretize(st, &av[2])? as u64;
                if n == 0 { return self.fin(st, ins, Some(Val::C(0))); }
                let a = self.addr(st, &av[0])?;
                let b = self.addr(st, &av[1])?;
                let x = self.get_bytes(st, a, n)?;
                let y = self.get_bytes(st, b, n)?;
                let tb = |s: &mut Self, b: &B| match b { B::C(c) => s.ts.c(*c as u128, 8), B::S(t) => *t };
                let r = if self.bi[f as usize] == Bi::Bcmp {
                    let mut eq = self.ts.tru();
                    for (p, q) in x.iter().zip(&y) {
                        let (p, q) = (tb(self, p), tb(self, q));
                        let e = self.ts.eq(p, q);
                        eq = self.ts.and(eq, e);
                    }
                    let ne = self.ts.not(eq);
                    self.ts.zext(ne, 32)
                } else {
                    let mut r = self.ts.c(0, 32);
                    let (m1, p1) = (self.ts.c(!0, 32), self.ts.c(1, 32));
                    for (p, q) in x.iter().zip(&y).rev() {
                        let (p, q) = (tb(self, p), tb(self, q));
                        let e = self.ts.eq(p, q);
                        let l = self.ts.ult(p, q);
                        let d = self.ts.ite(l, m1, p1);
                        r = self.ts.ite(e, r, d);
                    }
                    r
                };
                let r = self.norm(r);
                self.fin(st, ins, Some(r))
            }
            Bi::Strlen => {
                let mut a = self.addr(st, &av[0])?;
                let s = a;
                loop {
                    match self.get_bytes(st, a, 1)?[0] { B::C(0) => break, B::C(_) => a += 1, B::S(_) => return unsup("symbolic strlen") }
                }
                self.fin(st, ins, Some(Val::C((a - s) as u128)))
            }
            // ---------------------------------------------------- harness API
            Bi::SymBytes => {
                let p = self.addr(st, &av[0])?;
                let n = self.concretize(st, &av[1])? as u64;
                let mut bs = vec![];
                for _ in 0..n {
                    let k = st.nbytes as usize;
                    if k >= self.vars.len() {
                        let v = self.ts.var(format!("in{}", k), 8);
                        self.vars.push(v);
                    }
                    if st.model.len() <= k { st.model.push(0); }
                    bs.push(B::S(self.vars[k]));
                    st.nbytes += 1;
                }
                self.put_bytes(st, p, &bs)?;
                self.fin(st, ins, None)
            }
            Bi::SymChoose => {
                let n = self.concretize(st, &av[0])? as u64;
                if n == 0 { return Err(Stop::Assume); }
                let (k, sh) = self.cfg.shard;
                let first = st.choices.is_empty();
                let mut vals: Vec<u64> = (0..n).collect();
                if first && sh > 1 { vals.retain(|v| v % sh == k); }
                if vals.is_empty() { return Err(Stop::Assume); }
                for &v in vals[1..].iter().rev() {
                    let mut s = st.clone();
                    s.choices.push(v);
                    s.depth += 1;
                    self.fin(&mut s, ins, Some(Val::C(v as u128)))?;
                    self.stack.push(s);
                    self.stats.forks += 1;
                }
                st.choices.push(vals[0]);
                self.fin(st, ins, Some(Val::C(vals[0] as u128)))
            }
            Bi::SymAssume => {
                let t = self.term_bool(&av[0]);
                if !self.decide(st, t)? { return Err(Stop::Assume); }
                self.fin(st, ins, None)
            }
            Bi::SymAssert => {
                let t = self.term_bool(&av[0]);
                self.stats.asserts += 1;
                if self.ts.as_const(t).is_none() { self.stats.asserts_symbolic += 1; }
                if !self.decide(st, t)? {
                    let msg = self.read_str(st, &av[1].clone(), &av[2].clone());
                    return Err(Stop::Viol { kind: "assert", msg, loc: String::new() });
                }
                self.fin(st, ins, None)
            }
            Bi::SymCover => {
                let id = self.concretize(st, &av[0])? as u64;
                *self.covers.entry(id).or_insert(0) += 1;
                self.fin(st, ins, None)
            }
            Bi::SymObserve => {
                let t = self.term(&av[0], 64);
                st.observed.push(t);
                self.fin(st, ins, None)
            }
            Bi::SymParam => {
                let i = self.concretize(st, &av[0])? as usize;
                let Some(&v) = self.cfg.params.get(i) else { return unsup(format!("no parameter {}", i)) };
                self.fin(st, ins, Some(Val::C(v as u128)))
            }
            Bi::SymConcretize => {
                let v = self.concretize(st, &av[0])?;
                self.fin(st, ins, Some(Val::C(v)))
            }
            Bi::SymAllocLimit => {
                st.alloc_limit = self.concretize(st, &av[0])? as u64;
                self.fin(st, ins, None)
            }
            Bi::SymHeapLive => {
                let n = self.heap_unrooted(st);
                self.fin(st, ins, Some(Val::C(n as u128)))
            }
        }
    }

    fn term_bool(&mut self, v: &Val) -> T {
        match v {
            Val::C(c) => self.ts.c((*c & 1) as u128, 1),
            Val::S(t) => { if self.ts.w(*t) == 1 { *t } else { self.ts.extract(0, 0, *t) } }
            _ => self.ts.fls(),
        }
    }

    fn intrinsic(&mut self, st: &mut State, ins: &'m Instr, f: u32, args: &[(Ty, Op)], ret: &Ty, av: Vec<Val>) -> R<()> {
        let name = &self.m.funcs[f as usize].name[5..];
        let base = |p: &str| name == p || name.starts_with(p) && name.as_bytes().get(p.len()) == Some(&b'.');
        if base("lifetime.start") || base("lifetime.end") || base("experimental.noalias.scope.decl") || base("donothing")
            || base("dbg.value") || base("dbg.declare") || base("x86.sse2.pause") || base("prefetch") || base("invariant.start")
            || base("invariant.end") || base("sideeffect") || base("stackrestore") {
            return self.fin(st, ins, Some(Val::U));
        }
        if base("stacksave") { return self.fin(st, ins, Some(Val::C(0))); }
        if base("assume") {
            let t = self.term_bool(&av[0]);
            if let Val::U = av[0] { return self.fin(st, ins, None); }
            if !self.decide(st, t)? { return Self::viol("ub", "compiler assumption violated"); }
            return self.fin(st, ins, None);
        }
        if base("trap") || base("ubsantrap") || base("debugtrap") { return Self::viol("panic", "trap"); }
        if base("memcpy") || base("memmove") || base("memcpy.inline") {
            self.memcpy(st, &av[0], &av[1], &av[2])?;
            return self.fin(st, ins, None);
        }
        if base("memset") || base("memset.inline") {
            self.memset(st, &av[0], &av[1], &av[2])?;
            return self.fin(st, ins, None);
        }
        if base("expect") || base("expect.with.probability") || base("ssa.copy") || base("threadlocal.address")
            || base("launder.invariant.group") || base("strip.invariant.group") || base("arithmetic.fence") || base("annotation") || base("ptr.annotation") {
            return self.fin(st, ins, Some(av[0].clone()));
        }
        if base("is.constant") { return self.fin(st, ins, Some(Val::C(0))); }
        if base("allow.runtime.check") || base("allow.ubsan.check") { return self.fin(st, ins, Some(Val::C(1))); }
        if base("objectsize") { return self.fin(st, ins, Some(Val::C(mask(ret.bits())))); }
        if base("ptrmask") {
            let r = self.bin(Bin::And, 64, &av[0], &av[1])?;
            return self.fin(st, ins, Some(r));
        }
        if base("load.relative") {
            let p = self.bin(Bin::Add, 64, &av[0], &av[1])?;
            let o = self.load(st, &Ty::Int(32), &p)?;
            let o = self.ext(&o, 32, 64, true);
            let r = self.bin(Bin::Add, 64, &av[0], &o)?;
            return self.fin(st, ins, Some(r));
        }
        if name.starts_with("vector.reduce.") {
            let op = name["vector.reduce.".len()..].split('.').next().unwrap();
            let ew = args[0].0.elem(0).unwrap().bits();
            let n = args[0].0.lanes() as usize;
            let mut acc = Self::lane(&av[0], 0);
            for i in 1..n {
                let l = Self::lane(&av[0], i);
                acc = match op {
                    "add" => self.bin(Bin::Add, ew, &acc, &l)?,
                    "mul" => self.bin(Bin::Mul, ew, &acc, &l)?,
                    "and" => self.bin(Bin::And, ew, &acc, &l)?,
                    "or" => self.bin(Bin::Or, ew, &acc, &l)?,
                    "xor" => self.bin(Bin::Xor, ew, &acc, &l)?,
                    "umax" | "umin" | "smax" | "smin" => self.minmax(st, op, ew, &acc, &l)?,
                    _ => return unsup(format!("llvm.{}", name)),
                };
            }
            return self.fin(st, ins, Some(acc));
        }
        // lane-wise integer intrinsics
        let wo = name.find(".with.overflow");
        if let Some(k) = wo {
            let w = args[0].0.bits();
            if args[0].0.lanes() > 0 { return unsup("vector overflow op"); }
            let r = self.with_overflow(&name[..k], w, &av[0], &av[1])?;
            return self.fin(st, ins, Some(r));
        }
        let lanes = ret.lanes();
        if lanes > 0 {
            let rt = ret.elem(0).unwrap();
            let mut out = vec![];
            for i in 0..lanes as usize {
                let a: Vec<Val> = av.iter().zip(args).map(|(v, (t, _))| if t.lanes() > 0 { Self::lane(v, i) } else { v.clone() }).collect();
                let w = args[0].0.elem(0).map(|t| t.bits()).unwrap_or(0);
                out.push(self.intr_scalar(st, name, w, rt.bits(), &a)?);
            }
            return self.fin(st, ins, Some(Val::A(out.into())));
        }
        if name == "x86.sse2.pmovmskb.128" {
            let mut r = self.ts.c(0, 32);
            for i in 0..16 {
                let l = Self::lane(&av[0], i);
                let t = self.term(&l, 8);
                let b = self.ts.extract(7, 7, t);
                let z = self.ts.zext(b, 32);
                let k = self.ts.c(i as u128, 32);
                let s = self.ts.shl(z, k);
                r = self.ts.or(r, s);
            }
            let r = self.norm(r);
            return self.fin(st, ins, Some(r));
        }
        let w = args.first().map(|a| a.0.bits()).unwrap_or(0);
        let r = self.intr_scalar(st, name, w, ret.bits(), &av)?;
        self.fin(st, ins, Some(r))
    }

    fn minmax(&mut self, st: &mut State, op: &str, w: u32, a: &Val, b: &Val) -> R<Val> {
        let p = match op { "umax" => Pred::Ugt, "umin" => Pred::Ult, "smax" => Pred::Sgt, _ => Pred::Slt };
        let c = self.icmp(p, w, a, b);
        self.select(st, &Ty::Int(w), &c, a, b)
    }

    fn with_overflow(&mut self, op: &str, w: u32, a: &Val, b: &Val) -> R<Val> {
        let signed = op.starts_with('s');
        let k = match &op[1..] { "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, _ => return unsup(op) };
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (r, o): (u128, bool) = if signed {
                let (sx, sy) = (sext_u128(x, w), sext_u128(y, w));
                let (r, o) = match k { Bin::Add => sx.overflowing_add(sy), Bin::Sub => sx.overflowing_sub(sy), _ => sx.overflowing_mul(sy) };
                let rw = sext_u128(r as u128 & mask(w), w);
                (r as u128 & mask(w), o || rw != r)
            } else {
                let (r, o) = match k { Bin::Add => x.overflowing_add(y), Bin::Sub => x.overflowing_sub(y), _ => x.overflowing_mul(y) };
                (r & mask(w), o || r > mask(w))
            };
            return Ok(Val::A(vec![Val::C(r), Val::C(o as u128)].into()));
        }
        let r = self.bin(k, w, a, b)?;
        let (x, y) = (self.term(a, w), self.term(b, w));
        let rt = self.term(&r, w);
        let o = match (signed, k) {
            (false, Bin::Add) => self.ts.ult(rt, x),
            (false, Bin::Sub) => self.ts.ult(x, y),
            (false, _) => {
                // constant multiplier: compare with the quotient
                let (c, v) = match (self.ts.as_const(x), self.ts.as_const(y)) { (Some(c), _) => (c, y), (_, Some(c)) => (c, x), _ => {
                    let (wx, wy) = (self.ts.zext(x, 2 * w), self.ts.zext(y, 2 * w));
                    let p = self.ts.mul(wx, wy);
                    let h = self.ts.extract(2 * w - 1, w, p);
                    let z = self.ts.c(0, w);
                    let o = self.ts.ne(h, z);
                    let o = self.norm(o);
                    return Ok(Val::A(vec![r, o].into()));
                } };
                if c == 0 { self.ts.fls() } else {
                    let q = self.ts.c(mask(w) / c, w);
                    self.ts.ult(q, v)
                }
            }
            (true, Bin::Add) | (true, Bin::Sub) => {
                let (sx, sy) = (self.ts.sext(x, w + 1), self.ts.sext(y, w + 1));
                let s = if k == Bin::Add { self.ts.add(sx, sy) } else { self.ts.sub(sx, sy) };
                let h = self.ts.extract(w, w, s);
                let l = self.ts.extract(w - 1, w - 1, s);
                self.ts.ne(h, l)
            }
            _ => {
                let (sx, sy) = (self.ts.sext(x, 2 * w), self.ts.sext(y, 2 * w));
                let p = self.ts.mul(sx, sy);
                let back = self.ts.sext(rt, 2 * w);
                self.ts.ne(p, back)
            }
        };
        let o = self.norm(o);
        Ok(Val::A(vec![r, o].into()))
    }

    fn intr_scalar(&mut self, st: &mut State, name: &str, w: u32, rw: u32, av: &[Val]) -> R<Val> {
        let op = name.split('.').next().unwrap();
        let full = |p: &str| name == p || name.starts_with(p) && name.as_bytes().get(p.len()) == Some(&b'.');
        Ok(match op {
            "umax" | "umin" | "smax" | "smin" => self.minmax(st, op, w, &av[0], &av[1])?,
            "ucmp" | "scmp" => {
                let p = if op == "ucmp" { Pred::Ult } else { Pred::Slt };
                let lt = self.icmp(p, w, &av[0], &av[1]);
                let eq = self.icmp(Pred::Eq, w, &av[0], &av[1]);
                let (lt, eq) = (self.term(&lt, 1), self.term(&eq, 1));
                let (m1, z, p1) = (self.ts.c(!0, rw), self.ts.c(0, rw), self.ts.c(1, rw));
                let i = self.ts.ite(eq, z, p1);
                let r = self.ts.ite(lt, m1, i);
                self.norm(r)
            }
            "abs" => {
                let neg = self.icmp(Pred::Slt, w, &av[0], &Val::C(0));
                let n = self.bin(Bin::Sub, w, &Val::C(0), &av[0])?;
                self.select(st, &Ty::Int(w), &neg, &n, &av[0])?
            }
            "ctpop" => {
                if let Val::C(c) = &av[0] { return Ok(Val::C(c.count_ones() as u128)); }
                let t = self.term(&av[0], w);
                let mut acc = self.ts.c(0, w);
                for i in 0..w {
                    let b = self.ts.extract(i, i, t);
                    let z = if w > 1 { self.ts.zext(b, w) } else { b };
                    acc = self.ts.add(acc, z);
                }
                self.norm(acc)
            }
            "ctlz" | "cttz" => {
                if let Val::C(c) = &av[0] {
                    let r = if *c == 0 { w } else if op == "cttz" { c.trailing_zeros() } else { c.leading_zeros() - (128 - w) };
                    return Ok(Val::C(r as u128));
                }
                let t = self.term(&av[0], w);
                let mut acc = self.ts.c(w as u128, w);
                for i in 0..w {
                    // last assignment wins: for cttz go from high to low
                    let bit = if op == "cttz" { w - 1 - i } else { i };
                    let cnt = if op == "cttz" { bit } else { w - 1 - bit };
                    let b = self.ts.extract(bit, bit, t);
                    let k = self.ts.c(cnt as u128, w);
                    acc = self.ts.ite(b, k, acc);
                }
                self.norm(acc)
            }
            "bswap" => {
                let t = self.term(&av[0], w);
                let parts: Vec<T> = (0..w / 8).map(|i| self.ts.extract(8 * i + 7, 8 * i, t)).collect();
                let r = self.ts.concat(&parts);
                self.norm(r)
            }
            "bitreverse" => {
                let t = self.term(&av[0], w);
                let parts: Vec<T> = (0..w).map(|i| self.ts.extract(i, i, t)).collect();
                let r = self.ts.concat(&parts);
                self.norm(r)
            }
            "fshl" | "fshr" => {
                let s = self.bin(Bin::URem, w, &av[2], &Val::C(w as u128))?;
                let Val::C(s) = s else {
                    let a = self.term(&av[0], w);
                    let b = self.term(&av[1], w);
                    let c = self.ts.concat(&[a, b]);
                    let s = self.term(&s, w);
                    let s2 = self.ts.zext(s, 2 * w);
                    let r = if op == "fshl" {
                        let x = self.ts.shl(c, s2);
                        self.ts.extract(2 * w - 1, w, x)
                    } else {
                        let x = self.ts.lshr(c, s2);
                        self.ts.extract(w - 1, 0, x)
                    };
                    return Ok(self.norm(r));
                };
                let s = s as u32;
                let a = self.term(&av[0], w);
                let b = self.term(&av[1], w);
                let c = self.ts.concat(&[a, b]);
                let r = if op == "fshl" { self.ts.extract(2 * w - 1 - s, w - s, c) } else { self.ts.extract(w - 1 + s, s, c) };
                self.norm(r)
            }
            "uadd" | "usub" | "sadd" | "ssub" if full(&format!("{}.sat", op)) => {
                let pr = self.with_overflow(op, w, &av[0], &av[1])?;
                let Val::A(pr) = pr else { unreachable!() };
                let sat = match op {
                    "uadd" => Val::C(mask(w)),
                    "usub" => Val::C(0),
                    _ => {
                        let neg = self.icmp(Pred::Slt, w, &av[0], &Val::C(0));
                        let lo = Val::C(1u128 << (w - 1));
                        let hi = Val::C(mask(w) >> 1);
                        self.select(st, &Ty::Int(w), &neg, &lo, &hi)?
                    }
                };
                self.select(st, &Ty::Int(w), &pr[1], &sat, &pr[0])?
            }
            "fptoui" | "fptosi" if full(&format!("{}.sat", op)) => self.fp_to_int(&av[0], w, rw, op == "fptosi")?,
            "fabs" => self.bin(Bin::And, w, &av[0], &Val::C(mask(w) >> 1))?,
            "copysign" => {
                let m = self.bin(Bin::And, w, &av[0], &Val::C(mask(w) >> 1))?;
                let s = self.bin(Bin::And, w, &av[1], &Val::C(1u128 << (w - 1)))?;
                self.bin(Bin::Or, w, &m, &s)?
            }
            "is" if full("is.fpclass") => {
                let Val::C(k) = av[1] else { return unsup("fpclass mask") };
                // only NaN tests (bits 0,1)
                if k == 3 { self.fcmp(8, w, &av[0], &av[0])? } else { return unsup("is.fpclass") }
            }
            _ => return unsup(format!("intrinsic llvm.{}", name)),
        })
    }
}
