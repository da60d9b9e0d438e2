//! Thin Z3 C-API binding: one incremental-free solver, one query at a time.

use crate::term::{Node, Terms, T};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString, CStr};
use std::time::Instant;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_mk_context_rc(c: *mut c_void) -> Ctx;
    fn Z3_del_config(c: *mut c_void);
    fn Z3_del_context(c: Ctx);
    fn Z3_solver_dec_ref(c: Ctx, s: *mut c_void);
    fn Z3_inc_ref(c: Ctx, a: Ast);
    fn Z3_mk_bv_sort(c: Ctx, sz: c_uint) -> Sort;
    fn Z3_sort_to_ast(c: Ctx, s: Sort) -> Ast;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, ty: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, n: *const c_char, ty: Sort) -> Ast;
    fn Z3_mk_bvnot(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    fn Z3_mk_solver_for_logic(c: Ctx, s: *mut c_void) -> *mut c_void;
    fn Z3_solver_inc_ref(c: Ctx, s: *mut c_void);
    fn Z3_solver_reset(c: Ctx, s: *mut c_void);
    fn Z3_solver_assert(c: Ctx, s: *mut c_void, a: Ast);
    fn Z3_solver_check(c: Ctx, s: *mut c_void) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: *mut c_void) -> *mut c_void;
    fn Z3_model_inc_ref(c: Ctx, m: *mut c_void);
    fn Z3_model_dec_ref(c: Ctx, m: *mut c_void);
    fn Z3_model_eval(c: Ctx, m: *mut c_void, t: Ast, comp: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_dec_ref(c: Ctx, a: Ast);
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: *mut c_void, v: c_uint);
    fn Z3_solver_set_params(c: Ctx, s: *mut c_void, p: *mut c_void);
    fn Z3_get_error_code(c: Ctx) -> c_int;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(_c: Ctx, _e: c_int) {}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub enum Answer {
    Unsat,
    Sat(Vec<(u32, u128)>),
    Unknown,
}

pub struct Solver {
    ctx: Ctx,
    solver: *mut c_void,
    bv: HashMap<T, Ast>,
    bl: HashMap<T, Ast>,
    sorts: HashMap<u32, Sort>,
    var_asts: HashMap<u32, Ast>,
    cache: HashMap<Vec<T>, Option<Vec<(u32, u128)>>>,
    pub queries: u64,
    pub cache_hits: u64,
    pub unsat: u64,
    pub sat: u64,
    pub time_ns: u64,
    pub max_ns: u64,
    pub dump: Option<Vec<String>>,
    pub dump_seen: u64,
}

impl Drop for Solver {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.solver);
            Z3_del_context(self.ctx);
        }
    }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, Some(on_error));
            let logic = CString::new("QF_BV").unwrap();
            let solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, logic.as_ptr()));
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, solver, p);
            Solver {
                ctx,
                solver,
                bv: HashMap::new(),
                bl: HashMap::new(),
                sorts: HashMap::new(),
                var_asts: HashMap::new(),
                cache: HashMap::new(),
                queries: 0,
                cache_hits: 0,
                unsat: 0,
                sat: 0,
                time_ns: 0,
                max_ns: 0,
                dump: None,
                dump_seen: 0,
            }
        }
    }

    fn sort(&mut self, w: u32) -> Sort {
        let ctx = self.ctx;
        *self.sorts.entry(w).or_insert_with(|| unsafe {
            let s = Z3_mk_bv_sort(ctx, w);
            Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, s));
            s
        })
    }

    fn keep(&self, a: Ast) -> Ast {
        unsafe {
            let e = Z3_get_error_code(self.ctx);
            assert!(!a.is_null() && e == 0, "z3 error {}", e);
            Z3_inc_ref(self.ctx, a);
        }
        a
    }

    /// bit-vector encoding of a term
    fn bv(&mut self, ts: &Terms, t: T) -> Ast {
        if let Some(&a) = self.bv.get(&t) {
            return a;
        }
        let w = ts.w(t);
        let c = self.ctx;
        let r = unsafe {
            match ts.node(t).clone() {
                Node::Const(v) => {
                    let s = CString::new(v.to_string()).unwrap();
                    let so = self.sort(w);
                    Z3_mk_numeral(c, s.as_ptr(), so)
                }
                Node::Var(id) => {
                    let s = CString::new(format!("v{}", id)).unwrap();
                    let so = self.sort(w);
                    let a = Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), so);
                    self.keep(a);
                    self.var_asts.insert(id, a);
                    a
                }
                Node::Not(a) => { let a = self.bv(ts, a); Z3_mk_bvnot(c, a) }
                Node::And(a, b) => { let (a, b) = (self.bv(ts, a), self.bv(ts, b)); Z3_mk_bvand(c, a, b) }
                Node::Or(a, b) => { let (a, b) = (self.bv(ts, a), self.bv(ts, b)); Z3_mk_bvor(c, a, b) }
                Node::Xor(a, b) => { let (a, b) = (self.bv(ts, a), self.bv(ts, b)); Z3_mk_bvxor(c, a, b) }
                Node::Add(a, b) => { let (a, b) = (self.bv(ts, a), self.bv(ts, b)); Z3_mk_bvadd(c, a, b) }
                Node::Mul(a, b) => { let (a, b) = (self.bv(ts, a), self.bv(ts, b)); Z3_mk_bvmul(c, a, b) }
                Node::UDiv(a, b) => { let (a, b) = (self.bv(ts, a), self.bv(ts, b)); Z3_mk_bvudiv(c, a, b) }
                Node::URem(a, b) => { let (a, b) = (self.bv(ts, a), self.bv(ts, b)); Z3_mk_bvurem(c, a, b) }
                Node::SDiv(a, b) => { let (a, b) = (self.bv(ts, a), self.bv(ts, b)); Z3_mk_bvsdiv(c, a, b) }
                Node::SRem(a, b) => { let (a, b) = (self.bv(ts, a), self.bv(ts, b)); Z3_mk_bvsrem(c, a, b) }
                Node::Shl(a, b) => { let (a, b) = (self.bv(ts, a), self.bv(ts, b)); Z3_mk_bvshl(c, a, b) }
                Node::LShr(a, b) => { let (a, b) = (self.bv(ts, a), self.bv(ts, b)); Z3_mk_bvlshr(c, a, b) }
                Node::AShr(a, b) => { let (a, b) = (self.bv(ts, a), self.bv(ts, b)); Z3_mk_bvashr(c, a, b) }
                Node::Eq(..) | Node::Ult(..) | Node::Slt(..) => {
                    let p = self.boolean(ts, t);
                    let so = self.sort(1);
                    let one = self.keep(Z3_mk_numeral(c, c"1".as_ptr(), so));
                    let zero = self.keep(Z3_mk_numeral(c, c"0".as_ptr(), so));
                    Z3_mk_ite(c, p, one, zero)
                }
                Node::Ite(p, a, b) => {
                    let p = self.boolean(ts, p);
                    let (a, b) = (self.bv(ts, a), self.bv(ts, b));
                    Z3_mk_ite(c, p, a, b)
                }
                Node::Concat(ps) => {
                    let mut acc = self.bv(ts, ps[0]);
                    for &q in &ps[1..] {
                        let q = self.bv(ts, q);
                        acc = self.keep(Z3_mk_concat(c, acc, q));
                    }
                    acc
                }
                Node::Extract(h, l, a) => { let a = self.bv(ts, a); Z3_mk_extract(c, h, l, a) }
                Node::SExt(a) => {
                    let d = w - ts.w(a);
                    let a = self.bv(ts, a);
                    Z3_mk_sign_ext(c, d, a)
                }
            }
        };
        let r = self.keep(r);
        self.bv.insert(t, r);
        r
    }

    /// boolean encoding of a width-1 term
    fn boolean(&mut self, ts: &Terms, t: T) -> Ast {
        if let Some(&a) = self.bl.get(&t) {
            return a;
        }
        assert_eq!(ts.w(t), 1);
        let c = self.ctx;
        let r = unsafe {
            match ts.node(t).clone() {
                Node::Const(1) => Z3_mk_true(c),
                Node::Const(_) => Z3_mk_false(c),
                Node::Eq(a, b) => { let (a, b) = (self.bv(ts, a), self.bv(ts, b)); Z3_mk_eq(c, a, b) }
                Node::Ult(a, b) => { let (a, b) = (self.bv(ts, a), self.bv(ts, b)); Z3_mk_bvult(c, a, b) }
                Node::Slt(a, b) => { let (a, b) = (self.bv(ts, a), self.bv(ts, b)); Z3_mk_bvslt(c, a, b) }
                Node::Not(a) => { let a = self.boolean(ts, a); Z3_mk_not(c, a) }
                Node::And(a, b) => {
                    let v = [self.boolean(ts, a), self.boolean(ts, b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Node::Or(a, b) => {
                    let v = [self.boolean(ts, a), self.boolean(ts, b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Node::Ite(p, a, b) => {
                    let (p, a, b) = (self.boolean(ts, p), self.boolean(ts, a), self.boolean(ts, b));
                    Z3_mk_ite(c, p, a, b)
                }
                _ => {
                    let a = self.bv(ts, t);
                    let so = self.sort(1);
                    let one = self.keep(Z3_mk_numeral(c, c"1".as_ptr(), so));
                    Z3_mk_eq(c, a, one)
                }
            }
        };
        let r = self.keep(r);
        self.bl.insert(t, r);
        r
    }

    pub fn check(&mut self, ts: &mut Terms, cs: &[T]) -> Answer {
        let mut key = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return match r {
                None => Answer::Unsat,
                Some(m) => Answer::Sat(m.clone()),
            };
        }
        let t0 = Instant::now();
        self.queries += 1;
        let asts: Vec<Ast> = key.iter().map(|&t| self.boolean(ts, t)).collect();
        let res = unsafe {
            Z3_solver_reset(self.ctx, self.solver);
            for a in asts {
                Z3_solver_assert(self.ctx, self.solver, a);
            }
            Z3_solver_check(self.ctx, self.solver)
        };
        let ans = match res {
            -1 => {
                self.unsat += 1;
                self.cache.insert(key.clone(), None);
                Answer::Unsat
            }
            1 => {
                self.sat += 1;
                let mut vars: Vec<u32> = vec![];
                for &t in &key {
                    vars.extend_from_slice(&ts.varset(t));
                }
                vars.sort_unstable();
                vars.dedup();
                let mut out = vec![];
                unsafe {
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    for v in vars {
                        let va = self.var_asts[&v];
                        let mut r: Ast = std::ptr::null_mut();
                        assert!(Z3_model_eval(self.ctx, m, va, true, &mut r));
                        Z3_inc_ref(self.ctx, r);
                        let s = CStr::from_ptr(Z3_get_numeral_string(self.ctx, r));
                        let n: u128 = s.to_str().unwrap().parse().unwrap();
                        Z3_dec_ref(self.ctx, r);
                        out.push((v, n));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                }
                self.cache.insert(key.clone(), Some(out.clone()));
                Answer::Sat(out)
            }
            _ => Answer::Unknown,
        };
        let dt = t0.elapsed().as_nanos() as u64;
        self.time_ns += dt;
        self.max_ns = self.max_ns.max(dt);
        if self.dump.is_some() {
            self.dump_seen += 1;
            let want = self.dump.as_ref().unwrap().len() < 400 || self.dump_seen % 37 == 0;
            if want && self.dump.as_ref().unwrap().len() < 4000 {
                let s = Self::smt2(ts, &key, match ans { Answer::Unsat => "unsat", Answer::Sat(_) => "sat", _ => "unknown" });
                self.dump.as_mut().unwrap().push(s);
            }
        }
        ans
    }

    pub fn smt2(ts: &mut Terms, cs: &[T], status: &str) -> String {
        use std::fmt::Write;
        let mut vars: Vec<(u32, u32)> = vec![];
        let mut seen = std::collections::HashSet::new();
        let mut stack = cs.to_vec();
        while let Some(t) = stack.pop() {
            if !seen.insert(t) { continue; }
            if let Node::Var(v) = ts.node(t) { vars.push((*v, ts.w(t))); }
            stack.extend(ts.kids(t));
        }
        vars.sort_unstable();
        let mut s = format!("(set-logic QF_BV)\n(set-info :status {})\n", status);
        for (v, w) in vars { writeln!(s, "(declare-const v{} (_ BitVec {}))", v, w).unwrap(); }
        let mut names = HashMap::new();
        let mut defs = String::new();
        let mut asserts = String::new();
        for &t in cs {
            let mut o = String::new();
            let e = ts.smt(t, &mut o, &mut names, &mut defs);
            writeln!(asserts, "(assert (= {} #b1))", e).unwrap();
        }
        s.push_str(&defs);
        s.push_str(&asserts);
        s.push_str("(check-sat)\n");
        s
    }
}
