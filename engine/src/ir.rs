//! Parser for the textual LLVM IR that rustc emits.  Functions are parsed
//! lazily, the first time they are called; anything that is not understood
//! becomes an `Unsupported` instruction that only matters if it is executed.

use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Float(u32),
    Ptr,
    Array(u64, Arc<Ty>),
    Vector(u32, Arc<Ty>),
    Struct(Arc<[Ty]>, bool),
    Func,
    Label,
    Meta,
    Opaque,
}

fn align_up(x: u64, a: u64) -> u64 { (x + a - 1) / a * a }

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => (((*w as u64 + 7) / 8).max(1)).next_power_of_two().min(16),
            Ty::Float(w) => ((*w as u64 + 7) / 8).next_power_of_two(),
            Ty::Ptr => 8,
            Ty::Array(_, t) => t.align(),
            Ty::Vector(n, t) => ((*n as u64 * t.bits() as u64 + 7) / 8).next_power_of_two().max(1),
            Ty::Struct(f, packed) => {
                if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) }
            }
            _ => 1,
        }
    }
    /// store size in bytes
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) | Ty::Float(w) => (*w as u64 + 7) / 8,
            Ty::Ptr => 8,
            Ty::Vector(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    /// alloc size in bytes
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Func | Ty::Label | Ty::Meta | Ty::Opaque => 0,
            Ty::Int(_) | Ty::Float(_) | Ty::Ptr | Ty::Vector(..) => align_up(self.store_size(), self.align()),
            Ty::Array(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*packed { o = align_up(o, t.align()); }
                    o += t.size();
                }
                if *packed { o } else { align_up(o, self.align()) }
            }
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*packed { o = align_up(o, t.align()); }
                    if k == i { return o; }
                    o += t.size();
                }
                o
            }
            Ty::Array(_, t) => t.size() * i as u64,
            Ty::Vector(_, t) => t.size() * i as u64,
            _ => 0,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) | Ty::Float(w) => *w,
            Ty::Ptr => 64,
            Ty::Vector(n, t) => n * t.bits(),
            _ => 0,
        }
    }
    pub fn lanes(&self) -> u32 { if let Ty::Vector(n, _) = self { *n } else { 0 } }
    pub fn elem(&self, i: usize) -> Option<Ty> {
        match self {
            Ty::Struct(f, _) => f.get(i).cloned(),
            Ty::Array(_, t) | Ty::Vector(_, t) => Some((**t).clone()),
            _ => None,
        }
    }
    pub fn n_elems(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(n, _) => *n as usize,
            Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..)) }
}

/// Link-time-constant value.
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Undef,
    Agg(Arc<[Cst]>),
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    C(Cst),
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum FBin { Add, Sub, Mul, Div, Rem }

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum CastK { Trunc, Zext, Sext, Bits, FpTrunc, FpExt, FpToUi, FpToSi, UiToFp, SiToFp }

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Rmw { Xchg, Add, Sub, And, Nand, Or, Xor, Max, Min, UMax, UMin }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ptr(Op), Asm }

#[derive(Clone, Debug)]
pub enum Kind {
    Bin(Bin, Ty, Op, Op),
    FBin(FBin, Ty, Op, Op),
    FNeg(Ty, Op),
    ICmp(Pred, Ty, Op, Op),
    FCmp(u8, Ty, Op, Op),
    Cast(CastK, Ty, Ty, Op),
    Select(Ty, bool, Op, Op, Op),
    Load(Ty, Op),
    Store(Ty, Op, Op),
    Gep(Op, Vec<(Op, u32, u64)>, u64),
    Alloca(u64, u64, Op),
    ExtractValue(Op, Vec<u32>),
    InsertValue(Ty, Op, Op, Vec<u32>),
    ExtractElement(Ty, Op, Op),
    InsertElement(Ty, Op, Op, Op),
    Shuffle(Ty, Op, Op, Vec<i32>),
    Call { callee: Callee, args: Vec<(Ty, Op)>, ret: Ty, byval: bool },
    Freeze(Op),
    AtomicRmw(Rmw, Ty, Op, Op),
    CmpXchg(Ty, Op, Op, Op),
    Nop,
    Ret(Option<Op>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u32, Op, Vec<(u128, u32)>, u32),
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Instr {
    pub dst: u32, // u32::MAX = none
    pub kind: Kind,
    /// invoke: continue at this block after the call
    pub next: u32,
}

pub const NONE: u32 = u32::MAX;

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub code: Vec<Instr>,
}

#[derive(Debug)]
pub struct Body {
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub ninstr: usize,
}

pub struct Func {
    pub name: String,
    pub pretty: String,
    pub addr: u64,
    /// byte range of the header line and the body in the module text
    pub range: Option<(usize, usize)>,
    pub body: OnceLock<Result<Body, String>>,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub konst: bool,
    pub bytes: OnceLock<Result<Vec<u8>, String>>,
    pub text: (usize, usize),
    pub ty: Ty,
    pub tls: bool,
    pub external: bool,
}

pub struct Module {
    pub text: String,
    pub funcs: Vec<Func>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gl_by_name: HashMap<String, u32>,
    pub named: HashMap<String, Ty>,
    pub aliases: HashMap<String, String>,
    pub fn_base: u64,
}

// ---------------------------------------------------------------- lexer

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Local(String),
    Global(String),
    Word(String),
    Num(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    LabelDef(String),
    Meta(String),
    Attr,
    P(char),
    Dots,
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    i: usize,
}

fn is_name(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> Lex<'a> {
    fn quoted(&mut self) -> Result<Vec<u8>, String> {
        // at opening quote
        self.i += 1;
        let mut out = vec![];
        loop {
            let c = *self.s.get(self.i).ok_or("eof in string")?;
            self.i += 1;
            match c {
                b'"' => return Ok(out),
                b'\\' => {
                    let a = *self.s.get(self.i).ok_or("eof")?;
                    if a == b'\\' { out.push(b'\\'); self.i += 1; continue; }
                    let h = std::str::from_utf8(&self.s[self.i..self.i + 2]).map_err(|e| e.to_string())?;
                    out.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                    self.i += 2;
                }
                c => out.push(c),
            }
        }
    }
    fn word(&mut self) -> String {
        let st = self.i;
        while self.i < self.s.len() && is_name(self.s[self.i]) { self.i += 1; }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn next(&mut self) -> Result<Tok, String> {
        loop {
            let Some(&c) = self.s.get(self.i) else { return Ok(Tok::Eof) };
            match c {
                b' ' | b'\t' | b'\n' | b'\r' => { self.i += 1; }
                b';' => { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; } }
                b'#' => {
                    // attribute group or debug record
                    if self.s[self.i..].starts_with(b"#dbg_") {
                        while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; }
                        continue;
                    }
                    self.i += 1;
                    self.word();
                    return Ok(Tok::Attr);
                }
                b'%' | b'@' => {
                    self.i += 1;
                    let n = if self.s.get(self.i) == Some(&b'"') {
                        String::from_utf8_lossy(&self.quoted()?).into_owned()
                    } else { self.word() };
                    return Ok(if c == b'%' { Tok::Local(n) } else { Tok::Global(n) });
                }
                b'!' => {
                    self.i += 1;
                    let n = self.word();
                    return Ok(Tok::Meta(n));
                }
                b'"' => {
                    let q = self.quoted()?;
                    if self.s.get(self.i) == Some(&b':') {
                        self.i += 1;
                        return Ok(Tok::LabelDef(String::from_utf8_lossy(&q).into_owned()));
                    }
                    return Ok(Tok::Str(q));
                }
                b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                    self.i += 1;
                    return Ok(Tok::CStr(self.quoted()?));
                }
                b'.' if self.s[self.i..].starts_with(b"...") => { self.i += 3; return Ok(Tok::Dots); }
                b'-' | b'+' | b'0'..=b'9' => {
                    let st = self.i;
                    self.i += 1;
                    while self.i < self.s.len() && (is_name(self.s[self.i]) || (self.s[self.i] == b'+' && self.s[self.i-1] == b'e')) { self.i += 1; }
                    let t = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
                    if self.s.get(self.i) == Some(&b':') {
                        self.i += 1;
                        return Ok(Tok::LabelDef(t));
                    }
                    return Ok(Tok::Num(t));
                }
                c if is_name(c) => {
                    let w = self.word();
                    if self.s.get(self.i) == Some(&b':') && self.s.get(self.i + 1) != Some(&b':') {
                        self.i += 1;
                        return Ok(Tok::LabelDef(w));
                    }
                    return Ok(Tok::Word(w));
                }
                c => { self.i += 1; return Ok(Tok::P(c as char)); }
            }
        }
    }
}

struct P<'a> {
    m: &'a Module,
    toks: Vec<Tok>,
    i: usize,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn new(m: &'a Module, text: &[u8]) -> R<P<'a>> {
        let mut lx = Lex { s: text, i: 0 };
        let mut toks = vec![];
        loop {
            let t = lx.next()?;
            if t == Tok::Eof { break; }
            toks.push(t);
        }
        Ok(P { m, toks, i: 0, regs: HashMap::new(), blocks: HashMap::new() })
    }
    fn peek(&self) -> &Tok { self.toks.get(self.i).unwrap_or(&Tok::Eof) }
    fn peek_at(&self, k: usize) -> &Tok { self.toks.get(self.i + k).unwrap_or(&Tok::Eof) }
    fn bump(&mut self) -> Tok {
        let t = self.toks.get(self.i).cloned().unwrap_or(Tok::Eof);
        self.i += 1;
        t
    }
    fn is_p(&self, c: char) -> bool { *self.peek() == Tok::P(c) }
    fn eat(&mut self, c: char) -> bool { if self.is_p(c) { self.i += 1; true } else { false } }
    fn want(&mut self, c: char) -> R<()> {
        if self.eat(c) { Ok(()) } else { Err(format!("expected {:?}, got {:?} near {:?}", c, self.peek(), &self.toks[self.i.saturating_sub(6)..self.i])) }
    }
    fn is_w(&self, w: &str) -> bool { matches!(self.peek(), Tok::Word(x) if x == w) }
    fn eat_w(&mut self, w: &str) -> bool { if self.is_w(w) { self.i += 1; true } else { false } }
    fn word(&mut self) -> R<String> { match self.bump() { Tok::Word(w) => Ok(w), t => Err(format!("expected word, got {:?}", t)) } }
    fn num(&mut self) -> R<String> { match self.bump() { Tok::Num(w) => Ok(w), t => Err(format!("expected number, got {:?}", t)) } }
    fn unum(&mut self) -> R<u64> { self.num()?.parse().map_err(|e| format!("bad int {}", e)) }
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn block(&mut self, n: String) -> u32 {
        let k = self.blocks.len() as u32;
        *self.blocks.entry(n).or_insert(k)
    }
    fn skip_parens(&mut self) -> R<()> {
        self.want('(')?;
        let mut d = 1;
        while d > 0 {
            match self.bump() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                Tok::Eof => return Err("eof in parens".into()),
                _ => {}
            }
        }
        Ok(())
    }

    fn is_type_start(&self) -> bool {
        match self.peek() {
            Tok::Word(w) => {
                (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()))
                    || matches!(w.as_str(), "void" | "ptr" | "half" | "bfloat" | "float" | "double" | "fp128" | "x86_fp80" | "label" | "metadata" | "token" | "opaque" | "target")
            }
            Tok::P('{') | Tok::P('[') | Tok::P('<') => true,
            Tok::Local(n) => self.m.named.contains_key(n),
            _ => false,
        }
    }

    fn ty(&mut self) -> R<Ty> {
        let mut t = match self.bump() {
            Tok::Word(w) => {
                match w.as_str() {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.eat_w("addrspace") { self.skip_parens()?; }
                        Ty::Ptr
                    }
                    "half" | "bfloat" => Ty::Float(16),
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "fp128" => Ty::Float(128),
                    "x86_fp80" => Ty::Float(80),
                    "label" => Ty::Label,
                    "metadata" => Ty::Meta,
                    "token" | "opaque" => Ty::Opaque,
                    "target" => { self.skip_parens()?; Ty::Opaque }
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("bad type {}", w))?),
                    _ => return Err(format!("bad type {}", w)),
                }
            }
            Tok::P('[') => {
                let n = self.unum()?;
                if self.word()? != "x" { return Err("array".into()); }
                let t = self.ty()?;
                self.want(']')?;
                Ty::Array(n, Arc::new(t))
            }
            Tok::P('{') => self.struct_ty(false)?,
            Tok::P('<') => {
                if self.eat('{') {
                    let s = self.struct_ty(true)?;
                    self.want('>')?;
                    s
                } else {
                    if self.is_w("vscale") { return Err("vscale".into()); }
                    let n = self.unum()?;
                    if self.word()? != "x" { return Err("vector".into()); }
                    let t = self.ty()?;
                    self.want('>')?;
                    Ty::Vector(n as u32, Arc::new(t))
                }
            }
            Tok::Local(n) => self.m.named.get(&n).cloned().ok_or(format!("unknown type %{}", n))?,
            t => return Err(format!("bad type token {:?}", t)),
        };
        // function type suffix
        while self.is_p('(') {
            self.skip_parens()?;
            t = Ty::Func;
        }
        Ok(t)
    }
    fn struct_ty(&mut self, packed: bool) -> R<Ty> {
        let mut f = vec![];
        if !self.eat('}') {
            loop {
                f.push(self.ty()?);
                if self.eat('}') { break; }
                self.want(',')?;
            }
        }
        Ok(Ty::Struct(f.into(), packed))
    }

    fn zero(&self, t: &Ty) -> Cst {
        match t {
            Ty::Struct(f, _) => Cst::Agg(f.iter().map(|x| self.zero(x)).collect()),
            Ty::Array(n, e) => {
                let z = self.zero(e);
                Cst::Agg((0..*n).map(|_| z.clone()).collect())
            }
            Ty::Vector(n, e) => {
                let z = self.zero(e);
                Cst::Agg((0..*n).map(|_| z.clone()).collect())
            }
            _ => Cst::Int(0),
        }
    }

    fn cst(&mut self, t: &Ty) -> R<Cst> {
        match self.value(t)? {
            Op::C(c) => Ok(c),
            Op::Reg(_) => Err("register in constant".into()),
        }
    }

    fn global_addr(&self, n: &str) -> R<u64> {
        if let Some(&f) = self.m.fn_by_name.get(n) { return Ok(self.m.funcs[f as usize].addr); }
        if let Some(&g) = self.m.gl_by_name.get(n) { return Ok(self.m.globals[g as usize].addr); }
        if let Some(a) = self.m.aliases.get(n) { return self.global_addr(a); }
        Err(format!("unknown global @{}", n))
    }

    fn float_bits(&self, s: &str, w: u32) -> R<u128> {
        let neg = s.starts_with('-');
        let body = s.trim_start_matches(['+', '-']);
        if let Some(h) = body.strip_prefix("0x") {
            if h.starts_with('K') || h.starts_with('L') || h.starts_with('M') || h.starts_with('H') || h.starts_with('R') {
                return u128::from_str_radix(&h[1..], 16).map_err(|e| e.to_string());
            }
            let v = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
            return Ok(if w == 32 { (f64::from_bits(v) as f32).to_bits() as u128 } else { v as u128 });
        }
        if let Some(h) = body.strip_prefix("f0x") {
            return u128::from_str_radix(h, 16).map_err(|e| e.to_string());
        }
        let v: f64 = if body == "inf" { f64::INFINITY } else if body == "qnan" { f64::NAN } else { body.parse().map_err(|_| format!("bad float {}", s))? };
        let v = if neg { -v } else { v };
        Ok(match w { 32 => (v as f32).to_bits() as u128, 64 => v.to_bits() as u128, _ => return Err("float width".into()) })
    }

    /// value of a known type
    fn value(&mut self, t: &Ty) -> R<Op> {
        let tok = self.bump();
        let c = match tok {
            Tok::Local(n) => return Ok(Op::Reg(self.reg(n))),
            Tok::Global(n) => Cst::Int(self.global_addr(&n)? as u128),
            Tok::Num(s) => match t {
                Ty::Int(w) => {
                    let m = crate::term::mask(*w);
                    let v = if let Some(r) = s.strip_prefix('-') {
                        (r.parse::<u128>().map_err(|e| format!("{} {}", s, e))?).wrapping_neg()
                    } else if let Some(r) = s.strip_prefix("u0x").or(s.strip_prefix("s0x")) {
                        u128::from_str_radix(r, 16).map_err(|e| e.to_string())?
                    } else {
                        s.parse::<u128>().map_err(|e| format!("{} {}", s, e))?
                    };
                    Cst::Int(v & m)
                }
                Ty::Float(w) => Cst::Int(self.float_bits(&s, *w)?),
                _ => return Err(format!("number {} for type {:?}", s, t)),
            },
            Tok::CStr(b) => Cst::Agg(b.into_iter().map(|x| Cst::Int(x as u128)).collect()),
            Tok::P('{') => self.agg(t, '}')?,
            Tok::P('[') => self.agg(t, ']')?,
            Tok::P('<') => {
                if self.eat('{') {
                    let a = self.agg(t, '}')?;
                    self.want('>')?;
                    a
                } else { self.agg(t, '>')? }
            }
            Tok::Meta(_) => {
                // metadata operand
                if self.is_p('{') || self.is_p('(') {
                    let mut d = 0;
                    loop {
                        match self.bump() {
                            Tok::P('{') | Tok::P('(') => d += 1,
                            Tok::P('}') | Tok::P(')') => { d -= 1; if d == 0 { break; } }
                            Tok::Eof => return Err("eof".into()),
                            _ => {}
                        }
                    }
                }
                Cst::Undef
            }
            Tok::Word(w) => match w.as_str() {
                "true" => Cst::Int(1),
                "false" | "null" | "none" => Cst::Int(0),
                "undef" | "poison" => Cst::Undef,
                "zeroinitializer" => self.zero(t),
                "splat" => {
                    self.want('(')?;
                    let et = self.ty()?;
                    let v = self.cst(&et)?;
                    self.want(')')?;
                    Cst::Agg((0..t.n_elems()).map(|_| v.clone()).collect())
                }
                "dso_local_equivalent" | "no_cfi" => return self.value(t),
                "inf" | "nan" | "qnan" | "snan" => return Err("float keyword".into()),
                _ if w.starts_with("f0x") => Cst::Int(self.float_bits(&w, 0)?),
                "u0x" | "s0x" => return Err("hex".into()),
                _ if w.starts_with("u0x") || w.starts_with("s0x") =>
                    Cst::Int(u128::from_str_radix(&w[3..], 16).map_err(|e| e.to_string())?),
                _ => self.constexpr(&w)?,
            },
            t => return Err(format!("bad value token {:?}", t)),
        };
        Ok(Op::C(c))
    }
    fn agg(&mut self, _t: &Ty, close: char) -> R<Cst> {
        let mut v = vec![];
        if self.eat(close) { return Ok(Cst::Agg(v.into())); }
        loop {
            let et = self.ty()?;
            v.push(self.cst(&et)?);
            if self.eat(close) { break; }
            self.want(',')?;
        }
        Ok(Cst::Agg(v.into()))
    }

    fn constexpr(&mut self, w: &str) -> R<Cst> {
        fn int(c: &Cst) -> R<u128> { match c { Cst::Int(v) => Ok(*v), Cst::Undef => Ok(0), _ => Err("agg in constexpr".into()) } }
        match w {
            "getelementptr" => {
                while let Tok::Word(x) = self.peek() {
                    let x = x.clone();
                    self.i += 1;
                    if x == "inrange" { self.skip_parens()?; }
                }
                self.want('(')?;
                let bt = self.ty()?;
                self.want(',')?;
                let pt = self.ty()?;
                let b = int(&self.cst(&pt)?)?;
                let mut off = 0i128;
                let mut cur = bt.clone();
                let mut first = true;
                while self.eat(',') {
                    self.eat_w("inrange");
                    let it = self.ty()?;
                    let v = int(&self.cst(&it)?)?;
                    let sv = crate::term::sext_u128(v, it.bits());
                    if first {
                        off += sv * bt.size() as i128;
                        first = false;
                    } else {
                        off += match &cur {
                            Ty::Struct(..) => cur.field_off(v as usize) as i128,
                            _ => sv * cur.elem(0).ok_or("gep")?.size() as i128,
                        };
                        cur = cur.elem(v as usize).ok_or("gep elem")?;
                    }
                }
                self.want(')')?;
                Ok(Cst::Int(((b as i128).wrapping_add(off)) as u64 as u128))
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "trunc" | "zext" | "sext" | "ptrtoaddr" => {
                self.want('(')?;
                let ft = self.ty()?;
                let v = self.cst(&ft)?;
                if !self.eat_w("to") { return Err("constexpr cast".into()); }
                let tt = self.ty()?;
                self.want(')')?;
                if let Cst::Agg(_) = v { return Ok(v); }
                let v = int(&v)?;
                let v = if w == "sext" { crate::term::sext_u128(v, ft.bits()) as u128 } else { v };
                Ok(Cst::Int(v & crate::term::mask(tt.bits())))
            }
            "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" => {
                while let Tok::Word(_) = self.peek() { self.i += 1; }
                self.want('(')?;
                let t = self.ty()?;
                let a = int(&self.cst(&t)?)?;
                self.want(',')?;
                let t2 = self.ty()?;
                let b = int(&self.cst(&t2)?)?;
                self.want(')')?;
                let v = match w {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "mul" => a.wrapping_mul(b),
                    "xor" => a ^ b,
                    "and" => a & b,
                    "or" => a | b,
                    _ => if b >= 128 { 0 } else { a << b },
                };
                Ok(Cst::Int(v & crate::term::mask(t.bits())))
            }
            _ => Err(format!("constexpr {}", w)),
        }
    }

    /// Skip parameter / return attributes; returns true when byval was seen.
    fn attrs(&mut self) -> R<bool> {
        let mut byval = false;
        loop {
            match self.peek().clone() {
                Tok::Word(w) => {
                    // constants start with these words: stop
                    if matches!(w.as_str(), "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat"
                        | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "trunc" | "zext" | "sext"
                        | "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "asm" | "dso_local_equivalent" | "no_cfi" | "ptrtoaddr" | "blockaddress")
                        || w.starts_with("f0x") || w.starts_with("u0x") || w.starts_with("s0x") {
                        // "zeroext"/"signext" are different words, so no clash
                        return Ok(byval);
                    }
                    if self.is_type_start() { return Ok(byval); }
                    self.i += 1;
                    if w == "byval" || w == "inalloca" || w == "preallocated" { byval = true; }
                    if w == "align" && matches!(self.peek(), Tok::Num(_)) { self.i += 1; }
                    else if self.is_p('(') { self.skip_parens()?; }
                }
                Tok::Str(_) => {
                    self.i += 1;
                    if self.eat('=') { self.i += 1; }
                }
                Tok::Attr => { self.i += 1; }
                _ => return Ok(byval),
            }
        }
    }

    fn typed(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        self.attrs()?;
        let v = self.value(&t)?;
        Ok((t, v))
    }

    /// trailing `, align 8, !dbg !3 #4` etc.
    fn trailing(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Tok::Attr => { self.i += 1; }
                Tok::P(',') => {
                    match self.peek_at(1).clone() {
                        Tok::Meta(_) => {
                            self.i += 2;
                            // metadata value
                            match self.peek() {
                                Tok::Meta(n) => {
                                    let simple = !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit());
                                    let _ = simple;
                                    self.i += 1;
                                    if self.is_p('{') || self.is_p('(') {
                                        let mut d = 0;
                                        loop {
                                            match self.bump() {
                                                Tok::P('{') | Tok::P('(') => d += 1,
                                                Tok::P('}') | Tok::P(')') => { d -= 1; if d == 0 { break; } }
                                                Tok::Eof => return Err("eof".into()),
                                                _ => {}
                                            }
                                        }
                                    }
                                }
                                _ => return Err("metadata attachment".into()),
                            }
                        }
                        Tok::Word(w) if w == "align" => { self.i += 3; }
                        Tok::Word(w) if w == "addrspace" => { self.i += 2; self.skip_parens()?; }
                        _ => return Ok(()),
                    }
                }
                _ => return Ok(()),
            }
        }
    }

    fn flags(&mut self) {
        while let Tok::Word(w) = self.peek() {
            if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "samesign"
                | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "inrange") {
                let inr = w == "inrange";
                self.i += 1;
                if inr && self.is_p('(') { let _ = self.skip_parens(); }
            } else { break; }
        }
    }

    fn call(&mut self, invoke: bool) -> R<(Callee, Vec<(Ty, Op)>, Ty, bool)> {
        let _ = invoke;
        self.flags();
        // calling convention and return attributes: words until a type starts
        self.attrs()?;
        let mut ret = self.ty()?;
        // `ret` may be a function type (varargs): the true return type is then lost,
        // so recover it from the first token.
        if ret == Ty::Func {
            // find the return type again
            // (ty() consumed "T (params)" ; T is what precedes the paren)
            let save = self.i;
            // walk back to matching paren
            let mut j = save - 1;
            let mut d = 0;
            loop {
                match &self.toks[j] {
                    Tok::P(')') => d += 1,
                    Tok::P('(') => { d -= 1; if d == 0 { break; } }
                    _ => {}
                }
                j -= 1;
            }
            ret = match &self.toks[j - 1] {
                Tok::Word(w) if w == "void" => Ty::Void,
                Tok::Word(w) if w == "ptr" => Ty::Ptr,
                Tok::Word(w) if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| "vararg ret")?),
                _ => return Err("vararg return type".into()),
            };
        }
        let callee = match self.bump() {
            Tok::Global(n) => {
                let mut n = n;
                while let Some(a) = self.m.aliases.get(&n) { n = a.clone(); }
                match self.m.fn_by_name.get(&n) {
                    Some(&f) => Callee::Fn(f),
                    None => Callee::Ptr(Op::C(Cst::Int(self.global_addr(&n)? as u128))),
                }
            }
            Tok::Local(n) => Callee::Ptr(Op::Reg(self.reg(n))),
            Tok::Word(w) if w == "asm" => {
                let mut empty = false;
                let mut seen = 0;
                loop {
                    match self.peek().clone() {
                        Tok::Word(_) => { self.i += 1; }
                        Tok::Str(s) => { if seen == 0 { empty = s.is_empty(); } seen += 1; self.i += 1; }
                        Tok::P(',') => { self.i += 1; }
                        Tok::P('(') => break,
                        t => return Err(format!("asm {:?}", t)),
                    }
                }
                if !empty { return Err("non-empty inline asm".into()); }
                Callee::Asm
            }
            Tok::Word(w) if w == "inttoptr" || w == "getelementptr" => Callee::Ptr(Op::C(self.constexpr(&w)?)),
            t => return Err(format!("callee {:?}", t)),
        };
        self.want('(')?;
        let mut args = vec![];
        let mut byval = false;
        if !self.eat(')') {
            loop {
                let t = self.ty()?;
                if t == Ty::Meta {
                    // metadata argument: may be a wrapped value
                    let mut d = 0;
                    loop {
                        match self.peek() {
                            Tok::P('(') | Tok::P('{') | Tok::P('[') => { d += 1; self.i += 1; }
                            Tok::P(')') | Tok::P('}') | Tok::P(']') => {
                                if d == 0 { break; }
                                d -= 1;
                                self.i += 1;
                            }
                            Tok::P(',') if d == 0 => break,
                            Tok::Eof => return Err("eof".into()),
                            _ => { self.i += 1; }
                        }
                    }
                } else {
                    byval |= self.attrs()?;
                    let v = self.value(&t)?;
                    args.push((t, v));
                }
                if self.eat(')') { break; }
                self.want(',')?;
            }
        }
        // fn attributes and operand bundles
        loop {
            match self.peek().clone() {
                Tok::Attr => { self.i += 1; }
                Tok::Word(w) if w != "to" && !self.starts_instr(&w) => {
                    self.i += 1;
                    if self.is_p('(') { self.skip_parens()?; }
                }
                Tok::P('[') => {
                    let mut d = 0;
                    loop {
                        match self.bump() {
                            Tok::P('[') => d += 1,
                            Tok::P(']') => { d -= 1; if d == 0 { break; } }
                            Tok::Eof => return Err("eof".into()),
                            _ => {}
                        }
                    }
                }
                _ => break,
            }
        }
        Ok((callee, args, ret, byval))
    }

    fn starts_instr(&self, w: &str) -> bool {
        matches!(w, "ret" | "br" | "switch" | "unreachable" | "store" | "call" | "tail" | "musttail" | "notail" | "fence" | "resume" | "invoke" | "indirectbr" | "cleanupret" | "catchret" | "callbr" | "va_arg")
    }

    fn label(&mut self) -> R<u32> {
        if self.word()? != "label" { return Err("label expected".into()); }
        match self.bump() { Tok::Local(n) => Ok(self.block(n)), t => Err(format!("label {:?}", t)) }
    }

    fn ordering(&mut self) -> R<()> {
        if self.eat_w("syncscope") { self.skip_parens()?; }
        while let Tok::Word(w) = self.peek() {
            if matches!(w.as_str(), "monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst" | "unordered") { self.i += 1; } else { break; }
        }
        Ok(())
    }

    /// Parses one instruction.
    fn instr(&mut self, phis: &mut Vec<(u32, Vec<(u32, Op)>)>) -> R<Option<Instr>> {
        let mut dst = NONE;
        if let Tok::Local(n) = self.peek().clone() {
            if *self.peek_at(1) == Tok::P('=') {
                self.i += 2;
                dst = self.reg(n);
            }
        }
        let mut op = self.word()?;
        while matches!(op.as_str(), "tail" | "musttail" | "notail") { op = self.word()?; }
        let mut next = NONE;
        let kind = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                self.flags();
                let t = self.ty()?;
                let a = self.value(&t)?;
                self.want(',')?;
                let b = self.value(&t)?;
                let k = match op.as_str() {
                    "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem, "srem" => Bin::SRem, "shl" => Bin::Shl, "lshr" => Bin::LShr, "ashr" => Bin::AShr,
                    "and" => Bin::And, "or" => Bin::Or, _ => Bin::Xor,
                };
                Kind::Bin(k, t, a, b)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags();
                let t = self.ty()?;
                let a = self.value(&t)?;
                self.want(',')?;
                let b = self.value(&t)?;
                let k = match op.as_str() { "fadd" => FBin::Add, "fsub" => FBin::Sub, "fmul" => FBin::Mul, "fdiv" => FBin::Div, _ => FBin::Rem };
                Kind::FBin(k, t, a, b)
            }
            "fneg" => { self.flags(); let t = self.ty()?; let a = self.value(&t)?; Kind::FNeg(t, a) }
            "icmp" => {
                self.flags();
                let p = match self.word()?.as_str() {
                    "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle,
                    x => return Err(format!("icmp {}", x)),
                };
                let t = self.ty()?;
                let a = self.value(&t)?;
                self.want(',')?;
                let b = self.value(&t)?;
                Kind::ICmp(p, t, a, b)
            }
            "fcmp" => {
                self.flags();
                // bit0 = eq, bit1 = gt, bit2 = lt, bit3 = unordered
                let p = match self.word()?.as_str() {
                    "false" => 0, "oeq" => 1, "ogt" => 2, "oge" => 3, "olt" => 4, "ole" => 5, "one" => 6, "ord" => 7,
                    "uno" => 8, "ueq" => 9, "ugt" => 10, "uge" => 11, "ult" => 12, "ule" => 13, "une" => 14, "true" => 15,
                    x => return Err(format!("fcmp {}", x)),
                };
                let t = self.ty()?;
                let a = self.value(&t)?;
                self.want(',')?;
                let b = self.value(&t)?;
                Kind::FCmp(p, t, a, b)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoaddr" => {
                self.flags();
                let ft = self.ty()?;
                let v = self.value(&ft)?;
                if !self.eat_w("to") { return Err("cast".into()); }
                let tt = self.ty()?;
                let k = match op.as_str() {
                    "trunc" => CastK::Trunc, "zext" => CastK::Zext, "sext" => CastK::Sext,
                    "fptrunc" => CastK::FpTrunc, "fpext" => CastK::FpExt, "fptoui" => CastK::FpToUi, "fptosi" => CastK::FpToSi,
                    "uitofp" => CastK::UiToFp, "sitofp" => CastK::SiToFp,
                    _ => CastK::Bits,
                };
                Kind::Cast(k, ft, tt, v)
            }
            "select" => {
                self.flags();
                let (ct, c) = self.typed()?;
                self.want(',')?;
                let (t, a) = self.typed()?;
                self.want(',')?;
                let (_, b) = self.typed()?;
                Kind::Select(t, ct.lanes() > 0, c, a, b)
            }
            "load" => {
                self.eat_w("atomic");
                self.flags();
                let t = self.ty()?;
                self.want(',')?;
                let (_, p) = self.typed()?;
                self.ordering()?;
                Kind::Load(t, p)
            }
            "store" => {
                self.eat_w("atomic");
                self.flags();
                let (t, v) = self.typed()?;
                self.want(',')?;
                let (_, p) = self.typed()?;
                self.ordering()?;
                Kind::Store(t, v, p)
            }
            "getelementptr" => {
                self.flags();
                let bt = self.ty()?;
                self.want(',')?;
                let (pt, p) = self.typed()?;
                if pt.lanes() > 0 { return Err("vector gep".into()); }
                let mut off: u64 = 0;
                let mut idx = vec![];
                let mut cur = bt.clone();
                let mut first = true;
                while self.is_p(',') && !matches!(self.peek_at(1), Tok::Meta(_)) {
                    self.i += 1;
                    let (it, v) = self.typed()?;
                    if it.lanes() > 0 { return Err("vector gep".into()); }
                    if first {
                        first = false;
                        let sc = bt.size();
                        match v {
                            Op::C(Cst::Int(k)) => off = off.wrapping_add((crate::term::sext_u128(k, it.bits()) as u64).wrapping_mul(sc)),
                            v => idx.push((v, it.bits(), sc)),
                        }
                        continue;
                    }
                    match &cur {
                        Ty::Struct(..) => {
                            let Op::C(Cst::Int(k)) = v else { return Err("struct gep index".into()) };
                            off = off.wrapping_add(cur.field_off(k as usize));
                            cur = cur.elem(k as usize).ok_or("gep")?;
                        }
                        _ => {
                            let e = cur.elem(0).ok_or("gep into scalar")?;
                            let sc = e.size();
                            match v {
                                Op::C(Cst::Int(k)) => off = off.wrapping_add((crate::term::sext_u128(k, it.bits()) as u64).wrapping_mul(sc)),
                                v => idx.push((v, it.bits(), sc)),
                            }
                            cur = e;
                        }
                    }
                }
                Kind::Gep(p, idx, off)
            }
            "alloca" => {
                self.eat_w("inalloca");
                let t = self.ty()?;
                let mut n = Op::C(Cst::Int(1));
                let mut al = t.align();
                while self.is_p(',') {
                    match self.peek_at(1).clone() {
                        Tok::Word(w) if w == "align" => {
                            self.i += 2;
                            al = self.unum()?;
                        }
                        Tok::Word(w) if w == "addrspace" => { self.i += 2; self.skip_parens()?; }
                        Tok::Meta(_) => break,
                        _ => {
                            self.i += 1;
                            n = self.typed()?.1;
                        }
                    }
                }
                Kind::Alloca(t.size(), al, n)
            }
            "extractvalue" => {
                let (_, a) = self.typed()?;
                let mut path = vec![];
                while self.is_p(',') && matches!(self.peek_at(1), Tok::Num(_)) { self.i += 1; path.push(self.unum()? as u32); }
                Kind::ExtractValue(a, path)
            }
            "insertvalue" => {
                let (t, a) = self.typed()?;
                self.want(',')?;
                let (_, v) = self.typed()?;
                let mut path = vec![];
                while self.is_p(',') && matches!(self.peek_at(1), Tok::Num(_)) { self.i += 1; path.push(self.unum()? as u32); }
                Kind::InsertValue(t, a, v, path)
            }
            "extractelement" => {
                let (t, a) = self.typed()?;
                self.want(',')?;
                let (_, i) = self.typed()?;
                Kind::ExtractElement(t, a, i)
            }
            "insertelement" => {
                let (t, a) = self.typed()?;
                self.want(',')?;
                let (_, v) = self.typed()?;
                self.want(',')?;
                let (_, i) = self.typed()?;
                Kind::InsertElement(t, a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.typed()?;
                self.want(',')?;
                let (_, b) = self.typed()?;
                self.want(',')?;
                let mt = self.ty()?;
                let mask = match self.cst(&mt)? {
                    Cst::Agg(v) => v.iter().map(|c| match c { Cst::Int(k) => *k as u32 as i32, _ => -1 }).collect(),
                    Cst::Undef => vec![-1; mt.n_elems()],
                    _ => return Err("shuffle mask".into()),
                };
                Kind::Shuffle(t, a, b, mask)
            }
            "freeze" => { let (_, a) = self.typed()?; Kind::Freeze(a) }
            "call" => {
                let (callee, args, ret, byval) = self.call(false)?;
                Kind::Call { callee, args, ret, byval }
            }
            "invoke" => {
                let (callee, args, ret, byval) = self.call(true)?;
                if !self.eat_w("to") { return Err(format!("invoke to, got {:?}", self.peek())); }
                next = self.label()?;
                if !self.eat_w("unwind") { return Err("invoke unwind".into()); }
                self.label()?;
                Kind::Call { callee, args, ret, byval }
            }
            "phi" => {
                self.flags();
                let t = self.ty()?;
                let mut inc = vec![];
                loop {
                    self.want('[')?;
                    let v = self.value(&t)?;
                    self.want(',')?;
                    let b = match self.bump() { Tok::Local(n) => self.block(n), t => return Err(format!("phi {:?}", t)) };
                    self.want(']')?;
                    inc.push((b, v));
                    if self.is_p(',') && *self.peek_at(1) == Tok::P('[') { self.i += 1; } else { break; }
                }
                self.trailing()?;
                phis.push((dst, inc));
                return Ok(None);
            }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void { Kind::Ret(None) } else { Kind::Ret(Some(self.value(&t)?)) }
            }
            "br" => {
                if self.is_w("label") { Kind::Br(self.label()?) } else {
                    let (_, c) = self.typed()?;
                    self.want(',')?;
                    let a = self.label()?;
                    self.want(',')?;
                    let b = self.label()?;
                    Kind::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.typed()?;
                self.want(',')?;
                let d = self.label()?;
                self.want('[')?;
                let mut cases = vec![];
                while !self.eat(']') {
                    let (_, c) = self.typed()?;
                    self.want(',')?;
                    let l = self.label()?;
                    match c { Op::C(Cst::Int(k)) => cases.push((k, l)), _ => return Err("switch case".into()) }
                }
                Kind::Switch(t.bits(), v, cases, d)
            }
            "unreachable" => Kind::Unreachable,
            "fence" => { self.ordering()?; Kind::Nop }
            "atomicrmw" => {
                self.flags();
                let k = match self.word()?.as_str() {
                    "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "nand" => Rmw::Nand, "or" => Rmw::Or,
                    "xor" => Rmw::Xor, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin,
                    x => return Err(format!("atomicrmw {}", x)),
                };
                let (_, p) = self.typed()?;
                self.want(',')?;
                let (t, v) = self.typed()?;
                self.ordering()?;
                Kind::AtomicRmw(k, t, p, v)
            }
            "cmpxchg" => {
                self.eat_w("weak");
                self.flags();
                let (_, p) = self.typed()?;
                self.want(',')?;
                let (t, a) = self.typed()?;
                self.want(',')?;
                let (_, b) = self.typed()?;
                self.ordering()?;
                self.ordering()?;
                Kind::CmpXchg(t, p, a, b)
            }
            "landingpad" => {
                self.ty()?;
                loop {
                    if self.eat_w("cleanup") { continue; }
                    if self.eat_w("catch") || self.eat_w("filter") { self.typed()?; continue; }
                    break;
                }
                Kind::Unsupported("landingpad".into())
            }
            "resume" => { self.typed()?; Kind::Unsupported("resume".into()) }
            _ => return Err(format!("instruction {}", op)),
        };
        self.trailing()?;
        Ok(Some(Instr { dst, kind, next }))
    }
}

/// Position of the end (exclusive) of the line starting at `i`.
fn line_end(s: &[u8], i: usize) -> usize {
    let mut j = i;
    while j < s.len() && s[j] != b'\n' { j += 1; }
    j
}

impl Module {
    pub fn parse(text: String) -> Result<Module, String> {
        let mut m = Module {
            text,
            funcs: vec![],
            fn_by_name: HashMap::new(),
            globals: vec![],
            gl_by_name: HashMap::new(),
            named: HashMap::new(),
            aliases: HashMap::new(),
            fn_base: 0x1000_0000,
        };
        let text = std::mem::take(&mut m.text);
        let s = text.as_bytes();
        let mut i = 0;
        let mut raw_globals: Vec<(String, usize, usize)> = vec![];
        let mut raw_named: Vec<(usize, usize)> = vec![];
        while i < s.len() {
            let e = line_end(s, i);
            let line = &s[i..e];
            if line.starts_with(b"define ") || line.starts_with(b"declare ") {
                let is_def = line.starts_with(b"define ");
                let at = line.iter().position(|&c| c == b'@').ok_or("define without name")?;
                let mut lx = Lex { s: line, i: at };
                let Tok::Global(name) = lx.next()? else { return Err("define name".into()) };
                let (range, nexti) = if is_def {
                    let mut j = e + 1;
                    loop {
                        if j >= s.len() { return Err(format!("unterminated function {}", name)); }
                        let je = line_end(s, j);
                        if &s[j..je] == b"}" { break; }
                        j = je + 1;
                    }
                    (Some((i, j)), j + 2)
                } else { (None, e + 1) };
                let id = m.funcs.len() as u32;
                let pretty = format!("{:#}", rustc_demangle::demangle(&name));
                m.fn_by_name.insert(name.clone(), id);
                m.funcs.push(Func { name, pretty, addr: m.fn_base + 16 * id as u64, range, body: OnceLock::new() });
                i = nexti;
                continue;
            }
            if line.starts_with(b"@") {
                let mut lx = Lex { s: line, i: 0 };
                let Tok::Global(name) = lx.next()? else { return Err("global".into()) };
                raw_globals.push((name, i + lx.i, e));
            } else if line.starts_with(b"%") {
                raw_named.push((i, e));
            }
            i = e + 1;
        }
        // named types (simple, in order; forward references unsupported)
        for (a, b) in raw_named {
            let mut lx = Lex { s: &s[a..b], i: 0 };
            let Tok::Local(n) = lx.next()? else { continue };
            let off = a + lx.i;
            let rest = &text[off..b];
            let Some(k) = rest.find("type ") else { continue };
            let t = { let mut p = P::new(&m, &s[off + k + 5..b])?; p.ty() };
            if let Ok(t) = t { m.named.insert(n, t); }
        }
        // globals: linkage words ... (global|constant) TYPE init
        let mut addr = 0x2000_0000u64;
        for (name, a, b) in raw_globals {
            let mut p = P::new(&m, &s[a..b])?;
            p.want('=')?;
            let mut konst = false;
            let mut tls = false;
            let mut external = false;
            let mut alias = false;
            loop {
                match p.bump() {
                    Tok::Word(w) => match w.as_str() {
                        "global" => break,
                        "constant" => { konst = true; break; }
                        "alias" | "ifunc" => { alias = true; break; }
                        "thread_local" => { tls = true; if p.is_p('(') { p.skip_parens()?; } }
                        "external" | "extern_weak" => external = true,
                        "addrspace" => p.skip_parens()?,
                        _ => {}
                    },
                    Tok::Eof => return Err(format!("global {}", name)),
                    _ => {}
                }
            }
            let ty = match p.ty() { Ok(t) => t, Err(e) => return Err(format!("global {}: {}", name, e)) };
            if alias {
                // alias TYPE, ptr @target
                let mut tgt = None;
                while let t = p.bump() { match t { Tok::Global(g) => { tgt = Some(g); break; } Tok::Eof => break, _ => {} } }
                if let Some(t) = tgt { m.aliases.insert(name, t); }
                continue;
            }
            let size = ty.size();
            let al = {
                // `, align N`
                let txt = &text[a..b];
                txt.rfind(", align ").and_then(|k| txt[k + 8..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse::<u64>().ok()).unwrap_or(16).max(1)
            };
            addr = align_up(addr + 32, al.max(16));
            let id = m.globals.len() as u32;
            m.gl_by_name.insert(name.clone(), id);
            m.globals.push(Global { name, addr, size, konst, bytes: OnceLock::new(), text: (a, b), ty, tls, external });
            addr += size;
        }
        m.text = text;
        Ok(m)
    }

    pub fn global_bytes(&self, id: u32) -> Result<&Vec<u8>, String> {
        let g = &self.globals[id as usize];
        let r = g.bytes.get_or_init(|| {
            if g.external { return Err(format!("external global {}", g.name)); }
            let mut p = P::new(self, &self.text.as_bytes()[g.text.0..g.text.1])?;
            loop {
                match p.bump() {
                    Tok::Word(w) if w == "global" || w == "constant" => break,
                    Tok::Eof => return Err("global".into()),
                    _ => {}
                }
            }
            let ty = p.ty()?;
            let c = p.cst(&ty)?;
            let mut out = vec![0u8; ty.size() as usize];
            write_cst(&c, &ty, &mut out, 0)?;
            Ok(out)
        });
        r.as_ref().map_err(|e| e.clone())
    }

    /// global containing an address
    pub fn global_at(&self, addr: u64) -> Option<u32> {
        let k = self.globals.partition_point(|g| g.addr <= addr);
        if k == 0 { return None; }
        Some(k as u32 - 1)
    }

    pub fn func_at(&self, addr: u64) -> Option<u32> {
        if addr < self.fn_base { return None; }
        let d = addr - self.fn_base;
        if d % 16 != 0 || d / 16 >= self.funcs.len() as u64 { return None; }
        Some((d / 16) as u32)
    }

    pub fn body(&self, id: u32) -> Result<&Body, String> {
        let f = &self.funcs[id as usize];
        let r = f.body.get_or_init(|| {
            let Some((a, b)) = f.range else { return Err(format!("no body for {}", f.pretty)) };
            self.parse_body(&self.text.as_bytes()[a..b]).map_err(|e| format!("{}: {}", f.pretty, e))
        });
        r.as_ref().map_err(|e| e.clone())
    }

    fn parse_body(&self, text: &[u8]) -> R<Body> {
        let mut p = P::new(self, text)?;
        // header: skip to the function name
        loop { match p.bump() { Tok::Global(_) => break, Tok::Eof => return Err("header".into()), _ => {} } }
        p.want('(')?;
        let mut params = vec![];
        let mut anon = 0u32;
        if !p.eat(')') {
            loop {
                if *p.peek() == Tok::Dots { return Err("vararg definition".into()); }
                p.ty()?;
                if p.attrs()? { return Err("byval parameter".into()); }
                let n = match p.peek().clone() {
                    Tok::Local(n) => { p.i += 1; n }
                    _ => { let n = anon.to_string(); n }
                };
                if n.bytes().all(|b| b.is_ascii_digit()) { anon += 1; }
                params.push(p.reg(n));
                if p.eat(')') { break; }
                p.want(',')?;
            }
        }
        // skip to the opening brace of the body (attributes may contain metadata)
        loop { match p.bump() { Tok::P('{') => break, Tok::Eof => return Err("no body".into()), _ => {} } }
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut cur_name: Option<String> = None;
        let mut ninstr = 0;
        loop {
            // block header
            if let Tok::LabelDef(n) = p.peek().clone() { p.i += 1; cur_name = Some(n); }
            else if *p.peek() == Tok::Eof { break; }
            else if cur_name.is_none() {
                // entry block without a label gets the next anonymous number
                cur_name = Some(anon.to_string());
            }
            let id = p.block(cur_name.clone().unwrap());
            let mut blk = Block::default();
            loop {
                let start = p.i;
                let r = p.instr(&mut blk.phis);
                ninstr += 1;
                match r {
                    Ok(None) => {}
                    Ok(Some(ins)) => {
                        let term = matches!(ins.kind, Kind::Ret(_) | Kind::Br(_) | Kind::CondBr(..) | Kind::Switch(..) | Kind::Unreachable)
                            || ins.next != NONE
                            || matches!(&ins.kind, Kind::Unsupported(s) if s == "resume");
                        blk.code.push(ins);
                        if term { break; }
                    }
                    Err(e) => {
                        // give up on the rest of this block; find the next label
                        blk.code.push(Instr { dst: NONE, kind: Kind::Unsupported(e), next: NONE });
                        p.i = start;
                        while !matches!(p.peek(), Tok::LabelDef(_) | Tok::Eof) { p.i += 1; }
                        break;
                    }
                }
                if matches!(p.peek(), Tok::LabelDef(_) | Tok::Eof) { break; }
            }
            while blocks.len() <= id as usize { blocks.push(None); }
            blocks[id as usize] = Some(blk);
            if !matches!(p.peek(), Tok::LabelDef(_) | Tok::Eof) {
                return Err(format!("expected block label, got {:?}", p.peek()));
            }
        }
        let blocks: Vec<Block> = blocks.into_iter().map(|b| b.unwrap_or_else(|| Block {
            phis: vec![],
            code: vec![Instr { dst: NONE, kind: Kind::Unsupported("missing block".into()), next: NONE }],
        })).collect();
        let nb = p.blocks.len();
        let mut blocks = blocks;
        while blocks.len() < nb {
            blocks.push(Block { phis: vec![], code: vec![Instr { dst: NONE, kind: Kind::Unsupported("missing block".into()), next: NONE }] });
        }
        // block 0 must be the entry block: ids are assigned on first mention,
        // and the entry block is mentioned first.
        Ok(Body { nregs: p.regs.len() as u32, params, blocks, ninstr })
    }
}

fn write_cst(c: &Cst, t: &Ty, out: &mut [u8], off: u64) -> R<()> {
    match c {
        Cst::Undef => Ok(()),
        Cst::Int(v) => {
            let n = t.store_size() as usize;
            if t.is_agg() { return if *v == 0 { Ok(()) } else { Err("int for aggregate".into()) }; }
            for k in 0..n { out[off as usize + k] = if k < 16 { (v >> (8 * k)) as u8 } else { 0 }; }
            Ok(())
        }
        Cst::Agg(es) => {
            for (i, e) in es.iter().enumerate() {
                let et = t.elem(i).ok_or("agg shape")?;
                write_cst(e, &et, out, off + t.field_off(i))?;
            }
            Ok(())
        }
    }
}
