//! Reference state machine of the coding API: which calls are acceptable when,
//! what they code, and how unacceptable ones are rejected.
use crate::api::*;
use crate::drive::*;
use crate::spec::*;
use binschema::error::{Error, ErrorKind};
use binschema::value::*;
use binschema::*;

#[derive(Clone)]
pub enum Op {
    /// (the decoder only looks at the type)
    Scalar(ScalarType, ScalarValue),
    Str(Vec<u8>),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some,
    FixedSeq(usize),
    VarSeq(usize),
    Elem,
    EndSeq,
    Tuple,
    TElem,
    EndTuple,
    Struct,
    Field(Vec<u8>),
    EndStruct,
    Enum(usize, Vec<u8>),
    // decoder only
    Opt,
    VarSeqD,
    EnumOrd,
    EnumName(Vec<u8>),
}

/// How a call has to end.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum V {
    Ok,
    /// rejected for not conforming to the schema
    Snc,
    /// rejected for misusing the API
    Usage,
    /// rejected as either of the two
    Rej,
    /// fatal: illegal recursion
    Illegal,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Need,
    Auto,
    Seq { len: usize, next: usize },
    Tuple(usize),
    Struct(usize),
    /// ordinal decoded, name not yet given
    Ord(usize),
}

#[derive(Clone, Copy)]
pub struct Frame {
    pub node: usize,
    pub st: St,
}

pub struct Model<'t, 's> {
    pub t: &'t Tree<'s>,
    pub stack: Vec<Frame>,
    pub broken: bool,
}

fn name_is(want: &str, got: &[u8]) -> bool {
    let w = want.as_bytes();
    if w.len() != got.len() {
        return false;
    }
    let mut i = 0;
    while i < w.len() {
        if w[i] != got[i] {
            return false;
        }
        i += 1;
    }
    true
}

impl<'t, 's> Model<'t, 's> {
    pub fn new(t: &'t Tree<'s>) -> Self {
        let mut stack = Vec::with_capacity(16);
        stack.push(Frame { node: 0, st: St::Need });
        Model { t, stack, broken: false }
    }
    pub fn finished(&self) -> bool {
        self.stack.is_empty() && !self.broken
    }
    pub fn top(&self) -> Option<Frame> {
        self.stack.last().copied()
    }
    pub fn schema(&self, id: usize) -> &'s Schema {
        self.t.nodes[id].s
    }
    fn child_ok(&self, id: usize, i: usize) -> V {
        if self.t.resolve(self.t.child(id, i)).is_ok() {
            V::Ok
        } else {
            V::Illegal
        }
    }

    pub fn verdict(&self, op: &Op) -> V {
        if self.broken {
            return V::Usage;
        }
        let f = match self.top() {
            None => return V::Usage,
            Some(f) => f,
        };
        let s = self.schema(f.node);
        match f.st {
            St::Need => match (op, s) {
                (_, Schema::Recurse(_)) => V::Illegal,
                (&Op::Scalar(st, _), &Schema::Scalar(sc)) => {
                    if st == sc {
                        V::Ok
                    } else {
                        V::Snc
                    }
                }
                (Op::Str(_), Schema::Str) => V::Ok,
                (Op::Bytes(_), Schema::Bytes) => V::Ok,
                (Op::Unit, Schema::Unit) => V::Ok,
                (Op::None, Schema::Option(_)) => V::Ok,
                (Op::Some, Schema::Option(_)) => self.child_ok(f.node, 0),
                (Op::Opt, Schema::Option(_)) => V::Ok,
                (&Op::FixedSeq(n), &Schema::Seq(SeqSchema { len: Some(len), .. })) => {
                    if n == len {
                        V::Ok
                    } else {
                        V::Snc
                    }
                }
                (Op::VarSeq(_), Schema::Seq(SeqSchema { len: None, .. })) => V::Ok,
                (Op::VarSeqD, Schema::Seq(SeqSchema { len: None, .. })) => V::Ok,
                (Op::Tuple, Schema::Tuple(_)) => V::Ok,
                (Op::Struct, Schema::Struct(_)) => V::Ok,
                (&Op::Enum(ord, ref name), Schema::Enum(vs)) => {
                    if ord >= vs.len() {
                        return V::Snc;
                    }
                    let ord = concretize(ord);
                    if !name_is(&vs[ord].name, name) {
                        return V::Snc;
                    }
                    self.child_ok(f.node, ord)
                }
                (Op::EnumOrd, Schema::Enum(_)) => V::Ok,
                (Op::Elem, _) | (Op::EndSeq, _) | (Op::TElem, _) | (Op::EndTuple, _) => V::Rej,
                (Op::Field(_), _) | (Op::EndStruct, _) | (Op::EnumName(_), _) => V::Rej,
                _ => V::Snc,
            },
            St::Auto => V::Rej, // never on top
            St::Seq { len, next } => match op {
                Op::Elem if next < len => self.child_ok(f.node, 0),
                Op::EndSeq if next == len => V::Ok,
                _ => V::Rej,
            },
            St::Tuple(next) => match (op, s) {
                (Op::TElem, Schema::Tuple(ss)) if next < ss.len() => self.child_ok(f.node, next),
                (Op::EndTuple, Schema::Tuple(ss)) if next == ss.len() => V::Ok,
                _ => V::Rej,
            },
            St::Struct(next) => match (op, s) {
                (Op::Field(name), Schema::Struct(ss)) if next < ss.len() => {
                    if name_is(&ss[next].name, name) {
                        self.child_ok(f.node, next)
                    } else {
                        V::Snc
                    }
                }
                (Op::EndStruct, Schema::Struct(ss)) if next == ss.len() => V::Ok,
                _ => V::Rej,
            },
            St::Ord(ord) => match (op, s) {
                (Op::EnumName(name), Schema::Enum(vs)) => {
                    if name_is(&vs[ord].name, name) {
                        self.child_ok(f.node, ord)
                    } else {
                        V::Snc
                    }
                }
                _ => V::Rej,
            },
        }
    }

    fn set(&mut self, st: St) {
        let i = self.stack.len() - 1;
        self.stack[i].st = st;
    }
    fn push(&mut self, i: usize) {
        let f = self.stack[self.stack.len() - 1];
        match self.t.resolve(self.t.child(f.node, i)) {
            Ok(node) => self.stack.push(Frame { node, st: St::Need }),
            Err(_) => self.broken = true,
        }
    }
    fn pop(&mut self) {
        self.stack.pop();
        while let Some(Frame { st: St::Auto, .. }) = self.stack.last() {
            self.stack.pop();
        }
    }

    /// The effect of an accepted encoder call (or of a decoder call, with what
    /// was decoded filled in).
    pub fn apply(&mut self, op: &Op) {
        match op {
            Op::Scalar(..) | Op::Str(_) | Op::Bytes(_) | Op::Unit | Op::None => self.pop(),
            Op::Some => {
                self.set(St::Auto);
                self.push(0);
            }
            &Op::FixedSeq(len) | &Op::VarSeq(len) => self.set(St::Seq { len, next: 0 }),
            Op::Elem => {
                if let Some(Frame { st: St::Seq { len, next }, .. }) = self.top() {
                    self.set(St::Seq { len, next: next + 1 });
                    self.push(0);
                }
            }
            Op::Tuple => self.set(St::Tuple(0)),
            Op::TElem => {
                if let Some(Frame { st: St::Tuple(next), .. }) = self.top() {
                    self.set(St::Tuple(next + 1));
                    self.push(next);
                }
            }
            Op::Struct => self.set(St::Struct(0)),
            Op::Field(_) => {
                if let Some(Frame { st: St::Struct(next), .. }) = self.top() {
                    self.set(St::Struct(next + 1));
                    self.push(next);
                }
            }
            Op::EndSeq | Op::EndTuple | Op::EndStruct => self.pop(),
            &Op::Enum(ord, _) => {
                let ord = concretize(ord);
                self.set(St::Auto);
                self.push(ord);
            }
            Op::EnumName(_) => {
                if let Some(Frame { st: St::Ord(ord), .. }) = self.top() {
                    self.set(St::Auto);
                    self.push(ord);
                }
            }
            Op::Opt | Op::VarSeqD | Op::EnumOrd => (),
        }
    }
    /// The effect of an accepted decoder call that stands for `done`.
    pub fn decoded(&mut self, op: &Op, done: &Op) {
        match (op, done) {
            (Op::EnumOrd, &Op::Enum(o, _)) => self.set(St::Ord(o)),
            _ => self.apply(done),
        }
    }
}

// ------------------------------------------------------------------- calls

fn some_name(max: usize) -> Vec<u8> {
    let v = vec(choose(max + 1));
    for &b in &v {
        assume(b < 0x80);
    }
    v
}
pub fn text(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}

/// Any call of the encoding API, with any arguments (names and strings up to
/// two ASCII bytes).
pub fn any_enc_op() -> Op {
    match choose(17) {
        0 => {
            let st = SCALARS[choose(14)];
            Op::Scalar(st, any_scalar(st))
        }
        1 => Op::Str(some_name(1)),
        2 => Op::Bytes(vec(1)),
        3 => Op::Unit,
        4 => Op::None,
        5 => Op::Some,
        6 => Op::FixedSeq(u64() as usize),
        7 => Op::VarSeq(u64() as usize),
        8 => Op::Elem,
        9 => Op::EndSeq,
        10 => Op::Tuple,
        11 => Op::TElem,
        12 => Op::EndTuple,
        13 => Op::Struct,
        14 => Op::Field(some_name(2)),
        15 => Op::EndStruct,
        _ => Op::Enum(u64() as usize, some_name(2)),
    }
}

pub fn any_dec_op() -> Op {
    match choose(17) {
        0 => Op::Scalar(SCALARS[choose(14)], ScalarValue::U8(0)),
        1 => Op::Str(Vec::new()),
        2 => Op::Bytes(Vec::new()),
        3 => Op::Unit,
        4 => Op::Opt,
        5 => Op::FixedSeq(u64() as usize),
        6 => Op::VarSeqD,
        7 => Op::Elem,
        8 => Op::EndSeq,
        9 => Op::Tuple,
        10 => Op::TElem,
        11 => Op::EndTuple,
        12 => Op::Struct,
        13 => Op::Field(some_name(2)),
        14 => Op::EndStruct,
        15 => Op::EnumOrd,
        _ => Op::EnumName(some_name(2)),
    }
}

/// An acceptable next call, or None when there is none (finished, broken, or
/// an enum without variants).
pub fn next_op(m: &Model, enc: bool) -> Option<Op> {
    if m.broken {
        return None;
    }
    let f = m.top()?;
    let s = m.schema(f.node);
    Some(match f.st {
        St::Need => match s {
            &Schema::Scalar(st) => Op::Scalar(st, if enc { any_scalar(st) } else { ScalarValue::U8(0) }),
            Schema::Str => Op::Str(if enc { some_name(2) } else { Vec::new() }),
            Schema::Bytes => Op::Bytes(if enc { vec(choose(3)) } else { Vec::new() }),
            Schema::Unit => Op::Unit,
            Schema::Option(_) => {
                if !enc {
                    Op::Opt
                } else if choose(2) == 0 {
                    Op::None
                } else {
                    Op::Some
                }
            }
            &Schema::Seq(SeqSchema { len: Some(n), .. }) => Op::FixedSeq(n),
            Schema::Seq(_) => {
                if enc {
                    Op::VarSeq(choose(3))
                } else {
                    Op::VarSeqD
                }
            }
            Schema::Tuple(_) => Op::Tuple,
            Schema::Struct(_) => Op::Struct,
            Schema::Enum(vs) => {
                if !enc {
                    Op::EnumOrd
                } else if vs.is_empty() {
                    return None;
                } else {
                    let o = choose(vs.len());
                    Op::Enum(o, vs[o].name.clone().into_bytes())
                }
            }
            // illegal root: any call will do
            Schema::Recurse(_) => Op::Unit,
        },
        St::Auto => return None,
        St::Seq { len, next } => {
            if next < len {
                Op::Elem
            } else {
                Op::EndSeq
            }
        }
        St::Tuple(next) => match s {
            Schema::Tuple(ss) if next < ss.len() => Op::TElem,
            _ => Op::EndTuple,
        },
        St::Struct(next) => match s {
            Schema::Struct(ss) if next < ss.len() => Op::Field(ss[next].name.clone().into_bytes()),
            _ => Op::EndStruct,
        },
        St::Ord(o) => match s {
            Schema::Enum(vs) => Op::EnumName(vs[o].name.clone().into_bytes()),
            _ => return None,
        },
    })
}

pub fn enc_op<W: std::io::Write>(e: &mut Encoder<W>, op: &Op) -> Result<(), Error> {
    match op {
        &Op::Scalar(_, x) => enc_scalar(e, x),
        Op::Str(s) => e.encode_str(text(s)),
        Op::Bytes(s) => e.encode_bytes(s),
        Op::Unit => e.encode_unit(),
        Op::None => e.encode_none(),
        Op::Some => e.begin_some(),
        &Op::FixedSeq(n) => e.begin_fixed_len_seq(n),
        &Op::VarSeq(n) => e.begin_var_len_seq(n),
        Op::Elem => e.begin_seq_elem(),
        Op::EndSeq => e.finish_seq(),
        Op::Tuple => e.begin_tuple(),
        Op::TElem => e.begin_tuple_elem(),
        Op::EndTuple => e.finish_tuple(),
        Op::Struct => e.begin_struct(),
        Op::Field(n) => e.begin_struct_field(text(n)),
        Op::EndStruct => e.finish_struct(),
        Op::Enum(o, n) => e.begin_enum(*o, text(n)),
        _ => Ok(()),
    }
}

/// The bytes an accepted call has to have written.
pub fn expect_op(m: &Model, op: &Op, out: &[u8], at: usize) -> usize {
    match op {
        &Op::Scalar(st, x) => expect_scalar(st, x, out, at),
        Op::Str(s) | Op::Bytes(s) => {
            let at = expect_uint(out, at, s.len() as u128);
            expect_bytes(out, at, s)
        }
        Op::None => expect_bytes(out, at, &[0]),
        Op::Some => expect_bytes(out, at, &[1]),
        &Op::VarSeq(n) => expect_uint(out, at, n as u128),
        &Op::Enum(o, _) => {
            let n = match m.top() {
                Some(f) => m.t.nodes[f.node].n,
                None => 0,
            };
            expect_ord(out, at, o, n)
        }
        _ => at,
    }
}

pub fn check_verdict(v: V, r: &Result<(), Error>) {
    match r {
        Ok(()) => check(v == V::Ok, "a call that does not conform was accepted"),
        Err(e) => {
            let k = e.kind();
            observe(1000 + kind_code(k));
            check(v != V::Ok, "a call that conforms was rejected");
            let snc = k == ErrorKind::SchemaNonConformance;
            let usage = k == ErrorKind::ApiUsage;
            match v {
                V::Snc => check(snc, "non-conforming call: wrong error kind"),
                V::Usage => check(usage, "call on a finished or broken coder: wrong error kind"),
                V::Rej => check(snc || usage, "unacceptable call: wrong error kind"),
                V::Illegal => check(k == ErrorKind::IllegalSchema, "illegal recursion: wrong error kind"),
                V::Ok => (),
            }
        }
    }
}

pub fn check_state(m: &Model, cs: &CoderState) {
    let fin = m.finished();
    check(cs.is_finished() == fin, "is_finished disagrees with what was coded");
    check(cs.is_finished_or_err().is_ok() == fin, "is_finished_or_err disagrees with what was coded");
}

/// `need` tells the schema to be coded next.
pub fn check_need(m: &Model, got: Result<&Schema, Error>) {
    if m.broken {
        return;
    }
    match m.top() {
        Some(Frame { node, st: St::Need }) => match (m.schema(node), got) {
            (Schema::Recurse(_), Ok(_)) => check(false, "need returned a recurse schema"),
            (Schema::Recurse(_), Err(e)) => {
                check(e.kind() == ErrorKind::IllegalSchema, "need at an illegal root: wrong error kind")
            }
            (s, Ok(g)) => check(std::ptr::eq(s, g), "need returned another schema than the one to be coded"),
            (_, Err(_)) => check(false, "need failed although a schema is to be coded"),
        },
        _ => match got {
            Ok(_) => check(false, "need returned a schema although none is to be coded"),
            Err(e) => check(e.kind() == ErrorKind::ApiUsage, "need: wrong error kind"),
        },
    }
}

pub const COVER_DONE: u64 = 1;
pub const COVER_REJ: u64 = 2;
pub const COVER_ILLEGAL: u64 = 3;
pub const COVER_DATA: u64 = 4;

/// When arbitrary calls are made.
pub struct Plan<'p> {
    /// number of calls explored
    pub steps: usize,
    /// how many of them may be arbitrary ones
    pub inject: usize,
    pub need: bool,
    /// the acceptable calls to make while no arbitrary one has been accepted
    /// (none: any)
    pub script: &'p [Op],
    /// where arbitrary calls are made (none: anywhere)
    pub places: &'p [usize],
    /// number of calls explored after an arbitrary one
    pub tail: usize,
}
impl Plan<'static> {
    pub fn new(steps: usize, inject: usize, need: bool) -> Self {
        Plan { steps, inject, need, script: &[], places: &[], tail: usize::MAX }
    }
}
/// Where a run is in its plan.
struct At {
    inject: usize,
    left: usize,
    /// position in the script
    pos: usize,
    astray: bool,
}
impl At {
    fn new(p: &Plan) -> Self {
        At { inject: p.inject, left: usize::MAX, pos: 0, astray: false }
    }
    /// An accepted arbitrary call leads away from the script: a few calls on.
    fn strayed(&mut self, p: &Plan, wild: bool) {
        if wild {
            self.astray = true;
            if !p.places.is_empty() && self.left > 4 {
                self.left = 4;
            }
        }
    }
    /// The next call, and whether it is an arbitrary one.
    fn op(&mut self, p: &Plan, m: &Model, step: usize, enc: bool) -> Option<(Op, bool)> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        if self.inject > 0 && (p.places.is_empty() || p.places.contains(&step)) && choose(2) == 1 {
            self.inject -= 1;
            self.left = p.tail;
            return Some((if enc { any_enc_op() } else { any_dec_op() }, true));
        }
        if !self.astray && self.pos < p.script.len() {
            self.pos += 1;
            return Some((p.script[self.pos - 1].clone(), false));
        }
        next_op(m, enc).map(|op| (op, false))
    }
}

/// Drive the encoder: acceptable calls, up to `inject` arbitrary ones.
pub fn run_enc(schema: &Schema, p: Plan) {
    let t = Tree::new(schema);
    let mut m = Model::new(&t);
    let mut out: Vec<u8> = Vec::with_capacity(64);
    let mut cs = CoderState::new(schema, CoderStateAlloc::new(), None);
    let mut run = At::new(&p);
    for step in 0..p.steps {
        let (op, wild) = match run.op(&p, &m, step, true) {
            Some(x) => x,
            None => break,
        };
        let v = m.verdict(&op);
        let at = out.len();
        let mut e = Encoder::new(&mut cs, &mut out);
        if p.need {
            check_need(&m, e.need());
        }
        let r = enc_op(&mut e, &op);
        check_verdict(v, &r);
        match v {
            V::Ok => {
                let end = expect_op(&m, &op, &out, at);
                check(end == out.len(), "a call wrote more than the format prescribes");
                m.apply(&op);
                run.strayed(&p, wild);
            }
            V::Illegal => {
                cover(COVER_ILLEGAL);
                m.broken = true;
            }
            _ => {
                cover(COVER_REJ);
                check(out.len() == at, "a rejected call wrote bytes");
            }
        }
        check_state(&m, &cs);
    }
    if m.finished() {
        cover(COVER_DONE);
    }
    if p.need {
        let e = Encoder::new(&mut cs, &mut out);
        check_need(&m, e.need());
    }
    observe_bytes(&out);
    if m.finished() || m.broken {
        let n = out.len();
        let mut e = Encoder::new(&mut cs, &mut out);
        check_api_usage(e.encode_unit());
        check_api_usage(e.begin_var_len_seq(3));
        check_api_usage(e.finish_struct());
        check_api_usage(e.begin_enum(0, "A"));
        check(out.len() == n, "a finished or broken encoder wrote bytes");
        check(cs.is_finished() == m.finished(), "is_finished changed after the end");
    }
}

fn vec_ok(r: Result<Vec<u8>, Error>, want: &R<Vec<u8>>) -> Result<(), Error> {
    match (r, want) {
        (Ok(g), Ok(w)) => {
            same_bytes(&g, w);
            Ok(())
        }
        (Ok(_), Err(_)) => Ok(()),
        (Err(e), _) => Err(e),
    }
}

/// One decoder call and its reference.  Returns the outcome, the reference
/// outcome and the call to apply to the model.
pub fn dec_op(m: &Model, d: &mut Decoder<&[u8]>, op: &Op, v: V, input: &[u8], at: &mut usize) -> (Result<(), Error>, R<()>, Op) {
    let go = v == V::Ok;
    let same_op = op.clone();
    match op {
        &Op::Scalar(st, _) => {
            let r = dec_scalar(d, st);
            if !go {
                return (r.map(|_| ()), Ok(()), same_op);
            }
            match (r, ref_scalar(st, input, at)) {
                (Ok(x), Ok(y)) => {
                    same_scalar(x, y);
                    (Ok(()), Ok(()), same_op)
                }
                (r, w) => (r.map(|_| ()), w.map(|_| ()), same_op),
            }
        }
        Op::Str(_) => {
            let r = d.decode_str().map(|s| s.into_bytes());
            let w = if go { ref_text(input, at) } else { Ok(Vec::new()) };
            (vec_ok(r, &w), w.map(|_| ()), same_op)
        }
        Op::Bytes(_) => {
            let r = d.decode_bytes();
            let w = if go { ref_str(input, at) } else { Ok(Vec::new()) };
            (vec_ok(r, &w), w.map(|_| ()), same_op)
        }
        Op::Unit => (d.decode_unit(), Ok(()), same_op),
        Op::Opt => {
            let r = d.begin_option();
            let w = if !go {
                Ok(false)
            } else {
                match byte(input, at) {
                    Ok(0) => Ok(false),
                    Ok(1) => match m.top() {
                        Some(f) if m.t.resolve(m.t.child(f.node, 0)).is_err() => Err(Bad::Illegal),
                        _ => Ok(true),
                    },
                    Ok(_) => Err(Bad::Malformed),
                    Err(e) => Err(e),
                }
            };
            if let (&Ok(g), &Ok(w)) = (&r, &w) {
                check(g == w || !go, "wrong someness decoded");
            }
            let op = if let Ok(true) = w { Op::Some } else { Op::None };
            (r.map(|_| ()), w.map(|_| ()), op)
        }
        &Op::FixedSeq(n) => (d.begin_fixed_len_seq(n), Ok(()), same_op),
        Op::VarSeqD => {
            let r = d.begin_var_len_seq();
            let w = if !go {
                Ok(0)
            } else {
                match ref_uint(input, at) {
                    Ok(n) if n > usize::MAX as u128 => Err(Bad::Platform),
                    Ok(n) => Ok(n as usize),
                    Err(e) => Err(e),
                }
            };
            if let (&Ok(g), &Ok(w)) = (&r, &w) {
                check(g == w || !go, "wrong seq length decoded");
            }
            let op = Op::VarSeq(if let Ok(n) = w { n } else { 0 });
            (r.map(|_| ()), w.map(|_| ()), op)
        }
        Op::Elem => (d.begin_seq_elem(), Ok(()), same_op),
        Op::EndSeq => (d.finish_seq(), Ok(()), same_op),
        Op::Tuple => (d.begin_tuple(), Ok(()), same_op),
        Op::TElem => (d.begin_tuple_elem(), Ok(()), same_op),
        Op::EndTuple => (d.finish_tuple(), Ok(()), same_op),
        Op::Struct => (d.begin_struct(), Ok(()), same_op),
        Op::Field(n) => (d.begin_struct_field(text(n)), Ok(()), same_op),
        Op::EndStruct => (d.finish_struct(), Ok(()), same_op),
        Op::EnumOrd => {
            let r = d.begin_enum();
            let w = if !go {
                Ok(0)
            } else {
                let n = match m.top() {
                    Some(f) => m.t.nodes[f.node].n,
                    None => 0,
                };
                ref_ord(n, input, at)
            };
            if let (&Ok(g), &Ok(w)) = (&r, &w) {
                check(g == w || !go, "wrong ordinal decoded");
            }
            let op = Op::Enum(if let Ok(o) = w { concretize(o) } else { 0 }, Vec::new());
            (r.map(|_| ()), w.map(|_| ()), op)
        }
        Op::EnumName(n) => (d.begin_enum_variant(text(n)), Ok(()), same_op),
        _ => (Ok(()), Ok(()), same_op),
    }
}

/// Drive the decoder over arbitrary bytes: acceptable calls, up to `inject`
/// arbitrary ones.
pub fn run_dec(schema: &Schema, input: &[u8], p: Plan) {
    let t = Tree::new(schema);
    let mut m = Model::new(&t);
    let mut rd = input;
    let mut cs = CoderState::new(schema, CoderStateAlloc::new(), None);
    let mut run = At::new(&p);
    let mut at = 0;
    for step in 0..p.steps {
        let (op, wild) = match run.op(&p, &m, step, false) {
            Some(x) => x,
            None => break,
        };
        let v = m.verdict(&op);
        let before = at;
        let mut d = Decoder::new(&mut cs, &mut rd);
        if p.need {
            check_need(&m, d.need());
        }
        let (r, want, done) = dec_op(&m, &mut d, &op, v, input, &mut at);
        if v == V::Ok {
            match (&r, want) {
                (Ok(()), Ok(())) => {
                    m.decoded(&op, &done);
                    run.strayed(&p, wild);
                    check(rd.len() == input.len() - at, "a call consumed a wrong number of bytes");
                }
                (Err(e), Err(b)) => {
                    observe(1000 + kind_code(e.kind()));
                    check(e.kind() == b.kind(), "bad data: wrong error kind");
                    cover(COVER_DATA);
                    m.broken = true;
                }
                (Ok(()), Err(_)) => check(false, "decoder accepted bad data"),
                (Err(_), Ok(())) => check(false, "decoder rejected valid data"),
            }
        } else {
            check_verdict(v, &r);
            if v == V::Illegal {
                cover(COVER_ILLEGAL);
                m.broken = true;
            } else {
                cover(COVER_REJ);
                check(rd.len() == input.len() - before, "a rejected call consumed bytes");
            }
        }
        check_state(&m, &cs);
    }
    if m.finished() {
        cover(COVER_DONE);
    }
    if p.need {
        let d = Decoder::new(&mut cs, &mut rd);
        check_need(&m, d.need());
    }
    observe(rd.len() as u64);
    if m.finished() || m.broken {
        let n = rd.len();
        let mut d = Decoder::new(&mut cs, &mut rd);
        check_api_usage(d.decode_unit());
        check_api_usage(d.begin_option());
        check_api_usage(d.begin_var_len_seq());
        check_api_usage(d.finish_struct());
        check_api_usage(d.begin_enum());
        check(rd.len() == n, "a finished or broken decoder consumed bytes");
        check(cs.is_finished() == m.finished(), "is_finished changed after the end");
    }
}
