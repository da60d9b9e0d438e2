//! C21: messages written one after another are read one after another.
use crate::api::*;
use crate::gen::*;
use crate::shapes::*;
use crate::spec::*;
use binschema::value::*;
use binschema::*;
use serde::{Deserialize, Serialize};

/// params: first shape, second shape, nodes, width
pub fn c21_two() {
    let (a, b) = (shape(param(0)), shape(param(1)));
    let (ta, tb) = (Tree::new(&a), Tree::new(&b));
    let mut fuel = param(2);
    let va = any_value(&ta, 0, &mut fuel, param(3));
    let mut fuel = param(2);
    let vb = any_value(&tb, 0, &mut fuel, param(3));
    row(&a, &ta, va, &b, &tb, vb);
}
/// Long messages and short ones.  params: kinds and sizes (see long.rs)
pub fn c21_long() {
    let (a, va) = crate::long::long(param(0), param(1), 1);
    let (b, vb) = crate::long::long(param(2), param(3), 1);
    row(&a, &Tree::new(&a), va, &b, &Tree::new(&b), vb);
}
/// A large schema and a value of it.  params: kind (see long.rs), size
pub fn c21_schema_long() {
    let (s, v) = crate::long::long(param(0), param(1), 1);
    described(&s, v);
}
fn row(a: &Schema, ta: &Tree, va: Value, b: &Schema, tb: &Tree, vb: Value) {
    let mut out: Vec<u8> = Vec::new();
    for (s, t, v) in [(a, ta, &va), (b, tb, &vb), (a, ta, &va)] {
        let at = out.len();
        let mut cs = CoderState::new(s, CoderStateAlloc::new(), None);
        let mut e = Encoder::new(&mut cs, &mut out);
        check(v.encode_to(&mut e).is_ok(), "encoding a conforming value failed");
        check(cs.is_finished(), "encoder not finished");
        let end = expect_value(t, 0, v, &out, at);
        check(end == out.len(), "encoding longer than the format prescribes");
    }
    observe_bytes(&out);
    let mut rd = &out[..];
    let mut alloc = CoderStateAlloc::new();
    for (s, v) in [(a, &va), (b, &vb), (a, &va)] {
        let mut cs = CoderState::new(s, alloc, None);
        let mut d = Decoder::new(&mut cs, &mut rd);
        match Value::decode_from(&mut d) {
            Ok(w) => same(v, &w),
            Err(_) => check(false, "decoding an encoded value failed"),
        }
        check(cs.is_finished(), "decoder not finished");
        alloc = cs.into_alloc();
    }
    check(rd.is_empty(), "bytes of the messages left over");
    // skipping the first ones finds the last one
    let mut rd = &out[..];
    for s in [a, b] {
        let mut cs = CoderState::new(s, alloc, None);
        let mut d = Decoder::new(&mut cs, &mut rd);
        check(serde::de::IgnoredAny::deserialize(&mut d).is_ok(), "skipping an encoded value failed");
        check(cs.is_finished(), "decoder not finished");
        alloc = cs.into_alloc();
    }
    let mut cs = CoderState::new(a, alloc, None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    match Value::decode_from(&mut d) {
        Ok(w) => same(&va, &w),
        Err(_) => check(false, "decoding an encoded value failed"),
    }
    check(rd.is_empty(), "bytes of the messages left over");
    cover(1);
}
/// A schema followed by a value of it.  params: shape, nodes, width
pub fn c21_schema() {
    let s = shape(param(0));
    let t = Tree::new(&s);
    let mut fuel = param(1);
    let v = any_value(&t, 0, &mut fuel, param(2));
    described(&s, v);
}
fn described(s: &Schema, v: Value) {
    let m = Schema::schema(RecurseStack::default());
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(&m, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut out);
    check(s.serialize(&mut e).is_ok() && cs.is_finished(), "serializing a schema failed");
    let mut cs = CoderState::new(s, cs.into_alloc(), None);
    let mut e = Encoder::new(&mut cs, &mut out);
    check(v.encode_to(&mut e).is_ok() && cs.is_finished(), "encoding a conforming value failed");
    let mut rd = &out[..];
    let mut cs = CoderState::new(&m, cs.into_alloc(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    match Schema::deserialize(&mut d) {
        Ok(z) => {
            check(cs.is_finished(), "decoder not finished");
            check(z == *s, "the decoded schema differs");
            let mut cs = CoderState::new(&z, CoderStateAlloc::new(), None);
            let mut d = Decoder::new(&mut cs, &mut rd);
            match Value::decode_from(&mut d) {
                Ok(w) => same(&v, &w),
                Err(_) => check(false, "decoding an encoded value failed"),
            }
            check(cs.is_finished(), "decoder not finished");
        }
        Err(_) => check(false, "deserializing a serialized schema failed"),
    }
    check(rd.is_empty(), "bytes of the messages left over");
    cover(2);
}
