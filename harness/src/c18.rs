//! C18: a coder's allocation can be reused, whatever became of the coder.
use crate::api::*;
use crate::gen::*;
use crate::machine::*;
use crate::shapes::*;
use crate::spec::*;
use binschema::value::*;
use binschema::*;

/// Start encoding under `s`, stop anywhere (or break the coder).
fn leftover_enc(s: &Schema, calls: usize, alloc: CoderStateAlloc) -> CoderStateAlloc {
    let t = Tree::new(s);
    let mut m = Model::new(&t);
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(s, alloc, None);
    let n = choose(calls + 1);
    for _ in 0..n {
        let op = match next_op(&m, true) {
            Some(op) => op,
            None => break,
        };
        let v = m.verdict(&op);
        let mut e = Encoder::new(&mut cs, &mut out);
        let _ = enc_op(&mut e, &op);
        match v {
            V::Ok => m.apply(&op),
            _ => break,
        }
    }
    if choose(2) == 0 {
        // dropped instead
        drop(cs);
        CoderStateAlloc::default()
    } else {
        cs.into_alloc()
    }
}
/// Decode arbitrary bytes under `s`, which may fail anywhere.
fn leftover_dec(s: &Schema, n: usize, alloc: CoderStateAlloc) -> CoderStateAlloc {
    let t = Tree::new(s);
    let input = vec(n);
    let mut at = 0;
    let want = ref_value(&t, 0, &input, &mut at);
    let mut rd = &input[..];
    let mut cs = CoderState::new(s, alloc, None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    let r = Value::decode_from(&mut d);
    check(r.is_ok() == want.is_ok(), "decoding disagrees with the reference");
    cs.into_alloc()
}
/// A whole message with a reused allocation.
fn whole(s: &Schema, fuel: usize, alloc: CoderStateAlloc) -> CoderStateAlloc {
    let t = Tree::new(s);
    let mut fuel = fuel;
    let v = any_value(&t, 0, &mut fuel, 1);
    whole_of(s, &v, alloc)
}
fn whole_of(s: &Schema, v: &Value, alloc: CoderStateAlloc) -> CoderStateAlloc {
    let t = Tree::new(s);
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(s, alloc, None);
    check(!cs.is_finished(), "a new coder is finished");
    let mut e = Encoder::new(&mut cs, &mut out);
    check(v.encode_to(&mut e).is_ok(), "encoding a conforming value failed");
    check(cs.is_finished(), "encoder not finished");
    let end = expect_value(&t, 0, v, &out, 0);
    check(end == out.len(), "encoding longer than the format prescribes");
    observe_bytes(&out);
    let mut rd = &out[..];
    let mut cs = CoderState::new(s, cs.into_alloc(), None);
    check(!cs.is_finished(), "a new coder is finished");
    let mut d = Decoder::new(&mut cs, &mut rd);
    match Value::decode_from(&mut d) {
        Ok(w) => same(v, &w),
        Err(_) => check(false, "decoding an encoded value failed"),
    }
    check(cs.is_finished(), "decoder not finished");
    cs.into_alloc()
}
fn leaks(f: impl FnOnce()) {
    let before = heap_live();
    f();
    check(heap_live() == before, "memory leaked");
    cover(1);
}
/// params: first shape, calls, second shape, nodes
pub fn c18_enc() {
    leaks(|| {
        let a = leftover_enc(&shape(param(0)), param(1), CoderStateAlloc::new());
        let a = whole(&shape(param(2)), param(3), a);
        drop(a);
    });
}
/// params: first shape, input length, second shape, nodes
pub fn c18_dec() {
    leaks(|| {
        let a = leftover_dec(&shape(param(0)), param(1), CoderStateAlloc::new());
        let a = whole(&shape(param(2)), param(3), a);
        drop(a);
    });
}
/// Clones are independent; deep messages grow the allocation.
/// params: nesting
pub fn c18_clone() {
    leaks(|| {
        let s = schema!(option(recurse(1)));
        let a = CoderStateAlloc::new();
        let b = a.clone();
        let mut v = Value::Option(None);
        for _ in 0..param(0) {
            v = Value::Option(Some(Box::new(v)));
        }
        let mut out: Vec<u8> = Vec::new();
        let mut cs = CoderState::new(&s, a, None);
        let mut e = Encoder::new(&mut cs, &mut out);
        check(v.encode_to(&mut e).is_ok(), "encoding a conforming value failed");
        let a = cs.into_alloc();
        let c = a.clone();
        let x = whole(&shape(22), 4, a);
        let y = whole(&shape(21), 4, c);
        let z = whole(&shape(4), 4, b);
        let w = if choose(2) == 0 { x.clone() } else { y.clone() };
        drop(x);
        drop(z);
        let w = whole(&shape(7), 4, w);
        drop(y);
        drop(w);
    });
}
/// Coders abandoned in the middle of long messages, then whole ones, over and
/// over with one allocation.  params: kind (see long.rs), size, rounds
pub fn c18_long() {
    leaks(|| {
        let (s, v) = crate::long::long(param(0), param(1), 1);
        let mut ops = Vec::new();
        crate::long::script(&v, &mut ops);
        let at = crate::long::places(ops.len());
        let full = encode_value(&s, &Tree::new(&s), &v).len();
        let mut a = CoderStateAlloc::new();
        for k in 0..param(2) {
            let stop = at[choose(at.len())];
            let mut out: Vec<u8> = Vec::new();
            let mut cs = CoderState::new(&s, a, None);
            for op in &ops[..stop] {
                let mut e = Encoder::new(&mut cs, &mut out);
                check(enc_op(&mut e, op).is_ok(), "encoding a conforming value failed");
            }
            if choose(2) == 1 {
                // a rejected call, too
                let mut e = Encoder::new(&mut cs, &mut out);
                check(e.finish_struct().is_err() || e.finish_tuple().is_err() || e.finish_seq().is_err(), "finished twice");
            }
            let mut cs = CoderState::new(&s, cs.into_alloc(), None);
            let mut rd = &out[..];
            let mut d = Decoder::new(&mut cs, &mut rd);
            let r = Value::decode_from(&mut d);
            check(r.is_ok() == (out.len() == full), "decoding half a message");
            a = if k == 0 { cs.into_alloc().clone() } else { cs.into_alloc() };
        }
        let a = whole_of(&s, &v, a);
        let a = whole(&shape(22), 4, a);
        drop(whole(&shape(21), 3, a));
    });
}
/// Many messages with one allocation.  params: messages
pub fn c18_many() {
    leaks(|| {
        let mut a = CoderStateAlloc::new();
        let n = param(0);
        let odd = choose(n);
        for i in 0..n {
            let (kind, size) = [(8, 9), (5, 3), (4, 5), (9, 7), (6, 4), (0, 3), (11, 2), (10, 4)][i % 8];
            let (s, v) = if kind == 11 {
                (schema!(enum { A(unit), B(tuple {}) }), enm(1, "B", Value::Tuple(vec![])))
            } else {
                crate::long::long(kind, size + i / 8, (i == odd) as usize)
            };
            a = whole_of(&s, &v, a);
        }
    });
}
fn enm(ord: usize, name: &str, value: Value) -> Value {
    Value::Enum(EnumValue { variant_ord: ord, variant_name: name.to_string(), value: Box::new(value) })
}
