//! C13: arbitrary bytes decode to what the format says they are, or not at
//! all; arbitrary values encode exactly when they conform.
use crate::api::*;
use crate::gen::*;
use crate::shapes::*;
use crate::spec::*;
use binschema::error::ErrorKind;
use binschema::*;

fn dec(s: &Schema, n: usize) {
    let input = vec(n);
    let t = Tree::new(s);
    if let Ok((v, _)) = decode_value(s, &t, &input) {
        match conforms(&t, 0, &v) {
            Ok(ok) => check(ok, "the decoded value does not conform to the schema"),
            Err(_) => check(false, "the decoded value does not conform to the schema"),
        }
        // and encodes again
        encode_value(s, &t, &v);
    }
}
/// params: shape, input length
pub fn c13_dec() {
    dec(&shape(param(0)), param(1));
}
/// params: depth, input length
pub fn c13_dec_nest() {
    let s = nest(param(0));
    let t = Tree::new(&s);
    let ok = all_legal(&t) && all_inhabited(&t);
    assume(ok);
    dec(&s, param(1));
}
/// params: shape, depth of the value
pub fn c13_enc() {
    let s = shape(param(0));
    let t = Tree::new(&s);
    let v = wild_value(param(1));
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut out);
    let r = v.encode_to(&mut e);
    let ok = conforms(&t, 0, &v).unwrap_or(false);
    match r {
        Ok(()) => {
            cover(6);
            check(ok, "a value that does not conform to the schema was encoded");
            check(cs.is_finished(), "encoder not finished");
            let end = expect_value(&t, 0, &v, &out, 0);
            check(end == out.len(), "encoding longer than the format prescribes");
        }
        Err(e) => {
            cover(7);
            check(!ok, "a conforming value was rejected");
            let k = e.kind();
            check(k == ErrorKind::SchemaNonConformance || k == ErrorKind::ApiUsage, "wrong error kind");
            check(!cs.is_finished(), "finished although a value was rejected");
        }
    }
}

/// Long, wide and deep messages, cut off or with a byte replaced.
/// params: kind, size
pub fn c13_long() {
    let (s, v) = crate::long::long(param(0), param(1), 0);
    let t = Tree::new(&s);
    let mut input = Vec::new();
    ref_encode(&t, 0, &v, &mut input);
    let at = crate::long::places(input.len());
    assume(!at.is_empty());
    let p = at[choose(at.len())];
    if choose(2) == 0 {
        input.truncate(p);
    } else {
        // (lengths one at a time)
        let x = u8();
        input[p] = if p < 2 { concretize(x as usize) as u8 } else { x };
    }
    if let Ok((v, _)) = decode_value(&s, &t, &input) {
        check(matches!(conforms(&t, 0, &v), Ok(true)), "the decoded value does not conform to the schema");
        encode_value(&s, &t, &v);
    }
}
/// Long values that do not conform: one part too few, one too many, or a
/// part of another kind.  params: kind, size
pub fn c13_long_enc() {
    let (s, mut v) = crate::long::long(param(0), param(1), 0);
    let t = Tree::new(&s);
    spoil(&mut v);
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut out);
    let r = v.encode_to(&mut e);
    let ok = conforms(&t, 0, &v).unwrap_or(false);
    match r {
        Ok(()) => {
            check(ok, "a value that does not conform to the schema was encoded");
            check(cs.is_finished(), "encoder not finished");
            let end = expect_value(&t, 0, &v, &out, 0);
            check(end == out.len(), "encoding longer than the format prescribes");
        }
        Err(e) => {
            cover(7);
            check(!ok, "a conforming value was rejected");
            let k = e.kind();
            check(k == ErrorKind::SchemaNonConformance || k == ErrorKind::ApiUsage, "wrong error kind");
            check(!cs.is_finished(), "finished although a value was rejected");
        }
    }
}
fn spoil(v: &mut binschema::value::Value) {
    use binschema::value::*;
    match v {
        Value::Tuple(xs) | Value::FixedLenSeq(xs) | Value::VarLenSeq(xs) if !xs.is_empty() => {
            let n = xs.len();
            match choose(5) {
                0 => {
                    xs.pop();
                }
                1 => xs.push(Value::Unit),
                2 => {
                    let x = xs[n - 1].clone();
                    xs.push(x);
                }
                3 => xs[n / 2] = Value::Str(String::new()),
                _ => spoil(&mut xs[0]),
            }
        }
        Value::Struct(xs) if !xs.is_empty() => {
            let n = xs.len();
            match choose(5) {
                0 => {
                    xs.pop();
                }
                1 => {
                    let x = xs[n - 1].clone();
                    xs.push(x);
                }
                2 => xs[n - 1].name.push('x'),
                3 => xs.swap(n / 2, n - 1),
                _ => spoil(&mut xs[n - 1].value),
            }
        }
        Value::Enum(x) => match choose(4) {
            0 => x.variant_ord += 1,
            1 => x.variant_ord = u64() as usize,
            2 => {
                x.variant_name.pop();
            }
            _ => spoil(&mut x.value),
        },
        Value::Option(Some(x)) => spoil(x),
        _ => *v = Value::Option(None),
    }
}
