//! C11: illegal recursion is reported, never followed.
use crate::api::*;
use crate::drive::*;
use crate::gen::*;
use crate::long::*;
use crate::machine::*;
use crate::spec::*;
use binschema::error::ErrorKind;
use binschema::value::*;
use binschema::*;
use serde::Deserialize;

/// params: depth, calls, arbitrary calls
pub fn c11_enc() {
    run_enc(&nest(param(0)), Plan::new(param(1), param(2), true));
}
/// params: depth, calls, arbitrary calls, input length
pub fn c11_dec() {
    let s = nest(param(0));
    let input = vec(param(3));
    run_dec(&s, &input, Plan::new(param(1), param(2), true));
}
/// Whole values.  params: depth, input length
pub fn c11_value() {
    let s = nest(param(0));
    let input = vec(param(1));
    let t = Tree::new(&s);
    let ok = all_inhabited(&t);
    assume(ok);
    let _ = decode_value(&s, &t, &input);
    if t.resolve(0).is_ok() {
        // the same through serde
        let mut at = 0;
        let want = ref_value(&t, 0, &input, &mut at);
        let mut rd = &input[..];
        let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
        let mut d = Decoder::new(&mut cs, &mut rd);
        match (serde::de::IgnoredAny::deserialize(&mut d), want) {
            (Ok(_), Ok(_)) => check(cs.is_finished(), "not finished"),
            (Err(e), Err(b)) => check(e.kind() == b.kind(), "wrong error kind"),
            _ => check(false, "deserializing disagrees with the reference"),
        }
    }
}
/// Values that use the recursion.  params: depth
pub fn c11_value_enc() {
    let s = nest(param(0));
    let t = Tree::new(&s);
    let v = through(&s, 5);
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut out);
    let r = v.encode_to(&mut e);
    match (r, conforms(&t, 0, &v)) {
        (Ok(()), Ok(ok)) => check(ok && cs.is_finished(), "a value that does not conform was accepted"),
        (Err(e), Ok(ok)) => {
            check(!ok, "a conforming value was rejected");
            check(e.kind() == ErrorKind::SchemaNonConformance, "wrong error kind");
        }
        (Err(e), Err(_)) => {
            cover(6);
            check(e.kind() == ErrorKind::IllegalSchema, "wrong error kind");
            check(!cs.is_finished(), "finished after illegal recursion");
            let mut e = Encoder::new(&mut cs, &mut out);
            check_api_usage(e.encode_unit());
        }
        (Ok(()), Err(_)) => check(false, "illegal recursion was accepted"),
    }
}
/// A value that goes down the chain and `n` levels beyond, guessing.
fn through(s: &Schema, n: usize) -> Value {
    if n == 0 {
        return Value::Unit;
    }
    match s {
        Schema::Option(i) => Value::Option(Some(Box::new(through(i, n - 1)))),
        Schema::Seq(q) => {
            let v = vec![through(&q.inner, n - 1)];
            if q.len.is_some() {
                Value::FixedLenSeq(v)
            } else {
                Value::VarLenSeq(v)
            }
        }
        Schema::Tuple(ss) => Value::Tuple(vec![Value::Scalar(ScalarValue::U8(1)), through(&ss[1], n - 1)]),
        Schema::Struct(ss) => {
            Value::Struct(vec![StructValueField { name: "a".to_string(), value: through(&ss[0].inner, n - 1) }])
        }
        Schema::Enum(ss) => Value::Enum(EnumValue {
            variant_ord: 1,
            variant_name: "B".to_string(),
            value: Box::new(through(&ss[1].inner, n - 1)),
        }),
        _ => match choose(4) {
            0 => Value::Unit,
            1 => Value::Option(None),
            2 => Value::VarLenSeq(Vec::new()),
            _ => Value::Enum(EnumValue { variant_ord: 0, variant_name: "A".to_string(), value: Box::new(Value::Unit) }),
        },
    }
}
/// The root itself.  params: input length
pub fn c11_root() {
    let s = Schema::Recurse(u64() as usize);
    let input = vec(param(0));
    let mut rd = &input[..];
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    check(!cs.is_finished(), "finished at once");
    let mut d = Decoder::new(&mut cs, &mut rd);
    let r = match choose(3) {
        0 => Value::decode_from(&mut d).map(|_| ()),
        1 => serde::de::IgnoredAny::deserialize(&mut d).map(|_| ()),
        _ => u8::deserialize(&mut d).map(|_| ()),
    };
    match r {
        Ok(()) => check(false, "recursion at the root was accepted"),
        Err(e) => check(e.kind() == ErrorKind::IllegalSchema, "wrong error kind"),
    }
    check(rd.len() == input.len(), "bytes consumed");
    check(!cs.is_finished(), "finished");
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut out);
    match Value::Unit.encode_to(&mut e) {
        Ok(()) => check(false, "recursion at the root was accepted"),
        Err(e) => check(e.kind() == ErrorKind::IllegalSchema, "wrong error kind"),
    }
    check(out.is_empty(), "bytes written");
}

/// Recursion beyond many levels.  params: levels, which
pub fn c11_long() {
    let n = param(0);
    let k = match param(1) {
        0 => n + 2,
        1 => n + 3,
        2 => 256 * (n + 2),
        3 => usize::MAX,
        _ => 0,
    };
    let s = chain(n, k);
    let t = Tree::new(&s);
    match choose(3) {
        0 => run_enc(&s, Plan::new(3 * n + 9, 0, true)),
        1 => {
            let input = vec(1);
            run_dec(&s, &input, Plan::new(4 * n + 9, 0, true))
        }
        _ => {
            let input = vec(1);
            let _ = decode_value(&s, &t, &input);
        }
    }
}
