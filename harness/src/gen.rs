//! Generators: schemas and values, structure by choice, contents symbolic.
use crate::api::*;
use crate::spec::*;
use binschema::value::*;
use binschema::*;

pub fn text_of(n: usize) -> String {
    let v = vec(n);
    assume(utf8_ok(&v));
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn ascii_of(n: usize) -> String {
    let v = vec(n);
    for &b in &v {
        assume(b < 0x80);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// Any value of node `id`, with at most `*fuel` nodes; seqs, strs and bytes up
/// to `wide` long.
pub fn any_value(t: &Tree, id: usize, fuel: &mut usize, wide: usize) -> Value {
    let id = match t.resolve(id) {
        Ok(id) => id,
        Err(_) => {
            assume(false);
            return Value::Unit;
        }
    };
    assume(*fuel > 0);
    *fuel -= 1;
    match t.nodes[id].s {
        &Schema::Scalar(st) => Value::Scalar(any_scalar(st)),
        Schema::Str => Value::Str(text_of(choose(wide + 1))),
        Schema::Bytes => Value::Bytes(vec(choose(wide + 1))),
        Schema::Unit => Value::Unit,
        Schema::Option(_) => {
            if choose(2) == 0 {
                Value::Option(None)
            } else {
                Value::Option(Some(Box::new(any_value(t, t.child(id, 0), fuel, wide))))
            }
        }
        &Schema::Seq(SeqSchema { len: Some(len), .. }) => {
            let mut v = Vec::with_capacity(len);
            for _ in 0..len {
                v.push(any_value(t, t.child(id, 0), fuel, wide));
            }
            Value::FixedLenSeq(v)
        }
        Schema::Seq(_) => {
            let len = choose(wide + 1);
            let mut v = Vec::with_capacity(len);
            for _ in 0..len {
                v.push(any_value(t, t.child(id, 0), fuel, wide));
            }
            Value::VarLenSeq(v)
        }
        Schema::Tuple(ss) => {
            let mut v = Vec::with_capacity(ss.len());
            for i in 0..ss.len() {
                v.push(any_value(t, t.child(id, i), fuel, wide));
            }
            Value::Tuple(v)
        }
        Schema::Struct(ss) => {
            let mut v = Vec::with_capacity(ss.len());
            for i in 0..ss.len() {
                let value = any_value(t, t.child(id, i), fuel, wide);
                v.push(StructValueField { name: ss[i].name.clone(), value });
            }
            Value::Struct(v)
        }
        Schema::Enum(ss) => {
            assume(!ss.is_empty());
            let o = choose(ss.len());
            Value::Enum(EnumValue {
                variant_ord: o,
                variant_name: ss[o].name.clone(),
                value: Box::new(any_value(t, t.child(id, o), fuel, wide)),
            })
        }
        Schema::Recurse(_) => Value::Unit,
    }
}

/// A value of any kind whatsoever, nested at most `depth` deep.
pub fn wild_value(depth: usize) -> Value {
    let n = if depth == 0 { 4 } else { 10 };
    match choose(n) {
        0 => Value::Unit,
        1 => {
            let st = [ScalarType::U8, ScalarType::Bool, ScalarType::U32][choose(3)];
            Value::Scalar(any_scalar(st))
        }
        2 => Value::Str(ascii_of(1)),
        3 => Value::Bytes(vec(1)),
        4 => {
            if choose(2) == 0 {
                Value::Option(None)
            } else {
                Value::Option(Some(Box::new(wild_value(depth - 1))))
            }
        }
        5 => Value::FixedLenSeq(wild_values(depth)),
        6 => Value::VarLenSeq(wild_values(depth)),
        7 => Value::Tuple(wild_values(depth)),
        8 => {
            let n = choose(3);
            let mut v = Vec::new();
            for _ in 0..n {
                v.push(StructValueField { name: ascii_of(1), value: wild_value(depth - 1) });
            }
            Value::Struct(v)
        }
        _ => Value::Enum(EnumValue {
            variant_ord: u64() as usize,
            variant_name: ascii_of(1),
            value: Box::new(wild_value(depth - 1)),
        }),
    }
}
fn wild_values(depth: usize) -> Vec<Value> {
    let n = choose(3);
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(wild_value(depth - 1));
    }
    v
}

/// Is `v` a value of node `id`?  Err: coding it runs into illegal recursion.
pub fn conforms(t: &Tree, id: usize, v: &Value) -> R<bool> {
    let id = t.resolve(id)?;
    Ok(match (t.nodes[id].s, v) {
        (&Schema::Scalar(st), &Value::Scalar(x)) => {
            let (k, _) = scalar_bits(x);
            SCALARS[k as usize] == st
        }
        (Schema::Str, Value::Str(_)) => true,
        (Schema::Bytes, Value::Bytes(_)) => true,
        (Schema::Unit, Value::Unit) => true,
        (Schema::Option(_), Value::Option(None)) => true,
        (Schema::Option(_), Value::Option(Some(x))) => conforms(t, t.child(id, 0), x)?,
        (&Schema::Seq(SeqSchema { len: Some(len), .. }), Value::FixedLenSeq(xs)) => {
            if xs.len() != len {
                return Ok(false);
            }
            for x in xs {
                if !conforms(t, t.child(id, 0), x)? {
                    return Ok(false);
                }
            }
            true
        }
        (&Schema::Seq(SeqSchema { len: None, .. }), Value::VarLenSeq(xs)) => {
            for x in xs {
                if !conforms(t, t.child(id, 0), x)? {
                    return Ok(false);
                }
            }
            true
        }
        (Schema::Tuple(ss), Value::Tuple(xs)) => {
            for i in 0..xs.len() {
                if i >= ss.len() || !conforms(t, t.child(id, i), &xs[i])? {
                    return Ok(false);
                }
            }
            xs.len() == ss.len()
        }
        (Schema::Struct(ss), Value::Struct(xs)) => {
            for i in 0..xs.len() {
                if i >= ss.len() || xs[i].name != ss[i].name || !conforms(t, t.child(id, i), &xs[i].value)? {
                    return Ok(false);
                }
            }
            xs.len() == ss.len()
        }
        (Schema::Enum(ss), Value::Enum(x)) => {
            if x.variant_ord >= ss.len() {
                return Ok(false);
            }
            let o = concretize(x.variant_ord);
            x.variant_name == ss[o].name && conforms(t, t.child(id, o), &x.value)?
        }
        _ => false,
    })
}

/// Encode `v` under `schema`; on success compare with the reference encoding.
pub fn encode_value(schema: &Schema, t: &Tree, v: &Value) -> Vec<u8> {
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(schema, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut out);
    check(v.encode_to(&mut e).is_ok(), "encoding a conforming value failed");
    check(cs.is_finished(), "encoder not finished");
    let end = expect_value(t, 0, v, &out, 0);
    check(end == out.len(), "encoding longer than the format prescribes");
    out
}

/// Decode `input` as a Value; compare result, errors and consumption with the
/// reference.
pub fn decode_value(schema: &Schema, t: &Tree, input: &[u8]) -> R<(Value, usize)> {
    let mut rd = input;
    let mut cs = CoderState::new(schema, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    let mut at = 0;
    let want = ref_value(t, 0, input, &mut at);
    let r = Value::decode_from(&mut d);
    match (r, want) {
        (Ok(v), Ok(w)) => {
            observe_value(&v);
            same(&v, &w);
            check(cs.is_finished(), "decoder not finished");
            check(rd.len() == input.len() - at, "decoder consumed a wrong number of bytes");
            cover(1);
            Ok((v, at))
        }
        (Err(e), Err(b)) => {
            observe(1000 + kind_code(e.kind()));
            check(e.kind() == b.kind(), "decoding error of the wrong kind");
            check(!cs.is_finished(), "decoder finished after an error");
            match b {
                Bad::Io => cover(2),
                Bad::Malformed => cover(3),
                Bad::Platform => cover(4),
                Bad::Illegal => cover(5),
            }
            // (at an illegal root nothing has been coded yet)
            if b != Bad::Illegal {
                let n = rd.len();
                let mut d = Decoder::new(&mut cs, &mut rd);
                crate::drive::check_api_usage(d.decode_unit());
                crate::drive::check_api_usage(d.begin_option());
                check(rd.len() == n, "a broken decoder consumed input");
            }
            Err(b)
        }
        (Ok(_), Err(_)) => {
            check(false, "decoder accepted bytes that are not a valid message");
            Err(Bad::Malformed)
        }
        (Err(_), Ok(_)) => {
            check(false, "decoder rejected a valid message");
            Err(Bad::Malformed)
        }
    }
}

/// A chain of constructors ending in a recurse of any level.
pub fn nest(depth: usize) -> Schema {
    if depth == 0 {
        return Schema::Recurse(u64() as usize);
    }
    match choose(6) {
        0 => schema!(option(%nest(depth - 1))),
        1 => schema!(seq(varlen)(%nest(depth - 1))),
        2 => schema!(seq(1)(%nest(depth - 1))),
        3 => schema!(tuple { (u8), (%nest(depth - 1)) }),
        4 => schema!(struct { (a: %nest(depth - 1)) }),
        _ => schema!(enum { A(unit), B(%nest(depth - 1)) }),
    }
}

/// Trees with several recurses, each of any level.
pub const FORESTS: usize = 6;
pub fn forest(i: usize) -> Schema {
    let r = || Schema::Recurse(u64() as usize);
    match i {
        0 => schema!(struct { (a: option(enum { X(%r()), Y(tuple { (u8), (%r()) }) })), (b: seq(varlen)(u8)) }),
        1 => schema!(enum { X(struct { (a: option(%r())), (b: seq(varlen)(%r())) }), Y(unit) }),
        2 => schema!(tuple { (option(seq(varlen)(%r()))), (option(%r())) }),
        3 => schema!(seq(varlen)(enum { A(option(option(%r()))), B(u8), C(%r()) })),
        4 => schema!(option(struct { (x: u8), (y: enum { P(%r()), Q(seq(1)(%r())), Z(unit) }) })),
        _ => schema!(option(tuple { (option(%r())), (option(option(%r()))) })),
    }
}

pub fn all_legal(t: &Tree) -> bool {
    let mut i = 0;
    while i < t.nodes.len() {
        if t.resolve(i).is_err() {
            return false;
        }
        i += 1;
    }
    true
}

/// Every node has a finite value (or is reported as illegal).  Otherwise
/// there is nothing to code, and descending never ends.
pub fn all_inhabited(t: &Tree) -> bool {
    let n = t.nodes.len();
    let mut ok = vec![false; n];
    let mut round = 0;
    while round <= n {
        let mut i = 0;
        while i < n {
            let v = match t.nodes[i].s {
                Schema::Scalar(_) | Schema::Str | Schema::Bytes | Schema::Unit | Schema::Option(_) => true,
                &Schema::Seq(SeqSchema { len, .. }) => match len {
                    None | Some(0) => true,
                    Some(_) => ok[t.child(i, 0)],
                },
                Schema::Tuple(_) | Schema::Struct(_) => {
                    let mut all = true;
                    let mut k = 0;
                    while k < t.nodes[i].n {
                        all &= ok[t.child(i, k)];
                        k += 1;
                    }
                    all
                }
                Schema::Enum(_) => {
                    let mut any = t.nodes[i].n == 0;
                    let mut k = 0;
                    while k < t.nodes[i].n {
                        any |= ok[t.child(i, k)];
                        k += 1;
                    }
                    any
                }
                Schema::Recurse(_) => match t.resolve(i) {
                    Ok(r) => ok[r],
                    Err(_) => true,
                },
            };
            ok[i] = v;
            i += 1;
        }
        round += 1;
    }
    let mut i = 0;
    while i < n {
        if !ok[i] {
            return false;
        }
        i += 1;
    }
    true
}
