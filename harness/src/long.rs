//! Schemas and values beyond the small ones the other generators make: long,
//! wide or deep, with a few parts unconstrained.
use crate::api::*;
use crate::machine::*;
use crate::spec::*;
use binschema::value::*;
use binschema::*;

/// Distinct names of three letters.
pub fn format_name(i: usize) -> String {
    let l = |k: usize| (b'a' + (k % 26) as u8) as char;
    [l(i / 676), l(i / 26), l(i)].iter().collect()
}
fn num(x: u8) -> Value {
    Value::Scalar(ScalarValue::U8(x))
}
/// A name of `n` bytes, ending in `c`.
pub fn long_name(n: usize, c: u8) -> String {
    let mut s = vec![b'n'; n];
    if n > 0 {
        s[n - 1] = c;
    }
    unsafe { String::from_utf8_unchecked(s) }
}

pub const LONGS: usize = 12;

/// A schema and a value of it.  `wild`: how many of its parts are
/// unconstrained (0: none, 1: a few).
pub fn long(kind: usize, n: usize, wild: usize) -> (Schema, Value) {
    let part = |i: usize, sym: bool| if sym && wild > 0 { u8() } else { i as u8 };
    match kind {
        0 | 1 => {
            let mut xs = Vec::with_capacity(n);
            for i in 0..n {
                xs.push(num(part(i, i < 2 || i + 2 >= n || i == 255 || i == 256)));
            }
            if kind == 0 {
                (schema!(seq(varlen)(u8)), Value::VarLenSeq(xs))
            } else {
                (schema!(seq(n)(u8)), Value::FixedLenSeq(xs))
            }
        }
        2 => {
            let mut b = vec![b'x'; n];
            if n > 0 {
                let c = part(65, true);
                assume(c < 0x80);
                b[n - 1] = c;
            }
            (schema!(str), Value::Str(String::from_utf8(b).unwrap()))
        }
        3 => {
            let mut b = vec![7u8; n];
            if n > 0 {
                b[n - 1] = part(200, true);
                b[0] = part(100, true);
            }
            (schema!(bytes), Value::Bytes(b))
        }
        4 => {
            let mut ss = Vec::new();
            let mut xs = Vec::new();
            for i in 0..n {
                ss.push(schema!(u8));
                xs.push(num(part(i, i % 64 == 0)));
            }
            (Schema::Tuple(ss), Value::Tuple(xs))
        }
        6 => {
            let mut ss = Vec::with_capacity(n);
            let mut xs = Vec::with_capacity(n);
            for i in 0..n {
                let name = format_name(i);
                ss.push(StructSchemaField { name: name.clone(), inner: schema!(u8) });
                xs.push(StructValueField { name, value: num(part(i, i % 64 == 0)) });
            }
            (Schema::Struct(ss), Value::Struct(xs))
        }
        7 => {
            // an enum of many variants, each of another type than its neighbours
            let mut vs = Vec::with_capacity(n);
            for i in 0..n {
                let inner = match i % 3 {
                    0 => schema!(unit),
                    1 => schema!(u16),
                    _ => schema!(tuple { (u8), (bool) }),
                };
                vs.push(EnumSchemaVariant { name: format_name(i), inner });
            }
            let i = match choose(6) {
                0 => 0,
                1 => 1,
                2 => n / 2,
                3 => n - 3,
                4 => n - 2,
                _ => n - 1,
            };
            let v = match i % 3 {
                0 => Value::Unit,
                1 => Value::Scalar(ScalarValue::U16(part(i, true) as u16 * 257)),
                _ => Value::Tuple(vec![num(part(i, true)), Value::Scalar(ScalarValue::Bool(part(0, true) & 1 == 1))]),
            };
            let v = Value::Enum(EnumValue { variant_ord: i, variant_name: format_name(i), value: Box::new(v) });
            (Schema::Enum(vs), v)
        }
        8 => {
            // deep, without recursion
            let mut s = schema!(u8);
            let mut v = num(part(n, true));
            for i in 0..n {
                if i % 2 == 0 {
                    s = Schema::Option(Box::new(s));
                    v = Value::Option(Some(Box::new(v)));
                } else {
                    s = Schema::Tuple(vec![s, schema!(bool)]);
                    v = Value::Tuple(vec![v, Value::Scalar(ScalarValue::Bool(i % 4 == 1))]);
                }
            }
            (s, v)
        }
        9 => {
            // recursion across many levels
            let mut s = Schema::Recurse(n);
            let mut v = Value::Unit;
            for r in 0..2 {
                for _ in 1..n {
                    v = Value::Tuple(vec![v]);
                }
                v = Value::Option(if r == 0 { None } else { Some(Box::new(v)) });
            }
            for _ in 1..n {
                s = Schema::Tuple(vec![s]);
            }
            (Schema::Option(Box::new(s)), v)
        }
        10 => {
            // many elements of mixed content
            let s = schema!(seq(varlen)(struct {
                (a: u8),
                (b: option(seq(varlen)(u8))),
                (c: enum { X(unit), Y(tuple { (str), (seq(2)(bytes)) }), Z(recurse(2)) })
            }));
            let mut xs = Vec::with_capacity(n);
            for i in 0..n {
                xs.push(mixed(i, if i == 0 || i + 1 == n || i == n / 2 { part(i, true) } else { i as u8 }));
            }
            (s, Value::VarLenSeq(xs))
        }
        11 => {
            // names of n bytes that differ in the last one
            let (a, b) = (long_name(n, b'a'), long_name(n, b'b'));
            let s = Schema::Struct(vec![
                (a.clone(), schema!(u8)).into(),
                (
                    b.clone(),
                    Schema::Enum(vec![(a.clone(), schema!(unit)).into(), (b.clone(), schema!(option(u8))).into()]),
                )
                    .into(),
            ]);
            let o = choose(2);
            let inner = if o == 0 { Value::Unit } else { Value::Option(Some(Box::new(num(part(3, true))))) };
            let name = if o == 0 { a.clone() } else { b.clone() };
            let v = Value::Struct(vec![
                StructValueField { name: a, value: num(part(2, true)) },
                StructValueField {
                    name: b,
                    value: Value::Enum(EnumValue { variant_ord: o, variant_name: name, value: Box::new(inner) }),
                },
            ]);
            (s, v)
        }
        _ => {
            // deep: a linked list
            let mut v = Value::Option(None);
            for i in 0..n {
                v = Value::Option(Some(Box::new(Value::Tuple(vec![num(part(i, i % 32 == 0)), v]))));
            }
            (schema!(option(tuple { (u8), (recurse(2)) })), v)
        }
    }
}
fn mixed(i: usize, x: u8) -> Value {
    let b = match i % 3 {
        0 => Value::Option(None),
        k => {
            let mut v = Vec::new();
            for j in 0..k - 1 {
                v.push(num(j as u8));
            }
            Value::Option(Some(Box::new(Value::VarLenSeq(v))))
        }
    };
    let (o, name, v) = match i % 4 {
        0 | 2 => (0, "X", Value::Unit),
        1 => (
            1,
            "Y",
            Value::Tuple(vec![
                Value::Str(format_name(i)),
                Value::FixedLenSeq(vec![Value::Bytes(vec![x]), Value::Bytes(Vec::new())]),
            ]),
        ),
        _ => (2, "Z", mixed(i / 4, i as u8)),
    };
    let c = Value::Enum(EnumValue { variant_ord: o, variant_name: name.to_string(), value: Box::new(v) });
    Value::Struct(vec![
        StructValueField { name: "a".to_string(), value: num(x) },
        StructValueField { name: "b".to_string(), value: b },
        StructValueField { name: "c".to_string(), value: c },
    ])
}

/// The calls that encode `v`.
pub fn script(v: &Value, out: &mut Vec<Op>) {
    match v {
        &Value::Scalar(x) => {
            let (k, _) = scalar_bits(x);
            out.push(Op::Scalar(SCALARS[k as usize], x))
        }
        Value::Str(s) => out.push(Op::Str(s.clone().into_bytes())),
        Value::Bytes(s) => out.push(Op::Bytes(s.clone())),
        Value::Unit => out.push(Op::Unit),
        Value::Option(None) => out.push(Op::None),
        Value::Option(Some(x)) => {
            out.push(Op::Some);
            script(x, out);
        }
        Value::FixedLenSeq(xs) => {
            out.push(Op::FixedSeq(xs.len()));
            elems(xs, out);
        }
        Value::VarLenSeq(xs) => {
            out.push(Op::VarSeq(xs.len()));
            elems(xs, out);
        }
        Value::Tuple(xs) => {
            out.push(Op::Tuple);
            for x in xs {
                out.push(Op::TElem);
                script(x, out);
            }
            out.push(Op::EndTuple);
        }
        Value::Struct(xs) => {
            out.push(Op::Struct);
            for x in xs {
                out.push(Op::Field(x.name.clone().into_bytes()));
                script(&x.value, out);
            }
            out.push(Op::EndStruct);
        }
        Value::Enum(x) => {
            out.push(Op::Enum(x.variant_ord, x.variant_name.clone().into_bytes()));
            script(&x.value, out);
        }
    }
}
fn elems(xs: &[Value], out: &mut Vec<Op>) {
    for x in xs {
        out.push(Op::Elem);
        script(x, out);
    }
    out.push(Op::EndSeq);
}
/// Some places in a sequence of `n`: the ends, the middle and around 256.
pub fn places(n: usize) -> Vec<usize> {
    let mut v = Vec::new();
    for p in [0, 1, n / 2, 255, 256, 257, n.saturating_sub(2), n.saturating_sub(1)] {
        if p < n && !v.contains(&p) {
            v.push(p);
        }
    }
    v
}
/// A chain of `n` constructors that take no bytes, ending in an option of a
/// recurse of any level `k`.
pub fn chain(n: usize, k: usize) -> Schema {
    let mut s = Schema::Option(Box::new(Schema::Recurse(k)));
    for i in 0..n {
        s = match i % 4 {
            0 => Schema::Tuple(vec![schema!(unit), s]),
            1 => Schema::Struct(vec![StructSchemaField { name: "a".to_string(), inner: s }]),
            2 => Schema::Enum(vec![EnumSchemaVariant { name: "A".to_string(), inner: s }]),
            _ => Schema::Seq(SeqSchema { len: Some(1), inner: Box::new(s) }),
        };
    }
    s
}
