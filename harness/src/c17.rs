//! C17: schemas are themselves messages of the documented meta-schema.
use crate::api::*;
use crate::gen::*;
use crate::shapes::*;
use crate::spec::*;
use binschema::value::*;
use binschema::*;
use serde::{Deserialize, Serialize};

const NAMES: [&str; 14] =
    ["U8", "U16", "U32", "U64", "U128", "I8", "I16", "I32", "I64", "I128", "F32", "F64", "Char", "Bool"];

/// The meta-schema as FORMAT.txt draws it.
fn meta() -> Schema {
    let named = || {
        Schema::Seq(SeqSchema {
            len: None,
            inner: Box::new(Schema::Struct(vec![
                ("name", Schema::Str).into(),
                ("inner", Schema::Recurse(3)).into(),
            ])),
        })
    };
    let mut scalars = Vec::new();
    for n in NAMES {
        scalars.push(EnumSchemaVariant { name: n.to_string(), inner: Schema::Unit });
    }
    Schema::Enum(vec![
        ("Scalar", Schema::Enum(scalars)).into(),
        ("Str", Schema::Unit).into(),
        ("Bytes", Schema::Unit).into(),
        ("Unit", Schema::Unit).into(),
        ("Option", Schema::Recurse(1)).into(),
        (
            "Seq",
            Schema::Struct(vec![
                ("len", Schema::Option(Box::new(Schema::Scalar(ScalarType::U64)))).into(),
                ("inner", Schema::Recurse(2)).into(),
            ]),
        )
            .into(),
        ("Tuple", Schema::Seq(SeqSchema { len: None, inner: Box::new(Schema::Recurse(2)) })).into(),
        ("Struct", named()).into(),
        ("Enum", named()).into(),
        ("Recurse", Schema::Scalar(ScalarType::U64)).into(),
    ])
}
fn enm(ord: usize, name: &str, value: Value) -> Value {
    Value::Enum(EnumValue { variant_ord: ord, variant_name: name.to_string(), value: Box::new(value) })
}
fn field(name: &str, value: Value) -> StructValueField {
    StructValueField { name: name.to_string(), value }
}
fn num(n: usize) -> Value {
    Value::Scalar(ScalarValue::U64(n as u64))
}
/// The value a schema is.
fn to_value(s: &Schema) -> Value {
    match s {
        Schema::Scalar(st) => {
            let mut o = 0;
            while SCALARS[o] != *st {
                o += 1;
            }
            enm(0, "Scalar", enm(o, NAMES[o], Value::Unit))
        }
        Schema::Str => enm(1, "Str", Value::Unit),
        Schema::Bytes => enm(2, "Bytes", Value::Unit),
        Schema::Unit => enm(3, "Unit", Value::Unit),
        Schema::Option(i) => enm(4, "Option", to_value(i)),
        Schema::Seq(q) => {
            let len = Value::Option(q.len.map(|n| Box::new(num(n))));
            enm(5, "Seq", Value::Struct(vec![field("len", len), field("inner", to_value(&q.inner))]))
        }
        Schema::Tuple(v) => {
            let mut xs = Vec::new();
            for i in v {
                xs.push(to_value(i));
            }
            enm(6, "Tuple", Value::VarLenSeq(xs))
        }
        Schema::Struct(v) => {
            let mut xs = Vec::new();
            for f in v {
                xs.push(pair(&f.name, &f.inner));
            }
            enm(7, "Struct", Value::VarLenSeq(xs))
        }
        Schema::Enum(v) => {
            let mut xs = Vec::new();
            for f in v {
                xs.push(pair(&f.name, &f.inner));
            }
            enm(8, "Enum", Value::VarLenSeq(xs))
        }
        Schema::Recurse(n) => enm(9, "Recurse", num(*n)),
    }
}
fn pair(name: &str, inner: &Schema) -> Value {
    Value::Struct(vec![field("name", Value::Str(name.to_string())), field("inner", to_value(inner))])
}
/// Any schema (legal or not), nested at most `f` deep.
fn any_schema(f: usize, wide: usize) -> Schema {
    match choose(if f == 0 { 5 } else { 10 }) {
        0 => Schema::Scalar(SCALARS[choose(14)]),
        1 => Schema::Str,
        2 => Schema::Bytes,
        3 => Schema::Unit,
        4 => Schema::Recurse(u64() as usize),
        5 => Schema::Option(Box::new(any_schema(f - 1, wide))),
        6 => {
            let len = if choose(2) == 0 { None } else { Some(u64() as usize) };
            Schema::Seq(SeqSchema { len, inner: Box::new(any_schema(f - 1, wide)) })
        }
        7 => {
            let mut v = Vec::new();
            for _ in 0..choose(wide + 1) {
                v.push(any_schema(f - 1, wide));
            }
            Schema::Tuple(v)
        }
        8 => {
            let mut v = Vec::new();
            for _ in 0..choose(wide + 1) {
                v.push(StructSchemaField { name: text_of(choose(3)), inner: any_schema(f - 1, wide) });
            }
            Schema::Struct(v)
        }
        _ => {
            let mut v = Vec::new();
            for _ in 0..choose(wide + 1) {
                v.push(EnumSchemaVariant { name: text_of(choose(3)), inner: any_schema(f - 1, wide) });
            }
            Schema::Enum(v)
        }
    }
}
fn round(s: &Schema) {
    let m = Schema::schema(RecurseStack::default());
    let w = meta();
    let t = Tree::new(&w);
    let v = to_value(s);
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(&m, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut out);
    check(s.serialize(&mut e).is_ok(), "serializing a schema failed");
    check(cs.is_finished(), "encoder not finished");
    observe_bytes(&out);
    let end = expect_value(&t, 0, &v, &out, 0);
    check(end == out.len(), "encoding longer than the format prescribes");
    out.push(u8());
    let mut rd = &out[..];
    let mut cs = CoderState::new(&m, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    match Schema::deserialize(&mut d) {
        Ok(z) => same(&to_value(&z), &v),
        Err(_) => check(false, "deserializing a serialized schema failed"),
    }
    check(cs.is_finished(), "decoder not finished");
    check(rd.len() == 1, "decoder consumed a different number of bytes than encoded");
    // as seen by someone who only knows the meta-schema
    let mut rd = &out[..];
    let mut cs = CoderState::new(&w, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    match Value::decode_from(&mut d) {
        Ok(z) => same(&z, &v),
        Err(_) => check(false, "decoding a serialized schema failed"),
    }
    cover(1);
}
/// params: depth, width
pub fn c17_round() {
    round(&any_schema(param(0), param(1)));
}
/// params: shape
pub fn c17_shape() {
    round(&shape(param(0)));
}
pub fn c17_meta() {
    let m = Schema::schema(RecurseStack::default());
    check(m == meta(), "not the documented meta-schema");
    round(&m);
}
/// params: input length
pub fn c17_dec() {
    let input = vec(param(0));
    let m = Schema::schema(RecurseStack::default());
    let w = meta();
    let t = Tree::new(&w);
    let mut at = 0;
    let want = ref_value(&t, 0, &input, &mut at);
    let mut rd = &input[..];
    let mut cs = CoderState::new(&m, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    match (Schema::deserialize(&mut d), want) {
        (Ok(s), Ok(v)) => {
            let x = to_value(&s);
            observe_value(&x);
            same(&x, &v);
            check(cs.is_finished(), "decoder not finished");
            check(rd.len() == input.len() - at, "decoder consumed a wrong number of bytes");
            cover(2);
        }
        (Err(e), Err(b)) => {
            observe(1000 + kind_code(e.kind()));
            crate::drive::check_broken_dec(&e, b, &mut cs, &mut rd);
            cover(3);
        }
        (Ok(_), Err(_)) => check(false, "bytes that are not a valid schema were accepted"),
        (Err(_), Ok(_)) => check(false, "a valid schema was rejected"),
    }
}
/// Large schemas.  params: kind (see long.rs), size
pub fn c17_long() {
    let (s, _) = crate::long::long(param(0), param(1), 1);
    round(&s);
}
/// Many kinds side by side: `n` fields, each a different schema, and the same
/// as variants and as a tuple.  params: number
pub fn c17_mix() {
    let n = param(0);
    let mut fields = Vec::new();
    let mut variants = Vec::new();
    let mut elems = Vec::new();
    for i in 0..n {
        let inner = || match i % 9 {
            0 => Schema::Scalar(SCALARS[i % 14]),
            1 => Schema::Str,
            2 => Schema::Bytes,
            3 => Schema::Unit,
            4 => schema!(option(u8)),
            5 => Schema::Seq(SeqSchema { len: Some(i * i), inner: Box::new(Schema::Recurse(i)) }),
            6 => Schema::Tuple(vec![Schema::Unit; i % 5]),
            7 => Schema::Struct(vec![]),
            _ => Schema::Enum(vec![("x", Schema::Str).into()]),
        };
        let name = crate::long::format_name(i);
        fields.push(StructSchemaField { name: name.clone(), inner: inner() });
        variants.push(EnumSchemaVariant { name, inner: inner() });
        elems.push(inner());
    }
    round(&match choose(3) {
        0 => Schema::Struct(fields),
        1 => Schema::Enum(variants),
        _ => Schema::Tuple(elems),
    });
}
