//! C32: values, schemas, scalar types and error kinds compare by content.
use crate::api::*;
use crate::gen::ascii_of;
use crate::spec::*;
use binschema::error::ErrorKind;
use binschema::value::*;
use binschema::*;
use std::cmp::Ordering::{self, *};
use std::hash::{Hash, Hasher};

/// Records all that is fed to it.
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn finish(&self) -> u64 {
        self.0.len() as u64
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn tape<T: Hash>(x: &T) -> Vec<u8> {
    let mut t = Tape(Vec::new());
    x.hash(&mut t);
    t.0
}

/// The laws of a total order with equality and hashing; `e`: are they the same?
fn total<T: Ord + Hash + Clone>(a: &T, b: &T, e: bool) {
    check((a == b) == e && (b == a) == e && (a != b) == !e, "equality is not that of the parts");
    let c = a.cmp(b);
    check((c == Equal) == e, "ordered as equal, but different, or the reverse");
    check(b.cmp(a) == c.reverse(), "order depends on the direction");
    check(a.partial_cmp(b) == Some(c), "two orders");
    check((a < b) == (c == Less) && (a <= b) == (c != Greater), "comparison operators");
    check((a > b) == (c == Greater) && (a >= b) == (c != Less), "comparison operators");
    let d = a.clone();
    check(d == *a && d.cmp(b) == c, "a clone differs");
    if e {
        check(tape(a) == tape(b), "equal, but hashed differently");
        cover(1);
    } else {
        cover(2);
    }
}
/// The laws of a partial order with equality.
fn partial<T: PartialOrd + Clone>(a: &T, b: &T, e: bool, ordered: bool) {
    check((a == b) == e && (b == a) == e && (a != b) == !e, "equality is not that of the parts");
    let c = a.partial_cmp(b);
    check((c == Some(Equal)) == e, "ordered as equal, but different, or the reverse");
    check(b.partial_cmp(a) == c.map(Ordering::reverse), "order depends on the direction");
    if ordered {
        check(c.is_some(), "values without order");
    }
    check((a < b) == (c == Some(Less)) && (a > b) == (c == Some(Greater)), "comparison operators");
    check((a <= b) == (c.is_some() && c != Some(Greater)), "comparison operators");
    check((a >= b) == (c.is_some() && c != Some(Less)), "comparison operators");
    cover(if e { 1 } else { 2 });
}
/// Orders chain: `x`, `y` and `z` order a with b, b with c, a with c.
fn chained(x: Option<Ordering>, y: Option<Ordering>, z: Option<Ordering>) {
    match (x, y) {
        (Some(Less), Some(Less | Equal)) | (Some(Equal), Some(Less)) => check(z == Some(Less), "order does not chain"),
        (Some(Equal), Some(Equal)) => check(z == Some(Equal), "equality does not chain"),
        (Some(Greater), Some(Greater | Equal)) | (Some(Equal), Some(Greater)) => {
            check(z == Some(Greater), "order does not chain")
        }
        _ => (),
    }
    cover(3);
}

// ------------------------------------------------------------------ schemas

fn boxed(s: Schema) -> Box<Schema> {
    Box::new(s)
}
fn leaf() -> Schema {
    match choose(2) {
        0 => Schema::Recurse(u64() as usize),
        _ => Schema::Scalar([ScalarType::U8, ScalarType::Bool][choose(2)]),
    }
}
fn items() -> Vec<(String, Schema)> {
    let mut v = Vec::new();
    for _ in 0..choose(3) {
        v.push((ascii_of(1 + choose(2)), Schema::Recurse(u64() as usize)));
    }
    v
}
/// A schema of kind `k`, of one level.
fn shallow(k: usize) -> Schema {
    match k {
        0 => Schema::Scalar(SCALARS[choose(14)]),
        1 => Schema::Str,
        2 => Schema::Bytes,
        3 => Schema::Unit,
        4 => Schema::Recurse(u64() as usize),
        5 => Schema::Option(boxed(leaf())),
        6 => {
            let len = if choose(2) == 0 { None } else { Some(u64() as usize) };
            Schema::Seq(SeqSchema { len, inner: boxed(leaf()) })
        }
        7 => {
            let n = choose(3);
            Schema::Tuple((0..n).map(|_| leaf()).collect())
        }
        8 => Schema::Struct(items().into_iter().map(|(name, inner)| StructSchemaField { name, inner }).collect()),
        _ => Schema::Enum(items().into_iter().map(|(name, inner)| EnumSchemaVariant { name, inner }).collect()),
    }
}
fn same_items<'a>(
    a: impl Iterator<Item = (&'a String, &'a Schema)>,
    mut b: impl Iterator<Item = (&'a String, &'a Schema)>,
) -> bool {
    for (n, s) in a {
        match b.next() {
            Some((m, t)) => {
                if !same_text(n.as_bytes(), m.as_bytes()) || !alike(s, t) {
                    return false;
                }
            }
            None => return false,
        }
    }
    b.next().is_none()
}
fn same_text(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for i in 0..a.len() {
        if a[i] != b[i] {
            return false;
        }
    }
    true
}
/// Are the parts of two schemas the same?
fn alike(a: &Schema, b: &Schema) -> bool {
    match (a, b) {
        (Schema::Scalar(x), Schema::Scalar(y)) => *x as u8 == *y as u8,
        (Schema::Str, Schema::Str) | (Schema::Bytes, Schema::Bytes) | (Schema::Unit, Schema::Unit) => true,
        (Schema::Recurse(x), Schema::Recurse(y)) => x == y,
        (Schema::Option(x), Schema::Option(y)) => alike(x, y),
        (Schema::Seq(x), Schema::Seq(y)) => {
            let l = match (x.len, y.len) {
                (None, None) => true,
                (Some(m), Some(n)) => m == n,
                _ => false,
            };
            l && alike(&x.inner, &y.inner)
        }
        (Schema::Tuple(x), Schema::Tuple(y)) => {
            if x.len() != y.len() {
                return false;
            }
            for i in 0..x.len() {
                if !alike(&x[i], &y[i]) {
                    return false;
                }
            }
            true
        }
        (Schema::Struct(x), Schema::Struct(y)) => {
            same_items(x.iter().map(|f| (&f.name, &f.inner)), y.iter().map(|f| (&f.name, &f.inner)))
        }
        (Schema::Enum(x), Schema::Enum(y)) => {
            same_items(x.iter().map(|f| (&f.name, &f.inner)), y.iter().map(|f| (&f.name, &f.inner)))
        }
        _ => false,
    }
}
fn wrap(s: Schema, how: usize) -> Schema {
    match how {
        0 => s,
        1 => Schema::Option(boxed(s)),
        2 => Schema::Tuple(vec![s, Schema::Recurse(u64() as usize)]),
        3 => Schema::Struct(vec![("a", Schema::Unit).into(), ("b", s).into()]),
        4 => Schema::Enum(vec![("a", s).into(), ("b", Schema::Recurse(u64() as usize)).into()]),
        _ => Schema::Seq(SeqSchema { len: Some(3), inner: boxed(s) }),
    }
}
/// Pairs of schemas.  params: kind of the first, wrapped how
pub fn c32_schema() {
    let a = shallow(param(0));
    let b = shallow(choose(10));
    let e = alike(&a, &b);
    if param(1) == 0 {
        // the parts alone
        match (&a, &b) {
            (Schema::Seq(x), Schema::Seq(y)) => total(x, y, e),
            (Schema::Struct(x), Schema::Struct(y)) if x.len() == 1 && y.len() == 1 => total(&x[0], &y[0], e),
            (Schema::Enum(x), Schema::Enum(y)) if x.len() == 1 && y.len() == 1 => total(&x[0], &y[0], e),
            _ => (),
        }
        return total(&a, &b, e);
    }
    let (a, b) = (wrap(a, param(1)), wrap(b, param(1)));
    total(&a, &b, alike(&a, &b));
}
/// Three schemas.  params: kinds
pub fn c32_chain() {
    let (a, b, c) = (shallow(param(0)), shallow(param(1)), shallow(param(2)));
    chained(Some(a.cmp(&b)), Some(b.cmp(&c)), Some(a.cmp(&c)));
}
/// Schemas that differ at the end of a chain of `n` nested ones.  params: n
pub fn c32_deep() {
    let n = param(0);
    let (x, y) = (u64() as usize, u64() as usize);
    let make = |l: usize| {
        let mut s = Schema::Recurse(l);
        for i in 0..n {
            s = match i % 5 {
                0 => Schema::Option(boxed(s)),
                1 => Schema::Tuple(vec![s]),
                2 => Schema::Struct(vec![("a", s).into()]),
                3 => Schema::Enum(vec![("a", s).into()]),
                _ => Schema::Seq(SeqSchema { len: None, inner: boxed(s) }),
            }
        }
        s
    };
    total(&make(x), &make(y), x == y);
    // wide ones
    let make = |l: usize, last: bool| {
        let mut v = vec![Schema::Unit; n];
        v.push(Schema::Recurse(l));
        if last {
            v.push(Schema::Unit);
        }
        Schema::Tuple(v)
    };
    total(&make(x, false), &make(y, false), x == y);
    total(&make(x, true), &make(y, false), false);
    let make = |l: usize, k: usize| {
        let mut v: Vec<StructSchemaField> = (0..n).map(|_| ("a", Schema::Unit).into()).collect();
        v[k].inner = Schema::Recurse(l);
        Schema::Struct(v)
    };
    total(&make(x, n - 1), &make(y, n - 1), x == y);
    total(&make(x, n - 1), &make(y, n - 2), false);
}

// ------------------------------------------------------- kinds and scalars

const KINDS: [ErrorKind; 7] = [
    ErrorKind::Io,
    ErrorKind::MalformedData,
    ErrorKind::SchemaNonConformance,
    ErrorKind::PlatformLimits,
    ErrorKind::IllegalSchema,
    ErrorKind::ApiUsage,
    ErrorKind::Other,
];
fn chain<T: Ord + Hash + Clone>(all: &[T]) {
    let (i, j, k) = (choose(all.len()), choose(all.len()), choose(all.len()));
    total(&all[i], &all[j], i == j);
    chained(Some(all[i].cmp(&all[j])), Some(all[j].cmp(&all[k])), Some(all[i].cmp(&all[k])));
}
/// Error kinds and scalar types.  params: which
pub fn c32_kinds() {
    match param(0) {
        0 => chain(&KINDS),
        _ => chain(&SCALARS),
    }
}

// ------------------------------------------------------------------- values

fn unit_or(k: usize) -> Value {
    match k {
        0 => Value::Scalar(ScalarValue::I16(i16())),
        1 => Value::Scalar(ScalarValue::F32(f32::from_bits(u32()))),
        _ => Value::Bytes(vec(1)),
    }
}
fn part() -> Value {
    unit_or(choose(2))
}
fn list() -> Vec<Value> {
    let mut v = Vec::new();
    for _ in 0..choose(3) {
        v.push(part());
    }
    v
}
/// A value of kind `k`, of one level.
fn plain(k: usize) -> Value {
    match k {
        0 => Value::Scalar(any_scalar(SCALARS[choose(14)])),
        1 => Value::Str(ascii_of(choose(3))),
        2 => Value::Bytes(vec(choose(3))),
        3 => Value::Unit,
        4 => Value::Option(if choose(2) == 0 { None } else { Some(Box::new(part())) }),
        5 => Value::FixedLenSeq(list()),
        6 => Value::VarLenSeq(list()),
        7 => Value::Tuple(list()),
        8 => {
            let mut v = Vec::new();
            for _ in 0..choose(3) {
                v.push(StructValueField { name: ascii_of(1), value: unit_or(0) });
            }
            Value::Struct(v)
        }
        _ => Value::Enum(EnumValue {
            variant_ord: u64() as usize,
            variant_name: ascii_of(1),
            value: Box::new(part()),
        }),
    }
}
/// Does a value have a part that is not a number?
fn nan(v: &Value) -> bool {
    match v {
        Value::Scalar(ScalarValue::F32(x)) => x.to_bits() & 0x7fff_ffff > 0x7f80_0000,
        Value::Scalar(ScalarValue::F64(x)) => x.to_bits() & (u64::MAX >> 1) > 0x7ff << 52,
        Value::Option(Some(x)) => nan(x),
        Value::FixedLenSeq(v) | Value::VarLenSeq(v) | Value::Tuple(v) => {
            let mut r = false;
            for x in v {
                r |= nan(x);
            }
            r
        }
        Value::Struct(v) => {
            let mut r = false;
            for x in v {
                r |= nan(&x.value);
            }
            r
        }
        Value::Enum(x) => nan(&x.value),
        _ => false,
    }
}
fn equal_scalar(a: ScalarValue, b: ScalarValue) -> bool {
    let ((s, m), (t, n)) = (scalar_bits(a), scalar_bits(b));
    let zero = match s {
        10 => (m | n) & 0x7fff_ffff == 0,
        11 => (m | n) & (u64::MAX >> 1) as u128 == 0,
        _ => false,
    };
    s == t && (m == n || zero) && !nan(&Value::Scalar(a))
}
fn equal_lists(a: &[Value], b: &[Value]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for i in 0..a.len() {
        if !equal(&a[i], &b[i]) {
            return false;
        }
    }
    true
}
/// Are the parts of two values equal?
fn equal(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (&Value::Scalar(x), &Value::Scalar(y)) => equal_scalar(x, y),
        (Value::Str(x), Value::Str(y)) => same_text(x.as_bytes(), y.as_bytes()),
        (Value::Bytes(x), Value::Bytes(y)) => same_text(x, y),
        (Value::Unit, Value::Unit) | (Value::Option(None), Value::Option(None)) => true,
        (Value::Option(Some(x)), Value::Option(Some(y))) => equal(x, y),
        (Value::FixedLenSeq(x), Value::FixedLenSeq(y)) => equal_lists(x, y),
        (Value::VarLenSeq(x), Value::VarLenSeq(y)) => equal_lists(x, y),
        (Value::Tuple(x), Value::Tuple(y)) => equal_lists(x, y),
        (Value::Struct(x), Value::Struct(y)) => {
            if x.len() != y.len() {
                return false;
            }
            for i in 0..x.len() {
                if !same_text(x[i].name.as_bytes(), y[i].name.as_bytes()) || !equal(&x[i].value, &y[i].value) {
                    return false;
                }
            }
            true
        }
        (Value::Enum(x), Value::Enum(y)) => {
            x.variant_ord == y.variant_ord
                && same_text(x.variant_name.as_bytes(), y.variant_name.as_bytes())
                && equal(&x.value, &y.value)
        }
        _ => false,
    }
}
/// Pairs of values.  params: kind of the first, wrapped how
pub fn c32_value() {
    let a = plain(param(0));
    let b = plain(choose(10));
    crate::spec::same(&a.clone(), &a);
    if param(1) == 0 {
        match (&a, &b) {
            (Value::Scalar(x), Value::Scalar(y)) => partial(x, y, equal(&a, &b), !nan(&a) && !nan(&b)),
            (Value::Enum(x), Value::Enum(y)) => partial(x, y, equal(&a, &b), !nan(&a) && !nan(&b)),
            _ => (),
        }
        return partial(&a, &b, equal(&a, &b), !nan(&a) && !nan(&b));
    }
    let name = |n: &str| n.to_string();
    let wrap = |v: Value| match param(1) {
        1 => Value::Option(Some(Box::new(v))),
        2 => Value::Tuple(vec![Value::Unit, v, Value::Scalar(ScalarValue::U8(u8()))]),
        3 => Value::Struct(vec![StructValueField { name: name("a"), value: v }]),
        _ => Value::Enum(EnumValue { variant_ord: 3, variant_name: name("a"), value: Box::new(v) }),
    };
    let (a, b) = (wrap(a), wrap(b));
    partial(&a, &b, equal(&a, &b), !nan(&a) && !nan(&b));
}
/// Three values.  params: kinds
pub fn c32_value_chain() {
    let (a, b, c) = (plain(param(0)), plain(param(1)), plain(param(2)));
    chained(a.partial_cmp(&b), b.partial_cmp(&c), a.partial_cmp(&c));
}
/// Long values that differ in one part.  params: length
pub fn c32_value_long() {
    let n = param(0);
    let (x, y) = (u8(), u8());
    let make = |k: usize, x: u8, kind: usize| match kind {
        0 => {
            let mut v = vec![7u8; n];
            v[k] = x;
            Value::Bytes(v)
        }
        1 => {
            let mut v = vec![Value::Unit; n];
            v[k] = Value::Scalar(ScalarValue::U8(x));
            Value::VarLenSeq(v)
        }
        2 => {
            let mut v: Vec<StructValueField> =
                (0..n).map(|_| StructValueField { name: "a".to_string(), value: Value::Unit }).collect();
            v[k].value = Value::Scalar(ScalarValue::U8(x));
            Value::Struct(v)
        }
        _ => {
            let mut v = Value::Scalar(ScalarValue::U8(x));
            for i in 0..n {
                v = match i % 3 {
                    0 => Value::Option(Some(Box::new(v))),
                    1 => Value::Tuple(vec![v]),
                    _ => Value::Enum(EnumValue { variant_ord: 0, variant_name: String::new(), value: Box::new(v) }),
                };
            }
            v
        }
    };
    let kind = choose(4);
    let k = [0, n / 2, n - 1][choose(3)];
    partial(&make(k, x, kind), &make(k, y, kind), x == y, true);
}
