//! C29: schemas are built as they are spelled.
use crate::api::*;
use crate::gen::*;
use crate::spec::*;
use binschema::*;

/// Assert that two schemas are the same, part by part.
fn same_schema(a: &Schema, b: &Schema) {
    match (a, b) {
        (Schema::Scalar(x), Schema::Scalar(y)) => check(*x as u8 == *y as u8, "another scalar type"),
        (Schema::Str, Schema::Str) | (Schema::Bytes, Schema::Bytes) | (Schema::Unit, Schema::Unit) => (),
        (Schema::Option(x), Schema::Option(y)) => same_schema(x, y),
        (Schema::Seq(x), Schema::Seq(y)) => {
            match (x.len, y.len) {
                (None, None) => (),
                (Some(m), Some(n)) => check(m == n, "another length"),
                _ => check(false, "another kind of sequence"),
            }
            same_schema(&x.inner, &y.inner);
        }
        (Schema::Tuple(x), Schema::Tuple(y)) => {
            check(x.len() == y.len(), "another number of elements");
            for i in 0..x.len() {
                same_schema(&x[i], &y[i]);
            }
        }
        (Schema::Struct(x), Schema::Struct(y)) => {
            check(x.len() == y.len(), "another number of fields");
            for i in 0..x.len() {
                same_bytes(x[i].name.as_bytes(), y[i].name.as_bytes());
                same_schema(&x[i].inner, &y[i].inner);
            }
        }
        (Schema::Enum(x), Schema::Enum(y)) => {
            check(x.len() == y.len(), "another number of variants");
            for i in 0..x.len() {
                same_bytes(x[i].name.as_bytes(), y[i].name.as_bytes());
                same_schema(&x[i].inner, &y[i].inner);
            }
        }
        (Schema::Recurse(x), Schema::Recurse(y)) => check(x == y, "another level"),
        _ => check(false, "another kind of schema"),
    }
}
fn sc(t: ScalarType) -> Schema {
    Schema::Scalar(t)
}
fn opt(s: Schema) -> Schema {
    Schema::Option(Box::new(s))
}
fn seq(len: Option<usize>, s: Schema) -> Schema {
    Schema::Seq(SeqSchema { len, inner: Box::new(s) })
}
fn fields(v: Vec<(&str, Schema)>) -> Schema {
    Schema::Struct(v.into_iter().map(|(n, s)| StructSchemaField { name: n.to_string(), inner: s }).collect())
}
fn variants(v: Vec<(&str, Schema)>) -> Schema {
    Schema::Enum(v.into_iter().map(|(n, s)| EnumSchemaVariant { name: n.to_string(), inner: s }).collect())
}

pub const SPELLINGS: usize = 48;
/// Every rule of the macro, alone and within the others.  params: which
pub fn c29_spell() {
    let n = u64() as usize;
    let k = u64() as usize;
    use ScalarType::*;
    let (got, want) = match param(0) {
        0 => (schema!(u8), sc(U8)),
        1 => (schema!(u16), sc(U16)),
        2 => (schema!(u32), sc(U32)),
        3 => (schema!(u64), sc(U64)),
        4 => (schema!(u128), sc(U128)),
        5 => (schema!(i8), sc(I8)),
        6 => (schema!(i16), sc(I16)),
        7 => (schema!(i32), sc(I32)),
        8 => (schema!(i64), sc(I64)),
        9 => (schema!(i128), sc(I128)),
        10 => (schema!(f32), sc(F32)),
        11 => (schema!(f64), sc(F64)),
        12 => (schema!(char), sc(Char)),
        13 => (schema!(bool), sc(Bool)),
        14 => (schema!(str), Schema::Str),
        15 => (schema!(bytes), Schema::Bytes),
        16 => (schema!(unit), Schema::Unit),
        17 => (schema!(option(u8)), opt(sc(U8))),
        18 => (schema!(seq(varlen)(i128)), seq(None, sc(I128))),
        19 => (schema!(seq(n)(i8)), seq(Some(n), sc(I8))),
        20 => (schema!(seq(0)(unit)), seq(Some(0), Schema::Unit)),
        21 => (schema!(seq(n ^ k)(char)), seq(Some(n ^ k), sc(Char))),
        22 => (schema!(recurse(k)), Schema::Recurse(k)),
        23 => (schema!(recurse(0)), Schema::Recurse(0)),
        24 => (schema!(tuple {}), Schema::Tuple(vec![])),
        25 => (schema!(tuple { (u8) }), Schema::Tuple(vec![sc(U8)])),
        26 => (schema!(tuple { (u8), (i64), (str), }), Schema::Tuple(vec![sc(U8), sc(I64), Schema::Str])),
        27 => (schema!(struct {}), fields(vec![])),
        28 => (schema!(struct { (a: u8) }), fields(vec![("a", sc(U8))])),
        29 => (
            schema!(struct { (bb: u8), (a: recurse(k)), (bb: bytes), }),
            fields(vec![("bb", sc(U8)), ("a", Schema::Recurse(k)), ("bb", Schema::Bytes)]),
        ),
        30 => (schema!(enum {}), variants(vec![])),
        31 => (schema!(enum { A(u8) }), variants(vec![("A", sc(U8))])),
        32 => (
            schema!(enum { Bb(u8), A(seq(n)(unit)), A(f32), }),
            variants(vec![("Bb", sc(U8)), ("A", seq(Some(n), Schema::Unit)), ("A", sc(F32))]),
        ),
        33 => (schema!(option(option(recurse(k)))), opt(opt(Schema::Recurse(k)))),
        34 => (schema!(option(seq(varlen)(recurse(2)))), opt(seq(None, Schema::Recurse(2)))),
        35 => (
            schema!(tuple { (tuple {}), (struct { (x: enum { Y(option(unit)) }) }), (seq(k)(tuple { (bool) })) }),
            Schema::Tuple(vec![
                Schema::Tuple(vec![]),
                fields(vec![("x", variants(vec![("Y", opt(Schema::Unit))]))]),
                seq(Some(k), Schema::Tuple(vec![sc(Bool)])),
            ]),
        ),
        36 => (
            schema!(enum { Branch(struct { (left: recurse(2)), (right: recurse(2)) }), Leaf(i32) }),
            variants(vec![
                ("Branch", fields(vec![("left", Schema::Recurse(2)), ("right", Schema::Recurse(2))])),
                ("Leaf", sc(I32)),
            ]),
        ),
        37 => (schema!(seq(varlen)(seq(n)(seq(k)(u16)))), seq(None, seq(Some(n), seq(Some(k), sc(U16))))),
        38 => (
            schema!(struct { (longer_name: tuple { (i16), (u64) }), (x1: str) }),
            fields(vec![("longer_name", Schema::Tuple(vec![sc(I16), sc(U64)])), ("x1", Schema::Str)]),
        ),
        39 => {
            // expressions are evaluated once, in order
            let mut c = 0usize;
            let mut next = || {
                c += 1;
                c
            };
            (
                schema!(tuple { (seq(next())(u8)), (recurse(next())), (%Schema::Recurse(next())) }),
                Schema::Tuple(vec![seq(Some(1), sc(U8)), Schema::Recurse(2), Schema::Recurse(3)]),
            )
        }
        44 => {
            let mut c = 0usize;
            let mut next = || {
                c += 1;
                c
            };
            (
                schema!(seq(next())(seq(next())(option(seq(next())(recurse(next())))))),
                seq(Some(1), seq(Some(2), opt(seq(Some(3), Schema::Recurse(4))))),
            )
        }
        45 => {
            let mut c = 0usize;
            let mut next = || {
                c += 1;
                Schema::Recurse(c)
            };
            let mut d = 10usize;
            let mut len = || {
                d += 1;
                d
            };
            (
                schema!(struct {
                    (a: %next()),
                    (b: enum { X(%next()), Y(seq(len())(%next())), Z(tuple { (%next()), (seq(len())(seq(len())(%next()))) }) }),
                    (c: option(%next())),
                    (d: seq(varlen)(%next()))
                }),
                fields(vec![
                    ("a", Schema::Recurse(1)),
                    ("b", variants(vec![
                        ("X", Schema::Recurse(2)),
                        ("Y", seq(Some(11), Schema::Recurse(3))),
                        ("Z", Schema::Tuple(vec![Schema::Recurse(4), seq(Some(12), seq(Some(13), Schema::Recurse(5)))])),
                    ])),
                    ("c", opt(Schema::Recurse(6))),
                    ("d", seq(None, Schema::Recurse(7))),
                ]),
            )
        }
        46 => {
            // a length after what is spliced into an earlier part
            let order = std::cell::RefCell::new(Vec::new());
            let at = |k: usize| {
                order.borrow_mut().push(k);
                k
            };
            let s = schema!(tuple {
                (seq(at(0))(%Schema::Recurse(at(1)))),
                (struct { (x: seq(at(2))(u8)), (y: recurse(at(3))) }),
                (enum { X(recurse(at(4))), Y(seq(at(5))(option(recurse(at(6))))) })
            });
            let o = order.borrow();
            check(o.len() == 7, "an expression was not evaluated once");
            for i in 0..7 {
                check(o[i] == i, "expressions evaluated out of order");
            }
            (s, Schema::Tuple(vec![
                seq(Some(0), Schema::Recurse(1)),
                fields(vec![("x", seq(Some(2), sc(U8))), ("y", Schema::Recurse(3))]),
                variants(vec![("X", Schema::Recurse(4)), ("Y", seq(Some(5), opt(Schema::Recurse(6))))]),
            ]))
        }
        40 => (Schema::Struct(vec![("a", schema!(u8)).into(), (String::from("b"), schema!(unit)).into()]),
            fields(vec![("a", sc(U8)), ("b", Schema::Unit)])),
        41 => (Schema::Enum(vec![("a", schema!(u8)).into(), (String::from("b"), schema!(unit)).into()]),
            variants(vec![("a", sc(U8)), ("b", Schema::Unit)])),
        42 => (
            // an item named like a constructor
            schema!(struct { (option: option(u8)), (seq: seq(1)(u8)), (varlen: u8) }),
            fields(vec![("option", opt(sc(U8))), ("seq", seq(Some(1), sc(U8))), ("varlen", sc(U8))]),
        ),
        43 => (schema!(option(enum { None(unit), Some(recurse(k)) })),
            opt(variants(vec![("None", Schema::Unit), ("Some", Schema::Recurse(k))]))),
        _ => (schema!(tuple { (f32), (f64), (u128), (i128), (u16), (u32), (u64), (i16), (i32), (i64), (bool), (char) }),
            Schema::Tuple(vec![sc(F32), sc(F64), sc(U128), sc(I128), sc(U16), sc(U32), sc(U64), sc(I16), sc(I32), sc(I64),
                sc(Bool), sc(Char)])),
    };
    same_schema(&got, &want);
    check(got == want, "schemas with the same parts compare as different");
    check(got.clone() == want, "a clone differs");
    cover(1);
}
/// Schemas spliced in by `%`, anywhere.  params: depth of the spliced schema
pub fn c29_splice() {
    let s = nest(param(0));
    let c = || s.clone();
    let n = u64() as usize;
    let (got, want) = match choose(7) {
        0 => (schema!(%c()), c()),
        1 => (schema!(option(%c())), opt(c())),
        2 => (schema!(seq(varlen)(%c())), seq(None, c())),
        3 => (schema!(seq(n)(%c())), seq(Some(n), c())),
        4 => (schema!(tuple { (%c()), (u8), (%c()) }), Schema::Tuple(vec![c(), sc(ScalarType::U8), c()])),
        5 => (schema!(struct { (a: %c()), (b: option(%c())) }), fields(vec![("a", c()), ("b", opt(c()))])),
        _ => (schema!(enum { A(unit), B(%c()) }), variants(vec![("A", Schema::Unit), ("B", c())])),
    };
    same_schema(&got, &want);
    check(got == want, "schemas with the same parts compare as different");
    cover(2);
}
/// Schemas compare as equal only if they are.  params: depth of each
pub fn c29_equal() {
    let (a, b) = (nest(param(0)), nest(param(1)));
    let mut x: Vec<u8> = Vec::new();
    let mut y: Vec<u8> = Vec::new();
    flat(&a, &mut x);
    flat(&b, &mut y);
    let e = x == y;
    check((a == b) == e, "comparing schemas");
    check((a != b) != e, "comparing schemas");
    cover(3);
}
fn leaf() -> Schema {
    match choose(3) {
        0 => Schema::Recurse(u64() as usize),
        1 => Schema::Unit,
        _ => sc([ScalarType::U8, ScalarType::Bool][choose(2)]),
    }
}
fn parts() -> Vec<(String, Schema)> {
    let mut v = Vec::new();
    for _ in 0..choose(3) {
        v.push((String::from_utf8(vec![b'a' + (u8() & 15)]).unwrap_or_default(), leaf()));
    }
    v
}
/// A schema of one level of any kind.
fn shallow() -> Schema {
    match choose(11) {
        0 => sc(crate::spec::SCALARS[choose(14)]),
        1 => Schema::Str,
        2 => Schema::Bytes,
        3 => Schema::Unit,
        4 => Schema::Recurse(u64() as usize),
        5 => opt(leaf()),
        6 => seq(None, leaf()),
        7 => seq(Some(u64() as usize), leaf()),
        8 => Schema::Tuple(parts().into_iter().map(|p| p.1).collect()),
        9 => Schema::Struct(parts().into_iter().map(|(name, inner)| StructSchemaField { name, inner }).collect()),
        _ => Schema::Enum(parts().into_iter().map(|(name, inner)| EnumSchemaVariant { name, inner }).collect()),
    }
}
fn compare(a: &Schema, b: &Schema) {
    let mut x: Vec<u8> = Vec::new();
    let mut y: Vec<u8> = Vec::new();
    flat(a, &mut x);
    flat(b, &mut y);
    let e = x == y;
    check((a == b) == e, "comparing schemas");
    check((a != b) != e, "comparing schemas");
    check((b == a) == e, "comparing schemas");
    check(a.clone() == *a, "a clone differs");
}
/// Every pair of schemas of one level.  params: wrapped in
pub fn c29_pairs() {
    let (a, b) = (shallow(), shallow());
    let wrap = |s: Schema| match param(0) {
        0 => s,
        1 => opt(s),
        2 => fields(vec![("a", s), ("b", Schema::Unit)]),
        _ => seq(None, s),
    };
    compare(&wrap(a), &wrap(b));
    cover(3);
}
/// All that makes up a schema, unambiguously.
fn flat(s: &Schema, out: &mut Vec<u8>) {
    fn num(n: usize, out: &mut Vec<u8>) {
        out.extend_from_slice(&n.to_le_bytes());
    }
    match s {
        Schema::Scalar(t) => out.extend_from_slice(&[0, *t as u8]),
        Schema::Str => out.push(1),
        Schema::Bytes => out.push(2),
        Schema::Unit => out.push(3),
        Schema::Option(i) => {
            out.push(4);
            flat(i, out);
        }
        Schema::Seq(q) => {
            match q.len {
                None => out.push(5),
                Some(n) => {
                    out.push(6);
                    num(n, out);
                }
            }
            flat(&q.inner, out);
        }
        Schema::Tuple(v) => {
            out.push(7);
            num(v.len(), out);
            for i in v {
                flat(i, out);
            }
        }
        Schema::Struct(v) => {
            out.push(8);
            num(v.len(), out);
            for f in v {
                num(f.name.len(), out);
                out.extend_from_slice(f.name.as_bytes());
                flat(&f.inner, out);
            }
        }
        Schema::Enum(v) => {
            out.push(9);
            num(v.len(), out);
            for f in v {
                num(f.name.len(), out);
                out.extend_from_slice(f.name.as_bytes());
                flat(&f.inner, out);
            }
        }
        Schema::Recurse(n) => {
            out.push(10);
            num(*n, out);
        }
    }
}

/// Fields and variants made of a name, whatever it is.  params: length
pub fn c29_names() {
    let name = match choose(8) {
        0 => String::new(),
        1 => " a ".to_string(),
        2 => "\u{a0}\t\u{e9}\n".to_string(),
        3 => "r#type".to_string(),
        4 => "A_b-C.d::e".to_string(),
        5 => "\u{130}\u{df}\u{feff}\0".to_string(),
        _ => {
            let b = vec(param(0));
            for &x in &b {
                assume(x < 0x80);
            }
            unsafe { String::from_utf8_unchecked(b) }
        }
    };
    let inner = [schema!(u8), schema!(recurse(0)), schema!(tuple {})][choose(3)].clone();
    let (f, v): (StructSchemaField, EnumSchemaVariant) = match choose(3) {
        0 => ((name.clone(), inner.clone()).into(), (name.clone(), inner.clone()).into()),
        1 => ((&name[..], inner.clone()).into(), (&name[..], inner.clone()).into()),
        _ => (
            (std::borrow::Cow::Borrowed(&name[..]), inner.clone()).into(),
            (name.clone().into_boxed_str(), inner.clone()).into(),
        ),
    };
    same_bytes(f.name.as_bytes(), name.as_bytes());
    same_bytes(v.name.as_bytes(), name.as_bytes());
    same_schema(&f.inner, &inner);
    same_schema(&v.inner, &inner);
    cover(1);
}
