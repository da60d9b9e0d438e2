//! C22: schemas, errors and coders can be rendered, faithfully.
use crate::api::*;
use crate::gen::*;
use crate::machine::*;
use crate::shapes::*;
use crate::spec::*;
use binschema::error::*;
use binschema::*;
use std::error::Error as _;

fn settle(s: &mut Schema) {
    match s {
        Schema::Option(i) => settle(i),
        Schema::Seq(q) => settle(&mut q.inner),
        Schema::Tuple(v) => v.iter_mut().for_each(settle),
        Schema::Struct(v) => v.iter_mut().for_each(|f| settle(&mut f.inner)),
        Schema::Enum(v) => v.iter_mut().for_each(|f| settle(&mut f.inner)),
        Schema::Recurse(n) => {
            let m = *n;
            assume(m < 7 || m == usize::MAX);
            *n = concretize(m);
        }
        _ => (),
    }
}
struct Line {
    text: String,
    /// what a recurse has to be marked with
    mark: Mark,
    /// index of the line of the enclosing schema
    up: Option<usize>,
}
#[derive(PartialEq, Clone, Copy)]
enum Mark {
    No,
    Beyond,
    To(usize),
    Zero,
}
fn scalar_name(st: ScalarType) -> &'static str {
    match st {
        ScalarType::U8 => "u8",
        ScalarType::U16 => "u16",
        ScalarType::U32 => "u32",
        ScalarType::U64 => "u64",
        ScalarType::U128 => "u128",
        ScalarType::I8 => "i8",
        ScalarType::I16 => "i16",
        ScalarType::I32 => "i32",
        ScalarType::I64 => "i64",
        ScalarType::I128 => "i128",
        ScalarType::F32 => "f32",
        ScalarType::F64 => "f64",
        ScalarType::Char => "char",
        ScalarType::Bool => "bool",
    }
}
/// The lines every schema must have, without the arrows.
fn lines(s: &Schema, depth: usize, up: Option<usize>, out: &mut Vec<Line>) {
    let mut pad = String::new();
    for _ in 0..depth {
        pad.push_str("    ");
    }
    let me = out.len();
    let mut mark = Mark::No;
    let head: String = match s {
        &Schema::Scalar(st) => scalar_name(st).into(),
        Schema::Str => "str".into(),
        Schema::Bytes => "bytes".into(),
        Schema::Unit => "unit".into(),
        Schema::Option(_) => "option".into(),
        Schema::Seq(SeqSchema { len: None, .. }) => "seq".into(),
        &Schema::Seq(SeqSchema { .. }) => "seq".into(),
        Schema::Tuple(_) => "tuple".into(),
        Schema::Struct(_) => "struct".into(),
        Schema::Enum(_) => "enum".into(),
        &Schema::Recurse(n) => {
            let mut at = Some(me);
            let mut k = 0;
            let mut cur = up;
            while k < n && at.is_some() {
                at = cur;
                cur = at.and_then(|l| out[l].up);
                k += 1;
            }
            mark = match at {
                _ if n == 0 => Mark::Zero,
                Some(l) => Mark::To(l),
                None => Mark::Beyond,
            };
            "recurse".into()
        }
    };
    out.push(Line { text: format!("{}- {}", pad, head), mark, up });
    let mut item = |what: String, s: &Schema, out: &mut Vec<Line>| {
        out.push(Line { text: format!("{}  {}", pad, what), mark: Mark::No, up: None });
        lines(s, depth + 1, Some(me), out);
    };
    match s {
        Schema::Option(i) => lines(i, depth + 1, Some(me), out),
        Schema::Seq(q) => lines(&q.inner, depth + 1, Some(me), out),
        Schema::Tuple(v) => {
            for (i, s) in v.iter().enumerate() {
                item(format!("element {}", i), s, out);
            }
        }
        Schema::Struct(v) => {
            for (i, f) in v.iter().enumerate() {
                item(format!("field {} (name = {:?})", i, f.name), &f.inner, out);
            }
        }
        Schema::Enum(v) => {
            for (i, f) in v.iter().enumerate() {
                item(format!("variant {} (name = {:?})", i, f.name), &f.inner, out);
            }
        }
        _ => (),
    }
}
/// Does `text` contain `what`?
fn has(text: &str, what: &str) -> bool {
    let (t, w) = (text.as_bytes(), what.as_bytes());
    let mut i = 0;
    while i + w.len() <= t.len() {
        let mut k = 0;
        while k < w.len() && t[i + k] == w[k] {
            k += 1;
        }
        if k == w.len() {
            return true;
        }
        i += 1;
    }
    false
}
fn rendered(s: &Schema) {
    let text = s.pretty_fmt();
    observe_bytes(text.as_bytes());
    let mut want = Vec::new();
    lines(s, 0, None, &mut want);
    let got: Vec<&[u8]> = text.as_bytes().split(|&b| b == b'\n').collect();
    check(got.len() == want.len(), "a wrong number of lines is rendered");
    for (i, w) in want.iter().enumerate() {
        check(got[i].starts_with(w.text.as_bytes()), "a schema is rendered as something else");
    }
    for (i, w) in want.iter().enumerate() {
        let line = unsafe { std::str::from_utf8_unchecked(got[i]) };
        if let Mark::To(dst) = w.mark {
            check(!has(line, "beyond root"), "a legal recursion is rendered as leaving the schema");
            // a bar, between the ends of the arrow
            let b = got[i].iter().position(|&c| c == b'/');
            check(b.is_some(), "no arrow from a recursion");
            let b = b.unwrap();
            check(matches!(got[dst].get(b), Some(b'\\')), "no arrow to the target of a recursion");
            for l in dst + 1..i {
                check(matches!(got[l].get(b), Some(b'|')), "an arrow is broken");
            }
            cover(1);
        }
        if w.mark == Mark::Beyond {
            check(has(line, "beyond root"), "an illegal recursion is not rendered as leaving the schema");
            cover(2);
        }
        if w.mark == Mark::No {
            check(!has(&line[w.text.len()..], "beyond root"), "a schema is rendered as leaving the schema");
        }
    }
}
/// params: shape
pub fn c22_shape() {
    rendered(&shape(param(0)));
}
/// params: depth
pub fn c22_nest() {
    let mut s = nest(param(0));
    settle(&mut s);
    rendered(&s);
}
/// params: forest
pub fn c22_forest() {
    let mut s = forest(param(0));
    settle(&mut s);
    rendered(&s);
}
/// Names and lengths.
pub fn c22_names() {
    let name = match choose(6) {
        0 => String::new(),
        1 => ascii_of(1),
        2 => "ab".into(),
        3 => "\u{e9}\u{1f600}".into(),
        4 => "a name of several words, that is quite a bit longer than most".into(),
        _ => "\n\t\"\u{7f}\u{200b}".into(),
    };
    let len = [0, 9, 10, 999, usize::MAX][choose(5)];
    let s = match choose(2) {
        0 => Schema::Struct(vec![
            (name.clone(), schema!(option(recurse(2)))).into(),
            (name, schema!(seq(len)(enum { A(recurse(1)), B(recurse(2)), C(recurse(3)), D(recurse(4)) }))).into(),
        ]),
        _ => Schema::Enum(vec![
            ("x".to_string(), schema!(seq(len)(u8))).into(),
            (name.clone(), schema!(tuple { (recurse(1)), (recurse(2)) })).into(),
            (name, schema!(recurse(2))).into(),
        ]),
    };
    rendered(&s);
}
fn kind_text(k: ErrorKind) -> &'static str {
    match k {
        ErrorKind::Io => "IO error",
        ErrorKind::MalformedData => "malformed data",
        ErrorKind::SchemaNonConformance => "schema non-",
        ErrorKind::PlatformLimits => "platform limits",
        ErrorKind::IllegalSchema => "illegal schema",
        ErrorKind::ApiUsage => "API usage",
        ErrorKind::Other => "unknown error",
    }
}
fn check_text(e: &Error) {
    let text = e.to_string();
    observe_bytes(text.as_bytes());
    check(has(&text, kind_text(e.kind())), "an error does not tell its kind");
    check(has(&text, &e.inner().to_string()), "an error does not tell its cause");
    check(e.source().is_some(), "an error has no cause");
    check(!format!("{:?}", e).is_empty(), "an error renders as nothing");
}
fn check_cs(cs: &CoderState, broken: bool, depth: usize) {
    let text = format!("{:?}", cs);
    check(has(&text, if broken { "broken: true" } else { "broken: false" }), "a coder misreports whether it is broken");
    let mut n = 0;
    for l in text.as_bytes().split(|&b| b == b'\n') {
        if has(unsafe { std::str::from_utf8_unchecked(l) }, "schema: ") {
            n += 1;
        }
    }
    check(n == depth, "a coder misreports what is being coded");
}
/// Errors of rejected calls.  params: shape, calls
pub fn c22_calls() {
    let s = shape(param(0));
    let t = Tree::new(&s);
    let mut m = Model::new(&t);
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let n = choose(param(1) + 1);
    for _ in 0..n {
        let op = match next_op(&m, true) {
            Some(op) => op,
            None => break,
        };
        let v = m.verdict(&op);
        let r = enc_op(&mut Encoder::new(&mut cs, &mut out), &op);
        match (v, r) {
            (V::Ok, _) => m.apply(&op),
            (_, Err(e)) => {
                check_text(&e);
                break;
            }
            _ => break,
        }
    }
    if !m.broken {
        check_cs(&cs, false, m.stack.len());
    }
    let op = match choose(8) {
        0 => Op::Unit,
        1 => Op::Scalar(ScalarType::U16, any_scalar(ScalarType::U16)),
        2 => Op::Some,
        3 => Op::Elem,
        4 => Op::EndSeq,
        5 => Op::Field(vec![b'a', b'"']),
        6 => Op::Enum(choose(3), vec![b'Z']),
        _ => Op::FixedSeq(7),
    };
    if let Err(e) = enc_op(&mut Encoder::new(&mut cs, &mut out), &op) {
        observe(kind_code(e.kind()));
        check_text(&e);
        cover(3);
    }
    if let Err(e) = cs.is_finished_or_err() {
        check_text(&e);
        cover(4);
    }
}
/// Errors of malformed input.  params: shape, input length
pub fn c22_dec() {
    let s = shape(param(0));
    let t = Tree::new(&s);
    let input = vec(param(1));
    let mut at = 0;
    let want = ref_value(&t, 0, &input, &mut at);
    let mut rd = &input[..];
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    match (value::Value::decode_from(&mut Decoder::new(&mut cs, &mut rd)), want) {
        (Err(e), Err(b)) => {
            check(e.kind() == b.kind(), "decoding error of the wrong kind");
            check_text(&e);
            let text = format!("{:?}", cs);
            check(has(&text, "broken: true"), "a coder misreports whether it is broken");
            cover(5);
        }
        (Ok(_), Ok(_)) => check_cs(&cs, false, 0),
        _ => check(false, "decoding disagrees with the reference"),
    }
}
/// Errors as users make them.
pub fn c22_kinds() {
    const KINDS: [ErrorKind; 7] = [
        ErrorKind::Io,
        ErrorKind::MalformedData,
        ErrorKind::SchemaNonConformance,
        ErrorKind::PlatformLimits,
        ErrorKind::IllegalSchema,
        ErrorKind::ApiUsage,
        ErrorKind::Other,
    ];
    let i = choose(7);
    let msg = ascii_of(1);
    let s = schema!(struct { (a: u8) });
    let cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut e = Error::new(KINDS[i], msg.clone(), if choose(2) == 0 { None } else { Some(&cs) });
    check(e.kind() == KINDS[i], "an error changed its kind");
    check_text(&e);
    same_bytes(e.inner_mut().to_string().as_bytes(), msg.as_bytes());
    same_bytes(e.into_inner().to_string().as_bytes(), msg.as_bytes());
    let e = Error::other(msg.clone());
    check(e.kind() == ErrorKind::Other, "an error changed its kind");
    check_text(&e);
    let e = Error::from(std::io::Error::new(std::io::ErrorKind::Other, msg));
    check(e.kind() == ErrorKind::Io, "an error changed its kind");
    check(e.inner().downcast_ref::<std::io::Error>().is_some(), "the cause of an error is lost");
    check_text(&e);
    let e = <Error as serde::ser::Error>::custom("what");
    check(e.kind() == ErrorKind::Other && has(&e.to_string(), "what"), "a custom error is lost");
    let e = <Error as serde::de::Error>::custom("what");
    check(e.kind() == ErrorKind::Other && has(&e.to_string(), "what"), "a custom error is lost");
}
/// Large schemas.  params: kind (see long.rs), size
pub fn c22_long() {
    let (s, _) = crate::long::long(param(0), param(1), 0);
    rendered(&s);
}
/// Arrows across many lines, side by side and across each other.
/// params: recursions
pub fn c22_arrows() {
    let n = param(0);
    let mut fields = Vec::new();
    for i in 0..n {
        let name = crate::long::format_name(i);
        let inner = match i % 4 {
            0 => schema!(recurse(1)),
            1 => schema!(option(recurse(2))),
            2 => schema!(tuple { (recurse(1)), (recurse(2)), (option(recurse(3))) }),
            _ => schema!(enum { ALongName(recurse(1)), Of(recurse(5)) }),
        };
        fields.push(StructSchemaField { name, inner });
    }
    let k = choose(n);
    fields[k].inner = schema!(recurse(2));
    rendered(&Schema::Struct(fields));
}
/// Errors in the middle of large messages.  params: kind, size
pub fn c22_long_errors() {
    let (s, v) = crate::long::long(param(0), param(1), 0);
    let mut ops = Vec::new();
    crate::long::script(&v, &mut ops);
    let at = crate::long::places(ops.len());
    let stop = at[choose(at.len())];
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    for op in &ops[..stop] {
        let mut e = Encoder::new(&mut cs, &mut out);
        check(enc_op(&mut e, op).is_ok(), "encoding a conforming value failed");
    }
    let e = Encoder::new(&mut cs, &mut out).encode_i128(1);
    match e {
        Ok(()) => check(false, "a wrong call was accepted"),
        Err(e) => {
            let plain = format!("{}", e);
            check(!plain.is_empty(), "an error without a message");
            check(!format!("{:?}", e).is_empty(), "an error without a message");
            cover(3);
        }
    }
    let text = format!("{:?}", cs);
    check(!text.is_empty(), "a coder renders as nothing");
}
/// The types around a schema.  params: layers
pub fn c22_stack() {
    struct Inner;
    struct Outer;
    impl KnownSchema for Inner {
        fn schema(_: RecurseStack) -> Schema {
            schema!(u8)
        }
    }
    impl KnownSchema for Outer {
        fn schema(_: RecurseStack) -> Schema {
            schema!(u16)
        }
    }
    fn go(s: RecurseStack, left: usize, inner: usize, outer: usize) {
        if left == 0 {
            let text = format!("{:?}", s);
            check(!text.is_empty(), "a stack of types renders as nothing");
            check(text.matches("Inner").count() == inner, "a type is missing");
            check(text.matches("Outer").count() == outer, "a type is missing");
            return;
        }
        match choose(3) {
            0 => go(s.with_type_layer::<Inner>(), left - 1, inner + 1, outer),
            1 => go(s.with_type_layer::<Outer>(), left - 1, inner, outer + 1),
            _ => go(s.with_none_layer(), left - 1, inner, outer),
        }
    }
    go(RecurseStack::new(), param(0), 0, 0);
}

/// Recursions of high levels.  params: schema
pub fn c22_levels() {
    let k = choose(3);
    let n = match choose(8) {
        0 => 1 << 8,
        1 => 1 << 16,
        2 => 1 << 31,
        3 => 1 << 32,
        4 => 1 << 63,
        5 => 10,
        6 => 1000,
        _ => usize::MAX - 2,
    } + k;
    let r = Schema::Recurse(n);
    rendered(&match param(0) {
        0 => schema!(option(%r)),
        1 => schema!(struct { (a: u8), (b: tuple { (recurse(2)), (%r) }) }),
        2 => schema!(enum { A(seq(varlen)(%r)), B(recurse(1)) }),
        _ => r,
    });
}
