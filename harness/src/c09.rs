//! C09: hostile bytes neither crash the decoder nor make it allocate more
//! than they justify.
use crate::api::*;
use crate::dispatch;
use crate::drive::*;
use crate::gen::*;
use crate::shapes::*;
use crate::spec::*;
use crate::typed::*;
use binschema::error::ErrorKind;
use binschema::*;
use serde::de::{DeserializeOwned, IgnoredAny};
use serde::Deserialize;
use std::collections::*;

/// No single allocation may be larger, for inputs of a few dozen bytes.
/// (serde itself reserves up to 1 MiB on a claimed length.)
const LIMIT: u64 = 2 << 20;

/// Bytes of which nine in a row have the continuation bit set, so that a
/// length decoded there takes any value of 63 bits and more.
fn long_input(n: usize) -> Vec<u8> {
    let off = choose(3);
    let v = vec(n);
    let mut i = off;
    while i < off + 9 && i < n {
        assume(v[i] >= 0x80);
        i += 1;
    }
    v
}
fn agree(t: &Tree, s: &Schema, input: &[u8]) {
    alloc_limit(LIMIT);
    let _ = decode_value(s, t, input);
    // skipping
    let mut at = 0;
    let want = ref_value(t, 0, input, &mut at);
    let mut rd = input;
    let mut cs = CoderState::new(s, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    match (IgnoredAny::deserialize(&mut d), want) {
        (Ok(_), Ok(_)) => {
            check(cs.is_finished(), "decoder not finished");
            check(rd.len() == input.len() - at, "decoder consumed a wrong number of bytes");
        }
        (Err(e), Err(b)) => check(e.kind() == b.kind(), "decoding error of the wrong kind"),
        (Ok(_), Err(_)) => check(false, "bytes that are not a valid message were accepted"),
        (Err(_), Ok(_)) => check(false, "a valid message was rejected"),
    }
}
/// params: shape, input length
pub fn c09_any() {
    let s = shape(param(0));
    let t = Tree::new(&s);
    let input = vec(param(1));
    agree(&t, &s, &input);
}
/// params: shape, input length
pub fn c09_long() {
    let s = shape(param(0));
    let t = Tree::new(&s);
    let input = long_input(param(1));
    agree(&t, &s, &input);
}
/// Schemas that themselves demand a huge number of elements.
/// params: kind, input length
pub fn c09_fixed() {
    let n = param(1);
    let len = u64() as usize;
    assume(len > n);
    let s = match param(0) {
        0 => schema!(seq(len)(u8)),
        1 => schema!(seq(len)(str)),
        2 => schema!(seq(len)(seq(len)(bool))),
        3 => schema!(option(seq(len)(tuple { (u8), (option(u8)) }))),
        4 => schema!(enum { A(seq(len)(u16)), B(u8) }),
        5 => schema!(tuple { (unit), (seq(len)(bytes)) }),
        _ => schema!(struct { (a: seq(varlen)(seq(len)(u8))) }),
    };
    let t = Tree::new(&s);
    let input = vec(n);
    agree(&t, &s, &input);
    alloc_limit(LIMIT);
    if param(0) == 0 {
        let mut rd = &input[..];
        let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
        let mut d = Decoder::new(&mut cs, &mut rd);
        match Vec::<u8>::deserialize(&mut d) {
            Ok(_) => check(false, "bytes that are not a valid message were accepted"),
            Err(e) => check(e.kind() == ErrorKind::Io, "decoding error of the wrong kind"),
        }
    }
}
fn typed<T: Typed + DeserializeOwned>(n: usize) {
    alloc_limit(LIMIT);
    let s = T::shape();
    let input = long_input(n);
    let t = Tree::new(&s);
    let mut at = 0;
    let want = ref_value(&t, 0, &input, &mut at);
    let mut rd = &input[..];
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    match (T::deserialize(&mut d), want) {
        (Ok(x), Ok(v)) => {
            if T::EXACT {
                same(&x.value(), &v);
            }
            check(cs.is_finished(), "decoder not finished");
            cover(2);
        }
        (Err(e), Err(b)) => {
            check_broken_dec(&e, b, &mut cs, &mut rd);
            cover(3);
        }
        (Ok(_), Err(_)) => check(false, "bytes that are not a valid message were accepted"),
        (Err(_), Ok(_)) => check(false, "a valid message was rejected"),
    }
}
/// params: type, input length
pub fn c09_typed() {
    dispatch!(param(0), typed, param(1);
        String, Blob, Vec<u16>, Vec<String>, BTreeMap<u8, u16>, HashMap<u8, bool>, BTreeMap<String, Vec<u8>>,
        Vec<(Option<u8>, [bool; 2])>, List, Rose, Sum, Mixed, u64, u32, i64, BTreeMap<u8, BTreeMap<u8, ()>>,
        usize, isize, Option<String>,
    )
}
/// Into a buffer.  params: 0 str, 1 bytes; input length
pub fn c09_into() {
    alloc_limit(LIMIT);
    let input = long_input(param(1));
    let is_str = param(0) == 0;
    let s = if is_str { Schema::Str } else { Schema::Bytes };
    let mut at = 0;
    let want = if is_str { ref_text(&input, &mut at) } else { ref_str(&input, &mut at) };
    let mut text = String::from("abc");
    let mut raw = vec![1u8, 2];
    let mut rd = &input[..];
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    let r = if is_str { d.decode_str_into(&mut text) } else { d.decode_bytes_into(&mut raw) };
    match (r, want) {
        (Ok(()), Ok(v)) => same_bytes(if is_str { text.as_bytes() } else { &raw }, &v),
        (Err(e), Err(b)) => check_broken_dec(&e, b, &mut cs, &mut rd),
        (Ok(_), Err(_)) => check(false, "bytes that are not a valid message were accepted"),
        (Err(_), Ok(_)) => check(false, "a valid message was rejected"),
    }
}
/// A schema from hostile bytes.  params: input length
pub fn c09_schema() {
    alloc_limit(LIMIT);
    let m = Schema::schema(RecurseStack::default());
    let input = vec(param(0));
    // seq, tuple, struct, enum ..: the constructors with lengths
    let k = [5, 6, 7, 8, 9][choose(5)];
    assume(input[0] == k);
    let mut i = 1;
    while i < 10 && i < input.len() {
        assume(input[i] >= 0x80 || (k == 5 && i == 1));
        i += 1;
    }
    let t = Tree::new(&m);
    let mut at = 0;
    let want = ref_value(&t, 0, &input, &mut at);
    let mut rd = &input[..];
    let mut cs = CoderState::new(&m, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    match (Schema::deserialize(&mut d), want) {
        (Ok(_), Ok(_)) => cover(2),
        (Err(e), Err(b)) => check_broken_dec(&e, b, &mut cs, &mut rd),
        (Ok(_), Err(_)) => check(false, "bytes that are not a valid message were accepted"),
        (Err(_), Ok(_)) => check(false, "a valid message was rejected"),
    }
}

#[derive(Deserialize)]
struct Linked(#[allow(dead_code)] Option<Box<Linked>>);

/// Bytes that say "one more level" for ever.  params: how
pub fn c09_deep() {
    const N: usize = 200_000;
    let k = param(0);
    let s = match k {
        1 => schema!(seq(varlen)(recurse(1))),
        4 => <Schema as KnownSchema>::schema(RecurseStack::new()),
        5 => schema!(struct { (a: recurse(1)) }),
        6 => schema!(tuple { (recurse(1)) }),
        _ => schema!(option(recurse(1))),
    };
    let input = vec![if k == 4 { 4u8 } else { 1 }; N];
    let mut rd = &input[..];
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    let ok = match k {
        0 | 1 | 5 => value::Value::decode_from(&mut d).is_ok(),
        2 => Linked::deserialize(&mut d).is_ok(),
        4 => Schema::deserialize(&mut d).is_ok(),
        _ => IgnoredAny::deserialize(&mut d).is_ok(),
    };
    check(!ok, "an unfinished message was accepted");
}
/// Few bytes that claim many elements of no bytes.  params: how
pub fn c09_nothing() {
    alloc_limit(LIMIT);
    let s = schema!(seq(varlen)(unit));
    // 2^62 of them
    let input = [0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x40];
    let mut rd = &input[..];
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    let ok = match param(0) {
        0 => value::Value::decode_from(&mut d).is_ok(),
        _ => Vec::<()>::deserialize(&mut d).is_ok(),
    };
    observe(ok as u64);
}
