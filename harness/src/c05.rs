//! C05: str and bytes.
use crate::api::*;
use crate::drive::*;
use crate::spec::*;
use binschema::value::*;
use binschema::*;

/// params: 0 bytes / 1 str, length, 1: ascii only
pub fn c05_enc() {
    let is_str = param(0) == 1;
    let content = vec(param(1));
    if is_str {
        if param(2) == 1 {
            for &b in &content {
                assume(b < 0x80);
            }
        } else {
            assume(utf8_ok(&content));
        }
    }
    let schema = if is_str { Schema::Str } else { Schema::Bytes };
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut out);
    let r = if is_str {
        e.encode_str(unsafe { std::str::from_utf8_unchecked(&content) })
    } else {
        e.encode_bytes(&content)
    };
    check(r.is_ok(), "encoding failed");
    check(cs.is_finished(), "encoder not finished");
    let at = expect_uint(&out, 0, content.len() as u128);
    let at = expect_bytes(&out, at, &content);
    check(at == out.len(), "more bytes than the format prescribes");
    out.push(u8());
    let mut rd = &out[..];
    let mut cs = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    if is_str {
        match d.decode_str() {
            Ok(s) => same_bytes(s.as_bytes(), &content),
            Err(_) => check(false, "decoding an encoded str failed"),
        }
    } else {
        match d.decode_bytes() {
            Ok(s) => same_bytes(&s, &content),
            Err(_) => check(false, "decoding an encoded byte string failed"),
        }
    }
    check(cs.is_finished(), "decoder not finished");
    check(rd.len() == 1, "decoder consumed a different number of bytes than encoded");
}

/// Arbitrary input.  params: 0 bytes / 1 str, input length
pub fn c05_dec() {
    let is_str = param(0) == 1;
    let input = vec(param(1));
    let schema = if is_str { Schema::Str } else { Schema::Bytes };
    dec(is_str, &schema, &input);
}

/// Arbitrary content behind a well-formed length.  params: content length
pub fn c05_utf8() {
    let n = param(0);
    let mut input = vec(n);
    input.insert(0, n as u8);
    dec(true, &Schema::Str, &input);
}

fn dec(is_str: bool, schema: &Schema, input: &[u8]) {
    let mut rd = input;
    let mut cs = CoderState::new(schema, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    let r = if is_str { d.decode_str().map(|s| s.into_bytes()) } else { d.decode_bytes() };
    let t = Tree::new(schema);
    let mut at = 0;
    let want = ref_value(&t, 0, input, &mut at);
    match (&r, want) {
        (Ok(v), Ok(w)) => {
            cover(1);
            observe_bytes(v);
            match &w {
                Value::Str(s) => same_bytes(v, s.as_bytes()),
                Value::Bytes(s) => same_bytes(v, s),
                _ => (),
            }
            check(cs.is_finished(), "decoder not finished");
            check(rd.len() == input.len() - at, "wrong number of bytes consumed");
        }
        (Err(e), Err(b)) => {
            observe(1000 + kind_code(e.kind()));
            match b {
                Bad::Io => cover(2),
                Bad::Malformed => cover(3),
                _ => cover(4),
            }
            check_broken_dec(e, b, &mut cs, &mut rd);
        }
        (Ok(_), Err(_)) => check(false, "decoder accepted bytes that are not a valid message"),
        (Err(_), Ok(_)) => check(false, "decoder rejected a valid message"),
    }
}

/// Long content.  params: 0 bytes / 1 str, length
pub fn c05_long() {
    let is_str = param(0) == 1;
    let n = param(1);
    let schema = if is_str { Schema::Str } else { Schema::Bytes };
    let (_, v) = crate::long::long(if is_str { 2 } else { 3 }, n, 1);
    let t = Tree::new(&schema);
    let mut want = Vec::new();
    ref_encode(&t, 0, &v, &mut want);
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut out);
    let r = match &v {
        Value::Str(s) => e.encode_str(s),
        Value::Bytes(s) => e.encode_bytes(s),
        _ => Ok(()),
    };
    check(r.is_ok(), "encoding failed");
    check(cs.is_finished(), "encoder not finished");
    same_bytes(&out, &want);
    // all of it, with something behind, and cut off anywhere
    let len = match choose(6) {
        0 => {
            want.push(u8());
            n
        }
        1 => 0,
        2 => 1,
        3 => 2,
        4 => n / 2,
        _ => n - 1,
    };
    let head = out.len() - n;
    let cut = if want.len() > out.len() { want.len() } else { head + len };
    dec(is_str, &schema, &want[..cut]);
}
