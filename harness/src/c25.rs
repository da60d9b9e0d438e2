//! C25: decoding into a buffer replaces what was in it.
use crate::api::*;
use crate::drive::*;
use crate::gen::*;
use crate::spec::*;
use binschema::error::ErrorKind;
use binschema::*;

fn old() -> Vec<u8> {
    let n = [0, 1, 3, 40][choose(4)];
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(if i < 2 { u8() & 0x7f } else { b'z' });
    }
    v
}
/// params: 0 str, 1 bytes; input length
pub fn c25_into() {
    let input = vec(param(1));
    let is_str = param(0) == 0;
    let s = if is_str { Schema::Str } else { Schema::Bytes };
    let mut at = 0;
    let want = if is_str { ref_text(&input, &mut at) } else { ref_str(&input, &mut at) };
    let mut text = unsafe { String::from_utf8_unchecked(old()) };
    let mut raw = if is_str { Vec::new() } else { old() };
    let mut rd = &input[..];
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    let r = if is_str { d.decode_str_into(&mut text) } else { d.decode_bytes_into(&mut raw) };
    let got = if is_str { text.as_bytes() } else { &raw[..] };
    match (r, want) {
        (Ok(()), Ok(v)) => {
            observe_bytes(got);
            same_bytes(got, &v);
            check(cs.is_finished(), "decoder not finished");
            check(rd.len() == input.len() - at, "decoder consumed a wrong number of bytes");
            cover(1);
        }
        (Err(e), Err(b)) => {
            observe(1000 + kind_code(e.kind()));
            if is_str {
                check(got.is_empty(), "something is left in the buffer after an error");
            }
            check_broken_dec(&e, b, &mut cs, &mut rd);
            cover(2);
        }
        (Ok(_), Err(_)) => check(false, "bytes that are not a valid message were accepted"),
        (Err(_), Ok(_)) => check(false, "a valid message was rejected"),
    }
    // a decoder that rejects the call clears the buffer all the same
    let mut d = Decoder::new(&mut cs, &mut rd);
    if is_str {
        text.push('x');
        check_api_usage(d.decode_str_into(&mut text));
        check(text.is_empty(), "the buffer was not cleared");
    } else {
        raw.clear();
        raw.push(1);
        check_api_usage(d.decode_bytes_into(&mut raw));
        check(raw.is_empty(), "the buffer was not cleared");
    }
}
/// Several strs into one buffer.  params: 0 str, 1 bytes
pub fn c25_many() {
    let is_str = param(0) == 0;
    let inner = if is_str { Schema::Str } else { Schema::Bytes };
    let s = schema!(seq(varlen)(%inner));
    let n = 3;
    let mut xs = Vec::new();
    for _ in 0..n {
        let k = [0, 2, 40][choose(3)];
        let mut v = ascii_of(if k < 3 { k } else { 1 }).into_bytes();
        v.resize(k, b'q');
        xs.push(v);
    }
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut out);
    let mut ok = e.begin_var_len_seq(n).is_ok();
    for x in &xs {
        ok &= e.begin_seq_elem().is_ok();
        ok &= if is_str { e.encode_str(std::str::from_utf8(x).unwrap()).is_ok() } else { e.encode_bytes(x).is_ok() };
    }
    ok &= e.finish_seq().is_ok();
    check(ok && cs.is_finished(), "encoding failed");
    let mut rd = &out[..];
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    let mut text = String::new();
    let mut raw = Vec::new();
    check(matches!(d.begin_var_len_seq(), Ok(3)), "decoding failed");
    for x in &xs {
        check(d.begin_seq_elem().is_ok(), "decoding failed");
        // a call for another type is rejected; it may clear, but not corrupt
        let e = d.decode_u8();
        check(matches!(e, Err(e) if e.kind() == ErrorKind::SchemaNonConformance), "a wrong call was accepted");
        if is_str {
            check(d.decode_str_into(&mut text).is_ok(), "decoding failed");
            same_bytes(text.as_bytes(), x);
        } else {
            check(d.decode_bytes_into(&mut raw).is_ok(), "decoding failed");
            same_bytes(&raw, x);
        }
    }
    check(d.finish_seq().is_ok() && cs.is_finished(), "decoding failed");
    check(rd.is_empty(), "bytes left over");
    cover(3);
}
/// A long string into a buffer of any kind, then a short one, then one that
/// breaks off.  params: 0 str, 1 bytes; length
pub fn c25_long() {
    let is_str = param(0) == 0;
    let n = param(1);
    let inner = if is_str { Schema::Str } else { Schema::Bytes };
    let s = Schema::Tuple(vec![inner.clone(), inner.clone(), inner]);
    let last = u8();
    assume(last < 0x80);
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut out);
    let mut ok = e.begin_tuple().is_ok();
    let sizes = [n, 1, n + 1];
    for k in sizes {
        let mut x = vec![b'k'; k];
        x[k - 1] = last;
        ok &= e.begin_tuple_elem().is_ok();
        ok &= if is_str { e.encode_str(std::str::from_utf8(&x).unwrap()).is_ok() } else { e.encode_bytes(&x).is_ok() };
    }
    ok &= e.finish_tuple().is_ok();
    check(ok && cs.is_finished(), "encoding failed");
    let cut = choose(3);
    let mut rd = &out[..out.len() - [0, 1, n][cut]];
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    let mut text = unsafe { String::from_utf8_unchecked(old()) };
    let mut raw = if is_str { Vec::new() } else { old() };
    check(d.begin_tuple().is_ok(), "decoding failed");
    for (i, k) in sizes.into_iter().enumerate() {
        check(d.begin_tuple_elem().is_ok(), "decoding failed");
        let r = if is_str { d.decode_str_into(&mut text) } else { d.decode_bytes_into(&mut raw) };
        let got = if is_str { text.as_bytes() } else { &raw[..] };
        if i == 2 && cut > 0 {
            check(matches!(r, Err(e) if e.kind() == ErrorKind::Io), "half a string was accepted");
            check(!is_str || got.is_empty(), "something is left in the buffer after an error");
            cover(2);
            return;
        }
        check(r.is_ok(), "decoding failed");
        check(got.len() == k && got[k - 1] == last && got[..k - 1].iter().all(|b| *b == b'k'), "another string was decoded");
    }
    check(d.finish_tuple().is_ok() && cs.is_finished() && rd.is_empty(), "decoding failed");
    cover(1);
}
