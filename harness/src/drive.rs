//! Small drivers shared by the checks: call the real API the way a user does.
use crate::api::*;
use crate::spec::*;
use binschema::error::{Error, ErrorKind};
use binschema::value::*;
use binschema::*;
use std::io::{Read, Write};

pub fn enc_scalar<W: Write>(e: &mut Encoder<W>, x: ScalarValue) -> Result<(), Error> {
    match x {
        ScalarValue::U8(n) => e.encode_u8(n),
        ScalarValue::U16(n) => e.encode_u16(n),
        ScalarValue::U32(n) => e.encode_u32(n),
        ScalarValue::U64(n) => e.encode_u64(n),
        ScalarValue::U128(n) => e.encode_u128(n),
        ScalarValue::I8(n) => e.encode_i8(n),
        ScalarValue::I16(n) => e.encode_i16(n),
        ScalarValue::I32(n) => e.encode_i32(n),
        ScalarValue::I64(n) => e.encode_i64(n),
        ScalarValue::I128(n) => e.encode_i128(n),
        ScalarValue::F32(n) => e.encode_f32(n),
        ScalarValue::F64(n) => e.encode_f64(n),
        ScalarValue::Char(c) => e.encode_char(c),
        ScalarValue::Bool(b) => e.encode_bool(b),
    }
}

pub fn dec_scalar<X: Read>(d: &mut Decoder<X>, st: ScalarType) -> Result<ScalarValue, Error> {
    Ok(match st {
        ScalarType::U8 => ScalarValue::U8(d.decode_u8()?),
        ScalarType::U16 => ScalarValue::U16(d.decode_u16()?),
        ScalarType::U32 => ScalarValue::U32(d.decode_u32()?),
        ScalarType::U64 => ScalarValue::U64(d.decode_u64()?),
        ScalarType::U128 => ScalarValue::U128(d.decode_u128()?),
        ScalarType::I8 => ScalarValue::I8(d.decode_i8()?),
        ScalarType::I16 => ScalarValue::I16(d.decode_i16()?),
        ScalarType::I32 => ScalarValue::I32(d.decode_i32()?),
        ScalarType::I64 => ScalarValue::I64(d.decode_i64()?),
        ScalarType::I128 => ScalarValue::I128(d.decode_i128()?),
        ScalarType::F32 => ScalarValue::F32(d.decode_f32()?),
        ScalarType::F64 => ScalarValue::F64(d.decode_f64()?),
        ScalarType::Char => ScalarValue::Char(d.decode_char()?),
        ScalarType::Bool => ScalarValue::Bool(d.decode_bool()?),
    })
}

/// A failed decode: the error has the kind the reference decoder demands and
/// the decoder is broken for good.
pub fn check_broken_dec(r: &Error, want: Bad, st: &mut CoderState, rd: &mut &[u8]) {
    check(r.kind() == want.kind(), "decoding error of the wrong kind");
    check(!st.is_finished(), "decoder finished after an error");
    check(st.is_finished_or_err().is_err(), "decoder finished after an error");
    let before = rd.len();
    let mut d = Decoder::new(st, rd);
    check_api_usage(d.decode_unit());
    check_api_usage(d.decode_u8());
    check(rd.len() == before, "a broken decoder consumed input");
}

pub fn check_api_usage<T>(r: Result<T, Error>) {
    match r {
        Ok(_) => check(false, "call on a broken coder succeeded"),
        Err(e) => check(e.kind() == ErrorKind::ApiUsage, "call on a broken coder: wrong error kind"),
    }
}

/// Encode one scalar under its schema, compare with the reference encoding
/// and decode it back.
pub fn scalar_round_trip(x: ScalarValue, st: ScalarType) {
    let schema = Schema::Scalar(st);
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut out);
    check(enc_scalar(&mut e, x).is_ok(), "encoding a scalar failed");
    check(cs.is_finished(), "encoder not finished");
    check(cs.is_finished_or_err().is_ok(), "encoder not finished");
    observe_bytes(&out);
    let end = expect_scalar(st, x, &out, 0);
    check(end == out.len(), "more bytes than the format prescribes");
    // what follows the message must stay unread
    let extra = u8();
    out.push(extra);
    let mut rd = &out[..];
    let mut cs = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    match dec_scalar(&mut d, st) {
        Ok(y) => same_scalar(x, y),
        Err(_) => check(false, "decoding an encoded scalar failed"),
    }
    check(cs.is_finished(), "decoder not finished");
    check(rd.len() == 1, "decoder consumed a different number of bytes than encoded");
}

/// Decode one scalar from arbitrary bytes and compare with the reference.
pub fn scalar_decode(st: ScalarType, input: &[u8]) {
    let schema = Schema::Scalar(st);
    let mut rd = input;
    let mut cs = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    let r = dec_scalar(&mut d, st);
    let mut at = 0;
    let want = ref_scalar(st, input, &mut at);
    match (&r, want) {
        (&Ok(x), Ok(y)) => {
            let (t, n) = scalar_bits(x);
            observe(t as u64);
            observe(n as u64);
            observe((n >> 64) as u64);
            observe(rd.len() as u64);
            same_scalar(x, y);
            check(cs.is_finished(), "decoder not finished");
            check(rd.len() == input.len() - at, "decoder consumed a wrong number of bytes");
            cover(1);
        }
        (Err(e), Err(b)) => {
            observe(1000 + kind_code(e.kind()));
            check_broken_dec(e, b, &mut cs, &mut rd);
            match b {
                Bad::Io => cover(2),
                Bad::Malformed => cover(3),
                _ => (),
            }
        }
        (Ok(_), Err(_)) => check(false, "decoder accepted bytes that are not a valid message"),
        (Err(_), Ok(_)) => check(false, "decoder rejected a valid message"),
    }
}
