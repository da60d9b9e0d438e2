//! C04: u8, u16, i8, i16, f32, f64, char, bool, unit.
use crate::api::*;
use crate::drive::*;
use crate::spec::*;
use binschema::*;

const T: [ScalarType; 8] = [
    ScalarType::U8,
    ScalarType::I8,
    ScalarType::U16,
    ScalarType::I16,
    ScalarType::F32,
    ScalarType::F64,
    ScalarType::Char,
    ScalarType::Bool,
];

pub fn c04_enc() {
    let st = T[param(0)];
    scalar_round_trip(any_scalar(st), st);
}

pub fn c04_dec() {
    let st = T[param(0)];
    let input = vec(param(1));
    scalar_decode(st, &input);
}

pub fn c04_unit() {
    let schema = Schema::Unit;
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(&schema, CoderStateAlloc::new(), None);
    check(!cs.is_finished(), "finished before coding");
    check(Encoder::new(&mut cs, &mut out).encode_unit().is_ok(), "encoding unit failed");
    check(cs.is_finished() && out.is_empty(), "unit is not the empty byte string");
    let input = bytes::<1>();
    let mut rd = &input[..];
    let mut cs = CoderState::new(&schema, CoderStateAlloc::new(), None);
    check(Decoder::new(&mut cs, &mut rd).decode_unit().is_ok(), "decoding unit failed");
    check(cs.is_finished() && rd.len() == 1, "decoding unit consumed input");
}
