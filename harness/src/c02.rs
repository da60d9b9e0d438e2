//! C02: var-len signed integers.
use crate::api::*;
use crate::spec::*;
use crate::drive::*;
use binschema::*;

const T: [ScalarType; 3] = [ScalarType::I32, ScalarType::I64, ScalarType::I128];

/// params: type
pub fn c02_enc() {
    let st = T[param(0)];
    scalar_round_trip(any_scalar(st), st);
}

/// params: type, input length
pub fn c02_dec() {
    let st = T[param(0)];
    let input = vec(param(1));
    scalar_decode(st, &input);
}

