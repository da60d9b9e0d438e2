//! C06: the encoder accepts exactly the conforming traversals and writes
//! exactly what the format prescribes.
use crate::api::*;
use crate::long::*;
use crate::machine::*;
use crate::shapes::*;

/// params: shape, calls, arbitrary calls
pub fn c06_enc() {
    run_enc(&shape(param(0)), Plan::new(param(1), param(2), false));
}

/// Long, wide and deep values; arbitrary calls at a few places.
/// params: kind, size, arbitrary calls
pub fn c06_long() {
    let (s, v) = long(param(0), param(1), (param(2) == 0) as usize);
    let mut ops = Vec::new();
    script(&v, &mut ops);
    let at = places(ops.len() + 1);
    let p = Plan { steps: ops.len() + 1, inject: param(2), need: false, script: &ops, places: &at, tail: 4 };
    run_enc(&s, p);
}

/// Past 65536 levels or parts.  params: kind, size
pub fn c06_giant() {
    crate::giant::giant_enc();
}

/// The wrong number of parts.  params: kind, number of parts
pub fn c06_parts() {
    crate::parts::parts_enc(param(0), param(1));
}
