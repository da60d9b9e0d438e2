//! C07: the decoder accepts exactly the conforming traversals and returns
//! exactly what the bytes say.
use crate::api::*;
use crate::long::*;
use crate::machine::*;
use crate::shapes::*;
use crate::spec::*;

/// params: shape, calls, arbitrary calls, input length
pub fn c07_dec() {
    let input = vec(param(3));
    run_dec(&shape(param(0)), &input, Plan::new(param(1), param(2), false));
}

/// Long, wide and deep values; arbitrary calls at a few places.
/// params: kind, size, arbitrary calls
pub fn c07_long() {
    let (s, v) = long(param(0), param(1), (param(2) == 0) as usize);
    let mut ops = Vec::new();
    script(&v, &mut ops);
    // (an enum takes the decoder two calls)
    let n = ops.len() + ops.iter().filter(|o| matches!(o, Op::Enum(..))).count();
    let at = places(n + 1);
    let mut input = Vec::new();
    ref_encode(&Tree::new(&s), 0, &v, &mut input);
    if param(2) == 0 {
        // and cut off, or with something behind
        match choose(4) {
            0 => input.push(u8()),
            1 => input.truncate(input.len() / 2),
            2 => input.truncate(input.len().saturating_sub(1)),
            _ => (),
        }
    }
    let p = Plan { steps: n + 1, inject: param(2), need: false, script: &[], places: &at, tail: 4 };
    run_dec(&s, &input, p);
}

/// Past 65536 levels or parts.  params: kind, size
pub fn c07_giant() {
    crate::giant::giant_dec();
}

/// The wrong number of parts.  params: kind, number of parts
pub fn c07_parts() {
    crate::parts::parts_dec(param(0), param(1));
}
