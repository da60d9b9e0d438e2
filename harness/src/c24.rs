//! C24: `need` tells the schema to be coded next.
use crate::api::*;
use crate::machine::*;
use crate::long::*;
use crate::shapes::*;
use crate::spec::*;

/// params: shape, calls, arbitrary calls
pub fn c24_enc() {
    run_enc(&shape(param(0)), Plan::new(param(1), param(2), true));
}
/// params: shape, calls, arbitrary calls, input length
pub fn c24_dec() {
    let input = vec(param(3));
    run_dec(&shape(param(0)), &input, Plan::new(param(1), param(2), true));
}

/// Long, wide and deep values.  params: kind, size
pub fn c24_long() {
    let (s, v) = long(param(0), param(1), 1);
    let mut ops = Vec::new();
    script(&v, &mut ops);
    if choose(2) == 0 {
        run_enc(&s, Plan { steps: ops.len() + 1, inject: 0, need: true, script: &ops, places: &[], tail: 4 });
        return;
    }
    let n = ops.len() + ops.iter().filter(|o| matches!(o, Op::Enum(..))).count();
    let mut input = Vec::new();
    ref_encode(&Tree::new(&s), 0, &v, &mut input);
    run_dec(&s, &input, Plan::new(n + 1, 0, true));
}
