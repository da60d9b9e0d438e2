//! C10: recursion means the schema that many levels up in the schema tree.
use crate::api::*;
use crate::gen::*;
use crate::long::*;
use crate::machine::*;
use crate::spec::*;
use binschema::*;

fn legal(s: Schema) -> Schema {
    let ok = all_legal(&Tree::new(&s));
    assume(ok);
    s
}
/// params: depth, calls
pub fn c10_enc() {
    run_enc(&legal(nest(param(0))), Plan::new(param(1), 0, true));
}
/// params: depth, calls, input length
pub fn c10_dec() {
    let s = legal(nest(param(0)));
    let input = vec(param(2));
    run_dec(&s, &input, Plan::new(param(1), 0, true));
}
/// params: forest, calls
pub fn c10_enc_many() {
    run_enc(&legal(forest(param(0))), Plan::new(param(1), 0, true));
}
/// params: forest, calls, input length
pub fn c10_dec_many() {
    let s = legal(forest(param(0)));
    let input = vec(param(2));
    run_dec(&s, &input, Plan::new(param(1), 0, true));
}

fn level(n: usize, k: usize) -> usize {
    match k {
        0 => 1,
        1 => 2,
        2 => n / 2,
        3 => n,
        _ => n + 1,
    }
}
/// Recursion across many levels.  params: levels, which, rounds
pub fn c10_long_enc() {
    let (n, k) = (param(0), level(param(0), param(1)));
    run_enc(&legal(chain(n, k)), Plan::new((param(2) + 1) * (n + 3) * 3, 0, true));
}
/// params: levels, which, input length
pub fn c10_long_dec() {
    let (n, k) = (param(0), level(param(0), param(1)));
    let input = vec(param(2));
    run_dec(&legal(chain(n, k)), &input, Plan::new((param(2) + 1) * (n + 3) * 4, 0, true));
}

pub const BRAIDS: usize = 8;
/// Schemas whose recursions lead to places reached by several routes, of
/// different lengths.
fn braid(i: usize) -> Schema {
    match i {
        0 => schema!(enum { M(option(recurse(1))), D(option(recurse(2))), P(tuple { (recurse(2)), (recurse(2)) }) }),
        1 => schema!(struct {
            (p: option(struct { (u: option(recurse(2))), (d: option(recurse(3))) })),
            (q: seq(varlen)(recurse(2)))
        }),
        2 => schema!(tuple { (seq(varlen)(enum { A(recurse(2)), B(recurse(3)), C(unit) })), (option(recurse(2))) }),
        3 => schema!(seq(varlen)(enum { L(seq(varlen)(recurse(1))), T(tuple { (recurse(3)), (option(recurse(1))) }), E(recurse(2)) })),
        4 => schema!(option(tuple { (option(seq(varlen)(recurse(2)))), (option(recurse(3))) })),
        5 => schema!(seq(varlen)(struct { (a: option(option(recurse(1)))), (b: seq(varlen)(recurse(3))) })),
        6 => schema!(enum { Z(unit), S(seq(1)(enum { Y(option(recurse(2))), X(recurse(3)), W(tuple { (recurse(4)), (option(recurse(3))) }) })) }),
        _ => schema!(tuple { (option(seq(varlen)(recurse(1)))), (seq(varlen)(tuple { (option(recurse(2))), (option(recurse(4))) })) }),
    }
}
/// Whole values.  params: braid, nodes
pub fn c10_values() {
    let s = braid(param(0));
    let t = Tree::new(&s);
    let mut fuel = param(1);
    let v = any_value(&t, 0, &mut fuel, 2);
    let bytes = encode_value(&s, &t, &v);
    match decode_value(&s, &t, &bytes) {
        Ok((w, n)) => {
            same(&w, &v);
            check(n == bytes.len(), "another message");
            cover(2);
        }
        Err(_) => check(false, "an encoded value was refused"),
    }
}
