//! C12: dynamic values survive the round trip; their encoding is the format's.
use crate::api::*;
use crate::gen::*;
use crate::long::*;
use crate::shapes::*;
use crate::spec::*;
use binschema::value::*;
use binschema::*;

fn round(s: &Schema, fuel: usize, wide: usize) {
    let t = Tree::new(s);
    let mut fuel = fuel;
    let v = any_value(&t, 0, &mut fuel, wide);
    back(s, &t, &v);
}
fn back(s: &Schema, t: &Tree, v: &Value) {
    let mut out = encode_value(s, t, v);
    observe_bytes(&out);
    let n = out.len();
    out.push(u8());
    let mut rd = &out[..];
    let mut cs = CoderState::new(s, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    match Value::decode_from(&mut d) {
        Ok(w) => same(v, &w),
        Err(_) => check(false, "decoding an encoded value failed"),
    }
    check(cs.is_finished(), "decoder not finished");
    check(rd.len() == out.len() - n, "decoder consumed a different number of bytes than encoded");
    cover(1);
}
/// params: shape, nodes, width
pub fn c12_shape() {
    round(&shape(param(0)), param(1), param(2));
}
/// params: depth, nodes, width
pub fn c12_nest() {
    let s = nest(param(0));
    let ok = all_legal(&Tree::new(&s));
    assume(ok);
    round(&s, param(1), param(2));
}
/// Many elements, a few of them unconstrained.  params: number, kind
pub fn c12_long() {
    let (s, v) = long(param(1), param(0), 1);
    let t = Tree::new(&s);
    back(&s, &t, &v);
}
