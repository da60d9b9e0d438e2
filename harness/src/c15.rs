//! C15: the known schemas of standard types are the ones serde needs.
use crate::api::*;
use crate::dispatch;
use crate::typed::*;
use binschema::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::borrow::Cow;
use std::collections::*;
use std::ops::*;

fn r<T: Typed + KnownSchema + Serialize + DeserializeOwned>(f: usize) {
    round::<T>(&T::schema(Default::default()), f)
}
type T11 = (u8, bool, u16, i8, (), u32, Option<u8>, char, i16, u8, u8);
pub const TYPES: usize = 57;
/// params: type, depth
pub fn c15_round() {
    dispatch!(param(0), r, param(1);
        u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, char, bool, usize, isize, // 0..
        String, (), Option<u8>, Option<Option<String>>, // 16..
        Vec<u8>, BinaryHeap<u8>, BTreeSet<u8>, HashSet<u8>, LinkedList<u16>, VecDeque<u8>, // 20..
        BTreeMap<u8, u16>, HashMap<u8, bool>, BTreeMap<(u8, bool), Option<u8>>, HashMap<String, Vec<u8>>, // 26..
        [u8; 0], [u16; 3], [Option<u8>; 2], [u8; 32], // 30..
        (u8,), (u8, bool), (u8, u8, i8), (u8, u8, u8, ()), (u8, u8, u8, u8, bool), // 34..
        (u8, u8, u8, u8, u8, bool), (u8, u8, u8, u8, u8, u8, u16), (u8, u8, u8, u8, u8, u8, u8, u16), // 39..
        (u8, u8, u8, u8, u8, u8, u8, u8, u16), (u8, u8, u8, u8, u8, u8, u8, u8, u8, i16), T11, // 42..
        Range<u8>, Range<i32>, RangeInclusive<u16>, RangeInclusive<String>, Bound<u8>, Bound<Option<bool>>, // 45..
        Box<u8>, Box<Vec<Box<u8>>>, Cow<'static, u16>, Vec<Vec<(u8, String)>>, Option<BTreeMap<u8, ()>>, // 51..
        Vec<Range<Option<u8>>>, // 56
    )
}
/// References, slices and strs, which serde can only serialize.
pub fn c15_refs() {
    let d = RecurseStack::default;
    let mut x = u16();
    match choose(6) {
        0 => ser(&<&u16>::schema(d()), &&x, &x),
        1 => {
            let s = <&mut u16>::schema(d());
            let y = x;
            ser(&s, &&mut x, &y)
        }
        2 => {
            let v: Vec<u16> = Vec::any(2);
            ser(&<[u16]>::schema(d()), &v[..], &v)
        }
        3 => {
            let v = String::any(2);
            ser(&<str>::schema(d()), &v[..], &v)
        }
        4 => {
            let v: Option<u8> = Option::any(2);
            ser(&<Option<&u8>>::schema(d()), &v.as_ref(), &v)
        }
        _ => {
            let v: Vec<u8> = Vec::any(2);
            ser(&<Vec<&u8>>::schema(d()), &v.iter().collect::<Vec<_>>(), &v)
        }
    }
}
fn ser<S: Serialize + ?Sized, T: Typed + DeserializeOwned>(schema: &Schema, x: &S, y: &T) {
    use crate::spec::*;
    let t = Tree::new(schema);
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(schema, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut out);
    check(x.serialize(&mut e).is_ok(), "serializing a value under its schema failed");
    check(cs.is_finished(), "encoder not finished");
    observe_bytes(&out);
    let end = expect_value(&t, 0, &y.value(), &out, 0);
    check(end == out.len(), "encoding longer than the format prescribes");
    let mut rd = &out[..];
    let mut cs = CoderState::new(schema, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    match T::deserialize(&mut d) {
        Ok(z) => y.agree(&z),
        Err(_) => check(false, "deserializing a serialized value failed"),
    }
    check(cs.is_finished() && rd.is_empty(), "decoder not finished");
}
fn l<T: Big + KnownSchema + Serialize + DeserializeOwned>(n: usize) {
    round_of(T::big(n), &T::schema(Default::default()))
}
pub const LONGS: usize = 17;
/// Large values.  params: type, size
pub fn c15_long() {
    dispatch!(param(0), l, param(1);
        Vec<u8>, VecDeque<Option<u8>>, LinkedList<(u8, bool)>, Vec<()>, Vec<String>, Vec<Vec<Option<u8>>>, // 0..
        BTreeMap<u8, u16>, BTreeMap<String, Vec<u8>>, HashMap<u8, Option<u8>>, BTreeSet<u8>, HashSet<u8>, // 6..
        BinaryHeap<u8>, String, [u8; 32], [u16; 31], [Option<u8>; 17], [(u8, bool); 16], // 11..
    )
}
