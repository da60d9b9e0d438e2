//! C14: typed values survive the serde round trip; their encoding is the format's.
use crate::api::*;
use crate::dispatch;
use crate::typed::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::*;

fn r<T: Typed + Serialize + DeserializeOwned>(f: usize) {
    round::<T>(&T::shape(), f)
}
fn d<T: Typed + DeserializeOwned>(n: usize) {
    decode::<T>(&T::shape(), n)
}
pub const TYPES: usize = 54;
macro_rules! all {
    ($f:ident, $a:expr) => {
        dispatch!(param(0), $f, $a;
            u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, char, bool, usize, isize, // 0..
            String, (), Option<u8>, Option<Option<()>>, Vec<u16>, Vec<()>, [u8; 0], [u8; 3], (u8,), (u8, String), // 16..
            BTreeMap<u8, u16>, HashMap<u8, bool>, BTreeMap<String, Vec<u8>>, Vec<(Option<u8>, [bool; 2])>, // 26..
            Result<u8, String>, std::net::Ipv4Addr, Blob, Unsized3, // 30..
            Unit, Tuple0, New, Pair, Struct0, Plain, Mixed, Skipping, Sum, Single, // 34..
            List, Rose, Tree2, Even, BTreeMap<u8, BTreeMap<u8, ()>>, // 44..
            Wide20, Wide13, WideSum, SkipSum, Many, // 49..
        )
    };
}
/// params: type, depth
pub fn c14_round() {
    all!(r, param(1))
}
/// params: type, input length
pub fn c14_dec() {
    all!(d, param(1))
}
fn l<T: Big + Serialize + DeserializeOwned>(n: usize) {
    round_of(T::big(n), &T::shape())
}
pub const LONGS: usize = 24;
/// Large values.  params: type, size
pub fn c14_long() {
    dispatch!(param(0), l, param(1);
        Vec<u8>, Vec<u16>, VecDeque<Option<u8>>, LinkedList<(u8, bool)>, Vec<()>, Vec<String>, Vec<Sum>, Vec<Skipping>, // 0..
        Vec<Vec<Option<u8>>>, BTreeMap<u8, u16>, BTreeMap<String, Vec<u8>>, HashMap<u8, Option<u8>>, // 8..
        BTreeSet<u8>, HashSet<u8>, BinaryHeap<u8>, String, Blob, [u8; 32], // 12..
        List, Rose, Tree2, Even, Chain, Plain, // 18..
    )
}
