//! C16: derived schemas are legal and are the ones derived serde impls need.
use crate::api::*;
use crate::dispatch;
use crate::gen::*;
use crate::spec::*;
use crate::typed::*;
use binschema::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::*;

fn r<T: Typed + KnownSchema + Serialize + DeserializeOwned>(f: usize) {
    let s = T::schema(Default::default());
    let ok = all_legal(&Tree::new(&s));
    check(ok, "the derived schema is illegal");
    round::<T>(&s, f)
}
pub const TYPES: usize = 34;
/// params: type, depth
pub fn c16_round() {
    dispatch!(param(0), r, param(1);
        Unit, Tuple0, New, Pair, Struct0, Plain, Mixed, Keyword, Maps, Skipping, Sum, Single, Raw, // 0..
        List, Rose, Trie, Tree2, Even, Odd, Wrap, Inner, Chain, Attr, Twice, // 13..
        Vec<List>, Option<Tree2>, (Chain, Wrap), BTreeMap<u8, Rose>, [Even; 2], Box<Odd>, // 24..
        Wide20, Wide13, WideSum, SkipSum, // 30..
    )
}
fn l<T: Big + KnownSchema + Serialize + DeserializeOwned>(n: usize) {
    round_of(T::big(n), &T::schema(Default::default()))
}
pub const LONGS: usize = 14;
/// Large values.  params: type, size
pub fn c16_long() {
    dispatch!(param(0), l, param(1);
        List, Rose, Trie, Tree2, Even, Chain, Wrap, Attr, Twice, // 0..
        Vec<Sum>, Vec<Skipping>, Maps, Plain, BTreeSet<u8>, // 9..
    )
}
