//! C27: a type and a schema that do not fit each other.
use crate::api::*;
use crate::dispatch;
use crate::gen::*;

use crate::shapes::*;
use crate::spec::*;
use crate::typed::*;
use binschema::error::*;

use binschema::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::*;

fn mismatch(e: &Error) {
    let k = e.kind();
    check(
        k == ErrorKind::SchemaNonConformance || k == ErrorKind::ApiUsage || k == ErrorKind::Other,
        "a type that does not fit the schema: wrong error kind",
    );
}
fn ser<T: Typed + Serialize + DeserializeOwned>(s: &Schema) {
    let t = Tree::new(s);
    let x = T::any(param(2));
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(s, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut out);
    match x.serialize(&mut e) {
        Err(e) => {
            mismatch(&e);
            cover(1);
        }
        Ok(()) => {
            check(cs.is_finished(), "serialized, but not finished");
            // then it is a message of that schema
            let mut at = 0;
            let want = ref_value(&t, 0, &out, &mut at);
            check(want.is_ok() && at == out.len(), "serialized to bytes that are not a valid message");
            let mut rd = &out[..];
            let mut cs = CoderState::new(s, CoderStateAlloc::new(), None);
            let mut d = Decoder::new(&mut cs, &mut rd);
            match T::deserialize(&mut d) {
                Ok(y) => x.agree(&y),
                Err(_) => check(false, "serialized, but does not deserialize"),
            }
            check(cs.is_finished() && rd.is_empty(), "decoder not finished");
            cover(2);
        }
    }
}
fn de<T: Typed + Serialize + DeserializeOwned>(s: &Schema) {
    de_of::<T>(s, vec(param(2)))
}
fn de_of<T: Typed + Serialize + DeserializeOwned>(s: &Schema, input: Vec<u8>) {
    let t = Tree::new(s);
    let mut at = 0;
    let want = ref_value(&t, 0, &input, &mut at);
    let mut rd = &input[..];
    let mut cs = CoderState::new(s, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    match (T::deserialize(&mut d), want) {
        (Ok(x), Ok(v)) => {
            check(cs.is_finished(), "deserialized, but not finished");
            check(rd.len() == input.len() - at, "decoder consumed a wrong number of bytes");
            if T::EXACT {
                let mut out: Vec<u8> = Vec::new();
                let mut cs = CoderState::new(s, CoderStateAlloc::new(), None);
                let mut e = Encoder::new(&mut cs, &mut out);
                check(x.serialize(&mut e).is_ok() && cs.is_finished(), "deserialized, but does not serialize");
                let mut at = 0;
                match ref_value(&t, 0, &out, &mut at) {
                    Ok(w) => same(&v, &w),
                    Err(_) => check(false, "serialized to bytes that are not a valid message"),
                }
            }
            cover(3);
        }
        (Ok(_), Err(_)) => check(false, "bytes that are not a valid message were accepted"),
        (Err(e), Ok(_)) => {
            mismatch(&e);
            cover(4);
        }
        (Err(e), Err(b)) => {
            if e.kind() != b.kind() {
                mismatch(&e);
            }
            check(!cs.is_finished(), "finished after an error");
            cover(5);
        }
    }
}
pub const TYPES: usize = 24;
macro_rules! all {
    ($f:ident, $a:expr) => {
        dispatch!(param(0), $f, $a;
            u8, bool, u16, String, (), Option<u8>, Option<Option<()>>, Vec<u8>, // 0..
            [u8; 2], [u8; 0], (u8, String), (u8,), BTreeMap<u8, u8>, Vec<Option<u8>>, Blob, // 8..
            Unit, Tuple0, Struct0, Pair, Plain, Sum, Single, List, Chain, // 15..
        )
    };
}
/// params: type, shape, depth
pub fn c27_ser() {
    let s = shape(param(1));
    all!(ser, &s)
}
/// params: type, shape, input length
pub fn c27_de() {
    let s = shape(param(1));
    all!(de, &s)
}
// similar schemas
fn near(i: usize) -> Schema {
    match i {
        0 => schema!(struct { (a: u8), (bb: str) }),
        1 => schema!(struct { (a: u8), (bb: str), (c: seq(2)(u16)), (d: u8) }),
        2 => schema!(struct { (bb: str), (a: u8), (c: seq(2)(u16)) }),
        3 => schema!(struct { (a: u8), (bb: str), (c: tuple { (u16), (u16) }) }),
        4 => schema!(struct { (a: u8), (bb: str), (c: seq(varlen)(u16)) }),
        5 => schema!(struct { (a: u8), (bb: str), (c: seq(3)(u16)) }),
        6 => schema!(tuple { (u8), (str), (seq(2)(u16)) }),
        7 => schema!(enum { Unit(unit), New(u16) }),
        8 => schema!(enum { New(u16), Unit(unit) }),
        9 => schema!(enum { Unit(unit), New(u16), Tuple(seq(2)(u8)), Struct(struct { (x: u8) }) }),
        10 => schema!(enum { Unit(tuple {}), New(u8), Tuple(tuple { (u8), (bool), (u8) }) }),
        11 => schema!(enum { Only(u8), More(unit) }),
        12 => schema!(tuple { (u8), (option(bool)), (u8) }),
        13 => schema!(tuple { (u8), (u8) }),
        14 => schema!(seq(varlen)(tuple { (u8), (u8), (u8) })),
        15 => schema!(seq(2)(tuple { (u8), (u8) })),
        16 => schema!(struct { (value: u8), (next: option(struct { (value: u8), (next: unit) })) }),
        _ => schema!(enum { Unit(unit), New(u16), Tuple(tuple { (u8), (bool) }), Struct(struct { (x: u8), (y: option(u8)) }),
            Tuple0(unit), Struct0(struct {}), Nested(unit), Extra(u8) }),
    }
}
pub const NEAR: usize = 18;
/// params: type, near schema, depth
pub fn c27_near_ser() {
    let s = near(param(1));
    all!(ser, &s)
}
/// params: type, near schema, input length
pub fn c27_near_de() {
    let s = near(param(1));
    all!(de, &s)
}
/// A schema that is slightly off, somewhere.
fn off(s: &mut Schema) {
    fn place(n: usize) -> usize {
        assume(n > 0);
        let p = [0, n / 2, n.wrapping_sub(2), n - 1][choose(4)];
        assume(p < n);
        p
    }
    match s {
        Schema::Struct(v) => {
            let n = v.len();
            match choose(6) {
                0 => drop(v.remove(place(n))),
                1 => v.insert(place(n), ("zz", schema!(u8)).into()),
                2 => v.push(("zz", schema!(unit)).into()),
                3 => v[place(n)].name.push('x'),
                4 => {
                    let p = place(n);
                    v.swap(p, (p + 1) % n);
                }
                _ => off(&mut v[place(n)].inner),
            }
        }
        Schema::Enum(v) => {
            let n = v.len();
            match choose(6) {
                0 => drop(v.remove(place(n))),
                1 => v.insert(place(n), ("zz", schema!(u8)).into()),
                2 => v.push(("zz", schema!(unit)).into()),
                3 => v[place(n)].name.push('x'),
                4 => {
                    let p = place(n);
                    v.swap(p, (p + 1) % n);
                }
                _ => off(&mut v[place(n)].inner),
            }
        }
        Schema::Tuple(v) => {
            let n = v.len();
            match choose(4) {
                0 => drop(v.remove(place(n))),
                1 => v.insert(place(n), schema!(u8)),
                2 => v.push(schema!(unit)),
                _ => off(&mut v[place(n)]),
            }
        }
        Schema::Seq(SeqSchema { len: Some(n), inner }) => match choose(4) {
            0 => *n -= 1,
            1 => *n += 1,
            2 => *s = Schema::Tuple(vec![(**inner).clone(); *n]),
            _ => off(inner),
        },
        Schema::Seq(q) => match choose(2) {
            0 => q.len = Some(2),
            _ => off(&mut q.inner),
        },
        Schema::Option(i) => match choose(2) {
            0 => *s = (**i).clone(),
            _ => off(i),
        },
        Schema::Unit => *s = [schema!(tuple {}), schema!(struct {}), schema!(u8), schema!(bytes)][choose(4)].clone(),
        _ => *s = [schema!(u16), schema!(i8), schema!(str), schema!(unit), schema!(option(u8))][choose(5)].clone(),
    }
}
macro_rules! wide {
    ($f:ident, $a:expr) => {
        dispatch!(param(0), $f, $a;
            Wide20, Wide13, WideSum, Many, [u8; 32], (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8), Mixed, SkipSum, // 0..
            Plain, Sum, Skipping, Pair, Vec<(u8, bool)>, BTreeMap<u8, u8>, std::result::Result<u8, bool>, Twice, // 8..
        )
    };
}
pub const WIDE: usize = 16;
fn off_ser<T: Typed + Serialize + DeserializeOwned>(_: ()) {
    let mut s = T::shape();
    off(&mut s);
    let t = Tree::new(&s);
    let ok = param(0) == 3 || all_legal(&t) && all_inhabited(&t);
    assume(ok);
    ser::<T>(&s)
}
fn off_de<T: Typed + Serialize + DeserializeOwned>(_: ()) {
    let mut s = T::shape();
    off(&mut s);
    let t = Tree::new(&s);
    let ok = all_legal(&t) && all_inhabited(&t);
    assume(ok);
    let n = param(2);
    let mut input = vec![choose(2) as u8; n];
    input[0] = u8();
    input[n / 2] = u8();
    input[n - 1] = u8();
    de_of::<T>(&s, input)
}
/// Types against their own schemas with a small change somewhere.
/// params: type, -, depth
pub fn c27_off_ser() {
    wide!(off_ser, ())
}
/// params: type, -, input length
pub fn c27_off_de() {
    wide!(off_de, ())
}

pub const LEAVES: usize = 21;
fn leaf(i: usize) -> Schema {
    match i {
        0..=13 => Schema::Scalar(SCALARS[i]),
        14 => schema!(str),
        15 => schema!(bytes),
        16 => schema!(unit),
        17 => schema!(option(u32)),
        18 => schema!(seq(varlen)(u8)),
        19 => schema!(seq(1)(u32)),
        _ => schema!(tuple { (u32) }),
    }
}
fn leaf_pair<T: Serialize + DeserializeOwned>(x: T, k: usize) {
    let i = param(1);
    let s = leaf(i);
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut out);
    match x.serialize(&mut e) {
        Ok(()) => {
            check(i == k, "serialized under the schema of another type");
            check(cs.is_finished(), "serialized, but not finished");
            cover(2);
        }
        Err(e) => {
            check(i != k, "not serialized under its own schema");
            mismatch(&e);
            check(out.is_empty() && !cs.is_finished(), "a refused value left something behind");
            cover(1);
        }
    }
    let input = vec(param(2));
    let mut rd = &input[..];
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    let r = T::deserialize(&mut d);
    if i == k {
        let t = Tree::new(&s);
        let mut at = 0;
        let want = ref_value(&t, 0, &input, &mut at);
        check(r.is_ok() == want.is_ok(), "judged otherwise than the format says");
        if want.is_ok() {
            check(rd.len() == input.len() - at, "decoder consumed a wrong number of bytes");
            cover(3);
        }
    } else {
        match r {
            Ok(_) => check(false, "deserialized from the schema of another type"),
            Err(e) => mismatch(&e),
        }
        check(!cs.is_finished() && rd.len() == input.len(), "a refused type left something behind");
        cover(4);
    }
}
/// Every leaf type under every leaf's schema.  params: type, schema, input length
pub fn c27_leaf() {
    let k = param(0);
    match k {
        0 => leaf_pair(u8(), k),
        1 => leaf_pair(u16(), k),
        2 => leaf_pair(u32(), k),
        3 => leaf_pair(u64(), k),
        4 => leaf_pair(u128(), k),
        5 => leaf_pair(i8(), k),
        6 => leaf_pair(i16(), k),
        7 => leaf_pair(i32(), k),
        8 => leaf_pair(i64(), k),
        9 => leaf_pair(i128(), k),
        10 => leaf_pair(f32::from_bits(u32()), k),
        11 => leaf_pair(f64::from_bits(u64()), k),
        12 => leaf_pair(ch(), k),
        13 => leaf_pair(choose(2) == 0, k),
        14 => leaf_pair(text_of(choose(3)), k),
        15 => leaf_pair(Blob(vec(choose(3))), k),
        16 => leaf_pair((), k),
        21 => leaf_pair(u64() as usize, 3),
        _ => leaf_pair(u64() as isize, 8),
    }
}
