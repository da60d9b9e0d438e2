//! C20: a debug log changes nothing but the log, even when it cannot be written.
use crate::api::*;
use crate::dispatch;
use crate::gen::*;
use crate::io::*;
use crate::machine::*;
use crate::shapes::*;
use crate::spec::*;
use crate::typed::*;
use binschema::error::Error;
use binschema::value::*;
use binschema::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::io::Write;

/// A log that takes `good` writes, then fails as `mode` says (mode FAILURES:
/// never).
pub struct Log {
    good: usize,
    mode: usize,
}
impl Write for Log {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.mode == FAILURES {
            return Ok(b.len());
        }
        if self.good > 0 {
            self.good -= 1;
            return Ok(b.len());
        }
        failure(self.mode)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn some_log() -> Log {
    match choose(4) {
        0 => Log { good: 0, mode: FAILURES },
        1 => Log { good: 0, mode: choose(FAILURES) },
        2 => Log { good: 1 + choose(4), mode: 0 },
        _ => Log { good: 7, mode: 1 },
    }
}
fn outcome<T>(r: &Result<T, Error>) -> u64 {
    match r {
        Ok(_) => 0,
        Err(e) => 1 + kind_code(e.kind()),
    }
}

/// params: shape, nodes, width
pub fn c20_enc() {
    let s = shape(param(0));
    let t = Tree::new(&s);
    let mut fuel = param(1);
    let v = any_value(&t, 0, &mut fuel, param(2));
    let plain = encode_value(&s, &t, &v);
    let mut log = some_log();
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), Some(&mut log));
    let mut e = Encoder::new(&mut cs, &mut out);
    check(v.encode_to(&mut e).is_ok(), "encoding fails with a log");
    check(cs.is_finished(), "encoder not finished with a log");
    same_bytes(&plain, &out);
    let alloc = cs.into_alloc();
    // decode likewise, reusing the allocation
    let mut log = some_log();
    let mut rd = &out[..];
    let mut cs = CoderState::new(&s, alloc, Some(&mut log));
    let mut d = Decoder::new(&mut cs, &mut rd);
    match Value::decode_from(&mut d) {
        Ok(w) => same(&v, &w),
        Err(_) => check(false, "decoding fails with a log"),
    }
    check(cs.is_finished() && rd.is_empty(), "decoder not finished with a log");
    cover(1);
}
/// Arbitrary bytes.  params: shape, input length
pub fn c20_dec() {
    let s = shape(param(0));
    let t = Tree::new(&s);
    let input = vec(param(1));
    let plain = decode_value(&s, &t, &input);
    let mut log = some_log();
    let mut rd = &input[..];
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), Some(&mut log));
    let mut d = Decoder::new(&mut cs, &mut rd);
    match (plain, Value::decode_from(&mut d)) {
        (Ok((v, at)), Ok(w)) => {
            same(&v, &w);
            check(cs.is_finished() && rd.len() == input.len() - at, "decoding differs with a log");
            cover(2);
        }
        (Err(b), Err(e)) => {
            check(e.kind() == b.kind(), "decoding error differs with a log");
            check(!cs.is_finished(), "finished after an error");
            cover(3);
        }
        _ => check(false, "the outcome of decoding differs with a log"),
    }
}
/// Any calls, right or wrong, with and without a log.  params: shape, right
/// calls, wrong calls
pub fn c20_calls() {
    let s = shape(param(0));
    let t = Tree::new(&s);
    let mut m = Model::new(&t);
    let mut log = some_log();
    let (mut o1, mut o2) = (Vec::<u8>::new(), Vec::<u8>::new());
    let mut c1 = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut c2 = CoderState::new(&s, CoderStateAlloc::new(), Some(&mut log));
    let mut wrong = param(2);
    let mut right = param(1);
    while right > 0 {
        let op = match next_op(&m, true) {
            Some(_) if wrong > 0 && choose(2) == 1 => {
                wrong -= 1;
                any_enc_op()
            }
            Some(op) => op,
            None => break,
        };
        right -= 1;
        let v = m.verdict(&op);
        let r1 = enc_op(&mut Encoder::new(&mut c1, &mut o1), &op);
        let r2 = enc_op(&mut Encoder::new(&mut c2, &mut o2), &op);
        check(outcome(&r1) == outcome(&r2), "the outcome of a call differs with a log");
        check(c1.is_finished() == c2.is_finished(), "is_finished differs with a log");
        same_bytes(&o1, &o2);
        match v {
            V::Ok => m.apply(&op),
            V::Illegal => break,
            _ => (),
        }
    }
    cover(4);
}
fn typed<T: Typed + Serialize + DeserializeOwned>(f: usize) {
    let s = T::shape();
    let x = T::any(f);
    let mut plain: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    check(x.serialize(&mut Encoder::new(&mut cs, &mut plain)).is_ok(), "serializing failed");
    let mut log = some_log();
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), Some(&mut log));
    check(x.serialize(&mut Encoder::new(&mut cs, &mut out)).is_ok(), "serializing fails with a log");
    check(cs.is_finished(), "encoder not finished with a log");
    same_bytes(&plain, &out);
    let mut log = some_log();
    let mut rd = &out[..];
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), Some(&mut log));
    match T::deserialize(&mut Decoder::new(&mut cs, &mut rd)) {
        Ok(y) => x.agree(&y),
        Err(_) => check(false, "deserializing fails with a log"),
    }
    check(cs.is_finished() && rd.is_empty(), "decoder not finished with a log");
    cover(5);
}
/// params: type, depth
pub fn c20_serde() {
    dispatch!(param(0), typed, param(1);
        u8, String, Option<Option<()>>, Vec<u16>, [u8; 0], std::collections::BTreeMap<u8, u16>, Blob, Struct0, Pair,
        Plain, Sum, List, Tree2, (u8, String),
    )
}
/// Long and deep messages.  params: kind (see long.rs), size
pub fn c20_long() {
    let (s, v) = crate::long::long(param(0), param(1), 1);
    let t = Tree::new(&s);
    let plain = encode_value(&s, &t, &v);
    let some = || match choose(3) {
        0 => Log { good: 0, mode: FAILURES },
        1 => Log { good: 40, mode: 3 },
        _ => Log { good: 0, mode: 0 },
    };
    let mut log = some();
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), Some(&mut log));
    let mut e = Encoder::new(&mut cs, &mut out);
    check(v.encode_to(&mut e).is_ok(), "encoding fails with a log");
    check(cs.is_finished(), "encoder not finished with a log");
    same_bytes(&plain, &out);
    let alloc = cs.into_alloc();
    let mut log = some();
    let mut rd = &out[..];
    let mut cs = CoderState::new(&s, alloc, Some(&mut log));
    let mut d = Decoder::new(&mut cs, &mut rd);
    if choose(2) == 0 {
        match Value::decode_from(&mut d) {
            Ok(w) => same(&v, &w),
            Err(_) => check(false, "decoding fails with a log"),
        }
    } else {
        let r = <serde::de::IgnoredAny as serde::Deserialize>::deserialize(&mut d);
        check(r.is_ok(), "skipping fails with a log");
    }
    check(cs.is_finished() && rd.is_empty(), "decoder not finished with a log");
    cover(1);
}
