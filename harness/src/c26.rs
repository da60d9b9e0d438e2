//! C26: how a stream hands its bytes out makes no difference.
use crate::api::*;
use crate::dispatch;
use crate::gen::*;
use crate::io::*;
use crate::shapes::*;
use crate::spec::*;
use crate::typed::*;
use binschema::value::*;
use binschema::*;
use serde::de::DeserializeOwned;
use serde::Serialize;

/// params: shape, nodes, width, odd calls
pub fn c26_enc() {
    let s = shape(param(0));
    let t = Tree::new(&s);
    let mut fuel = param(1);
    let v = any_value(&t, 0, &mut fuel, param(2));
    let mut w = SlowW { out: Vec::new(), odd: param(3) };
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut w);
    check(v.encode_to(&mut e).is_ok(), "encoding to a slow writer failed");
    check(cs.is_finished(), "encoder not finished");
    observe_bytes(&w.out);
    let end = expect_value(&t, 0, &v, &w.out, 0);
    check(end == w.out.len(), "encoding longer than the format prescribes");
    cover(1);
}
/// params: shape, nodes, width, odd calls
pub fn c26_dec() {
    let s = shape(param(0));
    let t = Tree::new(&s);
    let mut fuel = param(1);
    let v = any_value(&t, 0, &mut fuel, param(2));
    let mut out = encode_value(&s, &t, &v);
    out.push(u8());
    let mut rd = Slow { data: &out, odd: param(3) };
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    match Value::decode_from(&mut d) {
        Ok(w) => same(&v, &w),
        Err(_) => check(false, "decoding from a slow reader failed"),
    }
    check(cs.is_finished(), "decoder not finished");
    check(rd.data.len() == 1, "decoder consumed a different number of bytes than encoded");
    cover(2);
}
/// params: shape, input length, odd calls
pub fn c26_bad() {
    let s = shape(param(0));
    let t = Tree::new(&s);
    let input = vec(param(1));
    let mut at = 0;
    let want = ref_value(&t, 0, &input, &mut at);
    let mut rd = Slow { data: &input, odd: param(2) };
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    match (Value::decode_from(&mut d), want) {
        (Ok(v), Ok(w)) => same(&v, &w),
        (Err(e), Err(b)) => check(e.kind() == b.kind(), "decoding error of the wrong kind"),
        (Ok(_), Err(_)) => check(false, "bytes that are not a valid message were accepted"),
        (Err(_), Ok(_)) => check(false, "a valid message was rejected"),
    }
    cover(3);
}
fn typed<T: Typed + Serialize + DeserializeOwned>(f: usize) {
    let s = T::shape();
    let t = Tree::new(&s);
    let x = T::any(f);
    let mut w = SlowW { out: Vec::new(), odd: param(2) };
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut w);
    check(x.serialize(&mut e).is_ok(), "serializing to a slow writer failed");
    check(cs.is_finished(), "encoder not finished");
    let end = expect_value(&t, 0, &x.value(), &w.out, 0);
    check(end == w.out.len(), "encoding longer than the format prescribes");
    let mut rd = Slow { data: &w.out, odd: param(2) };
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    match T::deserialize(&mut d) {
        Ok(y) => x.agree(&y),
        Err(_) => check(false, "deserializing from a slow reader failed"),
    }
    check(cs.is_finished() && rd.data.is_empty(), "decoder not finished");
    cover(4);
}
pub const TYPES: usize = 8;
/// params: type, depth, odd calls
pub fn c26_serde() {
    dispatch!(param(0), typed, param(1); u64, i64, f64, String, Blob, (u16, Option<bool>), Vec<u16>, Sum)
}
/// params: kind (see long.rs), size, odd calls
pub fn c26_long() {
    let (s, v) = crate::long::long(param(0), param(1), 1);
    let t = Tree::new(&s);
    let mut w = SlowW { out: Vec::new(), odd: param(2) };
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut w);
    check(v.encode_to(&mut e).is_ok(), "encoding to a slow writer failed");
    check(cs.is_finished(), "encoder not finished");
    let end = expect_value(&t, 0, &v, &w.out, 0);
    check(end == w.out.len(), "encoding longer than the format prescribes");
    w.out.push(u8());
    let mut rd = Slow { data: &w.out, odd: param(2) };
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    match Value::decode_from(&mut d) {
        Ok(w) => same(&v, &w),
        Err(_) => check(false, "decoding from a slow reader failed"),
    }
    check(cs.is_finished(), "decoder not finished");
    check(rd.data.len() == 1, "decoder consumed a different number of bytes than encoded");
    cover(2);
}
/// A stream that never transfers more than `chunk` bytes and is interrupted
/// before every transfer.
struct Drip<'a> {
    data: &'a [u8],
    chunk: usize,
    ready: bool,
}
impl<'a> std::io::Read for Drip<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.ready = !self.ready;
        if self.ready {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(self.data.len()).min(self.chunk);
        b[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}
struct DripW {
    out: Vec<u8>,
    chunk: usize,
    ready: bool,
}
impl std::io::Write for DripW {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.ready = !self.ready;
        if self.ready {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(self.chunk);
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// params: kind (see long.rs), size, bytes per transfer
pub fn c26_drip() {
    let (s, v) = crate::long::long(param(0), param(1), 1);
    let t = Tree::new(&s);
    let mut w = DripW { out: Vec::new(), chunk: param(2), ready: false };
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut w);
    check(v.encode_to(&mut e).is_ok(), "encoding to a slow writer failed");
    check(cs.is_finished(), "encoder not finished");
    let end = expect_value(&t, 0, &v, &w.out, 0);
    check(end == w.out.len(), "encoding longer than the format prescribes");
    w.out.push(u8());
    let mut rd = Drip { data: &w.out, chunk: param(2), ready: false };
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    match Value::decode_from(&mut d) {
        Ok(w) => same(&v, &w),
        Err(_) => check(false, "decoding from a slow reader failed"),
    }
    check(cs.is_finished(), "decoder not finished");
    check(rd.data.len() == 1, "decoder consumed a different number of bytes than encoded");
    cover(2);
}
