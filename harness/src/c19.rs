//! C19: failing and truncated streams are reported, and end the coding.
use crate::api::*;
use crate::dispatch;
use crate::drive::*;
use crate::gen::*;
use crate::io::*;
use crate::shapes::*;
use crate::spec::*;
use crate::typed::*;
use binschema::error::*;
use binschema::value::*;
use binschema::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::*;

fn dead_enc(cs: &mut CoderState, w: &mut Room, full: &[u8], room: usize) {
    check(!cs.is_finished(), "finished although writing failed");
    check(cs.is_finished_or_err().is_err(), "finished although writing failed");
    check(w.out.len() == room, "not everything before the failure was written");
    same_bytes(&w.out, &full[..room]);
    w.room = 100_000;
    let mut e = Encoder::new(cs, w);
    check_api_usage(e.encode_unit());
    check_api_usage(e.encode_u8(1));
    check_api_usage(e.begin_seq_elem());
    check_api_usage(e.finish_seq());
    check_api_usage(e.finish_tuple());
    check_api_usage(e.begin_struct_field("a"));
    check_api_usage(e.begin_enum(0, "A"));
    check(w.out.len() == room, "a broken encoder wrote bytes");
    cover(1);
}
fn is_io<T>(r: &Result<T>) {
    match r {
        Ok(_) => check(false, "a failing stream went unnoticed"),
        Err(e) => check(e.kind() == ErrorKind::Io, "a failing stream: wrong error kind"),
    }
}
/// params: shape, nodes, width
pub fn c19_enc() {
    let s = shape(param(0));
    let t = Tree::new(&s);
    let mut fuel = param(1);
    let v = any_value(&t, 0, &mut fuel, param(2));
    let full = encode_value(&s, &t, &v);
    assume(!full.is_empty());
    let room = choose(full.len());
    let mut w = Room { out: Vec::new(), room, mode: choose(FAILURES) };
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut w);
    let r = v.encode_to(&mut e);
    is_io(&r);
    observe(room as u64);
    dead_enc(&mut cs, &mut w, &full, room);
}
fn dead_dec(cs: &mut CoderState) {
    check(!cs.is_finished(), "finished although reading failed");
    check(cs.is_finished_or_err().is_err(), "finished although reading failed");
    let more = [0u8; 40];
    let mut rd = &more[..];
    let mut d = Decoder::new(cs, &mut rd);
    check_api_usage(d.decode_unit());
    check_api_usage(d.decode_u8());
    check_api_usage(d.decode_str());
    check_api_usage(d.begin_option());
    check_api_usage(d.begin_seq_elem());
    check_api_usage(d.finish_seq());
    check_api_usage(d.begin_enum());
    check_api_usage(d.begin_enum_variant("A"));
    check(rd.len() == more.len(), "a broken decoder consumed input");
    cover(2);
}
/// params: shape, nodes, width
pub fn c19_dec() {
    let s = shape(param(0));
    let t = Tree::new(&s);
    let mut fuel = param(1);
    let v = any_value(&t, 0, &mut fuel, param(2));
    let full = encode_value(&s, &t, &v);
    assume(!full.is_empty());
    let room = choose(full.len());
    let mut rd = Cut { data: &full[..room], mode: choose(FAILURES) };
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    match choose(2) {
        0 => is_io(&Value::decode_from(&mut d)),
        _ => is_io(&<serde::de::IgnoredAny as serde::Deserialize>::deserialize(&mut d)),
    }
    dead_dec(&mut cs);
}
fn typed<T: Typed + Serialize + DeserializeOwned>(f: usize) {
    let s = T::shape();
    let x = T::any(f);
    let mut full: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut full);
    check(x.serialize(&mut e).is_ok(), "serializing failed");
    assume(!full.is_empty());
    let room = choose(full.len());
    let mode = choose(FAILURES);
    if choose(2) == 0 {
        let mut w = Room { out: Vec::new(), room, mode };
        let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
        let mut e = Encoder::new(&mut cs, &mut w);
        let r = x.serialize(&mut e);
        is_io(&r);
        dead_enc(&mut cs, &mut w, &full, room);
    } else {
        let mut rd = Cut { data: &full[..room], mode };
        let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
        let mut d = Decoder::new(&mut cs, &mut rd);
        is_io(&T::deserialize(&mut d));
        dead_dec(&mut cs);
    }
}
pub const TYPES: usize = 14;
/// params: type, depth
pub fn c19_serde() {
    dispatch!(param(0), typed, param(1);
        u16, u64, i128, String, Blob, f64, Option<Vec<u8>>, BTreeMap<u8, u16>, (u8, Option<bool>, [u8; 2]),
        Plain, Sum, List, Skipping, Tree2,
    )
}
fn some_room(n: usize) -> usize {
    match choose(9) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => n / 2,
        4 => n - 1,
        5 => n.saturating_sub(2),
        6 => n.saturating_sub(10),
        7 => n / 2 + 1,
        _ => n / 3,
    }
}
/// Long messages that end or fail in the middle.
/// params: kind (see long.rs), size
pub fn c19_long_enc() {
    let (s, v) = crate::long::long(param(0), param(1), 1);
    let t = Tree::new(&s);
    let full = encode_value(&s, &t, &v);
    let room = some_room(full.len());
    assume(room < full.len());
    let mut w = Room { out: Vec::new(), room, mode: choose(FAILURES) };
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut w);
    let r = v.encode_to(&mut e);
    is_io(&r);
    observe(room as u64);
    dead_enc(&mut cs, &mut w, &full, room);
}
/// params: kind (see long.rs), size
pub fn c19_long_dec() {
    let (s, v) = crate::long::long(param(0), param(1), 1);
    let t = Tree::new(&s);
    let full = encode_value(&s, &t, &v);
    let room = some_room(full.len());
    assume(room < full.len());
    let mut rd = Cut { data: &full[..room], mode: choose(FAILURES) };
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    match choose(2) {
        0 => is_io(&Value::decode_from(&mut d)),
        _ => is_io(&<serde::de::IgnoredAny as serde::Deserialize>::deserialize(&mut d)),
    }
    dead_dec(&mut cs);
}

const IO_KINDS: [std::io::ErrorKind; 36] = {
    use std::io::ErrorKind::*;
    [
        InvalidData, UnexpectedEof, WriteZero, NotFound, PermissionDenied, ConnectionRefused, ConnectionReset,
        ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock,
        InvalidInput, TimedOut, Unsupported, OutOfMemory, Other, HostUnreachable, NetworkUnreachable, NetworkDown,
        NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, StaleNetworkFileHandle, StorageFull,
        NotSeekable, QuotaExceeded, FileTooLarge, ResourceBusy, ExecutableFileBusy, Deadlock, TooManyLinks,
        ArgumentListTooLong,
    ]
};
/// A stream of `room` bytes which then fails with an error of the kind.
struct Fails {
    room: usize,
    kind: std::io::ErrorKind,
    custom: bool,
}
impl Fails {
    fn go(&mut self, n: usize) -> std::io::Result<usize> {
        if n > 0 && self.room == 0 {
            return Err(if self.custom {
                std::io::Error::new(self.kind, "unplugged")
            } else {
                std::io::Error::from(self.kind)
            });
        }
        let n = if n < self.room { n } else { self.room };
        self.room -= n;
        Ok(n)
    }
}
impl std::io::Read for Fails {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.go(b.len())?;
        for x in &mut b[..n] {
            // (a length, number or flag that asks for more)
            *x = 0x81;
        }
        Ok(n)
    }
}
impl std::io::Write for Fails {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.go(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn is_that<T>(r: Result<T>, kind: std::io::ErrorKind, custom: bool) {
    match r {
        Ok(_) => check(false, "a failing stream went unnoticed"),
        Err(e) => {
            check(e.kind() == ErrorKind::Io, "a failing stream: wrong error kind");
            match e.inner().downcast_ref::<std::io::Error>() {
                Some(i) => {
                    check(i.kind() == kind, "not the error of the stream");
                    check(i.get_ref().is_some() == custom, "not the error of the stream");
                }
                None => check(false, "not the error of the stream"),
            }
        }
    }
}
/// Streams failing with errors of every kind.  params: schema
pub fn c19_kinds() {
    let kind = IO_KINDS[choose(IO_KINDS.len())];
    let custom = choose(2) == 1;
    let k = param(0);
    let s = match k {
        0..=13 => Schema::Scalar(SCALARS[k]),
        14 => schema!(str),
        15 => schema!(bytes),
        16 => schema!(option(unit)),
        17 => schema!(seq(varlen)(unit)),
        _ => Schema::Enum((0..300).map(|_| ("A", Schema::Unit).into()).collect()),
    };
    // how many bytes go well, of those the call is about
    let size = match (k, choose(2)) {
        (14 | 15, 0) => 4,
        (0 | 5 | 13 | 16, _) => 1,
        _ => 2,
    };
    let enc = choose(2) == 0;
    let room = choose(size);
    let mut w = Fails { room, kind, custom };
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    if enc {
        let mut e = Encoder::new(&mut cs, &mut w);
        let r = match k {
            0..=13 => enc_scalar(&mut e, match SCALARS[k] {
                ScalarType::U8 => ScalarValue::U8(200),
                ScalarType::U16 => ScalarValue::U16(200),
                ScalarType::U32 => ScalarValue::U32(200),
                ScalarType::U64 => ScalarValue::U64(200),
                ScalarType::U128 => ScalarValue::U128(200),
                ScalarType::I8 => ScalarValue::I8(100),
                ScalarType::I16 => ScalarValue::I16(200),
                ScalarType::I32 => ScalarValue::I32(200),
                ScalarType::I64 => ScalarValue::I64(-200),
                ScalarType::I128 => ScalarValue::I128(200),
                ScalarType::F32 => ScalarValue::F32(1.5),
                ScalarType::F64 => ScalarValue::F64(1.5),
                ScalarType::Char => ScalarValue::Char('\u{e9}'),
                ScalarType::Bool => ScalarValue::Bool(true),
            }),
            14 => e.encode_str("abcd"),
            15 => e.encode_bytes(b"abcd"),
            16 => e.encode_none(),
            17 => e.begin_var_len_seq(200),
            _ => e.begin_enum(299, "A"),
        };
        is_that(r, kind, custom);
    } else {
        let mut d = Decoder::new(&mut cs, &mut w);
        match k {
            0..=13 => is_that(dec_scalar(&mut d, SCALARS[k]), kind, custom),
            14 => is_that(d.decode_str(), kind, custom),
            15 => is_that(d.decode_bytes(), kind, custom),
            16 => is_that(d.begin_option(), kind, custom),
            17 => is_that(d.begin_var_len_seq(), kind, custom),
            _ => is_that(d.begin_enum(), kind, custom),
        }
    }
    check(!cs.is_finished(), "finished although the stream failed");
    dead_dec(&mut cs);
    cover(1);
}
