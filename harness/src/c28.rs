//! C28: serde implementations that do whatever they like.
use crate::api::*;
use crate::long::script;
use crate::machine::*;
use crate::shapes::*;
use crate::spec::*;
use binschema::error::{Error, ErrorKind};
use binschema::value::*;
use binschema::*;
use serde::de::*;
use serde::ser::*;
use std::cell::{Cell, RefCell};

/// What the implementation has passed, or was handed, so far.
struct Log {
    ops: RefCell<Vec<Op>>,
    fuel: Cell<usize>,
    /// it did something that need not end in a whole message
    odd: Cell<bool>,
    /// it ignored an error
    forgiven: Cell<bool>,
    names: Vec<&'static str>,
    lists: Vec<&'static [&'static str]>,
}
impl Log {
    fn new(s: &Schema, fuel: usize, max: usize) -> Self {
        let mut names: Vec<&'static str> = Vec::new();
        let mut lists: Vec<&'static [&'static str]> = Vec::new();
        let t = Tree::new(s);
        for n in &t.nodes {
            let here: Vec<&'static str> = match n.s {
                Schema::Struct(v) => v.iter().map(|f| forever(&f.name)).collect(),
                Schema::Enum(v) => v.iter().map(|f| forever(&f.name)).collect(),
                _ => continue,
            };
            for x in &here {
                if names.len() < max && !names.contains(x) {
                    names.push(x);
                }
            }
            if lists.len() < 2 {
                lists.push(Box::leak(here.into_boxed_slice()));
            }
        }
        names.push("zz");
        if let Some(&l) = lists.first() {
            // one name missing, one name more
            if l.len() > 0 {
                lists.push(&l[..l.len() - 1]);
            }
            let mut more = l.to_vec();
            more.push("zz");
            lists.push(Box::leak(more.into_boxed_slice()));
        }
        lists.push(&[]);
        Log { ops: RefCell::new(Vec::with_capacity(32)), fuel: Cell::new(fuel), odd: Cell::new(false), forgiven: Cell::new(false), names, lists }
    }
    fn put(&self, op: Op) {
        self.ops.borrow_mut().push(op)
    }
    fn mark(&self) -> usize {
        self.ops.borrow().len()
    }
    fn back(&self, n: usize) {
        self.ops.borrow_mut().truncate(n)
    }
    fn burn(&self) {
        let f = self.fuel.get();
        assume(f > 0);
        self.fuel.set(f - 1);
    }
    fn name(&self) -> &'static str {
        self.names[choose(self.names.len())]
    }
    fn list(&self) -> &'static [&'static str] {
        self.lists[choose(self.lists.len())]
    }
    /// Pass an error on, or carry on as if nothing had happened.
    fn forgive<E>(&self, mark: usize, e: E) -> std::result::Result<(), E> {
        if self.forgiven.get() || choose(2) == 0 {
            return Err(e);
        }
        self.odd.set(true);
        self.forgiven.set(true);
        self.back(mark);
        Ok(())
    }
}
fn forever(s: &str) -> &'static str {
    unsafe { std::mem::transmute::<&str, &'static str>(s) }
}
fn ord() -> u32 {
    [0, 1, 2, 256][choose(4)]
}
/// The number of parts claimed.
fn claim() -> usize {
    u8() as usize
}

impl Serialize for Log {
    fn serialize<S: Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        self.burn();
        match choose(30) {
            k @ 0..=13 => {
                let x = any_scalar(SCALARS[k]);
                self.put(Op::Scalar(SCALARS[k], x));
                match x {
                    ScalarValue::U8(n) => s.serialize_u8(n),
                    ScalarValue::U16(n) => s.serialize_u16(n),
                    ScalarValue::U32(n) => s.serialize_u32(n),
                    ScalarValue::U64(n) => s.serialize_u64(n),
                    ScalarValue::U128(n) => s.serialize_u128(n),
                    ScalarValue::I8(n) => s.serialize_i8(n),
                    ScalarValue::I16(n) => s.serialize_i16(n),
                    ScalarValue::I32(n) => s.serialize_i32(n),
                    ScalarValue::I64(n) => s.serialize_i64(n),
                    ScalarValue::I128(n) => s.serialize_i128(n),
                    ScalarValue::F32(n) => s.serialize_f32(n),
                    ScalarValue::F64(n) => s.serialize_f64(n),
                    ScalarValue::Char(n) => s.serialize_char(n),
                    ScalarValue::Bool(n) => s.serialize_bool(n),
                }
            }
            14 => {
                let x = crate::gen::ascii_of(1);
                self.put(Op::Str(x.clone().into_bytes()));
                s.serialize_str(&x)
            }
            15 => {
                let x = vec(1);
                self.put(Op::Bytes(x.clone()));
                s.serialize_bytes(&x)
            }
            16 => {
                self.put(Op::None);
                s.serialize_none()
            }
            17 => {
                self.put(Op::Some);
                s.serialize_some(self)
            }
            18 => {
                self.put(Op::Unit);
                s.serialize_unit()
            }
            19 => {
                self.put(Op::Unit);
                s.serialize_unit_struct("x")
            }
            20 => {
                let (o, n) = (ord(), self.name());
                self.put(Op::Enum(o as usize, n.as_bytes().to_vec()));
                self.put(Op::Unit);
                s.serialize_unit_variant("x", o, n)
            }
            21 => s.serialize_newtype_struct("x", self),
            22 => {
                let (o, n) = (ord(), self.name());
                self.put(Op::Enum(o as usize, n.as_bytes().to_vec()));
                s.serialize_newtype_variant("x", o, n, self)
            }
            23 => {
                self.put(Op::Tuple);
                let c = claim();
                let mut q = s.serialize_seq(if choose(2) == 0 { None } else { Some(c) })?;
                for _ in 0..choose(3) {
                    let mark = self.mark();
                    self.put(Op::Elem);
                    if let Err(e) = q.serialize_element(self) {
                        self.forgive(mark, e)?;
                    }
                }
                self.put(Op::EndSeq);
                q.end()
            }
            24 => {
                self.put(Op::Tuple);
                let mut q = s.serialize_tuple(claim())?;
                for _ in 0..choose(3) {
                    let mark = self.mark();
                    self.put(Op::Elem);
                    if let Err(e) = q.serialize_element(self) {
                        self.forgive(mark, e)?;
                    }
                }
                self.put(Op::EndSeq);
                q.end()
            }
            25 => {
                self.put(Op::Tuple);
                let mut q = s.serialize_tuple_struct("x", claim())?;
                for _ in 0..choose(3) {
                    let mark = self.mark();
                    self.put(Op::Elem);
                    if let Err(e) = SerializeTupleStruct::serialize_field(&mut q, self) {
                        self.forgive(mark, e)?;
                    }
                }
                self.put(Op::EndSeq);
                q.end()
            }
            26 => {
                let (o, n) = (ord(), self.name());
                self.put(Op::Enum(o as usize, n.as_bytes().to_vec()));
                self.put(Op::Tuple);
                let mut q = s.serialize_tuple_variant("x", o, n, claim())?;
                for _ in 0..choose(3) {
                    let mark = self.mark();
                    self.put(Op::Elem);
                    if let Err(e) = SerializeTupleVariant::serialize_field(&mut q, self) {
                        self.forgive(mark, e)?;
                    }
                }
                self.put(Op::EndSeq);
                q.end()
            }
            27 => {
                self.put(Op::Tuple);
                let c = claim();
                let mut q = s.serialize_map(if choose(2) == 0 { None } else { Some(c) })?;
                for _ in 0..choose(3) {
                    let mark = self.mark();
                    // (serde leaves a value without a key unspecified)
                    self.put(Op::Elem);
                    self.put(Op::Tuple);
                    self.put(Op::Elem);
                    let r = match choose(3) {
                        0 => q.serialize_key(self),
                        1 => match q.serialize_key(self) {
                            Ok(()) => {
                                self.put(Op::Elem);
                                let r = q.serialize_value(self);
                                self.put(Op::EndSeq);
                                r
                            }
                            e => e,
                        },
                        _ => {
                            let r = q.serialize_entry(self, &Value2(self));
                            self.put(Op::EndSeq);
                            r
                        }
                    };
                    if let Err(e) = r {
                        self.forgive(mark, e)?;
                    }
                }
                self.put(Op::EndSeq);
                q.end()
            }
            28 => {
                self.put(Op::Struct);
                let mut q = s.serialize_struct("x", claim())?;
                for _ in 0..choose(4) {
                    let mark = self.mark();
                    let n = self.name();
                    self.put(Op::Field(n.as_bytes().to_vec()));
                    let r = if choose(2) == 0 {
                        SerializeStruct::serialize_field(&mut q, n, self)
                    } else {
                        self.put(Op::None);
                        SerializeStruct::skip_field(&mut q, n)
                    };
                    if let Err(e) = r {
                        self.forgive(mark, e)?;
                    }
                }
                self.put(Op::EndStruct);
                q.end()
            }
            _ => {
                let (o, n) = (ord(), self.name());
                self.put(Op::Enum(o as usize, n.as_bytes().to_vec()));
                self.put(Op::Struct);
                let mut q = s.serialize_struct_variant("x", o, n, claim())?;
                for _ in 0..choose(3) {
                    let mark = self.mark();
                    let n = self.name();
                    self.put(Op::Field(n.as_bytes().to_vec()));
                    let r = if choose(2) == 0 {
                        SerializeStructVariant::serialize_field(&mut q, n, self)
                    } else {
                        self.put(Op::None);
                        SerializeStructVariant::skip_field(&mut q, n)
                    };
                    if let Err(e) = r {
                        self.forgive(mark, e)?;
                    }
                }
                self.put(Op::EndStruct);
                q.end()
            }
        }
    }
}
/// The value of a map entry: an element of its own in the log.
struct Value2<'l>(&'l Log);
impl Serialize for Value2<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        self.0.put(Op::Elem);
        self.0.serialize(s)
    }
}

/// `got` are the parts of `want`; how sequences are told apart is not
/// compared, nor are (`names`: unless) the names of variants.
fn agree(got: &[Op], want: &[Op], names: bool) {
    let mut g = 0;
    let mut w = 0;
    while w < want.len() {
        check(g < got.len(), "a part of the message was never passed");
        match (&got[g], &want[w]) {
            (&Op::Scalar(a, x), &Op::Scalar(b, y)) => {
                check(a == b, "another type of scalar");
                same_scalar(x, y);
            }
            (Op::Str(x), Op::Str(y)) | (Op::Bytes(x), Op::Bytes(y)) | (Op::Field(x), Op::Field(y)) => same_bytes(x, y),
            (Op::Unit, Op::Unit) | (Op::None, Op::None) | (Op::Some, Op::Some) => (),
            (Op::Tuple, Op::Unit) => {
                // an empty sequence for a unit
                g += 1;
                check(g < got.len() && matches!(got[g], Op::EndSeq), "another kind of value");
            }
            (Op::Tuple, Op::Tuple | Op::FixedSeq(_) | Op::VarSeq(_)) => (),
            (Op::Elem, Op::Elem | Op::TElem) => (),
            (Op::EndSeq, Op::EndSeq | Op::EndTuple) => (),
            (Op::Struct, Op::Struct) | (Op::EndStruct, Op::EndStruct) => (),
            (Op::Enum(o, x), Op::Enum(p, y)) => {
                check(o == p, "another variant");
                if names {
                    same_bytes(x, y);
                }
            }
            _ => check(false, "another kind of value"),
        }
        g += 1;
        w += 1;
    }
    check(g == got.len(), "a part that was passed is not in the message");
}
fn mismatch(k: ErrorKind) -> bool {
    k == ErrorKind::SchemaNonConformance || k == ErrorKind::ApiUsage || k == ErrorKind::Other
}
fn kind(r: &std::result::Result<(), Error>) -> u64 {
    match r {
        Ok(()) => 0,
        Err(e) => 1000 + kind_code(e.kind()),
    }
}

/// The shapes, and some with optional parts within all kinds of composites.
fn shape28(i: usize) -> Schema {
    match i {
        38 => schema!(enum { V(struct { (a: option(u8)), (b: u8) }), T(tuple { (u8), (option(unit)) }) }),
        39 => schema!(seq(varlen)(tuple { (u8), (option(u8)) })),
        40 => schema!(struct { (a: option(u8)), (b: option(unit)), (c: u8) }),
        41 => schema!(option(enum { V(struct { (a: u8) }), W(tuple {}), X(option(u8)) })),
        42 => schema!(struct { (a: struct { (b: option(u8)) }), (c: unit) }),
        43 => schema!(tuple { (seq(varlen)(u8)), (option(u8)), (unit) }),
        44 => schema!(seq(2)(enum { V(struct {}), W(seq(varlen)(u8)) })),
        45 => schema!(seq(varlen)(tuple { (option(unit)), (struct { (a: u8) }) })),
        _ => shape(i),
    }
}
/// params: shape, values
pub fn c28_ser() {
    let s = shape28(param(0));
    let log = Log::new(&s, param(1), if param(0) < LEGAL { 3 } else { 4 });
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut out);
    let r = log.serialize(&mut e);
    observe(kind(&r));
    observe_bytes(&out);
    match &r {
        Ok(()) => {
            check(cs.is_finished() == cs.is_finished_or_err().is_ok(), "is_finished disagrees with is_finished_or_err");
            if !cs.is_finished() {
                check(log.odd.get(), "serialized, but not finished");
                cover(2);
                return;
            }
            let t = Tree::new(&s);
            let mut at = 0;
            match ref_value(&t, 0, &out, &mut at) {
                Ok(v) => {
                    check(at == out.len(), "more bytes than the message");
                    let mut want = Vec::new();
                    script(&v, &mut want);
                    // (a sequence under a unit is refused after the unit is coded)
                    if !log.forgiven.get() {
                        agree(&log.ops.borrow(), &want, true);
                    }
                    cover(1);
                }
                Err(_) => check(false, "serialized to bytes that are not a valid message"),
            }
        }
        Err(e) => {
            check(mismatch(e.kind()), "wrong error kind");
            cover(3);
        }
    }
}

#[derive(Clone, Copy)]
struct Vis<'l>(&'l Log, bool);
macro_rules! visit {
    ($($f:ident $t:ty, $v:ident;)*) => {$(
        fn $f<E>(self, x: $t) -> std::result::Result<(), E> {
            self.0.put(Op::Scalar(ScalarType::$v, ScalarValue::$v(x)));
            Ok(())
        }
    )*};
}
impl<'d> Visitor<'d> for Vis<'_> {
    type Value = ();
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("anything")
    }
    visit! {
        visit_u8 u8, U8; visit_u16 u16, U16; visit_u32 u32, U32; visit_u64 u64, U64; visit_u128 u128, U128;
        visit_i8 i8, I8; visit_i16 i16, I16; visit_i32 i32, I32; visit_i64 i64, I64; visit_i128 i128, I128;
        visit_f32 f32, F32; visit_f64 f64, F64; visit_char char, Char; visit_bool bool, Bool;
    }
    fn visit_str<E>(self, s: &str) -> std::result::Result<(), E> {
        self.0.put(Op::Str(s.as_bytes().to_vec()));
        Ok(())
    }
    fn visit_bytes<E>(self, s: &[u8]) -> std::result::Result<(), E> {
        self.0.put(Op::Bytes(s.to_vec()));
        Ok(())
    }
    fn visit_unit<E>(self) -> std::result::Result<(), E> {
        self.0.put(Op::Unit);
        Ok(())
    }
    fn visit_none<E>(self) -> std::result::Result<(), E> {
        self.0.put(Op::None);
        Ok(())
    }
    fn visit_some<D: Deserializer<'d>>(self, d: D) -> std::result::Result<(), D::Error> {
        self.0.put(Op::Some);
        if choose(2) == 0 {
            self.0.odd.set(true);
            return Ok(());
        }
        self.0.deserialize(d)
    }
    fn visit_newtype_struct<D: Deserializer<'d>>(self, d: D) -> std::result::Result<(), D::Error> {
        self.0.deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'d>>(self, mut a: A) -> std::result::Result<(), A::Error> {
        let l = self.0;
        l.put(Op::Tuple);
        loop {
            let mark = l.mark();
            l.put(Op::Elem);
            if choose(2) == 0 {
                l.odd.set(true);
                l.back(mark);
                break;
            }
            match a.next_element_seed(l) {
                Ok(Some(())) => (),
                Ok(None) => {
                    l.back(mark);
                    break;
                }
                Err(e) => {
                    l.forgive(mark, e)?;
                    break;
                }
            }
        }
        l.put(Op::EndSeq);
        Ok(())
    }
    fn visit_map<A: MapAccess<'d>>(self, mut a: A) -> std::result::Result<(), A::Error> {
        let l = self.0;
        l.put(if self.1 { Op::Tuple } else { Op::Struct });
        let mut steps = 0;
        loop {
            steps += 1;
            assume(steps < 5);
            let mark = l.mark();
            match choose(3) {
                0 => {
                    l.odd.set(true);
                    break;
                }
                k => {
                    // (serde leaves a value without a key unspecified)
                    match a.next_key_seed(Key(l, self.1)) {
                        Ok(Some(())) => (),
                        Ok(None) => {
                            l.back(mark);
                            break;
                        }
                        Err(e) => {
                            l.forgive(mark, e)?;
                            break;
                        }
                    }
                    if k == 2 {
                        l.odd.set(true);
                    } else {
                        if self.1 {
                            l.put(Op::Elem);
                        }
                        if let Err(e) = a.next_value_seed(l) {
                            l.forgive(mark, e)?;
                            break;
                        }
                        if self.1 {
                            l.put(Op::EndSeq);
                        }
                    }
                }
            }
        }
        l.put(if self.1 { Op::EndSeq } else { Op::EndStruct });
        Ok(())
    }
    fn visit_enum<A: EnumAccess<'d>>(self, a: A) -> std::result::Result<(), A::Error> {
        let l = self.0;
        let (o, v) = a.variant::<Id>()?;
        l.put(Op::Enum(o.0 as usize, Vec::new()));
        match choose(5) {
            0 => {
                l.odd.set(true);
                Ok(())
            }
            1 => {
                l.put(Op::Unit);
                v.unit_variant()
            }
            2 => v.newtype_variant_seed(l),
            3 => v.tuple_variant(choose(3), Vis(l, false)),
            _ => v.struct_variant(l.list(), Vis(l, false)),
        }
    }
}
struct Id(u64);
impl<'d> Deserialize<'d> for Id {
    fn deserialize<D: Deserializer<'d>>(d: D) -> std::result::Result<Self, D::Error> {
        struct V;
        impl<'d> Visitor<'d> for V {
            type Value = Id;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("variant index")
            }
            fn visit_u64<E>(self, x: u64) -> std::result::Result<Id, E> {
                Ok(Id(x))
            }
        }
        d.deserialize_identifier(V)
    }
}
/// A key: of a map, or a field's name.
struct Key<'l>(&'l Log, bool);
impl<'d> DeserializeSeed<'d> for Key<'_> {
    type Value = ();
    fn deserialize<D: Deserializer<'d>>(self, d: D) -> std::result::Result<(), D::Error> {
        if self.1 {
            self.0.put(Op::Elem);
            self.0.put(Op::Tuple);
            self.0.put(Op::Elem);
            return self.0.deserialize(d);
        }
        struct V;
        impl<'d> Visitor<'d> for V {
            type Value = Vec<u8>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("field name")
            }
            fn visit_str<E>(self, x: &str) -> std::result::Result<Vec<u8>, E> {
                Ok(x.as_bytes().to_vec())
            }
        }
        let n = d.deserialize_identifier(V)?;
        self.0.put(Op::Field(n));
        Ok(())
    }
}
impl<'d> DeserializeSeed<'d> for &Log {
    type Value = ();
    fn deserialize<D: Deserializer<'d>>(self, d: D) -> std::result::Result<(), D::Error> {
        self.burn();
        let v = Vis(self, false);
        match choose(31) {
            0 => d.deserialize_u8(v),
            1 => d.deserialize_u16(v),
            2 => d.deserialize_u32(v),
            3 => d.deserialize_u64(v),
            4 => d.deserialize_u128(v),
            5 => d.deserialize_i8(v),
            6 => d.deserialize_i16(v),
            7 => d.deserialize_i32(v),
            8 => d.deserialize_i64(v),
            9 => d.deserialize_i128(v),
            10 => d.deserialize_f32(v),
            11 => d.deserialize_f64(v),
            12 => d.deserialize_char(v),
            13 => d.deserialize_bool(v),
            14 => d.deserialize_any(v),
            15 => d.deserialize_str(v),
            16 => d.deserialize_string(v),
            17 => d.deserialize_bytes(v),
            18 => d.deserialize_byte_buf(v),
            19 => d.deserialize_option(v),
            20 => d.deserialize_unit(v),
            21 => d.deserialize_unit_struct("x", v),
            22 => d.deserialize_newtype_struct("x", v),
            23 => d.deserialize_seq(v),
            24 => d.deserialize_tuple(choose(4), v),
            25 => d.deserialize_tuple_struct("x", choose(4), v),
            26 => d.deserialize_map(Vis(self, true)),
            27 => d.deserialize_struct("x", self.list(), v),
            28 => d.deserialize_enum("x", self.list(), v),
            29 => d.deserialize_ignored_any(v),
            _ => d.deserialize_identifier(v),
        }
    }
}

/// params: shape, values, input length
pub fn c28_de() {
    let s = shape28(param(0));
    let input = vec(param(2));
    let log = Log::new(&s, param(1), if param(0) < LEGAL { 3 } else { 4 });
    let t = Tree::new(&s);
    let mut at = 0;
    let want = ref_value(&t, 0, &input, &mut at);
    let mut rd = &input[..];
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    let r = (&log).deserialize(&mut d);
    observe(kind(&r));
    observe(rd.len() as u64);
    check(cs.is_finished() == cs.is_finished_or_err().is_ok(), "is_finished disagrees with is_finished_or_err");
    if want.is_ok() {
        check(rd.len() >= input.len() - at, "more was consumed than the message");
    }
    match (&r, want) {
        (Ok(()), Ok(v)) => {
            if !cs.is_finished() {
                check(log.odd.get(), "deserialized, but not finished");
                cover(5);
                return;
            }
            check(rd.len() == input.len() - at, "decoder consumed a wrong number of bytes");
            let mut want = Vec::new();
            script(&v, &mut want);
            agree(&log.ops.borrow(), &want, false);
            cover(4);
        }
        (Ok(()), Err(_)) => {
            check(!cs.is_finished(), "finished on bytes that are not a valid message");
            check(log.odd.get(), "bytes that are not a valid message were accepted");
        }
        (Err(e), Ok(_)) => {
            check(mismatch(e.kind()), "wrong error kind");
            cover(6);
        }
        (Err(e), Err(b)) => {
            check(e.kind() == b.kind() || mismatch(e.kind()), "wrong error kind");
            if e.kind() == b.kind() {
                check(!cs.is_finished(), "finished after an error");
                cover(7);
            }
        }
    }
}
