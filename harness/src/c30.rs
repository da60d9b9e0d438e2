//! C30: a message coded piecemeal, by several interfaces and over several
//! encoders, decoders and streams, is the same message.
use crate::api::*;
use crate::drive::*;
use crate::gen::*;
use crate::shapes::*;
use crate::spec::*;
use binschema::error::Error;
use binschema::value::*;
use binschema::*;
use serde::de::*;
use serde::ser::*;

/// A value, by way of serde.
struct Ser<'v>(&'v Value);
fn forever(s: &str) -> &'static str {
    unsafe { std::mem::transmute::<&str, &'static str>(s) }
}
impl Serialize for Ser<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            &Value::Scalar(x) => match x {
                ScalarValue::U8(n) => s.serialize_u8(n),
                ScalarValue::U16(n) => s.serialize_u16(n),
                ScalarValue::U32(n) => s.serialize_u32(n),
                ScalarValue::U64(n) => s.serialize_u64(n),
                ScalarValue::U128(n) => s.serialize_u128(n),
                ScalarValue::I8(n) => s.serialize_i8(n),
                ScalarValue::I16(n) => s.serialize_i16(n),
                ScalarValue::I32(n) => s.serialize_i32(n),
                ScalarValue::I64(n) => s.serialize_i64(n),
                ScalarValue::I128(n) => s.serialize_i128(n),
                ScalarValue::F32(n) => s.serialize_f32(n),
                ScalarValue::F64(n) => s.serialize_f64(n),
                ScalarValue::Char(n) => s.serialize_char(n),
                ScalarValue::Bool(n) => s.serialize_bool(n),
            },
            Value::Str(x) => s.serialize_str(x),
            Value::Bytes(x) => s.serialize_bytes(x),
            Value::Unit => s.serialize_unit(),
            Value::Option(None) => s.serialize_none(),
            Value::Option(Some(x)) => s.serialize_some(&Ser(x)),
            Value::FixedLenSeq(v) | Value::Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for x in v {
                    q.serialize_element(&Ser(x))?;
                }
                q.end()
            }
            Value::VarLenSeq(v) => {
                let mut q = s.serialize_seq(Some(v.len()))?;
                for x in v {
                    q.serialize_element(&Ser(x))?;
                }
                q.end()
            }
            Value::Struct(v) => {
                let mut q = s.serialize_struct("x", v.len())?;
                for x in v {
                    q.serialize_field(forever(&x.name), &Ser(&x.value))?;
                }
                q.end()
            }
            Value::Enum(x) => s.serialize_newtype_variant("x", x.variant_ord as u32, forever(&x.variant_name), &Ser(&x.value)),
        }
    }
}
/// A value, by way of serde, knowing its schema node.
#[derive(Clone, Copy)]
struct De<'t, 's>(&'t Tree<'s>, usize);
macro_rules! visit {
    ($($f:ident $t:ty, $v:ident;)*) => {$(
        fn $f<E>(self, x: $t) -> Result<Value, E> { Ok(Value::Scalar(ScalarValue::$v(x))) }
    )*};
}
impl<'d> Visitor<'d> for De<'_, '_> {
    type Value = Value;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("anything")
    }
    visit! {
        visit_u8 u8, U8; visit_u16 u16, U16; visit_u32 u32, U32; visit_u64 u64, U64; visit_u128 u128, U128;
        visit_i8 i8, I8; visit_i16 i16, I16; visit_i32 i32, I32; visit_i64 i64, I64; visit_i128 i128, I128;
        visit_f32 f32, F32; visit_f64 f64, F64; visit_char char, Char; visit_bool bool, Bool;
    }
    fn visit_str<E>(self, s: &str) -> Result<Value, E> {
        Ok(Value::Str(s.to_string()))
    }
    fn visit_bytes<E>(self, s: &[u8]) -> Result<Value, E> {
        Ok(Value::Bytes(s.to_vec()))
    }
    fn visit_unit<E>(self) -> Result<Value, E> {
        Ok(Value::Unit)
    }
    fn visit_none<E>(self) -> Result<Value, E> {
        Ok(Value::Option(None))
    }
    fn visit_some<D: Deserializer<'d>>(self, d: D) -> Result<Value, D::Error> {
        Ok(Value::Option(Some(Box::new(self.child(0).deserialize(d)?))))
    }
    fn visit_seq<A: SeqAccess<'d>>(self, mut a: A) -> Result<Value, A::Error> {
        let mut v = Vec::new();
        let tuple = matches!(self.0.nodes[self.1].s, Schema::Tuple(_));
        loop {
            let c = if tuple { v.len() } else { 0 };
            if c >= self.0.nodes[self.1].n {
                break;
            }
            match a.next_element_seed(self.child(c))? {
                Some(x) => v.push(x),
                None => break,
            }
        }
        Ok(match self.0.nodes[self.1].s {
            Schema::Tuple(_) => Value::Tuple(v),
            Schema::Seq(SeqSchema { len: Some(_), .. }) => Value::FixedLenSeq(v),
            _ => Value::VarLenSeq(v),
        })
    }
    fn visit_map<A: MapAccess<'d>>(self, mut a: A) -> Result<Value, A::Error> {
        let mut v = Vec::new();
        while let Some(name) = a.next_key::<String>()? {
            let value = a.next_value_seed(self.child(v.len()))?;
            v.push(StructValueField { name, value });
        }
        Ok(Value::Struct(v))
    }
    fn visit_enum<A: EnumAccess<'d>>(self, a: A) -> Result<Value, A::Error> {
        struct Id(u64);
        impl<'d> Deserialize<'d> for Id {
            fn deserialize<D: Deserializer<'d>>(d: D) -> Result<Self, D::Error> {
                struct V;
                impl<'d> Visitor<'d> for V {
                    type Value = Id;
                    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                        f.write_str("variant index")
                    }
                    fn visit_u64<E>(self, x: u64) -> Result<Id, E> {
                        Ok(Id(x))
                    }
                }
                d.deserialize_identifier(V)
            }
        }
        let (id, v) = a.variant::<Id>()?;
        let o = id.0 as usize;
        let value = Box::new(v.newtype_variant_seed(self.child(o))?);
        let variant_name = match self.0.nodes[self.1].s {
            Schema::Enum(v) => v[o].name.clone(),
            _ => String::new(),
        };
        Ok(Value::Enum(EnumValue { variant_ord: o, variant_name, value }))
    }
}
impl De<'_, '_> {
    fn child(&self, i: usize) -> Self {
        De(self.0, self.0.resolve(self.0.child(self.1, i)).unwrap_or(0))
    }
}
impl<'d> DeserializeSeed<'d> for De<'_, '_> {
    type Value = Value;
    fn deserialize<D: Deserializer<'d>>(self, d: D) -> Result<Value, D::Error> {
        d.deserialize_any(self)
    }
}

/// How the parts are coded: `modes` bits from the choices, so that every
/// combination up to a number of free parts occurs.
struct How {
    free: usize,
    last: usize,
}
impl How {
    fn next(&mut self) -> usize {
        if self.free > 0 {
            self.free -= 1;
            self.last = choose(3);
        }
        self.last
    }
}

/// Two streams the encoders alternate between.
struct Outs {
    parts: Vec<Vec<u8>>,
}
impl Outs {
    /// Run one call with an encoder of its own, sometimes over a new stream.
    fn with(&mut self, cs: &mut CoderState, f: impl FnOnce(&mut Encoder<Vec<u8>>) -> Result<(), Error>) {
        if self.parts.len() < 3 {
            self.parts.push(Vec::new());
        }
        let n = self.parts.len();
        let mut e = Encoder::new(cs, &mut self.parts[n - 1]);
        check(f(&mut e).is_ok(), "a conforming call failed");
    }
}
fn enc(cs: &mut CoderState, o: &mut Outs, v: &Value, h: &mut How) {
    match h.next() {
        0 => return o.with(cs, |e| v.encode_to(e)),
        1 => return o.with(cs, |e| Ser(v).serialize(e)),
        _ => (),
    }
    match v {
        &Value::Scalar(x) => o.with(cs, |e| enc_scalar(e, x)),
        Value::Str(x) => o.with(cs, |e| e.encode_str(x)),
        Value::Bytes(x) => o.with(cs, |e| e.encode_bytes(x)),
        Value::Unit => o.with(cs, |e| e.encode_unit()),
        Value::Option(None) => o.with(cs, |e| e.encode_none()),
        Value::Option(Some(x)) => {
            o.with(cs, |e| e.begin_some());
            enc(cs, o, x, h);
        }
        Value::FixedLenSeq(v) | Value::VarLenSeq(v) => {
            let var = matches!(v_kind(cs), Some(None));
            o.with(cs, |e| if var { e.begin_var_len_seq(v.len()) } else { e.begin_fixed_len_seq(v.len()) });
            for x in v {
                o.with(cs, |e| e.begin_seq_elem());
                enc(cs, o, x, h);
            }
            o.with(cs, |e| e.finish_seq());
        }
        Value::Tuple(v) => {
            o.with(cs, |e| e.begin_tuple());
            for x in v {
                o.with(cs, |e| e.begin_tuple_elem());
                enc(cs, o, x, h);
            }
            o.with(cs, |e| e.finish_tuple());
        }
        Value::Struct(v) => {
            o.with(cs, |e| e.begin_struct());
            for x in v {
                o.with(cs, |e| e.begin_struct_field(&x.name));
                enc(cs, o, &x.value, h);
            }
            o.with(cs, |e| e.finish_struct());
        }
        Value::Enum(x) => {
            o.with(cs, |e| e.begin_enum(x.variant_ord, &x.variant_name));
            enc(cs, o, &x.value, h);
        }
    }
}
/// The length of the sequence needed, by an encoder made only to ask.
fn v_kind(cs: &mut CoderState) -> Option<Option<usize>> {
    let mut none: Vec<u8> = Vec::new();
    let e = Encoder::new(cs, &mut none);
    match e.need() {
        Ok(Schema::Seq(q)) => Some(q.len),
        _ => None,
    }
}
/// params: shape, nodes, width, free choices
pub fn c30_enc() {
    let s = shape(param(0));
    let t = Tree::new(&s);
    let mut fuel = param(1);
    let v = any_value(&t, 0, &mut fuel, param(2));
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut o = Outs { parts: Vec::new() };
    enc(&mut cs, &mut o, &v, &mut How { free: param(3), last: 0 });
    check(cs.is_finished() && cs.is_finished_or_err().is_ok(), "encoder not finished");
    let mut out = Vec::new();
    for p in &o.parts {
        observe(p.len() as u64);
        out.extend_from_slice(p);
    }
    observe_bytes(&out);
    let end = expect_value(&t, 0, &v, &out, 0);
    check(end == out.len(), "more bytes than the message");
    cover(1);
}

/// The input, in pieces, each of which is a stream of its own.
struct Ins<'i> {
    rd: &'i [u8],
    /// calls until the stream changes
    calls: usize,
}
impl<'i> Ins<'i> {
    fn with<T>(&mut self, cs: &mut CoderState, f: impl FnOnce(&mut Decoder<&'i [u8]>) -> Result<T, Error>) -> Result<T, Error> {
        self.calls += 1;
        if self.calls == 2 {
            // (a copy of the rest)
            let mut other = self.rd;
            let r = f(&mut Decoder::new(cs, &mut other));
            self.rd = other;
            return r;
        }
        f(&mut Decoder::new(cs, &mut self.rd))
    }
}
fn dec(cs: &mut CoderState, i: &mut Ins, t: &Tree, id: usize, h: &mut How) -> Result<Value, Error> {
    let id = t.resolve(id).unwrap_or(0);
    match h.next() {
        0 => return i.with(cs, |d| Value::decode_from(d)),
        1 => return i.with(cs, |d| De(t, id).deserialize(d)),
        _ => (),
    }
    Ok(match t.nodes[id].s {
        &Schema::Scalar(st) => Value::Scalar(i.with(cs, |d| dec_scalar(d, st))?),
        Schema::Str => Value::Str(i.with(cs, |d| d.decode_str())?),
        Schema::Bytes => Value::Bytes(i.with(cs, |d| d.decode_bytes())?),
        Schema::Unit => {
            i.with(cs, |d| d.decode_unit())?;
            Value::Unit
        }
        Schema::Option(_) => match i.with(cs, |d| d.begin_option())? {
            false => Value::Option(None),
            true => Value::Option(Some(Box::new(dec(cs, i, t, t.child(id, 0), h)?))),
        },
        Schema::Seq(q) => {
            let n = match q.len {
                Some(n) => {
                    i.with(cs, |d| d.begin_fixed_len_seq(n))?;
                    n
                }
                None => i.with(cs, |d| d.begin_var_len_seq())?,
            };
            let mut v = Vec::new();
            for _ in 0..n {
                i.with(cs, |d| d.begin_seq_elem())?;
                v.push(dec(cs, i, t, t.child(id, 0), h)?);
            }
            i.with(cs, |d| d.finish_seq())?;
            if q.len.is_some() {
                Value::FixedLenSeq(v)
            } else {
                Value::VarLenSeq(v)
            }
        }
        Schema::Tuple(_) => {
            i.with(cs, |d| d.begin_tuple())?;
            let mut v = Vec::new();
            for c in 0..t.nodes[id].n {
                i.with(cs, |d| d.begin_tuple_elem())?;
                v.push(dec(cs, i, t, t.child(id, c), h)?);
            }
            i.with(cs, |d| d.finish_tuple())?;
            Value::Tuple(v)
        }
        Schema::Struct(f) => {
            i.with(cs, |d| d.begin_struct())?;
            let mut v = Vec::new();
            for c in 0..f.len() {
                i.with(cs, |d| d.begin_struct_field(&f[c].name))?;
                v.push(StructValueField { name: f[c].name.clone(), value: dec(cs, i, t, t.child(id, c), h)? });
            }
            i.with(cs, |d| d.finish_struct())?;
            Value::Struct(v)
        }
        Schema::Enum(f) => {
            let o = i.with(cs, |d| d.begin_enum())?;
            i.with(cs, |d| d.begin_enum_variant(&f[o].name))?;
            let value = Box::new(dec(cs, i, t, t.child(id, o), h)?);
            Value::Enum(EnumValue { variant_ord: o, variant_name: f[o].name.clone(), value })
        }
        Schema::Recurse(_) => Value::Unit,
    })
}
fn read(s: &Schema, input: &[u8], free: usize) {
    let t = Tree::new(s);
    let mut at = 0;
    let want = ref_value(&t, 0, input, &mut at);
    let mut cs = CoderState::new(s, CoderStateAlloc::new(), None);
    let mut i = Ins { rd: input, calls: 0 };
    match (dec(&mut cs, &mut i, &t, 0, &mut How { free, last: 0 }), want) {
        (Ok(v), Ok(w)) => {
            observe_value(&v);
            observe(i.rd.len() as u64);
            same(&v, &w);
            check(cs.is_finished() && cs.is_finished_or_err().is_ok(), "decoder not finished");
            check(i.rd.len() == input.len() - at, "decoder consumed a wrong number of bytes");
            cover(2);
        }
        (Err(e), Err(b)) => {
            observe(1000 + kind_code(e.kind()));
            let mut rd = i.rd;
            check_broken_dec(&e, b, &mut cs, &mut rd);
            cover(3);
        }
        (Ok(_), Err(_)) => check(false, "bytes that are not a valid message were accepted"),
        (Err(_), Ok(_)) => check(false, "a valid message was rejected"),
    }
}
/// Arbitrary input.  params: shape, input length, free choices
pub fn c30_dec() {
    read(&shape(param(0)), &vec(param(1)), param(2));
}
/// Valid messages.  params: shape, nodes, width, free choices
pub fn c30_valid() {
    let s = shape(param(0));
    let t = Tree::new(&s);
    let mut fuel = param(1);
    let v = any_value(&t, 0, &mut fuel, param(2));
    let mut out = Vec::new();
    ref_encode(&t, 0, &v, &mut out);
    read(&s, &out, param(3));
}
/// Large messages.  params: kind (see long.rs), size, free choices
pub fn c30_long() {
    let (s, v) = crate::long::long(param(0), param(1), 1);
    let t = Tree::new(&s);
    if choose(2) == 0 {
        let mut out = Vec::new();
        ref_encode(&t, 0, &v, &mut out);
        read(&s, &out, param(2));
        return;
    }
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut o = Outs { parts: Vec::new() };
    enc(&mut cs, &mut o, &v, &mut How { free: param(2), last: 0 });
    check(cs.is_finished(), "encoder not finished");
    let mut out = Vec::new();
    for p in &o.parts {
        out.extend_from_slice(p);
    }
    let end = expect_value(&t, 0, &v, &out, 0);
    check(end == out.len(), "more bytes than the message");
}
