//! C23: self-describing deserialization sees the value the bytes are.
use crate::api::*;
use crate::drive::*;
use crate::gen::*;
use crate::shapes::*;
use crate::spec::*;
use crate::typed::Typed;
use binschema::value::*;
use binschema::*;
use serde::de::*;
use serde::{Deserialize, Serialize};

/// Whatever the deserializer offers.
pub enum Seen {
    Scalar(ScalarValue),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<Seen>),
    Seq(Vec<Seen>),
    Map(Vec<(String, Seen)>),
    Enum(u64, Box<Seen>),
}
struct Vis;
macro_rules! visit {
    ($($f:ident $t:ty, $v:ident;)*) => {$(
        fn $f<E>(self, x: $t) -> Result<Seen, E> { Ok(Seen::Scalar(ScalarValue::$v(x))) }
    )*};
}
impl<'d> Visitor<'d> for Vis {
    type Value = Seen;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("anything")
    }
    visit! {
        visit_u8 u8, U8; visit_u16 u16, U16; visit_u32 u32, U32; visit_u64 u64, U64; visit_u128 u128, U128;
        visit_i8 i8, I8; visit_i16 i16, I16; visit_i32 i32, I32; visit_i64 i64, I64; visit_i128 i128, I128;
        visit_f32 f32, F32; visit_f64 f64, F64; visit_char char, Char; visit_bool bool, Bool;
    }
    fn visit_str<E>(self, s: &str) -> Result<Seen, E> {
        Ok(Seen::Str(s.to_string()))
    }
    fn visit_bytes<E>(self, s: &[u8]) -> Result<Seen, E> {
        Ok(Seen::Bytes(s.to_vec()))
    }
    fn visit_unit<E>(self) -> Result<Seen, E> {
        Ok(Seen::Unit)
    }
    fn visit_none<E>(self) -> Result<Seen, E> {
        Ok(Seen::None)
    }
    fn visit_some<D: Deserializer<'d>>(self, d: D) -> Result<Seen, D::Error> {
        Ok(Seen::Some(Box::new(Seen::deserialize(d)?)))
    }
    fn visit_seq<A: SeqAccess<'d>>(self, mut a: A) -> Result<Seen, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element()? {
            v.push(x);
        }
        Ok(Seen::Seq(v))
    }
    fn visit_map<A: MapAccess<'d>>(self, mut a: A) -> Result<Seen, A::Error> {
        let mut v = Vec::new();
        while let Some(k) = a.next_key::<String>()? {
            v.push((k, a.next_value()?));
        }
        Ok(Seen::Map(v))
    }
    fn visit_enum<A: EnumAccess<'d>>(self, a: A) -> Result<Seen, A::Error> {
        struct Id(u64);
        impl<'d> Deserialize<'d> for Id {
            fn deserialize<D: Deserializer<'d>>(d: D) -> Result<Self, D::Error> {
                struct V;
                impl<'d> Visitor<'d> for V {
                    type Value = Id;
                    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                        f.write_str("variant index")
                    }
                    fn visit_u64<E>(self, x: u64) -> Result<Id, E> {
                        Ok(Id(x))
                    }
                }
                d.deserialize_identifier(V)
            }
        }
        let (id, v) = a.variant::<Id>()?;
        Ok(Seen::Enum(id.0, Box::new(v.newtype_variant()?)))
    }
}
impl<'d> Deserialize<'d> for Seen {
    fn deserialize<D: Deserializer<'d>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_any(Vis)
    }
}
fn agree(s: &Seen, v: &Value) {
    match (s, v) {
        (&Seen::Scalar(x), &Value::Scalar(y)) => same_scalar(x, y),
        (Seen::Str(x), Value::Str(y)) => same_bytes(x.as_bytes(), y.as_bytes()),
        (Seen::Bytes(x), Value::Bytes(y)) => same_bytes(x, y),
        (Seen::Unit, Value::Unit) => (),
        (Seen::None, Value::Option(None)) => (),
        (Seen::Some(x), Value::Option(Some(y))) => agree(x, y),
        (Seen::Seq(x), Value::FixedLenSeq(y)) | (Seen::Seq(x), Value::VarLenSeq(y)) | (Seen::Seq(x), Value::Tuple(y)) => {
            check(x.len() == y.len(), "a different number of elements was seen");
            for i in 0..x.len() {
                agree(&x[i], &y[i]);
            }
        }
        (Seen::Map(x), Value::Struct(y)) => {
            check(x.len() == y.len(), "a different number of fields was seen");
            for i in 0..x.len() {
                same_bytes(x[i].0.as_bytes(), y[i].name.as_bytes());
                agree(&x[i].1, &y[i].value);
            }
        }
        (Seen::Enum(o, x), Value::Enum(y)) => {
            check(*o == y.variant_ord as u64, "another variant was seen");
            agree(x, &y.value);
        }
        _ => check(false, "another kind of value was seen"),
    }
}
fn any_of(s: &Schema, input: &[u8]) {
    let t = Tree::new(s);
    let mut at = 0;
    let want = ref_value(&t, 0, input, &mut at);
    let mut rd = input;
    let mut cs = CoderState::new(s, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    match (Seen::deserialize(&mut d), &want) {
        (Ok(x), Ok(v)) => {
            observe_value(v);
            agree(&x, v);
            check(cs.is_finished(), "decoder not finished");
            check(rd.len() == input.len() - at, "decoder consumed a wrong number of bytes");
            cover(1);
        }
        (Err(e), Err(b)) => {
            observe(1000 + kind_code(e.kind()));
            check_broken_dec(&e, *b, &mut cs, &mut rd);
            cover(2);
        }
        (Ok(_), Err(_)) => check(false, "bytes that are not a valid message were accepted"),
        (Err(_), Ok(_)) => check(false, "a valid message was rejected"),
    }
    let mut rd = input;
    let mut cs = CoderState::new(s, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    match (IgnoredAny::deserialize(&mut d), &want) {
        (Ok(_), Ok(_)) => {
            check(cs.is_finished(), "decoder not finished");
            check(rd.len() == input.len() - at, "decoder consumed a wrong number of bytes");
        }
        (Err(e), Err(b)) => check_broken_dec(&e, *b, &mut cs, &mut rd),
        (Ok(_), Err(_)) => check(false, "bytes that are not a valid message were accepted"),
        (Err(_), Ok(_)) => check(false, "a valid message was rejected"),
    }
}
/// params: shape, input length
pub fn c23_any() {
    let input = vec(param(1));
    any_of(&shape(param(0)), &input);
}
/// Valid messages.  params: shape, nodes, width
pub fn c23_valid() {
    let s = shape(param(0));
    let t = Tree::new(&s);
    let mut fuel = param(1);
    let v = any_value(&t, 0, &mut fuel, param(2));
    let out = encode_value(&s, &t, &v);
    any_of(&s, &out);
}
/// params: scalar kind, input length
pub fn c23_scalar() {
    let input = vec(param(1));
    any_of(&Schema::Scalar(SCALARS[param(0)]), &input);
}
/// params: depth, input length
pub fn c23_nest() {
    let s = nest(param(0));
    let t = Tree::new(&s);
    let ok = all_legal(&t) && all_inhabited(&t);
    assume(ok);
    let input = vec(param(1));
    any_of(&s, &input);
}

// serde representations that buffer through deserialize_any
#[derive(Serialize, Deserialize)]
#[serde(untagged)]
enum Untagged {
    Number(u16),
    Text(String),
    Pair(u8, bool),
    Rec { a: Option<u8>, b: Vec<i8> },
    Unit,
}
fn ser<T: Serialize>(s: &Schema, x: &T) -> Vec<u8> {
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(s, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut out);
    check(x.serialize(&mut e).is_ok(), "serializing a value under its schema failed");
    check(cs.is_finished(), "encoder not finished");
    observe_bytes(&out);
    out
}
fn de<T: DeserializeOwned>(s: &Schema, b: &[u8]) -> T {
    let mut rd = b;
    let mut cs = CoderState::new(s, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    let r = T::deserialize(&mut d);
    check(r.is_ok(), "deserializing a serialized value failed");
    check(cs.is_finished() && rd.is_empty(), "decoder not finished");
    cover(3);
    match r {
        Ok(x) => x,
        Err(_) => unreachable!(),
    }
}
pub fn c23_buffered() {
    match choose(5) {
        0 => {
            let n = u16();
            match de::<Untagged>(&schema!(u16), &ser(&schema!(u16), &Untagged::Number(n))) {
                Untagged::Number(m) => check(n == m, "the decoded value differs"),
                _ => check(false, "the decoded value differs"),
            }
        }
        1 => {
            let n = text_of(choose(3));
            match de::<Untagged>(&schema!(str), &ser(&schema!(str), &Untagged::Text(n.clone()))) {
                Untagged::Text(m) => same_bytes(n.as_bytes(), m.as_bytes()),
                _ => check(false, "the decoded value differs"),
            }
        }
        2 => {
            let s = schema!(tuple { (u8), (bool) });
            let (a, b) = (u8(), boolean());
            match de::<Untagged>(&s, &ser(&s, &Untagged::Pair(a, b))) {
                Untagged::Pair(c, d) => check(a == c && b == d, "the decoded value differs"),
                _ => check(false, "the decoded value differs"),
            }
        }
        3 => {
            let s = schema!(struct { (a: option(u8)), (b: seq(varlen)(i8)) });
            let (a, b) = (Option::<u8>::any(1), Vec::<i8>::any(1));
            match de::<Untagged>(&s, &ser(&s, &Untagged::Rec { a: a.clone(), b: b.clone() })) {
                Untagged::Rec { a: c, b: d } => {
                    a.agree(&c);
                    b.agree(&d);
                }
                _ => check(false, "the decoded value differs"),
            }
        }
        _ => match de::<Untagged>(&schema!(unit), &ser(&schema!(unit), &Untagged::Unit)) {
            Untagged::Unit => (),
            _ => check(false, "the decoded value differs"),
        },
    }
}
/// Large messages, whole, cut off or with a byte replaced.
/// params: kind (see long.rs), size
pub fn c23_long() {
    let n = choose(3);
    let (s, v) = crate::long::long(param(0), param(1), (n == 0) as usize);
    let t = Tree::new(&s);
    let mut input = Vec::new();
    ref_encode(&t, 0, &v, &mut input);
    if n > 0 {
        let at = crate::long::places(input.len());
        assume(!at.is_empty());
        let p = at[choose(at.len())];
        if n == 1 {
            assume(p < input.len());
            input.truncate(p);
        } else {
            assume(p < input.len());
            let x = u8();
            input[p] = if p < 2 { [0, 1, 2, 41, 127, 128, 129, 255][choose(8)] } else { x };
        }
    }
    any_of(&s, &input);
}
