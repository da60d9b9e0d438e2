//! Rust types with an independently written description of what they are in
//! the data model: used to check the serde layer and the known schemas.
use crate::api::*;
use crate::gen::*;
use crate::spec::*;
use binschema::value::*;
use binschema::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::borrow::Cow;
use std::collections::*;
use std::ops::{Bound, Range, RangeInclusive};

pub trait Typed: Sized {
    /// Any value, nested at most `f` deep (contents symbolic).
    fn any(f: usize) -> Self;
    /// The value in the data model.
    fn value(&self) -> Value;
    /// The schema, written by hand.
    fn shape() -> Schema;
    /// Whether decoding loses nothing (sets and maps drop duplicates).
    const EXACT: bool = true;
    fn agree(&self, o: &Self) {
        same(&self.value(), &o.value())
    }
}

fn enm(ord: usize, name: &str, value: Value) -> Value {
    Value::Enum(EnumValue { variant_ord: ord, variant_name: name.to_string(), value: Box::new(value) })
}
fn field(name: &str, value: Value) -> StructValueField {
    StructValueField { name: name.to_string(), value }
}

macro_rules! scalars {
    ($($t:tt $v:ident $any:expr;)*) => {$(
        impl Typed for $t {
            fn any(_: usize) -> Self { $any }
            fn value(&self) -> Value { Value::Scalar(ScalarValue::$v(*self)) }
            fn shape() -> Schema { schema!($t) }
        }
    )*};
}
scalars! {
    u8 U8 u8(); u16 U16 u16(); u32 U32 u32(); u64 U64 u64(); u128 U128 u128();
    i8 I8 i8(); i16 I16 i16(); i32 I32 i32(); i64 I64 i64(); i128 I128 i128();
    f32 F32 f32::from_bits(u32()); f64 F64 f64::from_bits(u64());
    char Char ch(); bool Bool boolean();
}
impl Typed for usize {
    fn any(_: usize) -> Self {
        u64() as usize
    }
    fn value(&self) -> Value {
        Value::Scalar(ScalarValue::U64(*self as u64))
    }
    fn shape() -> Schema {
        schema!(u64)
    }
}
impl Typed for isize {
    fn any(_: usize) -> Self {
        i64() as isize
    }
    fn value(&self) -> Value {
        Value::Scalar(ScalarValue::I64(*self as i64))
    }
    fn shape() -> Schema {
        schema!(i64)
    }
}
impl Typed for String {
    fn any(_: usize) -> Self {
        text_of(choose(3))
    }
    fn value(&self) -> Value {
        Value::Str(self.clone())
    }
    fn shape() -> Schema {
        schema!(str)
    }
}
impl Typed for () {
    fn any(_: usize) -> Self {}
    fn value(&self) -> Value {
        Value::Unit
    }
    fn shape() -> Schema {
        schema!(unit)
    }
}
impl<T: Typed> Typed for Option<T> {
    fn any(f: usize) -> Self {
        if f == 0 || choose(2) == 0 {
            None
        } else {
            Some(T::any(f - 1))
        }
    }
    fn value(&self) -> Value {
        Value::Option(self.as_ref().map(|x| Box::new(x.value())))
    }
    fn shape() -> Schema {
        schema!(option(%T::shape()))
    }
    const EXACT: bool = T::EXACT;
    fn agree(&self, o: &Self) {
        match (self, o) {
            (None, None) => (),
            (Some(a), Some(b)) => a.agree(b),
            _ => check(false, "the decoded value differs"),
        }
    }
}
fn some_of<T: Typed>(f: usize) -> Vec<T> {
    let n = if f == 0 { 0 } else { choose(3) };
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(T::any(f - 1));
    }
    v
}
macro_rules! seqs {
    ($($c:ident)*) => {$(
        impl<T: Typed> Typed for $c<T> {
            fn any(f: usize) -> Self { some_of::<T>(f).into_iter().collect() }
            fn value(&self) -> Value { Value::VarLenSeq(self.iter().map(|x| x.value()).collect()) }
            fn shape() -> Schema { schema!(seq(varlen)(%T::shape())) }
            const EXACT: bool = T::EXACT;
            fn agree(&self, o: &Self) {
                check(self.len() == o.len(), "the decoded value differs");
                for (a, b) in self.iter().zip(o.iter()) { a.agree(b) }
            }
        }
    )*};
}
seqs! { Vec LinkedList VecDeque }

/// Keys: a few values, explored one at a time.
pub trait Key: Typed {
    fn key() -> Self;
}
impl Key for u8 {
    fn key() -> Self {
        [0, 1, 255][choose(3)]
    }
}
impl Key for String {
    fn key() -> Self {
        ["", "k", "\u{e9}"][choose(3)].to_string()
    }
}
impl Key for (u8, bool) {
    fn key() -> Self {
        [(0, true), (7, false), (7, true)][choose(3)]
    }
}
fn keys<T: Key>(f: usize) -> Vec<T> {
    let n = if f == 0 { 0 } else { choose(3) };
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(T::key());
    }
    v
}
impl<T: Key + Ord> Typed for BinaryHeap<T> {
    fn any(f: usize) -> Self {
        keys::<T>(f).into_iter().collect()
    }
    fn value(&self) -> Value {
        Value::VarLenSeq(self.iter().map(|x| x.value()).collect())
    }
    fn shape() -> Schema {
        schema!(seq(varlen)(%T::shape()))
    }
    const EXACT: bool = false;
    fn agree(&self, o: &Self) {
        check(self.len() == o.len(), "the decoded value differs");
        let mut a: Vec<&T> = self.iter().collect();
        let mut b: Vec<&T> = o.iter().collect();
        a.sort();
        b.sort();
        for (a, b) in a.iter().zip(b.iter()) {
            a.agree(b);
        }
    }
}
macro_rules! sets {
    ($($c:ident $($b:ident)*;)*) => {$(
        impl<T: Key $(+ std::hash::$b)* + Ord> Typed for $c<T> {
            fn any(f: usize) -> Self { keys::<T>(f).into_iter().collect() }
            fn value(&self) -> Value { Value::VarLenSeq(self.iter().map(|x| x.value()).collect()) }
            fn shape() -> Schema { schema!(seq(varlen)(%T::shape())) }
            const EXACT: bool = false;
            fn agree(&self, o: &Self) {
                check(self == o, "the decoded value differs");
            }
        }
    )*};
}
sets! { BTreeSet; HashSet Hash; }
macro_rules! maps {
    ($($c:ident $($b:ident)*;)*) => {$(
        impl<K: Key $(+ std::hash::$b)* + Ord, V: Typed> Typed for $c<K, V> {
            fn any(f: usize) -> Self {
                keys::<K>(f).into_iter().map(|k| (k, V::any(f - 1))).collect()
            }
            fn value(&self) -> Value {
                Value::VarLenSeq(self.iter().map(|(k, v)| Value::Tuple(vec![k.value(), v.value()])).collect())
            }
            fn shape() -> Schema { schema!(seq(varlen)(tuple { (%K::shape()), (%V::shape()) })) }
            const EXACT: bool = false;
            fn agree(&self, o: &Self) {
                check(self.len() == o.len(), "the decoded value differs");
                for (k, v) in self {
                    match o.get(k) {
                        Some(w) => v.agree(w),
                        None => check(false, "the decoded map lacks a key"),
                    }
                }
            }
        }
    )*};
}
maps! { BTreeMap; HashMap Hash; }

impl<T: Typed, const N: usize> Typed for [T; N] {
    fn any(f: usize) -> Self {
        std::array::from_fn(|_| T::any(f.saturating_sub(1)))
    }
    fn value(&self) -> Value {
        Value::FixedLenSeq(self.iter().map(|x| x.value()).collect())
    }
    fn shape() -> Schema {
        schema!(seq(N)(%T::shape()))
    }
    const EXACT: bool = T::EXACT;
}
macro_rules! tuples {
    ($(($($t:ident $i:tt),*))*) => {$(
        impl<$($t: Typed),*> Typed for ($($t,)*) {
            fn any(f: usize) -> Self { ($($t::any(f.saturating_sub(1)),)*) }
            fn value(&self) -> Value { Value::Tuple(vec![$(self.$i.value()),*]) }
            fn shape() -> Schema { schema!(tuple { $((%$t::shape())),* }) }
            const EXACT: bool = true $(&& $t::EXACT)*;
            fn agree(&self, o: &Self) { $(self.$i.agree(&o.$i);)* }
        }
    )*};
}
tuples! {
    (A 0)
    (A 0, B 1)
    (A 0, B 1, C 2)
    (A 0, B 1, C 2, D 3)
    (A 0, B 1, C 2, D 3, E 4)
    (A 0, B 1, C 2, D 3, E 4, F 5)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10)
}
macro_rules! pointers {
    ($($c:ty, $new:expr;)*) => {$(
        impl<T: Typed + Clone> Typed for $c {
            fn any(f: usize) -> Self { $new(T::any(f)) }
            fn value(&self) -> Value { (**self).value() }
            fn shape() -> Schema { T::shape() }
            const EXACT: bool = T::EXACT;
            fn agree(&self, o: &Self) { (**self).agree(&**o) }
        }
    )*};
}
pointers! { Box<T>, Box::new; Cow<'static, T>, Cow::Owned; }
impl<T: Typed> Typed for Range<T> {
    fn any(f: usize) -> Self {
        T::any(f)..T::any(f)
    }
    fn value(&self) -> Value {
        Value::Struct(vec![field("start", self.start.value()), field("end", self.end.value())])
    }
    fn shape() -> Schema {
        schema!(struct { (start: %T::shape()), (end: %T::shape()) })
    }
}
impl<T: Typed> Typed for RangeInclusive<T> {
    fn any(f: usize) -> Self {
        T::any(f)..=T::any(f)
    }
    fn value(&self) -> Value {
        Value::Struct(vec![field("start", self.start().value()), field("end", self.end().value())])
    }
    fn shape() -> Schema {
        schema!(struct { (start: %T::shape()), (end: %T::shape()) })
    }
}
impl<T: Typed> Typed for Bound<T> {
    fn any(f: usize) -> Self {
        match choose(3) {
            0 => Bound::Unbounded,
            1 => Bound::Included(T::any(f)),
            _ => Bound::Excluded(T::any(f)),
        }
    }
    fn value(&self) -> Value {
        match self {
            Bound::Unbounded => enm(0, "Unbounded", Value::Unit),
            Bound::Included(x) => enm(1, "Included", x.value()),
            Bound::Excluded(x) => enm(2, "Excluded", x.value()),
        }
    }
    fn shape() -> Schema {
        schema!(enum { Unbounded(unit), Included(%T::shape()), Excluded(%T::shape()) })
    }
}
/// (not a known schema, but serde knows it)
impl<T: Typed, E: Typed> Typed for Result<T, E> {
    fn any(f: usize) -> Self {
        if choose(2) == 0 {
            Ok(T::any(f))
        } else {
            Err(E::any(f))
        }
    }
    fn value(&self) -> Value {
        match self {
            Ok(x) => enm(0, "Ok", x.value()),
            Err(x) => enm(1, "Err", x.value()),
        }
    }
    fn shape() -> Schema {
        schema!(enum { Ok(%T::shape()), Err(%E::shape()) })
    }
}
/// An address is only compact if the format says it is not human readable.
impl Typed for std::net::Ipv4Addr {
    fn any(_: usize) -> Self {
        bytes::<4>().into()
    }
    fn value(&self) -> Value {
        self.octets().value()
    }
    fn shape() -> Schema {
        schema!(seq(4)(u8))
    }
}

// ---------------------------------------------------------------- own types

macro_rules! structs {
    (@exact Maps) => { false };
    (@exact Trie) => { false };
    (@exact $n:ident) => { true };
    ($($n:ident { $($f:ident: $t:ty),* } $s:expr;)*) => {$(
        impl Typed for $n {
            #[allow(unused_variables)]
            fn any(f: usize) -> Self { $n { $($f: <$t>::any(f.saturating_sub(1))),* } }
            fn value(&self) -> Value { Value::Struct(vec![$(field(stringify!($f).trim_start_matches("r#"), self.$f.value())),*]) }
            fn shape() -> Schema { $s }
            const EXACT: bool = structs!(@exact $n);
            #[allow(unused_variables)]
            fn agree(&self, o: &Self) { $(self.$f.agree(&o.$f);)* }
        }
    )*};
}

#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub struct Unit;
impl Typed for Unit {
    fn any(_: usize) -> Self {
        Unit
    }
    fn value(&self) -> Value {
        Value::Unit
    }
    fn shape() -> Schema {
        schema!(unit)
    }
}
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub struct Tuple0();
impl Typed for Tuple0 {
    fn any(_: usize) -> Self {
        Tuple0()
    }
    fn value(&self) -> Value {
        Value::Unit
    }
    fn shape() -> Schema {
        schema!(unit)
    }
}
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub struct New(pub u32);
impl Typed for New {
    fn any(f: usize) -> Self {
        New(u32::any(f))
    }
    fn value(&self) -> Value {
        self.0.value()
    }
    fn shape() -> Schema {
        schema!(u32)
    }
}
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub struct Pair(pub u8, pub Option<bool>);
impl Typed for Pair {
    fn any(f: usize) -> Self {
        Pair(u8::any(f), Option::any(f))
    }
    fn value(&self) -> Value {
        Value::Tuple(vec![self.0.value(), self.1.value()])
    }
    fn shape() -> Schema {
        schema!(tuple { (u8), (option(bool)) })
    }
}
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub struct Struct0 {}
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub struct Plain {
    pub a: u8,
    pub bb: String,
    pub c: [u16; 2],
}
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub struct Mixed {
    pub unit: Unit,
    pub zero: Tuple0,
    pub none: Struct0,
    pub new: New,
    pub pair: Pair,
    pub nil: (),
    pub one: (i8,),
}
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub struct Keyword {
    pub r#type: u8,
    pub r#match: Option<u8>,
}
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub struct Maps {
    pub m: BTreeMap<u8, Option<u8>>,
    pub h: HashMap<String, u8>,
    pub s: BTreeSet<u8>,
}
/// Fields left out when they are `None`.
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub struct Skipping {
    pub a: u8,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub b: Option<u8>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub c: Option<Vec<u8>>,
}
structs! {
    Struct0 {} schema!(struct {});
    Plain { a: u8, bb: String, c: [u16; 2] } schema!(struct { (a: u8), (bb: str), (c: seq(2)(u16)) });
    Mixed { unit: Unit, zero: Tuple0, none: Struct0, new: New, pair: Pair, nil: (), one: (i8,) }
        schema!(struct { (unit: unit), (zero: unit), (none: struct {}), (new: u32),
            (pair: tuple { (u8), (option(bool)) }), (nil: unit), (one: tuple { (i8) }) });
    Keyword { r#type: u8, r#match: Option<u8> }
        Schema::Struct(vec![("type", schema!(u8)).into(), ("match", schema!(option(u8))).into()]);
    Maps { m: BTreeMap<u8, Option<u8>>, h: HashMap<String, u8>, s: BTreeSet<u8> }
        schema!(struct { (m: seq(varlen)(tuple { (u8), (option(u8)) })), (h: seq(varlen)(tuple { (str), (u8) })), (s: seq(varlen)(u8)) });
    Skipping { a: u8, b: Option<u8>, c: Option<Vec<u8>> }
        schema!(struct { (a: u8), (b: option(u8)), (c: option(seq(varlen)(u8))) });
}

#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub enum Sum {
    Unit,
    New(u16),
    Tuple(u8, bool),
    Struct { x: u8, y: Option<u8> },
    Tuple0(),
    Struct0 {},
    Nested(Box<Plain>),
}
impl Typed for Sum {
    fn any(f: usize) -> Self {
        match choose(7) {
            0 => Sum::Unit,
            1 => Sum::New(u16()),
            2 => Sum::Tuple(u8(), boolean()),
            3 => Sum::Struct { x: u8(), y: Option::any(f) },
            4 => Sum::Tuple0(),
            5 => Sum::Struct0 {},
            _ => Sum::Nested(Box::new(Plain::any(f))),
        }
    }
    fn value(&self) -> Value {
        match self {
            Sum::Unit => enm(0, "Unit", Value::Unit),
            Sum::New(x) => enm(1, "New", x.value()),
            Sum::Tuple(a, b) => enm(2, "Tuple", Value::Tuple(vec![a.value(), b.value()])),
            Sum::Struct { x, y } => {
                enm(3, "Struct", Value::Struct(vec![field("x", x.value()), field("y", y.value())]))
            }
            Sum::Tuple0() => enm(4, "Tuple0", Value::Unit),
            Sum::Struct0 {} => enm(5, "Struct0", Value::Struct(vec![])),
            Sum::Nested(p) => enm(6, "Nested", p.value()),
        }
    }
    fn shape() -> Schema {
        schema!(enum {
            Unit(unit), New(u16), Tuple(tuple { (u8), (bool) }), Struct(struct { (x: u8), (y: option(u8)) }),
            Tuple0(unit), Struct0(struct {}), Nested(%Plain::shape())
        })
    }
}
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub enum Single {
    Only(u8),
}
impl Typed for Single {
    fn any(_: usize) -> Self {
        Single::Only(u8())
    }
    fn value(&self) -> Value {
        let Single::Only(x) = self;
        enm(0, "Only", x.value())
    }
    fn shape() -> Schema {
        schema!(enum { Only(u8) })
    }
}
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub enum Raw {
    r#Fn { r#in: u8 },
    Ok,
}
impl Typed for Raw {
    fn any(_: usize) -> Self {
        if choose(2) == 0 {
            Raw::Fn { r#in: u8() }
        } else {
            Raw::Ok
        }
    }
    fn value(&self) -> Value {
        match self {
            Raw::Fn { r#in } => enm(0, "Fn", Value::Struct(vec![field("in", r#in.value())])),
            Raw::Ok => enm(1, "Ok", Value::Unit),
        }
    }
    fn shape() -> Schema {
        Schema::Enum(vec![
            ("Fn", Schema::Struct(vec![("in", schema!(u8)).into()])).into(),
            ("Ok", schema!(unit)).into(),
        ])
    }
}

// recursive types

#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub struct List {
    pub value: u8,
    pub next: Option<Box<List>>,
}
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub struct Rose {
    pub label: u8,
    pub children: Vec<Rose>,
}
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub struct Trie {
    pub end: bool,
    pub edges: BTreeMap<u8, Trie>,
}
structs! {
    List { value: u8, next: Option<Box<List>> } schema!(struct { (value: u8), (next: option(recurse(2))) });
    Rose { label: u8, children: Vec<Rose> } schema!(struct { (label: u8), (children: seq(varlen)(recurse(2))) });
    Trie { end: bool, edges: BTreeMap<u8, Trie> }
        schema!(struct { (end: bool), (edges: seq(varlen)(tuple { (u8), (recurse(3)) })) });
}
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub enum Tree2 {
    Branch { left: Box<Tree2>, value: u8, right: Box<Tree2> },
    Leaf(u8),
    Two(Box<Tree2>, Box<Tree2>),
    One(Box<Tree2>),
}
impl Typed for Tree2 {
    fn any(f: usize) -> Self {
        let b = || Box::new(Tree2::any(f - 1));
        match if f == 0 { 1 } else { choose(4) } {
            0 => Tree2::Branch { left: b(), value: u8(), right: b() },
            1 => Tree2::Leaf(u8()),
            2 => Tree2::Two(b(), b()),
            _ => Tree2::One(b()),
        }
    }
    fn value(&self) -> Value {
        match self {
            Tree2::Branch { left, value, right } => enm(
                0,
                "Branch",
                Value::Struct(vec![
                    field("left", left.value()),
                    field("value", value.value()),
                    field("right", right.value()),
                ]),
            ),
            Tree2::Leaf(x) => enm(1, "Leaf", x.value()),
            Tree2::Two(a, b) => enm(2, "Two", Value::Tuple(vec![a.value(), b.value()])),
            Tree2::One(a) => enm(3, "One", a.value()),
        }
    }
    fn shape() -> Schema {
        schema!(enum {
            Branch(struct { (left: recurse(2)), (value: u8), (right: recurse(2)) }),
            Leaf(u8),
            Two(tuple { (recurse(2)), (recurse(2)) }),
            One(recurse(1))
        })
    }
}
// mutual recursion
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub struct Even {
    pub odd: Option<Box<Odd>>,
    pub tag: u8,
}
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub struct Odd {
    pub even: Vec<Even>,
    pub other: Option<Box<Odd>>,
}
structs! {
    Even { odd: Option<Box<Odd>>, tag: u8 }
        schema!(struct { (odd: option(struct { (even: seq(varlen)(recurse(4))), (other: option(recurse(2))) })), (tag: u8) });
    Odd { even: Vec<Even>, other: Option<Box<Odd>> }
        schema!(struct { (even: seq(varlen)(struct { (odd: option(recurse(3))), (tag: u8) })), (other: option(recurse(2))) });
}
// through newtypes
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub struct Wrap(pub Box<Inner>);
impl Typed for Wrap {
    fn any(f: usize) -> Self {
        Wrap(Box::new(Inner::any(f)))
    }
    fn value(&self) -> Value {
        self.0.value()
    }
    fn shape() -> Schema {
        Inner::shape()
    }
}
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub struct Inner {
    pub again: Option<Wrap>,
    pub x: u8,
}
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub struct Chain(pub Option<Box<Chain>>);
impl Typed for Chain {
    fn any(f: usize) -> Self {
        Chain(Option::any(f))
    }
    fn value(&self) -> Value {
        self.0.value()
    }
    fn shape() -> Schema {
        schema!(option(recurse(1)))
    }
}
/// A recursion written with the attribute.
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub struct Attr {
    pub v: u8,
    pub kids: Kids,
}
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub enum Kids {
    None,
    One(#[schema(recurse = 2)] Box<Attr>),
    Two {
        #[schema(recurse = 3)]
        a: Box<Attr>,
        #[schema(recurse = 2)]
        k: Box<Kids>,
    },
}
impl Typed for Kids {
    fn any(f: usize) -> Self {
        match if f == 0 { 0 } else { choose(3) } {
            0 => Kids::None,
            1 => Kids::One(Box::new(Attr::any(f - 1))),
            _ => Kids::Two { a: Box::new(Attr::any(f - 1)), k: Box::new(Kids::any(f - 1)) },
        }
    }
    fn value(&self) -> Value {
        match self {
            Kids::None => enm(0, "None", Value::Unit),
            Kids::One(a) => enm(1, "One", a.value()),
            Kids::Two { a, k } => enm(2, "Two", Value::Struct(vec![field("a", a.value()), field("k", k.value())])),
        }
    }
    fn shape() -> Schema {
        schema!(enum { None(unit), One(recurse(2)), Two(struct { (a: recurse(3)), (k: recurse(2)) }) })
    }
}
structs! {
    Inner { again: Option<Wrap>, x: u8 } schema!(struct { (again: option(recurse(2))), (x: u8) });
    Attr { v: u8, kids: Kids } schema!(struct { (v: u8), (kids: %Kids::shape()) });
}
/// The same type in several places, side by side and nested.
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub struct Twice {
    pub a: List,
    pub b: Vec<List>,
    pub c: (Chain, Option<Tree2>),
}
structs! {
    Twice { a: List, b: Vec<List>, c: (Chain, Option<Tree2>) }
        schema!(struct { (a: %List::shape()), (b: seq(varlen)(%List::shape())),
            (c: tuple { (%Chain::shape()), (option(%Tree2::shape())) }) });
}

/// Goes through `serialize_bytes` / `deserialize_byte_buf`.
#[derive(Clone)]
pub struct Blob(pub Vec<u8>);
impl Serialize for Blob {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'d> Deserialize<'d> for Blob {
    fn deserialize<D: Deserializer<'d>>(d: D) -> Result<Self, D::Error> {
        struct Vis;
        impl<'d> serde::de::Visitor<'d> for Vis {
            type Value = Blob;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E>(self, b: &[u8]) -> Result<Blob, E> {
                Ok(Blob(b.to_vec()))
            }
            fn visit_byte_buf<E>(self, b: Vec<u8>) -> Result<Blob, E> {
                Ok(Blob(b))
            }
        }
        if choose(2) == 0 {
            d.deserialize_byte_buf(Vis)
        } else {
            d.deserialize_bytes(Vis)
        }
    }
}
impl Typed for Blob {
    fn any(_: usize) -> Self {
        Blob(vec(choose(3)))
    }
    fn value(&self) -> Value {
        Value::Bytes(self.0.clone())
    }
    fn shape() -> Schema {
        schema!(bytes)
    }
}
/// A seq serialized without telling its length.
#[derive(Clone)]
pub struct Unsized3(pub [u8; 3]);
impl Serialize for Unsized3 {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeSeq;
        let mut s = s.serialize_seq(None)?;
        for x in &self.0 {
            s.serialize_element(x)?;
        }
        s.end()
    }
}
impl<'d> Deserialize<'d> for Unsized3 {
    fn deserialize<D: Deserializer<'d>>(d: D) -> Result<Self, D::Error> {
        <[u8; 3]>::deserialize(d).map(Unsized3)
    }
}
impl Typed for Unsized3 {
    fn any(f: usize) -> Self {
        Unsized3(<[u8; 3]>::any(f))
    }
    fn value(&self) -> Value {
        self.0.value()
    }
    fn shape() -> Schema {
        schema!(seq(3)(u8))
    }
}


// wide types
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub struct Wide20 { pub f00: u8, pub f01: u8, pub f02: u8, pub f03: u8, pub f04: u8, pub f05: u8, pub f06: u8, pub f07: u8, pub f08: u8, pub f09: u8, pub f10: u8, pub f11: u8, pub f12: u8, pub f13: u8, pub f14: u8, pub f15: u8, pub f16: u8, pub f17: u8, pub f18: u8, pub f19: u8 }
structs! {
    Wide20 { f00: u8, f01: u8, f02: u8, f03: u8, f04: u8, f05: u8, f06: u8, f07: u8, f08: u8, f09: u8, f10: u8, f11: u8, f12: u8, f13: u8, f14: u8, f15: u8, f16: u8, f17: u8, f18: u8, f19: u8 } schema!(struct { (f00: u8), (f01: u8), (f02: u8), (f03: u8), (f04: u8), (f05: u8), (f06: u8), (f07: u8), (f08: u8), (f09: u8), (f10: u8), (f11: u8), (f12: u8), (f13: u8), (f14: u8), (f15: u8), (f16: u8), (f17: u8), (f18: u8), (f19: u8) });
}
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub struct Wide13(pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8);
impl Typed for Wide13 {
    fn any(_: usize) -> Self {
        Wide13(u8(), u8(), u8(), u8(), u8(), u8(), u8(), u8(), u8(), u8(), u8(), u8(), u8())
    }
    fn value(&self) -> Value {
        Value::Tuple(vec![self.0.value(), self.1.value(), self.2.value(), self.3.value(), self.4.value(), self.5.value(), self.6.value(), self.7.value(), self.8.value(), self.9.value(), self.10.value(), self.11.value(), self.12.value()])
    }
    fn shape() -> Schema {
        schema!(tuple { (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8) })
    }
}
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub enum WideSum {
    A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, B0, B1, B2, B3, B4, B5,
    Tuple(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8),
    Struct { a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8, i: u8, j: u8, k: u8, l: u8, m: u8 },
    Last,
}
impl Typed for WideSum {
    fn any(_: usize) -> Self {
        match choose(5) {
            0 => WideSum::A0,
            1 => WideSum::B5,
            2 => WideSum::Tuple(u8(), u8(), u8(), u8(), u8(), u8(), u8(), u8(), u8(), u8(), u8(), u8(), u8()),
            3 => WideSum::Struct { a: u8(), b: u8(), c: u8(), d: u8(), e: u8(), f: u8(), g: u8(), h: u8(), i: u8(), j: u8(), k: u8(), l: u8(), m: u8() },
            _ => WideSum::Last,
        }
    }
    fn value(&self) -> Value {
        match self {
            WideSum::Tuple(a, b, c, d, e, f, g, h, i, j, k, l, m) => enm(16, "Tuple", Value::Tuple(vec![a.value(), b.value(), c.value(), d.value(), e.value(), f.value(), g.value(), h.value(), i.value(), j.value(), k.value(), l.value(), m.value()])),
            WideSum::Struct { a, b, c, d, e, f, g, h, i, j, k, l, m } => enm(17, "Struct", Value::Struct(vec![field("a", a.value()), field("b", b.value()), field("c", c.value()), field("d", d.value()), field("e", e.value()), field("f", f.value()), field("g", g.value()), field("h", h.value()), field("i", i.value()), field("j", j.value()), field("k", k.value()), field("l", l.value()), field("m", m.value())])),
            WideSum::Last => enm(18, "Last", Value::Unit),
            x => {
                const ALL: [(WideSum, &str); 16] = [(WideSum::A0, "A0"), (WideSum::A1, "A1"), (WideSum::A2, "A2"), (WideSum::A3, "A3"), (WideSum::A4, "A4"), (WideSum::A5, "A5"), (WideSum::A6, "A6"), (WideSum::A7, "A7"), (WideSum::A8, "A8"), (WideSum::A9, "A9"), (WideSum::B0, "B0"), (WideSum::B1, "B1"), (WideSum::B2, "B2"), (WideSum::B3, "B3"), (WideSum::B4, "B4"), (WideSum::B5, "B5")];
                for (i, (y, n)) in ALL.iter().enumerate() {
                    if std::mem::discriminant(x) == std::mem::discriminant(y) {
                        return enm(i, n, Value::Unit);
                    }
                }
                unreachable!()
            }
        }
    }
    fn shape() -> Schema {
        schema!(enum {
            A0(unit), A1(unit), A2(unit), A3(unit), A4(unit), A5(unit), A6(unit), A7(unit), A8(unit), A9(unit),
            B0(unit), B1(unit), B2(unit), B3(unit), B4(unit), B5(unit),
            Tuple(tuple { (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8), (u8) }), Struct(struct { (a: u8), (b: u8), (c: u8), (d: u8), (e: u8), (f: u8), (g: u8), (h: u8), (i: u8), (j: u8), (k: u8), (l: u8), (m: u8) }), Last(unit)
        })
    }
}
/// Variants with fields left out when they are `None`.
#[derive(Clone, Serialize, Deserialize, KnownSchema)]
pub enum SkipSum {
    Mid {
        a: u8,
        #[serde(skip_serializing_if = "Option::is_none")]
        b: Option<u8>,
        #[serde(skip_serializing_if = "Option::is_none")]
        c: Option<Vec<u8>>,
        d: u8,
    },
    Unit,
    End {
        #[serde(skip_serializing_if = "Option::is_none")]
        x: Option<bool>,
    },
}
impl Typed for SkipSum {
    fn any(f: usize) -> Self {
        match choose(3) {
            0 => SkipSum::Mid { a: u8(), b: Option::any(f), c: Option::any(f), d: u8() },
            1 => SkipSum::Unit,
            _ => SkipSum::End { x: Option::any(f) },
        }
    }
    fn value(&self) -> Value {
        match self {
            SkipSum::Mid { a, b, c, d } => enm(
                0,
                "Mid",
                Value::Struct(vec![
                    field("a", a.value()),
                    field("b", b.value()),
                    field("c", c.value()),
                    field("d", d.value()),
                ]),
            ),
            SkipSum::Unit => enm(1, "Unit", Value::Unit),
            SkipSum::End { x } => enm(2, "End", Value::Struct(vec![field("x", x.value())])),
        }
    }
    fn shape() -> Schema {
        schema!(enum {
            Mid(struct { (a: u8), (b: option(u8)), (c: option(seq(varlen)(u8))), (d: u8) }),
            Unit(unit),
            End(struct { (x: option(bool)) })
        })
    }
}
/// An enum of 300 variants, of every kind in turn.
#[derive(Clone)]
pub struct Many {
    pub ord: u16,
    pub a: u8,
    pub b: u8,
}
pub const MANY: usize = 300;
const MANY_NAMES: &[&str] = &["v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10", "v11", "v12", "v13", "v14", "v15", "v16", "v17", "v18", "v19", "v20", "v21", "v22", "v23", "v24", "v25", "v26", "v27", "v28", "v29", "v30", "v31", "v32", "v33", "v34", "v35", "v36", "v37", "v38", "v39", "v40", "v41", "v42", "v43", "v44", "v45", "v46", "v47", "v48", "v49", "v50", "v51", "v52", "v53", "v54", "v55", "v56", "v57", "v58", "v59", "v60", "v61", "v62", "v63", "v64", "v65", "v66", "v67", "v68", "v69", "v70", "v71", "v72", "v73", "v74", "v75", "v76", "v77", "v78", "v79", "v80", "v81", "v82", "v83", "v84", "v85", "v86", "v87", "v88", "v89", "v90", "v91", "v92", "v93", "v94", "v95", "v96", "v97", "v98", "v99", "v100", "v101", "v102", "v103", "v104", "v105", "v106", "v107", "v108", "v109", "v110", "v111", "v112", "v113", "v114", "v115", "v116", "v117", "v118", "v119", "v120", "v121", "v122", "v123", "v124", "v125", "v126", "v127", "v128", "v129", "v130", "v131", "v132", "v133", "v134", "v135", "v136", "v137", "v138", "v139", "v140", "v141", "v142", "v143", "v144", "v145", "v146", "v147", "v148", "v149", "v150", "v151", "v152", "v153", "v154", "v155", "v156", "v157", "v158", "v159", "v160", "v161", "v162", "v163", "v164", "v165", "v166", "v167", "v168", "v169", "v170", "v171", "v172", "v173", "v174", "v175", "v176", "v177", "v178", "v179", "v180", "v181", "v182", "v183", "v184", "v185", "v186", "v187", "v188", "v189", "v190", "v191", "v192", "v193", "v194", "v195", "v196", "v197", "v198", "v199", "v200", "v201", "v202", "v203", "v204", "v205", "v206", "v207", "v208", "v209", "v210", "v211", "v212", "v213", "v214", "v215", "v216", "v217", "v218", "v219", "v220", "v221", "v222", "v223", "v224", "v225", "v226", "v227", "v228", "v229", "v230", "v231", "v232", "v233", "v234", "v235", "v236", "v237", "v238", "v239", "v240", "v241", "v242", "v243", "v244", "v245", "v246", "v247", "v248", "v249", "v250", "v251", "v252", "v253", "v254", "v255", "v256", "v257", "v258", "v259", "v260", "v261", "v262", "v263", "v264", "v265", "v266", "v267", "v268", "v269", "v270", "v271", "v272", "v273", "v274", "v275", "v276", "v277", "v278", "v279", "v280", "v281", "v282", "v283", "v284", "v285", "v286", "v287", "v288", "v289", "v290", "v291", "v292", "v293", "v294", "v295", "v296", "v297", "v298", "v299"];
impl Serialize for Many {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{SerializeStructVariant, SerializeTupleVariant};
        let n = MANY_NAMES[self.ord as usize];
        let o = self.ord as u32;
        match self.ord % 4 {
            0 => s.serialize_unit_variant("Many", o, n),
            1 => s.serialize_newtype_variant("Many", o, n, &self.a),
            2 => {
                let mut s = s.serialize_tuple_variant("Many", o, n, 2)?;
                s.serialize_field(&self.a)?;
                s.serialize_field(&self.b)?;
                s.end()
            }
            _ => {
                let mut s = s.serialize_struct_variant("Many", o, n, 2)?;
                s.serialize_field("a", &self.a)?;
                s.serialize_field("b", &self.b)?;
                s.end()
            }
        }
    }
}
impl<'d> Deserialize<'d> for Many {
    fn deserialize<D: Deserializer<'d>>(d: D) -> Result<Self, D::Error> {
        use serde::de::*;
        struct Two;
        impl<'d> Visitor<'d> for Two {
            type Value = (u8, u8);
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("two")
            }
            fn visit_seq<A: SeqAccess<'d>>(self, mut a: A) -> Result<(u8, u8), A::Error> {
                match (a.next_element()?, a.next_element()?) {
                    (Some(x), Some(y)) => Ok((x, y)),
                    _ => Err(Error::custom("short")),
                }
            }
            fn visit_map<A: MapAccess<'d>>(self, mut m: A) -> Result<(u8, u8), A::Error> {
                let mut r = (0, 0);
                while let Some(k) = m.next_key::<String>()? {
                    match k.as_str() {
                        "a" => r.0 = m.next_value()?,
                        "b" => r.1 = m.next_value()?,
                        _ => return Err(Error::custom("name")),
                    }
                }
                Ok(r)
            }
        }
        struct Vis;
        impl<'d> Visitor<'d> for Vis {
            type Value = Many;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("many")
            }
            fn visit_enum<A: EnumAccess<'d>>(self, e: A) -> Result<Many, A::Error> {
                let (Ord(ord), v) = e.variant::<Ord>()?;
                let (a, b) = match ord % 4 {
                    0 => {
                        v.unit_variant()?;
                        (0, 0)
                    }
                    1 => (v.newtype_variant()?, 0),
                    2 => v.tuple_variant(2, Two)?,
                    _ => v.struct_variant(&["a", "b"], Two)?,
                };
                Ok(Many { ord, a, b })
            }
        }
        struct Ord(u16);
        impl<'d> Deserialize<'d> for Ord {
            fn deserialize<D: Deserializer<'d>>(d: D) -> Result<Self, D::Error> {
                struct Vis;
                impl<'d> Visitor<'d> for Vis {
                    type Value = Ord;
                    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                        f.write_str("a variant")
                    }
                    fn visit_u64<E: Error>(self, x: u64) -> Result<Ord, E> {
                        if x < MANY as u64 {
                            Ok(Ord(x as u16))
                        } else {
                            Err(E::custom("no such variant"))
                        }
                    }
                    fn visit_str<E: Error>(self, x: &str) -> Result<Ord, E> {
                        match MANY_NAMES.iter().position(|n| *n == x) {
                            Some(i) => Ok(Ord(i as u16)),
                            None => Err(E::custom("no such variant")),
                        }
                    }
                }
                d.deserialize_identifier(Vis)
            }
        }
        d.deserialize_enum("Many", MANY_NAMES, Vis)
    }
}
impl Typed for Many {
    fn any(_: usize) -> Self {
        let ord = [0, 1, 2, 3, 127, 128, 252, 253, 254, 255, 256, 257, 258, 259, 298, 299][choose(16)];
        Many { ord, a: if ord % 4 == 0 { 0 } else { u8() }, b: if ord % 4 < 2 { 0 } else { u8() } }
    }
    fn value(&self) -> Value {
        let v = match self.ord % 4 {
            0 => Value::Unit,
            1 => self.a.value(),
            2 => Value::Tuple(vec![self.a.value(), self.b.value()]),
            _ => Value::Struct(vec![field("a", self.a.value()), field("b", self.b.value())]),
        };
        enm(self.ord as usize, MANY_NAMES[self.ord as usize], v)
    }
    fn shape() -> Schema {
        let mut vs = Vec::with_capacity(MANY);
        for i in 0..MANY {
            let inner = match i % 4 {
                0 => schema!(unit),
                1 => schema!(u8),
                2 => schema!(tuple { (u8), (u8) }),
                _ => schema!(struct { (a: u8), (b: u8) }),
            };
            vs.push(EnumSchemaVariant { name: MANY_NAMES[i].to_string(), inner });
        }
        Schema::Enum(vs)
    }
}

// ---------------------------------------------------------------- large values

/// Values of a size, with a few unconstrained parts.
pub trait Big: Typed {
    fn big(n: usize) -> Self;
}
/// The `i`th of many.
pub trait Part: Typed {
    fn part(i: usize, sym: bool) -> Self;
}
impl Part for u8 {
    fn part(i: usize, sym: bool) -> u8 {
        if sym {
            u8()
        } else {
            i as u8
        }
    }
}
impl Part for u16 {
    fn part(i: usize, sym: bool) -> u16 {
        if sym {
            u16()
        } else {
            i as u16 * 77
        }
    }
}
impl Part for () {
    fn part(_: usize, _: bool) {}
}
impl Part for Option<u8> {
    fn part(i: usize, sym: bool) -> Option<u8> {
        if i % 3 == 1 {
            None
        } else {
            Some(u8::part(i, sym))
        }
    }
}
impl Part for (u8, bool) {
    fn part(i: usize, sym: bool) -> (u8, bool) {
        (u8::part(i, sym), i % 5 == 0)
    }
}
impl Part for String {
    fn part(i: usize, sym: bool) -> String {
        let mut s = crate::long::format_name(i);
        s.truncate(i % 4);
        if sym {
            s.push(if choose(2) == 0 { 'y' } else { '\u{e9}' });
        }
        s
    }
}
impl Part for Sum {
    fn part(i: usize, sym: bool) -> Sum {
        match i % 7 {
            0 => Sum::Unit,
            1 => Sum::New(u16::part(i, sym)),
            2 => Sum::Tuple(u8::part(i, sym), i % 2 == 0),
            3 => Sum::Struct { x: u8::part(i, sym), y: Option::part(i / 7, false) },
            4 => Sum::Tuple0(),
            5 => Sum::Struct0 {},
            _ => Sum::Nested(Box::new(Plain { a: u8::part(i, sym), bb: String::part(i, false), c: [1, i as u16] })),
        }
    }
}
impl Part for Skipping {
    fn part(i: usize, sym: bool) -> Skipping {
        Skipping {
            a: u8::part(i, sym),
            b: Option::part(i, false),
            c: if i % 2 == 0 { None } else { Some(vec![1; i % 5]) },
        }
    }
}
impl<T: Part> Part for Vec<T> {
    fn part(i: usize, sym: bool) -> Vec<T> {
        parts(i % 7, sym)
    }
}
fn parts<T: Part>(n: usize, sym: bool) -> Vec<T> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(T::part(i, sym && (i == 0 || i + 1 == n || i == n / 2 || i == 255 || i == 256)));
    }
    v
}
macro_rules! big_seqs {
    ($($c:ident)*) => {$(
        impl<T: Part> Big for $c<T> {
            fn big(n: usize) -> Self { parts::<T>(n, true).into_iter().collect() }
        }
    )*};
}
big_seqs! { Vec LinkedList VecDeque }
macro_rules! big_sets {
    ($($c:ident $($b:ident)*;)*) => {$(
        // (ordered: nothing symbolic)
        impl<T: Part + Key $(+ std::hash::$b)* + Ord> Big for $c<T> {
            fn big(n: usize) -> Self { parts::<T>(n, false).into_iter().collect() }
        }
    )*};
}
big_sets! { BTreeSet; HashSet Hash; BinaryHeap; }
macro_rules! big_maps {
    ($($c:ident $($b:ident)*;)*) => {$(
        impl<K: Part + Key $(+ std::hash::$b)* + Ord, V: Part> Big for $c<K, V> {
            fn big(n: usize) -> Self { parts::<K>(n, false).into_iter().zip(parts::<V>(n, true)).collect() }
        }
    )*};
}
big_maps! { BTreeMap; HashMap Hash; }
impl Big for String {
    fn big(n: usize) -> String {
        let mut s = "x".repeat(n).into_bytes();
        let c = u8();
        assume(c < 0x80);
        s.push(c);
        String::from_utf8(s).unwrap()
    }
}
impl Big for Blob {
    fn big(n: usize) -> Blob {
        let mut v = vec![7; n];
        v[0] = u8();
        v.push(u8());
        Blob(v)
    }
}
impl<T: Part, const N: usize> Big for [T; N] {
    fn big(_: usize) -> [T; N] {
        std::array::from_fn(|i| T::part(i, true))
    }
}
impl Big for List {
    fn big(n: usize) -> List {
        let mut l = List { value: u8(), next: None };
        for i in 0..n {
            l = List { value: u8::part(i, i % 50 == 0), next: Some(Box::new(l)) };
        }
        l
    }
}
impl Big for Chain {
    fn big(n: usize) -> Chain {
        let mut c = Chain(None);
        for _ in 0..n {
            c = Chain(Some(Box::new(c)));
        }
        c
    }
}
impl Big for Wrap {
    fn big(n: usize) -> Wrap {
        let mut c = Wrap(Box::new(Inner { again: None, x: u8() }));
        for i in 0..n {
            c = Wrap(Box::new(Inner { again: Some(c), x: i as u8 }));
        }
        c
    }
}
/// Odd sizes: wide; even ones: deep.
impl Big for Rose {
    fn big(n: usize) -> Rose {
        let leaf = |i: usize| Rose { label: u8::part(i, i % 50 == 0), children: Vec::new() };
        let mut r = leaf(0);
        for i in 1..n {
            if n % 2 == 1 {
                r.children.push(leaf(i));
            } else {
                r = Rose { label: i as u8, children: vec![leaf(i), r, leaf(i + 1)] };
            }
        }
        r
    }
}
impl Big for Trie {
    fn big(n: usize) -> Trie {
        let mut r = Trie { end: boolean(), edges: BTreeMap::new() };
        for i in 0..n {
            let leaf = Trie { end: false, edges: BTreeMap::new() };
            r = Trie { end: i % 2 == 0, edges: [(1, r), (i as u8 | 2, leaf)].into_iter().collect() };
        }
        r
    }
}
impl Big for Tree2 {
    fn big(n: usize) -> Tree2 {
        let leaf = |i: usize| Box::new(Tree2::Leaf(u8::part(i, i % 50 == 0)));
        let mut r = Tree2::Leaf(u8());
        for i in 0..n {
            let b = Box::new(r);
            r = match i % 4 {
                0 => Tree2::One(b),
                1 => Tree2::Two(b, leaf(i)),
                2 => Tree2::Two(leaf(i), b),
                _ => Tree2::Branch { left: leaf(i), value: i as u8, right: b },
            };
        }
        r
    }
}
impl Big for Even {
    fn big(n: usize) -> Even {
        let mut e = Even { odd: None, tag: u8() };
        for i in 0..n {
            let mut even = parts::<u8>(i % 3, false).into_iter().map(|tag| Even { odd: None, tag }).collect::<Vec<_>>();
            even.push(e);
            let other = if i % 2 == 0 { None } else { Some(Box::new(Odd { even: Vec::new(), other: None })) };
            e = Even { odd: Some(Box::new(Odd { even, other })), tag: i as u8 };
        }
        e
    }
}
impl Big for Attr {
    fn big(n: usize) -> Attr {
        let leaf = || Attr { v: u8(), kids: Kids::None };
        let mut a = leaf();
        for i in 0..n {
            let kids = if i % 2 == 0 {
                Kids::One(Box::new(a))
            } else {
                Kids::Two { a: Box::new(leaf()), k: Box::new(Kids::One(Box::new(a))) }
            };
            a = Attr { v: i as u8, kids };
        }
        a
    }
}
impl Big for Twice {
    fn big(n: usize) -> Twice {
        Twice {
            a: List::big(n),
            b: vec![List::big(1), List::big(n), List::big(0)],
            c: (Chain::big(n), Some(Tree2::big(n))),
        }
    }
}
impl Big for Maps {
    fn big(n: usize) -> Maps {
        Maps { m: Big::big(n), h: Big::big(n), s: Big::big(n) }
    }
}
impl Big for Plain {
    fn big(n: usize) -> Plain {
        Plain { a: u8(), bb: String::big(n), c: [n as u16, u16()] }
    }
}

// ---------------------------------------------------------------- checks

/// Any value of `T` under `schema`: exact bytes, and back, both typed and
/// dynamically.
pub fn round<T: Typed + Serialize + DeserializeOwned>(schema: &Schema, f: usize) {
    round_of(T::any(f), schema)
}
pub fn round_of<T: Typed + Serialize + DeserializeOwned>(x: T, schema: &Schema) {
    let t = Tree::new(schema);
    let v = x.value();
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(schema, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut out);
    check(x.serialize(&mut e).is_ok(), "serializing a value under its schema failed");
    check(cs.is_finished(), "encoder not finished");
    if T::EXACT {
        // (otherwise in an order that changes from run to run)
        observe_bytes(&out);
    }
    let end = expect_value(&t, 0, &v, &out, 0);
    check(end == out.len(), "encoding longer than the format prescribes");
    out.push(u8());
    let mut rd = &out[..];
    let mut cs = CoderState::new(schema, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    match T::deserialize(&mut d) {
        Ok(y) => x.agree(&y),
        Err(_) => check(false, "deserializing a serialized value failed"),
    }
    check(cs.is_finished(), "decoder not finished");
    check(rd.len() == 1, "decoder consumed a different number of bytes than encoded");
    let mut rd = &out[..];
    let mut cs = CoderState::new(schema, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    match Value::decode_from(&mut d) {
        Ok(w) => same(&v, &w),
        Err(_) => check(false, "decoding a serialized value failed"),
    }
    cover(1);
}

/// Arbitrary bytes decoded as `T`: what the format says, or its error.
pub fn decode<T: Typed + DeserializeOwned>(schema: &Schema, n: usize) {
    let input = vec(n);
    let t = Tree::new(schema);
    let mut at = 0;
    let want = ref_value(&t, 0, &input, &mut at);
    let mut rd = &input[..];
    let mut cs = CoderState::new(schema, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    match (T::deserialize(&mut d), want) {
        (Ok(x), Ok(v)) => {
            if T::EXACT {
                let w = x.value();
                observe_value(&w);
                same(&w, &v);
            }
            check(cs.is_finished(), "decoder not finished");
            check(rd.len() == input.len() - at, "decoder consumed a wrong number of bytes");
            cover(2);
        }
        (Err(e), Err(b)) => {
            observe(1000 + kind_code(e.kind()));
            crate::drive::check_broken_dec(&e, b, &mut cs, &mut rd);
            cover(3);
        }
        (Ok(_), Err(_)) => check(false, "bytes that are not a valid message were accepted"),
        (Err(_), Ok(_)) => check(false, "a valid message was rejected"),
    }
}
#[macro_export]
macro_rules! dispatch {
    ($i:expr, $f:ident, $a:expr; $($t:ty),* $(,)?) => {{
        let i = $i;
        let mut k = 0;
        $( if i == k { return $f::<$t>($a); } k += 1; )*
        let _ = (i, k);
        assume(false)
    }};
}
