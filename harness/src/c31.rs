//! C31: the levels of recursion computed for types within types.
use crate::api::*;
use binschema::*;

macro_rules! types {
    ($($t:ident)*) => {$(
        #[derive(Clone)]
        struct $t;
        impl KnownSchema for $t {
            fn schema(stack: RecurseStack) -> Schema {
                // (bodies differ, as those of types with different schemas do)
                Schema::Struct(vec![(stringify!($t), stack.parent_recurse::<$t>().unwrap_or(Schema::Unit)).into()])
            }
        }
    )*};
}
types! { Aa Bb Cc }

#[derive(Clone, Copy, PartialEq)]
enum Layer {
    A,
    B,
    C,
    Nothing,
}
/// The number of levels from inside the innermost layer up to `l`.
fn levels(v: &[Layer], l: Layer) -> Option<usize> {
    let mut n = 0;
    for i in (0..v.len()).rev() {
        n += 1;
        if v[i] == l {
            return Some(n);
        }
    }
    None
}
fn expect<T: KnownSchema>(s: &RecurseStack, v: &[Layer], l: Layer) {
    let n = levels(v, l);
    match (s.parent_recurse::<T>(), n) {
        (Some(Schema::Recurse(k)), Some(n)) => {
            check(k == n, "the recursion leads elsewhere");
            cover(1);
        }
        (None, None) => cover(2),
        _ => check(false, "a type around this one was missed, or one that is not around it was found"),
    }
    match (s.find_type::<T>(), n) {
        (Some(k), Some(n)) => check(k + 1 == n, "the type is found elsewhere"),
        (None, None) => (),
        _ => check(false, "a type around this one was missed, or one that is not around it was found"),
    }
}
fn descend(s: RecurseStack, v: &mut Vec<Layer>, left: usize) {
    expect::<Aa>(&s, v, Layer::A);
    expect::<Bb>(&s, v, Layer::B);
    expect::<Cc>(&s, v, Layer::C);
    // a type's own schema sees the same stack
    match (Aa::schema(s), levels(v, Layer::A)) {
        (Schema::Struct(f), n) => {
            check(f.len() == 1, "another schema");
            match (&f[0].inner, n) {
                (Schema::Recurse(k), Some(n)) => check(*k == n, "the recursion leads elsewhere"),
                (Schema::Unit, None) => (),
                _ => check(false, "another schema"),
            }
        }
        _ => check(false, "another schema"),
    }
    if left == 0 {
        return;
    }
    match choose(4) {
        0 => {
            v.push(Layer::A);
            descend(s.with_type_layer::<Aa>(), v, left - 1)
        }
        1 => {
            v.push(Layer::B);
            descend(s.with_type_layer::<Bb>(), v, left - 1)
        }
        2 => {
            v.push(Layer::C);
            descend(s.with_type_layer::<Cc>(), v, left - 1)
        }
        _ => {
            v.push(Layer::Nothing);
            descend(s.with_none_layer(), v, left - 1)
        }
    }
}
/// Every stack of layers.  params: layers
pub fn c31_stack() {
    let mut v = Vec::new();
    descend(if choose(2) == 0 { RecurseStack::new() } else { RecurseStack::default() }, &mut v, param(0));
}
/// A type far up.  params: layers, where
pub fn c31_far() {
    fn go(s: RecurseStack, v: &mut Vec<Layer>, left: usize, at: usize) {
        if left == 0 {
            expect::<Aa>(&s, v, Layer::A);
            expect::<Bb>(&s, v, Layer::B);
            expect::<Cc>(&s, v, Layer::C);
            return;
        }
        if left == at {
            v.push(Layer::A);
            go(s.with_type_layer::<Aa>(), v, left - 1, at)
        } else if left % 3 == 0 {
            v.push(Layer::Nothing);
            go(s.with_none_layer(), v, left - 1, at)
        } else {
            v.push(Layer::B);
            go(s.with_type_layer::<Bb>(), v, left - 1, at)
        }
    }
    let mut v = Vec::new();
    go(RecurseStack::new(), &mut v, param(0), param(1));
}

struct Of<T>(std::marker::PhantomData<T>);
impl<T: KnownSchema> KnownSchema for Of<T> {
    fn schema(stack: RecurseStack) -> Schema {
        let s = stack.with_type_layer::<Self>();
        Schema::Option(Box::new(T::schema(s)))
    }
}
struct Fixed<const N: usize>;
impl<const N: usize> KnownSchema for Fixed<N> {
    fn schema(_: RecurseStack) -> Schema {
        Schema::Recurse(N)
    }
}
/// Is the type found `n` levels up, and the other one not at all?
fn apart<T: KnownSchema, U: KnownSchema>(s: RecurseStack) {
    let s = s.with_type_layer::<T>();
    let t = s.with_none_layer();
    for (s, n) in [(s, 1), (t, 2)] {
        check(s.find_type::<T>() == Some(n - 1), "a type around this one was missed");
        check(matches!(s.parent_recurse::<T>(), Some(Schema::Recurse(k)) if k == n), "a type around this one was missed");
        check(s.find_type::<U>().is_none(), "a type was taken for another");
        check(s.parent_recurse::<U>().is_none(), "a type was taken for another");
    }
    cover(1);
    cover(2);
}
/// Different types which are alike: of the same name, of the same generic
/// type, of the same module.
pub fn c31_alike() {
    trait Get {
        type T: KnownSchema;
    }
    struct First;
    struct Second;
    {
        struct Node;
        impl KnownSchema for Node {
            fn schema(_: RecurseStack) -> Schema {
                schema!(u8)
            }
        }
        impl Get for First {
            type T = Node;
        }
    }
    {
        struct Node;
        impl KnownSchema for Node {
            fn schema(_: RecurseStack) -> Schema {
                schema!(u16)
            }
        }
        impl Get for Second {
            type T = Node;
        }
    }
    type A = <First as Get>::T;
    type B = <Second as Get>::T;
    let s = RecurseStack::new();
    match choose(12) {
        0 => apart::<A, B>(s),
        1 => apart::<B, A>(s),
        2 => apart::<Of<A>, Of<B>>(s),
        3 => apart::<Of<Aa>, Of<Bb>>(s),
        4 => apart::<Of<Aa>, Aa>(s),
        5 => apart::<Aa, Of<Aa>>(s),
        6 => apart::<Of<Of<Aa>>, Of<Aa>>(s),
        7 => apart::<Fixed<1>, Fixed<2>>(s),
        8 => apart::<Fixed<257>, Fixed<1>>(s),
        9 => apart::<[u8; 2], [u8; 3]>(s),
        10 => apart::<(u8, u16), (u16, u8)>(s),
        _ => apart::<Vec<u8>, std::collections::VecDeque<u16>>(s),
    }
}

// standard types between a type and where it recurses
/// Every marker in `s`, which is at level `n`, leads up to the type.
fn lead(s: &Schema, n: usize) -> usize {
    match s {
        Schema::Struct(f) if f.len() == 1 && f[0].name == "Aa" => {
            check(matches!(f[0].inner, Schema::Recurse(k) if k == n), "the recursion leads elsewhere");
            1
        }
        Schema::Option(s) => lead(s, n + 1),
        Schema::Seq(q) => lead(&q.inner, n + 1),
        Schema::Tuple(v) => v.iter().map(|s| lead(s, n + 1)).sum(),
        Schema::Struct(v) => v.iter().map(|f| lead(&f.inner, n + 1)).sum(),
        Schema::Enum(v) => v.iter().map(|f| lead(&f.inner, n + 1)).sum(),
        Schema::Recurse(_) => {
            check(false, "a recursion where there is none");
            0
        }
        _ => 0,
    }
}
fn inside<T: KnownSchema>() {
    fn go<T: KnownSchema>(s: RecurseStack, n: usize, left: usize) {
        if left == 0 {
            let t = T::schema(s);
            let found = lead(&t, n);
            check(found > 0, "the type's place was lost");
            cover(1);
            return;
        }
        match choose(2) {
            0 => go::<T>(s.with_type_layer::<Bb>(), n + 1, left - 1),
            _ => go::<T>(s.with_none_layer(), n + 1, left - 1),
        }
    }
    let s = RecurseStack::new();
    let s = s.with_none_layer();
    let s = s.with_type_layer::<Aa>();
    go::<T>(s, 1, choose(4));
}
macro_rules! around {
    ($f:ident, $t:ty) => {{
        use std::borrow::Cow;
        use std::collections::*;
        use std::ops::*;
        match choose(22) {
            0 => $f!(Option<$t>),
            1 => $f!(Vec<$t>),
            2 => $f!([$t; 2]),
            3 => $f!(($t,)),
            4 => $f!((u8, $t)),
            5 => $f!(($t, u8, $t)),
            6 => $f!(BTreeMap<u8, $t>),
            7 => $f!(BTreeMap<$t, u8>),
            8 => $f!(HashMap<$t, $t>),
            9 => $f!(Range<$t>),
            10 => $f!(RangeInclusive<$t>),
            11 => $f!(Bound<$t>),
            12 => $f!(Box<$t>),
            13 => $f!(&'static $t),
            14 => $f!(&'static mut $t),
            15 => $f!(Cow<'static, $t>),
            16 => $f!(BinaryHeap<$t>),
            17 => $f!(BTreeSet<$t>),
            18 => $f!(HashSet<$t>),
            19 => $f!(LinkedList<$t>),
            20 => $f!(VecDeque<$t>),
            _ => $f!($t),
        }
    }};
}
macro_rules! run {
    ($t:ty) => {
        inside::<$t>()
    };
}
/// params: the inner type
pub fn c31_std() {
    macro_rules! two {
        ($($n:literal: $t:ty;)*) => {
            match param(0) {
                $($n => around!(run, $t),)*
                _ => (),
            }
        };
    }
    use std::collections::*;
    use std::ops::*;
    two! {
        0: Aa;
        1: Option<Aa>;
        2: Vec<(u8, Aa)>;
        3: BTreeMap<u8, Aa>;
        4: HashMap<Vec<Aa>, Option<Aa>>;
        5: Bound<[Aa; 3]>;
        6: Box<Range<Aa>>;
        7: ([Aa; 1], Box<Aa>, Option<BTreeMap<u8, (Aa, Aa)>>);
    }
}
