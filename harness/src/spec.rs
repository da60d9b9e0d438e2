//! Independent reference model of FORMAT.txt: encodings, decoding and the
//! set of values of a schema.  Written from the document, not from the code.
use crate::api::*;
use binschema::error::ErrorKind;
use binschema::value::*;
use binschema::*;

// ---------------------------------------------------------------- integers

/// Number of bytes of the var-len uint encoding of `n`.
pub fn uint_len(n: u128) -> usize {
    let mut l = 1;
    while l < 19 && (n >> (7 * l)) != 0 {
        l += 1;
    }
    l
}

/// Assert that `out[at..]` starts with the var-len uint encoding of `n`;
/// returns the position after it.
pub fn expect_uint(out: &[u8], at: usize, n: u128) -> usize {
    let l = uint_len(n);
    check(out.len() >= at + l, "var-len uint: output too short");
    for i in 0..l {
        let more = if i + 1 < l { 0x80 } else { 0 };
        check(out[at + i] == (((n >> (7 * i)) & 0x7f) as u8 | more), "var-len uint: wrong byte");
    }
    at + l
}

/// Number of bytes of the var-len sint encoding with magnitude bits `m`.
pub fn sint_len(m: u128) -> usize {
    if m >> 6 == 0 {
        return 1;
    }
    let mut l = 2;
    while l < 19 && (m >> (6 + 7 * (l - 1))) != 0 {
        l += 1;
    }
    l
}

pub fn expect_sint(out: &[u8], at: usize, n: i128) -> usize {
    let neg = n < 0;
    let m = if neg { !n as u128 } else { n as u128 };
    let l = sint_len(m);
    check(out.len() >= at + l, "var-len sint: output too short");
    let first = (m & 0x3f) as u8 | if neg { 0x40 } else { 0 } | if l > 1 { 0x80 } else { 0 };
    check(out[at] == first, "var-len sint: wrong first byte");
    for i in 1..l {
        let more = if i + 1 < l { 0x80 } else { 0 };
        check(out[at + i] == (((m >> (6 + 7 * (i - 1))) & 0x7f) as u8 | more), "var-len sint: wrong byte");
    }
    at + l
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bad {
    /// the input ended (or failed) inside the message
    Io,
    Malformed,
    Platform,
    Illegal,
}
pub type R<T> = Result<T, Bad>;

impl Bad {
    pub fn kind(self) -> ErrorKind {
        match self {
            Bad::Io => ErrorKind::Io,
            Bad::Malformed => ErrorKind::MalformedData,
            Bad::Platform => ErrorKind::PlatformLimits,
            Bad::Illegal => ErrorKind::IllegalSchema,
        }
    }
}

pub fn byte(b: &[u8], at: &mut usize) -> R<u8> {
    if *at >= b.len() {
        return Err(Bad::Io);
    }
    let v = b[*at];
    *at += 1;
    Ok(v)
}

/// Reference var-len uint decoder: at most 19 bytes, value below 2^128.
pub fn ref_uint(b: &[u8], at: &mut usize) -> R<u128> {
    let mut n = 0u128;
    let mut i = 0;
    loop {
        if i == 19 {
            return Err(Bad::Malformed);
        }
        let c = byte(b, at)?;
        if i == 18 && (c & 0x7f) > 3 {
            // bits 126..=132: only two fit.  Either the number is too large
            // or (also) the encoding is too long.
            return Err(Bad::Malformed);
        }
        n |= ((c & 0x7f) as u128) << (7 * i);
        i += 1;
        if c & 0x80 == 0 {
            return Ok(n);
        }
    }
}

/// Reference var-len sint decoder: at most 19 bytes, magnitude below 2^127.
pub fn ref_sint(b: &[u8], at: &mut usize) -> R<i128> {
    let c = byte(b, at)?;
    let neg = c & 0x40 != 0;
    let mut m = (c & 0x3f) as u128;
    let mut more = c & 0x80 != 0;
    let mut i = 1;
    while more {
        if i == 19 {
            return Err(Bad::Malformed);
        }
        let c = byte(b, at)?;
        if i == 18 && (c & 0x7f) > 3 {
            // bits 125..=131: bits 125 and 126 fit
            return Err(Bad::Malformed);
        }
        m |= ((c & 0x7f) as u128) << (6 + 7 * (i - 1));
        more = c & 0x80 != 0;
        i += 1;
    }
    let n = m as i128;
    Ok(if neg { !n } else { n })
}

/// Bytes of an ordinal of an enum with `n` variants.
pub fn ord_len(n: usize) -> usize {
    let max = n as u64 - 1;
    if max == 0 {
        0
    } else if max <= 0xff {
        1
    } else if max <= 0xffff {
        2
    } else if max <= 0xff_ffff {
        3
    } else {
        let mut l = 4;
        while l < 8 && max >> (8 * l) != 0 {
            l += 1;
        }
        l
    }
}

/// Is `b` well-formed UTF-8 (Unicode table 3-7)?
pub fn utf8_ok(b: &[u8]) -> bool {
    let mut i = 0;
    let n = b.len();
    while i < n {
        let c = b[i];
        if c < 0x80 {
            i += 1;
            continue;
        }
        let (len, lo, hi) = if c >= 0xc2 && c <= 0xdf {
            (2, 0x80, 0xbf)
        } else if c == 0xe0 {
            (3, 0xa0, 0xbf)
        } else if c == 0xed {
            (3, 0x80, 0x9f)
        } else if c >= 0xe1 && c <= 0xef {
            (3, 0x80, 0xbf)
        } else if c == 0xf0 {
            (4, 0x90, 0xbf)
        } else if c >= 0xf1 && c <= 0xf3 {
            (4, 0x80, 0xbf)
        } else if c == 0xf4 {
            (4, 0x80, 0x8f)
        } else {
            return false;
        };
        if i + len > n {
            return false;
        }
        if b[i + 1] < lo || b[i + 1] > hi {
            return false;
        }
        for k in 2..len {
            if b[i + k] & 0xc0 != 0x80 {
                return false;
            }
        }
        i += len;
    }
    true
}

// ------------------------------------------------------------ schema trees

#[derive(Clone, Copy)]
pub struct Node<'s> {
    pub s: &'s Schema,
    pub parent: usize,
    /// children are `first..first + n`
    pub first: usize,
    pub n: usize,
}

/// A schema laid out as a tree with parent links.
pub struct Tree<'s> {
    pub nodes: Vec<Node<'s>>,
}

pub const NONE: usize = usize::MAX;

pub fn child_schema(s: &Schema, i: usize) -> Option<&Schema> {
    match s {
        Schema::Option(inner) => {
            if i == 0 {
                Some(&**inner)
            } else {
                None
            }
        }
        Schema::Seq(q) => {
            if i == 0 {
                Some(&*q.inner)
            } else {
                None
            }
        }
        Schema::Tuple(v) => v.get(i),
        Schema::Struct(v) => v.get(i).map(|f| &f.inner),
        Schema::Enum(v) => v.get(i).map(|f| &f.inner),
        _ => None,
    }
}

impl<'s> Tree<'s> {
    pub fn new(s: &'s Schema) -> Self {
        let mut nodes = Vec::with_capacity(8);
        nodes.push(Node { s, parent: NONE, first: 0, n: 0 });
        let mut i = 0;
        while i < nodes.len() {
            let first = nodes.len();
            let mut n = 0;
            while let Some(c) = child_schema(nodes[i].s, n) {
                nodes.push(Node { s: c, parent: i, first: 0, n: 0 });
                n += 1;
            }
            nodes[i].first = first;
            nodes[i].n = n;
            i += 1;
        }
        Tree { nodes }
    }

    /// The node a (possibly recurse) node stands for: the schema that many
    /// levels up in the schema tree.
    pub fn resolve(&self, mut id: usize) -> R<usize> {
        let mut fuel = self.nodes.len();
        while let &Schema::Recurse(level) = self.nodes[id].s {
            if level == 0 || fuel == 0 {
                return Err(Bad::Illegal);
            }
            fuel -= 1;
            let mut l = 0;
            while l != level {
                id = self.nodes[id].parent;
                if id == NONE {
                    return Err(Bad::Illegal);
                }
                l += 1;
            }
        }
        Ok(id)
    }
    pub fn child(&self, id: usize, i: usize) -> usize {
        self.nodes[id].first + i
    }
}

// ---------------------------------------------------- reference encode/decode

/// Assert that `out[at..]` starts with the encoding of `v` under node `id`,
/// and that `v` is a value of that schema.  Returns the position after it.
pub fn expect_value(t: &Tree, id: usize, v: &Value, out: &[u8], at: usize) -> usize {
    let id = match t.resolve(id) {
        Ok(id) => id,
        Err(_) => {
            check(false, "value accepted under an illegal recurse schema");
            return at;
        }
    };
    match (t.nodes[id].s, v) {
        (&Schema::Scalar(st), &Value::Scalar(x)) => expect_scalar(st, x, out, at),
        (Schema::Str, Value::Str(s)) => {
            let at = expect_uint(out, at, s.len() as u128);
            expect_bytes(out, at, s.as_bytes())
        }
        (Schema::Bytes, Value::Bytes(s)) => {
            let at = expect_uint(out, at, s.len() as u128);
            expect_bytes(out, at, s)
        }
        (Schema::Unit, Value::Unit) => at,
        (Schema::Option(_), Value::Option(o)) => match o {
            None => expect_bytes(out, at, &[0]),
            Some(x) => {
                let at = expect_bytes(out, at, &[1]);
                expect_value(t, t.child(id, 0), x, out, at)
            }
        },
        (&Schema::Seq(SeqSchema { len: Some(len), .. }), Value::FixedLenSeq(xs)) => {
            check(xs.len() == len, "fixed-length seq of the wrong length accepted");
            let mut at = at;
            for x in xs {
                at = expect_value(t, t.child(id, 0), x, out, at);
            }
            at
        }
        (&Schema::Seq(SeqSchema { len: None, .. }), Value::VarLenSeq(xs)) => {
            let mut at = expect_uint(out, at, xs.len() as u128);
            for x in xs {
                at = expect_value(t, t.child(id, 0), x, out, at);
            }
            at
        }
        (Schema::Tuple(ss), Value::Tuple(xs)) => {
            check(xs.len() == ss.len(), "tuple of the wrong length accepted");
            let mut at = at;
            for i in 0..xs.len() {
                at = expect_value(t, t.child(id, i), &xs[i], out, at);
            }
            at
        }
        (Schema::Struct(ss), Value::Struct(xs)) => {
            check(xs.len() == ss.len(), "struct of the wrong length accepted");
            let mut at = at;
            for i in 0..xs.len() {
                check(xs[i].name == ss[i].name, "struct field of the wrong name accepted");
                at = expect_value(t, t.child(id, i), &xs[i].value, out, at);
            }
            at
        }
        (Schema::Enum(ss), Value::Enum(x)) => {
            check(x.variant_ord < ss.len(), "enum ordinal out of range accepted");
            check(x.variant_name == ss[x.variant_ord].name, "enum variant of the wrong name accepted");
            let at = expect_ord(out, at, x.variant_ord, ss.len());
            expect_value(t, t.child(id, x.variant_ord), &x.value, out, at)
        }
        _ => {
            check(false, "a value of another shape was accepted");
            at
        }
    }
}

pub fn expect_bytes(out: &[u8], at: usize, b: &[u8]) -> usize {
    check(out.len() >= at + b.len(), "output too short");
    for i in 0..b.len() {
        check(out[at + i] == b[i], "wrong byte in the output");
    }
    at + b.len()
}

pub fn expect_ord(out: &[u8], at: usize, ord: usize, n: usize) -> usize {
    let l = ord_len(n);
    check(out.len() >= at + l, "output too short for the ordinal");
    for i in 0..l {
        check(out[at + i] == (ord >> (8 * i)) as u8, "wrong ordinal byte");
    }
    at + l
}

pub fn expect_scalar(st: ScalarType, x: ScalarValue, out: &[u8], at: usize) -> usize {
    match (st, x) {
        (ScalarType::U8, ScalarValue::U8(n)) => expect_bytes(out, at, &[n]),
        (ScalarType::U16, ScalarValue::U16(n)) => expect_bytes(out, at, &[n as u8, (n >> 8) as u8]),
        (ScalarType::U32, ScalarValue::U32(n)) => expect_uint(out, at, n as u128),
        (ScalarType::U64, ScalarValue::U64(n)) => expect_uint(out, at, n as u128),
        (ScalarType::U128, ScalarValue::U128(n)) => expect_uint(out, at, n),
        (ScalarType::I8, ScalarValue::I8(n)) => expect_bytes(out, at, &[n as u8]),
        (ScalarType::I16, ScalarValue::I16(n)) => expect_bytes(out, at, &[n as u8, ((n as u16) >> 8) as u8]),
        (ScalarType::I32, ScalarValue::I32(n)) => expect_sint(out, at, n as i128),
        (ScalarType::I64, ScalarValue::I64(n)) => expect_sint(out, at, n as i128),
        (ScalarType::I128, ScalarValue::I128(n)) => expect_sint(out, at, n),
        (ScalarType::F32, ScalarValue::F32(x)) => {
            let n = x.to_bits();
            expect_bytes(out, at, &[n as u8, (n >> 8) as u8, (n >> 16) as u8, (n >> 24) as u8])
        }
        (ScalarType::F64, ScalarValue::F64(x)) => {
            let n = x.to_bits();
            let mut b = [0u8; 8];
            for i in 0..8 {
                b[i] = (n >> (8 * i)) as u8;
            }
            expect_bytes(out, at, &b)
        }
        (ScalarType::Char, ScalarValue::Char(c)) => expect_uint(out, at, c as u32 as u128),
        (ScalarType::Bool, ScalarValue::Bool(b)) => expect_bytes(out, at, &[if b { 1 } else { 0 }]),
        _ => {
            check(false, "a scalar of another type was accepted");
            at
        }
    }
}

fn le<const N: usize>(b: &[u8], at: &mut usize) -> R<[u8; N]> {
    if b.len() - *at < N {
        *at = b.len();
        return Err(Bad::Io);
    }
    let mut r = [0u8; N];
    for i in 0..N {
        r[i] = b[*at + i];
    }
    *at += N;
    Ok(r)
}

pub fn ref_scalar(st: ScalarType, b: &[u8], at: &mut usize) -> R<ScalarValue> {
    Ok(match st {
        ScalarType::U8 => ScalarValue::U8(byte(b, at)?),
        ScalarType::I8 => ScalarValue::I8(byte(b, at)? as i8),
        ScalarType::U16 => {
            let r = le::<2>(b, at)?;
            ScalarValue::U16(r[0] as u16 | (r[1] as u16) << 8)
        }
        ScalarType::I16 => {
            let r = le::<2>(b, at)?;
            ScalarValue::I16((r[0] as u16 | (r[1] as u16) << 8) as i16)
        }
        ScalarType::F32 => {
            let r = le::<4>(b, at)?;
            let mut n = 0u32;
            for i in 0..4 {
                n |= (r[i] as u32) << (8 * i);
            }
            ScalarValue::F32(f32::from_bits(n))
        }
        ScalarType::F64 => {
            let r = le::<8>(b, at)?;
            let mut n = 0u64;
            for i in 0..8 {
                n |= (r[i] as u64) << (8 * i);
            }
            ScalarValue::F64(f64::from_bits(n))
        }
        ScalarType::U32 => {
            let n = ref_uint(b, at)?;
            if n > 0xffff_ffff {
                return Err(Bad::Malformed);
            }
            ScalarValue::U32(n as u32)
        }
        ScalarType::U64 => {
            let n = ref_uint(b, at)?;
            if n > 0xffff_ffff_ffff_ffff {
                return Err(Bad::Malformed);
            }
            ScalarValue::U64(n as u64)
        }
        ScalarType::U128 => ScalarValue::U128(ref_uint(b, at)?),
        ScalarType::I32 => {
            let n = ref_sint(b, at)?;
            if n < -0x8000_0000 || n > 0x7fff_ffff {
                return Err(Bad::Malformed);
            }
            ScalarValue::I32(n as i32)
        }
        ScalarType::I64 => {
            let n = ref_sint(b, at)?;
            if n < -0x8000_0000_0000_0000 || n > 0x7fff_ffff_ffff_ffff {
                return Err(Bad::Malformed);
            }
            ScalarValue::I64(n as i64)
        }
        ScalarType::I128 => ScalarValue::I128(ref_sint(b, at)?),
        ScalarType::Char => {
            let n = ref_uint(b, at)?;
            if n > 0x10_ffff || (n >= 0xd800 && n <= 0xdfff) {
                return Err(Bad::Malformed);
            }
            ScalarValue::Char(unsafe { char::from_u32_unchecked(n as u32) })
        }
        ScalarType::Bool => {
            let n = byte(b, at)?;
            if n > 1 {
                return Err(Bad::Malformed);
            }
            ScalarValue::Bool(n == 1)
        }
    })
}

/// Reference ordinal decoder.
pub fn ref_ord(n: usize, b: &[u8], at: &mut usize) -> R<usize> {
    if n == 0 {
        return Err(Bad::Malformed);
    }
    let l = ord_len(n);
    if b.len() - *at < l {
        *at = b.len();
        return Err(Bad::Io);
    }
    let mut o = 0u64;
    for i in 0..l {
        o |= (b[*at + i] as u64) << (8 * i);
    }
    *at += l;
    if o >= n as u64 {
        return Err(Bad::Malformed);
    }
    Ok(o as usize)
}

/// Reference decoder of a whole value.
/// The longest seq of elements without bytes that is explored.
pub const ZERO_SIZED_MAX: usize = 5;

pub fn ref_value(t: &Tree, id: usize, b: &[u8], at: &mut usize) -> R<Value> {
    let id = t.resolve(id)?;
    Ok(match t.nodes[id].s {
        &Schema::Scalar(st) => Value::Scalar(ref_scalar(st, b, at)?),
        Schema::Str => {
            let v = ref_str(b, at)?;
            if !utf8_ok(&v) {
                return Err(Bad::Malformed);
            }
            Value::Str(unsafe { String::from_utf8_unchecked(v) })
        }
        Schema::Bytes => Value::Bytes(ref_str(b, at)?),
        Schema::Unit => Value::Unit,
        Schema::Option(_) => match byte(b, at)? {
            0 => Value::Option(None),
            1 => Value::Option(Some(Box::new(ref_value(t, t.child(id, 0), b, at)?))),
            _ => return Err(Bad::Malformed),
        },
        &Schema::Seq(SeqSchema { len: Some(len), .. }) => {
            let mut v = Vec::new();
            let mut i = 0;
            while i < len {
                v.push(ref_value(t, t.child(id, 0), b, at)?);
                i += 1;
            }
            Value::FixedLenSeq(v)
        }
        &Schema::Seq(SeqSchema { len: None, .. }) => {
            let n = ref_uint(b, at)?;
            if n > usize::MAX as u128 {
                return Err(Bad::Platform);
            }
            let n = n as usize;
            let mut v = Vec::new();
            let mut i = 0;
            while i < n {
                let before = *at;
                v.push(ref_value(t, t.child(id, 0), b, at)?);
                if *at == before {
                    // elements without bytes: only the claimed number bounds
                    // the work (out of scope, see DESIGN.md)
                    assume(n <= ZERO_SIZED_MAX);
                }
                i += 1;
            }
            Value::VarLenSeq(v)
        }
        Schema::Tuple(ss) => {
            let mut v = Vec::new();
            for i in 0..ss.len() {
                v.push(ref_value(t, t.child(id, i), b, at)?);
            }
            Value::Tuple(v)
        }
        Schema::Struct(ss) => {
            let mut v = Vec::new();
            for i in 0..ss.len() {
                let value = ref_value(t, t.child(id, i), b, at)?;
                v.push(StructValueField { name: ss[i].name.clone(), value });
            }
            Value::Struct(v)
        }
        Schema::Enum(ss) => {
            let o = ref_ord(ss.len(), b, at)?;
            let o = concretize(o);
            Value::Enum(EnumValue {
                variant_ord: o,
                variant_name: ss[o].name.clone(),
                value: Box::new(ref_value(t, t.child(id, o), b, at)?),
            })
        }
        Schema::Recurse(_) => return Err(Bad::Illegal),
    })
}

pub fn ref_text(b: &[u8], at: &mut usize) -> R<Vec<u8>> {
    let v = ref_str(b, at)?;
    if !utf8_ok(&v) {
        return Err(Bad::Malformed);
    }
    Ok(v)
}

pub fn ref_str(b: &[u8], at: &mut usize) -> R<Vec<u8>> {
    let n = ref_uint(b, at)?;
    if n > usize::MAX as u128 {
        return Err(Bad::Platform);
    }
    if n > (b.len() - *at) as u128 {
        *at = b.len();
        return Err(Bad::Io);
    }
    let n = concretize(n as usize);
    let v = b[*at..*at + n].to_vec();
    *at += n;
    Ok(v)
}

// ------------------------------------------------------------------ values

/// Assert that two values are identical, floats bit for bit.
pub fn same(a: &Value, b: &Value) {
    match (a, b) {
        (&Value::Scalar(x), &Value::Scalar(y)) => same_scalar(x, y),
        (Value::Str(x), Value::Str(y)) => same_bytes(x.as_bytes(), y.as_bytes()),
        (Value::Bytes(x), Value::Bytes(y)) => same_bytes(x, y),
        (Value::Unit, Value::Unit) => (),
        (Value::Option(None), Value::Option(None)) => (),
        (Value::Option(Some(x)), Value::Option(Some(y))) => same(x, y),
        (Value::FixedLenSeq(x), Value::FixedLenSeq(y)) => same_all(x, y),
        (Value::VarLenSeq(x), Value::VarLenSeq(y)) => same_all(x, y),
        (Value::Tuple(x), Value::Tuple(y)) => same_all(x, y),
        (Value::Struct(x), Value::Struct(y)) => {
            check(x.len() == y.len(), "values differ: struct length");
            for i in 0..x.len() {
                same_bytes(x[i].name.as_bytes(), y[i].name.as_bytes());
                same(&x[i].value, &y[i].value);
            }
        }
        (Value::Enum(x), Value::Enum(y)) => {
            check(x.variant_ord == y.variant_ord, "values differ: variant ordinal");
            same_bytes(x.variant_name.as_bytes(), y.variant_name.as_bytes());
            same(&x.value, &y.value);
        }
        _ => check(false, "values differ in kind"),
    }
}
fn same_all(a: &[Value], b: &[Value]) {
    check(a.len() == b.len(), "values differ: number of elements");
    for i in 0..a.len() {
        same(&a[i], &b[i]);
    }
}
pub fn same_bytes(a: &[u8], b: &[u8]) {
    check(a.len() == b.len(), "values differ: byte length");
    for i in 0..a.len() {
        check(a[i] == b[i], "values differ: byte");
    }
}
pub fn scalar_bits(x: ScalarValue) -> (u8, u128) {
    match x {
        ScalarValue::U8(n) => (0, n as u128),
        ScalarValue::U16(n) => (1, n as u128),
        ScalarValue::U32(n) => (2, n as u128),
        ScalarValue::U64(n) => (3, n as u128),
        ScalarValue::U128(n) => (4, n),
        ScalarValue::I8(n) => (5, n as u8 as u128),
        ScalarValue::I16(n) => (6, n as u16 as u128),
        ScalarValue::I32(n) => (7, n as u32 as u128),
        ScalarValue::I64(n) => (8, n as u64 as u128),
        ScalarValue::I128(n) => (9, n as u128),
        ScalarValue::F32(x) => (10, x.to_bits() as u128),
        ScalarValue::F64(x) => (11, x.to_bits() as u128),
        ScalarValue::Char(c) => (12, c as u32 as u128),
        ScalarValue::Bool(b) => (13, b as u128),
    }
}
pub fn same_scalar(a: ScalarValue, b: ScalarValue) {
    let (ta, va) = scalar_bits(a);
    let (tb, vb) = scalar_bits(b);
    check(ta == tb, "values differ: scalar type");
    check(va == vb, "values differ: scalar");
}
/// Observe a value (so that native replay compares it).
pub fn observe_value(v: &Value) {
    match v {
        &Value::Scalar(x) => {
            let (t, n) = scalar_bits(x);
            observe(t as u64);
            observe(n as u64);
            observe((n >> 64) as u64);
        }
        Value::Str(s) => observe_bytes(s.as_bytes()),
        Value::Bytes(s) => observe_bytes(s),
        Value::Unit => observe(100),
        Value::Option(None) => observe(101),
        Value::Option(Some(x)) => {
            observe(102);
            observe_value(x)
        }
        Value::FixedLenSeq(xs) | Value::VarLenSeq(xs) | Value::Tuple(xs) => {
            observe(xs.len() as u64);
            for x in xs {
                observe_value(x);
            }
        }
        Value::Struct(xs) => {
            observe(xs.len() as u64);
            for x in xs {
                observe_value(&x.value);
            }
        }
        Value::Enum(x) => {
            observe(x.variant_ord as u64);
            observe_value(&x.value)
        }
    }
}

pub fn kind_code(k: ErrorKind) -> u64 {
    match k {
        ErrorKind::Io => 1,
        ErrorKind::MalformedData => 2,
        ErrorKind::SchemaNonConformance => 3,
        ErrorKind::PlatformLimits => 4,
        ErrorKind::IllegalSchema => 5,
        ErrorKind::ApiUsage => 6,
        ErrorKind::Other => 7,
    }
}

pub const SCALARS: [ScalarType; 14] = [
    ScalarType::U8,
    ScalarType::U16,
    ScalarType::U32,
    ScalarType::U64,
    ScalarType::U128,
    ScalarType::I8,
    ScalarType::I16,
    ScalarType::I32,
    ScalarType::I64,
    ScalarType::I128,
    ScalarType::F32,
    ScalarType::F64,
    ScalarType::Char,
    ScalarType::Bool,
];

/// An unconstrained scalar of the given type.
pub fn any_scalar(st: ScalarType) -> ScalarValue {
    match st {
        ScalarType::U8 => ScalarValue::U8(u8()),
        ScalarType::U16 => ScalarValue::U16(u16()),
        ScalarType::U32 => ScalarValue::U32(u32()),
        ScalarType::U64 => ScalarValue::U64(u64()),
        ScalarType::U128 => ScalarValue::U128(u128()),
        ScalarType::I8 => ScalarValue::I8(i8()),
        ScalarType::I16 => ScalarValue::I16(i16()),
        ScalarType::I32 => ScalarValue::I32(i32()),
        ScalarType::I64 => ScalarValue::I64(i64()),
        ScalarType::I128 => ScalarValue::I128(i128()),
        ScalarType::F32 => ScalarValue::F32(f32::from_bits(u32())),
        ScalarType::F64 => ScalarValue::F64(f64::from_bits(u64())),
        ScalarType::Char => ScalarValue::Char(ch()),
        ScalarType::Bool => ScalarValue::Bool(boolean()),
    }
}

// ------------------------------------------------------- reference encoding

fn put_uint(out: &mut Vec<u8>, n: u128) {
    let l = uint_len(n);
    for i in 0..l {
        out.push(((n >> (7 * i)) & 0x7f) as u8 | if i + 1 < l { 0x80 } else { 0 });
    }
}
fn put_sint(out: &mut Vec<u8>, n: i128) {
    let m = if n < 0 { !n as u128 } else { n as u128 };
    let l = sint_len(m);
    out.push((m & 0x3f) as u8 | if n < 0 { 0x40 } else { 0 } | if l > 1 { 0x80 } else { 0 });
    for i in 1..l {
        out.push(((m >> (6 + 7 * (i - 1))) & 0x7f) as u8 | if i + 1 < l { 0x80 } else { 0 });
    }
}
/// The encoding of `v`, a value of node `id`.
pub fn ref_encode(t: &Tree, id: usize, v: &Value, out: &mut Vec<u8>) {
    let id = match t.resolve(id) {
        Ok(id) => id,
        Err(_) => return,
    };
    match v {
        &Value::Scalar(x) => match x {
            ScalarValue::U8(n) => out.push(n),
            ScalarValue::I8(n) => out.push(n as u8),
            ScalarValue::Bool(b) => out.push(b as u8),
            ScalarValue::U16(n) => out.extend_from_slice(&n.to_le_bytes()),
            ScalarValue::I16(n) => out.extend_from_slice(&n.to_le_bytes()),
            ScalarValue::F32(n) => out.extend_from_slice(&n.to_bits().to_le_bytes()),
            ScalarValue::F64(n) => out.extend_from_slice(&n.to_bits().to_le_bytes()),
            ScalarValue::U32(n) => put_uint(out, n as u128),
            ScalarValue::U64(n) => put_uint(out, n as u128),
            ScalarValue::U128(n) => put_uint(out, n),
            ScalarValue::Char(n) => put_uint(out, n as u32 as u128),
            ScalarValue::I32(n) => put_sint(out, n as i128),
            ScalarValue::I64(n) => put_sint(out, n as i128),
            ScalarValue::I128(n) => put_sint(out, n),
        },
        Value::Str(s) => {
            put_uint(out, s.len() as u128);
            out.extend_from_slice(s.as_bytes());
        }
        Value::Bytes(s) => {
            put_uint(out, s.len() as u128);
            out.extend_from_slice(s);
        }
        Value::Unit => (),
        Value::Option(None) => out.push(0),
        Value::Option(Some(x)) => {
            out.push(1);
            ref_encode(t, t.child(id, 0), x, out);
        }
        Value::FixedLenSeq(xs) | Value::VarLenSeq(xs) => {
            if let Value::VarLenSeq(_) = v {
                put_uint(out, xs.len() as u128);
            }
            for x in xs {
                ref_encode(t, t.child(id, 0), x, out);
            }
        }
        Value::Tuple(xs) => {
            for i in 0..xs.len() {
                ref_encode(t, t.child(id, i), &xs[i], out);
            }
        }
        Value::Struct(xs) => {
            for i in 0..xs.len() {
                ref_encode(t, t.child(id, i), &xs[i].value, out);
            }
        }
        Value::Enum(x) => {
            let l = ord_len(t.nodes[id].n);
            out.extend_from_slice(&(x.variant_ord as u64).to_le_bytes()[..l]);
            ref_encode(t, t.child(id, x.variant_ord), &x.value, out);
        }
    }
}
