//! Traversals past 65536 levels or parts, call by call.
use crate::api::*;
use crate::spec::*;
use binschema::error::Result;
use binschema::*;
use std::io::{Read, Write};

/// Encoder or decoder: the calls common to both.
pub trait Coder {
    /// Takes part in no coding: only the bytes meant are wanted.
    const DRY: bool = false;
    fn some(&mut self) -> Result<bool>;
    fn none(&mut self) -> Result<()>;
    fn num(&mut self, x: u8) -> Result<()>;
    fn unit(&mut self) -> Result<()>;
    fn seq(&mut self, var: bool, n: usize) -> Result<()>;
    fn elem(&mut self) -> Result<()>;
    fn end_seq(&mut self) -> Result<()>;
    fn tuple(&mut self) -> Result<()>;
    fn telem(&mut self) -> Result<()>;
    fn end_tuple(&mut self) -> Result<()>;
    fn strukt(&mut self) -> Result<()>;
    fn field(&mut self, n: &str) -> Result<()>;
    fn end_struct(&mut self) -> Result<()>;
    fn variant(&mut self, o: usize, n: &str) -> Result<()>;
    fn needed(&self) -> Option<u8>;
}
fn kind(s: Result<&Schema>) -> Option<u8> {
    match s {
        Err(_) => None,
        Ok(Schema::Scalar(_)) => Some(0),
        Ok(Schema::Unit) => Some(1),
        Ok(Schema::Option(_)) => Some(2),
        Ok(Schema::Seq(_)) => Some(3),
        Ok(Schema::Tuple(_)) => Some(4),
        Ok(Schema::Struct(_)) => Some(5),
        Ok(Schema::Enum(_)) => Some(6),
        Ok(_) => Some(7),
    }
}
macro_rules! same_calls {
    () => {
        fn elem(&mut self) -> Result<()> {
            self.begin_seq_elem()
        }
        fn end_seq(&mut self) -> Result<()> {
            self.finish_seq()
        }
        fn tuple(&mut self) -> Result<()> {
            self.begin_tuple()
        }
        fn telem(&mut self) -> Result<()> {
            self.begin_tuple_elem()
        }
        fn end_tuple(&mut self) -> Result<()> {
            self.finish_tuple()
        }
        fn strukt(&mut self) -> Result<()> {
            self.begin_struct()
        }
        fn field(&mut self, n: &str) -> Result<()> {
            self.begin_struct_field(n)
        }
        fn end_struct(&mut self) -> Result<()> {
            self.finish_struct()
        }
        fn needed(&self) -> Option<u8> {
            kind(self.need())
        }
    };
}
impl<W: Write> Coder for Encoder<'_, '_, W> {
    fn some(&mut self) -> Result<bool> {
        self.begin_some()?;
        Ok(true)
    }
    fn none(&mut self) -> Result<()> {
        self.encode_none()
    }
    fn num(&mut self, x: u8) -> Result<()> {
        self.encode_u8(x)
    }
    fn unit(&mut self) -> Result<()> {
        self.encode_unit()
    }
    fn seq(&mut self, var: bool, n: usize) -> Result<()> {
        if var {
            self.begin_var_len_seq(n)
        } else {
            self.begin_fixed_len_seq(n)
        }
    }
    fn variant(&mut self, o: usize, n: &str) -> Result<()> {
        self.begin_enum(o, n)
    }
    same_calls!();
}
impl<R: Read> Coder for Decoder<'_, '_, R> {
    fn some(&mut self) -> Result<bool> {
        self.begin_option()
    }
    fn none(&mut self) -> Result<()> {
        check(!self.begin_option()?, "another option decoded");
        Ok(())
    }
    fn num(&mut self, x: u8) -> Result<()> {
        check(self.decode_u8()? == x, "another number decoded");
        Ok(())
    }
    fn unit(&mut self) -> Result<()> {
        self.decode_unit()
    }
    fn seq(&mut self, var: bool, n: usize) -> Result<()> {
        if var {
            check(self.begin_var_len_seq()? == n, "another length decoded");
            Ok(())
        } else {
            self.begin_fixed_len_seq(n)
        }
    }
    fn variant(&mut self, o: usize, n: &str) -> Result<()> {
        check(self.begin_enum()? == o, "another variant decoded");
        self.begin_enum_variant(n)
    }
    same_calls!();
}

fn ok<T>(r: Result<T>) -> T {
    match r {
        Ok(x) => x,
        Err(_) => {
            check(false, "a conforming call was refused");
            unreachable!()
        }
    }
}
fn no<C: Coder, T>(r: Result<T>) {
    check(C::DRY || r.is_err(), "a wrong call was accepted");
}
fn need<C: Coder>(c: &C, k: Option<u8>) {
    check(C::DRY || c.needed() == k, "another need");
}

pub const GIANTS: usize = 9;
pub fn giant_schema(k: usize, n: usize) -> Schema {
    match k {
        0 => schema!(option(recurse(1))),
        1 => schema!(struct { (a: u8), (next: option(recurse(2))) }),
        2 => schema!(enum { End(unit), More(tuple { (recurse(2)), (u8) }) }),
        3 => Schema::Tuple(vec![Schema::Unit; n]),
        4 => Schema::Struct((0..n).map(|_| StructSchemaField { name: String::new(), inner: Schema::Unit }).collect()),
        5 => schema!(seq(n)(unit)),
        6 => schema!(seq(varlen)(unit)),
        7 => {
            // a recursion from the bottom of many levels
            let mut s = Schema::Recurse(n);
            for _ in 0..n {
                s = Schema::Option(Box::new(s));
            }
            s
        }
        _ => schema!(seq(varlen)(seq(1)(recurse(2)))),
    }
}
/// The calls; `x` is a number somewhere inside, `bytes` gets what they mean.
fn calls<C: Coder>(c: &mut C, k: usize, n: usize, x: u8, bytes: &mut Vec<u8>) {
    match k {
        0 | 7 => {
            let m = if k == 0 { n } else { n + 3 };
            for i in 0..m {
                if i % 4096 == 0 {
                    need(c, Some(2));
                }
                check(ok(c.some()), "another option decoded");
                bytes.push(1);
            }
            need(c, Some(2));
            ok(c.none());
            bytes.push(0);
        }
        1 => {
            for i in 0..n {
                ok(c.strukt());
                ok(c.field("a"));
                ok(c.num(if i == n - 1 { x } else { 0 }));
                bytes.push(if i == n - 1 { x } else { 0 });
                ok(c.field("next"));
                if i + 1 < n {
                    check(ok(c.some()), "another option decoded");
                    bytes.push(1);
                } else {
                    ok(c.none());
                    bytes.push(0);
                }
            }
            for i in 0..n {
                if i % 4096 == 0 {
                    need(c, None);
                    no::<C, _>(c.field("a"));
                    no::<C, _>(c.end_tuple());
                }
                ok(c.end_struct());
            }
        }
        2 => {
            for _ in 0..n {
                ok(c.variant(1, "More"));
                ok(c.tuple());
                ok(c.telem());
                bytes.push(1);
            }
            ok(c.variant(0, "End"));
            bytes.push(0);
            ok(c.unit());
            for i in 0..n {
                if i % 4096 == 0 {
                    no::<C, _>(c.end_tuple());
                }
                ok(c.telem());
                ok(c.num(x));
                bytes.push(x);
                ok(c.end_tuple());
            }
        }
        3 => {
            ok(c.tuple());
            for i in 0..n {
                if i & 255 == 0 && (i < 300 || i + 300 > n) {
                    no::<C, _>(c.end_tuple());
                }
                ok(c.telem());
                ok(c.unit());
            }
            no::<C, _>(c.telem());
            ok(c.end_tuple());
        }
        4 => {
            ok(c.strukt());
            for i in 0..n {
                if i & 255 == 0 && (i < 300 || i + 300 > n) {
                    no::<C, _>(c.end_struct());
                }
                ok(c.field(""));
                ok(c.unit());
            }
            no::<C, _>(c.field(""));
            ok(c.end_struct());
        }
        5 | 6 => {
            ok(c.seq(k == 6, n));
            if k == 6 {
                let mut l = n;
                loop {
                    bytes.push((l & 0x7f) as u8 | if l > 0x7f { 0x80 } else { 0 });
                    l >>= 7;
                    if l == 0 {
                        break;
                    }
                }
            }
            for i in 0..n {
                if i & 255 == 0 && (i < 300 || i + 300 > n) {
                    no::<C, _>(c.end_seq());
                }
                ok(c.elem());
                ok(c.unit());
            }
            no::<C, _>(c.elem());
            ok(c.end_seq());
        }
        _ => {
            for _ in 0..n {
                ok(c.seq(true, 1));
                bytes.push(1);
                ok(c.elem());
                ok(c.seq(false, 1));
                ok(c.elem());
            }
            need(c, Some(3));
            ok(c.seq(true, 0));
            bytes.push(0);
            ok(c.end_seq());
            for i in 0..n {
                if i % 4096 == 0 {
                    no::<C, _>(c.elem());
                }
                ok(c.end_seq());
                ok(c.end_seq());
            }
        }
    }
}
/// params: kind, size
pub fn giant_enc() {
    let (k, n) = (param(0), param(1));
    let s = giant_schema(k, n);
    let x = u8();
    let (mut out, mut want) = (Vec::new(), Vec::new());
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    calls(&mut Encoder::new(&mut cs, &mut out), k, n, x, &mut want);
    check(cs.is_finished(), "encoder not finished");
    same_bytes(&out, &want);
    cover(1);
    drop(cs);
    std::mem::forget(s);
}
/// params: kind, size
pub fn giant_dec() {
    let (k, n) = (param(0), param(1));
    let s = giant_schema(k, n);
    let x = u8();
    let mut want = Vec::new();
    {
        // the bytes, by the reference
        let mut m = Meaning;
        calls(&mut m, k, n, x, &mut want);
    }
    let mut again = Vec::new();
    let mut r = want.as_slice();
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    calls(&mut Decoder::new(&mut cs, &mut r), k, n, x, &mut again);
    check(cs.is_finished(), "decoder not finished");
    check(r.is_empty(), "bytes left");
    cover(1);
    drop(cs);
    std::mem::forget(s);
}
/// Accepts everything: only the bytes are wanted.
struct Meaning;
impl Coder for Meaning {
    const DRY: bool = true;
    fn some(&mut self) -> Result<bool> {
        Ok(true)
    }
    fn none(&mut self) -> Result<()> {
        Ok(())
    }
    fn num(&mut self, _: u8) -> Result<()> {
        Ok(())
    }
    fn unit(&mut self) -> Result<()> {
        Ok(())
    }
    fn seq(&mut self, _: bool, _: usize) -> Result<()> {
        Ok(())
    }
    fn elem(&mut self) -> Result<()> {
        Ok(())
    }
    fn end_seq(&mut self) -> Result<()> {
        Ok(())
    }
    fn tuple(&mut self) -> Result<()> {
        Ok(())
    }
    fn telem(&mut self) -> Result<()> {
        Ok(())
    }
    fn end_tuple(&mut self) -> Result<()> {
        Ok(())
    }
    fn strukt(&mut self) -> Result<()> {
        Ok(())
    }
    fn field(&mut self, _: &str) -> Result<()> {
        Ok(())
    }
    fn end_struct(&mut self) -> Result<()> {
        Ok(())
    }
    fn variant(&mut self, _: usize, _: &str) -> Result<()> {
        Ok(())
    }
    fn needed(&self) -> Option<u8> {
        None
    }
}
