//! Sequences, tuples and structs of any number of parts, finished after too
//! few of them, and begun with the wrong number of them.
use crate::api::*;
use binschema::error::{Error, ErrorKind};
use binschema::*;

const KINDS: usize = 4;

fn refused<T>(r: Result<T, Error>) {
    match r {
        Ok(_) => check(false, "a wrong call was accepted"),
        Err(e) => {
            let usage = e.kind() == ErrorKind::SchemaNonConformance || e.kind() == ErrorKind::ApiUsage;
            check(usage, "a wrong call was refused for the wrong reason")
        }
    }
}
fn accepted<T>(r: Result<T, Error>) {
    check(r.is_ok(), "a right call was refused");
}
fn part(k: usize, n: usize, name: &str) -> Schema {
    match k {
        2 => Schema::Tuple((0..n).map(|_| Schema::Unit).collect()),
        _ => Schema::Struct((0..n).map(|_| (name, Schema::Unit).into()).collect()),
    }
}
/// How many parts are coded before the end is tried.
fn some(n: Option<usize>) -> usize {
    match (choose(6), n) {
        (c @ 0..=2, _) => c,
        (3, Some(n)) => n.wrapping_sub(256),
        (4, Some(n)) => n.wrapping_sub(1),
        (5, Some(n)) => n,
        _ => 3,
    }
}
macro_rules! parts {
    ($name:ident, $coder:ident, $unit:ident, $stream:expr, $var:expr) => {
        /// kind 0: a sequence of any length; 1: of any fixed length; 2, 3: a
        /// tuple, a struct of `n` parts
        pub fn $name(kind: usize, n: usize) {
            check(kind < KINDS, "no such kind");
            let len = if kind < 2 { u64() as usize } else { n };
            let schema = match kind {
                0 => schema!(seq(varlen)(unit)),
                1 => schema!(seq(len)(unit)),
                k => part(k, n, "a"),
            };
            let mut cs = CoderState::new(&schema, CoderStateAlloc::new(), None);
            let mut stream = $stream(len);
            let mut c = $coder::new(&mut cs, &mut stream);
            match kind {
                0 => $var(&mut c, len),
                1 => {
                    let other = u64() as usize;
                    assume(other != len);
                    refused(c.begin_fixed_len_seq(other));
                    accepted(c.begin_fixed_len_seq(len))
                }
                2 => accepted(c.begin_tuple()),
                _ => accepted(c.begin_struct()),
            }
            let k = some(if kind < 2 { None } else { Some(len) });
            assume(k <= len);
            for _ in 0..k {
                accepted(match kind {
                    0 | 1 => c.begin_seq_elem(),
                    2 => c.begin_tuple_elem(),
                    _ => c.begin_struct_field("a"),
                });
                accepted(c.$unit());
            }
            for _ in 0..2 {
                // (a refused call leaves no trace)
                if k < len {
                    cover(2);
                    match kind {
                        0 | 1 => refused(c.finish_seq()),
                        2 => refused(c.finish_tuple()),
                        _ => refused(c.finish_struct()),
                    }
                } else {
                    match kind {
                        0 | 1 => refused(c.begin_seq_elem()),
                        2 => refused(c.begin_tuple_elem()),
                        _ => refused(c.begin_struct_field("a")),
                    }
                }
                check(!c.coder_state().is_finished(), "finished too early");
            }
            if k < len {
                accepted(match kind {
                    0 | 1 => c.begin_seq_elem(),
                    2 => c.begin_tuple_elem(),
                    _ => c.begin_struct_field("a"),
                });
            } else {
                accepted(match kind {
                    0 | 1 => c.finish_seq(),
                    2 => c.finish_tuple(),
                    _ => c.finish_struct(),
                });
                check(c.coder_state().is_finished(), "not finished");
                cover(1);
            }
        }
    };
}
fn begin_enc<W: std::io::Write>(e: &mut Encoder<W>, n: usize) {
    accepted(e.begin_var_len_seq(n))
}
fn begin_dec<R: std::io::Read>(d: &mut Decoder<R>, n: usize) {
    match d.begin_var_len_seq() {
        Ok(m) => check(m == n, "another length"),
        Err(_) => check(false, "a right call was refused"),
    }
}
/// The number as a length of ten bytes.
fn ten(n: usize) -> Vec<u8> {
    let n = n as u64;
    (0..10).map(|i| (n >> (7 * i)) as u8 & 0x7f | ((i < 9) as u8) << 7).collect()
}
parts!(parts_enc, Encoder, encode_unit, |_: usize| Vec::new(), begin_enc);
parts!(parts_dec, Decoder, decode_unit, |n: usize| std::io::Cursor::new(ten(n)), begin_dec);
