//! C03: enum ordinals.
use crate::api::*;
use crate::drive::*;
use crate::spec::*;
use binschema::error::ErrorKind;
use binschema::*;

fn names(n: usize) -> Schema {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(EnumSchemaVariant { name: String::new(), inner: Schema::Unit });
    }
    Schema::Enum(v)
}

/// Encode any ordinal.  params: number of variants, base, window (0: any ordinal)
pub fn c03_enc() {
    let n = param(0);
    let schema = names(n);
    let ord = u64() as usize;
    if param(2) != 0 {
        assume(ord >= param(1) && ord < param(1) + param(2));
    }
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut out);
    match e.begin_enum(ord, "") {
        Ok(()) => {
            cover(1);
            check(ord < n, "ordinal out of range accepted");
            check(e.encode_unit().is_ok(), "encoding the variant failed");
            check(cs.is_finished(), "encoder not finished");
            observe_bytes(&out);
            let end = expect_ord(&out, 0, ord, n);
            check(end == out.len(), "more ordinal bytes than the format prescribes");
            let mut rd = &out[..];
            let mut cs = CoderState::new(&schema, CoderStateAlloc::new(), None);
            let mut d = Decoder::new(&mut cs, &mut rd);
            match d.begin_enum() {
                Ok(o) => check(o == ord, "ordinal changed by round trip"),
                Err(_) => check(false, "decoding an encoded ordinal failed"),
            }
            check(rd.is_empty(), "ordinal bytes left over");
        }
        Err(er) => {
            cover(2);
            check(ord >= n, "ordinal in range rejected");
            check(er.kind() == ErrorKind::SchemaNonConformance, "wrong error kind");
            check(!cs.is_finished(), "finished after a rejected ordinal");
            check(out.is_empty(), "bytes written for a rejected ordinal");
        }
    }
}

/// Decode any bytes.  params: number of variants, input length
pub fn c03_dec() {
    let n = param(0);
    let schema = names(n);
    let input = vec(param(1));
    let mut rd = &input[..];
    let mut cs = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    let r = d.begin_enum();
    let mut at = 0;
    let want = ref_ord(n, &input, &mut at);
    match (&r, want) {
        (&Ok(o), Ok(w)) => {
            cover(3);
            observe(o as u64);
            check(o == w, "wrong ordinal decoded");
            check(rd.len() == input.len() - at, "wrong number of bytes consumed");
        }
        (Err(e), Err(b)) => {
            observe(1000 + kind_code(e.kind()));
            cover(if b == Bad::Io { 4 } else { 5 });
            check_broken_dec(e, b, &mut cs, &mut rd);
        }
        (Ok(_), Err(_)) => check(false, "decoder accepted an ordinal out of range"),
        (Err(_), Ok(_)) => check(false, "decoder rejected an ordinal in range"),
    }
}

/// Names go with ordinals: distinct names, any ordinal, any one-letter name.
/// params: number of variants (at most 26)
pub fn c03_name() {
    let n = param(0);
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(EnumSchemaVariant { name: String::from((b'a' + i as u8) as char), inner: Schema::Unit });
    }
    let schema = Schema::Enum(v);
    let ord = u64() as usize;
    let letter = u8();
    assume(letter < 0x80);
    let nb = [letter];
    let name = unsafe { std::str::from_utf8_unchecked(&nb) };
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut out);
    let good = ord < n && letter == b'a' + ord as u8;
    match e.begin_enum(ord, name) {
        Ok(()) => check(good, "ordinal and name that do not belong together accepted"),
        Err(er) => {
            check(!good, "matching ordinal and name rejected");
            check(er.kind() == ErrorKind::SchemaNonConformance, "wrong error kind");
            check(out.is_empty(), "bytes written for a rejected variant");
        }
    }
    // decoding: the ordinal read selects the name that must be given
    let input = [u8()];
    let mut rd = &input[..];
    let mut cs = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    if let Ok(o) = d.begin_enum() {
        let good = letter == b'a' + o as u8;
        match d.begin_enum_variant(name) {
            Ok(()) => check(good, "decoder accepted a name of another variant"),
            Err(er) => {
                check(!good, "decoder rejected the name of the variant");
                check(er.kind() == ErrorKind::SchemaNonConformance, "wrong error kind");
            }
        }
    }
}
