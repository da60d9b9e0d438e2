//! C01: var-len unsigned integers.
use crate::api::*;
use crate::drive::*;
use crate::spec::*;
use binschema::*;

const T: [ScalarType; 3] = [ScalarType::U32, ScalarType::U64, ScalarType::U128];

/// params: type
pub fn c01_enc() {
    let st = T[param(0)];
    scalar_round_trip(any_scalar(st), st);
}

/// params: type, input length
pub fn c01_dec() {
    let st = T[param(0)];
    let input = vec(param(1));
    scalar_decode(st, &input);
}

/// Sequence length prefix.  params: input length
pub fn c01_len_dec() {
    let input = vec(param(0));
    let schema = schema!(seq(varlen)(u8));
    let mut rd = &input[..];
    let mut cs = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let mut d = Decoder::new(&mut cs, &mut rd);
    let r = d.begin_var_len_seq();
    let mut at = 0;
    let want = match ref_uint(&input, &mut at) {
        Ok(n) if n > usize::MAX as u128 => Err(Bad::Platform),
        Ok(n) => Ok(n as usize),
        Err(e) => Err(e),
    };
    match (&r, want) {
        (&Ok(n), Ok(m)) => {
            observe(n as u64);
            check(n == m, "wrong sequence length decoded");
            check(rd.len() == input.len() - at, "wrong number of bytes consumed");
            cover(1);
        }
        (Err(e), Err(b)) => {
            observe(1000 + kind_code(e.kind()));
            check_broken_dec(e, b, &mut cs, &mut rd);
            if b == Bad::Platform {
                cover(4);
            }
        }
        (Ok(_), Err(_)) => check(false, "decoder accepted a bad sequence length"),
        (Err(_), Ok(_)) => check(false, "decoder rejected a valid sequence length"),
    }
}

pub fn c01_len_enc() {
    let schema = schema!(seq(varlen)(u8));
    let n = u64() as usize;
    let mut out: Vec<u8> = Vec::new();
    let mut cs = CoderState::new(&schema, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut cs, &mut out);
    check(e.begin_var_len_seq(n).is_ok(), "beginning a sequence failed");
    check(!cs.is_finished(), "finished before the elements");
    observe_bytes(&out);
    let end = expect_uint(&out, 0, n as u128);
    check(end == out.len(), "more bytes than the format prescribes");
}
