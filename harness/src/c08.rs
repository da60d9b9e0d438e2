//! C08: rejected calls leave no trace, fatal errors break the coder for good.
use crate::api::*;
use crate::drive::*;
use crate::io::*;
use crate::long::*;
use crate::machine::*;
use crate::shapes::*;
use crate::spec::*;
use binschema::error::*;
use binschema::*;

/// params: shape, calls, arbitrary calls
pub fn c08_enc() {
    run_enc(&shape(param(0)), Plan::new(param(1), param(2), false));
}
/// params: shape, calls, arbitrary calls, input length
pub fn c08_dec() {
    let input = vec(param(3));
    run_dec(&shape(param(0)), &input, Plan::new(param(1), param(2), false));
}

// after a rejected call everything goes on as if it had not been made
/// params: kind, size
pub fn c08_long_enc() {
    let (s, v) = long(param(0), param(1), 0);
    let mut ops = Vec::new();
    script(&v, &mut ops);
    let at = places(ops.len());
    let p = Plan { steps: ops.len() + 2, inject: 1, need: false, script: &ops, places: &at, tail: usize::MAX };
    run_enc(&s, p);
}
/// params: kind, size
pub fn c08_long_dec() {
    let (s, v) = long(param(0), param(1), 0);
    let mut ops = Vec::new();
    script(&v, &mut ops);
    let n = ops.len() + ops.iter().filter(|o| matches!(o, Op::Enum(..))).count();
    let at = places(n);
    let mut input = Vec::new();
    ref_encode(&Tree::new(&s), 0, &v, &mut input);
    let p = Plan { steps: n + 2, inject: 1, need: false, script: &[], places: &at, tail: usize::MAX };
    run_dec(&s, &input, p);
}

// a stream's failure is fatal, whatever call it hits and whatever comes next
fn still_broken(cs: &CoderState) {
    check(!cs.is_finished(), "finished after a fatal error");
    check(cs.is_finished_or_err().is_err(), "finished after a fatal error");
}
/// params: shape, calls, room at most
pub fn c08_io_enc() {
    let s = shape(param(0));
    let t = Tree::new(&s);
    let mut m = Model::new(&t);
    let room = choose(param(2));
    let mut w = Room { out: Vec::new(), room, mode: choose(FAILURES) };
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut failed = false;
    for _ in 0..param(1) {
        let op = match next_op(&m, true) {
            Some(op) => op,
            None => break,
        };
        if m.verdict(&op) != V::Ok {
            break;
        }
        let mut e = Encoder::new(&mut cs, &mut w);
        match enc_op(&mut e, &op) {
            Ok(()) => m.apply(&op),
            Err(e) => {
                check(e.kind() == ErrorKind::Io, "a failing stream: wrong error kind");
                failed = true;
                break;
            }
        }
    }
    assume(failed);
    still_broken(&cs);
    // the stream recovers, the encoder does not
    w.room = 1000;
    let n = w.out.len();
    observe(n as u64);
    for _ in 0..2 {
        let op = any_enc_op();
        let mut e = Encoder::new(&mut cs, &mut w);
        check_api_usage(enc_op(&mut e, &op));
        still_broken(&cs);
        check(w.out.len() == n, "a broken encoder wrote bytes");
    }
    cover(4);
}
/// params: shape, calls, input length
pub fn c08_io_dec() {
    let s = shape(param(0));
    let t = Tree::new(&s);
    let mut m = Model::new(&t);
    let input = vec(param(2));
    let mut rd = &input[..];
    let mut at = 0;
    let mut cs = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut failed = false;
    for _ in 0..param(1) {
        let op = match next_op(&m, false) {
            Some(op) => op,
            None => break,
        };
        if m.verdict(&op) != V::Ok {
            break;
        }
        let mut d = Decoder::new(&mut cs, &mut rd);
        let (r, _, done) = dec_op(&m, &mut d, &op, V::Ok, &input, &mut at);
        match r {
            Ok(()) => m.decoded(&op, &done),
            Err(e) => {
                observe(1000 + kind_code(e.kind()));
                failed = true;
                break;
            }
        }
    }
    assume(failed);
    still_broken(&cs);
    let more = [0u8; 40];
    let mut rd = &more[..];
    for _ in 0..2 {
        let op = any_dec_op();
        let mut d = Decoder::new(&mut cs, &mut rd);
        let (r, _, _) = dec_op(&m, &mut d, &op, V::Usage, &more, &mut at);
        check_api_usage(r);
        still_broken(&cs);
        check(rd.len() == more.len(), "a broken decoder consumed input");
    }
    cover(5);
}
