//! Symbolic-input API of the harness.
//!
//! With feature `ir` the `sym_*` functions are externs interpreted by the
//! symbolic executor.  Without it they read a concrete assignment (produced
//! by the solver), so the very same entry functions can be run natively.

#[cfg(feature = "ir")]
mod imp {
    extern "C" {
        pub fn sym_bytes(p: *mut u8, n: u64);
        pub fn sym_choose(n: u64) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, msg: *const u8, len: u64);
        pub fn sym_cover(id: u64);
        pub fn sym_observe(v: u64);
        pub fn sym_param(i: u64) -> u64;
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_alloc_limit(v: u64);
        pub fn sym_heap_live() -> u64;
    }
}

#[cfg(not(feature = "ir"))]
pub mod imp {
    use std::cell::RefCell;
    use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};

    #[derive(Default)]
    pub struct Input {
        pub bytes: Vec<u8>,
        pub pos: usize,
        pub choices: Vec<u64>,
        pub cpos: usize,
        pub params: Vec<u64>,
        pub observed: Vec<u64>,
    }
    thread_local! { pub static INPUT: RefCell<Input> = RefCell::new(Input::default()); }
    pub static LIVE: AtomicI64 = AtomicI64::new(0);
    pub static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);

    /// Payloads of the panics the native implementation raises.
    pub struct AssumeFailed;
    pub struct AssertFailed(pub String);
    pub struct OutOfInput;

    pub unsafe fn sym_bytes(p: *mut u8, n: u64) {
        let ok = INPUT.with(|i| {
            let mut i = i.borrow_mut();
            let n = n as usize;
            let mut ok = true;
            for k in 0..n {
                let v = match i.bytes.get(i.pos + k) {
                    Some(v) => *v,
                    None => {
                        ok = false;
                        0
                    }
                };
                *p.add(k) = v;
            }
            i.pos += n;
            ok
        });
        // bytes past the recorded assignment are unconstrained
        let _ = ok;
    }
    pub unsafe fn sym_choose(_n: u64) -> u64 {
        let r = INPUT.with(|i| {
            let mut i = i.borrow_mut();
            let r = i.choices.get(i.cpos).copied();
            i.cpos += 1;
            r
        });
        match r {
            Some(r) => r,
            None => std::panic::panic_any(OutOfInput),
        }
    }
    pub unsafe fn sym_assume(c: bool) {
        if !c {
            std::panic::panic_any(AssumeFailed)
        }
    }
    pub unsafe fn sym_assert(c: bool, msg: *const u8, len: u64) {
        if !c {
            let s = std::str::from_utf8_unchecked(std::slice::from_raw_parts(msg, len as usize));
            std::panic::panic_any(AssertFailed(s.to_string()))
        }
    }
    pub unsafe fn sym_cover(_id: u64) {}
    pub unsafe fn sym_observe(v: u64) {
        INPUT.with(|i| {
            let mut i = i.borrow_mut();
            // the log itself is not part of the heap the entries measure
            if i.observed.is_empty() && i.observed.capacity() == 0 {
                i.observed.reserve(1 << 16);
                LIVE.fetch_sub(1, SeqCst);
            }
            i.observed.push(v)
        })
    }
    pub unsafe fn sym_param(i: u64) -> u64 {
        INPUT.with(|s| s.borrow().params.get(i as usize).copied().unwrap_or(0))
    }
    pub unsafe fn sym_concretize(v: u64) -> u64 {
        v
    }
    pub unsafe fn sym_alloc_limit(v: u64) {
        LIMIT.store(v, SeqCst)
    }
    pub unsafe fn sym_heap_live() -> u64 {
        LIVE.load(SeqCst) as u64
    }
}

/// `N` unconstrained bytes.
#[inline(always)]
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { imp::sym_bytes(b.as_mut_ptr(), N as u64) };
    b
}
macro_rules! ints {
    ($($f:ident $t:ty;)*) => {$(
        /// An unconstrained integer.
        #[inline(always)]
        pub fn $f() -> $t { <$t>::from_le_bytes(bytes::<{ std::mem::size_of::<$t>() }>()) }
    )*};
}
ints! { u8 u8; u16 u16; u32 u32; u64 u64; u128 u128; i8 i8; i16 i16; i32 i32; i64 i64; i128 i128; }
#[inline(always)]
pub fn boolean() -> bool {
    let b = u8();
    assume(b < 2);
    b == 1
}
/// An unconstrained char.
#[inline(always)]
pub fn ch() -> char {
    let n = u32();
    assume(n < 0xd800 || (n > 0xdfff && n <= 0x10ffff));
    unsafe { char::from_u32_unchecked(n) }
}
/// A Vec of `n` unconstrained bytes (`n` concrete).
pub fn vec(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 {
        unsafe { imp::sym_bytes(v.as_mut_ptr(), n as u64) };
    }
    v
}
/// A value in `0..n`, explored one at a time.
#[inline(always)]
pub fn choose(n: usize) -> usize {
    unsafe { imp::sym_choose(n as u64) as usize }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { imp::sym_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, msg: &'static str) {
    unsafe { imp::sym_assert(c, msg.as_ptr(), msg.len() as u64) }
}
#[inline(always)]
pub fn cover(id: u64) {
    unsafe { imp::sym_cover(id) }
}
#[inline(always)]
pub fn observe(v: u64) {
    unsafe { imp::sym_observe(v) }
}
#[inline(always)]
pub fn param(i: usize) -> usize {
    unsafe { imp::sym_param(i as u64) as usize }
}
#[inline(always)]
pub fn concretize(v: usize) -> usize {
    unsafe { imp::sym_concretize(v as u64) as usize }
}
#[inline(always)]
pub fn alloc_limit(v: u64) {
    unsafe { imp::sym_alloc_limit(v) }
}
#[inline(always)]
pub fn heap_live() -> u64 {
    unsafe { imp::sym_heap_live() }
}
/// Observe a byte string (length, then every byte).
pub fn observe_bytes(b: &[u8]) {
    observe(b.len() as u64);
    for &x in b {
        observe(x as u64);
    }
}
