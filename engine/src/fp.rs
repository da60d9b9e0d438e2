//! IEEE-754 arithmetic as bit-vector circuits (round to nearest even; NaNs as
//! x86 produces them: the first NaN operand quieted, else the default NaN).

use crate::ir::FBin;
use crate::term::*;

/// width of exponents in the circuits
const EW: u32 = 16;

#[derive(Clone, Copy)]
struct Fmt {
    eb: u32,
    /// bits of the significand, the hidden one included
    sb: u32,
}
impl Fmt {
    fn of(w: u32) -> Self {
        if w == 32 { Fmt { eb: 8, sb: 24 } } else { Fmt { eb: 11, sb: 53 } }
    }
    fn w(self) -> u32 { self.eb + self.sb }
    fn bias(self) -> i64 { (1 << (self.eb - 1)) - 1 }
}

struct Un {
    sign: T,
    nan: T,
    inf: T,
    zero: T,
    /// value = sig * 2^exp
    sig: T,
    exp: T,
}

impl Terms {
    fn k(&mut self, v: i64, w: u32) -> T { self.c(v as i128 as u128 & mask(w), w) }

    fn unpack(&mut self, x: T, f: Fmt) -> Un {
        let w = f.w();
        let sign = self.extract(w - 1, w - 1, x);
        let e = self.extract(w - 2, f.sb - 1, x);
        let m = self.extract(f.sb - 2, 0, x);
        let (z, ones, mz) = (self.c(0, f.eb), self.c(mask(f.eb), f.eb), self.c(0, f.sb - 1));
        let (e0, e1, m0) = (self.eq(e, z), self.eq(e, ones), self.eq(m, mz));
        let m1 = self.not(m0);
        let nan = self.and(e1, m1);
        let inf = self.and(e1, m0);
        let zero = self.and(e0, m0);
        let hidden = self.not(e0);
        let sig = self.concat(&[hidden, m]);
        let e = self.zext(e, EW);
        let one = self.c(1, EW);
        let e = self.ite(e0, one, e);
        let off = self.k(-(f.bias() + f.sb as i64 - 1), EW);
        let exp = self.add(e, off);
        Un { sign, nan, inf, zero, sig, exp }
    }

    fn quiet(&mut self, x: T, f: Fmt) -> T {
        let q = self.c(1 << (f.sb - 2), f.w());
        self.or(x, q)
    }
    fn fp_inf(&mut self, sign: T, f: Fmt) -> T {
        let i = self.c(mask(f.eb) << (f.sb - 1), f.w() - 1);
        self.concat(&[sign, i])
    }
    fn fp_nan(&mut self, f: Fmt) -> T {
        self.c((mask(f.eb + 2)) << (f.sb - 2), f.w())
    }
    fn fp_zero(&mut self, sign: T, f: Fmt) -> T {
        let z = self.c(0, f.w() - 1);
        self.concat(&[sign, z])
    }

    /// shift a nonzero number left until its top bit is set
    fn norm_sig(&mut self, mut sig: T, mut exp: T) -> (T, T) {
        let n = self.w(sig);
        let mut k = 1;
        while 2 * k < n { k *= 2; }
        while k > 0 {
            if k < n {
                let top = self.extract(n - 1, n - k, sig);
                let z = self.c(0, k);
                let c = self.eq(top, z);
                let sh = self.c(k as u128, n);
                let s2 = self.shl(sig, sh);
                sig = self.ite(c, s2, sig);
                let d = self.k(-(k as i64), EW);
                let e2 = self.add(exp, d);
                exp = self.ite(c, e2, exp);
            }
            k /= 2;
        }
        (sig, exp)
    }

    /// sig * 2^exp (plus something less than 2^exp if `sticky`), rounded
    fn round(&mut self, sign: T, sig: T, exp: T, sticky: T, f: Fmt) -> T {
        let (mut sig, mut exp) = (sig, exp);
        if self.w(sig) < f.sb + 2 {
            let pad = f.sb + 2 - self.w(sig);
            let z = self.c(0, pad);
            sig = self.concat(&[sig, z]);
            let d = self.k(-(pad as i64), EW);
            exp = self.add(exp, d);
        }
        let n = self.w(sig);
        let zn = self.c(0, n);
        let is_zero = self.eq(sig, zn);
        let (sig, exp) = self.norm_sig(sig, exp);
        let d = self.k(n as i64 - 1 + f.bias(), EW);
        let e = self.add(exp, d);
        let one = self.c(1, EW);
        let sub = self.slt(e, one);
        // below the normal range: shift right
        let sh = self.sub(one, e);
        let z = self.c(0, EW);
        let sh = self.ite(sub, sh, z);
        let lim = self.c(n as u128, EW);
        let far = self.ult(lim, sh);
        let sh = self.ite(far, lim, sh);
        let shn = if n >= EW { self.zext(sh, n) } else { self.trunc(sh, n) };
        let s = self.lshr(sig, shn);
        let back = self.shl(s, shn);
        let lost = self.ne(back, sig);
        let kept = self.extract(n - 1, n - f.sb, s);
        let guard = self.extract(n - f.sb - 1, n - f.sb - 1, s);
        let rest = self.extract(n - f.sb - 2, 0, s);
        let zr = self.c(0, n - f.sb - 1);
        let rest = self.ne(rest, zr);
        let rest = self.or(rest, lost);
        let rest = self.or(rest, sticky);
        let odd = self.extract(0, 0, kept);
        let tie = self.or(rest, odd);
        let up = self.and(guard, tie);
        let e1 = self.sub(e, one);
        let ef = self.ite(sub, z, e1);
        let ef = self.trunc(ef, f.eb);
        let zm = self.c(0, f.sb - 1);
        let base = self.concat(&[ef, zm]);
        let kept = self.zext(kept, f.w() - 1);
        let up = self.zext(up, f.w() - 1);
        let r = self.add(base, kept);
        let r = self.add(r, up);
        let r = self.concat(&[sign, r]);
        let max = self.k((1 << f.eb) - 2, EW);
        let over = self.slt(max, e);
        let inf = self.fp_inf(sign, f);
        let r = self.ite(over, inf, r);
        let zero = self.fp_zero(sign, f);
        self.ite(is_zero, zero, r)
    }

    fn nans(&mut self, x: T, ux: &Un, y: T, uy: &Un, invalid: T, r: T, f: Fmt) -> T {
        let d = self.fp_nan(f);
        let r = self.ite(invalid, d, r);
        let qy = self.quiet(y, f);
        let r = self.ite(uy.nan, qy, r);
        let qx = self.quiet(x, f);
        self.ite(ux.nan, qx, r)
    }

    pub fn fbin(&mut self, k: FBin, x: T, y: T) -> Option<T> {
        let f = Fmt::of(self.w(x));
        Some(match k {
            FBin::Add => self.fadd(x, y, y, f),
            FBin::Sub => {
                let s = self.c(1 << (f.w() - 1), f.w());
                let ny = self.xor(y, s);
                self.fadd(x, ny, y, f)
            }
            FBin::Mul => self.fmul(x, y, f),
            FBin::Div => self.fdiv(x, y, f),
            FBin::Rem => return None,
        })
    }

    /// `y0` is the operand as given (for NaNs)
    fn fadd(&mut self, x: T, y: T, y0: T, f: Fmt) -> T {
        let w = f.w();
        let (ux, uy) = (self.unpack(x, f), self.unpack(y, f));
        let (mx, my) = (self.extract(w - 2, 0, x), self.extract(w - 2, 0, y));
        let swap = self.ult(mx, my);
        let n = f.sb + 4;
        let (bs, ss) = (self.ite(swap, uy.sig, ux.sig), self.ite(swap, ux.sig, uy.sig));
        let (be, se) = (self.ite(swap, uy.exp, ux.exp), self.ite(swap, ux.exp, uy.exp));
        let sign = self.ite(swap, uy.sign, ux.sign);
        let (z1, z3) = (self.c(0, 1), self.c(0, 3));
        let b = self.concat(&[z1, bs, z3]);
        let s = self.concat(&[z1, ss, z3]);
        let d = self.sub(be, se);
        let lim = self.c(n as u128, EW);
        let far = self.ult(lim, d);
        let d = self.ite(far, lim, d);
        let d = self.zext(d, n);
        let s1 = self.lshr(s, d);
        let back = self.shl(s1, d);
        let lost = self.ne(back, s);
        let lost = self.zext(lost, n);
        let s1 = self.or(s1, lost);
        let differ = self.xor(ux.sign, uy.sign);
        let (p, m) = (self.add(b, s1), self.sub(b, s1));
        let sum = self.ite(differ, m, p);
        let zn = self.c(0, n);
        let nil = self.eq(sum, zn);
        let both = self.and(ux.sign, uy.sign);
        let sign = self.ite(nil, both, sign);
        let off = self.k(-3, EW);
        let e = self.add(be, off);
        let r = self.round(sign, sum, e, z1, f);
        let ix = self.fp_inf(ux.sign, f);
        let iy = self.fp_inf(uy.sign, f);
        let r = self.ite(uy.inf, iy, r);
        let r = self.ite(ux.inf, ix, r);
        let bad = self.and(ux.inf, uy.inf);
        let bad = self.and(bad, differ);
        self.nans(x, &ux, y0, &uy, bad, r, f)
    }

    fn fmul(&mut self, x: T, y: T, f: Fmt) -> T {
        let (ux, uy) = (self.unpack(x, f), self.unpack(y, f));
        let sign = self.xor(ux.sign, uy.sign);
        let (a, b) = (self.zext(ux.sig, 2 * f.sb), self.zext(uy.sig, 2 * f.sb));
        let p = self.mul(a, b);
        let e = self.add(ux.exp, uy.exp);
        let z = self.c(0, 1);
        let r = self.round(sign, p, e, z, f);
        let inf = self.or(ux.inf, uy.inf);
        let zero = self.or(ux.zero, uy.zero);
        let i = self.fp_inf(sign, f);
        let r = self.ite(inf, i, r);
        let bad = self.and(inf, zero);
        self.nans(x, &ux, y, &uy, bad, r, f)
    }

    fn fdiv(&mut self, x: T, y: T, f: Fmt) -> T {
        let (ux, uy) = (self.unpack(x, f), self.unpack(y, f));
        let sign = self.xor(ux.sign, uy.sign);
        let (a, ea) = self.norm_sig(ux.sig, ux.exp);
        let (b, eb) = self.norm_sig(uy.sig, uy.exp);
        let n = 2 * f.sb + 3;
        let pad = self.c(0, f.sb + 2);
        let a = self.concat(&[a, pad]);
        let (a, b) = (self.zext(a, n), self.zext(b, n));
        let q = self.udiv(a, b);
        let rem = self.urem(a, b);
        let zn = self.c(0, n);
        let sticky = self.ne(rem, zn);
        let q = self.trunc(q, f.sb + 3);
        let e = self.sub(ea, eb);
        let off = self.k(-(f.sb as i64 + 2), EW);
        let e = self.add(e, off);
        let r = self.round(sign, q, e, sticky, f);
        let z = self.fp_zero(sign, f);
        let i = self.fp_inf(sign, f);
        let to0 = self.or(ux.zero, uy.inf);
        let r = self.ite(to0, z, r);
        let toi = self.or(uy.zero, ux.inf);
        let r = self.ite(toi, i, r);
        let (b1, b2) = (self.and(ux.zero, uy.zero), self.and(ux.inf, uy.inf));
        let bad = self.or(b1, b2);
        self.nans(x, &ux, y, &uy, bad, r, f)
    }

    /// between formats
    pub fn fconv(&mut self, x: T, tw: u32) -> T {
        let (f, g) = (Fmt::of(self.w(x)), Fmt::of(tw));
        let u = self.unpack(x, f);
        let z = self.c(0, 1);
        let r = self.round(u.sign, u.sig, u.exp, z, g);
        let i = self.fp_inf(u.sign, g);
        let r = self.ite(u.inf, i, r);
        let m = self.extract(f.sb - 2, 0, x);
        let m = if g.sb > f.sb {
            let z = self.c(0, g.sb - f.sb);
            self.concat(&[m, z])
        } else {
            self.extract(f.sb - 2, f.sb - g.sb, m)
        };
        let e = self.c(mask(g.eb), g.eb);
        let n = self.concat(&[u.sign, e, m]);
        let n = self.quiet(n, g);
        self.ite(u.nan, n, r)
    }

    pub fn int_to_fp(&mut self, x: T, tw: u32, signed: bool) -> T {
        let w = self.w(x);
        let z1 = self.c(0, 1);
        let sign = if signed { self.extract(w - 1, w - 1, x) } else { z1 };
        let n = self.neg(x);
        let mag = self.ite(sign, n, x);
        let e = self.c(0, EW);
        self.round(sign, mag, e, z1, Fmt::of(tw))
    }

    /// towards zero, saturating, NaN to zero
    pub fn fp_to_int(&mut self, x: T, tw: u32, signed: bool) -> Option<T> {
        let f = Fmt::of(self.w(x));
        let n = tw + f.sb + 1;
        if n > 128 { return None; }
        let u = self.unpack(x, f);
        let s = self.zext(u.sig, n);
        let z = self.c(0, EW);
        let neg = self.slt(u.exp, z);
        let lim = self.c(tw as u128, EW);
        let big = self.slt(lim, u.exp);
        let l = self.zext(u.exp, n);
        let left = self.shl(s, l);
        let m = self.neg(u.exp);
        let far = self.c(f.sb as u128, EW);
        let c = self.ult(far, m);
        let m = self.ite(c, far, m);
        let m = self.zext(m, n);
        let right = self.lshr(s, m);
        let mag = self.ite(neg, right, left);
        let max = self.c(if signed { mask(tw - 1) } else { mask(tw) }, tw);
        let maxn = self.zext(max, n);
        let over = self.ult(maxn, mag);
        let over = self.or(over, big);
        let lo = self.trunc(mag, tw);
        let pos = self.ite(over, max, lo);
        let minus = if signed {
            // a magnitude of exactly 2^(tw-1) wraps to the right value
            let min = self.c(1 << (tw - 1), tw);
            let nl = self.neg(lo);
            self.ite(over, min, nl)
        } else {
            self.c(0, tw)
        };
        let r = self.ite(u.sign, minus, pos);
        let zt = self.c(0, tw);
        Some(self.ite(u.nan, zt, r))
    }
}

#[cfg(test)]
mod tests {
    use super::*;

    fn rng(s: &mut u64) -> u64 {
        *s ^= *s << 13;
        *s ^= *s >> 7;
        *s ^= *s << 17;
        *s
    }
    fn f64s(s: &mut u64) -> u64 {
        let r = rng(s);
        let sp = [0u64, 1, 0x000f_ffff_ffff_ffff, 0x0010_0000_0000_0000, 0x7fef_ffff_ffff_ffff, 0x7ff0_0000_0000_0000,
            0x7ff0_0000_0000_0001, 0x7ff8_0000_0000_0003, 0x3ff0_0000_0000_0000, 0x4000_0000_0000_0000, 0x43e0_0000_0000_0000,
            0x47ef_ffff_f000_0000, 0x3690_0000_0000_0000, 0x36a0_0000_0000_0000, 0x3800_0000_0000_0000];
        match r % 4 {
            0 => sp[(r >> 8) as usize % sp.len()] | (r >> 63) << 63,
            1 => rng(s),
            2 => ((rng(s) as i64 >> (r >> 8) % 64) as f64).to_bits(),
            _ => (f32::from_bits(rng(s) as u32) as f64).to_bits().wrapping_add(rng(s) % 3).wrapping_sub(1),
        }
    }
    fn f32s(s: &mut u64) -> u32 {
        let r = rng(s);
        let sp = [0u32, 1, 0x007f_ffff, 0x0080_0000, 0x7f7f_ffff, 0x7f80_0000, 0x7f80_0001, 0x7fc0_0003, 0x3f80_0000, 0x4000_0000, 0x4f00_0000];
        match r % 3 {
            0 => sp[(r >> 8) as usize % sp.len()] | ((r >> 63) as u32) << 31,
            1 => rng(s) as u32,
            _ => ((rng(s) as i64 >> (r >> 8) % 64) as f32).to_bits(),
        }
    }
    use std::hint::black_box as bb;

    #[test]
    fn agrees_with_the_machine() {
        let mut s = 0x1234_5678_9abc_def1;
        let mut ts = Terms::new();
        for i in 0..300_000u64 {
            if i % 2000 == 0 { ts = Terms::new(); }
            let (a, b) = (f64s(&mut s), f64s(&mut s));
            let (x, y) = (f64::from_bits(bb(a)), f64::from_bits(bb(b)));
            let (c, d) = (f32s(&mut s), f32s(&mut s));
            let (u, v) = (f32::from_bits(bb(c)), f32::from_bits(bb(d)));
            let (ta, tb, tc, td) = (ts.c(a as u128, 64), ts.c(b as u128, 64), ts.c(c as u128, 32), ts.c(d as u128, 32));
            for k in [FBin::Add, FBin::Sub, FBin::Mul, FBin::Div] {
                let w = match k { FBin::Add => bb(x) + bb(y), FBin::Sub => bb(x) - bb(y), FBin::Mul => bb(x) * bb(y), _ => bb(x) / bb(y) };
                let r = ts.fbin(k, ta, tb).unwrap();
                // with two NaNs the compiler is free to swap
                if !(x.is_nan() && y.is_nan()) {
                    assert_eq!(ts.as_const(r), Some(w.to_bits() as u128), "{:?} {:x} {:x}", k, a, b);
                }
                let w = match k { FBin::Add => bb(u) + bb(v), FBin::Sub => bb(u) - bb(v), FBin::Mul => bb(u) * bb(v), _ => bb(u) / bb(v) };
                let r = ts.fbin(k, tc, td).unwrap();
                if !(u.is_nan() && v.is_nan()) {
                    assert_eq!(ts.as_const(r), Some(w.to_bits() as u128), "{:?} {:x} {:x}", k, c, d);
                }
            }
            let r = ts.fconv(ta, 32);
            assert_eq!(ts.as_const(r), Some((bb(x) as f32).to_bits() as u128), "trunc {:x}", a);
            let r = ts.fconv(tc, 64);
            assert_eq!(ts.as_const(r), Some((bb(u) as f64).to_bits() as u128), "ext {:x}", c);
            macro_rules! ti { ($($t:ident $w:expr, $sg:expr;)*) => {$(
                let r = ts.fp_to_int(ta, $w, $sg).unwrap();
                assert_eq!(ts.as_const(r), Some(bb(x) as $t as u128 & mask($w)), "to {} {:x}", stringify!($t), a);
                let r = ts.fp_to_int(tc, $w, $sg).unwrap();
                assert_eq!(ts.as_const(r), Some(bb(u) as $t as u128 & mask($w)), "to {} {:x}", stringify!($t), c);
                let t = ts.c((a as $t) as u128 & mask($w), $w);
                let r = ts.int_to_fp(t, 32, $sg);
                assert_eq!(ts.as_const(r), Some((a as $t as f32).to_bits() as u128));
                let r = ts.int_to_fp(t, 64, $sg);
                assert_eq!(ts.as_const(r), Some((a as $t as f64).to_bits() as u128));
            )*} }
            ti! { u8 8, false; i8 8, true; u16 16, false; i16 16, true; u32 32, false; i32 32, true; u64 64, false; i64 64, true; }
            let i = (a as u128) << 64 | b as u128;
            let t = ts.c(i, 128);
            let r = ts.int_to_fp(t, 32, false);
            assert_eq!(ts.as_const(r), Some((i as f32).to_bits() as u128));
            let r = ts.int_to_fp(t, 64, true);
            assert_eq!(ts.as_const(r), Some((i as i128 as f64).to_bits() as u128));
        }
    }
}
