//! Hash-consed bit-vector terms with a rewriting constructor layer.
//!
//! Width-1 terms double as booleans.  Constants are at most 128 bits wide;
//! wider values are represented as concatenations of narrower pieces.

use std::collections::HashMap;
use std::rc::Rc;

#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct T(pub u32);

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Not(T),
    And(T, T),
    Or(T, T),
    Xor(T, T),
    Add(T, T),
    Mul(T, T),
    UDiv(T, T),
    URem(T, T),
    SDiv(T, T),
    SRem(T, T),
    Shl(T, T),
    LShr(T, T),
    AShr(T, T),
    Eq(T, T),
    Ult(T, T),
    Slt(T, T),
    Ite(T, T, T),
    /// most significant piece first
    Concat(Rc<[T]>),
    Extract(u32, u32, T),
    SExt(T),
}

pub struct Terms {
    pub nodes: Vec<Node>,
    pub width: Vec<u32>,
    map: HashMap<(Node, u32), T>,
    pub vars: Vec<String>,
    varsets: HashMap<T, Rc<Vec<u32>>>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { !0 } else { (1u128 << w) - 1 }
}

pub fn sext_u128(v: u128, w: u32) -> i128 {
    if w >= 128 { return v as i128; }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

impl Terms {
    pub fn new() -> Self {
        let mut t = Terms {
            nodes: vec![],
            width: vec![],
            map: HashMap::new(),
            vars: vec![],
            varsets: HashMap::new(),
        };
        // T(0) is reserved as "no term"
        t.nodes.push(Node::Const(0));
        t.width.push(0);
        t
    }

    fn mk(&mut self, n: Node, w: u32) -> T {
        assert!(w > 0);
        if let Some(&t) = self.map.get(&(n.clone(), w)) {
            return t;
        }
        let t = T(self.nodes.len() as u32);
        self.nodes.push(n.clone());
        self.width.push(w);
        self.map.insert((n, w), t);
        t
    }

    pub fn w(&self, t: T) -> u32 { self.width[t.0 as usize] }
    pub fn node(&self, t: T) -> &Node { &self.nodes[t.0 as usize] }

    pub fn var(&mut self, name: String, w: u32) -> T {
        let id = self.vars.len() as u32;
        self.vars.push(name);
        self.mk(Node::Var(id), w)
    }

    pub fn c(&mut self, v: u128, w: u32) -> T {
        if w <= 128 {
            self.mk(Node::Const(v & mask(w)), w)
        } else {
            // wide constant: zero-extended value
            let mut pieces = vec![];
            let mut left = w - 128;
            while left > 0 {
                let k = left.min(128);
                let z = self.mk(Node::Const(0), k);
                pieces.push(z);
                left -= k;
            }
            let lo = self.mk(Node::Const(v), 128);
            pieces.push(lo);
            self.mk(Node::Concat(pieces.into()), w)
        }
    }

    pub fn tru(&mut self) -> T { self.c(1, 1) }
    pub fn fls(&mut self) -> T { self.c(0, 1) }

    pub fn as_const(&self, t: T) -> Option<u128> {
        match self.node(t) {
            Node::Const(v) => Some(*v),
            _ => None,
        }
    }

    pub fn pieces(&self, t: T) -> Vec<T> {
        match self.node(t) {
            Node::Concat(p) => p.to_vec(),
            _ => vec![t],
        }
    }

    pub fn concat(&mut self, parts: &[T]) -> T {
        let mut out: Vec<T> = Vec::with_capacity(parts.len());
        let mut total = 0;
        for &p in parts {
            total += self.w(p);
            for q in self.pieces(p) {
                if let Some(&last) = out.last() {
                    // merge adjacent
                    let lw = self.w(last);
                    let qw = self.w(q);
                    match (self.node(last).clone(), self.node(q).clone()) {
                        (Node::Const(a), Node::Const(b)) if lw + qw <= 128 => {
                            let m = self.c((a << qw) | b, lw + qw);
                            *out.last_mut().unwrap() = m;
                            continue;
                        }
                        (Node::Extract(h1, l1, x1), Node::Extract(h2, l2, x2))
                            if x1 == x2 && l1 == h2 + 1 =>
                        {
                            let m = self.extract(h1, l2, x1);
                            *out.last_mut().unwrap() = m;
                            let _ = (h1, l2);
                            continue;
                        }
                        (Node::Ite(c1, a1, b1), Node::Ite(c2, a2, b2))
                            if c1 == c2
                                && self.as_const(a1).is_some() && self.as_const(a2).is_some()
                                && self.as_const(b1).is_some() && self.as_const(b2).is_some()
                                && lw + qw <= 128 =>
                        {
                            let a = self.concat(&[a1, a2]);
                            let b = self.concat(&[b1, b2]);
                            let m = self.ite(c1, a, b);
                            *out.last_mut().unwrap() = m;
                            continue;
                        }
                        _ => {}
                    }
                }
                out.push(q);
            }
        }
        if out.len() == 1 {
            return out[0];
        }
        self.mk(Node::Concat(out.into()), total)
    }

    pub fn extract(&mut self, hi: u32, lo: u32, x: T) -> T {
        let w = self.w(x);
        debug_assert!(hi >= lo && hi < w);
        if lo == 0 && hi == w - 1 {
            return x;
        }
        let ow = hi - lo + 1;
        match self.node(x).clone() {
            Node::Const(v) => self.c(v >> lo, ow),
            Node::Extract(_, l2, y) => self.extract(hi + l2, lo + l2, y),
            Node::Concat(ps) => {
                let mut out = vec![];
                let mut top = w; // exclusive high bit of the current piece
                for &p in ps.iter() {
                    let pw = self.w(p);
                    let plo = top - pw;
                    // overlap of [lo,hi] with [plo, top-1]
                    let h = hi.min(top - 1);
                    let l = lo.max(plo);
                    if h >= l && hi >= plo && lo < top {
                        let e = self.extract(h - plo, l - plo, p);
                        out.push(e);
                    }
                    top = plo;
                }
                self.concat(&out)
            }
            Node::Ite(c, a, b)
                if self.as_const(a).is_some() || self.as_const(b).is_some() =>
            {
                let a = self.extract(hi, lo, a);
                let b = self.extract(hi, lo, b);
                self.ite(c, a, b)
            }
            Node::And(a, b) => {
                let a = self.extract(hi, lo, a);
                let b = self.extract(hi, lo, b);
                self.and(a, b)
            }
            Node::Or(a, b) => {
                let a = self.extract(hi, lo, a);
                let b = self.extract(hi, lo, b);
                self.or(a, b)
            }
            Node::Xor(a, b) => {
                let a = self.extract(hi, lo, a);
                let b = self.extract(hi, lo, b);
                self.xor(a, b)
            }
            Node::Not(a) => {
                let a = self.extract(hi, lo, a);
                self.not(a)
            }
            Node::Add(a, b) if lo == 0 => {
                let a = self.extract(hi, lo, a);
                let b = self.extract(hi, lo, b);
                self.add(a, b)
            }
            Node::SExt(y) => {
                let yw = self.w(y);
                if hi < yw {
                    self.extract(hi, lo, y)
                } else if lo == 0 {
                    self.sext(y, ow)
                } else {
                    self.mk(Node::Extract(hi, lo, x), ow)
                }
            }
            _ => self.mk(Node::Extract(hi, lo, x), ow),
        }
    }

    pub fn zext(&mut self, x: T, w: u32) -> T {
        let xw = self.w(x);
        assert!(w >= xw);
        if xw == w {
            return x;
        }
        let z = self.c(0, w - xw);
        self.concat(&[z, x])
    }

    pub fn sext(&mut self, x: T, w: u32) -> T {
        let xw = self.w(x);
        assert!(w >= xw);
        if xw == w {
            return x;
        }
        if let Some(v) = self.as_const(x) {
            if w <= 128 {
                return self.c(sext_u128(v, xw) as u128, w);
            }
        }
        if xw == 1 && w <= 128 {
            let a = self.c(!0, w);
            let b = self.c(0, w);
            return self.ite(x, a, b);
        }
        if self.msb_known_zero(x) {
            return self.zext(x, w);
        }
        if let Node::SExt(y) = *self.node(x) {
            return self.sext(y, w);
        }
        self.mk(Node::SExt(x), w)
    }

    pub fn trunc(&mut self, x: T, w: u32) -> T { self.extract(w - 1, 0, x) }

    fn msb_known_zero(&self, x: T) -> bool {
        match self.node(x) {
            Node::Const(v) => (v >> (self.w(x) - 1)) & 1 == 0,
            Node::Concat(p) => self.msb_known_zero(p[0]),
            _ => false,
        }
    }

    pub fn not(&mut self, x: T) -> T {
        let w = self.w(x);
        match self.node(x).clone() {
            Node::Const(v) => self.c(!v, w),
            Node::Not(y) => y,
            Node::Concat(ps) if ps.iter().any(|&p| self.as_const(p).is_some()) => {
                let v: Vec<T> = ps.iter().map(|&p| self.not(p)).collect();
                self.concat(&v)
            }
            Node::Ite(c, a, b) if self.as_const(a).is_some() && self.as_const(b).is_some() => {
                let a = self.not(a);
                let b = self.not(b);
                self.ite(c, a, b)
            }
            _ => self.mk(Node::Not(x), w),
        }
    }

    /// Split two equal-width terms at the union of their concat boundaries and
    /// combine piecewise, if at least one boundary exists with a constant.
    fn piecewise(&mut self, a: T, b: T, f: fn(&mut Self, T, T) -> T) -> Option<T> {
        let pa = self.pieces(a);
        let pb = self.pieces(b);
        if pa.len() == 1 && pb.len() == 1 {
            return None;
        }
        let has_const = pa.iter().chain(pb.iter()).any(|&p| self.as_const(p).is_some());
        if !has_const {
            return None;
        }
        let (xs, ys) = self.align_pieces(&pa, &pb);
        let mut out = Vec::with_capacity(xs.len());
        for (x, y) in xs.into_iter().zip(ys) {
            out.push(f(self, x, y));
        }
        Some(self.concat(&out))
    }

    fn align_pieces(&mut self, pa: &[T], pb: &[T]) -> (Vec<T>, Vec<T>) {
        let mut ra: Vec<T> = pa.iter().rev().copied().collect();
        let mut rb: Vec<T> = pb.iter().rev().copied().collect();
        // consume from the msb side (end of reversed vec)
        let (mut xs, mut ys) = (vec![], vec![]);
        loop {
            match (ra.pop(), rb.pop()) {
                (None, None) => break,
                (Some(x), Some(y)) => {
                    let (wx, wy) = (self.w(x), self.w(y));
                    if wx == wy {
                        xs.push(x);
                        ys.push(y);
                    } else if wx > wy {
                        let h = self.extract(wx - 1, wx - wy, x);
                        let l = self.extract(wx - wy - 1, 0, x);
                        xs.push(h);
                        ys.push(y);
                        for p in self.pieces(l).into_iter().rev() { ra.push(p); }
                        // pieces pushed lsb first so msb is popped first
                    } else {
                        let h = self.extract(wy - 1, wy - wx, y);
                        let l = self.extract(wy - wx - 1, 0, y);
                        xs.push(x);
                        ys.push(h);
                        for p in self.pieces(l).into_iter().rev() { rb.push(p); }
                    }
                }
                _ => unreachable!("piece misalignment"),
            }
        }
        (xs, ys)
    }

    fn split_const_pieces(&mut self, x: T, c: u128, f: fn(&mut Self, T, T) -> T) -> Option<T> {
        // bitwise op of x with a constant having long runs of 0/1: split at run boundaries
        let w = self.w(x);
        if w <= 1 { return None; }
        let mut runs: Vec<(u32, u32)> = vec![]; // (hi, lo) lsb first
        let mut i = 0;
        while i < w {
            let bit = (c >> i) & 1;
            let mut j = i;
            while j + 1 < w && (c >> (j + 1)) & 1 == bit { j += 1; }
            runs.push((j, i));
            i = j + 1;
        }
        if runs.len() > 4 { return None; }
        if runs.len() == 1 { return None; }
        let mut out = vec![];
        for &(h, l) in runs.iter().rev() {
            let e = self.extract(h, l, x);
            let k = self.c(c >> l, h - l + 1);
            out.push(f(self, e, k));
        }
        Some(self.concat(&out))
    }

    pub fn and(&mut self, a: T, b: T) -> T {
        if a == b { return a; }
        let w = self.w(a);
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else if self.as_const(b).is_some() || a <= b { (a, b) } else { (b, a) };
        if let Some(k) = self.as_const(b) {
            if let Some(v) = self.as_const(a) { return self.c(v & k, w); }
            if k == 0 { return b; }
            if k == mask(w) { return a; }
            if let Node::Ite(c, x, y) = *self.node(a) {
                if self.as_const(x).is_some() && self.as_const(y).is_some() {
                    let x = self.and(x, b);
                    let y = self.and(y, b);
                    return self.ite(c, x, y);
                }
            }
            if let Some(r) = self.split_const_pieces(a, k, Self::and) { return r; }
        }
        if w == 1 {
            if let Node::Not(x) = *self.node(a) { if x == b { return self.fls(); } }
            if let Node::Not(x) = *self.node(b) { if x == a { return self.fls(); } }
        }
        if let Some(r) = self.piecewise(a, b, Self::and) { return r; }
        self.mk(Node::And(a, b), w)
    }

    pub fn or(&mut self, a: T, b: T) -> T {
        if a == b { return a; }
        let w = self.w(a);
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else if self.as_const(b).is_some() || a <= b { (a, b) } else { (b, a) };
        if let Some(k) = self.as_const(b) {
            if let Some(v) = self.as_const(a) { return self.c(v | k, w); }
            if k == 0 { return a; }
            if k == mask(w) { return b; }
            if let Node::Ite(c, x, y) = *self.node(a) {
                if self.as_const(x).is_some() && self.as_const(y).is_some() {
                    let x = self.or(x, b);
                    let y = self.or(y, b);
                    return self.ite(c, x, y);
                }
            }
            if let Some(r) = self.split_const_pieces(a, k, Self::or) { return r; }
        }
        if w == 1 {
            if let Node::Not(x) = *self.node(a) { if x == b { return self.tru(); } }
            if let Node::Not(x) = *self.node(b) { if x == a { return self.tru(); } }
        }
        if let Some(r) = self.piecewise(a, b, Self::or) { return r; }
        self.mk(Node::Or(a, b), w)
    }

    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return self.c(0, w); }
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else if self.as_const(b).is_some() || a <= b { (a, b) } else { (b, a) };
        if let Some(k) = self.as_const(b) {
            if let Some(v) = self.as_const(a) { return self.c(v ^ k, w); }
            if k == 0 { return a; }
            if k == mask(w) { return self.not(a); }
            if let Node::Ite(c, x, y) = *self.node(a) {
                if self.as_const(x).is_some() && self.as_const(y).is_some() {
                    let x = self.xor(x, b);
                    let y = self.xor(y, b);
                    return self.ite(c, x, y);
                }
            }
            if let Some(r) = self.split_const_pieces(a, k, Self::xor) { return r; }
        }
        if let Some(r) = self.piecewise(a, b, Self::xor) { return r; }
        self.mk(Node::Xor(a, b), w)
    }

    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else if self.as_const(b).is_some() || a <= b { (a, b) } else { (b, a) };
        if let Some(k) = self.as_const(b) {
            if let Some(v) = self.as_const(a) { return self.c(v.wrapping_add(k), w); }
            if k == 0 { return a; }
            match *self.node(a) {
                Node::Add(x, y) => {
                    if let Some(k2) = self.as_const(y) {
                        let s = self.c(k.wrapping_add(k2), w);
                        return self.add(x, s);
                    }
                }
                Node::Ite(c, x, y) if self.as_const(x).is_some() && self.as_const(y).is_some() => {
                    let x = self.add(x, b);
                    let y = self.add(y, b);
                    return self.ite(c, x, y);
                }
                _ => {}
            }
        }
        self.mk(Node::Add(a, b), w)
    }

    pub fn neg(&mut self, a: T) -> T {
        let w = self.w(a);
        let n = self.not(a);
        let one = self.c(1, w);
        self.add(n, one)
    }

    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return self.c(0, w); }
        if let Some(k) = self.as_const(b) {
            if w <= 128 {
                let n = self.c(k.wrapping_neg(), w);
                return self.add(a, n);
            }
        }
        // (x + k) - x = k ; (x+k1) - (x+k2)
        if let (Node::Add(x, k1), _) = (self.node(a).clone(), 0) {
            if x == b { return k1; }
            if let Node::Add(y, k2) = *self.node(b) {
                if x == y && self.as_const(k1).is_some() && self.as_const(k2).is_some() {
                    return self.sub(k1, k2);
                }
            }
        }
        let nb = self.neg(b);
        self.add(a, nb)
    }

    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else if self.as_const(b).is_some() || a <= b { (a, b) } else { (b, a) };
        if let Some(k) = self.as_const(b) {
            if let Some(v) = self.as_const(a) { return self.c(v.wrapping_mul(k), w); }
            if k == 0 { return b; }
            if k == 1 { return a; }
            if k.is_power_of_two() {
                let s = self.c(k.trailing_zeros() as u128, w);
                return self.shl(a, s);
            }
            if let Node::Ite(c, x, y) = *self.node(a) {
                if self.as_const(x).is_some() && self.as_const(y).is_some() {
                    let x = self.mul(x, b);
                    let y = self.mul(y, b);
                    return self.ite(c, x, y);
                }
            }
        }
        self.mk(Node::Mul(a, b), w)
    }

    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            if k != 0 {
                if let Some(v) = self.as_const(a) { return self.c(v / k, w); }
                if k.is_power_of_two() {
                    let s = self.c(k.trailing_zeros() as u128, w);
                    return self.lshr(a, s);
                }
            }
        }
        self.mk(Node::UDiv(a, b), w)
    }

    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            if k != 0 {
                if let Some(v) = self.as_const(a) { return self.c(v % k, w); }
                if k.is_power_of_two() {
                    let m = self.c(k - 1, w);
                    return self.and(a, m);
                }
            }
        }
        self.mk(Node::URem(a, b), w)
    }

    pub fn sdiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            if y != 0 { return self.c(sext_u128(x, w).wrapping_div(sext_u128(y, w)) as u128, w); }
        }
        self.mk(Node::SDiv(a, b), w)
    }

    pub fn srem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            if y != 0 { return self.c(sext_u128(x, w).wrapping_rem(sext_u128(y, w)) as u128, w); }
        }
        self.mk(Node::SRem(a, b), w)
    }

    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            if k == 0 { return a; }
            if k >= w as u128 { return self.c(0, w); }
            let k = k as u32;
            let hi = self.extract(w - 1 - k, 0, a);
            let z = self.c(0, k);
            return self.concat(&[hi, z]);
        }
        self.mk(Node::Shl(a, b), w)
    }

    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            if k == 0 { return a; }
            if k >= w as u128 { return self.c(0, w); }
            let k = k as u32;
            let hi = self.extract(w - 1, k, a);
            return self.zext(hi, w);
        }
        self.mk(Node::LShr(a, b), w)
    }

    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            if k == 0 { return a; }
            let k = if k >= w as u128 { w - 1 } else { k as u32 };
            let hi = self.extract(w - 1, k, a);
            return self.sext(hi, w);
        }
        self.mk(Node::AShr(a, b), w)
    }

    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b { return self.tru(); }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else if self.as_const(b).is_some() || a <= b { (a, b) } else { (b, a) };
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.c((x == y) as u128, 1);
        }
        if w == 1 {
            if let Some(k) = self.as_const(b) {
                return if k == 1 { a } else { self.not(a) };
            }
            let x = self.xor(a, b);
            return self.not(x);
        }
        if self.as_const(b).is_some() {
            match self.node(a).clone() {
                Node::Ite(c, x, y) if self.as_const(x).is_some() || self.as_const(y).is_some() => {
                    let ex = self.eq(x, b);
                    let ey = self.eq(y, b);
                    return self.ite(c, ex, ey);
                }
                Node::Add(x, k) if self.as_const(k).is_some() => {
                    let d = self.sub(b, k);
                    return self.eq(x, d);
                }
                Node::Not(x) => {
                    let nb = self.not(b);
                    return self.eq(x, nb);
                }
                Node::Xor(x, k) if self.as_const(k).is_some() => {
                    let nb = self.xor(k, b);
                    return self.eq(x, nb);
                }
                Node::SExt(x) => {
                    let xw = self.w(x);
                    let bl = self.extract(xw - 1, 0, b);
                    let be = self.sext(bl, w);
                    if be == b {
                        return self.eq(x, bl);
                    }
                    return self.fls();
                }
                _ => {}
            }
        }
        // x + k == x  => false ; x+k1 == x+k2
        if let (Node::Add(x, k1), Node::Add(y, k2)) = (self.node(a).clone(), self.node(b).clone()) {
            if x == y && self.as_const(k1).is_some() && self.as_const(k2).is_some() {
                return self.fls(); // hash-consed, so k1 != k2
            }
        }
        let pa = self.pieces(a);
        let pb = self.pieces(b);
        if pa.len() > 1 || pb.len() > 1 {
            let (xs, ys) = self.align_pieces(&pa, &pb);
            if xs.len() > 1 {
                let mut acc = self.tru();
                for (x, y) in xs.into_iter().zip(ys) {
                    let e = self.eq(x, y);
                    acc = self.and(acc, e);
                    if self.as_const(acc) == Some(0) { return acc; }
                }
                return acc;
            }
        }
        self.mk(Node::Eq(a, b), 1)
    }

    pub fn ne(&mut self, a: T, b: T) -> T {
        let e = self.eq(a, b);
        self.not(e)
    }

    /// (lo, hi) unsigned bounds, cheap
    fn ubounds(&self, a: T) -> (u128, u128) {
        let w = self.w(a);
        match self.node(a) {
            Node::Const(v) => (*v, *v),
            Node::Concat(p) if w <= 128 => {
                let (mut lo, mut hi) = (0u128, 0u128);
                for &q in p.iter() {
                    let qw = self.w(q);
                    let (l, h) = match self.node(q) {
                        Node::Const(v) => (*v, *v),
                        _ => (0, mask(qw)),
                    };
                    lo = if qw >= 128 { l } else { (lo << qw) | l };
                    hi = if qw >= 128 { h } else { (hi << qw) | h };
                }
                (lo, hi)
            }
            Node::Ite(_, x, y) => match (self.node(*x), self.node(*y)) {
                (Node::Const(p), Node::Const(q)) => (*p.min(q), *p.max(q)),
                _ => (0, mask(w)),
            },
            _ => (0, mask(w)),
        }
    }

    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b { return self.fls(); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.c((x < y) as u128, 1);
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        if w <= 128 {
            let (alo, ahi) = self.ubounds(a);
            let (blo, bhi) = self.ubounds(b);
            if ahi < blo { return self.tru(); }
            if alo >= bhi { return self.fls(); }
            if let Some(k) = self.as_const(b) {
                if k == 1 {
                    let z = self.c(0, w);
                    return self.eq(a, z);
                }
                if k == mask(w) { return self.ne(a, b); }
                if k.is_power_of_two() {
                    // a < 2^s  <=>  high bits zero
                    let s = k.trailing_zeros();
                    let hi = self.extract(w - 1, s, a);
                    let z = self.c(0, w - s);
                    return self.eq(hi, z);
                }
            }
            if let Some(k) = self.as_const(a) {
                if k == 0 { return self.ne(a, b); }
                if k != mask(w) && (k + 1).is_power_of_two() {
                    // 2^s - 1 < b  <=> high bits non-zero
                    let s = (k + 1).trailing_zeros();
                    let hi = self.extract(w - 1, s, b);
                    let z = self.c(0, w - s);
                    return self.ne(hi, z);
                }
            }
            match (self.node(a).clone(), self.node(b).clone()) {
                (Node::Ite(c, x, y), Node::Const(_))
                    if self.as_const(x).is_some() && self.as_const(y).is_some() =>
                {
                    let p = self.ult(x, b);
                    let q = self.ult(y, b);
                    return self.ite(c, p, q);
                }
                (Node::Const(_), Node::Ite(c, x, y))
                    if self.as_const(x).is_some() && self.as_const(y).is_some() =>
                {
                    let p = self.ult(a, x);
                    let q = self.ult(a, y);
                    return self.ite(c, p, q);
                }
                _ => {}
            }
            // common zero prefix
            let za = self.zero_prefix(a);
            let zb = self.zero_prefix(b);
            let z = za.min(zb);
            if z > 0 && z < w {
                let x = self.extract(w - 1 - z, 0, a);
                let y = self.extract(w - 1 - z, 0, b);
                return self.ult(x, y);
            }
        }
        self.mk(Node::Ult(a, b), 1)
    }

    fn zero_prefix(&self, a: T) -> u32 {
        let w = self.w(a);
        match self.node(a) {
            Node::Const(v) => {
                if *v == 0 { w } else { w - (128 - v.leading_zeros()) }
            }
            Node::Concat(p) => {
                let z = self.zero_prefix(p[0]);
                z
            }
            _ => 0,
        }
    }

    pub fn ule(&mut self, a: T, b: T) -> T {
        let x = self.ult(b, a);
        self.not(x)
    }

    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b { return self.fls(); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.c((sext_u128(x, w) < sext_u128(y, w)) as u128, 1);
        }
        if self.msb_known_zero(a) && self.msb_known_zero(b) {
            return self.ult(a, b);
        }
        if self.as_const(b) == Some(0) {
            return self.extract(w - 1, w - 1, a);
        }
        if self.as_const(a) == Some(mask(w)) && w <= 128 {
            let s = self.extract(w - 1, w - 1, b);
            // -1 < b  <=> b >= 0
            return self.not(s);
        }
        match (self.node(a).clone(), self.node(b).clone()) {
            (Node::Ite(c, x, y), Node::Const(_))
                if self.as_const(x).is_some() && self.as_const(y).is_some() =>
            {
                let p = self.slt(x, b);
                let q = self.slt(y, b);
                return self.ite(c, p, q);
            }
            _ => {}
        }
        self.mk(Node::Slt(a, b), 1)
    }

    pub fn sle(&mut self, a: T, b: T) -> T {
        let x = self.slt(b, a);
        self.not(x)
    }

    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(k) = self.as_const(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        if let Node::Not(d) = *self.node(c) { return self.ite(d, b, a); }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => { let n = self.not(c); return self.and(n, b); }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                _ => {}
            }
        }
        // nested ite on the same condition
        let a2 = if let Node::Ite(c2, x, _) = *self.node(a) { if c2 == c { x } else { a } } else { a };
        let b2 = if let Node::Ite(c2, _, y) = *self.node(b) { if c2 == c { y } else { b } } else { b };
        if a2 != a || b2 != b { return self.ite(c, a2, b2); }
        self.mk(Node::Ite(c, a, b), w)
    }

    /// Sorted list of variables occurring in a term.
    pub fn varset(&mut self, t: T) -> Rc<Vec<u32>> {
        if let Some(v) = self.varsets.get(&t) { return v.clone(); }
        let kids = self.kids(t);
        let mut out: Vec<u32> = vec![];
        if let Node::Var(v) = self.node(t) { out.push(*v); }
        for k in kids {
            let s = self.varset(k);
            out.extend_from_slice(&s);
        }
        out.sort_unstable();
        out.dedup();
        let r = Rc::new(out);
        self.varsets.insert(t, r.clone());
        r
    }

    pub fn kids(&self, t: T) -> Vec<T> {
        match self.node(t) {
            Node::Const(_) | Node::Var(_) => vec![],
            Node::Not(a) | Node::SExt(a) | Node::Extract(_, _, a) => vec![*a],
            Node::And(a, b) | Node::Or(a, b) | Node::Xor(a, b) | Node::Add(a, b)
            | Node::Mul(a, b) | Node::UDiv(a, b) | Node::URem(a, b) | Node::SDiv(a, b)
            | Node::SRem(a, b) | Node::Shl(a, b) | Node::LShr(a, b) | Node::AShr(a, b)
            | Node::Eq(a, b) | Node::Ult(a, b) | Node::Slt(a, b) => vec![*a, *b],
            Node::Ite(a, b, c) => vec![*a, *b, *c],
            Node::Concat(p) => p.to_vec(),
        }
    }

    /// Evaluate under an assignment (missing variables are 0). Widths > 128
    /// cannot be evaluated as a whole and yield the low 128 bits.
    pub fn eval(&self, t: T, m: &[u128], memo: &mut HashMap<T, u128>) -> u128 {
        if let Node::Const(v) = self.node(t) { return *v; }
        if let Some(v) = memo.get(&t) { return *v; }
        let w = self.w(t);
        let mk = mask(w);
        macro_rules! e { ($x:expr) => { self.eval($x, m, memo) } }
        let r = match self.node(t).clone() {
            Node::Const(v) => v,
            Node::Var(v) => m.get(v as usize).copied().unwrap_or(0),
            Node::Not(a) => !e!(a),
            Node::And(a, b) => e!(a) & e!(b),
            Node::Or(a, b) => e!(a) | e!(b),
            Node::Xor(a, b) => e!(a) ^ e!(b),
            Node::Add(a, b) => e!(a).wrapping_add(e!(b)),
            Node::Mul(a, b) => e!(a).wrapping_mul(e!(b)),
            Node::UDiv(a, b) => { let y = e!(b); if y == 0 { mk } else { e!(a) / y } }
            Node::URem(a, b) => { let y = e!(b); if y == 0 { e!(a) } else { e!(a) % y } }
            Node::SDiv(a, b) => {
                let (x, y) = (sext_u128(e!(a), w), sext_u128(e!(b), w));
                if y == 0 { if x < 0 { 1 } else { mk } } else { x.wrapping_div(y) as u128 }
            }
            Node::SRem(a, b) => {
                let (x, y) = (sext_u128(e!(a), w), sext_u128(e!(b), w));
                if y == 0 { x as u128 } else { x.wrapping_rem(y) as u128 }
            }
            Node::Shl(a, b) => { let s = e!(b); if s >= w as u128 { 0 } else { e!(a) << s } }
            Node::LShr(a, b) => { let s = e!(b); if s >= w as u128 { 0 } else { e!(a) >> s } }
            Node::AShr(a, b) => {
                let s = e!(b).min(w as u128 - 1);
                (sext_u128(e!(a), w) >> s) as u128
            }
            Node::Eq(a, b) => {
                if self.w(a) > 128 { self.eval_wide(a, m, memo).eq(&self.eval_wide(b, m, memo)) as u128 }
                else { (e!(a) == e!(b)) as u128 }
            }
            Node::Ult(a, b) => (e!(a) < e!(b)) as u128,
            Node::Slt(a, b) => {
                let aw = self.w(a);
                (sext_u128(e!(a), aw) < sext_u128(e!(b), aw)) as u128
            }
            Node::Ite(c, a, b) => if e!(c) == 1 { e!(a) } else { e!(b) },
            Node::Concat(p) => {
                let mut acc = 0u128;
                for &q in p.iter() {
                    let qw = self.w(q);
                    let v = e!(q);
                    acc = if qw >= 128 { v } else { (acc << qw) | v };
                }
                acc
            }
            Node::Extract(hi, lo, a) => {
                if self.w(a) > 128 {
                    let bits = self.eval_wide(a, m, memo);
                    let mut acc = 0u128;
                    for i in (lo..=hi).rev() { acc = (acc << 1) | bits[i as usize] as u128; }
                    acc
                } else {
                    let _ = hi;
                    e!(a) >> lo
                }
            }
            Node::SExt(a) => { let aw = self.w(a); sext_u128(e!(a), aw) as u128 }
        } & mk;
        memo.insert(t, r);
        r
    }

    /// bits, lsb first
    fn eval_wide(&self, t: T, m: &[u128], memo: &mut HashMap<T, u128>) -> Vec<u8> {
        let w = self.w(t);
        if w <= 128 {
            let v = self.eval(t, m, memo);
            return (0..w).map(|i| ((v >> i) & 1) as u8).collect();
        }
        match self.node(t).clone() {
            Node::Concat(p) => {
                let mut out = vec![];
                for &q in p.iter().rev() { out.extend(self.eval_wide(q, m, memo)); }
                out
            }
            Node::Ite(c, a, b) => {
                if self.eval(c, m, memo) == 1 { self.eval_wide(a, m, memo) } else { self.eval_wide(b, m, memo) }
            }
            Node::Not(a) => self.eval_wide(a, m, memo).iter().map(|b| b ^ 1).collect(),
            Node::And(a, b) => zip(self.eval_wide(a, m, memo), self.eval_wide(b, m, memo), |x, y| x & y),
            Node::Or(a, b) => zip(self.eval_wide(a, m, memo), self.eval_wide(b, m, memo), |x, y| x | y),
            Node::Xor(a, b) => zip(self.eval_wide(a, m, memo), self.eval_wide(b, m, memo), |x, y| x ^ y),
            Node::Extract(h, l, a) => self.eval_wide(a, m, memo)[l as usize..=h as usize].to_vec(),
            Node::SExt(a) => {
                let mut v = self.eval_wide(a, m, memo);
                let s = *v.last().unwrap();
                v.resize(w as usize, s);
                v
            }
            n => panic!("eval_wide: unsupported wide node {:?}", n),
        }
    }

    /// SMT-LIB rendering (for the second-solver cross-check and for samples).
    pub fn smt(&self, t: T, out: &mut String, names: &mut HashMap<T, String>, defs: &mut String) -> String {
        use std::fmt::Write;
        let _ = &out;
        if let Some(n) = names.get(&t) { return n.clone(); }
        let w = self.w(t);
        let s = match self.node(t).clone() {
            Node::Const(v) => {
                let mut b = String::with_capacity(w as usize + 2);
                b.push_str("#b");
                for i in (0..w).rev() { b.push(if (v >> i) & 1 == 1 { '1' } else { '0' }); }
                return b;
            }
            Node::Var(v) => { return format!("v{}", v); }
            n => {
                macro_rules! k { ($x:expr) => { self.smt($x, out, names, defs) } }
                match n {
                    Node::Not(a) => format!("(bvnot {})", k!(a)),
                    Node::And(a, b) => format!("(bvand {} {})", k!(a), k!(b)),
                    Node::Or(a, b) => format!("(bvor {} {})", k!(a), k!(b)),
                    Node::Xor(a, b) => format!("(bvxor {} {})", k!(a), k!(b)),
                    Node::Add(a, b) => format!("(bvadd {} {})", k!(a), k!(b)),
                    Node::Mul(a, b) => format!("(bvmul {} {})", k!(a), k!(b)),
                    Node::UDiv(a, b) => format!("(bvudiv {} {})", k!(a), k!(b)),
                    Node::URem(a, b) => format!("(bvurem {} {})", k!(a), k!(b)),
                    Node::SDiv(a, b) => format!("(bvsdiv {} {})", k!(a), k!(b)),
                    Node::SRem(a, b) => format!("(bvsrem {} {})", k!(a), k!(b)),
                    Node::Shl(a, b) => format!("(bvshl {} {})", k!(a), k!(b)),
                    Node::LShr(a, b) => format!("(bvlshr {} {})", k!(a), k!(b)),
                    Node::AShr(a, b) => format!("(bvashr {} {})", k!(a), k!(b)),
                    Node::Eq(a, b) => format!("(ite (= {} {}) #b1 #b0)", k!(a), k!(b)),
                    Node::Ult(a, b) => format!("(ite (bvult {} {}) #b1 #b0)", k!(a), k!(b)),
                    Node::Slt(a, b) => format!("(ite (bvslt {} {}) #b1 #b0)", k!(a), k!(b)),
                    Node::Ite(c, a, b) => format!("(ite (= {} #b1) {} {})", k!(c), k!(a), k!(b)),
                    Node::Concat(p) => {
                        let mut it = p.iter();
                        let mut acc = k!(*it.next().unwrap());
                        for &q in it { acc = format!("(concat {} {})", acc, k!(q)); }
                        acc
                    }
                    Node::Extract(h, l, a) => format!("((_ extract {} {}) {})", h, l, k!(a)),
                    Node::SExt(a) => { let d = w - self.w(a); format!("((_ sign_extend {}) {})", d, k!(a)) }
                    _ => unreachable!(),
                }
            }
        };
        let name = format!("t{}", t.0);
        writeln!(defs, "(define-fun {} () (_ BitVec {}) {})", name, w, s).unwrap();
        names.insert(t, name.clone());
        name
    }
}

fn zip(a: Vec<u8>, b: Vec<u8>, f: fn(u8, u8) -> u8) -> Vec<u8> {
    a.into_iter().zip(b).map(|(x, y)| f(x, y)).collect()
}
