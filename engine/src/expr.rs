//! Hash-consed bit-vector expressions with light simplification.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, URem, SDiv, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    ZExt, SExt, Extract, Concat,
    Eq, Ult, Ule, Slt, Sle, Not, Ite,
    Fp,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128, // const value / var index / extract low bit / fp opcode
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { !0 } else { (1u128 << w) - 1 }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub vars: Vec<u128>,          // variable set (bitset over input bytes)
    pub rng: Vec<(u128, u128)>,   // structural unsigned range
    map: HashMap<Node, E, fxh::B>,
    ev_gen: Vec<u32>,
    ev_val: Vec<u128>,
    gen: u32,
    stack: Vec<E>,
}

pub mod fxh {
    use std::hash::{BuildHasher, Hasher};
    #[derive(Clone, Default)]
    pub struct B;
    pub struct H(u64);
    impl BuildHasher for B { type Hasher = H; fn build_hasher(&self) -> H { H(0) } }
    impl Hasher for H {
        fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
        fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
        fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
        fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
        fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
        fn write_u64(&mut self, x: u64) {
            self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
        }
        fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
        fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
        fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx { nodes: vec![], vars: vec![], rng: vec![], map: HashMap::with_hasher(fxh::B), ev_gen: vec![], ev_val: vec![], gen: 0, stack: vec![] }
    }
    #[inline] pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w as u32 }
    #[inline] pub fn n(&self, e: E) -> Node { self.nodes[e as usize] }
    #[inline] pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some(n.k) } else { None }
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u128) -> E {
        let n = Node { op, w: w as u16, a, b, c, k };
        if let Some(&e) = self.map.get(&n) { return e; }
        let e = self.nodes.len() as E;
        let mut vs = 0u128;
        if op == Op::Var { vs = 1u128 << k; }
        for x in [a, b, c] { if x != NONE { vs |= self.vars[x as usize]; } }
        let r = self.range_of(&n);
        self.nodes.push(n);
        self.vars.push(vs);
        self.rng.push(r);
        self.ev_gen.push(0);
        self.ev_val.push(0);
        self.map.insert(n, e);
        e
    }
    fn range_of(&self, n: &Node) -> (u128, u128) {
        let m = mask(n.w as u32);
        let full = (0, m);
        let r = |e: E| self.rng[e as usize];
        match n.op {
            Op::Const => (n.k, n.k),
            Op::Var => (0, 255),
            Op::ZExt => r(n.a),
            Op::Extract => {
                let (lo, hi) = r(n.a);
                let (lo2, hi2) = (lo >> n.k, hi >> n.k);
                if hi2 <= m { (lo2, hi2) } else { full }
            }
            Op::Concat => {
                let wl = self.w(n.b);
                let (a, b) = (r(n.a), r(n.b));
                ((a.0 << wl) | b.0, (a.1 << wl) | b.1)
            }
            Op::Add => {
                let (a, b) = (r(n.a), r(n.b));
                match a.1.checked_add(b.1) { Some(h) if h <= m => (a.0 + b.0, h), _ => full }
            }
            Op::Sub => {
                let (a, b) = (r(n.a), r(n.b));
                if a.0 >= b.1 { (a.0 - b.1, a.1 - b.0) } else { full }
            }
            Op::Mul => {
                let (a, b) = (r(n.a), r(n.b));
                match a.1.checked_mul(b.1) { Some(h) if h <= m => (a.0 * b.0, h), _ => full }
            }
            Op::UDiv => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 > 0 { (a.0 / b.1, a.1 / b.0) } else { full }
            }
            Op::URem => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 > 0 { (0, a.1.min(b.1 - 1)) } else { full }
            }
            Op::And => { let (a, b) = (r(n.a), r(n.b)); (0, a.1.min(b.1)) }
            Op::Or | Op::Xor => {
                let (a, b) = (r(n.a), r(n.b));
                let h = a.1.max(b.1);
                let hm = if h == 0 { 0 } else { mask(128 - h.leading_zeros()) };
                (if n.op == Op::Or { a.0.max(b.0) } else { 0 }, hm & m)
            }
            Op::Shl => {
                if let Some(k) = self.as_const(n.b) {
                    let a = r(n.a);
                    if k < 128 && a.1.leading_zeros() as u128 >= k && (a.1 << k) <= m { return (a.0 << k, a.1 << k); }
                }
                full
            }
            Op::LShr => {
                if let Some(k) = self.as_const(n.b) {
                    if k < n.w as u128 { let a = r(n.a); return (a.0 >> k, a.1 >> k); }
                }
                (0, r(n.a).1)
            }
            Op::Ite => { let (a, b) = (r(n.b), r(n.c)); (a.0.min(b.0), a.1.max(b.1)) }
            _ => full,
        }
    }
    pub fn cst(&mut self, k: u128, w: u32) -> E { self.mk(Op::Const, w, NONE, NONE, NONE, k & mask(w)) }
    pub fn var(&mut self, i: usize) -> E { assert!(i < 128, "too many symbolic bytes"); self.mk(Op::Var, 8, NONE, NONE, NONE, i as u128) }

    pub fn fold(op: Op, x: u128, y: u128, w: u32) -> u128 {
        let m = mask(w);
        (match op {
            Op::Add => x.wrapping_add(y),
            Op::Sub => x.wrapping_sub(y),
            Op::Mul => x.wrapping_mul(y),
            Op::UDiv => if y == 0 { m } else { x / y },
            Op::URem => if y == 0 { x } else { x % y },
            Op::SDiv => if y == 0 { m } else { sx(x, w).wrapping_div(sx(y, w)) as u128 },
            Op::SRem => if y == 0 { x } else { sx(x, w).wrapping_rem(sx(y, w)) as u128 },
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Shl => if y >= w as u128 { 0 } else { x << y },
            Op::LShr => if y >= w as u128 { 0 } else { x >> y },
            Op::AShr => { let s = if y >= w as u128 { w as u128 - 1 } else { y }; (sx(x, w) >> s) as u128 }
            Op::Eq => (x == y) as u128,
            Op::Ult => (x < y) as u128,
            Op::Ule => (x <= y) as u128,
            Op::Slt => (sx(x, w) < sx(y, w)) as u128,
            Op::Sle => (sx(x, w) <= sx(y, w)) as u128,
            _ => unreachable!(),
        }) & m
    }

    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let m = mask(w);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.cst(Self::fold(op, x, y, w), w);
        }
        // canonical: constant on the right for commutative ops
        match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor => {
                if ca.is_some() || (cb.is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
            }
            _ => {}
        }
        let cb = self.as_const(b);
        let ca = self.as_const(a);
        if let Some(k) = cb {
            match op {
                Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if k == 0 => return a,
                Op::Mul | Op::And if k == 0 => return b,
                Op::Mul | Op::UDiv | Op::SDiv if k == 1 => return a,
                Op::And if k == m => return a,
                Op::Or if k == m => return b,
                Op::Xor if w == 1 && k == 1 => return self.not(a),
                Op::Shl | Op::LShr if k >= w as u128 => return self.cst(0, w),
                Op::URem if k.is_power_of_two() => { let kk = self.cst(k - 1, w); return self.bin(Op::And, a, kk); }
                Op::UDiv if k.is_power_of_two() => { let kk = self.cst(k.trailing_zeros() as u128, w); return self.bin(Op::LShr, a, kk); }
                Op::Sub => { let kk = self.cst(k.wrapping_neg() & m, w); return self.bin(Op::Add, a, kk); }
                _ => {}
            }
            let na = self.n(a);
            match op {
                Op::Add | Op::And | Op::Or | Op::Xor if na.op == op => {
                    if let Some(k2) = self.as_const(na.b) {
                        let kk = self.cst(Self::fold(op, k, k2, w), w);
                        return self.bin(op, na.a, kk);
                    }
                }
                Op::And => {
                    let hi = self.rng[a as usize].1;
                    // mask covers all possible bits
                    let hm = if hi == 0 { 0 } else { mask(128 - hi.leading_zeros()) };
                    if hm & k == hm { return a; }
                    if hm & k == 0 { return self.cst(0, w); }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let kk = self.cst(k & mask(iw), iw);
                        let x = self.bin(Op::And, na.a, kk);
                        return self.zext(x, w);
                    }
                }
                Op::LShr => {
                    if k < w as u128 {
                        let x = self.extract(a, k as u32, w - k as u32);
                        return self.zext(x, w);
                    }
                }
                Op::Or | Op::Xor if na.op == Op::ZExt => {
                    let iw = self.w(na.a);
                    if k & !mask(iw) == 0 {
                        let kk = self.cst(k, iw);
                        let x = self.bin(op, na.a, kk);
                        return self.zext(x, w);
                    }
                }
                _ => {}
            }
        }
        if let Some(0) = ca {
            match op { Op::Shl | Op::LShr | Op::AShr | Op::UDiv | Op::URem | Op::SDiv | Op::SRem => return a, _ => {} }
        }
        if a == b {
            match op {
                Op::Sub | Op::Xor => return self.cst(0, w),
                Op::And | Op::Or => return a,
                _ => {}
            }
        }
        if w == 1 {
            // boolean structure
            if op == Op::And || op == Op::Or {
                let na = self.n(a); let nb = self.n(b);
                if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                    return self.cst((op == Op::Or) as u128, 1);
                }
            }
        }
        self.mk(op, w, a, b, NONE, 0)
    }
    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        match n.op {
            Op::Const => self.cst(n.k ^ 1, 1),
            Op::Not => n.a,
            Op::Ult => self.cmp(Op::Ule, n.b, n.a),
            Op::Ule => self.cmp(Op::Ult, n.b, n.a),
            Op::Slt => self.cmp(Op::Sle, n.b, n.a),
            Op::Sle => self.cmp(Op::Slt, n.b, n.a),
            _ => self.mk(Op::Not, 1, a, NONE, NONE, 0),
        }
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        if n.w as u32 == w { return a; }
        match n.op {
            Op::Const => self.cst(n.k, w),
            Op::ZExt => self.zext(n.a, w),
            _ => self.mk(Op::ZExt, w, a, NONE, NONE, 0),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        if n.w as u32 == w { return a; }
        match n.op {
            Op::Const => self.cst(sx(n.k, n.w as u32) as u128, w),
            Op::ZExt => self.zext(n.a, w),
            Op::SExt => self.sext(n.a, w),
            _ => {
                let hi = self.rng[a as usize].1;
                if hi < (1u128 << (n.w - 1)) { return self.zext(a, w); }
                self.mk(Op::SExt, w, a, NONE, NONE, 0)
            }
        }
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.n(a);
        if lo == 0 && n.w as u32 == w { return a; }
        debug_assert!(lo + w <= n.w as u32);
        match n.op {
            Op::Const => return self.cst(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, n.k as u32 + lo, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo + w <= wl { return self.extract(n.b, lo, w); }
                if lo >= wl { return self.extract(n.a, lo - wl, w); }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, w - (wl - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.cst(0, w); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
            }
            Op::Ite => {
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Shl => {
                if let Some(k) = self.as_const(n.b) {
                    let k = k as u32;
                    if k < n.w as u32 {
                        if lo >= k { return self.extract(n.a, lo - k, w); }
                        if lo + w <= k { return self.cst(0, w); }
                        let hi = self.extract(n.a, 0, w - (k - lo));
                        let z = self.cst(0, k - lo);
                        return self.concat(hi, z);
                    }
                }
            }
            _ => {}
        }
        let hi = self.rng[a as usize].1;
        if hi >> lo == 0 { return self.cst(0, w); }
        self.mk(Op::Extract, w, a, NONE, NONE, lo as u128)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (nh, nl) = (self.n(hi), self.n(lo));
        let w = nh.w as u32 + nl.w as u32;
        match (nh.op, nl.op) {
            (Op::Const, Op::Const) => return self.cst((nh.k << nl.w) | nl.k, w),
            (Op::Const, _) if nh.k == 0 => return self.zext(lo, w),
            (Op::Extract, Op::Extract) if nh.a == nl.a && nh.k == nl.k + nl.w as u128 => return self.extract(nl.a, nl.k as u32, w),
            (Op::Extract, _) if nh.a == lo && nh.k == nl.w as u128 => return self.extract(lo, 0, w),
            _ => {}
        }
        // extract(x, k.., high) ++ extract/trunc of x at low
        if nl.op != Op::Extract {
            if nh.op == Op::Extract && nh.k as u32 == nl.w as u32 {
                // hi = x[w..], lo could be simplified form of x[0..w]
                let lo2 = self.extract(nh.a, 0, nl.w as u32);
                if lo2 == lo { return self.extract(nh.a, 0, w); }
            }
        }
        if nh.op == Op::ZExt {
            // zext(x) ++ lo == zext(x ++ lo)
            let x = self.concat(nh.a, lo);
            return self.zext(x, w);
        }
        if nl.op == Op::Concat {
            // left-assoc merge: try merging hi with top of lo
            let top = self.concat(hi, nl.a);
            let nt = self.n(top);
            if nt.op != Op::Concat || nt.a != hi {
                return self.concat(top, nl.b);
            }
        }
        self.mk(Op::Concat, w, hi, lo, NONE, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) { return if k != 0 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        let nc = self.n(c);
        if nc.op == Op::Not { return self.ite(nc.a, b, a); }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(Op::Or, c, b),
                (Some(0), _) => { let nc = self.not(c); return self.bin(Op::And, nc, b); }
                (_, Some(0)) => return self.bin(Op::And, c, a),
                (_, Some(1)) => { let nc = self.not(c); return self.bin(Op::Or, nc, a); }
                _ => {}
            }
        }
        // ite(c, zext(c'), 0/1) etc are left to the solver
        let na = self.n(a); let nb = self.n(b);
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    pub fn cmp(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.cst(Self::fold(op, x, y, w) & 1, 1);
        }
        if a == b { return self.cst(matches!(op, Op::Eq | Op::Ule | Op::Sle) as u128, 1); }
        let (ra, rb) = (self.rng[a as usize], self.rng[b as usize]);
        match op {
            Op::Eq => {
                if ra.1 < rb.0 || rb.1 < ra.0 { return self.cst(0, 1); }
                let (a, b) = if self.as_const(a).is_some() { (b, a) } else { (a, b) };
                if let Some(k) = self.as_const(b) {
                    let na = self.n(a);
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k > mask(iw) { return self.cst(0, 1); }
                            let kk = self.cst(k, iw);
                            return self.cmp(Op::Eq, na.a, kk);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            if sx(k & mask(iw), iw) as u128 & mask(w) != k { return self.cst(0, 1); }
                            let kk = self.cst(k, iw);
                            return self.cmp(Op::Eq, na.a, kk);
                        }
                        Op::Concat => {
                            let wl = self.w(na.b); let wh = w - wl;
                            let kh = self.cst(k >> wl, wh); let kl = self.cst(k, wl);
                            let x = self.cmp(Op::Eq, na.a, kh);
                            let y = self.cmp(Op::Eq, na.b, kl);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Add => if let Some(k2) = self.as_const(na.b) {
                            let kk = self.cst(k.wrapping_sub(k2), w);
                            return self.cmp(Op::Eq, na.a, kk);
                        },
                        Op::Xor => if let Some(k2) = self.as_const(na.b) {
                            let kk = self.cst(k ^ k2, w);
                            return self.cmp(Op::Eq, na.a, kk);
                        },
                        Op::Ite => {
                            let (cx, cy) = (self.as_const(na.b), self.as_const(na.c));
                            if cx.is_some() || cy.is_some() {
                                let x = self.cmp(Op::Eq, na.b, b);
                                let y = self.cmp(Op::Eq, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        _ => {}
                    }
                    if w == 1 { return if k == 1 { a } else { self.not(a) }; }
                }
                let (a, b) = if self.as_const(b).is_none() && a > b { (b, a) } else { (a, b) };
                if self.as_const(b).is_none() {
                    let (na, nb) = (self.n(a), self.n(b));
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.cmp(Op::Eq, na.a, nb.a);
                    }
                }
                self.mk(Op::Eq, 1, a, b, NONE, 0)
            }
            Op::Ult | Op::Ule => {
                if op == Op::Ult {
                    if ra.1 < rb.0 { return self.cst(1, 1); }
                    if ra.0 >= rb.1 { return self.cst(0, 1); }
                } else {
                    if ra.1 <= rb.0 { return self.cst(1, 1); }
                    if ra.0 > rb.1 { return self.cst(0, 1); }
                }
                let (na, nb) = (self.n(a), self.n(b));
                if na.op == Op::ZExt {
                    let iw = self.w(na.a);
                    if nb.op == Op::ZExt && self.w(nb.a) == iw { return self.cmp(op, na.a, nb.a); }
                    if nb.op == Op::Const && nb.k <= mask(iw) { let k = self.cst(nb.k, iw); return self.cmp(op, na.a, k); }
                }
                if nb.op == Op::ZExt && na.op == Op::Const {
                    let iw = self.w(nb.a);
                    if na.k <= mask(iw) { let k = self.cst(na.k, iw); return self.cmp(op, k, nb.a); }
                }
                // normalise x <= k  to x < k+1,  k <= x to k-1 < x
                if op == Op::Ule {
                    if nb.op == Op::Const { if nb.k < mask(w) { let k = self.cst(nb.k + 1, w); return self.cmp(Op::Ult, a, k); } }
                    if na.op == Op::Const { if na.k > 0 { let k = self.cst(na.k - 1, w); return self.cmp(Op::Ult, k, b); } }
                }
                if op == Op::Ult && nb.op == Op::Const && nb.k == 1 { let z = self.cst(0, w); return self.cmp(Op::Eq, a, z); }
                self.mk(op, 1, a, b, NONE, 0)
            }
            Op::Slt | Op::Sle => {
                let half = 1u128 << (w - 1);
                if ra.1 < half && rb.1 < half {
                    return self.cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                self.mk(op, 1, a, b, NONE, 0)
            }
            _ => unreachable!(),
        }
    }
    pub fn fp(&mut self, code: u32, w: u32, a: E, b: E) -> E { self.mk(Op::Fp, w, a, b, NONE, code as u128) }

    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        self.gen += 1;
        self.eval_g(e, model)
    }
    fn eval_g(&mut self, root: E, model: &[u8]) -> u128 {
        let g = self.gen;
        let mut st = std::mem::take(&mut self.stack);
        st.clear();
        st.push(root);
        while let Some(&e) = st.last() {
            let i = e as usize;
            if self.ev_gen[i] == g { st.pop(); continue; }
            let n = self.nodes[i];
            let v = match n.op {
                Op::Const => n.k,
                Op::Var => *model.get(n.k as usize).unwrap_or(&0) as u128,
                Op::Ite => {
                    if self.ev_gen[n.a as usize] != g { st.push(n.a); continue; }
                    let t = if self.ev_val[n.a as usize] != 0 { n.b } else { n.c };
                    if self.ev_gen[t as usize] != g { st.push(t); continue; }
                    self.ev_val[t as usize]
                }
                _ => {
                    let mut ok = true;
                    for x in [n.a, n.b] { if x != NONE && self.ev_gen[x as usize] != g { st.push(x); ok = false; } }
                    if !ok { continue; }
                    let a = self.ev_val[n.a as usize];
                    let b = if n.b != NONE { self.ev_val[n.b as usize] } else { 0 };
                    let wa = self.nodes[n.a as usize].w as u32;
                    match n.op {
                        Op::ZExt => a,
                        Op::SExt => sx(a, wa) as u128 & mask(n.w as u32),
                        Op::Extract => (a >> n.k) & mask(n.w as u32),
                        Op::Concat => (a << self.nodes[n.b as usize].w) | b,
                        Op::Not => a ^ 1,
                        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => Self::fold(n.op, a, b, wa) & 1,
                        Op::Fp => crate::fp::eval(n.k as u32, a, b, wa, n.w as u32),
                        op => Self::fold(op, a, b, n.w as u32),
                    }
                }
            };
            self.ev_val[i] = v;
            self.ev_gen[i] = g;
            st.pop();
        }
        self.stack = st;
        self.ev_val[root as usize]
    }
    pub fn show(&self, e: E) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("b{}", n.k),
            Op::Extract => format!("(extract {} {} {})", n.k, n.w, self.show(n.a)),
            Op::ZExt | Op::SExt => format!("({:?} {} {})", n.op, n.w, self.show(n.a)),
            Op::Not => format!("(not {})", self.show(n.a)),
            Op::Ite => format!("(ite {} {} {})", self.show(n.a), self.show(n.b), self.show(n.c)),
            _ => format!("({:?} {} {})", n.op, self.show(n.a), self.show(n.b)),
        }
    }
}
pub const NONE: E = u32::MAX;
