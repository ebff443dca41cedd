//! Hash-consed bit-vector expressions with local simplification.
use crate::ll::{mask, sext128};
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat, // a: high, b: low
    Extract, // k: low bit
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128, // Const: value; Var: number; Extract: low bit
}

pub struct Arena {
    pub n: Vec<Node>,
    tab: HashMap<Node, E, std::hash::BuildHasherDefault<Fx>>,
    pub vars: Vec<Rc<[u32]>>, // variables of each node, sorted
    hs: Vec<u64>,             // structural hash, the same in every arena
}

#[derive(Default)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}

pub const NONE: E = 0;

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { n: vec![], tab: HashMap::default(), vars: vec![], hs: vec![] };
        // 0 is a placeholder so that E 0 can mean "nothing".
        a.n.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        a.vars.push(Rc::new([]));
        a.hs.push(0);
        a
    }
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w
    }
    pub fn cst(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(e) = self.tab.get(&n) {
            return *e;
        }
        let e = self.n.len() as E;
        let vs: Rc<[u32]> = match n.op {
            Op::Const => Rc::new([]),
            Op::Var => Rc::new([n.k as u32]),
            _ => {
                let mut best: Rc<[u32]> = self.vars[n.a as usize].clone();
                for x in [n.b, n.c] {
                    if x == NONE {
                        continue;
                    }
                    let o = &self.vars[x as usize];
                    if o.iter().all(|v| best.contains(v)) {
                        continue;
                    }
                    if best.iter().all(|v| o.contains(v)) {
                        best = o.clone();
                        continue;
                    }
                    let mut m: Vec<u32> = best.iter().chain(o.iter()).copied().collect();
                    m.sort_unstable();
                    m.dedup();
                    best = m.into();
                }
                best
            }
        };
        let mut f = Fx::default();
        use std::hash::Hasher;
        f.write_u64((n.op as u64) << 32 | n.w as u64);
        f.write_u128(n.k);
        for x in [n.a, n.b, n.c] {
            f.write_u64(self.hs[x as usize]);
        }
        self.hs.push(f.finish());
        self.n.push(n);
        self.vars.push(vs);
        self.tab.insert(n, e);
        e
    }
    pub fn k(&mut self, v: u128, w: u32) -> E {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: mask(v, w) })
    }
    pub fn var(&mut self, id: u32, w: u32) -> E {
        self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: id as u128 })
    }
    fn bin(&mut self, op: Op, w: u32, a: E, b: E) -> E {
        self.mk(Node { op, w, a, b, c: 0, k: 0 })
    }
    pub fn not1(&mut self, a: E) -> E {
        debug_assert_eq!(self.w(a), 1);
        let one = self.k(1, 1);
        self.op2(Op::Xor, a, one)
    }
    pub fn is_not(&self, e: E) -> Option<E> {
        let n = self.n[e as usize];
        if n.op == Op::Xor && n.w == 1 && self.cst(n.b) == Some(1) {
            Some(n.a)
        } else {
            None
        }
    }

    pub fn fold(op: Op, w: u32, x: u128, y: u128) -> Option<u128> {
        // w is the operand width
        Some(match op {
            Op::Add => mask(x.wrapping_add(y), w),
            Op::Sub => mask(x.wrapping_sub(y), w),
            Op::Mul => mask(x.wrapping_mul(y), w),
            Op::UDiv => {
                if y == 0 {
                    return None;
                }
                x / y
            }
            Op::URem => {
                if y == 0 {
                    return None;
                }
                x % y
            }
            Op::SDiv => {
                let (a, b) = (sext128(x, w), sext128(y, w));
                if b == 0 {
                    return None;
                }
                mask(a.wrapping_div(b) as u128, w)
            }
            Op::SRem => {
                let (a, b) = (sext128(x, w), sext128(y, w));
                if b == 0 {
                    return None;
                }
                mask(a.wrapping_rem(b) as u128, w)
            }
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    mask(x << y, w)
                }
            }
            Op::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => {
                let s = sext128(x, w);
                mask((s >> y.min(127).min(w as u128 - 1)) as u128, w)
            }
            Op::Eq => (x == y) as u128,
            Op::Ult => (x < y) as u128,
            Op::Ule => (x <= y) as u128,
            Op::Slt => (sext128(x, w) < sext128(y, w)) as u128,
            Op::Sle => (sext128(x, w) <= sext128(y, w)) as u128,
            _ => return None,
        })
    }

    pub fn op2(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if w != self.w(b) {
            panic!("width mismatch {:?} {} {}", op, w, self.w(b));
        }
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        let (mut ca, mut cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(v) = Arena::fold(op, w, x, y) {
                return self.k(v, rw);
            }
        }
        // constants on the right
        if ca.is_some() && matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        } else if cb.is_none() && self.hs[a as usize] > self.hs[b as usize] && matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            std::mem::swap(&mut a, &mut b);
        }
        let ones = mask(u128::MAX, w);
        let na = self.n[a as usize];
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let (Op::Add, Some(k), Some(k2)) = (na.op, self.cst(na.b), cb) {
                    let c = self.k(k.wrapping_add(k2), w);
                    return self.op2(Op::Add, na.a, c);
                }
            }
            Op::Sub => {
                if a == b {
                    return self.k(0, w);
                }
                if let Some(k) = cb {
                    let c = self.k(k.wrapping_neg(), w);
                    return self.op2(Op::Add, a, c);
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.k(k.trailing_zeros() as u128, w);
                        return self.op2(Op::Shl, a, s);
                    }
                }
            }
            Op::And => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(ones) || a == b {
                    return a;
                }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                        return self.k(0, 1);
                    }
                }
                if let Some(k) = cb {
                    if let (Op::And, Some(k1)) = (na.op, self.cst(na.b)) {
                        let c = self.k(k & k1, w);
                        return self.op2(Op::And, na.a, c);
                    }
                    // low mask
                    if (k & (k + 1)) == 0 {
                        let lw = k.count_ones();
                        let x = self.extract(a, 0, lw);
                        return self.zext(x, w);
                    }
                }
            }
            Op::Or => {
                if cb == Some(0) || a == b {
                    return a;
                }
                if cb == Some(ones) {
                    return b;
                }
                // zext(x) | (zext(y) << n) with no overlap -> concat
                if let Some(e) = self.or_concat(a, b) {
                    return e;
                }
                if let Some(e) = self.or_concat(b, a) {
                    return e;
                }
            }
            Op::Xor => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.k(0, w);
                }
                if let (Op::Xor, Some(k1), Some(k2)) = (na.op, self.cst(na.b), cb) {
                    let c = self.k(k1 ^ k2, w);
                    return self.op2(Op::Xor, na.a, c);
                }
                if w == 1 && cb == Some(1) {
                    // push the negation into comparisons
                    match na.op {
                        Op::Ult => return self.op2(Op::Ule, na.b, na.a),
                        Op::Ule => return self.op2(Op::Ult, na.b, na.a),
                        Op::Slt => return self.op2(Op::Sle, na.b, na.a),
                        Op::Sle => return self.op2(Op::Slt, na.b, na.a),
                        _ => {}
                    }
                }
            }
            Op::Shl => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= w as u128 {
                        return self.k(0, w);
                    }
                    let lo = self.extract(a, 0, w - k as u32);
                    let z = self.k(0, k as u32);
                    return self.concat(lo, z);
                }
            }
            Op::LShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= w as u128 {
                        return self.k(0, w);
                    }
                    let hi = self.extract(a, k as u32, w - k as u32);
                    return self.zext(hi, w);
                }
            }
            Op::AShr => {
                if cb == Some(0) {
                    return a;
                }
            }
            Op::Eq => {
                if a == b {
                    return self.k(1, 1);
                }
                if w == 1 {
                    if cb == Some(1) {
                        return a;
                    }
                    if cb == Some(0) {
                        return self.not1(a);
                    }
                }
                if let Some(k) = cb {
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k != mask(k, iw) {
                                return self.k(0, 1);
                            }
                            let c = self.k(k, iw);
                            return self.op2(Op::Eq, na.a, c);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            if mask(sext128(mask(k, iw), iw) as u128, w) != k {
                                return self.k(0, 1);
                            }
                            let c = self.k(k, iw);
                            return self.op2(Op::Eq, na.a, c);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let hw = self.w(na.a);
                            let kl = self.k(k, lw);
                            let kh = self.k(k >> lw, hw);
                            let x = self.op2(Op::Eq, na.a, kh);
                            if self.cst(x) == Some(0) {
                                return x;
                            }
                            let y = self.op2(Op::Eq, na.b, kl);
                            return self.op2(Op::And, x, y);
                        }
                        Op::Or if k == 0 => {
                            let z = self.k(0, w);
                            let x = self.op2(Op::Eq, na.a, z);
                            let y = self.op2(Op::Eq, na.b, z);
                            return self.op2(Op::And, x, y);
                        }
                        Op::Xor => {
                            if let Some(k1) = self.cst(na.b) {
                                let c = self.k(k ^ k1, w);
                                return self.op2(Op::Eq, na.a, c);
                            }
                            if k == 0 {
                                return self.op2(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Add => {
                            if let Some(k1) = self.cst(na.b) {
                                let c = self.k(k.wrapping_sub(k1), w);
                                return self.op2(Op::Eq, na.a, c);
                            }
                        }
                        Op::Ite => {
                            let (t, e) = (self.cst(na.b), self.cst(na.c));
                            if t.is_some() || e.is_some() {
                                let kk = self.k(k, w);
                                let x = self.op2(Op::Eq, na.b, kk);
                                let y = self.op2(Op::Eq, na.c, kk);
                                return self.ite(na.a, x, y);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let nb = self.n[b as usize];
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let x = self.op2(Op::Eq, na.a, nb.a);
                        let y = self.op2(Op::Eq, na.b, nb.b);
                        return self.op2(Op::And, x, y);
                    }
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.op2(Op::Eq, na.a, nb.a);
                    }
                }
            }
            Op::Ult => {
                if a == b || cb == Some(0) || ca == Some(ones) {
                    return self.k(0, 1);
                }
                if cb == Some(1) {
                    let z = self.k(0, w);
                    return self.op2(Op::Eq, a, z);
                }
                if w == 1 {
                    let n = self.not1(a);
                    return self.op2(Op::And, n, b);
                }
                if let Some(r) = self.cmp_zext(Op::Ult, a, b) {
                    return r;
                }
                if ca == Some(0) {
                    let z = self.k(0, w);
                    let e = self.op2(Op::Eq, b, z);
                    return self.not1(e);
                }
            }
            Op::Ule => {
                if a == b || ca == Some(0) || cb == Some(ones) {
                    return self.k(1, 1);
                }
                if cb == Some(0) {
                    return self.op2(Op::Eq, a, b);
                }
                if w == 1 {
                    let n = self.not1(a);
                    return self.op2(Op::Or, n, b);
                }
                if let Some(k) = cb {
                    // x <= k  ->  x < k+1
                    let c = self.k(k + 1, w);
                    return self.op2(Op::Ult, a, c);
                }
                if let Some(r) = self.cmp_zext(Op::Ule, a, b) {
                    return r;
                }
            }
            Op::Slt => {
                if a == b {
                    return self.k(0, 1);
                }
            }
            Op::Sle => {
                if a == b {
                    return self.k(1, 1);
                }
            }
            _ => {}
        }
        self.bin(op, rw, a, b)
    }
    /// Unsigned comparison of a zero-extended value with a constant (or another one).
    fn cmp_zext(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.op == Op::ZExt {
            let iw = self.w(na.a);
            if let Some(k) = self.cst(b) {
                let max = mask(u128::MAX, iw);
                if k > max {
                    return Some(self.k(1, 1));
                }
                let c = self.k(k, iw);
                return Some(self.op2(op, na.a, c));
            }
            if nb.op == Op::ZExt && self.w(nb.a) == iw {
                return Some(self.op2(op, na.a, nb.a));
            }
        } else if nb.op == Op::ZExt {
            let iw = self.w(nb.a);
            if let Some(k) = self.cst(a) {
                let max = mask(u128::MAX, iw);
                if k > max {
                    return Some(self.k(0, 1));
                }
                let c = self.k(k, iw);
                return Some(self.op2(op, c, nb.a));
            }
        }
        None
    }
    fn or_concat(&mut self, hi: E, lo: E) -> Option<E> {
        let (nh, nl) = (self.n[hi as usize], self.n[lo as usize]);
        // hi = concat(x, 0_n); lo = zext(y) with width(y) <= n
        if nh.op == Op::Concat && self.cst(nh.b) == Some(0) {
            let n = self.w(nh.b);
            if nl.op == Op::ZExt && self.w(nl.a) <= n {
                let y = self.zext(nl.a, n);
                return Some(self.concat(nh.a, y));
            }
            if let Some(k) = self.cst(lo) {
                if k == mask(k, n) {
                    let y = self.k(k, n);
                    return Some(self.concat(nh.a, y));
                }
            }
        }
        None
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.n[a as usize];
        if n.w == w {
            return a;
        }
        if let Some(k) = self.cst(a) {
            return self.k(k, w);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.n[a as usize];
        if n.w == w {
            return a;
        }
        if let Some(k) = self.cst(a) {
            let v = sext128(k, n.w) as u128;
            return self.k(v, w);
        }
        if n.op == Op::ZExt && self.w(n.a) < n.w {
            return self.zext(n.a, w);
        }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.n[a as usize];
        debug_assert!(lo + w <= n.w);
        if lo == 0 && w == n.w {
            return a;
        }
        match n.op {
            Op::Const => return self.k(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, n.k as u32 + lo, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.k(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.op2(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.op2(n.op, x, y);
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (nh, nl) = (self.n[hi as usize], self.n[lo as usize]);
        let w = nh.w + nl.w;
        if nh.w == 0 {
            return lo;
        }
        if nl.w == 0 {
            return hi;
        }
        if let (Some(x), Some(y)) = (self.cst(hi), self.cst(lo)) {
            return self.k((x << nl.w) | y, w);
        }
        if self.cst(hi) == Some(0) {
            return self.zext(lo, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u128 {
            return self.extract(nh.a, nl.k as u32, w);
        }
        // concat(extract, concat(extract, rest))
        if nl.op == Op::Concat {
            let m = self.n[nl.a as usize];
            if nh.op == Op::Extract && m.op == Op::Extract && m.a == nh.a && nh.k == m.k + m.w as u128 {
                let h = self.extract(nh.a, m.k as u32, nh.w + m.w);
                return self.concat(h, nl.b);
            }
            if let (Some(x), Some(y)) = (self.cst(hi), self.cst(nl.a)) {
                let h = self.k((x << m.w) | y, nh.w + m.w);
                return self.concat(h, nl.b);
            }
        }
        self.mk(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: E, t: E, e: E) -> E {
        if let Some(k) = self.cst(c) {
            return if k != 0 { t } else { e };
        }
        if t == e {
            return t;
        }
        if let Some(n) = self.is_not(c) {
            return self.ite(n, e, t);
        }
        let w = self.w(t);
        if w == 1 {
            let (ct, ce) = (self.cst(t), self.cst(e));
            if ct == Some(1) && ce == Some(0) {
                return c;
            }
            if ct == Some(0) && ce == Some(1) {
                return self.not1(c);
            }
            if ce == Some(0) {
                return self.op2(Op::And, c, t);
            }
            if ct == Some(1) {
                return self.op2(Op::Or, c, e);
            }
            if ct == Some(0) {
                let n = self.not1(c);
                return self.op2(Op::And, n, e);
            }
            if ce == Some(1) {
                let n = self.not1(c);
                return self.op2(Op::Or, n, t);
            }
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: t, c: e, k: 0 })
    }
    /// Rebuilds a node with new children.
    pub fn rebuild(&mut self, n: &Node, a: E, b: E, c: E) -> E {
        match n.op {
            Op::Const | Op::Var => unreachable!(),
            Op::Extract => self.extract(a, n.k as u32, n.w),
            Op::ZExt => self.zext(a, n.w),
            Op::SExt => self.sext(a, n.w),
            Op::Concat => self.concat(a, b),
            Op::Ite => self.ite(a, b, c),
            op => self.op2(op, a, b),
        }
    }
}
