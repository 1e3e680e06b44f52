//! Hash-consed bit-vector terms, with a rewriting constructor per operator.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(u128),
    Var(u32),
    Bin(B, E, E),
    /// hi, lo
    Concat(E, E),
    /// value, low bit
    Extract(E, u32),
    ZExt(E),
    SExt(E),
    Ite(E, E, E),
    Eq(E, E),
    Ult(E, E),
    Ule(E, E),
    Slt(E, E),
    Sle(E, E),
}

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub k: K,
    pub w: u32,
}

pub struct VarInfo {
    pub name: String,
    pub w: u32,
}

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<(K, u32), E>,
    pub vars: Vec<VarInfo>,
    varsets: Vec<Option<Rc<[u32]>>>,
    /// how deep choices (ite) are nested in a term
    choices: Vec<u8>,
    pub lins: HashMap<E, Option<Rc<crate::lin::Lin>>>,
    // evaluation memo
    stamp: Vec<u32>,
    memo: Vec<u128>,
    gen_: u32,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { !0 } else { (1u128 << w) - 1 }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

pub fn binop(op: B, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    (match op {
        B::Add => a.wrapping_add(b),
        B::Sub => a.wrapping_sub(b),
        B::Mul => a.wrapping_mul(b),
        B::UDiv => if b == 0 { m } else { a / b },
        B::URem => if b == 0 { a } else { a % b },
        B::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 }
        }
        B::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { a } else { x.wrapping_rem(y) as u128 }
        }
        B::Shl => if b >= w as u128 { 0 } else { a << b },
        B::LShr => if b >= w as u128 { 0 } else { a >> b },
        B::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sext(a, w) >> s.min(127)) as u128
        }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
    }) & m
}

impl Arena {
    pub fn new() -> Self { Self::default() }
    pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w }
    pub fn k(&self, e: E) -> K { self.nodes[e as usize].k }
    pub fn cst(&self, e: E) -> Option<u128> {
        match self.k(e) { K::Const(c) => Some(c), _ => None }
    }
    fn mk(&mut self, k: K, w: u32) -> E {
        if let Some(&e) = self.map.get(&(k, w)) { return e; }
        let e = self.nodes.len() as E;
        self.nodes.push(Node { k, w });
        self.map.insert((k, w), e);
        let d = |x: E| self.choices[x as usize];
        let n = match k {
            K::Const(_) | K::Var(_) => 0,
            K::Bin(_, a, b) | K::Concat(a, b) | K::Eq(a, b) | K::Ult(a, b) | K::Ule(a, b) | K::Slt(a, b) | K::Sle(a, b) => d(a).max(d(b)),
            K::Extract(a, _) | K::ZExt(a) | K::SExt(a) => d(a),
            K::Ite(c, a, b) => d(c).max(d(a)).max(d(b)).saturating_add(1),
        };
        self.choices.push(n);
        self.varsets.push(None);
        e
    }
    pub fn choices(&self, e: E) -> u8 { self.choices[e as usize] }
    pub fn c(&mut self, v: u128, w: u32) -> E { self.mk(K::Const(v & mask(w)), w) }
    pub fn var(&mut self, name: String, w: u32) -> E {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name, w });
        self.mk(K::Var(id), w)
    }
    pub fn not(&mut self, a: E) -> E {
        debug_assert_eq!(self.w(a), 1);
        match self.k(a) {
            K::Const(c) => self.c(c ^ 1, 1),
            K::Bin(B::Xor, x, y) if self.cst(y) == Some(1) => x,
            K::Ult(x, y) => self.mk(K::Ule(y, x), 1),
            K::Ule(x, y) => self.mk(K::Ult(y, x), 1),
            K::Slt(x, y) => self.mk(K::Sle(y, x), 1),
            K::Sle(x, y) => self.mk(K::Slt(y, x), 1),
            _ => { let one = self.c(1, 1); self.mk(K::Bin(B::Xor, a, one), 1) }
        }
    }
    pub fn bin(&mut self, op: B, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.c(binop(op, x, y, w), w); }
        let m = mask(w);
        // commutative: constant to the right
        let (a, b, ca, cb) = match op {
            B::Add | B::Mul | B::And | B::Or | B::Xor if ca.is_some() => (b, a, cb, ca),
            _ => (a, b, ca, cb),
        };
        let _ = ca;
        match op {
            B::Add => {
                if cb == Some(0) { return a; }
                if let (K::Bin(B::Add, x, y), Some(c2)) = (self.k(a), cb)
                    && let Some(c1) = self.cst(y) {
                        let c = self.c(c1.wrapping_add(c2), w);
                        return self.bin(B::Add, x, c);
                    }
            }
            B::Sub => {
                if a == b { return self.c(0, w); }
                if let Some(c) = cb {
                    let c = self.c(0u128.wrapping_sub(c), w);
                    return self.bin(B::Add, a, c);
                }
            }
            B::Mul => {
                if cb == Some(0) { return b; }
                if cb == Some(1) { return a; }
            }
            B::And => {
                if cb == Some(0) { return b; }
                if cb == Some(m) || a == b { return a; }
                // and with a low mask is zext(extract)
                if let Some(c) = cb
                    && (c & (c + 1)) == 0 {
                        let n = c.count_ones();
                        let x = self.extract(a, 0, n);
                        return self.zext(x, w);
                    }
            }
            B::Or => {
                if cb == Some(0) || a == b { return a; }
                if cb == Some(m) { return b; }
                // disjoint zext/shl: or(zext lo, shl(x, k)) -> leave
            }
            B::Xor => {
                if cb == Some(0) { return a; }
                if a == b { return self.c(0, w); }
                if w == 1 && cb == Some(1) { return self.not(a); }
            }
            B::Shl => {
                if cb == Some(0) { return a; }
                if let Some(c) = cb {
                    if c >= w as u128 { return self.c(0, w); }
                    let lo = self.c(0, c as u32);
                    let hi = self.extract(a, 0, w - c as u32);
                    return self.concat(hi, lo);
                }
            }
            B::LShr => {
                if cb == Some(0) { return a; }
                if let Some(c) = cb {
                    if c >= w as u128 { return self.c(0, w); }
                    let x = self.extract(a, c as u32, w - c as u32);
                    return self.zext(x, w);
                }
            }
            B::AShr => {
                if cb == Some(0) { return a; }
                if let Some(c) = cb
                    && c < w as u128 {
                        let x = self.extract(a, c as u32, w - c as u32);
                        return self.sext(x, w);
                    }
            }
            B::UDiv | B::SDiv if cb == Some(1) => return a,
            B::URem | B::SRem if cb == Some(1) => return self.c(0, w),
            B::UDiv | B::SDiv | B::URem | B::SRem => if let Some(c) = cb && let Some(r) = self.div_const(op, a, c) { return r; },
        }
        // w==1 ite-free booleans
        self.mk(K::Bin(op, a, b), w)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        if lo == 0 && w == aw { return a; }
        assert!(w > 0 && lo + w <= aw, "extract {lo}+{w} of {aw}");
        match self.k(a) {
            K::Const(c) => self.c(c >> lo, w),
            K::Extract(x, l2) => self.extract(x, lo + l2, w),
            K::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw { self.extract(h, lo - lw, w) }
                else if lo + w <= lw { self.extract(l, lo, w) }
                else {
                    let x = self.extract(l, lo, lw - lo);
                    let y = self.extract(h, 0, lo + w - lw);
                    self.concat(y, x)
                }
            }
            K::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw { self.c(0, w) }
                else if lo + w <= xw { self.extract(x, lo, w) }
                else { let y = self.extract(x, lo, xw - lo); self.zext(y, w) }
            }
            K::SExt(x) => {
                let xw = self.w(x);
                if lo + w <= xw { self.extract(x, lo, w) }
                else if lo < xw { let y = self.extract(x, lo, xw - lo); self.sext(y, w) }
                else { let y = self.extract(x, xw - 1, 1); self.sext(y, w) }
            }
            K::Ite(c, x, y) if self.cst(x).is_some() || self.cst(y).is_some() => {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                self.ite(c, x, y)
            }
            K::Bin(op @ (B::And | B::Or | B::Xor), x, y) => {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                self.bin(op, x, y)
            }
            K::Bin(op @ (B::Add | B::Sub | B::Mul), x, y) if lo == 0 && (w >= 16 || aw < 32) => {
                let x = self.extract(x, 0, w);
                let y = self.extract(y, 0, w);
                self.bin(op, x, y)
            }
            _ => self.mk(K::Extract(a, lo), w),
        }
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.cst(hi), self.cst(lo))
            && w <= 128 { return self.c((x << lw) | y, w); }
        if self.cst(hi) == Some(0) { return self.zext(lo, w); }
        if let (K::Extract(x, l1), K::Extract(y, l2)) = (self.k(hi), self.k(lo))
            && x == y && l2 + lw == l1 { return self.extract(x, l2, w); }
        // concat(extract(x, lw..), x truncated) where lo is all of a narrower zext etc.
        if let K::Extract(x, l1) = self.k(hi)
            && x == lo && l1 == lw { return self.mk(K::Concat(hi, lo), w); }
        // concat(h, concat(m, l)) with h,m adjacent
        if let K::Concat(m, l) = self.k(lo)
            && let (K::Extract(x, l1), K::Extract(y, l2)) = (self.k(hi), self.k(m))
                && x == y && l2 + self.w(m) == l1 {
                    let mw = self.w(m);
                    let hm = self.extract(x, l2, hw + mw);
                    return self.concat(hm, l);
                }
        match self.k(hi) {
            K::ZExt(h) => { let x = self.concat(h, lo); return self.zext(x, w); }
            // copies of the sign bit in front of a number
            K::SExt(t) if self.w(t) == 1 && self.extract(lo, lw - 1, 1) == t => return self.sext(lo, w),
            K::SExt(h) => if let (K::Extract(x, l1), K::Extract(y, l2)) = (self.k(h), self.k(lo)) {
                if x == y && l2 + lw == l1 { let x = self.concat(h, lo); return self.sext(x, w); }
            },
            K::Concat(h, m) => if let (K::Extract(x, l1), K::Extract(y, l2)) = (self.k(m), self.k(lo)) {
                if x == y && l2 + lw == l1 { let x = self.concat(m, lo); return self.concat(h, x); }
            },
            K::Bin(o1 @ (B::And | B::Or | B::Xor), x, c1) => if let K::Bin(o2, y, c2) = self.k(lo) {
                if o1 == o2 && self.cst(c1).is_some() && self.cst(c2).is_some() && w <= 128 {
                    let c = self.concat(c1, c2);
                    let x = self.concat(x, y);
                    return self.bin(o1, x, c);
                }
            },
            _ => (),
        }
        if let (K::Ite(c1, a1, b1), K::Ite(c2, a2, b2)) = (self.k(hi), self.k(lo))
            && c1 == c2 {
                let x = self.concat(a1, a2);
                let y = self.concat(b1, b2);
                return self.ite(c1, x, y);
            }
        self.mk(K::Concat(hi, lo), w)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        assert!(aw < w);
        match self.k(a) {
            K::Const(c) => self.c(c, w),
            K::ZExt(x) => self.zext(x, w),
            K::Ite(c, x, y) if self.cst(x).is_some() && self.cst(y).is_some() => {
                let x = self.zext(x, w);
                let y = self.zext(y, w);
                self.ite(c, x, y)
            }
            _ => self.mk(K::ZExt(a), w),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        match self.k(a) {
            K::Const(c) => self.c(sext(c, aw) as u128, w),
            K::ZExt(x) => self.zext(x, w),
            K::SExt(x) => self.sext(x, w),
            K::Ite(c, x, y) if self.cst(x).is_some() && self.cst(y).is_some() => {
                let x = self.sext(x, w);
                let y = self.sext(y, w);
                self.ite(c, x, y)
            }
            _ => self.mk(K::SExt(a), w),
        }
    }
    pub fn trunc(&mut self, a: E, w: u32) -> E { self.extract(a, 0, w) }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(x) = self.cst(c) { return if x == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.cst(a), self.cst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(B::Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(B::And, n, b); }
                (None, Some(0)) => return self.bin(B::And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(B::Or, n, a); }
                _ => {}
            }
        }
        if let K::Bin(B::Xor, x, one) = self.k(c)
            && self.cst(one) == Some(1) { return self.ite(x, b, a); }
        if let K::Ite(c2, x, _) = self.k(a) && c2 == c { return self.ite(c, x, b); }
        if let K::Ite(c2, _, y) = self.k(b) && c2 == c { return self.ite(c, a, y); }
        self.mk(K::Ite(c, a, b), w)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b { return self.c(1, 1); }
        let w = self.w(a);
        assert_eq!(w, self.w(b));
        let (a, b) = if self.cst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(cb) = self.cst(b) {
            if let Some(ca) = self.cst(a) { return self.c((ca == cb) as u128, 1); }
            if w == 1 { return if cb == 1 { a } else { self.not(a) }; }
            match self.k(a) {
                K::ZExt(x) => {
                    let xw = self.w(x);
                    if cb > mask(xw) { return self.c(0, 1); }
                    let c = self.c(cb, xw);
                    return self.eq(x, c);
                }
                K::SExt(x) => {
                    let xw = self.w(x);
                    let t = self.c(cb, xw);
                    if sext(cb & mask(xw), xw) as u128 & mask(w) != cb { return self.c(0, 1); }
                    return self.eq(x, t);
                }
                K::Ite(c, x, y) => {
                    if let Some(cx) = self.cst(x) {
                        let ey = self.eq(y, b);
                        return if cx == cb { self.bin(B::Or, c, ey) }
                        else { let n = self.not(c); self.bin(B::And, n, ey) };
                    }
                    if let Some(cy) = self.cst(y) {
                        let ex = self.eq(x, b);
                        return if cy == cb { let n = self.not(c); self.bin(B::Or, n, ex) }
                        else { self.bin(B::And, c, ex) };
                    }
                }
                K::Bin(B::Add, x, y) => if let Some(cy) = self.cst(y) {
                    let c = self.c(cb.wrapping_sub(cy), w);
                    return self.eq(x, c);
                },
                K::Bin(B::Xor, x, y) => if let Some(cy) = self.cst(y) {
                    let c = self.c(cb ^ cy, w);
                    return self.eq(x, c);
                },
                K::Concat(h, l) => {
                    let lw = self.w(l);
                    let hw = self.w(h);
                    let ch = self.c(cb >> lw, hw);
                    let cl = self.c(cb, lw);
                    let x = self.eq(h, ch);
                    let y = self.eq(l, cl);
                    return self.bin(B::And, x, y);
                }
                _ => {}
            }
        }
        if let Some((lo, hi)) = self.lin_cmp(a, b) {
            if lo == 0 && hi == 0 { return self.c(1, 1); }
            if lo > 0 || hi < 0 { return self.c(0, 1); }
        }
        let (a, b) = if self.cst(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(K::Eq(a, b), 1)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b { return self.c(0, 1); }
        let w = self.w(a);
        match (self.cst(a), self.cst(b)) {
            (Some(x), Some(y)) => return self.c((x < y) as u128, 1),
            (_, Some(0)) => return self.c(0, 1),
            (_, Some(1)) => { let z = self.c(0, w); return self.eq(a, z); }
            (Some(x), _) if x == mask(w) => return self.c(0, 1),
            _ => {}
        }
        if let (K::ZExt(x), Some(y)) = (self.k(a), self.cst(b)) {
            let xw = self.w(x);
            if y > mask(xw) { return self.c(1, 1); }
            let c = self.c(y, xw);
            return self.ult(x, c);
        }
        if let (Some(x), K::ZExt(y)) = (self.cst(a), self.k(b)) {
            let yw = self.w(y);
            if x >= mask(yw) { return self.c(0, 1); }
            let c = self.c(x, yw);
            return self.ult(c, y);
        }
        if let (K::ZExt(x), K::ZExt(y)) = (self.k(a), self.k(b))
            && self.w(x) == self.w(y) { return self.ult(x, y); }
        if let Some(r) = self.ite_push(a, b, |s, x, y| s.ult(x, y)) { return r; }
        if let Some((lo, hi)) = self.lin_cmp(a, b) && self.both_nonneg(a, b) {
            if hi < 0 { return self.c(1, 1); }
            if lo >= 0 { return self.c(0, 1); }
        }
        self.mk(K::Ult(a, b), 1)
    }
    fn ite_push(&mut self, a: E, b: E, f: fn(&mut Self, E, E) -> E) -> Option<E> {
        if let K::Ite(c, x, y) = self.k(a)
            && self.cst(b).is_some() && self.cst(x).is_some() && self.cst(y).is_some() {
                let p = f(self, x, b);
                let q = f(self, y, b);
                return Some(self.ite(c, p, q));
            }
        if let K::Ite(c, x, y) = self.k(b)
            && self.cst(a).is_some() && self.cst(x).is_some() && self.cst(y).is_some() {
                let p = f(self, a, x);
                let q = f(self, a, y);
                return Some(self.ite(c, p, q));
            }
        None
    }
    pub fn ule(&mut self, a: E, b: E) -> E { let x = self.ult(b, a); self.not(x) }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b { return self.c(0, 1); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            return self.c((sext(x, w) < sext(y, w)) as u128, 1);
        }
        if let (K::ZExt(x), Some(y)) = (self.k(a), self.cst(b)) {
            // a >= 0
            if sext(y, w) <= 0 { return self.c(0, 1); }
            let _ = x;
            return self.ult(a, b);
        }
        if let (Some(x), K::ZExt(_)) = (self.cst(a), self.k(b)) {
            if sext(x, w) < 0 { return self.c(1, 1); }
            return self.ult(a, b);
        }
        if let Some(r) = self.ite_push(a, b, |s, x, y| s.slt(x, y)) { return r; }
        if let Some((lo, hi)) = self.lin_cmp(a, b) {
            if hi < 0 { return self.c(1, 1); }
            if lo >= 0 { return self.c(0, 1); }
        }
        self.mk(K::Slt(a, b), 1)
    }
    pub fn sle(&mut self, a: E, b: E) -> E { let x = self.slt(b, a); self.not(x) }

    pub fn kids(k: K) -> ([E; 3], usize) {
        match k {
            K::Const(_) | K::Var(_) => ([0; 3], 0),
            K::Extract(a, _) | K::ZExt(a) | K::SExt(a) => ([a, 0, 0], 1),
            K::Bin(_, a, b) | K::Concat(a, b) | K::Eq(a, b) | K::Ult(a, b) | K::Ule(a, b) | K::Slt(a, b) | K::Sle(a, b) => ([a, b, 0], 2),
            K::Ite(a, b, c) => ([a, b, c], 3),
        }
    }
    /// Sorted ids of the variables a term mentions.
    pub fn vars_of(&mut self, e: E) -> Rc<[u32]> {
        if let Some(v) = &self.varsets[e as usize] { return v.clone(); }
        let mut stack = vec![(e, false)];
        while let Some((x, ready)) = stack.pop() {
            if self.varsets[x as usize].is_some() { continue; }
            let k = self.k(x);
            let (ks, n) = Self::kids(k);
            if !ready && n > 0 {
                stack.push((x, true));
                for &y in &ks[..n] { if self.varsets[y as usize].is_none() { stack.push((y, false)); } }
                continue;
            }
            let v: Rc<[u32]> = match k {
                K::Var(id) => Rc::from([id].as_slice()),
                _ => {
                    let mut v: Vec<u32> = vec![];
                    for &y in &ks[..n] { v.extend(self.varsets[y as usize].as_ref().unwrap().iter()); }
                    v.sort_unstable();
                    v.dedup();
                    if n > 0 && v.len() == self.varsets[ks[0] as usize].as_ref().unwrap().len() {
                        self.varsets[ks[0] as usize].clone().unwrap()
                    } else { Rc::from(v) }
                }
            };
            self.varsets[x as usize] = Some(v);
        }
        self.varsets[e as usize].clone().unwrap()
    }
    /// Value of a term under an assignment (missing variables are 0).
    pub fn new_eval(&mut self) {
        self.gen_ += 1;
        self.stamp.resize(self.nodes.len(), 0);
        self.memo.resize(self.nodes.len(), 0);
    }
    pub fn eval(&mut self, e: E, model: &[u128]) -> u128 {
        if let K::Const(c) = self.k(e) { return c; }
        self.new_eval();
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            let xi = x as usize;
            if self.stamp[xi] == self.gen_ { stack.pop(); continue; }
            let n = self.nodes[xi];
            let (ks, c) = Self::kids(n.k);
            let mut wait = false;
            if let K::Ite(c, a, b) = n.k {
                if self.stamp[c as usize] != self.gen_ { stack.push(c); continue; }
                let t = if self.memo[c as usize] == 1 { a } else { b };
                if self.stamp[t as usize] != self.gen_ { stack.push(t); continue; }
                self.memo[xi] = self.memo[t as usize];
                self.stamp[xi] = self.gen_;
                stack.pop();
                continue;
            }
            for &y in &ks[..c] {
                if self.stamp[y as usize] != self.gen_ { stack.push(y); wait = true; }
            }
            if wait { continue; }
            let g = |y: E| self.memo[y as usize];
            let kw = |y: E| self.nodes[y as usize].w;
            let v = match n.k {
                K::Const(c) => c,
                K::Var(id) => model.get(id as usize).copied().unwrap_or(0) & mask(n.w),
                K::Bin(op, a, b) => binop(op, g(a), g(b), n.w),
                K::Concat(h, l) => (g(h) << kw(l)) | g(l),
                K::Extract(a, lo) => (g(a) >> lo) & mask(n.w),
                K::ZExt(a) => g(a),
                K::SExt(a) => sext(g(a), kw(a)) as u128 & mask(n.w),
                K::Ite(..) => unreachable!(),
                K::Eq(a, b) => (g(a) == g(b)) as u128,
                K::Ult(a, b) => (g(a) < g(b)) as u128,
                K::Ule(a, b) => (g(a) <= g(b)) as u128,
                K::Slt(a, b) => (sext(g(a), kw(a)) < sext(g(b), kw(b))) as u128,
                K::Sle(a, b) => (sext(g(a), kw(a)) <= sext(g(b), kw(b))) as u128,
            };
            self.memo[xi] = v;
            self.stamp[xi] = self.gen_;
            stack.pop();
        }
        self.memo[e as usize]
    }
}
