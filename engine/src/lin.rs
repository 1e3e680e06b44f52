//! Linear views of terms: the signed value of a term as an exact integer sum,
//! with an interval. Divisions by constants are rewritten with it, so that the
//! solver does not have to invert multiplications bit by bit.
use crate::expr::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Lin {
    /// term (its signed value) and coefficient
    pub t: BTreeMap<E, i128>,
    pub c: i128,
    pub lo: i128,
    pub hi: i128,
}
fn range(w: u32) -> Option<(i128, i128)> { if w > 100 { None } else { Some((-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)) } }
fn fits(l: &Lin, w: u32) -> bool { w >= 128 || (l.lo >= -(1i128 << (w - 1)) && l.hi < (1i128 << (w - 1))) }

impl Arena {
    fn atom(&self, e: E, lo: i128, hi: i128) -> Lin { Lin { t: BTreeMap::from([(e, 1)]), c: 0, lo, hi } }
    fn plain(&self, e: E) -> Option<Lin> { let (lo, hi) = range(self.w(e))?; Some(self.atom(e, lo, hi)) }
    fn add_lin(a: &Lin, b: &Lin, k: i128) -> Option<Lin> {
        let mut r = a.clone();
        for (e, c) in &b.t {
            let x = r.t.entry(*e).or_insert(0);
            *x = x.checked_add(c.checked_mul(k)?)?;
        }
        r.t.retain(|_, c| *c != 0);
        r.c = r.c.checked_add(b.c.checked_mul(k)?)?;
        let (p, q) = (b.lo.checked_mul(k)?, b.hi.checked_mul(k)?);
        r.lo = r.lo.checked_add(p.min(q))?;
        r.hi = r.hi.checked_add(p.max(q))?;
        if r.t.is_empty() { r.lo = r.c; r.hi = r.c; }
        Some(r)
    }
    pub fn lin(&mut self, e: E) -> Option<Rc<Lin>> {
        if let Some(l) = self.lins.get(&e) { return l.clone(); }
        let r = self.lin0(e, 0).map(Rc::new);
        self.lins.insert(e, r.clone());
        r
    }
    fn lin0(&mut self, e: E, depth: u32) -> Option<Lin> {
        if depth > 24 { return self.plain(e); }
        let w = self.w(e);
        let sub = |s: &mut Self, x: E| -> Option<Lin> {
            if let Some(l) = s.lins.get(&x) { return l.as_deref().cloned(); }
            let r = s.lin0(x, depth + 1);
            s.lins.insert(x, r.clone().map(Rc::new));
            r
        };
        let r = match self.k(e) {
            K::Const(c) => { let v = sext(c, w); Some(Lin { t: BTreeMap::new(), c: v, lo: v, hi: v }) }
            K::ZExt(x) => {
                let xw = self.w(x);
                match sub(self, x) {
                    Some(l) if l.lo >= 0 && !l.t.contains_key(&x) => Some(l),
                    _ if xw < 100 => Some(self.atom(e, 0, (1i128 << xw) - 1)),
                    _ => None,
                }
            }
            K::SExt(x) => sub(self, x),
            K::Bin(B::Add, x, y) => { let (p, q) = (sub(self, x)?, sub(self, y)?); Self::add_lin(&p, &q, 1) }
            K::Bin(B::Sub, x, y) => { let (p, q) = (sub(self, x)?, sub(self, y)?); Self::add_lin(&p, &q, -1) }
            K::Bin(B::Mul, x, y) => match self.cst(y) {
                Some(c) => { let p = sub(self, x)?; Self::add_lin(&Lin { t: BTreeMap::new(), c: 0, lo: 0, hi: 0 }, &p, sext(c, w)) }
                None => None,
            },
            K::Concat(h, l) => match self.cst(l) {
                Some(c) => {
                    let lw = self.w(l);
                    if lw > 60 { None } else {
                        let p = sub(self, h)?;
                        let z = Lin { t: BTreeMap::new(), c: c as i128, lo: c as i128, hi: c as i128 };
                        Self::add_lin(&z, &p, 1i128 << lw)
                    }
                }
                None => None,
            },
            K::Extract(x, 0) => sub(self, x),
            K::Ite(_, x, y) => match (sub(self, x), sub(self, y)) {
                (Some(p), Some(q)) if fits(&p, w) && fits(&q, w) => Some(self.atom(e, p.lo.min(q.lo), p.hi.max(q.hi))),
                _ => None,
            },
            _ => None,
        };
        match r { Some(l) if fits(&l, w) => Some(l), _ => self.plain(e) }
    }
    fn build(&mut self, t: &[(E, i128)], c: i128, w: u32) -> E {
        let mut r: Option<E> = None;
        for (e, k) in t {
            let ew = self.w(*e);
            let x = if ew > w { self.extract(*e, 0, w) } else { self.sext(*e, w) };
            let k = self.c(*k as u128, w);
            let x = self.bin(B::Mul, x, k);
            r = Some(match r { Some(y) => self.bin(B::Add, y, x), None => x });
        }
        let c = self.c(c as u128, w);
        match r { Some(x) => self.bin(B::Add, x, c), None => c }
    }
    /// floor quotient and remainder of a by a positive constant
    fn divide(&mut self, a: E, d: i128) -> Option<(Rc<Lin>, E, E)> {
        let w = self.w(a);
        let l = self.lin(a)?;
        let mut q = vec![];
        let mut r = vec![];
        let (mut lo, mut hi) = (l.c, l.c);
        for (e, k) in &l.t {
            if k % d == 0 { q.push((*e, k / d)); continue; }
            r.push((*e, *k));
            let m = if *e == a { return None } else { self.lin(*e)? };
            let (p, s) = (m.lo.checked_mul(*k)?, m.hi.checked_mul(*k)?);
            lo = lo.checked_add(p.min(s))?;
            hi = hi.checked_add(p.max(s))?;
        }
        let k = lo.div_euclid(d);
        if hi.div_euclid(d) != k { return None; }
        let qe = self.build(&q, k, w);
        let re = self.build(&r, l.c - k * d, w);
        Some((l, qe, re))
    }
    pub fn div_const(&mut self, op: B, a: E, d: u128) -> Option<E> {
        let w = self.w(a);
        let d = sext(d, w);
        if d <= 1 || !matches!(self.k(a), K::Bin(B::Add | B::Mul | B::Sub, ..) | K::SExt(_) | K::ZExt(_) | K::Ite(..) | K::Concat(..)) { return None; }
        let (l, q, r) = self.divide(a, d)?;
        match op {
            B::UDiv if l.lo >= 0 => Some(q),
            B::URem if l.lo >= 0 => Some(r),
            B::SDiv | B::SRem => {
                if l.lo >= 0 { return Some(if op == B::SDiv { q } else { r }); }
                let z = self.c(0, w);
                let neg = self.slt(a, z);
                let rz = self.eq(r, z);
                let nz = self.not(rz);
                let adj = self.bin(B::And, neg, nz);
                if op == B::SDiv {
                    let one = self.c(1, w);
                    let q1 = self.bin(B::Add, q, one);
                    Some(self.ite(adj, q1, q))
                } else {
                    let dd = self.c((-d) as u128, w);
                    let r1 = self.bin(B::Add, r, dd);
                    Some(self.ite(adj, r1, r))
                }
            }
            _ => None,
        }
    }
    fn arith(&self, e: E) -> bool { matches!(self.k(e), K::Bin(B::Add | B::Mul | B::Sub, ..) | K::SExt(_) | K::ZExt(_) | K::Extract(..) | K::Ite(..)) }
    /// a - b, where that is known to be a constant or to have a sign
    pub fn lin_cmp(&mut self, a: E, b: E) -> Option<(i128, i128)> {
        if self.w(a) < 32 || !(self.arith(a) || self.arith(b)) { return None; }
        let (p, q) = (self.lin(a)?, self.lin(b)?);
        let d = Self::add_lin(&p, &q, -1)?;
        if d.t.is_empty() { return Some((d.c, d.c)); }
        // the interval of the difference, from its own terms
        let (mut lo, mut hi) = (d.c, d.c);
        for (e, k) in &d.t {
            let m = if *e == a || *e == b { let (x, y) = if *e == a { (p.lo, p.hi) } else { (q.lo, q.hi) }; (x, y) } else { let m = self.lin(*e)?; (m.lo, m.hi) };
            let (x, y) = (m.0.checked_mul(*k)?, m.1.checked_mul(*k)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
        }
        Some((lo, hi))
    }
    /// both known not to be negative
    pub fn both_nonneg(&mut self, a: E, b: E) -> bool {
        matches!((self.lin(a), self.lin(b)), (Some(p), Some(q)) if p.lo >= 0 && q.lo >= 0)
    }
}

#[cfg(test)]
mod test {
    use super::*;
    /// Rewritten terms evaluate like the operators they stand for.
    #[test]
    fn rewrites() {
        let mut s = 0x1234567u64;
        let mut rnd = move || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s };
        for round in 0..20000 {
            let mut ar = Arena::new();
            let ws = [8u32, 16, 30, 32, 64, 9];
            let mut es: Vec<(E, u128)> = vec![];
            let mut model = vec![];
            for k in 0..3 {
                let w = ws[(rnd() % 6) as usize];
                let e = ar.var(format!("v{k}"), w);
                let x = match rnd() % 4 { 0 => 0, 1 => mask(w), 2 => 1u128 << (w - 1), _ => rnd() as u128 } & mask(w);
                model.push(x);
                es.push((e, x));
            }
            for _ in 0..14 {
                let (a, x) = es[(rnd() % es.len() as u64) as usize];
                let (b, y) = es[(rnd() % es.len() as u64) as usize];
                let w = ar.w(a);
                let c = [3u128, 10, 1000, 1_000_000_000, 24, 0x7fffffff, rnd() as u128 % 5000, mask(w)][(rnd() % 8) as usize] & mask(w);
                let n = match rnd() % 12 {
                    0 if w < 64 => (ar.sext(a, 64), sext(x, w) as u128 & mask(64)),
                    1 if w < 64 => (ar.zext(a, 64), x),
                    2 if w < 128 => (ar.sext(a, 128), sext(x, w) as u128),
                    3 if w > 8 => { let k = [8, w / 2, w - 1][(rnd() % 3) as usize]; (ar.trunc(a, k), x & mask(k)) }
                    4 | 5 => { let e = ar.c(c, w); (ar.bin(B::Mul, a, e), binop(B::Mul, x, c, w)) }
                    6 | 7 if ar.w(b) == w => (ar.bin(B::Add, a, b), binop(B::Add, x, y, w)),
                    8 if ar.w(b) == w => (ar.bin(B::Sub, a, b), binop(B::Sub, x, y, w)),
                    9 => { let e = ar.c(c, w); (ar.bin(B::Add, a, e), binop(B::Add, x, c, w)) }
                    _ => {
                        let op = [B::UDiv, B::SDiv, B::URem, B::SRem][(rnd() % 4) as usize];
                        if c == 0 { continue; }
                        let e = ar.c(c, w);
                        (ar.bin(op, a, e), binop(op, x, c, w))
                    }
                };
                assert_eq!(ar.eval(n.0, &model), n.1, "round {round}");
                es.push(n);
            }
            for _ in 0..10 {
                let (a, x) = es[(rnd() % es.len() as u64) as usize];
                let (b, y) = es[(rnd() % es.len() as u64) as usize];
                let w = ar.w(a);
                if ar.w(b) != w { continue; }
                for (e, v) in [(ar.eq(a, b), x == y), (ar.ult(a, b), x < y), (ar.slt(a, b), sext(x, w) < sext(y, w))] { assert_eq!(ar.eval(e, &model), v as u128, "round {round}"); }
            }
        }
    }
}
