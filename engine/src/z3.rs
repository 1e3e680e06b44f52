//! Path-condition queries to Z3 (C API), over independent slices, with a cache.
use crate::expr::{Arena, B, E, K};
use std::collections::HashMap;
use std::ffi::{CStr, CString, c_char, c_int, c_uint, c_void};

type P = *mut c_void;
unsafe extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, complete: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(_c: P, code: c_int) {
    eprintln!("symx: z3 error {code}");
    std::process::exit(3);
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub enum Ans {
    Sat(Vec<(u32, u128)>),
    Unsat,
}

pub struct Solver {
    cx: P,
    s: P,
    bv: HashMap<E, P>,
    bo: HashMap<E, P>,
    cache: HashMap<Vec<E>, Option<Vec<(u32, u128)>>>,
    pub queries: u64,
    pub cached: u64,
    pub nanos: u64,
    pub sat: u64,
    pub unsat: u64,
    pub slowest: u64,
}

impl Solver {
    pub fn new(rlimit: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let cx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(cx, Some(on_error));
            let l = CString::new("QF_BV").unwrap();
            let l = Z3_mk_string_symbol(cx, l.as_ptr());
            let s = Z3_mk_solver_for_logic(cx, l);
            Z3_solver_inc_ref(cx, s);
            let p = Z3_mk_params(cx);
            Z3_params_inc_ref(cx, p);
            let t = CString::new("rlimit").unwrap();
            Z3_params_set_uint(cx, p, Z3_mk_string_symbol(cx, t.as_ptr()), rlimit);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(cx, p, Z3_mk_string_symbol(cx, t.as_ptr()), 30_000);
            Z3_solver_set_params(cx, s, p);
            Solver { cx, s, bv: HashMap::new(), bo: HashMap::new(), cache: HashMap::new(), queries: 0, cached: 0, nanos: 0, sat: 0, unsat: 0, slowest: 0 }
        }
    }
    fn keep(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.cx, a) };
        a
    }
    fn sort(&self, w: u32) -> P { unsafe { Z3_mk_bv_sort(self.cx, w) } }

    fn bool_of(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.bo.get(&e) { return p; }
        let c = self.cx;
        let p = unsafe {
            match ar.k(e) {
                K::Eq(a, b) if ar.w(a) == 1 => { let (x, y) = (self.bool_of(ar, a), self.bool_of(ar, b)); Z3_mk_eq(c, x, y) }
                K::Eq(a, b) => { let (x, y) = (self.bv_of(ar, a), self.bv_of(ar, b)); Z3_mk_eq(c, x, y) }
                K::Ult(a, b) => { let (x, y) = (self.bv_of(ar, a), self.bv_of(ar, b)); Z3_mk_bvult(c, x, y) }
                K::Ule(a, b) => { let (x, y) = (self.bv_of(ar, a), self.bv_of(ar, b)); Z3_mk_bvule(c, x, y) }
                K::Slt(a, b) => { let (x, y) = (self.bv_of(ar, a), self.bv_of(ar, b)); Z3_mk_bvslt(c, x, y) }
                K::Sle(a, b) => { let (x, y) = (self.bv_of(ar, a), self.bv_of(ar, b)); Z3_mk_bvsle(c, x, y) }
                K::Bin(B::And, a, b) => { let v = [self.bool_of(ar, a), self.bool_of(ar, b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                K::Bin(B::Or, a, b) => { let v = [self.bool_of(ar, a), self.bool_of(ar, b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                K::Bin(B::Xor, a, b) if ar.cst(b) == Some(1) => { let x = self.bool_of(ar, a); Z3_mk_not(c, x) }
                K::Bin(B::Xor, a, b) => { let (x, y) = (self.bool_of(ar, a), self.bool_of(ar, b)); Z3_mk_xor(c, x, y) }
                K::Ite(i, a, b) => { let (i, x, y) = (self.bool_of(ar, i), self.bool_of(ar, a), self.bool_of(ar, b)); Z3_mk_ite(c, i, x, y) }
                _ => {
                    let x = self.bv_of(ar, e);
                    let one = CString::new("1").unwrap();
                    let one = Z3_mk_numeral(c, one.as_ptr(), self.sort(1));
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        self.keep(p);
        self.bo.insert(e, p);
        p
    }
    fn bv_of(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) { return p; }
        let c = self.cx;
        let n = ar.nodes[e as usize];
        let p = unsafe {
            match n.k {
                K::Const(v) => {
                    let s = CString::new(v.to_string()).unwrap();
                    Z3_mk_numeral(c, s.as_ptr(), self.sort(n.w))
                }
                K::Var(id) => {
                    let s = CString::new(format!("v{id}")).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), self.sort(n.w))
                }
                K::Bin(op, a, b) if n.w > 1 || !matches!(op, B::And | B::Or | B::Xor) => {
                    let (x, y) = (self.bv_of(ar, a), self.bv_of(ar, b));
                    match op {
                        B::Add => Z3_mk_bvadd(c, x, y),
                        B::Sub => Z3_mk_bvsub(c, x, y),
                        B::Mul => Z3_mk_bvmul(c, x, y),
                        B::UDiv => Z3_mk_bvudiv(c, x, y),
                        B::SDiv => Z3_mk_bvsdiv(c, x, y),
                        B::URem => Z3_mk_bvurem(c, x, y),
                        B::SRem => Z3_mk_bvsrem(c, x, y),
                        B::Shl => Z3_mk_bvshl(c, x, y),
                        B::LShr => Z3_mk_bvlshr(c, x, y),
                        B::AShr => Z3_mk_bvashr(c, x, y),
                        B::And => Z3_mk_bvand(c, x, y),
                        B::Or => Z3_mk_bvor(c, x, y),
                        B::Xor => Z3_mk_bvxor(c, x, y),
                    }
                }
                K::Concat(h, l) => { let (x, y) = (self.bv_of(ar, h), self.bv_of(ar, l)); Z3_mk_concat(c, x, y) }
                K::Extract(a, lo) => { let x = self.bv_of(ar, a); Z3_mk_extract(c, lo + n.w - 1, lo, x) }
                K::ZExt(a) => { let x = self.bv_of(ar, a); Z3_mk_zero_ext(c, n.w - ar.w(a), x) }
                K::SExt(a) => { let x = self.bv_of(ar, a); Z3_mk_sign_ext(c, n.w - ar.w(a), x) }
                K::Ite(i, a, b) => { let (i, x, y) = (self.bool_of(ar, i), self.bv_of(ar, a), self.bv_of(ar, b)); Z3_mk_ite(c, i, x, y) }
                K::Bin(..) | K::Eq(..) | K::Ult(..) | K::Ule(..) | K::Slt(..) | K::Sle(..) => {
                    let x = self.bool_of(ar, e);
                    let o = CString::new("1").unwrap();
                    let z = CString::new("0").unwrap();
                    let s = self.sort(1);
                    // (a fresh term lives until the next one unless it is kept)
                    self.keep(s);
                    let o = self.keep(Z3_mk_numeral(c, o.as_ptr(), s));
                    let z = self.keep(Z3_mk_numeral(c, z.as_ptr(), s));
                    Z3_mk_ite(c, x, o, z)
                }
            }
        };
        self.keep(p);
        self.bv.insert(e, p);
        p
    }

    /// Is pc ∧ q satisfiable?  `pc` must itself be satisfiable.
    /// The model covers the variables of the slice of pc that q depends on.
    /// `None`: the solver gave no answer in its time.
    pub fn check(&mut self, ar: &mut Arena, pc: &[E], q: E) -> Option<Ans> {
        match ar.cst(q) {
            Some(0) => return Some(Ans::Unsat),
            Some(_) => return Some(Ans::Sat(vec![])),
            None => {}
        }
        let nq = ar.not(q);
        // slice
        let mut used = vec![false; pc.len()];
        let mut vars: Vec<u32> = ar.vars_of(q).to_vec();
        let mut set: std::collections::HashSet<u32> = vars.iter().copied().collect();
        let mut slice = vec![];
        loop {
            let mut grew = false;
            for (i, &c) in pc.iter().enumerate() {
                if used[i] { continue; }
                let vs = ar.vars_of(c);
                if vs.iter().any(|v| set.contains(v)) {
                    if c == nq { return Some(Ans::Unsat); }
                    used[i] = true;
                    slice.push(c);
                    for &v in vs.iter() { if set.insert(v) { vars.push(v); grew = true; } }
                }
            }
            if !grew { break; }
        }
        slice.sort_unstable();
        slice.dedup();
        let mut key = slice.clone();
        key.push(q);
        if let Some(a) = self.cache.get(&key) {
            self.cached += 1;
            return Some(match a { Some(m) => Ans::Sat(m.clone()), None => Ans::Unsat });
        }
        let t = std::time::Instant::now();
        let r = unsafe {
            Z3_solver_reset(self.cx, self.s);
            for &c in &slice {
                let b = self.bool_of(ar, c);
                Z3_solver_assert(self.cx, self.s, b);
            }
            let b = self.bool_of(ar, q);
            Z3_solver_assert(self.cx, self.s, b);
            Z3_solver_check(self.cx, self.s)
        };
        if t.elapsed().as_secs() >= 2 && std::env::var_os("SYMX_SLOW").is_some() {
            unsafe { eprintln!("SLOW {:?} {r} {}", t.elapsed(), CStr::from_ptr(Z3_solver_to_string(self.cx, self.s)).to_string_lossy()) };
        }
        self.queries += 1;
        let ans = if r == 1 {
            self.sat += 1;
            let mut out = vec![];
            unsafe {
                let m = Z3_solver_get_model(self.cx, self.s);
                Z3_model_inc_ref(self.cx, m);
                for v in vars {
                    let w = ar.vars[v as usize].w;
                    let s = CString::new(format!("v{v}")).unwrap();
                    let a = Z3_mk_const(self.cx, Z3_mk_string_symbol(self.cx, s.as_ptr()), self.sort(w));
                    Z3_inc_ref(self.cx, a);
                    let mut o: P = std::ptr::null_mut();
                    assert!(Z3_model_eval(self.cx, m, a, true, &mut o));
                    Z3_inc_ref(self.cx, o);
                    let s = CStr::from_ptr(Z3_get_numeral_string(self.cx, o)).to_str().unwrap();
                    out.push((v, s.parse::<u128>().unwrap()));
                }
                Z3_model_dec_ref(self.cx, m);
            }
            Some(out)
        } else if r == -1 {
            self.unsat += 1;
            None
        } else {
            let d = t.elapsed().as_nanos() as u64;
            self.nanos += d;
            return None;
        };
        let d = t.elapsed().as_nanos() as u64;
        self.nanos += d;
        self.slowest = self.slowest.max(d);
        self.cache.insert(key, ans.clone());
        Some(match ans { Some(m) => Ans::Sat(m), None => Ans::Unsat })
    }
}
