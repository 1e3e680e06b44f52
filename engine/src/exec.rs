//! The symbolic interpreter: executes one state at a time, forks on symbolic
//! decisions, and splits its work list over processes.
use crate::expr::{Arena, B, E, binop, mask, sext};
use crate::ext;
use crate::ir::*;
use crate::mem::{Bad, Byte, Mem, Obj};
use crate::state::*;
use crate::val::V;
use crate::z3::{Ans, Solver};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};

pub enum Stop {
    /// this process handed the state to another one
    Abandon,
    Done,
    Infeasible,
    Violation(String),
    Error(String),
}
impl From<Bad> for Stop {
    fn from(b: Bad) -> Self { Stop::Error(format!("bad memory access: {} at {:#x}", b.1, b.0)) }
}
pub type R<T> = Result<T, Stop>;

pub enum Ctl { Next, Reload }

pub enum Ret { V(V), Void, Block, Reload }

#[repr(C)]
pub struct Shared {
    pub active: AtomicI64,
    pub stop: AtomicU64,
    pub paths: AtomicU64,
    pub infeasible: AtomicU64,
    pub steps: AtomicU64,
    pub forks: AtomicU64,
    pub violations: AtomicU64,
    pub errors: AtomicU64,
    pub timeouts: AtomicU64,
    pub queries: AtomicU64,
    pub cached: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub nanos: AtomicU64,
    pub slowest: AtomicU64,
    pub procs: AtomicU64,
    pub max_ops: AtomicU64,
    pub dup_states: AtomicU64,
    /// when the first violation was found, in ms after the start
    pub first: AtomicU64,
}

pub struct Cfg {
    pub jobs: i64,
    pub out: String,
    pub start: std::time::Instant,
    pub deadline: std::time::Instant,
    /// how long to look for more violations after the first
    pub grace: u64,
    pub max_steps: u64,
    pub max_violations: u64,
    pub trace: bool,
    pub pins: HashMap<String, u128>,
    pub deep: bool,
    pub verbose: bool,
}

pub struct Exec {
    pub m: &'static Module,
    pub ar: Arena,
    pub solver: Solver,
    pub work: Vec<State>,
    pub cfg: Cfg,
    pub sh: &'static Shared,
    pub reached: BTreeMap<String, u64>,
    pub found: Vec<String>,
    pub errors: Vec<String>,
    pub abandon: bool,
    pub fn_seen: Vec<u32>,
    pub prof: HashMap<Rc<str>, u64>,
    pub seen: BTreeSet<u128>,
    pub samples: Vec<String>,
    steps_base: u64,
    pub is_root: bool,
}

#[inline(always)]
fn get(fr: &Frame, o: O) -> V {
    match o {
        O::R(r) => unsafe { fr.regs.get_unchecked(r as usize) }.clone(),
        O::I(x) => V::I(x),
        O::K(k) => fr.func.consts[k as usize].clone(),
    }
}
#[inline(always)]
fn geti(fr: &Frame, o: O) -> Option<u64> {
    match o {
        O::R(r) => match unsafe { fr.regs.get_unchecked(r as usize) } { V::I(x) => Some(*x), _ => None },
        O::I(x) => Some(x),
        O::K(_) => None,
    }
}
#[inline(always)]
fn set(fr: &mut Frame, d: u32, v: V) {
    let r = unsafe { fr.regs.get_unchecked_mut(d as usize) };
    if let (V::I(x), V::I(y)) = (&mut *r, &v) { *x = *y; return; }
    *r = v;
}
#[inline(always)]
fn m64(w: u32) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
#[inline(always)]
fn s64(v: u64, w: u32) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

#[inline(always)]
fn bin64(b: B, x: u64, y: u64, w: u32) -> Option<u64> {
    let r = match b {
        B::Add => x.wrapping_add(y),
        B::Sub => x.wrapping_sub(y),
        B::Mul => x.wrapping_mul(y),
        B::And => x & y,
        B::Or => x | y,
        B::Xor => x ^ y,
        B::Shl => if y >= w as u64 { 0 } else { x << y },
        B::LShr => if y >= w as u64 { 0 } else { x >> y },
        B::AShr => (s64(x, w) >> (y.min(w as u64 - 1))) as u64,
        B::UDiv => if y == 0 { return None } else { x / y },
        B::URem => if y == 0 { return None } else { x % y },
        B::SDiv => if y == 0 { return None } else { s64(x, w).wrapping_div(s64(y, w)) as u64 },
        B::SRem => if y == 0 { return None } else { s64(x, w).wrapping_rem(s64(y, w)) as u64 },
    };
    Some(r & m64(w))
}
#[inline(always)]
fn cmp64(p: Pred, x: u64, y: u64, w: u32) -> bool {
    match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Sgt => s64(x, w) > s64(y, w),
        Pred::Sge => s64(x, w) >= s64(y, w),
        Pred::Slt => s64(x, w) < s64(y, w),
        Pred::Sle => s64(x, w) <= s64(y, w),
    }
}
#[inline(always)]
fn ty_w(t: &Ty) -> u32 {
    match t { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => 0 }
}

const DIGITS: u32 = u32::MAX - 1;

impl Exec {
    pub fn new(m: &'static Module, cfg: Cfg, sh: &'static Shared) -> Self {
        Exec { m, ar: Arena::new(), solver: Solver::new(200_000_000), work: vec![], cfg, sh, reached: BTreeMap::new(), found: vec![], errors: vec![], abandon: false, fn_seen: vec![], prof: HashMap::new(), seen: BTreeSet::new(), samples: vec![], steps_base: 0, is_root: true }
    }
    // ---- terms
    pub fn sym(&mut self, v: &V, w: u32) -> E {
        match v { V::S(e) => *e, V::I(x) => self.ar.c(*x as u128, w), V::W(x) => self.ar.c(**x, w), V::A(_) => panic!("aggregate as scalar") }
    }
    pub fn val(&self, e: E) -> V {
        match self.ar.cst(e) { Some(c) => V::int(c, self.ar.w(e)), None => V::S(e) }
    }
    pub fn eval(&mut self, st: &State, e: E) -> u128 { self.ar.eval(e, &st.model) }

    fn merge_model(st: &mut State, part: &[(u32, u128)]) {
        let m = Rc::make_mut(&mut st.model);
        for &(v, x) in part {
            if m.len() <= v as usize { m.resize(v as usize + 1, 0); }
            m[v as usize] = x;
        }
    }
    fn check(&mut self, st: &State, q: E) -> R<Ans> {
        if std::env::var_os("SYMX_PROF").is_some() {
            let t = std::time::Instant::now();
            let r = self.solver.check(&mut self.ar, &st.pc, q);
            let d = t.elapsed().as_millis();
            if d > 0 { eprintln!("PROF {d} {:?} {}", st.inputs.iter().map(|(n, v, _)| (n, match v { V::S(e) => self.ar.eval(*e, &st.model), v => v.u128() })).collect::<Vec<_>>(), self.stack(st)[0].chars().take(250).collect::<String>()); }
            return r.ok_or_else(|| Stop::Error("solver gave no answer within its resource limit".into()));
        }
        self.solver.check(&mut self.ar, &st.pc, q).ok_or_else(|| Stop::Error("solver gave no answer within its resource limit".into()))
    }
    /// Can q hold here?
    pub fn may(&mut self, st: &State, q: E) -> R<bool> {
        if self.eval(st, q) == 1 { return Ok(true); }
        Ok(matches!(self.check(st, q)?, Ans::Sat(_)))
    }
    /// Decide a condition, forking off the other side if it is possible.
    pub fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(x) = self.ar.cst(c) { return Ok(x == 1); }
        let v = self.eval(st, c) == 1;
        let (here, other) = if v { (c, self.ar.not(c)) } else { (self.ar.not(c), c) };
        match self.check(st, other)? {
            Ans::Unsat => Ok(v),
            Ans::Sat(part) => {
                let mut sib = st.clone();
                // it executes the instruction again
                sib.steps = sib.steps.saturating_sub(1);
                sib.pc.push(other);
                Self::merge_model(&mut sib, &part);
                debug_assert!(self.ar.eval(other, &sib.model) == 1);
                st.pc.push(here);
                self.push(sib)?;
                Ok(v)
            }
        }
    }
    /// A value the term has here; its other values are left to forks.
    pub fn concretize(&mut self, st: &mut State, v: &V, w: u32) -> R<u64> {
        match v {
            V::I(x) => Ok(*x),
            V::S(e) => {
                let e = *e;
                let x = self.eval(st, e);
                let c = self.ar.c(x, w);
                let eq = self.ar.eq(e, c);
                self.branch(st, eq)?;
                Ok(x as u64)
            }
            V::W(x) => Ok(**x as u64),
            V::A(_) => Err(Stop::Error("concretize aggregate".into())),
        }
    }
    /// Add a constraint; the state ends if it is unsatisfiable.
    pub fn assume(&mut self, st: &mut State, c: E) -> R<()> {
        if let Some(x) = self.ar.cst(c) { return if x == 1 { Ok(()) } else { Err(Stop::Infeasible) }; }
        if self.eval(st, c) == 1 { if !st.pc.contains(&c) { st.pc.push(c); } return Ok(()); }
        match self.check(st, c)? {
            Ans::Unsat => Err(Stop::Infeasible),
            Ans::Sat(part) => {
                st.pc.push(c);
                Self::merge_model(st, &part);
                Ok(())
            }
        }
    }
    pub fn push(&mut self, sib: State) -> R<()> {
        self.sh.forks.fetch_add(1, SeqCst);
        self.work.push(sib);
        if self.sh.active.load(SeqCst) < self.cfg.jobs {
            if self.sh.active.fetch_add(1, SeqCst) < self.cfg.jobs {
                self.flush_stats();
                let n = self.work.len();
                let take = n.div_ceil(2);
                match unsafe { libc::fork() } {
                    0 => {
                        self.work.truncate(take);
                        self.is_root = false;
                        self.found.clear();
                        self.errors.clear();
                        self.samples.clear();
                        self.reached.clear();
                        self.sh.procs.fetch_add(1, SeqCst);
                        return Err(Stop::Abandon);
                    }
                    -1 => { self.sh.active.fetch_sub(1, SeqCst); }
                    _ => { self.work.drain(..take); }
                }
            } else { self.sh.active.fetch_sub(1, SeqCst); }
        }
        Ok(())
    }
    pub fn flush_stats(&mut self) {
        let s = &mut self.solver;
        self.sh.queries.fetch_add(std::mem::take(&mut s.queries), SeqCst);
        self.sh.cached.fetch_add(std::mem::take(&mut s.cached), SeqCst);
        self.sh.sat.fetch_add(std::mem::take(&mut s.sat), SeqCst);
        self.sh.unsat.fetch_add(std::mem::take(&mut s.unsat), SeqCst);
        self.sh.nanos.fetch_add(std::mem::take(&mut s.nanos), SeqCst);
        self.sh.slowest.fetch_max(s.slowest, SeqCst);
    }
    pub fn fresh(&mut self, st: &mut State, name: &str, w: u32) -> V {
        let k = st.counts.entry(name.to_string()).or_insert(0);
        let full = if *k == 0 { name.to_string() } else { format!("{name}#{k}") };
        *k += 1;
        let v = if let Some(p) = self.cfg.pins.get(&full) { V::int(*p & mask(w), w) } else {
            let e = self.ar.var(full.clone(), w);
            V::S(e)
        };
        st.inputs.push((full, v.clone(), w));
        v
    }

    // ---- memory
    pub fn load_int(&mut self, st: &mut State, addr: u64, nb: usize) -> R<V> {
        let (o, off) = st.mem.obj(self.m, addr)?;
        if off + nb > o.data.len() { return Err(Bad(addr, "out of bounds load").into()); }
        if !o.any_sym(off, nb) {
            let mut b = [0u8; 16];
            b[..nb].copy_from_slice(&o.data[off..off + nb]);
            let x = u128::from_le_bytes(b);
            return Ok(V::int(x, nb as u32 * 8));
        }
        let o = o.clone();
        let mut e = o.byte(&mut self.ar, off + nb - 1);
        for k in (0..nb - 1).rev() {
            let b = o.byte(&mut self.ar, off + k);
            e = self.ar.concat(e, b);
        }
        Ok(self.val(e))
    }
    pub fn load(&mut self, st: &mut State, t: &Ty, addr: u64) -> R<V> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 => {
                let nb = t.store_bytes() as usize;
                let v = self.load_int(st, addr, nb)?;
                let w = t.w();
                if w as usize == nb * 8 { return Ok(v); }
                Ok(match v {
                    V::S(e) => { let e = self.ar.trunc(e, w); self.val(e) }
                    v => V::int(v.u128() & mask(w), w),
                })
            }
            Ty::Vec(n, et) if et.bits() % 8 != 0 => {
                let nb = t.store_bytes() as usize;
                let v = self.load_int(st, addr, nb)?;
                self.unpack(&v, *n, et)
            }
            Ty::Arr(n, et) | Ty::Vec(n, et) => {
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n { v.push(self.load(st, et, addr + i * et.size())?); }
                Ok(V::A(v.into()))
            }
            Ty::St(fs, _) => {
                let mut v = Vec::with_capacity(fs.len());
                for (i, f) in fs.iter().enumerate() { v.push(self.load(st, f, addr + t.field_off(i as u64))?); }
                Ok(V::A(v.into()))
            }
            _ => Err(Stop::Error(format!("load of {t:?}"))),
        }
    }
    pub fn store_int(&mut self, st: &mut State, v: &V, addr: u64, nb: usize) -> R<()> {
        let (o, off) = st.mem.obj_mut(self.m, addr)?;
        if off + nb > o.data.len() { return Err(Bad(addr, "out of bounds store").into()); }
        match v {
            V::I(x) => { 
                if nb <= 8 { o.data[off..off + nb].copy_from_slice(&x.to_le_bytes()[..nb]); }
                else { o.data[off..off + nb].copy_from_slice(&(*x as u128).to_le_bytes()[..nb]); }
                if o.sym.is_some() { o.clear(off, nb); }
            }
            V::W(x) => { o.data[off..off + nb].copy_from_slice(&x.to_le_bytes()[..nb]); if o.sym.is_some() { o.clear(off, nb); } }
            V::S(e) => {
                let ar = &mut self.ar;
                let e = ar.zext(*e, nb as u32 * 8);
                for k in 0..nb {
                    let b = ar.extract(e, k as u32 * 8, 8);
                    o.set(off + k, match ar.cst(b) { Some(c) => Byte::C(c as u8), None => Byte::S(b) });
                }
            }
            V::A(_) => return Err(Stop::Error("store aggregate as int".into())),
        }
        Ok(())
    }
    pub fn store(&mut self, st: &mut State, t: &Ty, v: &V, addr: u64) -> R<()> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 => self.store_int(st, v, addr, t.store_bytes() as usize),
            Ty::Vec(_, et) if et.bits() % 8 != 0 => {
                let p = self.pack(v, et)?;
                self.store_int(st, &p, addr, t.store_bytes() as usize)
            }
            Ty::Arr(..) | Ty::Vec(..) | Ty::St(..) => {
                let V::A(vs) = v else { return Err(Stop::Error("store scalar as aggregate".into())) };
                for (i, x) in vs.iter().enumerate() {
                    self.store(st, t.elem(i as u64), x, addr + t.field_off(i as u64))?;
                }
                Ok(())
            }
            _ => Err(Stop::Error(format!("store of {t:?}"))),
        }
    }
    /// vector to integer, element 0 lowest
    fn pack(&mut self, v: &V, et: &Ty) -> R<V> {
        let V::A(vs) = v else { return Ok(v.clone()) };
        let w = et.w();
        if vs.iter().all(|x| !x.is_sym()) && w as usize * vs.len() <= 128 {
            let mut r = 0u128;
            for (i, x) in vs.iter().enumerate() { r |= (x.u128() & mask(w)) << (i as u32 * w); }
            return Ok(V::int(r, w * vs.len() as u32));
        }
        let mut e: Option<E> = None;
        for x in vs.iter() {
            let x = self.sym(x, w);
            e = Some(match e { None => x, Some(l) => self.ar.concat(x, l) });
        }
        let e = e.unwrap();
        Ok(self.val(e))
    }
    fn unpack(&mut self, v: &V, n: u64, et: &Ty) -> R<V> {
        let w = et.w();
        let mut out = vec![];
        for i in 0..n as u32 {
            out.push(match v {
                V::S(e) => { let x = self.ar.extract(*e, i * w, w); self.val(x) }
                v => V::int((v.u128() >> (i * w)) & mask(w), w),
            });
        }
        Ok(V::A(out.into()))
    }
    /// Load from a possibly symbolic address.
    fn load_at(&mut self, st: &mut State, t: &Ty, p: &V) -> R<V> {
        let V::S(e) = p else { return self.load(st, t, p.i()) };
        let e = *e;
        let at = self.eval(st, e) as u64;
        let size = match st.mem.obj(self.m, at) { Ok((o, _)) => o.data.len(), Err(b) => return Err(b.into()) };
        let n = t.size() as usize;
        if !matches!(t, Ty::Int(w) if *w <= 64) || size > 1024 || size < n {
            let a = self.concretize(st, p, 64)?;
            return self.load(st, t, a);
        }
        let base = at & !0xffff_ffff;
        let bc = self.ar.c(base as u128, 64);
        let off = self.ar.bin(B::Sub, e, bc);
        let lim = self.ar.c((size - n) as u128, 64);
        let inb = self.ar.ule(off, lim);
        if !self.branch(st, inb)? {
            let a = self.concretize(st, p, 64)?;
            return self.load(st, t, a);
        }
        // which offsets are possible: bounded scan, all positions of the object
        let w = t.w();
        let mut r: Option<E> = None;
        let step = if (at - base) as usize % n == 0 && self.low_zero(off, n as u64) { n } else { 1 };
        let mut k = 0;
        while k + n <= size {
            let v = self.load(st, t, base + k as u64)?;
            let v = self.sym(&v, w);
            r = Some(match r {
                None => v,
                Some(x) => { let kc = self.ar.c(k as u128, 64); let c = self.ar.eq(off, kc); self.ar.ite(c, v, x) }
            });
            k += step;
        }
        Ok(self.val(r.unwrap()))
    }
    fn low_zero(&mut self, e: E, n: u64) -> bool {
        if !n.is_power_of_two() || n == 1 { return true; }
        let b = n.trailing_zeros();
        let x = self.ar.extract(e, 0, b);
        self.ar.cst(x) == Some(0)
    }
    pub fn read_bytes(&mut self, st: &mut State, addr: u64, n: usize) -> R<Vec<u8>> {
        if n == 0 { return Ok(vec![]); }
        st.mem.check(self.m, addr, n)?;
        let (o, off) = st.mem.obj(self.m, addr)?;
        let o = o.clone();
        let mut out = o.data[off..off + n].to_vec();
        if o.any_sym(off, n) {
            for k in 0..n {
                if let Byte::S(e) = o.get(off + k) { out[k] = self.concretize(st, &V::S(e), 8)? as u8; }
            }
        }
        Ok(out)
    }
    pub fn cstr(&mut self, st: &mut State, addr: u64) -> R<Vec<u8>> {
        let (o, off) = st.mem.obj(self.m, addr)?;
        let o = o.clone();
        let mut out = vec![];
        let mut k = off;
        loop {
            if k >= o.data.len() { return Err(Stop::Error("unterminated string".into())); }
            let b = match o.get(k) { Byte::C(c) => c, Byte::S(e) => self.concretize(st, &V::S(e), 8)? as u8 };
            if b == 0 { return Ok(out); }
            out.push(b);
            k += 1;
        }
    }

    // ---- frames
    pub fn push_frame(&mut self, st: &mut State, f: u32, args: &[V], dst: u32, normal: Option<u32>, tag: Tag) -> R<()> {
        let func = self.m.func(f);
        let mut regs = vec![V::I(0); func.nregs as usize];
        for (p, a) in func.params.iter().zip(args) { regs[*p as usize] = a.clone(); }
        let sp = if func.frame > 0 { st.mem.alloc(Obj::zeroed(func.frame as usize)) } else { 0 };
        let mut va = 0;
        if func.vararg {
            let more = args.get(func.params.len()..).unwrap_or(&[]);
            va = st.mem.alloc(Obj::zeroed(8 * more.len().max(1)));
            for (k, v) in more.iter().enumerate() {
                let v = match v { V::S(e) => { let e = self.ar.zext(*e, 64); self.val(e) } v => v.clone() };
                self.store_int(st, &v, va + 8 * k as u64, 8)?;
            }
        }
        {
            let mut h = func.hit.borrow_mut();
            if !h[0] { h[0] = true; self.fn_seen.push(f); }
        }
        let th = &mut st.threads[st.cur];
        if th.frames.len() > 3000 { return Err(Stop::Violation("stack overflow (3000 frames)".into())); }
        th.frames.push(Frame { func, block: 0, ip: 0, regs, sp, va, dst, normal, tag });
        Ok(())
    }
    pub fn take_edge(fr: &mut Frame, e: u32) {
        let func: *const Func = &*fr.func;
        let ed = unsafe { &(&(*func).edges)[e as usize] };
        match ed.copies.len() {
            0 => {}
            1 => { let (d, o) = ed.copies[0]; let v = get(fr, o); set(fr, d, v); }
            _ => {
                let vs: smallvec::SmallVec = smallvec::collect(ed.copies.iter().map(|(_, o)| get(fr, *o)));
                for ((d, _), v) in ed.copies.iter().zip(vs) { set(fr, *d, v); }
            }
        }
        fr.block = ed.to;
        fr.ip = 0;
        let mut h = unsafe { &*func }.hit.borrow_mut();
        h[ed.to as usize] = true;
    }
    /// Finish the call instruction the top frame is at, with a result.
    pub fn finish_call(&mut self, st: &mut State, v: Option<V>) {
        let fr = st.threads[st.cur].frames.last_mut().unwrap();
        let func = fr.func.clone();
        let Op::Call(c) = &func.blocks[fr.block as usize][fr.ip as usize].op else { panic!("not at a call") };
        if c.dst != u32::MAX { fr.regs[c.dst as usize] = v.unwrap_or(V::I(0)); }
        match c.normal { Some(e) => Self::take_edge(fr, e), None => fr.ip += 1 }
    }
    fn ret(&mut self, st: &mut State, v: Option<V>) -> R<Ctl> {
        let th = &mut st.threads[st.cur];
        let fr = th.frames.pop().unwrap();
        if fr.sp != 0 { st.mem.free(fr.sp)?; }
        if fr.va != 0 { st.mem.free(fr.va)?; }
        let th = &mut st.threads[st.cur];
        match fr.tag {
            Tag::Plain => {
                let up = th.frames.last_mut().unwrap();
                if fr.dst != u32::MAX { set(up, fr.dst, v.unwrap_or(V::I(0))); }
                match fr.normal { Some(e) => Self::take_edge(up, e), None => up.ip += 1 }
                Ok(Ctl::Reload)
            }
            Tag::ThreadMain => {
                th.retval = match v { Some(V::I(x)) => x, _ => 0 };
                self.thread_exit(st)
            }
            Tag::TlsDtor => {
                if th.frames.is_empty() { self.thread_exit(st) } else { Ok(Ctl::Reload) }
            }
            Tag::ProcMain => {
                let code = match v { Some(V::I(x)) => x & 0xffff_ffff, _ => 0 };
                self.end_process(st, 0, code)
            }
            Tag::HarnessMain => Err(Stop::Done),
        }
    }
    fn thread_exit(&mut self, st: &mut State) -> R<Ctl> {
        let th = &mut st.threads[st.cur];
        if let Some((f, a)) = th.dtors.pop() {
            let f = self.m.addr_func(f).ok_or(Stop::Error("dtor".into()))?;
            self.push_frame(st, f, &[V::I(a)], u32::MAX, None, Tag::TlsDtor)?;
            return Ok(Ctl::Reload);
        }
        // pthread keys
        let keys: Vec<(u64, u64)> = th.keys.iter().filter(|(_, v)| **v != 0).map(|(k, v)| (*k, *v)).collect();
        for (k, v) in keys {
            st.threads[st.cur].keys.insert(k, 0);
            if let Some(&d) = st.proc_.key_dtors.get(&k) && d != 0 {
                let f = self.m.addr_func(d).ok_or(Stop::Error("key dtor".into()))?;
                self.push_frame(st, f, &[V::I(v)], u32::MAX, None, Tag::TlsDtor)?;
                return Ok(Ctl::Reload);
            }
        }
        let cur = st.cur;
        st.threads[cur].wait = Wait::Done;
        let tls: Vec<u64> = st.threads[cur].tls.values().copied().collect();
        for a in tls { st.mem.free(a)?; }
        st.threads[cur].tls.clear();
        for t in st.threads.iter_mut() {
            if t.wait == Wait::Join(cur) { t.wait = Wait::Run; t.wake = Some(0); }
        }
        self.schedule(st)?;
        Ok(Ctl::Reload)
    }
    /// kind: 0 returned, 1 exit, 2 crashed, 3 panicked
    pub fn end_process(&mut self, st: &mut State, kind: u64, code: u64) -> R<Ctl> {
        let Some(s) = st.saved.pop() else {
            return match kind {
                3 => Err(Stop::Violation(format!("panic: {}", self.tail_msg(st)))),
                2 => Err(Stop::Error("crash outside a process".into())),
                _ => Err(Stop::Violation(format!("harness exited with {code}"))),
            };
        };
        if kind == 3 { st.last_msg = self.tail_msg(st); }
        if self.cfg.verbose { eprintln!("symx: process ends: kind {kind} code {code} after {} ops, {} steps", st.ops, st.steps); }
        ext::shm_out(self.m, st);
        let depth = st.saved.len() + 1;
        st.fs.locks.retain(|l| l.1 != depth);
        st.last_ops = st.ops;
        self.sh.max_ops.fetch_max(st.ops, SeqCst);
        // power goes off: what was not synced is lost
        if kind == 2 && st.torn & 2 != 0 { st.fs.power_loss(); }
        st.during = s.during;
        st.points = s.points;
        st.mem = s.mem;
        st.threads = s.threads;
        st.cur = s.cur;
        st.proc_ = s.proc_;
        st.crash = s.crash;
        st.fault = s.fault;
        st.sched = s.sched;
        st.ops = s.ops;
        st.torn = s.torn;
        // descriptors of the ended process no longer hold its files
        for i in st.fs.inos() {
            let open = st.is_open(i);
            st.fs.drop_if_unused(i, open);
        }
        if s.again { ext::shm_in(self.m, st)?; return Ok(Ctl::Reload); }
        self.finish_call(st, Some(V::I(kind << 32 | code & 0xffff_ffff)));
        Ok(Ctl::Reload)
    }
    fn tail_msg(&self, st: &State) -> String {
        let s = String::from_utf8_lossy(&st.err).into_owned();
        let k = s.rfind("panicked at").unwrap_or(s.len().saturating_sub(400));
        let mut k2 = k;
        while !s.is_char_boundary(k2) { k2 += 1; }
        s[k2..].trim().replace("note: run with `RUST_BACKTRACE=1` environment variable to display a backtrace", "").trim().to_string()
    }

    // ---- scheduling
    pub fn runnable(st: &State) -> Vec<usize> {
        let n = st.threads.len();
        (1..=n).map(|k| (st.cur + k) % n).filter(|&i| st.threads[i].wait == Wait::Run).collect()
    }
    /// Pick a thread to run after the current one stopped.
    pub fn schedule(&mut self, st: &mut State) -> R<()> {
        let r = Self::runnable(st);
        if !r.is_empty() {
            st.idle = 0;
            st.cur = r[0];
            if st.sched <= 0 || r.len() == 1 { return Ok(()); }
            // every other choice of the next thread, at the cost of one unit
            let (name, pin) = self.sched_choice(st);
            for &i in &r[1..] {
                match pin {
                    Some(p) if p != i as u64 + 1 => {}
                    Some(_) => { st.cur = i; Self::took(st, &name, i); }
                    None => {
                        let mut sib = st.clone();
                        sib.cur = i;
                        Self::took(&mut sib, &name, i);
                        self.push(sib)?;
                    }
                }
            }
            return Ok(());
        }
        // nothing else can run: now children that are late do
        if crate::child::run(self, st, true) {
            self.poke(st);
            return self.schedule(st);
        }
        // wake the earliest sleeper
        let mut best: Option<(u64, usize)> = None;
        for (i, t) in st.threads.iter().enumerate() {
            let d = match t.wait { Wait::Futex(_, _, Some(d)) => d, Wait::Sleep(d) => d, _ => continue };
            if best.is_none_or(|b| d < b.0) { best = Some((d, i)); }
        }
        if let Some((d, i)) = best {
            st.idle += 1;
            if st.idle > 300 {
                let w: Vec<String> = st.threads.iter().enumerate().filter(|(_, t)| t.wait != Wait::Done).map(|(i, t)| format!("{i}:{:?}", t.wait)).collect();
                return Err(Stop::Violation(format!("hang: only timers fire, no thread makes progress ({})", w.join(", "))));
            }
            st.clock = st.clock.max(d);
            let t = &mut st.threads[i];
            t.wake = Some(if matches!(t.wait, Wait::Futex(..)) { -110 } else { 0 });
            t.wait = Wait::Run;
            st.cur = i;
            return Ok(());
        }
        // pipes and children: let retriers look again, unless nothing changed since
        let retry: Vec<usize> = (0..st.threads.len()).filter(|&i| st.threads[i].wait == Wait::Retry).collect();
        if !retry.is_empty() && st.flags & 1 == 0 {
            for i in &retry { st.threads[*i].wait = Wait::Run; }
            st.flags |= 1;
            st.cur = retry[0];
            return Ok(());
        }
        let w: Vec<String> = st.threads.iter().enumerate().map(|(i, t)| format!("{i}:{:?}", t.wait)).collect();
        Err(Stop::Violation(format!("deadlock: no thread can run ({})", w.join(", "))))
    }
    /// The name of the next scheduling choice, and what a pinned run takes
    /// there (0: the default, i + 1: thread i).
    pub fn sched_choice(&mut self, st: &mut State) -> (String, Option<u64>) {
        let k = st.counts.entry("\u{1}sched".into()).or_insert(0);
        let name = format!("sched@{k}");
        *k += 1;
        let pin = if self.cfg.pins.is_empty() { None } else { Some(self.cfg.pins.get(&name).copied().unwrap_or(0) as u64) };
        (name, pin)
    }
    pub fn took(st: &mut State, name: &str, i: usize) {
        st.sched -= 1;
        st.log.push(format!("schedule: thread {i}"));
        st.inputs.push((name.to_string(), V::I(i as u64 + 1), 64));
    }

    /// Progress that retrying system calls may be waiting for.
    pub fn poke(&mut self, st: &mut State) {
        crate::child::run(self, st, false);
        st.flags &= !1;
        for t in st.threads.iter_mut() { if t.wait == Wait::Retry { t.wait = Wait::Run; } }
    }
    /// A point at which another thread may be scheduled.
    pub fn sched_point(&mut self, st: &mut State) -> R<()> {
        if st.sched <= 0 || st.threads.len() < 2 { return Ok(()); }
        // the same point is not offered twice
        let key = (st.cur as u64) << 48 | st.steps;
        if st.sched_done == Some(key) { return Ok(()); }
        let others: Vec<usize> = Self::runnable(st).into_iter().filter(|&i| i != st.cur).collect();
        if others.is_empty() { return Ok(()); }
        let (name, pin) = self.sched_choice(st);
        for i in others {
            if pin.is_some_and(|p| p != i as u64 + 1) { continue; }
            let mut sib = st.clone();
            sib.steps = sib.steps.saturating_sub(1);
            sib.log.push(format!("preempt {} by {i} at {}", st.cur, st.threads[st.cur].frames.last().unwrap().func.name));
            Self::took(&mut sib, &name, i);
            sib.cur = i;
            sib.sched_done = None;
            self.push(sib)?;
            if pin.is_some() { return Err(Stop::Infeasible); }
        }
        st.sched_done = Some(key);
        Ok(())
    }

    // ---- running
    pub fn run_all(&mut self) {
        loop {
            let Some(mut st) = self.work.pop() else { break };
            if self.sh.stop.load(SeqCst) != 0 { self.sh.timeouts.fetch_add(1 + self.work.len() as u64, SeqCst); self.work.clear(); break; }
            self.steps_base = st.steps;
            let r = self.run(&mut st);
            self.sh.steps.fetch_add(st.steps - self.steps_base, SeqCst);
            match r {
                Stop::Abandon => {}
                Stop::Done => {
                    self.sh.paths.fetch_add(1, SeqCst);
                    if self.samples.len() < 3 { let s = self.describe(&st, "completed path"); self.samples.push(s); }
                }
                Stop::Infeasible => { self.sh.infeasible.fetch_add(1, SeqCst); }
                Stop::Violation(msg) => {
                    self.sh.paths.fetch_add(1, SeqCst);
                    let d = self.describe(&st, &msg);
                    self.found.push(d);
                    let _ = self.sh.first.compare_exchange(0, self.cfg.start.elapsed().as_millis() as u64 + 1, SeqCst, SeqCst);
                    if self.sh.violations.fetch_add(1, SeqCst) + 1 >= self.cfg.max_violations { self.sh.stop.store(1, SeqCst); }
                }
                Stop::Error(msg) => {
                    let d = self.describe(&st, &msg);
                    if self.errors.len() < 5 { self.errors.push(d); }
                    if self.sh.errors.fetch_add(1, SeqCst) > 20 { self.sh.stop.store(2, SeqCst); }
                }
            }
        }
        self.flush_stats();
    }
    pub fn stack(&self, st: &State) -> Vec<String> {
        let mut out = vec![];
        for (i, t) in st.threads.iter().enumerate() {
            if i != st.cur && t.wait == Wait::Done { continue; }
            let mut s = format!("thread {i}{} {:?}: ", if i == st.cur { "*" } else { "" }, t.wait);
            for f in t.frames.iter().rev().take(if i == st.cur { 60 } else { 12 }) {
                let d = f.func.blocks.get(f.block as usize).and_then(|b| b.get(f.ip as usize)).map(|x| x.dbg).unwrap_or(0);
                s += &format!("{}@{}", crate::cov::demangle(&f.func.name), d);
                s += " < ";
            }
            out.push(s);
        }
        out
    }
    pub fn describe(&mut self, st: &State, msg: &str) -> String {
        let mut s = String::from("{\"message\":");
        s += &js(msg);
        s += ",\"inputs\":{";
        let mut first = true;
        for (n, v, w) in &st.inputs {
            let x = match v { V::S(e) => self.ar.eval(*e, &st.model), v => v.u128() };
            if !first { s.push(','); }
            first = false;
            s += &format!("{}:[\"{}\",{}]", js(n), x, w);
        }
        s += "},\"log\":[";
        let skip = st.log.len().saturating_sub(400);
        s += &st.log[skip..].iter().map(|l| js(l)).collect::<Vec<_>>().join(",");
        s += "],\"stack\":[";
        s += &self.stack(st).iter().map(|l| js(l)).collect::<Vec<_>>().join(",");
        let e = String::from_utf8_lossy(&st.err).into_owned();
        let mut k = e.len().saturating_sub(3000);
        while !e.is_char_boundary(k) { k += 1; }
        s += &format!("],\"stderr\":{},\"steps\":{},\"pc\":{}}}", js(&e[k..]), st.steps, st.pc.len());
        s
    }

    fn run(&mut self, st: &mut State) -> Stop {
        loop {
            match self.burst(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
            if st.steps > self.cfg.max_steps { return Stop::Error(format!("step bound {} exceeded", self.cfg.max_steps)); }
            if std::time::Instant::now() > self.cfg.deadline { self.sh.stop.store(3, SeqCst); }
            let first = self.sh.first.load(SeqCst);
            if first != 0 && self.cfg.start.elapsed().as_millis() as u64 > first + self.cfg.grace * 1000 { self.sh.stop.store(1, SeqCst); }
            if self.sh.stop.load(SeqCst) != 0 {
                self.sh.timeouts.fetch_add(1, SeqCst);
                return Stop::Abandon;
            }
        }
    }

    /// Run the current thread for a while.
    fn burst(&mut self, st: &mut State) -> R<()> {
        let mut budget = 200_000u64;
        'reload: loop {
            let th = &mut st.threads[st.cur];
            let fr: &mut Frame = unsafe { &mut *(th.frames.last_mut().unwrap() as *mut Frame) };
            let func: &Func = unsafe { &*Rc::as_ptr(&fr.func) };
            let mut block: &[Inst] = &func.blocks[fr.block as usize];
            let start = budget;
            loop {
                if budget == 0 {
                    st.steps += start;
                    return Ok(());
                }
                budget -= 1;
                let inst = unsafe { block.get_unchecked(fr.ip as usize) };
                match &inst.op {
                    Op::Bin(b, t, x, y, d) => {
                        let w = ty_w(t);
                        if w != 0 && w <= 64
                            && let (Some(x), Some(y)) = (geti(fr, *x), geti(fr, *y))
                            && let Some(r) = bin64(*b, x, y, w) {
                                set(fr, *d, V::I(r));
                                fr.ip += 1;
                                continue;
                            }
                    }
                    Op::Icmp(p, t, x, y, d) => {
                        let w = ty_w(t);
                        if w != 0 && w <= 64
                            && let (Some(x), Some(y)) = (geti(fr, *x), geti(fr, *y)) {
                                set(fr, *d, V::I(cmp64(*p, x, y, w) as u64));
                                fr.ip += 1;
                                continue;
                            }
                    }
                    Op::Load(t, p, d, atomic) => {
                        if !(*atomic && st.sched > 0 && st.flags & 2 != 0) && let Some(a) = geti(fr, *p) {
                            let w = ty_w(t);
                            if w != 0 && w <= 64 && w % 8 == 0 {
                                let (o, off) = st.mem.obj(self.m, a)?;
                                let n = (w / 8) as usize;
                                if o.sym.is_none() && off + n <= o.data.len() {
                                    let mut x = [0u8; 8];
                                    unsafe { std::ptr::copy_nonoverlapping(o.data.as_ptr().add(off), x.as_mut_ptr(), n) };
                                    set(fr, *d, V::I(u64::from_le_bytes(x)));
                                    fr.ip += 1;
                                    continue;
                                }
                            }
                        }
                    }
                    Op::Store(t, v, p, atomic) => {
                        if !(*atomic && st.sched > 0 && st.flags & 2 != 0) && let (Some(a), Some(x)) = (geti(fr, *p), geti(fr, *v)) {
                            let w = ty_w(t);
                            if w != 0 && w <= 64 {
                                let n = w.div_ceil(8) as usize;
                                let (o, off) = st.mem.obj_mut(self.m, a)?;
                                if o.sym.is_none() && off + n <= o.data.len() {
                                    o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                                    fr.ip += 1;
                                    continue;
                                }
                            }
                        }
                    }
                    Op::Gep(b, off, dynv, d) => {
                        if let Some(b) = geti(fr, *b) {
                            let mut a = b.wrapping_add(*off as u64);
                            let mut ok = true;
                            for (o, w, s) in dynv.iter() {
                                match geti(fr, *o) {
                                    Some(x) => a = a.wrapping_add((s64(x, *w) as u64).wrapping_mul(*s)),
                                    None => { ok = false; break; }
                                }
                            }
                            if ok {
                                set(fr, *d, V::I(a));
                                fr.ip += 1;
                                continue;
                            }
                        }
                    }
                    Op::Slot(off, d) => {
                        let a = fr.sp + off;
                        set(fr, *d, V::I(a));
                        fr.ip += 1;
                        continue;
                    }
                    Op::Cast(c, t, v, t2, d) => {
                        if let Some(x) = geti(fr, *v) {
                            let (w, w2) = (ty_w(t), ty_w(t2));
                            if w != 0 && w <= 64 && w2 != 0 && w2 <= 64 {
                                let r = match c {
                                    Cast::Trunc | Cast::ZExt | Cast::PtrInt => Some(x & m64(w2)),
                                    Cast::Bit => Some(x),
                                    Cast::SExt => Some(s64(x, w) as u64 & m64(w2)),
                                    _ => None,
                                };
                                if let Some(r) = r {
                                    set(fr, *d, V::I(r));
                                    fr.ip += 1;
                                    continue;
                                }
                            }
                        }
                    }
                    Op::Select(ct, c, _, a, b, d) => {
                        if *ct == Ty::Int(1) && let Some(c) = geti(fr, *c) {
                            let v = get(fr, if c & 1 == 1 { *a } else { *b });
                            set(fr, *d, v);
                            fr.ip += 1;
                            continue;
                        }
                    }
                    Op::Br(e) => {
                        Self::take_edge(fr, *e);
                        block = &func.blocks[fr.block as usize];
                        continue;
                    }
                    Op::CondBr(c, a, b) => {
                        if let Some(c) = geti(fr, *c) {
                            Self::take_edge(fr, if c & 1 == 1 { *a } else { *b });
                            block = &func.blocks[fr.block as usize];
                            continue;
                        }
                    }
                    Op::Switch(_, v, cs, d) => {
                        if let Some(x) = geti(fr, *v) {
                            let e = match cs.binary_search_by_key(&(x as u128), |c| c.0) { Ok(k) => cs[k].1, Err(_) => *d };
                            Self::take_edge(fr, e);
                            block = &func.blocks[fr.block as usize];
                            continue;
                        }
                    }
                    Op::Copy(v, d) => {
                        let v = get(fr, *v);
                        set(fr, *d, v);
                        fr.ip += 1;
                        continue;
                    }
                    Op::Fence => { fr.ip += 1; continue; }
                    _ => {}
                }
                st.steps += start - budget;
                match self.slow(st, inst)? {
                    Ctl::Next => { st.threads[st.cur].frames.last_mut().unwrap().ip += 1; continue 'reload; }
                    Ctl::Reload => continue 'reload,
                }
            }
        }
    }

    fn opv(st: &State, o: O) -> V { get(st.threads[st.cur].frames.last().unwrap(), o) }
    fn setv(st: &mut State, d: u32, v: V) {
        if d == u32::MAX { return; }
        set(st.threads[st.cur].frames.last_mut().unwrap(), d, v)
    }

    fn bin_v(&mut self, st: &mut State, b: B, t: &Ty, x: &V, y: &V) -> R<V> {
        if let Ty::Vec(_, et) = t {
            let (V::A(x), V::A(y)) = (x, y) else { return Err(Stop::Error("vector op".into())) };
            let mut out = vec![];
            for (a, c) in x.iter().zip(y.iter()) { out.push(self.bin_v(st, b, et, a, c)?); }
            return Ok(V::A(out.into()));
        }
        let w = t.w();
        if !x.is_sym() && !y.is_sym() {
            if matches!(b, B::UDiv | B::SDiv | B::URem | B::SRem) && y.u128() == 0 { return Err(Stop::Error("division by zero".into())); }
            return Ok(V::int(binop(b, x.u128(), y.u128(), w), w));
        }
        let (e, f) = (self.sym(x, w), self.sym(y, w));
        let r = self.ar.bin(b, e, f);
        Ok(self.val(r))
    }
    fn icmp_v(&mut self, p: Pred, t: &Ty, x: &V, y: &V) -> R<V> {
        if let Ty::Vec(_, et) = t {
            let (V::A(x), V::A(y)) = (x, y) else { return Err(Stop::Error("vector cmp".into())) };
            let mut out = vec![];
            for (a, c) in x.iter().zip(y.iter()) { out.push(self.icmp_v(p, et, a, c)?); }
            return Ok(V::A(out.into()));
        }
        let w = t.w();
        if !x.is_sym() && !y.is_sym() {
            let (a, b) = (x.u128(), y.u128());
            let (sa, sb) = (sext(a, w), sext(b, w));
            let r = match p { Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ugt => a > b, Pred::Uge => a >= b, Pred::Ult => a < b, Pred::Ule => a <= b, Pred::Sgt => sa > sb, Pred::Sge => sa >= sb, Pred::Slt => sa < sb, Pred::Sle => sa <= sb };
            return Ok(V::I(r as u64));
        }
        let (a, b) = (self.sym(x, w), self.sym(y, w));
        let ar = &mut self.ar;
        let r = match p {
            Pred::Eq => ar.eq(a, b),
            Pred::Ne => { let e = ar.eq(a, b); ar.not(e) }
            Pred::Ugt => ar.ult(b, a),
            Pred::Uge => ar.ule(b, a),
            Pred::Ult => ar.ult(a, b),
            Pred::Ule => ar.ule(a, b),
            Pred::Sgt => ar.slt(b, a),
            Pred::Sge => ar.sle(b, a),
            Pred::Slt => ar.slt(a, b),
            Pred::Sle => ar.sle(a, b),
        };
        Ok(self.val(r))
    }
    fn ite_v(&mut self, st: &mut State, c: E, t: &Ty, a: &V, b: &V) -> R<V> {
        match t {
            // (choices upon choices: better to fork)
            Ty::Int(w) if *w >= 32 && self.ar.choices(c) >= 2 => if self.branch(st, c)? { Ok(a.clone()) } else { Ok(b.clone()) },
            Ty::Int(w) => {
                let (x, y) = (self.sym(a, *w), self.sym(b, *w));
                let r = self.ar.ite(c, x, y);
                Ok(self.val(r))
            }
            Ty::Vec(_, et) if matches!(**et, Ty::Int(_)) => {
                let (V::A(x), V::A(y)) = (a, b) else { return Err(Stop::Error("vector select".into())) };
                let mut out = vec![];
                for (p, q) in x.iter().zip(y.iter()) { out.push(self.ite_v(st, c, et, p, q)?); }
                Ok(V::A(out.into()))
            }
            _ => if self.branch(st, c)? { Ok(a.clone()) } else { Ok(b.clone()) },
        }
    }
    fn cast_v(&mut self, st: &mut State, c: Cast, t: &Ty, v: &V, t2: &Ty) -> R<V> {
        match (t, t2) {
            (Ty::Vec(_, a), Ty::Vec(n2, b)) => {
                if c == Cast::Bit {
                    let p = self.pack(v, a)?;
                    return self.unpack(&p, *n2, b);
                }
                let V::A(vs) = v else { return Err(Stop::Error("vector cast".into())) };
                let mut out = vec![];
                for x in vs.iter() { out.push(self.cast_v(st, c, a, x, b)?); }
                return Ok(V::A(out.into()));
            }
            (Ty::Vec(_, a), _) => return self.pack(v, a),
            (_, Ty::Vec(n, b)) => return self.unpack(v, *n, b),
            _ => {}
        }
        let (w, w2) = (t.w(), t2.w());
        if w > 128 || w2 > 128 { return Err(Stop::Error(format!("integers of {} bits", w.max(w2)))); }
        if let V::S(e) = v {
            let e = *e;
            let r = match c {
                Cast::Trunc => self.ar.trunc(e, w2),
                Cast::ZExt => self.ar.zext(e, w2),
                Cast::SExt => self.ar.sext(e, w2),
                Cast::Bit => e,
                Cast::PtrInt => if w2 < w { self.ar.trunc(e, w2) } else { self.ar.zext(e, w2) },
                _ => {
                    let x = self.concretize(st, v, w)?;
                    return self.cast_v(st, c, t, &V::I(x), t2);
                }
            };
            return Ok(self.val(r));
        }
        let x = v.u128();
        let fsrc = || if *t == Ty::F32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
        let fdst = |d: f64| if *t2 == Ty::F32 { V::I((d as f32).to_bits() as u64) } else { V::I(d.to_bits()) };
        Ok(match c {
            Cast::Trunc | Cast::ZExt | Cast::PtrInt => V::int(x & mask(w2), w2),
            Cast::SExt => V::int(sext(x, w) as u128 & mask(w2), w2),
            Cast::Bit => v.clone(),
            Cast::FpToUi => V::int(fsrc() as u128 & mask(w2), w2),
            Cast::FpToSi => V::int(fsrc() as i128 as u128 & mask(w2), w2),
            Cast::UiToFp => if *t2 == Ty::F32 { V::I((x as f32).to_bits() as u64) } else { V::I((x as f64).to_bits()) },
            Cast::SiToFp => { let s = sext(x, w); if *t2 == Ty::F32 { V::I((s as f32).to_bits() as u64) } else { V::I((s as f64).to_bits()) } }
            Cast::FpTrunc | Cast::FpExt => fdst(fsrc()),
        })
    }
    fn fl(&mut self, st: &mut State, v: &V, t: &Ty) -> R<f64> {
        let x = self.concretize(st, v, t.w())?;
        Ok(if *t == Ty::F32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) })
    }
    pub fn fv(t: &Ty, d: f64) -> V { if *t == Ty::F32 { V::I((d as f32).to_bits() as u64) } else { V::I(d.to_bits()) } }

    /// Any instruction, symbolic or not.
    fn slow(&mut self, st: &mut State, inst: &Inst) -> R<Ctl> {
        match &inst.op {
            Op::Bin(b, t, x, y, d) => {
                let (x, y) = (Self::opv(st, *x), Self::opv(st, *y));
                let mut y = y;
                if matches!(b, B::UDiv | B::SDiv | B::URem | B::SRem) && let V::S(e) = y && !matches!(t, Ty::Vec(..)) {
                    // the compiler has already branched on zero
                    let _ = e;
                }
                if matches!(b, B::Mul) && x.is_sym() && y.is_sym() { y = self.small(st, &y, t.w()); }
                let v = self.bin_v(st, *b, t, &x, &y)?;
                Self::setv(st, *d, v);
            }
            Op::Icmp(p, t, x, y, d) => {
                let (x, y) = (Self::opv(st, *x), Self::opv(st, *y));
                let v = self.icmp_v(*p, t, &x, &y)?;
                Self::setv(st, *d, v);
            }
            Op::FBin(o, t, x, y, d) => {
                let (x, y) = (Self::opv(st, *x), Self::opv(st, *y));
                let (a, b) = (self.fl(st, &x, t)?, self.fl(st, &y, t)?);
                let r = if *t == Ty::F32 {
                    let (a, b) = (a as f32, b as f32);
                    (match o { b'+' => a + b, b'-' => a - b, b'*' => a * b, b'/' => a / b, _ => a % b }) as f64
                } else { match o { b'+' => a + b, b'-' => a - b, b'*' => a * b, b'/' => a / b, _ => a % b } };
                Self::setv(st, *d, Self::fv(t, r));
            }
            Op::FNeg(t, x, d) => {
                let x = Self::opv(st, *x);
                let a = self.fl(st, &x, t)?;
                Self::setv(st, *d, Self::fv(t, -a));
            }
            Op::Fcmp(p, t, x, y, d) => {
                let (x, y) = (Self::opv(st, *x), Self::opv(st, *y));
                let (a, b) = (self.fl(st, &x, t)?, self.fl(st, &y, t)?);
                let un = a.is_nan() || b.is_nan();
                let r = match &**p {
                    "oeq" => a == b, "one" => !un && a != b, "olt" => a < b, "ole" => a <= b, "ogt" => a > b, "oge" => a >= b,
                    "ord" => !un, "uno" => un, "ueq" => un || a == b, "une" => a != b || un, "ult" => un || a < b, "ule" => un || a <= b,
                    "ugt" => un || a > b, "uge" => un || a >= b, "true" => true, _ => false,
                };
                Self::setv(st, *d, V::I(r as u64));
            }
            Op::Load(t, p, d, atomic) => {
                if *atomic && st.flags & 2 != 0 { self.sched_point(st)?; }
                let p = Self::opv(st, *p);
                let v = self.load_at(st, t, &p)?;
                Self::setv(st, *d, v);
            }
            Op::Store(t, v, p, atomic) => {
                if *atomic && st.flags & 2 != 0 { self.sched_point(st)?; }
                let p = Self::opv(st, *p);
                let v = Self::opv(st, *v);
                let a = self.concretize(st, &p, 64)?;
                self.store(st, t, &v, a)?;
            }
            Op::Gep(b, off, dynv, d) => {
                let b = Self::opv(st, *b);
                let mut e = self.sym(&b, 64);
                let c = self.ar.c(*off as u64 as u128, 64);
                e = self.ar.bin(B::Add, e, c);
                for (o, w, s) in dynv.iter() {
                    let v = Self::opv(st, *o);
                    let x = self.sym(&v, *w);
                    let x = if *w < 64 { self.ar.sext(x, 64) } else { x };
                    let s = self.ar.c(*s as u128, 64);
                    let x = self.mul_c(x, s);
                    e = self.ar.bin(B::Add, e, x);
                }
                let v = self.val(e);
                Self::setv(st, *d, v);
            }
            Op::Slot(off, d) => {
                let a = st.threads[st.cur].frames.last().unwrap().sp + off;
                Self::setv(st, *d, V::I(a));
            }
            Op::Alloca(..) => return Err(Stop::Error("dynamic alloca".into())),
            Op::Cast(c, t, v, t2, d) => {
                let v = Self::opv(st, *v);
                let r = self.cast_v(st, *c, t, &v, t2)?;
                Self::setv(st, *d, r);
            }
            Op::Select(ct, c, t, a, b, d) => {
                let (c, a, b) = (Self::opv(st, *c), Self::opv(st, *a), Self::opv(st, *b));
                let v = if let (Ty::Vec(..), V::A(cs)) = (ct, &c) {
                    let (V::A(x), V::A(y)) = (&a, &b) else { return Err(Stop::Error("select".into())) };
                    let mut out = vec![];
                    for (i, c) in cs.iter().enumerate() {
                        let c = self.sym(c, 1);
                        out.push(self.ite_v(st, c, t.elem(i as u64), &x[i], &y[i])?);
                    }
                    V::A(out.into())
                } else {
                    let c = self.sym(&c, 1);
                    match self.ar.cst(c) { Some(1) => a, Some(_) => b, None => self.ite_v(st, c, t, &a, &b)? }
                };
                Self::setv(st, *d, v);
            }
            Op::Br(e) => { Self::take_edge(st.threads[st.cur].frames.last_mut().unwrap(), *e); return Ok(Ctl::Reload); }
            Op::CondBr(c, a, b) => {
                let c = Self::opv(st, *c);
                let c = self.sym(&c, 1);
                let r = self.branch(st, c)?;
                Self::take_edge(st.threads[st.cur].frames.last_mut().unwrap(), if r { *a } else { *b });
                return Ok(Ctl::Reload);
            }
            Op::Switch(w, v, cs, d) => {
                let v = Self::opv(st, *v);
                let e = self.sym(&v, *w);
                let x = self.eval(st, e);
                // group: the edge this value takes
                let edge = match cs.binary_search_by_key(&x, |c| c.0) { Ok(k) => cs[k].1, Err(_) => *d };
                let fr = st.threads[st.cur].frames.last().unwrap();
                let func = fr.func.clone();
                let to = func.edges[edge as usize].to;
                let nophi = func.edges[edge as usize].copies.is_empty();
                let mut cond = self.ar.c(0, 1);
                let isd = func.edges[*d as usize].to == to && (edge == *d || nophi);
                for (c, ce) in cs.iter() {
                    let same = *ce == edge || (nophi && func.edges[*ce as usize].to == to);
                    if same != isd {
                        let k = self.ar.c(*c, *w);
                        let q = self.ar.eq(e, k);
                        cond = self.ar.bin(B::Or, cond, q);
                    }
                }
                if isd { cond = self.ar.not(cond); }
                self.branch(st, cond)?;
                Self::take_edge(st.threads[st.cur].frames.last_mut().unwrap(), edge);
                return Ok(Ctl::Reload);
            }
            Op::Ret(v) => {
                let v = v.map(|v| Self::opv(st, v));
                return self.ret(st, v);
            }
            Op::Unreachable => return Err(Stop::Error("reached 'unreachable'".into())),
            Op::ExtractV(v, ix, d) => {
                let mut v = Self::opv(st, *v);
                for i in ix.iter() {
                    let V::A(x) = &v else { return Err(Stop::Error("extractvalue".into())) };
                    v = x[*i as usize].clone();
                }
                Self::setv(st, *d, v);
            }
            Op::InsertV(_, v, e, ix, d) => {
                let v = Self::opv(st, *v);
                let e = Self::opv(st, *e);
                fn ins(v: &V, e: V, ix: &[u32]) -> V {
                    if ix.is_empty() { return e; }
                    let V::A(x) = v else { panic!("insertvalue") };
                    let mut x = x.to_vec();
                    x[ix[0] as usize] = ins(&x[ix[0] as usize], e, &ix[1..]);
                    V::A(x.into())
                }
                Self::setv(st, *d, ins(&v, e, ix));
            }
            Op::ExtractE(v, i, d) => {
                let v = Self::opv(st, *v);
                let i = Self::opv(st, *i);
                let i = self.concretize(st, &i, 64)?;
                let V::A(x) = &v else { return Err(Stop::Error("extractelement".into())) };
                Self::setv(st, *d, x[i as usize].clone());
            }
            Op::InsertE(_, v, e, i, d) => {
                let v = Self::opv(st, *v);
                let e = Self::opv(st, *e);
                let i = Self::opv(st, *i);
                let i = self.concretize(st, &i, 64)?;
                let V::A(x) = &v else { return Err(Stop::Error("insertelement".into())) };
                let mut x = x.to_vec();
                x[i as usize] = e;
                Self::setv(st, *d, V::A(x.into()));
            }
            Op::Shuffle(_, a, b, ix, d) => {
                let (V::A(a), V::A(b)) = (Self::opv(st, *a), Self::opv(st, *b)) else { return Err(Stop::Error("shuffle".into())) };
                let out: Vec<V> = ix.iter().map(|&i| if (i as usize) < a.len() { a[i as usize].clone() } else { b[i as usize - a.len()].clone() }).collect();
                Self::setv(st, *d, V::A(out.into()));
            }
            Op::Rmw(r, t, p, v, d) => {
                if st.flags & 2 != 0 { self.sched_point(st)?; }
                let p = Self::opv(st, *p);
                let v = Self::opv(st, *v);
                let a = self.concretize(st, &p, 64)?;
                let old = self.load(st, t, a)?;
                let w = t.w();
                let (eo, ev) = (self.sym(&old, w), self.sym(&v, w));
                let ar = &mut self.ar;
                let n = match r {
                    Rmw::Xchg => ev,
                    Rmw::Add => ar.bin(B::Add, eo, ev),
                    Rmw::Sub => ar.bin(B::Sub, eo, ev),
                    Rmw::And => ar.bin(B::And, eo, ev),
                    Rmw::Or => ar.bin(B::Or, eo, ev),
                    Rmw::Xor => ar.bin(B::Xor, eo, ev),
                    Rmw::Nand => { let x = ar.bin(B::And, eo, ev); let m = ar.c(mask(w), w); ar.bin(B::Xor, x, m) }
                    Rmw::Max => { let c = ar.slt(eo, ev); ar.ite(c, ev, eo) }
                    Rmw::Min => { let c = ar.slt(eo, ev); ar.ite(c, eo, ev) }
                    Rmw::UMax => { let c = ar.ult(eo, ev); ar.ite(c, ev, eo) }
                    Rmw::UMin => { let c = ar.ult(eo, ev); ar.ite(c, eo, ev) }
                };
                let n = self.val(n);
                self.store(st, t, &n, a)?;
                Self::setv(st, *d, old);
            }
            Op::CmpXchg(t, p, c, n, d) => {
                if st.flags & 2 != 0 { self.sched_point(st)?; }
                let p = Self::opv(st, *p);
                let (c, n) = (Self::opv(st, *c), Self::opv(st, *n));
                let a = self.concretize(st, &p, 64)?;
                let old = self.load(st, t, a)?;
                let w = t.w();
                let (eo, ec) = (self.sym(&old, w), self.sym(&c, w));
                let q = self.ar.eq(eo, ec);
                let ok = self.branch(st, q)?;
                if ok { self.store(st, t, &n, a)?; }
                Self::setv(st, *d, V::A(vec![old, V::I(ok as u64)].into()));
            }
            Op::Fence => {}
            Op::Copy(v, d) => { let v = Self::opv(st, *v); Self::setv(st, *d, v); }
            Op::Landing => return Err(Stop::Error("unwinding".into())),
            Op::Call(c) => return self.call(st, c),
        }
        Ok(Ctl::Next)
    }
    /// Symbolic by symbolic multiplication is left to the solver.
    fn small(&mut self, _st: &State, v: &V, _w: u32) -> V { v.clone() }
    fn mul_c(&mut self, x: E, s: E) -> E {
        let c = self.ar.cst(s).unwrap();
        let w = self.ar.w(x);
        if c.is_power_of_two() {
            let k = self.ar.c(c.trailing_zeros() as u128, w);
            return self.ar.bin(B::Shl, x, k);
        }
        self.ar.bin(B::Mul, x, s)
    }
    fn call(&mut self, st: &mut State, c: &CallI) -> R<Ctl> {
        let mut args: Vec<V> = c.args.iter().map(|(_, o)| Self::opv(st, *o)).collect();
        let f = match &c.callee {
            Callee::F(f) => *f,
            Callee::Ind(o) => {
                let v = Self::opv(st, *o);
                let a = self.concretize(st, &v, 64)?;
                match self.m.addr_func(a) {
                    Some(f) => f,
                    None => return Err(Stop::Error(format!("call through {a:#x}"))),
                }
            }
            Callee::Intr(n) => {
                let r = self.intrinsic(st, n, c, &args)?;
                return Ok(self.apply(st, c, r)?);
            }
            Callee::Asm(s) => {
                let r = if s.contains("cpuid") {
                    let n = match &c.ret { Ty::St(f, _) => f.len(), _ => 1 };
                    Ret::V(V::A(vec![V::I(0); n].into()))
                } else if s.starts_with("/*") {
                    match args.first() { Some(a) if c.ret != Ty::Void => Ret::V(a.clone()), _ => Ret::Void }
                } else if s.is_empty() {
                    match args.first() { Some(a) if c.ret != Ty::Void => Ret::V(a.clone()), _ => Ret::Void }
                } else { return Err(Stop::Error(format!("inline asm {s:?}"))) };
                return Ok(self.apply(st, c, r)?);
            }
        };
        let fe = &self.m.funcs[f as usize];
        let mut k = fe.ext.get();
        if k == 0 {
            // (the digits of an i128: done with 256-bit products)
            k = if fe.def == (0, 0) { ext::index(&fe.name) } else if fe.name.contains("3fmt3numo10__fmt_inner") { ext::index("i128 digits") } else { None }.map(|i| i as u32 + 1).unwrap_or(u32::MAX);
            if k == u32::MAX && fe.def != (0, 0) && fe.name.contains("3fmt3num3imp") && (fe.name.ends_with("4__fmt") || fe.name.ends_with("7Display3fmt")) { k = DIGITS; }
            fe.ext.set(k);
        }
        if k == DIGITS {
            // One path per number written out in decimal, rather than terms of its digits.
            let t = fe.name.as_bytes()[fe.name.find("3fmt3num3imp").unwrap() + 12];
            let n = match t { b'h' | b'a' => 1, b't' | b's' => 2, b'm' | b'l' => 4, _ => 8 };
            if fe.name.ends_with("4__fmt") {
                if let V::S(_) = &args[0] { args[0] = V::I(self.concretize(st, &args[0].clone(), n * 8)?); }
            } else if let V::I(p) = args[0] {
                let v = self.load_int(st, p, n as usize)?;
                if let V::S(_) = &v {
                    let x = self.concretize(st, &v, n * 8)?;
                    self.store_int(st, &V::I(x), p, n as usize)?;
                }
            }
        } else if fe.def == (0, 0) || k != u32::MAX {
            if k == u32::MAX { return Err(Stop::Error(format!("no model for {}", fe.name))); }
            if self.cfg.trace { eprintln!("[{}] {}({:x?})", st.cur, fe.name, args); }
            let r = (ext::MODELS[k as usize - 1].1)(self, st, &args, c)?;
            return self.apply(st, c, r);
        }
        self.push_frame(st, f, &args, c.dst, c.normal, Tag::Plain)?;
        Ok(Ctl::Reload)
    }
    fn apply(&mut self, st: &mut State, c: &CallI, r: Ret) -> R<Ctl> {
        match r {
            Ret::V(v) => {
                let v = match (&v, &c.ret) { (V::I(x), Ty::Int(w)) if *w < 64 => V::I(x & m64(*w)), _ => v };
                Self::setv(st, c.dst, v);
            }
            Ret::Void => {}
            Ret::Block => { self.schedule(st)?; return Ok(Ctl::Reload); }
            Ret::Reload => return Ok(Ctl::Reload),
        }
        if let Some(e) = c.normal {
            Self::take_edge(st.threads[st.cur].frames.last_mut().unwrap(), e);
            return Ok(Ctl::Reload);
        }
        Ok(Ctl::Next)
    }

    fn map1(&mut self, t: &Ty, v: &V, f: &mut dyn FnMut(&mut Self, &V, u32) -> V) -> V {
        match (t, v) {
            (Ty::Vec(_, et), V::A(vs)) => { let o: Vec<V> = vs.iter().map(|x| f(self, x, et.w())).collect(); V::A(o.into()) }
            _ => f(self, v, t.w()),
        }
    }
    fn map2(&mut self, t: &Ty, a: &V, b: &V, f: &mut dyn FnMut(&mut Self, &V, &V, u32) -> V) -> V {
        match (t, a, b) {
            (Ty::Vec(_, et), V::A(x), V::A(y)) => { let o: Vec<V> = x.iter().zip(y.iter()).map(|(p, q)| f(self, p, q, et.w())).collect(); V::A(o.into()) }
            _ => f(self, a, b, t.w()),
        }
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, c: &CallI, args: &[V]) -> R<Ret> {
        let base = n.strip_prefix("llvm.").unwrap();
        let t0 = c.args.first().map(|a| a.0.clone()).unwrap_or(Ty::Void);
        let is = |p: &str| base.starts_with(p);
        if is("lifetime") || is("dbg.") || is("experimental.noalias") || is("prefetch") || is("donothing") || is("var.annotation") { return Ok(Ret::Void); }
        if is("va_start") {
            // all registers are used up: every argument is in the overflow area
            let (p, va) = (self.concretize(st, &args[0], 64)?, st.threads[st.cur].frames.last().unwrap().va);
            let mut b = vec![];
            b.extend(48u32.to_le_bytes());
            b.extend(176u32.to_le_bytes());
            b.extend(va.to_le_bytes());
            b.extend(0u64.to_le_bytes());
            st.mem.write(self.m, p, &b)?;
            return Ok(Ret::Void);
        }
        if is("va_copy") {
            let (d, s) = (self.concretize(st, &args[0], 64)?, self.concretize(st, &args[1], 64)?);
            st.mem.copy(self.m, d, s, 24)?;
            return Ok(Ret::Void);
        }
        if is("va_end") { return Ok(Ret::Void); }
        if is("memcpy") || is("memmove") {
            let n = self.concretize(st, &args[2], 64)?;
            let d = self.concretize(st, &args[0], 64)?;
            let s = self.concretize(st, &args[1], 64)?;
            st.mem.copy(self.m, d, s, n as usize)?;
            return Ok(Ret::Void);
        }
        if is("memset") {
            let n = self.concretize(st, &args[2], 64)? as usize;
            let d = self.concretize(st, &args[0], 64)?;
            ext::fill(self, st, d, &args[1], n)?;
            return Ok(Ret::Void);
        }
        if is("assume") { return Ok(Ret::Void); }
        if is("expect") { return Ok(Ret::V(args[0].clone())); }
        if is("trap") || is("ubsantrap") { return Err(Stop::Error("trap".into())); }
        if is("is.constant") { return Ok(Ret::V(V::I(0))); }
        if is("threadlocal.address") {
            let g = (args[0].i() >> OBJ_SHIFT) as u32 - 1;
            return Ok(Ret::V(V::I(self.tls(st, g)?)));
        }
        if is("umax") || is("umin") || is("smax") || is("smin") {
            let b = base.as_bytes();
            let (signed, max) = (b[0] == b's', b[2] == b'a');
            if let (Ty::Int(w), true) = (&t0, matches!(args[0], V::S(_)) || matches!(args[1], V::S(_))) {
                let (a, b) = (self.sym(&args[0], *w), self.sym(&args[1], *w));
                let lt = if signed { self.ar.slt(a, b) } else { self.ar.ult(a, b) };
                if *w >= 32 && self.ar.choices(lt) >= 2 {
                    let lt = self.branch(st, lt)?;
                    return Ok(Ret::V(args[(lt == max) as usize].clone()));
                }
            }
            return Ok(Ret::V(self.map2(&t0, &args[0], &args[1], &mut |s, a, b, w| {
                let (a, b) = (s.sym(a, w), s.sym(b, w));
                let lt = if signed { s.ar.slt(a, b) } else { s.ar.ult(a, b) };
                let r = if max { s.ar.ite(lt, b, a) } else { s.ar.ite(lt, a, b) };
                s.val(r)
            })));
        }
        if is("abs") {
            return Ok(Ret::V(self.map1(&t0, &args[0], &mut |s, a, w| {
                let a = s.sym(a, w);
                let z = s.ar.c(0, w);
                let neg = s.ar.slt(a, z);
                let m = s.ar.bin(B::Sub, z, a);
                let r = s.ar.ite(neg, m, a);
                s.val(r)
            })));
        }
        if is("ucmp") || is("scmp") {
            let signed = base.starts_with('s');
            let w = t0.w();
            let (a, b) = (self.sym(&args[0], w), self.sym(&args[1], w));
            let lt = if signed { self.ar.slt(a, b) } else { self.ar.ult(a, b) };
            let eq = self.ar.eq(a, b);
            let rw = c.ret.w();
            let (m1, z, p1) = (self.ar.c(mask(rw), rw), self.ar.c(0, rw), self.ar.c(1, rw));
            let x = self.ar.ite(eq, z, p1);
            let r = self.ar.ite(lt, m1, x);
            return Ok(Ret::V(self.val(r)));
        }
        if is("ctlz") || is("cttz") || is("ctpop") {
            let kind = if is("ctlz") { 0 } else if is("cttz") { 1 } else { 2 };
            return Ok(Ret::V(self.map1(&t0, &args[0], &mut |s, a, w| {
                if !a.is_sym() {
                    let x = a.u128();
                    return V::int(match kind { 0 => (x.leading_zeros() - (128 - w)) as u128, 1 => if x == 0 { w as u128 } else { x.trailing_zeros() as u128 }, _ => x.count_ones() as u128 }, w);
                }
                let a = s.sym(a, w);
                let mut r = if kind == 2 { s.ar.c(0, w) } else { s.ar.c(w as u128, w) };
                for i in 0..w {
                    // ctlz: highest set bit wins, so visit upwards; cttz: downwards
                    let bit = if kind == 1 { w - 1 - i } else { i };
                    let b = s.ar.extract(a, bit, 1);
                    if kind == 2 { let z = s.ar.zext(b, w); r = s.ar.bin(B::Add, r, z); }
                    else { let k = s.ar.c(if kind == 0 { w - 1 - bit } else { bit } as u128, w); r = s.ar.ite(b, k, r); }
                }
                s.val(r)
            })));
        }
        if is("bswap") || is("bitreverse") {
            let step = if is("bswap") { 8 } else { 1 };
            return Ok(Ret::V(self.map1(&t0, &args[0], &mut |s, a, w| {
                if !a.is_sym() {
                    let x = a.u128();
                    let mut r = 0u128;
                    let n = w / step;
                    for i in 0..n { r |= ((x >> (i * step)) & mask(step)) << ((n - 1 - i) * step); }
                    return V::int(r, w);
                }
                let a = s.sym(a, w);
                let mut r: Option<E> = None;
                for i in 0..w / step {
                    let b = s.ar.extract(a, i * step, step);
                    r = Some(match r { None => b, Some(x) => s.ar.concat(x, b) });
                }
                let r = r.unwrap();
                s.val(r)
            })));
        }
        if is("fshl") || is("fshr") {
            let left = is("fshl");
            if let (Ty::Vec(_, et), V::A(x), V::A(y), V::A(z)) = (&t0, &args[0], &args[1], &args[2]) {
                let mut out = vec![];
                for i in 0..x.len() { out.push(self.funnel(left, et.w(), &x[i], &y[i], &z[i])?); }
                return Ok(Ret::V(V::A(out.into())));
            }
            return Ok(Ret::V(self.funnel(left, t0.w(), &args[0], &args[1], &args[2])?));
        }
        if base.contains(".with.overflow.") {
            let w = t0.w();
            let signed = base.starts_with('s');
            let kind = &base[1..4];
            if !args[0].is_sym() && !args[1].is_sym() && w <= 64 {
                let (x, y) = (args[0].u128(), args[1].u128());
                let (r, o) = if signed {
                    let (a, b) = (sext(x, w), sext(y, w));
                    let full = match kind { "add" => a + b, "sub" => a - b, _ => a * b };
                    (full as u128 & mask(w), sext(full as u128 & mask(w), w) != full)
                } else {
                    match kind {
                        "add" => ((x + y) & mask(w), x + y > mask(w)),
                        "sub" => (x.wrapping_sub(y) & mask(w), x < y),
                        _ => { let p = x * y; (p & mask(w), p > mask(w)) }
                    }
                };
                return Ok(Ret::V(V::A(vec![V::int(r, w), V::I(o as u64)].into())));
            }
            if w > 64 {
                if args[0].is_sym() || args[1].is_sym() { return Err(Stop::Error(format!("symbolic {n}"))); }
                let (x, y) = (args[0].u128(), args[1].u128());
                let (r, o) = if signed {
                    let (x, y) = (x as i128, y as i128);
                    let (r, o) = match kind { "add" => x.overflowing_add(y), "sub" => x.overflowing_sub(y), _ => x.overflowing_mul(y) };
                    (r as u128, o)
                } else { match kind { "add" => x.overflowing_add(y), "sub" => x.overflowing_sub(y), _ => x.overflowing_mul(y) } };
                return Ok(Ret::V(V::A(vec![V::w(r), V::I(o as u64)].into())));
            }
            let (a, b) = (self.sym(&args[0], w), self.sym(&args[1], w));
            let op = match kind { "add" => B::Add, "sub" => B::Sub, _ => B::Mul };
            let w2 = if kind == "mul" { 2 * w } else { w + 1 };
            let (a2, b2) = if signed { (self.ar.sext(a, w2), self.ar.sext(b, w2)) } else { (self.ar.zext(a, w2), self.ar.zext(b, w2)) };
            let r = self.ar.bin(op, a, b);
            let ov = if !signed && kind == "add" { self.ar.ult(r, a) }
                else if !signed && kind == "sub" { self.ar.ult(a, b) }
                else {
                    let full = self.ar.bin(op, a2, b2);
                    let re = if signed { self.ar.sext(r, w2) } else { self.ar.zext(r, w2) };
                    let e = self.ar.eq(full, re);
                    self.ar.not(e)
                };
            let (r, ov) = (self.val(r), self.val(ov));
            return Ok(Ret::V(V::A(vec![r, ov].into())));
        }
        if is("uadd.sat") || is("usub.sat") || is("sadd.sat") || is("ssub.sat") {
            let signed = base.starts_with('s');
            let add = &base[1..4] == "add";
            return Ok(Ret::V(self.map2(&t0, &args[0], &args[1], &mut |s, a, b, w| {
                let (a, b) = (s.sym(a, w), s.sym(b, w));
                let r = s.ar.bin(if add { B::Add } else { B::Sub }, a, b);
                let r = if !signed {
                    if add { let o = s.ar.ult(r, a); let m = s.ar.c(mask(w), w); s.ar.ite(o, m, r) }
                    else { let o = s.ar.ult(a, b); let z = s.ar.c(0, w); s.ar.ite(o, z, r) }
                } else {
                    let (a2, b2) = (s.ar.sext(a, w + 1), s.ar.sext(b, w + 1));
                    let f = s.ar.bin(if add { B::Add } else { B::Sub }, a2, b2);
                    let re = s.ar.sext(r, w + 1);
                    let ok = s.ar.eq(f, re);
                    let z = s.ar.c(0, w);
                    let neg = s.ar.slt(a, z);
                    let mn = s.ar.c(1u128 << (w - 1), w);
                    let mx = s.ar.c(mask(w) >> 1, w);
                    let lim = s.ar.ite(neg, mn, mx);
                    s.ar.ite(ok, r, lim)
                };
                s.val(r)
            })));
        }
        if is("fptoui.sat") || is("fptosi.sat") {
            let d = self.fl(st, &args[0], &t0)?;
            let w = c.ret.w();
            let v = if is("fptoui") {
                match w { 64 => d as u64 as u128, 32 => d as u32 as u128, 128 => d as u128, 8 => d as u8 as u128, 16 => d as u16 as u128, _ => return Err(Stop::Error(n.into())) }
            } else {
                match w { 64 => d as i64 as u128, 32 => d as i32 as u128, 128 => d as i128 as u128, _ => return Err(Stop::Error(n.into())) }
            };
            return Ok(Ret::V(V::int(v & mask(w), w)));
        }
        let un = |f: fn(f64) -> f64| f;
        let ff = if is("round.") { Some(un(f64::round)) } else if is("roundeven") || is("rint") || is("nearbyint") { Some(un(f64::round_ties_even)) } else if is("ceil") { Some(un(f64::ceil)) } else if is("floor") { Some(un(f64::floor)) }
            else if is("trunc") { Some(un(f64::trunc)) } else if is("fabs") { Some(un(f64::abs)) } else if is("sqrt") { Some(un(f64::sqrt)) } else if is("log10") { Some(un(f64::log10)) } else if is("log2") { Some(un(f64::log2)) } else if is("log.") { Some(un(f64::ln)) } else if is("exp.") { Some(un(f64::exp)) } else { None };
        if let Some(f) = ff {
            let d = self.fl(st, &args[0], &t0)?;
            return Ok(Ret::V(Self::fv(&t0, f(d))));
        }
        if is("powi") || is("pow.") || is("copysign") || is("minnum") || is("maxnum") || is("minimumnum") || is("maximumnum") || is("minimum") || is("maximum") {
            let a = self.fl(st, &args[0], &t0)?;
            let r = if is("powi") { let k = self.concretize(st, &args[1], 32)?; a.powi(k as u32 as i32) }
            else {
                let b = self.fl(st, &args[1], &t0)?;
                if is("pow.") { a.powf(b) } else if is("copysign") { a.copysign(b) } else if is("min") { a.min(b) } else { a.max(b) }
            };
            return Ok(Ret::V(Self::fv(&t0, r)));
        }
        if is("fmuladd") || is("fma") {
            let (a, b, d) = (self.fl(st, &args[0], &t0)?, self.fl(st, &args[1], &t0)?, self.fl(st, &args[2], &t0)?);
            return Ok(Ret::V(Self::fv(&t0, if is("fmuladd") { a * b + d } else { a.mul_add(b, d) })));
        }
        if is("vector.reduce.") {
            let (Ty::Vec(_, et), V::A(vs)) = (&t0, &args[0]) else { return Err(Stop::Error(n.into())) };
            let op = base["vector.reduce.".len()..].split('.').next().unwrap();
            let b = match op { "add" => B::Add, "and" => B::And, "or" => B::Or, "xor" => B::Xor, "mul" => B::Mul, _ => return Err(Stop::Error(n.into())) };
            let mut r = vs[0].clone();
            for x in &vs[1..] { r = self.bin_v(st, b, et, &r, x)?; }
            return Ok(Ret::V(r));
        }
        if is("x86.sse2.pause") { return Ok(Ret::Void); }
        if is("x86.sse2.pmovmskb.128") {
            let V::A(vs) = &args[0] else { return Err(Stop::Error(n.into())) };
            let mut e: Option<E> = None;
            for x in vs.iter() {
                let x = self.sym(x, 8);
                let b = self.ar.extract(x, 7, 1);
                e = Some(match e { None => b, Some(l) => self.ar.concat(b, l) });
            }
            let e = e.unwrap();
            let e = self.ar.zext(e, 32);
            return Ok(Ret::V(self.val(e)));
        }
        if is("stacksave") { return Ok(Ret::V(V::I(0))); }
        if is("stackrestore") { return Ok(Ret::Void); }
        if is("returnaddress") || is("frameaddress") { return Ok(Ret::V(V::I(0))); }
        if is("objectsize") { return Ok(Ret::V(V::I(!0))); }
        Err(Stop::Error(format!("intrinsic {n}")))
    }
    fn funnel(&mut self, left: bool, w: u32, a: &V, b: &V, s: &V) -> R<V> {
        if !a.is_sym() && !b.is_sym() && !s.is_sym() {
            let (a, b) = (a.u128(), b.u128());
            let k = (s.u128() % w as u128) as u32;
            let r = if k == 0 { if left { a } else { b } }
                else if left { (a << k) | (b >> (w - k)) } else { (a << (w - k)) | (b >> k) };
            return Ok(V::int(r & mask(w), w));
        }
        let Some(k) = (if s.is_sym() { None } else { Some((s.u128() % w as u128) as u32) }) else { return Err(Stop::Error("symbolic funnel shift amount".into())) };
        let (a, b) = (self.sym(a, w), self.sym(b, w));
        if k == 0 { return Ok(self.val(if left { a } else { b })); }
        let cut = if left { w - k } else { k };
        // result = a[..cut] : b[cut..]
        let hi = self.ar.extract(a, 0, cut);
        let lo = self.ar.extract(b, cut, w - cut);
        let r = self.ar.concat(hi, lo);
        Ok(self.val(r))
    }
    pub fn tls(&mut self, st: &mut State, g: u32) -> R<u64> {
        if let Some(a) = st.threads[st.cur].tls.get(&g) { return Ok(*a); }
        let init = (*self.m.global_init(g)).clone();
        let a = st.mem.alloc(Obj::of(init));
        st.threads[st.cur].tls.insert(g, a);
        Ok(a)
    }
    pub fn new_thread(&mut self, st: &mut State) -> usize {
        let id = st.threads.len();
        let errno = st.mem.alloc(Obj::zeroed(8));
        st.threads.push(Thread { id, frames: vec![], wait: Wait::Run, wake: None, stack: 0, sp: 0, tls: HashMap::new(), keys: BTreeMap::new(), dtors: vec![], retval: 0, errno, detached: false });
        id
    }
    pub fn initial(&mut self, entry: u32) -> State {
        let mut st = State {
            mem: Mem::new(self.m.globals.len()), threads: vec![], cur: 0, pc: vec![], model: Rc::new(vec![]), fs: crate::fs::Fs::new(), proc_: crate::fs::Proc::new(),
            saved: vec![], clock: 1_000_000_000, realtime: V::I(1_700_000_000_000_000_000), emits: vec![], out: vec![], err: vec![], inputs: vec![], counts: BTreeMap::new(),
            log: vec![], steps: 0, crash: None, fault: None, ops: 0, sched: -1, hashes: vec![], named: vec![], hashes_c: vec![], flags: 0, depth: 0, last_ops: 0, last_msg: String::new(), torn: 0, sched_done: None, idle: 0, during: None, points: 0,
            gdata: BTreeMap::new(),
        };
        self.new_thread(&mut st);
        let _ = self.push_frame(&mut st, entry, &[], u32::MAX, None, Tag::HarnessMain);
        st
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

mod smallvec {
    use crate::val::V;
    pub type SmallVec = Vec<V>;
    pub fn collect(i: impl Iterator<Item = V>) -> SmallVec { i.collect() }
}
