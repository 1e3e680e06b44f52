//! Byte-addressed memory objects, copy-on-write, each byte concrete or a term.
use crate::expr::{Arena, E};
use crate::ir::{Module, OBJ_SHIFT};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Box<BTreeMap<u32, E>>>,
    pub ro: bool,
}

impl Obj {
    pub fn zeroed(n: usize) -> Self { Obj { data: vec![0; n], sym: None, ro: false } }
    pub fn of(data: Vec<u8>) -> Self { Obj { data, sym: None, ro: false } }
    pub fn any_sym(&self, off: usize, n: usize) -> bool {
        match &self.sym { None => false, Some(s) => s.range(off as u32..(off + n) as u32).next().is_some() }
    }
    pub fn byte(&self, ar: &mut Arena, off: usize) -> E {
        if let Some(s) = &self.sym && let Some(&e) = s.get(&(off as u32)) { return e; }
        ar.c(self.data[off] as u128, 8)
    }
    pub fn set(&mut self, off: usize, b: Byte) {
        match b {
            Byte::C(c) => { self.data[off] = c; self.clear(off, 1); }
            Byte::S(e) => { self.sym.get_or_insert_default().insert(off as u32, e); }
        }
    }
    pub fn get(&self, off: usize) -> Byte {
        if let Some(s) = &self.sym && let Some(&e) = s.get(&(off as u32)) { return Byte::S(e); }
        Byte::C(self.data[off])
    }
    pub fn clear(&mut self, off: usize, n: usize) {
        if let Some(s) = &mut self.sym {
            if n == 1 { s.remove(&(off as u32)); }
            else {
                let ks: Vec<u32> = s.range(off as u32..(off + n) as u32).map(|x| *x.0).collect();
                for k in ks { s.remove(&k); }
            }
            if s.is_empty() { self.sym = None; }
        }
    }
    /// overwrite [off, off+n) with a copy of src[so, so+n)
    pub fn copy_from(&mut self, off: usize, src: &Obj, so: usize, n: usize) {
        self.data[off..off + n].copy_from_slice(&src.data[so..so + n]);
        self.clear(off, n);
        if let Some(s) = &src.sym {
            let v: Vec<(u32, E)> = s.range(so as u32..(so + n) as u32).map(|(k, e)| (*k, *e)).collect();
            if !v.is_empty() {
                let d = self.sym.get_or_insert_default();
                for (k, e) in v { d.insert((k as usize - so + off) as u32, e); }
            }
        }
    }
    pub fn resize(&mut self, n: usize) {
        if n < self.data.len() { let l = self.data.len(); self.clear(n, l - n); }
        self.data.resize(n, 0);
    }
    pub fn slice(&self, off: usize, n: usize) -> Obj {
        let mut o = Obj::zeroed(n);
        o.copy_from(0, self, off, n);
        o
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Byte { C(u8), S(E) }

const CH: usize = 64;
#[derive(Clone)]
struct Chunk([Option<Rc<Obj>>; CH]);
impl Default for Chunk {
    fn default() -> Self { Chunk([const { None }; CH]) }
}

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    free: Vec<u32>,
    next: u32,
}

#[derive(Debug)]
pub struct Bad(pub u64, pub &'static str);

impl Mem {
    pub fn new(nglobals: usize) -> Self {
        let next = nglobals as u32 + 1;
        let c = Rc::new(Chunk::default());
        Mem { chunks: vec![c; (next as usize).div_ceil(CH)], free: vec![], next }
    }
    pub fn alloc(&mut self, o: Obj) -> u64 {
        let id = match self.free.pop() { Some(i) => i, None => { self.next += 1; self.next - 1 } };
        let ch = id as usize / CH;
        while self.chunks.len() <= ch { self.chunks.push(Rc::new(Chunk::default())); }
        Rc::make_mut(&mut self.chunks[ch]).0[id as usize % CH] = Some(Rc::new(o));
        (id as u64) << OBJ_SHIFT
    }
    pub fn free(&mut self, addr: u64) -> Result<(), Bad> {
        let id = (addr >> OBJ_SHIFT) as usize;
        if addr & 0xffff_ffff != 0 || id / CH >= self.chunks.len() { return Err(Bad(addr, "free")); }
        let c = Rc::make_mut(&mut self.chunks[id / CH]);
        if c.0[id % CH].take().is_none() { return Err(Bad(addr, "double free")); }
        self.free.push(id as u32);
        Ok(())
    }
    #[inline]
    pub fn obj(&mut self, m: &Module, addr: u64) -> Result<(&Rc<Obj>, usize), Bad> {
        let id = (addr >> OBJ_SHIFT) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        let ch = id / CH;
        if ch >= self.chunks.len() { return Err(Bad(addr, "unmapped")); }
        if self.chunks[ch].0[id % CH].is_none() {
            self.materialize(m, id, addr)?;
        }
        Ok((self.chunks[ch].0[id % CH].as_ref().unwrap(), off))
    }
    #[cold]
    fn materialize(&mut self, m: &Module, id: usize, addr: u64) -> Result<(), Bad> {
        if id == 0 || id > m.globals.len() { return Err(Bad(addr, "dangling")); }
        let g = &m.globals[id - 1];
        let init = if g.external { vec![0; 64] } else { (*m.global_init(id as u32 - 1)).clone() };
        let o = Obj { data: init, sym: None, ro: g.is_const };
        Rc::make_mut(&mut self.chunks[id / CH]).0[id % CH] = Some(Rc::new(o));
        Ok(())
    }
    #[inline]
    pub fn obj_mut(&mut self, m: &Module, addr: u64) -> Result<(&mut Obj, usize), Bad> {
        let id = (addr >> OBJ_SHIFT) as usize;
        self.obj(m, addr)?;
        let off = (addr & 0xffff_ffff) as usize;
        let c = Rc::make_mut(&mut self.chunks[id / CH]);
        let o = Rc::make_mut(c.0[id % CH].as_mut().unwrap());
        Ok((o, off))
    }
    pub fn check(&mut self, m: &Module, addr: u64, n: usize) -> Result<(), Bad> {
        if n == 0 { return Ok(()); }
        let (o, off) = self.obj(m, addr)?;
        if off + n > o.data.len() { return Err(Bad(addr, "out of bounds")); }
        Ok(())
    }
    pub fn copy(&mut self, m: &Module, dst: u64, src: u64, n: usize) -> Result<(), Bad> {
        if n == 0 { return Ok(()); }
        self.check(m, src, n)?;
        self.check(m, dst, n)?;
        let (o, so) = self.obj(m, src)?;
        if o.sym.is_none() {
            if dst >> OBJ_SHIFT == src >> OBJ_SHIFT {
                let (o, d) = self.obj_mut(m, dst)?;
                o.data.copy_within(so..so + n, d);
                return Ok(());
            }
            let o = o.clone();
            let (d, doff) = self.obj_mut(m, dst)?;
            d.data[doff..doff + n].copy_from_slice(&o.data[so..so + n]);
            d.clear(doff, n);
            return Ok(());
        }
        let part = o.slice(so, n);
        let (d, doff) = self.obj_mut(m, dst)?;
        d.copy_from(doff, &part, 0, n);
        Ok(())
    }
    pub fn write(&mut self, m: &Module, addr: u64, b: &[u8]) -> Result<(), Bad> {
        if b.is_empty() { return Ok(()); }
        self.check(m, addr, b.len())?;
        let (o, off) = self.obj_mut(m, addr)?;
        o.data[off..off + b.len()].copy_from_slice(b);
        o.clear(off, b.len());
        Ok(())
    }
    pub fn write_obj(&mut self, m: &Module, addr: u64, src: &Obj, so: usize, n: usize) -> Result<(), Bad> {
        if n == 0 { return Ok(()); }
        self.check(m, addr, n)?;
        let (o, off) = self.obj_mut(m, addr)?;
        o.copy_from(off, src, so, n);
        Ok(())
    }
    pub fn read_obj(&mut self, m: &Module, addr: u64, n: usize) -> Result<Obj, Bad> {
        if n == 0 { return Ok(Obj::zeroed(0)); }
        self.check(m, addr, n)?;
        let (o, off) = self.obj(m, addr)?;
        Ok(o.slice(off, n))
    }
}
