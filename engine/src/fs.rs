//! A small POSIX file system and per-process descriptor table.
use crate::mem::Obj;
use crate::val::V;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const ENOENT: i64 = 2;
pub const EIO: i64 = 5;
pub const EBADF: i64 = 9;
pub const EEXIST: i64 = 17;
pub const EXDEV: i64 = 18;
pub const ENOTDIR: i64 = 20;
pub const EISDIR: i64 = 21;
pub const EINVAL: i64 = 22;
pub const ENOTEMPTY: i64 = 39;
pub const ELOOP: i64 = 40;
pub const ENAMETOOLONG: i64 = 36;

#[derive(Clone)]
pub enum Kind {
    File(Rc<Obj>),
    Dir(BTreeMap<Vec<u8>, u64>),
    Link(Vec<u8>),
}

#[derive(Clone)]
pub struct Inode {
    pub kind: Kind,
    pub mode: V,
    pub uid: V,
    pub gid: V,
    pub mtime: (V, V),
    pub atime: (V, V),
    pub nlink: u64,
    /// content at the last fsync (power-loss model)
    pub synced: Option<Rc<Obj>>,
}

#[derive(Clone)]
pub struct Fs {
    nodes: Rc<BTreeMap<u64, Rc<Inode>>>,
    next: u64,
    /// record locks: inode, owner (its nesting depth), first, last byte, exclusive
    pub locks: Vec<(u64, usize, i64, i64, bool)>,
}

pub const ROOT: u64 = 1;

#[derive(Clone)]
pub enum What { Ino(u64), PipeR(u32), PipeW(u32), Out, Err, Null }

#[derive(Clone)]
pub struct Ofd { pub what: What, pub off: u64, pub append: bool, pub write: bool, pub nonblock: bool }

#[derive(Clone)]
pub struct DirS { pub ofd_fd: i32, pub ents: Vec<(Vec<u8>, u64, u8)>, pub pos: usize, pub buf: u64 }

/// what a child process does next
#[derive(Clone)]
pub enum Op { Copy(u8), Head(u64), End(i32), CloseOut, CloseIn }
#[derive(Clone)]
pub struct Child { pub script: Vec<Op>, pub pc: usize, pub cin: Option<u32>, pub cout: Option<u32>, pub seen: usize, pub lazy: bool, pub status: Option<i32> }

#[derive(Clone)]
pub struct Pipe { pub buf: Obj, pub readers: u32, pub writers: u32 }

#[derive(Clone)]
pub struct Proc {
    pub fds: BTreeMap<i32, u32>,
    pub ofds: BTreeMap<u32, Ofd>,
    pub next_ofd: u32,
    pub cwd: u64,
    pub dirs: BTreeMap<u64, DirS>,
    pub pipes: BTreeMap<u32, Pipe>,
    pub children: BTreeMap<i32, Child>,
    pub umask: u32,
    pub next_key: u64,
    pub key_dtors: BTreeMap<u64, u64>,
    pub rnd: u64,
    /// shared writable mappings: address, inode, offset, length
    pub shm: Vec<(u64, u64, usize, usize)>,
}

impl Proc {
    pub fn new() -> Self {
        let mut p = Proc { fds: BTreeMap::new(), ofds: BTreeMap::new(), next_ofd: 3, cwd: ROOT, dirs: BTreeMap::new(), pipes: BTreeMap::new(), children: BTreeMap::new(), umask: 0o022, next_key: 1, key_dtors: BTreeMap::new(), rnd: 0, shm: vec![] };
        for (i, w) in [What::Null, What::Out, What::Err].into_iter().enumerate() {
            p.ofds.insert(i as u32, Ofd { what: w, off: 0, append: false, write: i > 0, nonblock: false });
            p.fds.insert(i as i32, i as u32);
        }
        p
    }
    pub fn new_fd(&mut self, o: Ofd) -> i32 {
        let id = self.next_ofd;
        self.next_ofd += 1;
        self.ofds.insert(id, o);
        self.install(id)
    }
    pub fn install(&mut self, ofd: u32) -> i32 {
        let mut fd = 0;
        while self.fds.contains_key(&fd) { fd += 1; }
        self.fds.insert(fd, ofd);
        fd
    }
    pub fn ofd(&mut self, fd: i32) -> Option<&mut Ofd> {
        let id = self.fds.get(&fd)?;
        self.ofds.get_mut(id)
    }
    pub fn close(&mut self, fd: i32) -> bool {
        let Some(id) = self.fds.remove(&fd) else { return false };
        if !self.fds.values().any(|x| *x == id) && let Some(o) = self.ofds.remove(&id) {
            match o.what {
                What::PipeR(p) => if let Some(p) = self.pipes.get_mut(&p) { p.readers -= 1; },
                What::PipeW(p) => if let Some(p) = self.pipes.get_mut(&p) { p.writers -= 1; },
                _ => {}
            }
        }
        true
    }
}

impl Fs {
    pub fn new() -> Self {
        let mut m = BTreeMap::new();
        m.insert(ROOT, Rc::new(Inode { kind: Kind::Dir(BTreeMap::new()), mode: V::I(0o755), uid: V::I(0), gid: V::I(0), mtime: (V::I(0), V::I(0)), atime: (V::I(0), V::I(0)), nlink: 2, synced: None }));
        Fs { nodes: Rc::new(m), next: 2, locks: vec![] }
    }
    pub fn get(&self, i: u64) -> &Inode { &self.nodes[&i] }
    pub fn get_mut(&mut self, i: u64) -> &mut Inode { Rc::make_mut(Rc::make_mut(&mut self.nodes).get_mut(&i).unwrap()) }
    pub fn exists(&self, i: u64) -> bool { self.nodes.contains_key(&i) }
    pub fn inos(&self) -> Vec<u64> { self.nodes.keys().copied().collect() }
    pub fn dir(&self, i: u64) -> Option<&BTreeMap<Vec<u8>, u64>> {
        match &self.nodes.get(&i)?.kind { Kind::Dir(d) => Some(d), _ => None }
    }
    pub fn new_node(&mut self, kind: Kind, mode: u32, now: (V, V)) -> u64 {
        let i = self.next;
        self.next += 1;
        let nlink = if matches!(kind, Kind::Dir(_)) { 2 } else { 1 };
        Rc::make_mut(&mut self.nodes).insert(i, Rc::new(Inode { kind, mode: V::I(mode as u64), uid: V::I(0), gid: V::I(0), mtime: now.clone(), atime: now, nlink, synced: None }));
        i
    }
    pub fn link_in(&mut self, dir: u64, name: &[u8], ino: u64, now: (V, V)) {
        let d = self.get_mut(dir);
        if let Kind::Dir(m) = &mut d.kind { m.insert(name.to_vec(), ino); }
        d.mtime = now;
    }
    pub fn unlink_from(&mut self, dir: u64, name: &[u8], now: (V, V)) {
        let d = self.get_mut(dir);
        if let Kind::Dir(m) = &mut d.kind { m.remove(name); }
        d.mtime = now;
    }
    /// (parent directory, last component, inode if it exists)
    pub fn walk(&self, cwd: u64, path: &[u8], follow: bool) -> Result<(u64, Vec<u8>, Option<u64>), i64> {
        self.walk_n(cwd, path, follow, 0)
    }
    fn walk_n(&self, cwd: u64, path: &[u8], follow: bool, depth: u32) -> Result<(u64, Vec<u8>, Option<u64>), i64> {
        if depth > 20 { return Err(ELOOP); }
        if path.is_empty() { return Err(ENOENT); }
        let mut cur = if path[0] == b'/' { ROOT } else { cwd };
        let comps: Vec<&[u8]> = path.split(|c| *c == b'/').filter(|c| !c.is_empty()).collect();
        let trailing = path.ends_with(b"/");
        if comps.is_empty() { return Ok((ROOT, b".".to_vec(), Some(ROOT))); }
        let mut stack_parent = self.parents();
        for (k, c) in comps.iter().enumerate() {
            let last = k + 1 == comps.len();
            if c.len() > 255 { return Err(ENAMETOOLONG); }
            let Some(d) = self.dir(cur) else { return Err(if self.exists(cur) { ENOTDIR } else { ENOENT }) };
            let next = match *c {
                b"." => Some(cur),
                b".." => Some(*stack_parent.get(&cur).unwrap_or(&ROOT)),
                n => d.get(n).copied(),
            };
            if let Some(n) = next && let Kind::Link(t) = &self.get(n).kind && (!last || follow || trailing) {
                let t = t.clone();
                if last {
                    return self.walk_n(cur, &t, follow, depth + 1);
                }
                let (_, _, i) = self.walk_n(cur, &t, true, depth + 1)?;
                cur = i.ok_or(ENOENT)?;
                continue;
            }
            if last {
                if trailing && let Some(n) = next && self.dir(n).is_none() { return Err(ENOTDIR); }
                return Ok((cur, c.to_vec(), next));
            }
            cur = next.ok_or(ENOENT)?;
        }
        stack_parent.clear();
        unreachable!()
    }
    pub fn parents(&self) -> BTreeMap<u64, u64> {
        let mut m = BTreeMap::new();
        for (i, n) in self.nodes.iter() {
            if let Kind::Dir(d) = &n.kind {
                for c in d.values() { if matches!(self.nodes[c].kind, Kind::Dir(_)) { m.insert(*c, *i); } }
            }
        }
        m
    }
    pub fn path_of(&self, ino: u64) -> Vec<u8> {
        let ps = self.parents();
        let mut cur = ino;
        let mut out: Vec<Vec<u8>> = vec![];
        while cur != ROOT {
            let Some(p) = ps.get(&cur) else { return b"(deleted)".to_vec() };
            let n = self.dir(*p).unwrap().iter().find(|(_, i)| **i == cur).unwrap().0.clone();
            out.push(n);
            cur = *p;
        }
        if out.is_empty() { return b"/".to_vec(); }
        let mut r = vec![];
        for c in out.iter().rev() { r.push(b'/'); r.extend(c); }
        r
    }
    pub fn drop_if_unused(&mut self, ino: u64, open: bool) {
        if !open && self.get(ino).nlink == 0 { Rc::make_mut(&mut self.nodes).remove(&ino); }
    }
    pub fn all_synced(&mut self) {
        for i in self.inos() { let n = self.get_mut(i); if let Kind::File(c) = &n.kind { n.synced = Some(c.clone()); } }
    }
    pub fn power_loss(&mut self) {
        for i in self.inos() {
            let n = self.get_mut(i);
            let Kind::File(c) = &n.kind else { continue };
            match &n.synced {
                Some(s) if Rc::ptr_eq(s, c) => {}
                Some(s) => n.kind = Kind::File(s.clone()),
                None => n.kind = Kind::File(Rc::new(Obj::zeroed(0))),
            }
        }
    }
}
