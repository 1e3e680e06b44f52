//! Models of the libc functions the program calls, and the harness interface.
//! Rule: anything that can fork (branch, concretize) comes before any side effect.
use crate::exec::*;
use crate::expr::{B, E};
use crate::fs::{self, *};
use crate::ir::CallI;
use crate::mem::{Byte, Obj};
use crate::state::*;
use crate::val::V;
use std::rc::Rc;
use std::sync::atomic::Ordering::SeqCst;

type M = fn(&mut Exec, &mut State, &[V], &CallI) -> R<Ret>;
const MINUS1: u64 = u64::MAX;

fn err(x: &mut Exec, st: &mut State, e: i64) -> R<Ret> {
    let a = st.threads[st.cur].errno;
    st.mem.write(x.m, a, &(e as i32).to_le_bytes())?;
    Ok(Ret::V(V::I(MINUS1)))
}
fn ok(v: u64) -> R<Ret> { Ok(Ret::V(V::I(v))) }
fn u(x: &mut Exec, st: &mut State, a: &[V], i: usize) -> R<u64> { x.concretize(st, &a[i], 64) }
fn i32a(x: &mut Exec, st: &mut State, a: &[V], i: usize) -> R<i32> { Ok(x.concretize(st, &a[i], 32)? as u32 as i32) }
fn path(x: &mut Exec, st: &mut State, a: &[V], i: usize) -> R<Vec<u8>> { let p = u(x, st, a, i)?; x.cstr(st, p) }
fn s(b: &[u8]) -> String { String::from_utf8_lossy(b).into_owned() }

fn now(st: &State) -> (V, V) {
    match &st.realtime {
        V::I(t) => { let t = t + (st.clock - 1_000_000_000); (V::I(t / 1_000_000_000), V::I(t % 1_000_000_000)) }
        _ => (V::I(0), V::I(0)),
    }
}

/// The file system is about to be looked at or changed: another process's turn?
fn point(x: &mut Exec, st: &mut State) -> R<bool> {
    let Some(d) = st.during.clone() else { return Ok(false) };
    let k = x.sym(&d.k, 64);
    let kc = x.ar.c(st.points as u128, 64);
    let q = x.ar.eq(k, kc);
    if !x.branch(st, q)? { return Ok(false); }
    st.log.push(format!("another process, before access #{}", st.points));
    st.during = None;
    shm_out(x.m, st);
    st.saved.push(Saved { mem: st.mem.clone(), threads: st.threads.clone(), cur: st.cur, proc_: st.proc_.clone(), crash: st.crash.take(), fault: st.fault.take(), sched: st.sched, ops: st.ops, torn: st.torn, during: None, points: st.points, again: true });
    st.ops = 0;
    st.torn = 0;
    st.mem = d.mem.clone();
    st.threads = d.threads.clone();
    st.cur = d.cur;
    st.proc_ = d.proc_.clone();
    *st.counts.entry("\u{1}process".into()).or_insert(0) += 1;
    st.proc_.rnd = st.proc_.rnd.wrapping_add(0x9e3779b97f4a7c15u64.wrapping_mul(st.counts.values().map(|v| *v as u64).sum::<u64>() + 1));
    let cur = st.cur;
    for (i, t) in st.threads.iter_mut().enumerate() { if i != cur { t.wait = Wait::Done; t.frames.clear(); } }
    st.threads[cur].frames.clear();
    x.push_frame(st, d.f, &[d.data.clone()], u32::MAX, None, Tag::ProcMain)?;
    Ok(true)
}
macro_rules! point { ($x:expr, $st:expr) => { if point($x, $st)? { return Ok(Ret::Reload); } $st.points += 1; } }
/// What is mapped and shared goes to the file.
pub fn shm_out(m: &crate::ir::Module, st: &mut State) {
    for (a, i, off, n) in st.proc_.shm.clone() {
        let Ok(o) = st.mem.read_obj(m, a, n) else { continue };
        if !st.fs.exists(i) { continue; }
        if let fs::Kind::File(c) = &mut st.fs.get_mut(i).kind {
            let k = n.min(c.data.len().saturating_sub(off));
            if k > 0 { Rc::make_mut(c).copy_from(off, &o, 0, k); }
        }
    }
}
/// And comes back, changed by others.
pub fn shm_in(m: &crate::ir::Module, st: &mut State) -> R<()> {
    for (a, i, off, n) in st.proc_.shm.clone() {
        if !st.fs.exists(i) { continue; }
        if let fs::Kind::File(c) = &st.fs.get(i).kind {
            let c = c.clone();
            let k = n.min(c.data.len().saturating_sub(off));
            st.mem.write_obj(m, a, &c, off, k)?;
        }
    }
    Ok(())
}
/// Waiting for what another process holds: it does not go on meanwhile here.
fn sx_waiting(_: &mut Exec, st: &mut State, _: &[V], _: &CallI) -> R<Ret> {
    if std::env::var("SX_LOCKS").is_ok() { eprintln!("waiting at {}: {:?}", st.saved.len(), st.fs.locks); }
    if st.saved.len() > 1 { return Err(Stop::Infeasible); }
    Ok(Ret::Void)
}
fn setlk(x: &mut Exec, st: &mut State, a: &[V], get: bool) -> R<Ret> {
    let fd = i32a(x, st, a, 0)?;
    let p = u(x, st, a, 2)?;
    let Some(ino) = ino_of(st, fd) else { return err(x, st, EBADF) };
    let mut ld = |x: &mut Exec, st: &mut State, o: u64, n: usize| -> R<u64> { let v = x.load_int(st, p + o, n)?; x.concretize(st, &v, 8 * n as u32) };
    let (ty, start, len) = (ld(x, st, 0, 2)?, ld(x, st, 8, 8)? as i64, ld(x, st, 16, 8)? as i64);
    let end = if len == 0 { i64::MAX } else { start + len - 1 };
    let me = st.saved.len();
    let meets = |l: &(u64, usize, i64, i64, bool)| l.0 == ino && l.2 <= end && l.3 >= start;
    let other = st.fs.locks.iter().find(|l| meets(l) && l.1 != me && (ty == 1 || l.4)).copied();
    let bad = ty != 2 && other.is_some();
    if get {
        // F_RDLCK, F_WRLCK, F_UNLCK
        st.mem.write(x.m, p, &(match other { Some(l) if bad => l.4 as u16, _ => 2 }).to_le_bytes())?;
        return ok(0);
    }
    if bad { return err(x, st, 11); }
    let old = std::mem::take(&mut st.fs.locks);
    for l in old {
        if l.1 != me || !meets(&l) { st.fs.locks.push(l); continue; }
        if l.2 < start { st.fs.locks.push((l.0, l.1, l.2, start - 1, l.4)); }
        if l.3 > end { st.fs.locks.push((l.0, l.1, end + 1, l.3, l.4)); }
    }
    if ty != 2 { st.fs.locks.push((ino, me, start, end, ty == 1)); }
    ok(0)
}
fn sx_meanwhile(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let f = u(x, st, a, 1)?;
    let f = x.m.addr_func(f).ok_or(Stop::Error("sx_meanwhile".into()))?;
    if st.saved.is_empty() { return Err(Stop::Error("sx_meanwhile outside a process".into())); }
    st.during = Some(Rc::new(During { k: a[0].clone(), f, data: a[2].clone(), mem: st.mem.clone(), threads: st.threads.clone(), cur: st.cur, proc_: st.proc_.clone() }));
    st.points = 0;
    Ok(Ret::Void)
}
pub enum Mut { Go, Fail(i64), End(Ctl) }
/// A mutation of the file system is about to happen: crash or fail here?
fn mutate(x: &mut Exec, st: &mut State, what: impl FnOnce() -> String) -> R<Mut> {
    x.sched_point(st)?;
    // forks first: the counters are only advanced once all is decided
    if point(x, st)? { return Ok(Mut::End(Ctl::Reload)); }
    let k = st.ops;
    if let Some(c) = st.crash.clone() {
        let c = x.sym(&c, 64);
        let kc = x.ar.c(k as u128, 64);
        let q = x.ar.eq(c, kc);
        if x.branch(st, q)? {
            st.log.push(format!("CRASH before #{k} {}", what()));
            return Ok(Mut::End(x.end_process(st, 2, 0)?));
        }
    }
    let mut fail = None;
    if let Some(c) = st.fault.clone() && st.gdata.get(&10) != Some(&1) {
        let c = x.sym(&c, 64);
        let kc = x.ar.c(k as u128, 64);
        let q = x.ar.eq(c, kc);
        if x.branch(st, q)? { fail = Some(()); }
    }
    st.points += 1;
    let w = what();
    if x.cfg.trace { eprintln!("  op #{k} {w}"); }
    st.ops += 1;
    if fail.is_some() {
        st.log.push(format!("FAIL #{k} {w}"));
        return Ok(Mut::Fail(if w.starts_with("write") || w.starts_with("create") { 28 } else { fs::EIO }));
    }
    st.log.push(format!("#{k} {w}"));
    Ok(Mut::Go)
}
/// Does this access fail? (Under knob 10, which makes reads fail rather than writes.)
fn unreadable(x: &mut Exec, st: &mut State, w: String) -> R<bool> {
    let Some(c) = st.fault.clone() else { return Ok(false) };
    if ["/etc", "/usr", "/proc", "/dev", "/sys"].iter().any(|d| w.starts_with(d)) { return Ok(false); }
    let k = st.gdata.get(&11).copied().unwrap_or(0);
    let c = x.sym(&c, 64);
    let kc = x.ar.c(k as u128, 64);
    let q = x.ar.eq(c, kc);
    let r = x.branch(st, q)?;
    st.gdata.insert(11, k + 1);
    if r { st.log.push(format!("FAIL to read #{k} {w}")); }
    Ok(r)
}
macro_rules! readable { ($x:expr, $st:expr, $w:expr) => { if $st.gdata.get(&10) == Some(&1) && { let w = $w; unreadable($x, $st, w)? } { return err($x, $st, fs::EIO); } }; }
macro_rules! mutate {
    ($x:expr, $st:expr, $($a:tt)*) => {
        match mutate($x, $st, || format!($($a)*))? {
            Mut::Go => {}
            Mut::Fail(e) => return err($x, $st, e),
            Mut::End(_) => return Ok(Ret::Reload),
        }
    };
}

pub fn fill(x: &mut Exec, st: &mut State, d: u64, v: &V, n: usize) -> R<()> {
    if n == 0 { return Ok(()); }
    st.mem.check(x.m, d, n)?;
    let (o, off) = st.mem.obj_mut(x.m, d)?;
    match v {
        V::I(b) => { o.data[off..off + n].fill(*b as u8); o.clear(off, n); }
        V::S(e) => for k in 0..n { o.set(off + k, Byte::S(*e)); },
        _ => return Err(Stop::Error("memset".into())),
    }
    Ok(())
}

/// core::fmt::num's digits of an i128: written to the end of a buffer; gives the place of the first.
fn i128_digits(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let n = match &a[0] {
        V::S(e) => {
            let v = x.eval(st, *e);
            let c = x.ar.c(v, 128);
            let eq = x.ar.eq(*e, c);
            x.branch(st, eq)?;
            v
        }
        v => v.u128(),
    };
    let (buf, len) = (u(x, st, a, 1)?, u(x, st, a, 2)?);
    let d = n.to_string();
    let at = len - d.len() as u64;
    for (k, b) in d.bytes().enumerate() { x.store_int(st, &V::I(b as u64), buf + at + k as u64, 1)?; }
    ok(at)
}
// ---- memory
fn malloc(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let n = u(x, st, a, 0)? as usize;
    if n > 1 << 31 { return Err(Stop::Error(format!("allocation of {n} bytes"))); }
    ok(st.mem.alloc(Obj::zeroed(n)))
}
fn calloc(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let n = (u(x, st, a, 0)? * u(x, st, a, 1)?) as usize;
    if n > 1 << 31 { return Err(Stop::Error(format!("allocation of {n} bytes"))); }
    ok(st.mem.alloc(Obj::zeroed(n)))
}
fn realloc(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let p = u(x, st, a, 0)?;
    let n = u(x, st, a, 1)? as usize;
    if n > 1 << 31 { return Err(Stop::Error(format!("allocation of {n} bytes"))); }
    if p == 0 { return ok(st.mem.alloc(Obj::zeroed(n))); }
    let (o, _) = st.mem.obj_mut(x.m, p)?;
    let mut o = std::mem::take(o);
    if o.data.capacity() < n { o.data.reserve(n - o.data.len()); }
    o.resize(n);
    st.mem.free(p)?;
    ok(st.mem.alloc(o))
}
fn free(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let p = u(x, st, a, 0)?;
    if p != 0 { st.mem.free(p)?; }
    Ok(Ret::Void)
}
fn posix_memalign(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let n = u(x, st, a, 2)? as usize;
    let p = st.mem.alloc(Obj::zeroed(n));
    st.mem.write(x.m, a[0].i(), &p.to_le_bytes())?;
    ok(0)
}
fn memset(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let (d, n) = (u(x, st, a, 0)?, u(x, st, a, 2)? as usize);
    let v = match &a[1] { V::S(e) => { let e = x.ar.trunc(*e, 8); x.val(e) } v => V::I(v.i() & 255) };
    fill(x, st, d, &v, n)?;
    ok(d)
}
fn memcpy(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let (d, q, n) = (u(x, st, a, 0)?, u(x, st, a, 1)?, u(x, st, a, 2)? as usize);
    st.mem.copy(x.m, d, q, n)?;
    ok(d)
}
fn strlen(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> { let v = path(x, st, a, 0)?; ok(v.len() as u64) }
fn memcmp(x: &mut Exec, st: &mut State, a: &[V], c: &CallI) -> R<Ret> { cmp(x, st, a, c, false) }
fn bcmp(x: &mut Exec, st: &mut State, a: &[V], c: &CallI) -> R<Ret> { cmp(x, st, a, c, true) }
fn cmp(x: &mut Exec, st: &mut State, a: &[V], _: &CallI, eq_only: bool) -> R<Ret> {
    let n = u(x, st, a, 2)? as usize;
    if n == 0 { return ok(0); }
    let (p, q) = (u(x, st, a, 0)?, u(x, st, a, 1)?);
    st.mem.check(x.m, p, n)?;
    st.mem.check(x.m, q, n)?;
    let (o1, f1) = { let (o, f) = st.mem.obj(x.m, p)?; (o.clone(), f) };
    let (o2, f2) = { let (o, f) = st.mem.obj(x.m, q)?; (o.clone(), f) };
    if !o1.any_sym(f1, n) && !o2.any_sym(f2, n) {
        let r = o1.data[f1..f1 + n].cmp(&o2.data[f2..f2 + n]) as i32;
        return ok(r as u32 as u64);
    }
    let w = 32;
    if eq_only {
        let mut all = x.ar.c(1, 1);
        for k in 0..n {
            let (b1, b2) = (o1.byte(&mut x.ar, f1 + k), o2.byte(&mut x.ar, f2 + k));
            let e = x.ar.eq(b1, b2);
            all = x.ar.bin(B::And, all, e);
            if x.ar.cst(all) == Some(0) { break; }
        }
        let (z, one) = (x.ar.c(0, w), x.ar.c(1, w));
        let r = x.ar.ite(all, z, one);
        return Ok(Ret::V(x.val(r)));
    }
    let mut r = x.ar.c(0, w);
    for k in (0..n).rev() {
        let (b1, b2) = (o1.byte(&mut x.ar, f1 + k), o2.byte(&mut x.ar, f2 + k));
        let e = x.ar.eq(b1, b2);
        let (z1, z2) = (x.ar.zext(b1, w), x.ar.zext(b2, w));
        let d = x.ar.bin(B::Sub, z1, z2);
        r = x.ar.ite(e, r, d);
    }
    Ok(Ret::V(x.val(r)))
}
fn mmap64(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let n = u(x, st, a, 1)? as usize;
    let fd = i32a(x, st, a, 4)?;
    let off = u(x, st, a, 5)? as usize;
    if fd < 0 { return ok(st.mem.alloc(Obj::zeroed(n))); }
    let Some(o) = st.proc_.ofd(fd) else { return err(x, st, EBADF) };
    let What::Ino(i) = o.what else { return err(x, st, EINVAL) };
    let fs::Kind::File(c) = &st.fs.get(i).kind else { return err(x, st, EINVAL) };
    let c = c.clone();
    let mut o = Obj::zeroed(n);
    let m = n.min(c.data.len().saturating_sub(off));
    o.copy_from(0, &c, off, m);
    let p = st.mem.alloc(o);
    if u(x, st, a, 2)? & 2 != 0 && u(x, st, a, 3)? & 1 != 0 { st.proc_.shm.push((p, i, off, n)); }
    ok(p)
}
fn munmap(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let p = u(x, st, a, 0)?;
    if st.proc_.shm.iter().any(|s| s.0 == p) {
        shm_out(x.m, st);
        st.proc_.shm.retain(|s| s.0 != p);
    }
    st.mem.free(p)?;
    ok(0)
}

// ---- descriptors
fn ino_of(st: &mut State, fd: i32) -> Option<u64> {
    match st.proc_.ofd(fd)?.what { What::Ino(i) => Some(i), _ => None }
}
fn base(x: &mut Exec, st: &mut State, fd: i32) -> Result<u64, i64> {
    let _ = x;
    if fd == -100 { return Ok(st.proc_.cwd); }
    ino_of(st, fd).ok_or(EBADF)
}
fn do_open(x: &mut Exec, st: &mut State, dir: i32, p: &[u8], flags: u64, mode: u64) -> R<Ret> {
    const CREAT: u64 = 0o100;
    const EXCL: u64 = 0o200;
    const TRUNC: u64 = 0o1000;
    const APPEND: u64 = 0o2000;
    const DIRECTORY: u64 = 0o200000;
    const NOFOLLOW: u64 = 0o400000;
    const TMPFILE: u64 = 0o20000000;
    let acc = flags & 3;
    if acc == 0 && !["/etc", "/usr", "/proc", "/dev", "/sys"].iter().any(|d| p.starts_with(d.as_bytes())) { point!(x, st); }
    if p == b"/dev/null" { let fd = st.proc_.new_fd(Ofd { what: What::Null, off: 0, append: false, write: true, nonblock: false }); return ok(fd as u64); }
    let cwd = match base(x, st, dir) { Ok(c) => c, Err(e) => return err(x, st, e) };
    if flags & TMPFILE == TMPFILE { return err(x, st, 95); }
    if acc == 0 { readable!(x, st, s(p)); }
    let follow = flags & NOFOLLOW == 0 && flags & (CREAT | EXCL) != (CREAT | EXCL);
    let (d, name, ino) = match st.fs.walk(cwd, p, follow) { Ok(r) => r, Err(e) => return err(x, st, e) };
    let t = now(st);
    let ino = match ino {
        Some(i) => {
            if flags & CREAT != 0 && flags & EXCL != 0 { return err(x, st, EEXIST); }
            match &st.fs.get(i).kind {
                fs::Kind::Dir(_) => if acc != 0 || flags & CREAT != 0 { return err(x, st, EISDIR); },
                fs::Kind::Link(_) => return err(x, st, ELOOP),
                fs::Kind::File(c) => {
                    if flags & DIRECTORY != 0 { return err(x, st, ENOTDIR); }
                    if flags & TRUNC != 0 && acc != 0 && !c.data.is_empty() {
                        mutate!(x, st, "truncate {}", s(p));
                        let n = st.fs.get_mut(i);
                        n.kind = fs::Kind::File(Rc::new(Obj::zeroed(0)));
                        n.mtime = t;
                    }
                }
            }
            i
        }
        None => {
            if flags & CREAT == 0 { return err(x, st, ENOENT); }
            if p.ends_with(b"/") { return err(x, st, EISDIR); }
            mutate!(x, st, "create {}", s(p));
            let m = mode as u32 & !st.proc_.umask & 0o7777;
            let i = st.fs.new_node(fs::Kind::File(Rc::new(Obj::zeroed(0))), m, t.clone());
            st.fs.link_in(d, &name, i, t);
            i
        }
    };
    let fd = st.proc_.new_fd(Ofd { what: What::Ino(ino), off: 0, append: flags & APPEND != 0, write: acc != 0, nonblock: false });
    ok(fd as u64)
}
fn open(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let p = path(x, st, a, 0)?;
    let f = i32a(x, st, a, 1)? as u64;
    let m = if a.len() > 2 { u(x, st, a, 2)? } else { 0 };
    do_open(x, st, -100, &p, f, m)
}
fn openat(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let d = i32a(x, st, a, 0)?;
    let p = path(x, st, a, 1)?;
    let f = i32a(x, st, a, 2)? as u64;
    let m = if a.len() > 3 { u(x, st, a, 3)? } else { 0 };
    do_open(x, st, d, &p, f, m)
}
fn close(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let fd = i32a(x, st, a, 0)?;
    let ino = ino_of(st, fd);
    if !st.proc_.close(fd) { return err(x, st, EBADF); }
    if let Some(i) = ino {
        let me = st.saved.len();
        st.fs.locks.retain(|l| l.0 != i || l.1 != me);
        let open = st.is_open(i);
        if st.fs.exists(i) { st.fs.drop_if_unused(i, open); }
    }
    x.poke(st);
    ok(0)
}
/// read n bytes at off of what fd refers to; None: would block
fn do_read(x: &mut Exec, st: &mut State, fd: i32, buf: u64, n: usize, at: Option<u64>) -> R<Ret> {
    let Some(o) = st.proc_.ofd(fd) else { return err(x, st, EBADF) };
    let (what, off) = (o.what.clone(), at.unwrap_or(o.off));
    match what {
        What::Null => ok(0),
        What::Out | What::Err => err(x, st, EBADF),
        What::PipeW(_) => err(x, st, EBADF),
        What::Ino(i) => {
            let fs::Kind::File(c) = &st.fs.get(i).kind else { return err(x, st, EISDIR) };
            let c = c.clone();
            readable!(x, st, s(&file_name(st, i)));
            let m = n.min((c.data.len() as u64).saturating_sub(off) as usize);
            st.mem.write_obj(x.m, buf, &c, off as usize, m)?;
            if at.is_none() { st.proc_.ofd(fd).unwrap().off += m as u64; }
            ok(m as u64)
        }
        What::PipeR(p) => {
            x.sched_point(st)?;
            let pp = st.proc_.pipes.get_mut(&p).unwrap();
            if pp.buf.data.is_empty() {
                if pp.writers == 0 { return ok(0); }
                let cur = st.cur;
                st.threads[cur].wait = Wait::Retry;
                return Ok(Ret::Block);
            }
            let m = n.min(pp.buf.data.len());
            let b = pp.buf.slice(0, m);
            let rest = pp.buf.data.len() - m;
            pp.buf = pp.buf.slice(m, rest);
            st.mem.write_obj(x.m, buf, &b, 0, m)?;
            x.poke(st);
            ok(m as u64)
        }
    }
}
fn read(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let (fd, p, n) = (i32a(x, st, a, 0)?, u(x, st, a, 1)?, u(x, st, a, 2)? as usize);
    do_read(x, st, fd, p, n, None)
}
fn pread64(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let (fd, p, n, o) = (i32a(x, st, a, 0)?, u(x, st, a, 1)?, u(x, st, a, 2)? as usize, u(x, st, a, 3)?);
    do_read(x, st, fd, p, n, Some(o))
}
fn put_file(st: &mut State, i: u64, off: usize, src: &Obj, t: (V, V)) {
    let n = st.fs.get_mut(i);
    if let fs::Kind::File(c) = &mut n.kind {
        let c = Rc::make_mut(c);
        let m = src.data.len();
        if c.data.len() < off + m { c.resize(off + m); }
        c.copy_from(off, src, 0, m);
    }
    n.mtime = t;
}
fn do_write(x: &mut Exec, st: &mut State, fd: i32, src: Obj, at: Option<u64>) -> R<Ret> {
    let Some(o) = st.proc_.ofd(fd) else { return err(x, st, EBADF) };
    let (what, mut off, app) = (o.what.clone(), at.unwrap_or(o.off), o.append);
    let n = src.data.len();
    match what {
        What::Null => ok(n as u64),
        What::Out => { st.out.extend(&src.data); if st.out.len() > 1 << 16 { st.out.drain(..1 << 15); } ok(n as u64) }
        What::Err => {
            if x.cfg.verbose { eprint!("{}", s(&src.data)); }
            st.err.extend(&src.data);
            if st.err.len() > 1 << 16 { st.err.drain(..1 << 15); }
            ok(n as u64)
        }
        What::PipeR(_) => err(x, st, EBADF),
        What::PipeW(p) => {
            x.sched_point(st)?;
            let pp = st.proc_.pipes.get_mut(&p).unwrap();
            if pp.readers == 0 { return err(x, st, 32); }
            let cap = 65536usize;
            if pp.buf.data.len() >= cap {
                let cur = st.cur;
                st.threads[cur].wait = Wait::Retry;
                return Ok(Ret::Block);
            }
            let m = n.min(cap - pp.buf.data.len());
            let l = pp.buf.data.len();
            pp.buf.resize(l + m);
            pp.buf.copy_from(l, &src, 0, m);
            x.poke(st);
            ok(m as u64)
        }
        What::Ino(i) => {
            if n == 0 { return ok(0); }
            let fs::Kind::File(c) = &st.fs.get(i).kind else { return err(x, st, EISDIR) };
            if app { off = c.data.len() as u64; }
            // a crash can also leave a prefix of the data behind
            let name = s(&file_name(st, i));
            if st.torn & 1 == 1 && n > 1 && let Some(c) = st.crash.clone() {
                let k = (st.ops + 1_000_000) as u128;
                let c = x.sym(&c, 64);
                let kc = x.ar.c(k, 64);
                let q = x.ar.eq(c, kc);
                if x.branch(st, q)? {
                    st.log.push(format!("CRASH in the middle of #{} write {name} {off}+{n}", st.ops));
                    let half = src.slice(0, n / 2);
                    let t = now(st);
                    put_file(st, i, off as usize, &half, t);
                    x.end_process(st, 2, 0)?;
                    return Ok(Ret::Reload);
                }
            }
            mutate!(x, st, "write {name} {off}+{n}");
            let t = now(st);
            put_file(st, i, off as usize, &src, t);
            if at.is_none() { st.proc_.ofd(fd).unwrap().off = off + n as u64; }
            ok(n as u64)
        }
    }
}
fn file_name(st: &State, i: u64) -> Vec<u8> {
    for d in st.fs.inos() {
        if let Some(m) = st.fs.dir(d) {
            for (n, j) in m { if *j == i { let mut p = st.fs.path_of(d); if p != b"/" { p.push(b'/'); } p.extend(n); return p; } }
        }
    }
    b"(unlinked)".to_vec()
}
fn write(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let (fd, p, n) = (i32a(x, st, a, 0)?, u(x, st, a, 1)?, u(x, st, a, 2)? as usize);
    let b = if fd <= 2 { Obj::of(x.read_bytes(st, p, n)?) } else { st.mem.read_obj(x.m, p, n)? };
    do_write(x, st, fd, b, None)
}
fn pwrite64(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let (fd, p, n, o) = (i32a(x, st, a, 0)?, u(x, st, a, 1)?, u(x, st, a, 2)? as usize, u(x, st, a, 3)?);
    let b = st.mem.read_obj(x.m, p, n)?;
    do_write(x, st, fd, b, Some(o))
}
fn iov(x: &mut Exec, st: &mut State, a: &[V]) -> R<Vec<(u64, usize)>> {
    let (p, n) = (u(x, st, a, 1)?, i32a(x, st, a, 2)?);
    let mut v = vec![];
    for k in 0..n as u64 {
        let b = x.load_int(st, p + k * 16, 8)?;
        let l = x.load_int(st, p + k * 16 + 8, 8)?;
        v.push((x.concretize(st, &b, 64)?, x.concretize(st, &l, 64)? as usize));
    }
    Ok(v)
}
fn writev(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let fd = i32a(x, st, a, 0)?;
    let v = iov(x, st, a)?;
    let mut all = Obj::zeroed(0);
    for (p, n) in v {
        let b = if fd <= 2 { Obj::of(x.read_bytes(st, p, n)?) } else { st.mem.read_obj(x.m, p, n)? };
        let l = all.data.len();
        all.resize(l + n);
        all.copy_from(l, &b, 0, n);
    }
    do_write(x, st, fd, all, None)
}
fn readv(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let fd = i32a(x, st, a, 0)?;
    let v = iov(x, st, a)?;
    match v.iter().find(|b| b.1 > 0) { Some((p, n)) => do_read(x, st, fd, *p, *n, None), None => ok(0) }
}
fn lseek64(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let (fd, off, wh) = (i32a(x, st, a, 0)?, u(x, st, a, 1)? as i64, i32a(x, st, a, 2)?);
    let Some(i) = ino_of(st, fd) else { return err(x, st, 29) };
    let len = match &st.fs.get(i).kind { fs::Kind::File(c) => c.data.len() as i64, _ => 0 };
    let o = st.proc_.ofd(fd).unwrap();
    let n = match wh { 0 => off, 1 => o.off as i64 + off, 2 => len + off, _ => return err(x, st, EINVAL) };
    if n < 0 { return err(x, st, EINVAL); }
    o.off = n as u64;
    ok(n as u64)
}
fn ftruncate64(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let (fd, n) = (i32a(x, st, a, 0)?, u(x, st, a, 1)? as usize);
    let Some(i) = ino_of(st, fd) else { return err(x, st, EINVAL) };
    let name = s(&file_name(st, i));
    mutate!(x, st, "truncate {name} to {n}");
    let t = now(st);
    let nd = st.fs.get_mut(i);
    if let fs::Kind::File(c) = &mut nd.kind { Rc::make_mut(c).resize(n); }
    nd.mtime = t;
    ok(0)
}
fn fsync(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let fd = i32a(x, st, a, 0)?;
    let Some(i) = ino_of(st, fd) else { return err(x, st, EINVAL) };
    let n = st.fs.get_mut(i);
    if let fs::Kind::File(c) = &n.kind { n.synced = Some(c.clone()); }
    ok(0)
}
fn copy_unsupported(x: &mut Exec, st: &mut State, _: &[V], _: &CallI) -> R<Ret> { err(x, st, 38) }
fn einval(x: &mut Exec, st: &mut State, _: &[V], _: &CallI) -> R<Ret> { err(x, st, EINVAL) }
fn dup(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let fd = i32a(x, st, a, 0)?;
    let Some(&id) = st.proc_.fds.get(&fd) else { return err(x, st, EBADF) };
    let n = st.proc_.install(id);
    ok(n as u64)
}
fn dup2(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let (fd, to) = (i32a(x, st, a, 0)?, i32a(x, st, a, 1)?);
    let Some(&id) = st.proc_.fds.get(&fd) else { return err(x, st, EBADF) };
    if fd != to { st.proc_.close(to); st.proc_.fds.insert(to, id); }
    ok(to as u64)
}
fn fcntl(x: &mut Exec, st: &mut State, a: &[V], c: &CallI) -> R<Ret> {
    match i32a(x, st, a, 1)? {
        0 | 1030 => dup(x, st, a, c),
        3 => { let fd = i32a(x, st, a, 0)?; let w = match st.proc_.ofd(fd) { Some(o) => o.write, None => return err(x, st, EBADF) }; ok(if w { 2 } else { 0 }) }
        1 | 2 | 4 => ok(0),
        6 | 7 => setlk(x, st, a, false),
        5 => setlk(x, st, a, true),
        _ => err(x, st, EINVAL),
    }
}
fn ioctl(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    // FIONBIO, FIOCLEX succeed; terminal queries do not
    match u(x, st, a, 1)? { 0x5421 | 0x5451 => ok(0), _ => err(x, st, 25) }
}
fn isatty(x: &mut Exec, st: &mut State, _: &[V], _: &CallI) -> R<Ret> { err(x, st, 25)?; ok(0) }
fn poll(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let (p, n) = (u(x, st, a, 0)?, u(x, st, a, 1)?);
    let mut ready = 0;
    let mut rev = vec![];
    for k in 0..n {
        let v = x.load_int(st, p + k * 8, 4)?;
        let fd = x.concretize(st, &v, 32)? as u32 as i32;
        let r = match st.proc_.ofd(fd).map(|o| o.what.clone()) {
            None => 0x20u16,
            Some(What::PipeR(q)) => { let q = &st.proc_.pipes[&q]; (if !q.buf.data.is_empty() { 1 } else { 0 }) | (if q.writers == 0 { 0x10 } else { 0 }) }
            Some(_) => 1,
        };
        if r != 0 { ready += 1; }
        rev.push(r);
    }
    if ready == 0 && n > 0 && i32a(x, st, a, 2)? != 0 {
        let cur = st.cur;
        st.threads[cur].wait = Wait::Retry;
        return Ok(Ret::Block);
    }
    for (k, r) in rev.iter().enumerate() { st.mem.write(x.m, p + k as u64 * 8 + 6, &r.to_le_bytes())?; }
    ok(ready)
}
fn pipe2(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let p = u(x, st, a, 0)?;
    let id = st.proc_.next_ofd + 1000;
    st.proc_.pipes.insert(id, Pipe { buf: Obj::zeroed(0), readers: 1, writers: 1 });
    let r = st.proc_.new_fd(Ofd { what: What::PipeR(id), off: 0, append: false, write: false, nonblock: false });
    let w = st.proc_.new_fd(Ofd { what: What::PipeW(id), off: 0, append: false, write: true, nonblock: false });
    st.mem.write(x.m, p, &r.to_le_bytes())?;
    st.mem.write(x.m, p + 4, &w.to_le_bytes())?;
    ok(0)
}

// ---- metadata
fn put_stat(x: &mut Exec, st: &mut State, i: u64, buf: u64) -> R<Ret> {
    let n = st.fs.get(i).clone();
    let (ty, size) = match &n.kind { fs::Kind::File(c) => (0o100000u64, c.data.len() as u64), fs::Kind::Dir(_) => (0o40000, 4096), fs::Kind::Link(t) => (0o120000, t.len() as u64) };
    fill(x, st, buf, &V::I(0), 144)?;
    let put = |x: &mut Exec, st: &mut State, o: u64, v: &V, n: usize| x.store_int(st, v, buf + o, n);
    put(x, st, 0, &V::I(1), 8)?;
    put(x, st, 8, &V::I(i), 8)?;
    put(x, st, 16, &V::I(n.nlink), 8)?;
    let m = match &n.mode {
        V::I(m) => V::I(m | ty),
        m => { let e = x.sym(m, 32); let c = x.ar.c(ty as u128, 32); let e = x.ar.bin(B::Or, e, c); x.val(e) }
    };
    put(x, st, 24, &m, 4)?;
    put(x, st, 28, &n.uid, 4)?;
    put(x, st, 32, &n.gid, 4)?;
    put(x, st, 48, &V::I(size), 8)?;
    put(x, st, 56, &V::I(4096), 8)?;
    put(x, st, 64, &V::I(size.div_ceil(512)), 8)?;
    put(x, st, 72, &n.atime.0, 8)?;
    put(x, st, 80, &n.atime.1, 8)?;
    put(x, st, 88, &n.mtime.0, 8)?;
    put(x, st, 96, &n.mtime.1, 8)?;
    put(x, st, 104, &n.mtime.0, 8)?;
    put(x, st, 112, &n.mtime.1, 8)?;
    ok(0)
}
fn do_stat(x: &mut Exec, st: &mut State, dir: i32, p: &[u8], buf: u64, follow: bool) -> R<Ret> {
    let cwd = match base(x, st, dir) { Ok(c) => c, Err(e) => return err(x, st, e) };
    readable!(x, st, s(p));
    match st.fs.walk(cwd, p, follow) {
        Ok((_, _, Some(i))) => put_stat(x, st, i, buf),
        Ok(_) => err(x, st, ENOENT),
        Err(e) => err(x, st, e),
    }
}
fn stat64(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> { let p = path(x, st, a, 0)?; let b = u(x, st, a, 1)?; do_stat(x, st, -100, &p, b, true) }
fn lstat64(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> { let p = path(x, st, a, 0)?; let b = u(x, st, a, 1)?; do_stat(x, st, -100, &p, b, false) }
fn fstat64(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let fd = i32a(x, st, a, 0)?;
    let b = u(x, st, a, 1)?;
    match st.proc_.ofd(fd).map(|o| o.what.clone()) {
        None => err(x, st, EBADF),
        Some(What::Ino(i)) => put_stat(x, st, i, b),
        Some(_) => { fill(x, st, b, &V::I(0), 144)?; x.store_int(st, &V::I(0o10600), b + 24, 4)?; ok(0) }
    }
}
fn fstatat64(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let d = i32a(x, st, a, 0)?;
    let p = path(x, st, a, 1)?;
    let b = u(x, st, a, 2)?;
    let f = i32a(x, st, a, 3)?;
    if p.is_empty() && f & 0x1000 != 0 {
        return match ino_of(st, d) { Some(i) => put_stat(x, st, i, b), None => err(x, st, EBADF) };
    }
    do_stat(x, st, d, &p, b, f & 0x100 == 0)
}
fn statx(x: &mut Exec, st: &mut State, _: &[V], _: &CallI) -> R<Ret> { err(x, st, 38) }
fn access(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let p = path(x, st, a, 0)?;
    match st.fs.walk(st.proc_.cwd, &p, true) { Ok((_, _, Some(_))) => ok(0), Ok(_) => err(x, st, ENOENT), Err(e) => err(x, st, e) }
}
fn do_mkdir(x: &mut Exec, st: &mut State, d: i32, p: Vec<u8>, mode: u64) -> R<Ret> {
    let cwd = match base(x, st, d) { Ok(c) => c, Err(e) => return err(x, st, e) };
    let (dir, name, i) = match st.fs.walk(cwd, p.strip_suffix(b"/").filter(|q| !q.is_empty()).unwrap_or(&p), false) { Ok(r) => r, Err(e) => return err(x, st, e) };
    if i.is_some() { return err(x, st, EEXIST); }
    mutate!(x, st, "mkdir {}", s(&p));
    let t = now(st);
    let m = mode as u32 & !st.proc_.umask & 0o7777;
    let n = st.fs.new_node(fs::Kind::Dir(Default::default()), m, t.clone());
    st.fs.link_in(dir, &name, n, t);
    ok(0)
}
fn mkdir(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> { let p = path(x, st, a, 0)?; let m = u(x, st, a, 1)?; do_mkdir(x, st, -100, p, m) }
fn do_unlink(x: &mut Exec, st: &mut State, d: i32, p: Vec<u8>, rmdir: bool) -> R<Ret> {
    let cwd = match base(x, st, d) { Ok(c) => c, Err(e) => return err(x, st, e) };
    let (dir, name, i) = match st.fs.walk(cwd, &p, false) { Ok(r) => r, Err(e) => return err(x, st, e) };
    let Some(i) = i else { return err(x, st, ENOENT) };
    match &st.fs.get(i).kind {
        fs::Kind::Dir(m) => {
            if !rmdir { return err(x, st, EISDIR); }
            if !m.is_empty() { return err(x, st, ENOTEMPTY); }
        }
        _ => if rmdir { return err(x, st, ENOTDIR); },
    }
    mutate!(x, st, "unlink {}", s(&p));
    let t = now(st);
    st.fs.unlink_from(dir, &name, t);
    let n = st.fs.get_mut(i);
    n.nlink = if rmdir { 0 } else { n.nlink - 1 };
    let open = st.is_open(i);
    st.fs.drop_if_unused(i, open);
    ok(0)
}
fn unlink(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> { let p = path(x, st, a, 0)?; do_unlink(x, st, -100, p, false) }
fn rmdir(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> { let p = path(x, st, a, 0)?; do_unlink(x, st, -100, p, true) }
fn unlinkat(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let d = i32a(x, st, a, 0)?;
    let p = path(x, st, a, 1)?;
    let f = i32a(x, st, a, 2)?;
    do_unlink(x, st, d, p, f & 0x200 != 0)
}
fn rename(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let (p, q) = (path(x, st, a, 0)?, path(x, st, a, 1)?);
    do_rename(x, st, -100, p, -100, q, false)
}
fn renameat(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let (d1, p, d2, q) = (i32a(x, st, a, 0)?, path(x, st, a, 1)?, i32a(x, st, a, 2)?, path(x, st, a, 3)?);
    do_rename(x, st, d1, p, d2, q, false)
}
fn do_rename(x: &mut Exec, st: &mut State, d1: i32, p: Vec<u8>, d2: i32, q: Vec<u8>, noreplace: bool) -> R<Ret> {
    let (c1, c2) = match (base(x, st, d1), base(x, st, d2)) { (Ok(a), Ok(b)) => (a, b), _ => return err(x, st, EBADF) };
    let (sd, sn, si) = match st.fs.walk(c1, &p, false) { Ok(r) => r, Err(e) => return err(x, st, e) };
    let Some(si) = si else { return err(x, st, ENOENT) };
    let (dd, dn, di) = match st.fs.walk(c2, &q, false) { Ok(r) => r, Err(e) => return err(x, st, e) };
    if noreplace && di.is_some() { return err(x, st, EEXIST); }
    if di == Some(si) { return ok(0); }
    // 8: the repository is on a file system of its own
    if st.gdata.get(&8).is_some_and(|v| *v != 0) {
        let there = |st: &State, d: u64| { let p = st.fs.path_of(d); p.split(|c| *c == b'/').any(|c| c == b"repo") };
        if there(st, sd) != there(st, dd) { return err(x, st, fs::EXDEV); }
    }
    if let Some(di) = di {
        match (&st.fs.get(si).kind, &st.fs.get(di).kind) {
            (fs::Kind::Dir(_), fs::Kind::Dir(m)) => if !m.is_empty() { return err(x, st, ENOTEMPTY); },
            (fs::Kind::Dir(_), _) => return err(x, st, ENOTDIR),
            (_, fs::Kind::Dir(_)) => return err(x, st, EISDIR),
            _ => {}
        }
    }
    mutate!(x, st, "rename {} -> {}", s(&p), s(&q));
    let t = now(st);
    st.fs.unlink_from(sd, &sn, t.clone());
    if let Some(di) = di {
        st.fs.unlink_from(dd, &dn, t.clone());
        let n = st.fs.get_mut(di);
        n.nlink = if matches!(n.kind, fs::Kind::Dir(_)) { 0 } else { n.nlink - 1 };
        let open = st.is_open(di);
        st.fs.drop_if_unused(di, open);
    }
    st.fs.link_in(dd, &dn, si, t);
    ok(0)
}
fn linkat(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let (d1, p, d2, q) = (i32a(x, st, a, 0)?, path(x, st, a, 1)?, i32a(x, st, a, 2)?, path(x, st, a, 3)?);
    let (c1, c2) = match (base(x, st, d1), base(x, st, d2)) { (Ok(a), Ok(b)) => (a, b), _ => return err(x, st, EBADF) };
    let si = match st.fs.walk(c1, &p, false) { Ok((_, _, Some(i))) => i, Ok(_) => return err(x, st, ENOENT), Err(e) => return err(x, st, e) };
    let (dd, dn, di) = match st.fs.walk(c2, &q, false) { Ok(r) => r, Err(e) => return err(x, st, e) };
    if di.is_some() { return err(x, st, EEXIST); }
    mutate!(x, st, "link {} -> {}", s(&p), s(&q));
    let t = now(st);
    st.fs.get_mut(si).nlink += 1;
    st.fs.link_in(dd, &dn, si, t);
    ok(0)
}
fn link(x: &mut Exec, st: &mut State, a: &[V], c: &CallI) -> R<Ret> { linkat(x, st, &[V::I(-100i32 as u32 as u64), a[0].clone(), V::I(-100i32 as u32 as u64), a[1].clone(), V::I(0)], c) }
fn do_symlink(x: &mut Exec, st: &mut State, t: Vec<u8>, d: i32, p: Vec<u8>) -> R<Ret> {
    let c = match base(x, st, d) { Ok(c) => c, Err(e) => return err(x, st, e) };
    let (dd, dn, di) = match st.fs.walk(c, &p, false) { Ok(r) => r, Err(e) => return err(x, st, e) };
    if di.is_some() { return err(x, st, EEXIST); }
    if t.is_empty() { return err(x, st, ENOENT); }
    mutate!(x, st, "symlink {} -> {}", s(&p), s(&t));
    let w = now(st);
    let n = st.fs.new_node(fs::Kind::Link(t), 0o777, w.clone());
    st.fs.link_in(dd, &dn, n, w);
    ok(0)
}
fn symlink(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> { let (t, p) = (path(x, st, a, 0)?, path(x, st, a, 1)?); do_symlink(x, st, t, -100, p) }
fn symlinkat(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> { let (t, d, p) = (path(x, st, a, 0)?, i32a(x, st, a, 1)?, path(x, st, a, 2)?); do_symlink(x, st, t, d, p) }
fn readlink(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let (p, b, n) = (path(x, st, a, 0)?, u(x, st, a, 1)?, u(x, st, a, 2)? as usize);
    do_readlink(x, st, -100, p, b, n)
}
fn readlinkat(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let (d, p, b, n) = (i32a(x, st, a, 0)?, path(x, st, a, 1)?, u(x, st, a, 2)?, u(x, st, a, 3)? as usize);
    do_readlink(x, st, d, p, b, n)
}
fn do_readlink(x: &mut Exec, st: &mut State, d: i32, p: Vec<u8>, b: u64, n: usize) -> R<Ret> {
    let c = match base(x, st, d) { Ok(c) => c, Err(e) => return err(x, st, e) };
    let i = match st.fs.walk(c, &p, false) { Ok((_, _, Some(i))) => i, Ok(_) => return err(x, st, ENOENT), Err(e) => return err(x, st, e) };
    let fs::Kind::Link(t) = &st.fs.get(i).kind else { return err(x, st, EINVAL) };
    let t = t.clone();
    let m = n.min(t.len());
    st.mem.write(x.m, b, &t[..m])?;
    ok(m as u64)
}
fn realpath(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let p = path(x, st, a, 0)?;
    let out = u(x, st, a, 1)?;
    let fail = |x: &mut Exec, st: &mut State, e| { err(x, st, e)?; ok(0) };
    let (d, n, i) = match st.fs.walk(st.proc_.cwd, &p, true) { Ok((d, n, Some(i))) => (d, n, i), Ok(_) => return fail(x, st, ENOENT), Err(e) => return fail(x, st, e) };
    let mut r = if st.fs.dir(i).is_some() { st.fs.path_of(i) } else { let mut r = st.fs.path_of(d); if r != b"/" { r.push(b'/'); } r.extend(n); r };
    r.push(0);
    let dst = if out == 0 { st.mem.alloc(Obj::zeroed(r.len())) } else { out };
    st.mem.write(x.m, dst, &r)?;
    ok(dst)
}
fn getcwd(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let (b, n) = (u(x, st, a, 0)?, u(x, st, a, 1)? as usize);
    let mut r = st.fs.path_of(st.proc_.cwd);
    r.push(0);
    if r.len() > n { err(x, st, 34)?; return ok(0); }
    st.mem.write(x.m, b, &r)?;
    ok(b)
}
fn chdir(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let p = path(x, st, a, 0)?;
    match st.fs.walk(st.proc_.cwd, &p, true) {
        Ok((_, _, Some(i))) => if st.fs.dir(i).is_some() { st.proc_.cwd = i; ok(0) } else { err(x, st, ENOTDIR) },
        Ok(_) => err(x, st, ENOENT),
        Err(e) => err(x, st, e),
    }
}
fn opendir(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let p = path(x, st, a, 0)?;
    if p != b"/" { point!(x, st); }
    if st.gdata.get(&10) == Some(&1) && unreadable(x, st, s(&p))? { err(x, st, fs::EIO)?; return ok(0); }
    let i = match st.fs.walk(st.proc_.cwd, &p, true) { Ok((_, _, Some(i))) => i, Ok(_) => { err(x, st, ENOENT)?; return ok(0) } Err(e) => { err(x, st, e)?; return ok(0) } };
    if st.fs.dir(i).is_none() { err(x, st, ENOTDIR)?; return ok(0); }
    let fd = st.proc_.new_fd(Ofd { what: What::Ino(i), off: 0, append: false, write: false, nonblock: false });
    dir_stream(st, i, fd)
}
fn fdopendir(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let fd = i32a(x, st, a, 0)?;
    let Some(i) = ino_of(st, fd) else { err(x, st, EBADF)?; return ok(0) };
    if st.fs.dir(i).is_none() { err(x, st, ENOTDIR)?; return ok(0); }
    dir_stream(st, i, fd)
}
fn dir_stream(st: &mut State, i: u64, fd: i32) -> R<Ret> {
    let mut ents = vec![(b".".to_vec(), i, 4u8), (b"..".to_vec(), i, 4)];
    let mut rest: Vec<(Vec<u8>, u64, u8)> = st.fs.dir(i).unwrap().iter().map(|(n, j)| (n.clone(), *j, match st.fs.get(*j).kind { fs::Kind::File(_) => 8u8, fs::Kind::Dir(_) => 4, fs::Kind::Link(_) => 10 })).collect();
    if st.gdata.get(&1) == Some(&1) { rest.reverse(); }
    ents.extend(rest);
    let buf = st.mem.alloc(Obj::zeroed(280));
    let h = st.mem.alloc(Obj::zeroed(8));
    st.proc_.dirs.insert(h, DirS { ofd_fd: fd, ents, pos: 0, buf });
    ok(h)
}
fn readdir64(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let h = u(x, st, a, 0)?;
    let d = st.proc_.dirs.get_mut(&h).ok_or(Stop::Error("readdir".into()))?;
    if d.pos >= d.ents.len() { return ok(0); }
    let (n, i, t) = d.ents[d.pos].clone();
    d.pos += 1;
    let buf = d.buf;
    let mut b = vec![0u8; 280];
    b[..8].copy_from_slice(&i.to_le_bytes());
    b[16..18].copy_from_slice(&280u16.to_le_bytes());
    b[18] = t;
    b[19..19 + n.len()].copy_from_slice(&n);
    st.mem.write(x.m, buf, &b)?;
    ok(buf)
}
fn closedir(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let h = u(x, st, a, 0)?;
    let d = st.proc_.dirs.remove(&h).ok_or(Stop::Error("closedir".into()))?;
    st.proc_.close(d.ofd_fd);
    st.mem.free(d.buf)?;
    st.mem.free(h)?;
    ok(0)
}
fn dirfd(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let h = u(x, st, a, 0)?;
    ok(st.proc_.dirs[&h].ofd_fd as u64)
}
fn chmod(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let p = path(x, st, a, 0)?;
    let i = match st.fs.walk(st.proc_.cwd, &p, true) { Ok((_, _, Some(i))) => i, Ok(_) => return err(x, st, ENOENT), Err(e) => return err(x, st, e) };
    do_chmod(x, st, i, &a[1])
}
fn fchmod(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let fd = i32a(x, st, a, 0)?;
    let Some(i) = ino_of(st, fd) else { return err(x, st, EBADF) };
    do_chmod(x, st, i, &a[1])
}
fn fchmodat(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let d = i32a(x, st, a, 0)?;
    let p = path(x, st, a, 1)?;
    let c = match base(x, st, d) { Ok(c) => c, Err(e) => return err(x, st, e) };
    let i = match st.fs.walk(c, &p, true) { Ok((_, _, Some(i))) => i, Ok(_) => return err(x, st, ENOENT), Err(e) => return err(x, st, e) };
    do_chmod(x, st, i, &a[2])
}
fn do_chmod(x: &mut Exec, st: &mut State, i: u64, m: &V) -> R<Ret> {
    let name = s(&file_name(st, i));
    mutate!(x, st, "chmod {name}");
    let m = match m { V::I(m) => V::I(m & 0o7777), v => { let e = x.sym(v, 32); let k = x.ar.c(0o7777, 32); let e = x.ar.bin(B::And, e, k); x.val(e) } };
    st.fs.get_mut(i).mode = m;
    ok(0)
}
fn chown_i(x: &mut Exec, st: &mut State, i: u64, uid: &V, gid: &V) -> R<Ret> {
    let name = s(&file_name(st, i));
    mutate!(x, st, "chown {name}");
    let keep = |v: &V| matches!(v, V::I(k) if *k as u32 == u32::MAX);
    let n = st.fs.get_mut(i);
    if !keep(uid) { n.uid = uid.clone(); }
    if !keep(gid) { n.gid = gid.clone(); }
    ok(0)
}
fn fchownat(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let d = i32a(x, st, a, 0)?;
    let p = path(x, st, a, 1)?;
    let f = i32a(x, st, a, 4)?;
    let c = match base(x, st, d) { Ok(c) => c, Err(e) => return err(x, st, e) };
    let i = match st.fs.walk(c, &p, f & 0x100 == 0) { Ok((_, _, Some(i))) => i, Ok(_) => return err(x, st, ENOENT), Err(e) => return err(x, st, e) };
    chown_i(x, st, i, &a[2], &a[3])
}
fn lchown(x: &mut Exec, st: &mut State, a: &[V], c: &CallI) -> R<Ret> { fchownat(x, st, &[V::I(-100i32 as u32 as u64), a[0].clone(), a[1].clone(), a[2].clone(), V::I(0x100)], c) }
fn chown(x: &mut Exec, st: &mut State, a: &[V], c: &CallI) -> R<Ret> { fchownat(x, st, &[V::I(-100i32 as u32 as u64), a[0].clone(), a[1].clone(), a[2].clone(), V::I(0)], c) }
fn fchown(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let fd = i32a(x, st, a, 0)?;
    let Some(i) = ino_of(st, fd) else { return err(x, st, EBADF) };
    chown_i(x, st, i, &a[1], &a[2])
}
fn utimensat(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let d = i32a(x, st, a, 0)?;
    let pp = u(x, st, a, 1)?;
    let ts = u(x, st, a, 2)?;
    let f = i32a(x, st, a, 3)?;
    let i = if pp == 0 { match ino_of(st, d) { Some(i) => i, None => return err(x, st, EBADF) } } else {
        let p = x.cstr(st, pp)?;
        let c = match base(x, st, d) { Ok(c) => c, Err(e) => return err(x, st, e) };
        match st.fs.walk(c, &p, f & 0x100 == 0) { Ok((_, _, Some(i))) => i, Ok(_) => return err(x, st, ENOENT), Err(e) => return err(x, st, e) }
    };
    set_times(x, st, i, ts)
}
fn futimens(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let fd = i32a(x, st, a, 0)?;
    let ts = u(x, st, a, 1)?;
    let Some(i) = ino_of(st, fd) else { return err(x, st, EBADF) };
    set_times(x, st, i, ts)
}
fn set_times(x: &mut Exec, st: &mut State, i: u64, ts: u64) -> R<Ret> {
    let mut v = vec![];
    if ts != 0 { for k in 0..4 { v.push(x.load_int(st, ts + k * 8, 8)?); } }
    // nanoseconds: UTIME_NOW, UTIME_OMIT or below 10^9
    let mut kinds = vec![];
    for k in 0..2 {
        let kind = if ts == 0 { 1 } else {
            let n = x.sym(&v[2 * k + 1], 64);
            let lim = x.ar.c(1_000_000_000, 64);
            let valid = x.ar.ult(n, lim);
            if x.branch(st, valid)? { 0 } else {
                match x.concretize(st, &v[2 * k + 1], 64)? { 0x3fffffff => 1, 0x3ffffffe => 2, _ => return err(x, st, EINVAL) }
            }
        };
        kinds.push(kind);
    }
    let name = s(&file_name(st, i));
    mutate!(x, st, "utimens {name}");
    let t = now(st);
    let n = st.fs.get_mut(i);
    for k in 0..2 {
        let new = match kinds[k] { 0 => (v[2 * k].clone(), v[2 * k + 1].clone()), 1 => t.clone(), _ => continue };
        if k == 0 { n.atime = new } else { n.mtime = new }
    }
    ok(0)
}

// ---- time, identity, environment
fn clock_gettime(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let id = i32a(x, st, a, 0)?;
    let p = u(x, st, a, 1)?;
    if st.gdata.get(&2) != Some(&1) { st.clock += 1000; }
    let (sec, ns) = if id == 0 { now(st) } else { (V::I(st.clock / 1_000_000_000), V::I(st.clock % 1_000_000_000)) };
    x.store_int(st, &sec, p, 8)?;
    x.store_int(st, &ns, p + 8, 8)?;
    ok(0)
}
fn clock_nanosleep(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let cur = st.cur;
    if st.threads[cur].wake.take().is_some() { return ok(0); }
    let p = u(x, st, a, 2)?;
    let f = i32a(x, st, a, 1)?;
    let s1 = x.load_int(st, p, 8)?.i();
    let n1 = x.load_int(st, p + 8, 8)?.i();
    let d = s1 * 1_000_000_000 + n1;
    st.threads[cur].wait = Wait::Sleep(if f & 1 == 1 { d } else { st.clock + d });
    Ok(Ret::Block)
}
fn getrandom(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let (p, n) = (u(x, st, a, 0)?, u(x, st, a, 1)? as usize);
    let mut b = vec![];
    for _ in 0..n {
        st.proc_.rnd = st.proc_.rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        b.push((st.proc_.rnd >> 33) as u8);
    }
    st.mem.write(x.m, p, &b)?;
    ok(n as u64)
}
fn getenv(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let n = path(x, st, a, 0)?;
    let v: &[u8] = match &n[..] { b"HOME" => b"/home\0", b"XDG_CONFIG_HOME" => b"/home/.config\0", _ => return ok(0) };
    ok(st.mem.alloc(Obj::of(v.to_vec())))
}
fn zero(_: &mut Exec, _: &mut State, _: &[V], _: &CallI) -> R<Ret> { ok(0) }
fn getpid(_: &mut Exec, st: &mut State, _: &[V], _: &CallI) -> R<Ret> { ok(1000 + st.saved.len() as u64) }
fn gettid(_: &mut Exec, st: &mut State, _: &[V], _: &CallI) -> R<Ret> { ok(1000 + st.cur as u64) }
fn errno(_: &mut Exec, st: &mut State, _: &[V], _: &CallI) -> R<Ret> { ok(st.threads[st.cur].errno) }
fn sysconf(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    match i32a(x, st, a, 0)? { 30 => ok(4096), 83 | 84 => ok(st.gdata.get(&4).copied().unwrap_or(8)), 70 => ok(1024), 69 => ok(1024), 60 => ok(1024), 4 => ok(1024), 85 => ok(1 << 20), _ => err(x, st, EINVAL) }
}
fn strerror(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let e = i32a(x, st, a, 0)?;
    let p = u(x, st, a, 1)?;
    let n = u(x, st, a, 2)? as usize;
    let m = format!("errno {e}\0");
    st.mem.write(x.m, p, &m.as_bytes()[..m.len().min(n)])?;
    ok(0)
}
fn sched_getaffinity(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let n = u(x, st, a, 1)? as usize;
    let p = u(x, st, a, 2)?;
    fill(x, st, p, &V::I(0), n)?;
    // sx_set(4, n): the number of processors
    let c = st.gdata.get(&4).copied().unwrap_or(8);
    st.mem.write(x.m, p, &((1u64 << c) - 1).to_le_bytes())?;
    ok(0)
}
fn gethostname(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let p = u(x, st, a, 0)?;
    st.mem.write(x.m, p, b"host\0")?;
    ok(0)
}
fn uname(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let p = u(x, st, a, 0)?;
    fill(x, st, p, &V::I(0), 390)?;
    for (k, v) in [b"Linux\0".as_slice(), b"host\0", b"6.0\0", b"1\0", b"x86_64\0"].iter().enumerate() { st.mem.write(x.m, p + k as u64 * 65, v)?; }
    ok(0)
}
fn getpwuid_r(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> { let p = u(x, st, a, 4)?; st.mem.write(x.m, p, &[0; 8])?; ok(0) }

// ---- process end
fn abort(x: &mut Exec, st: &mut State, _: &[V], _: &CallI) -> R<Ret> { x.end_process(st, 3, 0)?; Ok(Ret::Reload) }
fn exit(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let c = u(x, st, a, 0)?;
    x.end_process(st, 1, c)?;
    Ok(Ret::Reload)
}

// ---- threads
fn pthread_create(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let out = u(x, st, a, 0)?;
    let f = u(x, st, a, 2)?;
    let arg = a[3].clone();
    let f = x.m.addr_func(f).ok_or(Stop::Error("pthread_create".into()))?;
    let id = x.new_thread(st);
    st.mem.write(x.m, out, &(id as u64 + 1).to_le_bytes())?;
    let cur = st.cur;
    st.cur = id;
    x.push_frame(st, f, &[arg], u32::MAX, None, Tag::ThreadMain)?;
    st.cur = cur;
    ok(0)
}
fn pthread_join(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let id = u(x, st, a, 0)? as usize - 1;
    let cur = st.cur;
    st.threads[cur].wake = None;
    if st.threads[id].wait != Wait::Done {
        st.threads[cur].wait = Wait::Join(id);
        return Ok(Ret::Block);
    }
    ok(0)
}
fn pthread_self(_: &mut Exec, st: &mut State, _: &[V], _: &CallI) -> R<Ret> { ok(st.cur as u64 + 1) }
fn pthread_key_create(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let (p, d) = (u(x, st, a, 0)?, u(x, st, a, 1)?);
    let k = st.proc_.next_key;
    st.proc_.next_key += 1;
    st.proc_.key_dtors.insert(k, d);
    st.mem.write(x.m, p, &(k as u32).to_le_bytes())?;
    ok(0)
}
fn pthread_setspecific(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let (k, v) = (u(x, st, a, 0)?, u(x, st, a, 1)?);
    let c = st.cur;
    st.threads[c].keys.insert(k, v);
    ok(0)
}
fn pthread_getspecific(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let k = u(x, st, a, 0)?;
    ok(st.threads[st.cur].keys.get(&k).copied().unwrap_or(0))
}
fn thread_atexit(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let (f, p) = (u(x, st, a, 0)?, u(x, st, a, 1)?);
    let c = st.cur;
    st.threads[c].dtors.push((f, p));
    ok(0)
}
fn sched_yield(_: &mut Exec, st: &mut State, _: &[V], _: &CallI) -> R<Ret> {
    let r = Exec::runnable(st);
    // finish this call before another thread runs
    if st.sched <= 0 && r.len() > 1 {
        let cur = st.cur;
        if st.threads[cur].wake.take().is_some() { return ok(0); }
        st.threads[cur].wake = Some(0);
        st.cur = r[0];
        return Ok(Ret::Reload);
    }
    st.threads[st.cur].wake = None;
    ok(0)
}
fn syscall(x: &mut Exec, st: &mut State, a: &[V], c: &CallI) -> R<Ret> {
    match u(x, st, a, 0)? {
        202 => futex(x, st, a),
        186 => gettid(x, st, a, c),
        318 => getrandom(x, st, &a[1..], c),
        316 => {
            let (d1, p, d2, q) = (i32a(x, st, a, 1)?, path(x, st, a, 2)?, i32a(x, st, a, 3)?, path(x, st, a, 4)?);
            let f = u(x, st, a, 5)?;
            do_rename(x, st, d1, p, d2, q, f & 1 == 1)
        }
        439 => err(x, st, 38),
        n => if [434, 424, 436, 326, 332, 437, 435, 324].contains(&n) { err(x, st, 38) } else { Err(Stop::Error(format!("syscall {n}"))) },
    }
}
fn futex(x: &mut Exec, st: &mut State, a: &[V]) -> R<Ret> {
    x.sched_point(st)?;
    let addr = u(x, st, a, 1)?;
    let op = u(x, st, a, 2)? & 0x7f;
    let val = u(x, st, a, 3)? as u32;
    let cur = st.cur;
    match op {
        0 | 9 => {
            if let Some(r) = st.threads[cur].wake.take() {
                if r < 0 { return err(x, st, -r); }
                return ok(0);
            }
            let v = x.load_int(st, addr, 4)?;
            let v = x.concretize(st, &v, 32)? as u32;
            if v != val { return err(x, st, 11); }
            let tp = if a.len() > 4 { u(x, st, a, 4)? } else { 0 };
            let dl = if tp == 0 { None } else {
                let s1 = x.load_int(st, tp, 8)?.i();
                let n1 = x.load_int(st, tp + 8, 8)?.i();
                let d = s1.saturating_mul(1_000_000_000).saturating_add(n1);
                Some(if op == 0 { st.clock.saturating_add(d) } else { d })
            };
            let bits = if op == 9 { u(x, st, a, 6)? as u32 } else { !0 };
            st.threads[cur].wait = Wait::Futex(addr, bits, dl);
            Ok(Ret::Block)
        }
        1 | 10 => {
            let bits = if op == 10 { u(x, st, a, 6)? as u32 } else { !0 };
            let mut n = 0;
            // waiters in arrival order is not modelled; lowest thread first,
            // or every order under schedule exploration
            let ws: Vec<usize> = (0..st.threads.len()).filter(|&i| matches!(st.threads[i].wait, Wait::Futex(w, b, _) if w == addr && b & bits != 0)).collect();
            if st.sched > 0 && val == 1 && ws.len() > 1 {
                let (name, pin) = x.sched_choice(st);
                for &i in &ws[1..] {
                    if pin.is_some_and(|p| p != i as u64 + 1) { continue; }
                    let mut sib = st.clone();
                    sib.threads[i].wait = Wait::Run;
                    sib.threads[i].wake = Some(0);
                    x.finish_call(&mut sib, Some(V::I(1)));
                    Exec::took(&mut sib, &name, i);
                    x.push(sib)?;
                    if pin.is_some() { return Err(Stop::Infeasible); }
                }
            }
            for i in ws {
                if n >= val { break; }
                st.threads[i].wait = Wait::Run;
                st.threads[i].wake = Some(0);
                n += 1;
            }
            ok(n as u64)
        }
        _ => Err(Stop::Error(format!("futex op {op}"))),
    }
}

// ---- harness interface
fn hname(x: &mut Exec, st: &mut State, a: &[V], i: usize) -> R<String> {
    let (p, n) = (u(x, st, a, i)?, u(x, st, a, i + 1)? as usize);
    Ok(s(&x.read_bytes(st, p, n)?))
}
fn sx_any(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let n = hname(x, st, a, 0)?;
    let w = u(x, st, a, 2)? as u32;
    let v = x.fresh(st, &n, w);
    let e = x.sym(&v, w);
    let e = x.ar.zext(e, 64);
    Ok(Ret::V(x.val(e)))
}
fn sx_bytes(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let n = hname(x, st, a, 0)?;
    let p = u(x, st, a, 2)?;
    let len = u(x, st, a, 3)?;
    for k in 0..len {
        let v = x.fresh(st, &format!("{n}[{k}]"), 8);
        x.store_int(st, &v, p + k, 1)?;
    }
    Ok(Ret::Void)
}
fn sx_assume(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let e = nonzero(x, &a[0], 32);
    x.assume(st, e)?;
    Ok(Ret::Void)
}
fn nonzero(x: &mut Exec, v: &V, w: u32) -> E {
    let e = x.sym(v, w);
    let z = x.ar.c(0, w);
    let q = x.ar.eq(e, z);
    x.ar.not(q)
}
fn sx_assert(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let m = hname(x, st, a, 1)?;
    let e = nonzero(x, &a[0], 32);
    if x.branch(st, e)? { return Ok(Ret::Void); }
    Err(Stop::Violation(m))
}
fn sx_fail(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let m = hname(x, st, a, 0)?;
    Err(Stop::Violation(m))
}
fn sx_concretize(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> { let v = u(x, st, a, 0)?; ok(v) }
fn sx_reached(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let m = hname(x, st, a, 0)?;
    *x.reached.entry(m).or_insert(0) += 1;
    Ok(Ret::Void)
}
fn sx_process(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let f = u(x, st, a, 0)?;
    let f = x.m.addr_func(f).ok_or(Stop::Error("sx_process".into()))?;
    let opt = |v: &V| match v { V::I(u64::MAX) => None, v => Some(v.clone()) };
    let torn = u(x, st, a, 4)?;
    st.saved.push(Saved { mem: st.mem.clone(), threads: st.threads.clone(), cur: st.cur, proc_: st.proc_.clone(), crash: st.crash.take(), fault: st.fault.take(), sched: st.sched, ops: st.ops, torn: st.torn, during: st.during.take(), points: st.points, again: false });
    st.ops = 0;
    st.torn = torn;
    if torn & 2 != 0 { st.fs.all_synced(); }
    st.crash = opt(&a[2]);
    st.fault = opt(&a[3]);
    st.err.clear();
    let cur = st.cur;
    // a new process has one thread, seeded differently
    for (i, t) in st.threads.iter_mut().enumerate() { if i != cur { t.wait = Wait::Done; t.frames.clear(); } }
    st.proc_.rnd = st.proc_.rnd.wrapping_add(0x9e3779b97f4a7c15u64.wrapping_mul(st.counts.values().map(|v| *v as u64).sum::<u64>() + 1));
    *st.counts.entry("\u{1}process".into()).or_insert(0) += 1;
    st.log.push("process start".into());
    st.threads[cur].frames.clear();
    x.push_frame(st, f, &[a[1].clone()], u32::MAX, None, Tag::ProcMain)?;
    Ok(Ret::Reload)
}
fn sx_emit(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> { let _ = x; st.emits.push(a[0].clone()); Ok(Ret::Void) }
fn sx_emitted(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let i = u(x, st, a, 0)? as usize;
    if i == usize::MAX { return ok(st.emits.len() as u64); }
    Ok(Ret::V(st.emits.get(i).cloned().ok_or(Stop::Error("sx_emitted".into()))?))
}
fn sx_emit_clear(_: &mut Exec, st: &mut State, _: &[V], _: &CallI) -> R<Ret> { st.emits.clear(); Ok(Ret::Void) }
fn sx_ops(_: &mut Exec, st: &mut State, _: &[V], _: &CallI) -> R<Ret> { ok(st.last_ops) }
fn sx_sched(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> { let v = u(x, st, a, 0)?; st.sched = v as i64; Ok(Ret::Void) }
fn sx_set(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    // 1: directory order; 2: stop the clock; 3: wall clock (nanoseconds)
    let k = u(x, st, a, 0)?;
    if k == 3 { let v = u(x, st, a, 1)?; st.realtime = V::I(v); return Ok(Ret::Void); }
    let v = u(x, st, a, 1)?;
    // 5: preempt at every atomic access, not only at system calls
    if k == 5 { st.flags = st.flags & !2 | (v & 1) << 1; }
    st.gdata.insert(k, v);
    Ok(Ret::Void)
}
fn libc_version(_: &mut Exec, st: &mut State, _: &[V], _: &CallI) -> R<Ret> { let p = st.mem.alloc(Obj::of(b"2.39\0".to_vec())); ok(p) }
fn sx_got(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> { let k = u(x, st, a, 0)?; ok(st.gdata.get(&k).copied().unwrap_or(0)) }
fn sx_log(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let m = hname(x, st, a, 0)?;
    if x.cfg.verbose { eprintln!("log: {m}"); }
    st.log.push(m);
    Ok(Ret::Void)
}
fn sx_deep(x: &mut Exec, _: &mut State, _: &[V], _: &CallI) -> R<Ret> { ok(x.cfg.deep as u64) }
fn sx_native(_: &mut Exec, _: &mut State, _: &[V], _: &CallI) -> R<Ret> { ok(0) }
/// mtime of a path may be set to a symbolic value directly
fn sx_set_mtime(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let p = hname(x, st, a, 0)?;
    let i = match st.fs.walk(st.proc_.cwd, p.as_bytes(), false) { Ok((_, _, Some(i))) => i, _ => return Err(Stop::Error(format!("sx_set_mtime {p}"))) };
    let n = st.fs.get_mut(i);
    n.mtime = (a[2].clone(), a[3].clone());
    Ok(Ret::Void)
}
fn sx_mtime(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let p = hname(x, st, a, 0)?;
    let k = u(x, st, a, 2)?;
    let i = match st.fs.walk(st.proc_.cwd, p.as_bytes(), false) { Ok((_, _, Some(i))) => i, _ => return Err(Stop::Error(format!("sx_mtime {p}"))) };
    let n = st.fs.get(i);
    Ok(Ret::V(if k == 0 { n.mtime.0.clone() } else { n.mtime.1.clone() }))
}
fn sx_may(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let e = nonzero(x, &a[0], 32);
    ok(x.may(st, e)? as u64)
}

fn sx_sha256(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let bits = u(x, st, a, 0)? as usize;
    let (p, n) = (u(x, st, a, 1)?, u(x, st, a, 2)? as usize);
    let out = u(x, st, a, 3)?;
    let dl = bits / 8;
    let input = st.mem.read_obj(x.m, p, n)?;
    if st.gdata.get(&6).copied() == Some(1) { return sha_named(x, st, bits, input, out); }
    if input.sym.is_none() {
        let d = crate::sha::sha256(&input.data, bits == 224);
        st.mem.write(x.m, out, &d[..dl])?;
        // remembered, so that a symbolic digest can be related to it
        if n <= 4096 && !st.hashes_c.iter().any(|(b, i, _)| *b == bits && **i == input.data) {
            st.hashes_c.push((bits, Rc::new(input.data), d[..dl].to_vec()));
            // relate to the symbolic ones seen so far
            let (_, inp, dig) = st.hashes_c.last().unwrap().clone();
            for (pre, d2) in st.hashes.clone() { if d2.len() == dl { relate(x, st, &pre, &d2, &inp, &dig)?; } }
        }
        return Ok(Ret::Void);
    }
    let pre: Vec<E> = (0..n).map(|k| input.byte(&mut x.ar, k)).collect();
    // the same symbolic input again
    if let Some((_, d)) = st.hashes.iter().find(|(q, d)| **q == pre && d.len() == dl).cloned() {
        for (k, e) in d.iter().enumerate() { x.store_int(st, &V::S(*e), out + k as u64, 1)?; }
        return Ok(Ret::Void);
    }
    let k = st.counts.entry("\u{1}digest".into()).or_insert(0);
    *k += 1;
    let k = *k;
    let d: Vec<E> = (0..dl).map(|i| x.ar.var(format!("digest{k}[{i}]"), 8)).collect();
    let (pre, d) = (Rc::new(pre), Rc::new(d));
    for (q, d2) in st.hashes.clone() {
        if d2.len() != dl { continue; }
        let de = bytes_eq(x, &d, &d2);
        let pe = if q.len() == pre.len() { bytes_eq(x, &pre, &q) } else { x.ar.c(0, 1) };
        let c = x.ar.eq(de, pe);
        x.assume(st, c)?;
    }
    for (b, i, dg) in st.hashes_c.clone() { if b == bits { relate(x, st, &pre, &d, &i, &dg)?; } }
    st.hashes.push((pre, d.clone()));
    for (k, e) in d.iter().enumerate() { x.store_int(st, &V::S(*e), out + k as u64, 1)?; }
    Ok(Ret::Void)
}
/// Digests as names: a message is compared with every one hashed before (a
/// fork where that is open), an equal one has the same digest, a new one gets
/// the real digest of a concrete instance of it (made different from all others).
fn sha_named(x: &mut Exec, st: &mut State, bits: usize, input: Obj, out: u64) -> R<Ret> {
    let dl = bits / 8;
    if !input.sym.is_some() && st.named.iter().all(|(b, o, _)| *b != bits || o.sym.is_none() || o.data.len() != input.data.len()) {
        let d = crate::sha::sha256(&input.data, bits == 224);
        // a name given earlier to something else
        if !st.named.iter().any(|(b, o, g)| *b == bits && g[..] == d[..dl] && o.data != input.data) {
            if input.data.len() <= 65536 && !st.named.iter().any(|(b, o, _)| *b == bits && o.sym.is_none() && o.data == input.data) {
                st.named.push((bits, Rc::new(input), d[..dl].to_vec()));
            }
            st.mem.write(x.m, out, &d[..dl])?;
            return Ok(Ret::Void);
        }
    }
    let n = input.data.len();
    for (b, o, g) in st.named.clone() {
        if b != bits || o.data.len() != n { continue; }
        if input.sym.is_none() && o.sym.is_none() {
            if o.data == input.data { st.mem.write(x.m, out, &g)?; return Ok(Ret::Void); }
            continue;
        }
        let mut eq = x.ar.c(1, 1);
        for k in 0..n {
            let (p, q) = (input.byte(&mut x.ar, k), o.byte(&mut x.ar, k));
            if p == q { continue; }
            let e = x.ar.eq(p, q);
            if x.ar.cst(e) == Some(0) { eq = e; break; }
            eq = x.ar.bin(B::And, eq, e);
        }
        if x.branch(st, eq)? { st.mem.write(x.m, out, &g)?; return Ok(Ret::Void); }
    }
    let mut inst = input.data.clone();
    if let Some(s) = &input.sym { for (k, e) in s.iter() { inst[*k as usize] = x.eval(st, *e) as u8; } }
    let d = loop {
        let d = crate::sha::sha256(&inst, bits == 224)[..dl].to_vec();
        if !st.named.iter().any(|(b, _, g)| *b == bits && *g == d) { break d; }
        inst.push(0xa5);
    };
    st.mem.write(x.m, out, &d)?;
    st.named.push((bits, Rc::new(input), d));
    Ok(Ret::Void)
}
fn bytes_eq(x: &mut Exec, a: &[E], b: &[E]) -> E {
    let mut r = x.ar.c(1, 1);
    for (p, q) in a.iter().zip(b) { let e = x.ar.eq(*p, *q); r = x.ar.bin(B::And, r, e); }
    r
}
fn relate(x: &mut Exec, st: &mut State, pre: &[E], d: &[E], inp: &[u8], dig: &[u8]) -> R<()> {
    let cd: Vec<E> = dig.iter().map(|b| x.ar.c(*b as u128, 8)).collect();
    let de = bytes_eq(x, d, &cd);
    let pe = if pre.len() == inp.len() { let ci: Vec<E> = inp.iter().map(|b| x.ar.c(*b as u128, 8)).collect(); bytes_eq(x, pre, &ci) } else { x.ar.c(0, 1) };
    let c = x.ar.eq(de, pe);
    x.assume(st, c)
}

// ---- children (shell commands) : see child model
fn zero_void(_: &mut Exec, _: &mut State, _: &[V], _: &CallI) -> R<Ret> { Ok(Ret::Void) }
fn never(_: &mut Exec, _: &mut State, _: &[V], c: &CallI) -> R<Ret> { Err(Stop::Error(format!("unexpected call {:?}", c.callee))) }
fn one(_: &mut Exec, _: &mut State, _: &[V], _: &CallI) -> R<Ret> { ok(1) }

pub static MODELS: &[(&str, M)] = &[
    ("i128 digits", i128_digits), ("malloc", malloc), ("calloc", calloc), ("realloc", realloc), ("free", free), ("posix_memalign", posix_memalign),
    ("strlen", strlen), ("memset", memset), ("memcpy", memcpy), ("memmove", memcpy), ("memcmp", memcmp), ("bcmp", bcmp), ("mmap64", mmap64), ("mmap", mmap64), ("munmap", munmap), ("mprotect", zero), ("madvise", zero),
    ("open64", open), ("open", open), ("openat64", openat), ("openat", openat), ("close", close), ("read", read), ("pread64", pread64), ("write", write), ("pwrite64", pwrite64),
    ("writev", writev), ("readv", readv), ("lseek64", lseek64), ("ftruncate64", ftruncate64), ("fsync", fsync), ("fdatasync", fsync),
    ("copy_file_range", copy_unsupported), ("sendfile64", copy_unsupported), ("splice", copy_unsupported), ("dup", dup), ("dup2", dup2), ("fcntl", fcntl), ("fcntl64", fcntl), ("ioctl", ioctl),
    ("isatty", isatty), ("poll", poll), ("pipe2", pipe2), ("stat64", stat64), ("lstat64", lstat64), ("fstat64", fstat64), ("fstatat64", fstatat64), ("statx", statx),
    ("access", access), ("mkdir", mkdir), ("unlink", unlink), ("rmdir", rmdir), ("unlinkat", unlinkat), ("rename", rename), ("renameat", renameat), ("linkat", linkat), ("link", link),
    ("symlink", symlink), ("symlinkat", symlinkat), ("readlink", readlink), ("readlinkat", readlinkat), ("realpath", realpath), ("getcwd", getcwd), ("chdir", chdir),
    ("opendir", opendir), ("fdopendir", fdopendir), ("readdir64", readdir64), ("closedir", closedir), ("dirfd", dirfd), ("chmod", chmod), ("fchmod", fchmod), ("fchmodat", fchmodat),
    ("chown", chown), ("lchown", lchown), ("fchown", fchown), ("fchownat", fchownat), ("utimensat", utimensat), ("futimens", futimens), ("posix_fadvise64", zero), ("posix_fadvise", zero), ("flock", zero),
    ("clock_gettime", clock_gettime), ("clock_nanosleep", clock_nanosleep), ("getrandom", getrandom), ("getenv", getenv), ("getpid", getpid), ("gettid", gettid),
    ("getuid", zero), ("geteuid", zero), ("getgid", zero), ("getegid", zero), ("__errno_location", errno), ("sysconf", sysconf), ("__xpg_strerror_r", strerror),
    ("sched_getaffinity", sched_getaffinity), ("gethostname", gethostname), ("uname", uname), ("getpwuid_r", getpwuid_r), ("getauxval", zero), ("dlsym", zero), ("gnu_get_libc_version", libc_version),
    ("abort", abort), ("exit", exit), ("_exit", exit), ("pthread_create", pthread_create), ("pthread_join", pthread_join), ("pthread_detach", zero), ("pthread_self", pthread_self),
    ("pthread_key_create", pthread_key_create), ("pthread_key_delete", zero), ("pthread_setspecific", pthread_setspecific), ("pthread_getspecific", pthread_getspecific),
    ("pthread_attr_init", zero), ("pthread_attr_destroy", zero), ("pthread_attr_setstacksize", zero), ("pthread_setname_np", zero), ("pthread_getattr_np", one), ("pthread_attr_getstack", one), ("pthread_attr_getguardsize", one),
    ("__cxa_thread_atexit_impl", thread_atexit), ("sched_yield", sched_yield), ("syscall", syscall), ("sigaction", zero), ("sigaltstack", zero), ("signal", zero), ("sigemptyset", zero), ("sigaddset", zero),
    ("_Unwind_Backtrace", zero), ("_Unwind_GetIP", zero), ("dl_iterate_phdr", zero), ("kill", crate::child::kill), ("fork", never), ("execvp", never),
    ("posix_spawnattr_init", crate::child::attr), ("posix_spawnattr_destroy", crate::child::attr), ("posix_spawnattr_setflags", crate::child::attr), ("posix_spawnattr_setpgroup", crate::child::attr), ("posix_spawnattr_setsigdefault", crate::child::attr), ("posix_spawnattr_setsigmask", crate::child::attr),
    ("posix_spawn_file_actions_init", crate::child::fa_init), ("posix_spawn_file_actions_destroy", crate::child::attr), ("posix_spawn_file_actions_adddup2", crate::child::fa_dup2), ("posix_spawn_file_actions_addchdir_np", copy_unsupported),
    ("posix_spawnp", crate::child::spawn), ("waitpid", crate::child::waitpid), ("waitid", copy_unsupported),
    ("sx_any", sx_any), ("sx_bytes", sx_bytes), ("sx_assume", sx_assume), ("sx_assert", sx_assert), ("sx_fail", sx_fail), ("sx_concretize", sx_concretize), ("sx_reached", sx_reached),
    ("sx_process", sx_process), ("sx_meanwhile", sx_meanwhile), ("sx_waiting", sx_waiting), ("sx_emit", sx_emit), ("sx_emitted", sx_emitted), ("sx_emit_clear", sx_emit_clear), ("sx_ops", sx_ops), ("sx_sched", sx_sched), ("sx_set", sx_set), ("sx_got", sx_got), ("sx_log", sx_log), ("sx_native", sx_native), ("sx_deep", sx_deep),
    ("sx_set_mtime", sx_set_mtime), ("sx_mtime", sx_mtime), ("sx_may", sx_may), ("sx_sha256", sx_sha256), ("setsid", zero_void), ("__einval", einval),
];

pub fn index(n: &str) -> Option<usize> { MODELS.iter().position(|m| m.0 == n) }
/// For weak symbols: is there something behind the name?
pub fn has_model(n: &str) -> bool {
    // weak, optional libc entry points are taken as absent, except those needed
    matches!(n, "__cxa_thread_atexit_impl" | "getrandom")
}
#[allow(dead_code)]
fn unused(x: &Exec) { let _ = x.sh.paths.load(SeqCst); }
