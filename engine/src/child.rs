//! Child processes: `sh -c` of a few commands, each a small model of what the
//! real one does with its standard input and output.
use crate::exec::*;
use crate::expr::B;
use crate::fs::{Child, Op, What};
use crate::ir::CallI;
use crate::mem::{Byte, Obj};
use crate::state::*;
use crate::val::V;

fn u(x: &mut Exec, st: &mut State, a: &[V], i: usize) -> R<u64> { x.concretize(st, &a[i], 64) }
fn ok(v: u64) -> R<Ret> { Ok(Ret::V(V::I(v))) }
pub fn attr(_: &mut Exec, _: &mut State, _: &[V], _: &CallI) -> R<Ret> { ok(0) }
/// the redirections, kept in the object itself: how many, then (from, to)
pub fn fa_init(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let p = u(x, st, a, 0)?;
    st.mem.write(x.m, p, &[0; 4])?;
    ok(0)
}
pub fn fa_dup2(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let p = u(x, st, a, 0)?;
    let (from, to) = (u(x, st, a, 1)? as u32, u(x, st, a, 2)? as u32);
    let n = x.load_int(st, p, 4)?;
    let n = x.concretize(st, &n, 32)?;
    if n >= 8 { return Err(Stop::Error("redirections of a child".into())); }
    st.mem.write(x.m, p + 4 + n * 8, &from.to_le_bytes())?;
    st.mem.write(x.m, p + 8 + n * 8, &to.to_le_bytes())?;
    st.mem.write(x.m, p, &(n as u32 + 1).to_le_bytes())?;
    ok(0)
}
/// What a shell command does.
fn parse(st: &mut State, cmd: &str) -> Option<Vec<Op>> {
    let cmd = cmd.trim();
    // `./at "usually" "the n-th time"`
    if let Some(r) = cmd.strip_prefix("./at ") {
        let q: Vec<&str> = r.split('"').collect();
        let (k, n) = (st.gdata.get(&100).copied().unwrap_or(0), st.gdata.get(&101).copied().unwrap_or(0));
        st.gdata.insert(100, k + 1);
        return parse(st, if k == n { q.get(3)? } else { q.get(1)? });
    }
    let mut v = vec![];
    for c in cmd.split(';').map(str::trim) {
        v.push(match c {
            "cat" => Op::Copy(0),
            r"tr '\000-\377' '\001-\377\000'" => Op::Copy(1),
            r"tr '\001-\377\000' '\000-\377'" => Op::Copy(255),
            ":" => continue,
            "exec >&-" => Op::CloseOut,
            "exec <&-" => Op::CloseIn,
            "kill -9 $$" => Op::End(9),
            "false" => Op::End(256),
            _ => {
                if let Some(n) = c.strip_prefix("exit ") { Op::End(n.parse::<i32>().ok()? << 8) }
                else if let Some(n) = c.strip_prefix("head -c ") { Op::Head(n.parse().ok()?) }
                else if c.strip_prefix("no-such-").is_some() { Op::End(127 << 8) }
                else { return None }
            }
        });
    }
    if !matches!(v.last(), Some(Op::End(_))) { v.push(Op::End(0)); }
    Some(v)
}
pub fn spawn(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let (pidp, filep, fa, argv) = (u(x, st, a, 0)?, u(x, st, a, 1)?, u(x, st, a, 2)?, u(x, st, a, 4)?);
    let file = String::from_utf8_lossy(&x.cstr(st, filep)?).into_owned();
    let mut args = vec![];
    loop {
        let q = x.load_int(st, argv + 8 * args.len() as u64, 8)?;
        let q = x.concretize(st, &q, 64)?;
        if q == 0 { break; }
        args.push(String::from_utf8_lossy(&x.cstr(st, q)?).into_owned());
    }
    if file != "sh" || args.len() != 3 || args[1] != "-c" { return ok(2); }
    let Some(script) = parse(st, &args[2]) else { return Err(Stop::Error(format!("no model of the command {:?}", args[2]))) };
    let (mut cin, mut cout) = (None, None);
    if fa != 0 {
        let n = x.load_int(st, fa, 4)?;
        let n = x.concretize(st, &n, 32)?;
        for k in 0..n {
            let f = x.load_int(st, fa + 4 + k * 8, 4)?;
            let f = x.concretize(st, &f, 32)? as i32;
            let t = x.load_int(st, fa + 8 + k * 8, 4)?;
            let t = x.concretize(st, &t, 32)?;
            let w = st.proc_.ofd(f).map(|o| o.what.clone());
            match (t, w) {
                (0, Some(What::PipeR(p))) => { st.proc_.pipes.get_mut(&p).unwrap().readers += 1; cin = Some(p); }
                (1, Some(What::PipeW(p))) => { st.proc_.pipes.get_mut(&p).unwrap().writers += 1; cout = Some(p); }
                _ => {}
            }
        }
    }
    let pid = 1000 + st.proc_.children.len() as i32;
    st.log.push(format!("child {pid}: {}", args[2]));
    // whether it gets to run at once or only when nothing else can
    let lazy = st.gdata.get(&9).copied().unwrap_or(0) == 1;
    st.proc_.children.insert(pid, Child { script, pc: 0, cin, cout, seen: 0, lazy, status: None });
    st.mem.write(x.m, pidp, &pid.to_le_bytes())?;
    x.poke(st);
    ok(0)
}
fn shut(st: &mut State, pid: i32, cin: bool, cout: bool) {
    let c = st.proc_.children.get_mut(&pid).unwrap();
    let (i, o) = (if cin { c.cin.take() } else { None }, if cout { c.cout.take() } else { None });
    if let Some(i) = i && let Some(p) = st.proc_.pipes.get_mut(&i) { p.readers -= 1; }
    if let Some(o) = o && let Some(p) = st.proc_.pipes.get_mut(&o) { p.writers -= 1; }
}
fn end(st: &mut State, pid: i32, status: i32) {
    shut(st, pid, true, true);
    st.proc_.children.get_mut(&pid).unwrap().status = Some(status);
}
/// Let every child go on as far as it can. True if any did anything.
pub fn run(x: &mut Exec, st: &mut State, lazy_too: bool) -> bool {
    if st.proc_.children.values().all(|c| c.status.is_some()) { return false; }
    let mut any = false;
    for pid in st.proc_.children.keys().copied().collect::<Vec<_>>() {
        if st.proc_.children[&pid].lazy && !lazy_too { continue; }
        while step(x, st, pid) { any = true; }
    }
    any
}
fn step(x: &mut Exec, st: &mut State, pid: i32) -> bool {
    let c = &st.proc_.children[&pid];
    if c.status.is_some() { return false; }
    let op = c.script[c.pc].clone();
    let (cin, cout, seen) = (c.cin, c.cout, c.seen);
    let next = |st: &mut State| { let c = st.proc_.children.get_mut(&pid).unwrap(); c.pc += 1; c.seen = 0; };
    match op {
        Op::End(s) => { end(st, pid, s); true }
        Op::CloseOut => { shut(st, pid, false, true); next(st); true }
        Op::CloseIn => { shut(st, pid, true, false); next(st); true }
        Op::Copy(_) | Op::Head(_) => {
            let Some(i) = cin else { next(st); return true };
            let (limit, add) = match op { Op::Head(n) => (n as usize - seen, 0), Op::Copy(k) => (usize::MAX, k), _ => unreachable!() };
            if limit == 0 { next(st); return true; }
            let p = &st.proc_.pipes[&i];
            if p.buf.data.is_empty() {
                if p.writers == 0 { next(st); return true; }
                return false;
            }
            // a write into a closed pipe ends it
            let Some(o) = cout else { end(st, pid, 1 << 8); return true };
            let q = &st.proc_.pipes[&o];
            if q.readers == 0 { end(st, pid, 13); return true; }
            let room = 65536 - q.buf.data.len().min(65536);
            let whole = p.buf.data.len();
            let n = whole.min(room).min(limit);
            if n == 0 { return false; }
            let buf = p.buf.clone();
            let mut out = Obj::zeroed(n);
            for k in 0..n {
                out.set(k, match buf.get(k) {
                    Byte::C(b) => Byte::C(b.wrapping_add(add)),
                    Byte::S(e) if add == 0 => Byte::S(e),
                    Byte::S(e) => { let a = x.ar.c(add as u128, 8); Byte::S(x.ar.bin(B::Add, e, a)) }
                });
            }
            let q = st.proc_.pipes.get_mut(&o).unwrap();
            let l = q.buf.data.len();
            q.buf.resize(l + n);
            q.buf.copy_from(l, &out, 0, n);
            // head takes what it was given, and drops the rest
            let taken = if matches!(op, Op::Head(_)) { whole } else { n };
            st.proc_.pipes.get_mut(&i).unwrap().buf = buf.slice(taken, whole - taken);
            st.proc_.children.get_mut(&pid).unwrap().seen += n;
            true
        }
    }
}
pub fn waitpid(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let (pid, p, fl) = (u(x, st, a, 0)? as u32 as i32, u(x, st, a, 1)?, u(x, st, a, 2)?);
    match st.proc_.children.get(&pid) {
        None => { let e = st.threads[st.cur].errno; st.mem.write(x.m, e, &10i32.to_le_bytes())?; ok(u64::MAX) }
        Some(c) => match c.status {
            Some(s) => {
                if p != 0 { st.mem.write(x.m, p, &s.to_le_bytes())?; }
                ok(pid as u64)
            }
            None if fl & 1 != 0 => ok(0),
            None => { let cur = st.cur; st.threads[cur].wait = Wait::Retry; Ok(Ret::Block) }
        },
    }
}
pub fn kill(x: &mut Exec, st: &mut State, a: &[V], _: &CallI) -> R<Ret> {
    let (pid, sig) = (u(x, st, a, 0)? as u32 as i32, u(x, st, a, 1)? as i32);
    if st.proc_.children.get(&pid).is_some_and(|c| c.status.is_none()) { end(st, pid, sig); x.poke(st); }
    ok(0)
}
