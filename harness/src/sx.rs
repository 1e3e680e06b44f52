//! The harness interface: symbolic inputs, assumptions, assertions, processes.
//! The engine answers these calls itself; a native build (feature `native`)
//! links src/native.rs instead, which replays recorded inputs.
use std::fmt::Arguments;

unsafe extern "C" {
    fn sx_any(name: *const u8, n: usize, width: u32) -> u64;
    fn sx_bytes(name: *const u8, n: usize, p: *mut u8, len: usize);
    fn sx_assume(c: i32);
    fn sx_assert(c: i32, msg: *const u8, n: usize);
    fn sx_fail(msg: *const u8, n: usize) -> !;
    fn sx_concretize(v: u64) -> u64;
    fn sx_reached(l: *const u8, n: usize);
    fn sx_process(f: extern "C" fn(*const u8) -> u32, data: *const u8, crash: u64, fault: u64, torn: u64) -> u64;
    fn sx_meanwhile(k: u64, f: extern "C" fn(*const u8) -> u32, data: *const u8);
    fn sx_emit(v: u64);
    fn sx_emitted(i: usize) -> u64;
    fn sx_emit_clear();
    fn sx_ops() -> u64;
    fn sx_sched(budget: i64);
    fn sx_set(k: u64, v: u64);
    fn sx_got(k: u64) -> u64;
    fn sx_log(msg: *const u8, n: usize);
    fn sx_native() -> u32;
    fn sx_set_mtime(p: *const u8, n: usize, sec: i64, nsec: i64);
    fn sx_mtime(p: *const u8, n: usize, which: u32) -> i64;
    fn sx_deep() -> u32;
    fn sx_may(c: i32) -> u64;
}

/// A symbolic integer of the given width.
pub fn any(name: &str, width: u32) -> u64 { unsafe { sx_any(name.as_ptr(), name.len(), width) } }
pub fn any_u8(name: &str) -> u8 { any(name, 8) as u8 }
pub fn any_u64(name: &str) -> u64 { any(name, 64) }
pub fn any_i64(name: &str) -> i64 { any(name, 64) as i64 }
pub fn any_bool(name: &str) -> bool { any(name, 1) != 0 }
/// A symbolic number below `n`, decided (forked) here.
pub fn choice(name: &str, n: u64) -> u64 {
    let v = any(name, 8);
    assume(v < n);
    concretize(v)
}
/// A symbolic yes/no, decided (forked) here.
pub fn flag(name: &str) -> bool { choice(name, 2) == 1 }
pub fn bytes(name: &str, b: &mut [u8]) { unsafe { sx_bytes(name.as_ptr(), name.len(), b.as_mut_ptr(), b.len()) } }
pub fn assume(c: bool) { unsafe { sx_assume(c as i32) } }
pub fn assert(c: bool, msg: &str) { unsafe { sx_assert(c as i32, msg.as_ptr(), msg.len()) } }
pub fn fail(msg: &str) -> ! { unsafe { sx_fail(msg.as_ptr(), msg.len()) } }
pub fn failf(a: Arguments) -> ! { fail(&a.to_string()) }
pub fn concretize(v: u64) -> u64 { unsafe { sx_concretize(v) } }
pub fn reached(l: &str) { unsafe { sx_reached(l.as_ptr(), l.len()) } }
pub fn emit(v: u64) { unsafe { sx_emit(v) } }
pub fn emitted(i: usize) -> u64 { unsafe { sx_emitted(i) } }
pub fn emitted_count() -> usize { unsafe { sx_emitted(usize::MAX) as usize } }
pub fn emit_clear() { unsafe { sx_emit_clear() } }
pub fn ops() -> u64 { unsafe { sx_ops() } }
pub fn sched(budget: i64) { unsafe { sx_sched(budget) } }
pub fn set(k: u64, v: u64) { unsafe { sx_set(k, v) } }
pub fn got(k: u64) -> u64 { unsafe { sx_got(k) } }
pub fn log(m: &str) { unsafe { sx_log(m.as_ptr(), m.len()) } }
/// the thorough tier
pub fn deep() -> bool { unsafe { sx_deep() != 0 } }
pub fn native() -> bool { unsafe { sx_native() != 0 } }
pub fn set_mtime(p: &str, sec: i64, nsec: i64) { unsafe { sx_set_mtime(p.as_ptr(), p.len(), sec, nsec) } }
pub fn mtime(p: &str) -> (i64, i64) { unsafe { (sx_mtime(p.as_ptr(), p.len(), 0), sx_mtime(p.as_ptr(), p.len(), 1)) } }
pub fn may(c: bool) -> bool { unsafe { sx_may(c as i32) != 0 } }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End { Returned(u32), Exited(u32), Crashed, Panicked }
impl End {
    /// the command reported success
    pub fn ok(self) -> bool { matches!(self, End::Returned(0) | End::Exited(0)) }
    pub fn crashed(self) -> bool { self == End::Crashed }
}
pub const NEVER: u64 = u64::MAX;

struct Call<'a> { f: &'a (dyn Fn() -> anyhow::Result<()> + 'a) }
extern "C" fn tramp(p: *const u8) -> u32 {
    let c = unsafe { &*(p as *const Call) };
    match (c.f)() {
        Ok(()) => 0,
        Err(e) => {
            log(&format!("error: {e:#}"));
            1
        }
    }
}
/// Run a command as a process of its own: its memory, descriptors and threads
/// are gone afterwards, its effects on the file system stay. `crash` and
/// `fault` are the numbers of the file system mutation before which it is
/// killed, or which fails (NEVER, or a possibly symbolic number).
pub fn process(crash: u64, fault: u64, torn: bool, f: impl Fn() -> anyhow::Result<()>) -> End {
    let c = Call { f: &f };
    let r = unsafe { sx_process(tramp, &c as *const Call as *const u8, crash, fault, torn as u64) };
    end(r)
}
fn end(r: u64) -> End {
    let code = r as u32;
    match r >> 32 { 0 => End::Returned(code), 1 => End::Exited(code), 2 => End::Crashed, _ => End::Panicked }
}
/// Killed by a power failure: what was written but not synced is lost, too.
pub fn process_power(crash: u64, f: impl Fn() -> anyhow::Result<()>) -> End {
    let c = Call { f: &f };
    let r = unsafe { sx_process(tramp, &c as *const Call as *const u8, crash, NEVER, 2) };
    end(r)
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Other { NotRun, Ok, Failed }
/// Run a command, and another one as a process of its own all of which happens
/// right before the k-th access of the first to the file system.
pub fn meanwhile(k: u64, other: impl Fn() -> anyhow::Result<()>, f: impl Fn() -> anyhow::Result<()>) -> (End, Other) {
    emit_clear();
    let e = run(|| {
        let g = || {
            emit(1);
            let r = other();
            match &r { Ok(()) => emit(2), Err(e) => eprintln!("the other: {e:?}") }
            r
        };
        let c = Call { f: &g };
        unsafe { sx_meanwhile(k, tramp, &c as *const Call as *const u8) };
        f()
    });
    let o = match emitted_count() { 0 => Other::NotRun, 1 => Other::Failed, _ => Other::Ok };
    (e, o)
}
pub fn run(f: impl Fn() -> anyhow::Result<()>) -> End { process(NEVER, NEVER, false, f) }
/// Run, and require that it succeeds.
pub fn must(what: &str, f: impl Fn() -> anyhow::Result<()>) {
    let e = run(f);
    if !e.ok() { failf(format_args!("{what} failed: {e:?}")); }
}
/// Equality of contents that may be symbolic, as one condition.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut x = 0u8;
    for k in 0..a.len() { x |= a[k] ^ b[k]; }
    x == 0
}

/// the machine's name
pub fn host() -> String {
    unsafe extern "C" { fn gethostname(p: *mut u8, n: usize) -> i32; }
    let mut b = [0u8; 256];
    if unsafe { gethostname(b.as_mut_ptr(), b.len()) } != 0 { fail("no host name"); }
    String::from_utf8(b.iter().take_while(|c| **c != 0).copied().collect()).unwrap()
}
