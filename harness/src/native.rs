//! Native replay: the harness interface on the real machine. Inputs come from
//! a file; processes are forked; file system mutations are counted (and made
//! to crash or fail) by interposing libc's entry points.
use std::collections::HashMap;
use std::ffi::{CStr, c_char, c_int, c_long, c_void};
use std::sync::Mutex;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};

static INPUTS: Mutex<Option<HashMap<String, u64>>> = Mutex::new(None);
static COUNTS: Mutex<Option<HashMap<String, u32>>> = Mutex::new(None);
static CPUS: AtomicU64 = AtomicU64::new(0);
static OPS: AtomicU64 = AtomicU64::new(0);
static ARMED: AtomicI64 = AtomicI64::new(0);
static CRASH: AtomicU64 = AtomicU64::new(u64::MAX);
static FAULT: AtomicU64 = AtomicU64::new(u64::MAX);
static TORN: AtomicU64 = AtomicU64::new(0);
static READS: AtomicU64 = AtomicU64::new(0);
static ROPS: AtomicU64 = AtomicU64::new(0);
static APART: AtomicU64 = AtomicU64::new(0);
static ACCESSES: AtomicU64 = AtomicU64::new(0);
static NESTED: AtomicU64 = AtomicU64::new(0);
static MEANWHILE: AtomicU64 = AtomicU64::new(u64::MAX);
/// written and not synced: (device and inode, a descriptor, length at the last sync)
static DIRTY: Mutex<Vec<((u64, u64), c_int, i64)>> = Mutex::new(vec![]);

/// memory shared with forked processes
#[repr(C)]
struct Sh { go: AtomicU64, done: AtomicU64, over: AtomicU64, crashed: AtomicU64, returned: AtomicU64, ops: AtomicU64, emits: AtomicU64, data: [AtomicU64; 4096] }
fn sh() -> &'static Sh {
    static P: AtomicU64 = AtomicU64::new(0);
    let p = P.load(SeqCst);
    if p != 0 { return unsafe { &*(p as *const Sh) }; }
    let q = unsafe { libc::mmap(std::ptr::null_mut(), size_of::<Sh>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) } as u64;
    P.store(q, SeqCst);
    unsafe { &*(q as *const Sh) }
}

pub fn start(f: extern "C" fn()) {
    let mut m = HashMap::new();
    if let Ok(p) = std::env::var("SX_INPUTS") {
        for l in std::fs::read_to_string(p).unwrap().lines() {
            let (k, v) = l.rsplit_once('=').unwrap();
            m.insert(k.to_string(), v.parse::<u128>().unwrap() as u64);
        }
    }
    *INPUTS.lock().unwrap() = Some(m);
    *COUNTS.lock().unwrap() = Some(HashMap::new());
    sh();
    f();
    println!("REPLAY-END");
}
fn s<'a>(p: *const u8, n: usize) -> &'a str { unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) } }
fn input(name: &str, w: u32) -> u64 {
    let mut c = COUNTS.lock().unwrap();
    let k = c.as_mut().unwrap().entry(name.to_string()).or_insert(0);
    let full = if *k == 0 { name.to_string() } else { format!("{name}#{k}") };
    *k += 1;
    let v = INPUTS.lock().unwrap().as_ref().unwrap().get(&full).copied().unwrap_or(0);
    if w >= 64 { v } else { v & ((1 << w) - 1) }
}
#[unsafe(no_mangle)] extern "C" fn sx_any(p: *const u8, n: usize, w: u32) -> u64 { input(s(p, n), w) }
#[unsafe(no_mangle)] extern "C" fn sx_bytes(p: *const u8, n: usize, b: *mut u8, len: usize) {
    for k in 0..len { unsafe { *b.add(k) = input(&format!("{}[{k}]", s(p, n)), 8) as u8 } }
}
#[unsafe(no_mangle)] extern "C" fn sx_assume(c: i32) {
    if c == 0 { println!("REPLAY-DIVERGED: assumption"); std::process::exit(90) }
}
#[unsafe(no_mangle)] extern "C" fn sx_assert(c: i32, p: *const u8, n: usize) { if c == 0 { sx_fail(p, n) } }
#[unsafe(no_mangle)] extern "C" fn sx_fail(p: *const u8, n: usize) -> ! {
    println!("REPLAY-VIOLATION: {}", s(p, n));
    std::process::exit(91)
}
#[unsafe(no_mangle)] extern "C" fn sx_concretize(v: u64) -> u64 { v }
#[unsafe(no_mangle)] extern "C" fn sx_reached(_: *const u8, _: usize) {}
#[unsafe(no_mangle)] extern "C" fn sx_ops() -> u64 { sh().ops.load(SeqCst) }
#[unsafe(no_mangle)] extern "C" fn sx_sched(_: i64) {}
#[unsafe(no_mangle)] extern "C" fn sx_deep() -> u32 { std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") as u32 }
#[unsafe(no_mangle)] extern "C" fn sx_set(k: u64, v: u64) { if k == 4 { CPUS.store(v, SeqCst) } if k == 8 { APART.store(v, SeqCst) } if k == 10 { READS.store(v, SeqCst) } }
#[unsafe(no_mangle)] extern "C" fn sx_log(p: *const u8, n: usize) { eprintln!("log: {}", s(p, n)) }
#[unsafe(no_mangle)] extern "C" fn sx_native() -> u32 { 1 }
#[unsafe(no_mangle)] extern "C" fn sx_got(_: u64) -> u64 { 0 }
#[unsafe(no_mangle)] extern "C" fn sx_may(c: i32) -> u64 { (c != 0) as u64 }
#[unsafe(no_mangle)] extern "C" fn sx_emit(v: u64) { let i = sh().emits.fetch_add(1, SeqCst); sh().data[i as usize].store(v, SeqCst) }
#[unsafe(no_mangle)] extern "C" fn sx_emitted(i: usize) -> u64 { if i == usize::MAX { sh().emits.load(SeqCst) } else { sh().data[i].load(SeqCst) } }
#[unsafe(no_mangle)] extern "C" fn sx_emit_clear() { sh().emits.store(0, SeqCst) }
#[unsafe(no_mangle)] extern "C" fn sx_set_mtime(p: *const u8, n: usize, sec: i64, nsec: i64) {
    let c = std::ffi::CString::new(s(p, n)).unwrap();
    let t = [libc::timespec { tv_sec: sec, tv_nsec: nsec }; 2];
    let r = unsafe { libc::syscall(libc::SYS_utimensat, libc::AT_FDCWD, c.as_ptr(), t.as_ptr(), libc::AT_SYMLINK_NOFOLLOW) };
    let mut got = (0, 0);
    if r == 0 { got = (sx_mtime(p, n, 0), sx_mtime(p, n, 1)); }
    if r != 0 || got != (sec, nsec) { println!("REPLAY-DIVERGED: this file system cannot hold the time {sec}.{nsec}"); std::process::exit(90) }
}
#[unsafe(no_mangle)] extern "C" fn sx_mtime(p: *const u8, n: usize, which: u32) -> i64 {
    use std::os::unix::fs::MetadataExt;
    let m = std::fs::symlink_metadata(s(p, n)).unwrap();
    if which == 0 { m.mtime() } else { m.mtime_nsec() }
}
#[unsafe(no_mangle)]
extern "C" fn sx_process(f: extern "C" fn(*const u8) -> u32, data: *const u8, crash: u64, fault: u64, torn: u64) -> u64 {
    let h = sh();
    h.crashed.store(0, SeqCst);
    h.returned.store(u64::MAX, SeqCst);
    h.ops.store(0, SeqCst);
    let over = |k: &str, v: u64| if v == u64::MAX { v } else { std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(v) };
    let (crash, fault) = (over("SX_CRASH", crash), over("SX_FAULT", fault));
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            CRASH.store(crash, SeqCst);
            FAULT.store(fault, SeqCst);
            TORN.store(torn, SeqCst);
            OPS.store(0, SeqCst);
            ROPS.store(0, SeqCst);
            ARMED.store(1, SeqCst);
            let r = f(data);
            ARMED.store(0, SeqCst);
            h.returned.store(r as u64, SeqCst);
            let _ = std::io::stdout().flush();
            libc::_exit(0);
        }
        let mut st = 0;
        let t0 = std::time::Instant::now();
        loop {
            let r = libc::waitpid(pid, &mut st, libc::WNOHANG);
            if r == pid { break; }
            if t0.elapsed().as_secs() > 60 {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
                let m = "hang: the command makes no progress";
                sx_fail(m.as_ptr(), m.len());
            }
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
        // (the other may have had to wait for this one)
        while h.go.load(SeqCst) == 1 && h.over.load(SeqCst) == 0 && t0.elapsed().as_secs() < 60 { std::thread::sleep(std::time::Duration::from_millis(2)); }
        h.go.store(0, SeqCst);
        if h.crashed.load(SeqCst) == 1 { return 2 << 32; }
        let r = h.returned.load(SeqCst);
        if r != u64::MAX { return r; }
        if libc::WIFEXITED(st) { return 1 << 32 | libc::WEXITSTATUS(st) as u64; }
        3 << 32
    }
}

/// The other process waits for its turn, which is the k-th access to the file system.
#[unsafe(no_mangle)]
extern "C" fn sx_meanwhile(k: u64, f: extern "C" fn(*const u8) -> u32, data: *const u8) {
    let k = std::env::var("SX_MEANWHILE").ok().and_then(|x| x.parse().ok()).unwrap_or(k);
    let h = sh();
    h.go.store(0, SeqCst);
    h.done.store(0, SeqCst);
    h.over.store(0, SeqCst);
    ACCESSES.store(0, SeqCst);
    MEANWHILE.store(k, SeqCst);
    unsafe {
        let first = libc::getpid();
        if libc::fork() == 0 {
            ARMED.store(0, SeqCst);
            while h.go.load(SeqCst) == 0 {
                if libc::getppid() != first { libc::_exit(0); }
                libc::usleep(500);
            }
            NESTED.store(1, SeqCst);
            std::panic::catch_unwind(|| { f(data); }).ok();
            h.done.store(1, SeqCst);
            h.over.store(1, SeqCst);
            libc::_exit(0);
        }
    }
}
fn access() {
    if ARMED.load(SeqCst) == 0 || ACCESSES.fetch_add(1, SeqCst) != MEANWHILE.load(SeqCst) { return; }
    let h = sh();
    h.go.store(1, SeqCst);
    let t = std::time::Instant::now();
    while h.done.load(SeqCst) == 0 {
        if t.elapsed().as_secs() > 30 { break; }
        unsafe { libc::usleep(500); }
    }
}

// ---- interposed libc calls
/// 0: go on, otherwise the errno to fail with
fn hook(write: bool) -> c_int {
    if ARMED.load(SeqCst) == 0 { return 0; }
    access();
    let k = OPS.fetch_add(1, SeqCst);
    sh().ops.fetch_max(k + 1, SeqCst);
    if CRASH.load(SeqCst) == k { die(); }
    if FAULT.load(SeqCst) == k && READS.load(SeqCst) == 0 { return if write { 28 } else { 5 }; }
    0
}
/// Does this access fail?
fn unreadable(p: &[u8]) -> bool {
    if ARMED.load(SeqCst) == 0 || READS.load(SeqCst) == 0 || ["/etc", "/usr", "/proc", "/dev", "/sys"].iter().any(|d| p.starts_with(d.as_bytes())) { return false; }
    ROPS.fetch_add(1, SeqCst) == FAULT.load(SeqCst)
}
macro_rules! readable { ($p:expr) => { if unreadable($p) { return fail(5) as _; } }; }
fn die() -> ! {
    sh().crashed.store(1, SeqCst);
    unsafe {
        if TORN.load(SeqCst) & 2 != 0 {
            if let Ok(d) = DIRTY.lock() { for (_, fd, len) in d.iter() { libc::ftruncate(*fd, *len); } }
        }
        libc::kill(libc::getpid(), libc::SIGKILL);
        loop { libc::pause(); }
    }
}
fn fail(e: c_int) -> c_int { unsafe { *libc::__errno_location() = e }; -1 }
fn ret(r: c_long) -> c_int { r as c_int }
macro_rules! op { ($w:expr) => { let e = hook($w); if e != 0 { return fail(e) as _; } }; }

unsafe fn open_at(d: c_int, p: *const c_char, fl: c_int, mode: libc::mode_t) -> c_int {
    unsafe {
        if CPUS.load(SeqCst) != 0 && CStr::from_ptr(p).to_bytes() == b"/proc/cpuinfo" { return fail(2); }
        if fl & libc::O_TMPFILE != libc::O_TMPFILE && ARMED.load(SeqCst) != 0 {
            let mut st: libc::stat = std::mem::zeroed();
            let there = libc::syscall(libc::SYS_newfstatat, d, p, &mut st, 0) == 0;
            if fl & libc::O_CREAT != 0 && !there { op!(true); }
            else if fl & libc::O_TRUNC != 0 && there && st.st_size > 0 { op!(false); }
            else if fl & libc::O_ACCMODE == libc::O_RDONLY {
                let b = CStr::from_ptr(p).to_bytes();
                if !["/etc", "/usr", "/proc", "/dev", "/sys"].iter().any(|d| b.starts_with(d.as_bytes())) { access(); }
                readable!(b);
            }
        }
        ret(libc::syscall(libc::SYS_openat, d, p, fl, mode as c_int))
    }
}
#[unsafe(no_mangle)] unsafe extern "C" fn open64(p: *const c_char, fl: c_int, mode: libc::mode_t) -> c_int { unsafe { open_at(libc::AT_FDCWD, p, fl, mode) } }
#[unsafe(no_mangle)] unsafe extern "C" fn open(p: *const c_char, fl: c_int, mode: libc::mode_t) -> c_int { unsafe { open_at(libc::AT_FDCWD, p, fl, mode) } }
#[unsafe(no_mangle)] unsafe extern "C" fn openat64(d: c_int, p: *const c_char, fl: c_int, mode: libc::mode_t) -> c_int { unsafe { open_at(d, p, fl, mode) } }
#[unsafe(no_mangle)] unsafe extern "C" fn openat(d: c_int, p: *const c_char, fl: c_int, mode: libc::mode_t) -> c_int { unsafe { open_at(d, p, fl, mode) } }
unsafe fn regular(fd: c_int) -> bool {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        libc::syscall(libc::SYS_fstat, fd, &mut st) == 0 && st.st_mode & libc::S_IFMT == libc::S_IFREG
    }
}
#[unsafe(no_mangle)] unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: usize) -> isize {
    unsafe {
        if ARMED.load(SeqCst) != 0 && n > 0 && fd > 2 && regular(fd) {
            let k = OPS.load(SeqCst);
            if TORN.load(SeqCst) & 1 == 1 && n > 1 && CRASH.load(SeqCst) == k + 1_000_000 {
                libc::syscall(libc::SYS_write, fd, p, n / 2);
                die();
            }
            op!(true);
            if TORN.load(SeqCst) & 2 != 0 { dirty(fd); }
        }
        libc::syscall(libc::SYS_write, fd, p, n) as isize
    }
}
unsafe fn read_fails(fd: c_int) -> bool { unsafe { ARMED.load(SeqCst) != 0 && READS.load(SeqCst) != 0 && regular(fd) && unreadable(b"") } }
#[unsafe(no_mangle)] unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: usize) -> isize { unsafe { if read_fails(fd) { return fail(5) as isize; } libc::syscall(libc::SYS_read, fd, p, n) as isize } }
#[unsafe(no_mangle)] unsafe extern "C" fn pread64(fd: c_int, p: *mut c_void, n: usize, at: i64) -> isize { unsafe { if read_fails(fd) { return fail(5) as isize; } libc::syscall(libc::SYS_pread64, fd, p, n, at) as isize } }
#[unsafe(no_mangle)] unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, m: u32, b: *mut c_void) -> c_int {
    unsafe {
        if *p != 0 { readable!(CStr::from_ptr(p).to_bytes()); }
        ret(libc::syscall(libc::SYS_statx, d, p, fl, m, b))
    }
}
unsafe fn identity(fd: c_int) -> ((u64, u64), i64) {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        libc::syscall(libc::SYS_fstat, fd, &mut st);
        ((st.st_dev, st.st_ino), st.st_size)
    }
}
unsafe fn dirty(fd: c_int) {
    unsafe {
        let (i, n) = identity(fd);
        let mut d = DIRTY.lock().unwrap();
        if !d.iter().any(|x| x.0 == i) { d.push((i, libc::syscall(libc::SYS_dup, fd) as c_int, n)); }
    }
}
unsafe fn synced(fd: c_int) {
    unsafe {
        if TORN.load(SeqCst) & 2 == 0 || ARMED.load(SeqCst) == 0 { return; }
        let (i, n) = identity(fd);
        for x in DIRTY.lock().unwrap().iter_mut() { if x.0 == i { x.2 = n; } }
    }
}
#[unsafe(no_mangle)] unsafe extern "C" fn fsync(fd: c_int) -> c_int { unsafe { let r = ret(libc::syscall(libc::SYS_fsync, fd)); synced(fd); r } }
#[unsafe(no_mangle)] unsafe extern "C" fn fdatasync(fd: c_int) -> c_int { unsafe { let r = ret(libc::syscall(libc::SYS_fdatasync, fd)); synced(fd); r } }
#[unsafe(no_mangle)] unsafe extern "C" fn pwrite64(fd: c_int, p: *const c_void, n: usize, at: i64) -> isize {
    unsafe {
        if ARMED.load(SeqCst) != 0 && n > 0 && fd > 2 && regular(fd) {
            let k = OPS.load(SeqCst);
            if TORN.load(SeqCst) & 1 == 1 && n > 1 && CRASH.load(SeqCst) == k + 1_000_000 {
                libc::syscall(libc::SYS_pwrite64, fd, p, n / 2, at);
                die();
            }
            op!(true);
            if TORN.load(SeqCst) & 2 != 0 { dirty(fd); }
        }
        libc::syscall(libc::SYS_pwrite64, fd, p, n, at) as isize
    }
}
#[unsafe(no_mangle)] unsafe extern "C" fn pwrite(fd: c_int, p: *const c_void, n: usize, at: i64) -> isize { unsafe { pwrite64(fd, p, n, at) } }
#[unsafe(no_mangle)] unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int { op!(false); unsafe { ret(libc::syscall(libc::SYS_ftruncate, fd, n)) } }
#[unsafe(no_mangle)] unsafe extern "C" fn ftruncate(fd: c_int, n: i64) -> c_int { unsafe { ftruncate64(fd, n) } }
/// Waiting for the one that waits for us: let it go on.
unsafe fn doze(us: i64) {
    if NESTED.load(SeqCst) != 0 { sh().done.store(1, SeqCst); }
    let t = libc::timespec { tv_sec: us / 1_000_000, tv_nsec: us % 1_000_000 * 1000 };
    unsafe { libc::syscall(libc::SYS_nanosleep, &t, 0); }
}
#[unsafe(no_mangle)] unsafe extern "C" fn usleep(us: u32) -> c_int { unsafe { doze(us as i64) }; 0 }
#[unsafe(no_mangle)] unsafe extern "C" fn sleep(n: u32) -> u32 { unsafe { doze(n as i64 * 1_000_000) }; 0 }
#[unsafe(no_mangle)] unsafe extern "C" fn nanosleep(t: *const libc::timespec, _: *mut libc::timespec) -> c_int { unsafe { doze((*t).tv_sec * 1_000_000 + (*t).tv_nsec / 1000) }; 0 }
#[unsafe(no_mangle)] unsafe extern "C" fn copy_file_range(_: c_int, _: *mut i64, _: c_int, _: *mut i64, _: usize, _: u32) -> isize { fail(38) as isize }
#[unsafe(no_mangle)] unsafe extern "C" fn sendfile64(_: c_int, _: c_int, _: *mut i64, _: usize) -> isize { fail(38) as isize }
#[unsafe(no_mangle)] unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    unsafe {
        access();
        if unreadable(CStr::from_ptr(p).to_bytes()) { fail(5); return std::ptr::null_mut(); }
        type F = unsafe extern "C" fn(*const c_char) -> *mut c_void;
        let f: F = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"opendir".as_ptr()));
        f(p)
    }
}
#[unsafe(no_mangle)] unsafe extern "C" fn mkdir(p: *const c_char, m: libc::mode_t) -> c_int { op!(false); unsafe { ret(libc::syscall(libc::SYS_mkdir, p, m)) } }
#[unsafe(no_mangle)] unsafe extern "C" fn unlink(p: *const c_char) -> c_int { op!(false); unsafe { ret(libc::syscall(libc::SYS_unlink, p)) } }
#[unsafe(no_mangle)] unsafe extern "C" fn rmdir(p: *const c_char) -> c_int { op!(false); unsafe { ret(libc::syscall(libc::SYS_rmdir, p)) } }
#[unsafe(no_mangle)] unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int { op!(false); unsafe { ret(libc::syscall(libc::SYS_unlinkat, d, p, f)) } }
#[unsafe(no_mangle)] unsafe extern "C" fn rename(p: *const c_char, q: *const c_char) -> c_int { op!(false); unsafe {
    if APART.load(SeqCst) != 0 {
        let there = |p: *const c_char| CStr::from_ptr(p).to_bytes().split(|c| *c == b'/').any(|c| c == b"repo");
        if there(p) != there(q) { return fail(libc::EXDEV); }
    } ret(libc::syscall(libc::SYS_rename, p, q)) } }
#[unsafe(no_mangle)] unsafe extern "C" fn symlink(p: *const c_char, q: *const c_char) -> c_int { op!(false); unsafe { ret(libc::syscall(libc::SYS_symlink, p, q)) } }
#[unsafe(no_mangle)] unsafe extern "C" fn chmod(p: *const c_char, m: libc::mode_t) -> c_int { op!(false); unsafe { ret(libc::syscall(libc::SYS_chmod, p, m)) } }
#[unsafe(no_mangle)] unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, n: usize, p: *mut u8) -> c_int {
    let c = CPUS.load(SeqCst);
    unsafe {
        if c == 0 {
            let r = libc::syscall(libc::SYS_sched_getaffinity, pid, n, p);
            return if r < 0 { -1 } else { 0 };
        }
        std::ptr::write_bytes(p, 0, n);
        std::ptr::copy_nonoverlapping(((1u64 << c) - 1).to_le_bytes().as_ptr(), p, 8);
        0
    }
}
