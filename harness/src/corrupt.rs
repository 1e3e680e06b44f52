//! Damaged and missing files of a repository.
use crate::sx;
use crate::util::*;
use std::fs;

/// The stored objects of a repository, in a fixed order: by directory, then size.
pub fn objects(repo: &str) -> Vec<String> {
    let mut v = vec![];
    for d in ["packs", "indexes", "snapshots"] {
        let mut w: Vec<(u64, String)> = names(&format!("{repo}/{d}")).iter().map(|n| format!("{repo}/{d}/{n}")).map(|p| (fs::metadata(&p).unwrap().len(), p)).collect();
        w.sort();
        v.extend(w.into_iter().map(|(_, p)| p));
    }
    v
}
fn restores(when: &str, want: &Full) -> bool {
    let _ = fs::remove_dir_all("out");
    fs::create_dir("out").unwrap();
    let e = sx::run(|| restore("repo", &["-o", "out", "LAST"]));
    if e.ok() { same(when, &full("out"), want, 0); }
    e.ok()
}
/// Do the snapshots read as they did?
fn unchanged(snaps: &[Snap]) -> bool {
    sx::emit_clear();
    let e = sx::run(|| { sx::emit((load_snaps("repo") == *snaps) as u64); Ok(()) });
    e.ok() && sx::emitted(0) == 1
}
fn corrupt_one(kind: u64) {
    world();
    put("src", &tree(&[("a", "alpha-alpha"), ("d/b", "bravo")]));
    let want = full("src");
    sx::must("init", || init("repo"));
    sx::must("backup", || backup("repo", &["src"]));
    let snaps = load_snaps("repo");
    let o = objects("repo");
    sx::assert(o.len() == 4, "four objects expected");
    let f = &o[sx::choice("object", 4) as usize];
    let b = fs::read(f).unwrap();
    let what = match kind {
        0 => {
            let at = position("position", b.len());
            let x = sx::any_u8("delta");
            sx::assume(x != 0);
            let mut c = b.clone();
            c[at] ^= x;
            fs::write(f, c).unwrap();
            "changed"
        }
        1 => {
            let at = position("length", b.len());
            fs::write(f, &b[..at]).unwrap();
            "cut"
        }
        _ => { fs::remove_file(f).unwrap(); "removed" }
    };
    let c = sx::run(|| check("repo", &["--read-packs"]));
    let r = restores(what, &want);
    let gone = f.contains("/snapshots/") && kind == 2;
    sx::assert(!c.ok() || r || gone, "check --read-packs passes, but the snapshot cannot be restored");
    sx::assert(!c.ok() || gone || kind != 2, "check --read-packs passes although a file is gone");
    if c.ok() && !gone {
        // Unnoticed: then everything must read as before, also what is only read when the indexes are lost.
        sx::assert(unchanged(&snaps), "check --read-packs passes, but the snapshot reads differently");
        if f.contains("/packs/") {
            for i in names("repo/indexes") { fs::remove_file(format!("repo/indexes/{i}")).unwrap(); }
            sx::must("rebuild-index", || rebuild_index("repo", &[]));
            sx::must("check", || check("repo", &["--read-packs"]));
        }
    }
    sx::reached("end");
}
/// A position in a file; natively the same relative position.
fn position(name: &str, len: usize) -> usize {
    let p = sx::any(name, 16);
    sx::assume(p < len as u64);
    // a fifth of the positions in the quick tier
    sx::assume(name != "position" || sx::deep() || sx::native() || p % 5 == 3);
    sx::concretize(p) as usize
}
pub fn h_corrupt() { corrupt_one(0) }
pub fn h_cut() { corrupt_one(1 + sx::choice("kind", 2)) }
/// Any set of objects is missing: plain `check` tells, or everything is there.
pub fn h_missing() {
    world();
    let mut want = Expect::default();
    sx::must("init", || init("repo"));
    for t in [tree(&[("a", "alpha"), ("d/b", "bravo")]), tree(&[("a", "alpha"), ("d/c", "charlie")])] {
        put("src", &t);
        sx::must("backup", || backup("repo", &["src"]));
        want.learn("repo", &t);
    }
    let o = objects("repo");
    let mut gone = vec![];
    for (k, f) in o.iter().enumerate() {
        if f.contains("/snapshots/") { continue; }
        if sx::flag(&format!("gone{k}")) { fs::remove_file(f).unwrap(); gone.push(f.clone()); }
    }
    let e = sx::run(|| check("repo", &[]));
    let full = sx::run(|| check("repo", &["--read-packs"]));
    let mut all = true;
    for (i, t) in &want.0 {
        let _ = fs::remove_dir_all("out");
        fs::create_dir("out").unwrap();
        let r = sx::run(|| restore("repo", &["-o", "out", i]));
        if r.ok() { sx::assert(get("out") == *t, "a snapshot restores to something else although files are missing"); }
        all &= r.ok();
    }
    sx::assert(!e.ok() || all, "check passes, but a snapshot cannot be restored");
    sx::assert(!full.ok() || all, "check --read-packs passes, but a snapshot cannot be restored");
    sx::assert(!e.ok() || gone.is_empty() || gone.iter().all(|g| g.contains("/indexes/")), "check passes although an indexed pack is missing");
    if gone.is_empty() { sx::assert(e.ok() && full.ok() && all, "a sound repository does not pass"); }
    sx::reached("end");
}
