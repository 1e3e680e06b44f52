//! Restoring over what is there, and what backups notice.
use crate::rt::{KINDS, make};
use crate::sx;
use crate::util::*;
use std::fs;
use std::os::unix::fs::symlink;

/// What a restore without --delete makes of `before`.
fn merged(before: &Full, want: &Full) -> Full {
    let mut o = Full::new();
    let kept = |k: &str| {
        // below (or at) a directory that the snapshot has a file or link for
        let mut s = k;
        loop {
            if let (Some(b), Some(w)) = (before.get(s), want.get(s)) { if b.kind == Kind::Dir && w.kind != Kind::Dir { return true; } }
            match s.rsplit_once('/') { Some((d, _)) => s = d, None => return false }
        }
    };
    for (k, b) in before { if kept(k) || !want.contains_key(k) { o.insert(k.clone(), b.clone()); } }
    for (k, w) in want { if !kept(k) { o.insert(k.clone(), w.clone()); } }
    o
}
fn kinds_of(f: &Full) -> Vec<(String, Kind)> { f.iter().map(|(k, i)| (k.clone(), i.kind.clone())).collect() }

/// Restore over an existing tree.
pub fn h_restore_over() {
    world();
    fs::create_dir_all("outside/deep").unwrap();
    fs::write("outside/a", "do not touch").unwrap();
    fs::write("outside/deep/f", "this neither").unwrap();
    fs::create_dir_all("src/d").unwrap();
    let (x, y) = (sx::choice("then", KINDS), sx::choice("now", KINDS + 3));
    make("src/a", x, "ca", 0o640);
    fs::write("src/d/b", "bravo").unwrap();
    sx::must("init", || init("repo"));
    sx::must("backup", || backup("repo", &["src"]));
    let want = full("src");
    let place = sx::choice("place", 2);
    let out = ["out", "src"][place as usize];
    if place == 0 { fs::create_dir("out").unwrap(); }
    else { fs::remove_dir_all("src").unwrap(); fs::create_dir("src").unwrap(); }
    match y {
        8 => symlink("../outside", format!("{out}/a")).unwrap(),
        9 => symlink("../outside/a", format!("{out}/a")).unwrap(),
        10 => symlink("../outside/new", format!("{out}/a")).unwrap(),
        k => make(&format!("{out}/a"), k, "na", 0o600),
    }
    match sx::choice("d", 3) {
        0 => {}
        1 => { fs::create_dir(format!("{out}/d")).unwrap(); fs::write(format!("{out}/d/b"), "BRAVO").unwrap(); fs::write(format!("{out}/d/more"), "more").unwrap(); }
        _ => symlink("../outside/deep", format!("{out}/d")).unwrap(),
    }
    fs::write(format!("{out}/extra"), "extra").unwrap();
    let (before, outside) = (full(out), full("outside"));
    let mut a = vec![];
    let mode = sx::choice("mode", 3);
    if mode == 1 { a.push("--delete"); }
    if mode == 2 { a.push("-n"); if sx::flag("and delete") { a.push("--delete"); } }
    let meta = mode < 2 && sx::flag("meta");
    if meta { a.push("-tp"); }
    if place == 0 { a.extend(["-o", "out"]); }
    a.push("LAST");
    let e = sx::run(|| restore("repo", &a));
    same("outside the restored directory", &full("outside"), &outside, 2);
    sx::assert(e.ok(), "restore over an existing tree fails");
    let got = full(out);
    match mode {
        0 => {
            let m = merged(&before, &want);
            same("restored over", &got, &m, 0);
            for k in before.keys() { if !want.contains_key(k) && got[k] != m[k] && m[k].kind != Kind::Dir { sx::failf(format_args!("{k:?} is not in the snapshot, and changed")); } }
            if meta { for (k, w) in &want { if m[k].kind == w.kind && !matches!(w.kind, Kind::Link(_)) && (w.kind != Kind::Dir || k.is_empty()) && got[k].mode != w.mode { sx::failf(format_args!("mode of {k:?}")); } } }
        }
        1 => same("restored over with --delete", &got, &want, if meta { 2 } else { 0 }),
        _ => { same("dry run", &got, &before, 2); sx::assert(kinds_of(&got) == kinds_of(&before), "dry run"); }
    }
    sx::reached("end");
}
/// Several paths in one snapshot, restored into a directory.
pub fn h_restore_multi() {
    world();
    fs::create_dir_all("outside/deep").unwrap();
    fs::create_dir_all("src/d").unwrap();
    fs::write("src/a", "alpha").unwrap();
    fs::write("src/d/b", "bravo").unwrap();
    let x = sx::choice("two", KINDS);
    sx::assume(x != 0 && x != 4 && x != 5);
    make("two", x, "ct", 0o640);
    sx::must("init", || init("repo"));
    sx::must("backup", || backup("repo", &["src", "two"]));
    fs::create_dir("want").unwrap();
    fs::create_dir("out").unwrap();
    fs::rename("src", "want/src").unwrap();
    fs::rename("two", "want/two").unwrap();
    let want = full("want");
    match sx::choice("there", 6) {
        0 => {}
        1 => { fs::create_dir("out/two").unwrap(); fs::write("out/two/f", "old").unwrap(); fs::write("out/two/more", "more").unwrap(); }
        2 => fs::write("out/two", "old").unwrap(),
        3 => symlink("../outside/new", "out/two").unwrap(),
        4 => symlink("../outside/deep", "out/two").unwrap(),
        _ => { fs::create_dir("out/src").unwrap(); symlink("../../outside/new", "out/src/a").unwrap(); fs::write("out/other", "other").unwrap(); }
    }
    let (before, outside) = (full("out"), full("outside"));
    let delete = sx::flag("delete");
    let e = sx::run(|| restore("repo", if delete { &["--delete", "-o", "out", "LAST"] } else { &["-o", "out", "LAST"] }));
    same("outside the output directory", &full("outside"), &outside, 2);
    sx::assert(e.ok(), "restore of several paths fails");
    let mut w = if delete { want.clone() } else { merged(&before, &want) };
    // the output directory itself is not part of the snapshot
    if delete { for (k, i) in &before { if !k.is_empty() && !want.contains_key(k) && !k.contains('/') { w.insert(k.clone(), i.clone()); } } }
    same("restored", &full("out"), &w, 0);
    sx::reached("end");
}
/// The restored paths are gone altogether.
pub fn h_restore_gone() {
    world();
    fs::create_dir_all("src/d").unwrap();
    make("src/a", sx::choice("a", KINDS), "ca", 0o640);
    fs::write("src/d/b", "bravo").unwrap();
    fs::write("two", "two").unwrap();
    let n = sx::choice("paths", 3);
    sx::must("init", || init("repo"));
    sx::must("backup", || backup("repo", match n { 0 => &["src"], 1 => &["src", "two"], _ => &["two"] }));
    let want = full("src");
    if sx::flag("src gone") { fs::remove_dir_all("src").unwrap(); }
    if n != 0 && sx::flag("two gone") { fs::remove_file("two").unwrap(); }
    sx::must("restore of what is gone", || restore("repo", &["LAST"]));
    if n != 2 { same("restored", &full("src"), &want, 0); }
    sx::assert(fs::read("two").unwrap() == b"two", "restored");
    sx::reached("end");
}
/// What changed since the last backup is noticed.
pub fn h_change() {
    world();
    fs::create_dir_all("src/d").unwrap();
    let (x, y) = (sx::choice("then", KINDS), sx::choice("now", KINDS));
    let d = sx::flag("deep");
    let q = if d { "src/d/a" } else { "src/a" };
    make(q, x, "c1", 0o640);
    fs::write("src/d/b", "bravo").unwrap();
    let era = 1_700_000_000;
    let t1 = if x != 0 && x != 4 && x != 5 { let t = (era + sx::any("s1", 2) as i64, sx::any("n1", 20) as i64); sx::set_mtime(q, t.0, t.1); t } else { (0, 0) };
    sx::must("init", || init("repo"));
    sx::must("backup", || backup("repo", &["src"]));
    let before = full("src");
    let _ = if x == 3 || x == 6 { fs::remove_dir_all(q) } else { fs::remove_file(q) };
    make(q, y, "c2", 0o644);
    let t2 = if y != 0 && y != 4 && y != 5 { let t = (era + sx::any("s2", 2) as i64, sx::any("n2", 20) as i64); sx::set_mtime(q, t.0, t.1); t } else { (0, 0) };
    if let (Some(Kind::File(a)), Some(Kind::File(b))) = (before.get(&q[4..]).map(|i| i.kind.clone()), full("src").get(&q[4..]).map(|i| i.kind.clone())) {
        // by design, a file of the same size and time is taken to be the same
        if a.len() == b.len() && t1 == t2 { sx::assume(sx::same(&a, &b)); }
    }
    let want = full("src");
    sx::must("the second backup", || backup("repo", &["src"]));
    let s = load_snaps("repo");
    let last = s.last().unwrap().1.to_string();
    same("restored", &restored("repo", &last, true), &want, 2);
    // and the earlier one is what it was
    let first = s[0].1.to_string();
    if s.len() == 2 { same("the first", &restored("repo", &first, true), &before, 2); }
    sx::must("check", || check("repo", &["--read-packs"]));
    sx::reached("end");
}
