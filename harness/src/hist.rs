//! Histories of commands, with crashes and faults at symbolic points.
use crate::sx;
use std::fs;
use crate::util::*;

pub fn v1() -> Tree { tree(&[("a", "alpha"), ("d/b", "bravo"), ("d/c", "charlie"), ("e/f", "foxtrot")]) }
pub fn v2() -> Tree { tree(&[("a", "alpha"), ("d/b", "BRAVO-2"), ("d/c", "charlie"), ("g", "golf")]) }

/// A crash anywhere in a backup: earlier snapshots stay intact, the new one is
/// there completely or not at all, and the next run picks up and finishes.
pub fn h_crash_backup() {
    world();
    let mut want = Expect::default();
    put("src", &v1());
    sx::must("init", || init("repo"));
    sx::must("backup", || backup("repo", &["src"]));
    want.learn("repo", &v1());
    put("src", &v2());
    let k = sx::any_u64("crash");
    let e = sx::process(k, sx::NEVER, true, || backup("repo", &["src"]));
    if !e.crashed() { sx::assert(e.ok(), "backup fails"); }
    let s = snaps("repo");
    if s.len() > 1 { want.learn("repo", &v2()); }
    sx::assert(s.len() > 1 || e.crashed(), "backup succeeded without a snapshot");
    no_partial("repo", "after the crash");
    verify("repo", &want, "after the crash");
    if s.len() == 1 {
        sx::must("backup after the crash", || backup("repo", &["src"]));
        want.learn("repo", &v2());
        verify("repo", &want, "after the next backup");
        sx::assert(!std::path::Path::new("backpak-wip.index").exists(), "WIP index left behind by a complete backup");
    }
    sx::reached("end");
}
/// The same for an I/O error instead of a crash.
pub fn h_fault_backup() {
    world();
    let mut want = Expect::default();
    put("src", &v1());
    sx::must("init", || init("repo"));
    sx::must("backup", || backup("repo", &["src"]));
    want.learn("repo", &v1());
    put("src", &v2());
    let k = sx::any_u64("fault");
    let e = sx::process(sx::NEVER, k, false, || backup("repo", &["src"]));
    let s = snaps("repo");
    if s.len() > 1 { want.learn("repo", &v2()); }
    sx::assert(s.len() > 1 || !e.ok(), "backup reports success without a snapshot");
    no_partial("repo", "after the fault");
    verify("repo", &want, "after the fault");
    if s.len() == 1 {
        sx::must("backup after the fault", || backup("repo", &["src"]));
        want.learn("repo", &v2());
        verify("repo", &want, "after the next backup");
    }
    sx::reached("end");
}

/// Two snapshots with shared and distinct blobs; the first is forgotten; a
/// crash anywhere in prune.
pub fn h_crash_prune() {
    world();
    let mut want = Expect::default();
    put("src", &v1());
    sx::must("init", || init("repo"));
    sx::must("backup", || backup("repo", &["src"]));
    let s1 = want.learn("repo", &v1());
    put("src", &v2());
    sx::must("backup", || backup("repo", &["src"]));
    want.learn("repo", &v2());
    sx::must("forget", || forget("repo", &[&s1]));
    want.forget(&s1);
    let k = sx::any_u64("crash");
    let e = sx::process(k, sx::NEVER, true, || prune("repo", &[]));
    if !e.crashed() { sx::assert(e.ok(), "prune fails"); }
    no_partial("repo", "after the crash");
    verify("repo", &want, "after the crash");
    if e.crashed() {
        sx::must("prune after the crash", || prune("repo", &[]));
        verify("repo", &want, "after the next prune");
    }
    tight("repo", "after the prune");
    sx::reached("end");
}

/// Every schedule of the backup pipeline within a budget of deviations from
/// running each thread to its next blocking point.
pub fn h_sched_backup() {
    world();
    let mut want = Expect::default();
    put("src", &v2());
    sx::must("init", || init("repo"));
    sx::must("backup", || { sx::sched(if sx::deep() { 2 } else { 1 }); backup("repo", &["src"]) });
    want.learn("repo", &v2());
    verify("repo", &want, "after the backup");
    sx::reached("end");
}

/// What the user does after an interrupted prune.
fn after(want: &mut Expect, what: u64) {
    match what {
        0 => sx::must("prune", || prune("repo", &[])),
        1 => {
            put("src", &v3());
            sx::must("backup", || backup("repo", &["src"]));
            want.learn("repo", &v3());
        }
        2 => {
            let s = want.0[0].0.clone();
            sx::must("forget", || forget("repo", &[&s]));
            want.forget(&s);
            sx::must("prune", || prune("repo", &[]));
        }
        3 => sx::must("rebuild-index", || rebuild_index("repo", &[])),
        _ => {
            sx::must("copy", || copy("other", &["--to", "repo", "--all"]));
            want.learn("repo", &v3());
        }
    }
}
pub fn v3() -> Tree { tree(&[("a", "alpha"), ("d/c", "charlie"), ("h", "hotel")]) }

/// A prune interrupted anywhere, then any other command: nothing that a
/// remaining snapshot needs is lost.
pub fn h_prune_then() {
    world();
    let mut want = Expect::default();
    sx::must("init", || init("repo"));
    for v in [v1(), v2(), v3()] {
        put("src", &v);
        sx::must("backup", || backup("repo", &["src"]));
        want.learn("repo", &v);
    }
    sx::must("init", || init("other"));
    put("src", &tree(&[("x", "xray"), ("y/z", "zulu")]));
    put("src", &v3());
    sx::must("backup", || backup("other", &["src"]));
    let s1 = want.0[sx::choice("forgotten", 2) as usize].0.clone();
    sx::must("forget", || forget("repo", &[&s1]));
    want.forget(&s1);
    let k = sx::any_u64("crash");
    let e = sx::process(k, sx::NEVER, true, || prune("repo", &[]));
    if !e.crashed() { sx::assert(e.ok(), "prune fails"); }
    let mut w = want.clone();
    let n = sx::choice("then", 5);
    after(&mut w, n);
    verify("repo", &w, "after the command after an interrupted prune");
    sx::must("prune", || prune("repo", &[]));
    verify("repo", &w, "after the last prune");
    tight("repo", "after the last prune");
    sx::reached("end");
}

/// The commands finish on a machine with any number of processors.
pub fn h_cpus() {
    world();
    let n = sx::choice("cpus", 9);
    sx::assume(n > 0);
    sx::set(4, n);
    let mut want = Expect::default();
    put("src", &v1());
    sx::must("init", || init("repo"));
    sx::must("backup", || backup("repo", &["src"]));
    let s1 = want.learn("repo", &v1());
    put("src", &v2());
    sx::must("backup", || backup("repo", &["src"]));
    want.learn("repo", &v2());
    verify("repo", &want, "after the backups");
    sx::must("forget", || forget("repo", &[&s1]));
    want.forget(&s1);
    sx::must("prune", || prune("repo", &[]));
    verify("repo", &want, "after prune");
    sx::must("rebuild-index", || rebuild_index("repo", &[]));
    verify("repo", &want, "after rebuild-index");
    sx::must("init", || init("other"));
    sx::must("copy", || copy("repo", &["--to", "other", "--all"]));
    sx::must("filter-snapshot", || filter_snapshot("repo", &["-s", "/g$", "LAST"]));
    sx::reached("end");
}

/// A copy or filter-snapshot killed anywhere: what was in the repository stays
/// intact, the new snapshots are there completely or not at all, and running
/// it again completes it.
pub fn h_crash_copy() {
    world();
    let mut want = Expect::default();
    let mut other = Expect::default();
    sx::must("init", || init("repo"));
    sx::must("init", || init("other"));
    put("src", &v1());
    sx::must("backup", || backup("other", &["src"]));
    other.learn("other", &v1());
    put("src", &v2());
    sx::must("backup", || backup("other", &["src"]));
    other.learn("other", &v2());
    put("src", &v3());
    sx::must("backup", || backup("repo", &["src"]));
    want.learn("repo", &v3());
    let filter = sx::flag("filter");
    let mut f2 = v2();
    f2.remove("d/b");
    f2.insert("d".into(), None);
    let run = || if filter { filter_snapshot("other", &["-k", "-s", "/b$", "LAST"]) } else { copy("other", &["--to", "repo", "--all"]) };
    let k = sx::any_u64("crash");
    let e = sx::process(k, sx::NEVER, true, run);
    if !e.crashed() { sx::assert(e.ok(), "fails"); }
    let here = |want: &Expect, other: &Expect, complete: bool| {
        let (mut want, mut other) = (want.clone(), other.clone());
        if filter { if snaps("other").len() > 2 { other.learn("other", &f2); } else if complete { sx::fail("no filtered snapshot"); } }
        else {
            for (i, t) in &other.0 { if snaps("repo").contains(i) { want.0.push((i.clone(), t.clone())); } }
            if complete && want.0.len() != 3 { sx::fail("not every snapshot is copied"); }
        }
        verify("repo", &want, if complete { "after the end" } else { "after the crash" });
        verify("other", &other, if complete { "after the end" } else { "after the crash" });
        if snaps("repo").len() != want.0.len() || snaps("other").len() != other.0.len() { sx::fail("a snapshot nobody made"); }
    };
    here(&want, &other, !e.crashed());
    if e.crashed() {
        sx::must("once more", run);
        here(&want, &other, true);
        once("repo", "after copying once more");
        if !filter { sx::assert(!std::path::Path::new("backpak-wip.index").exists(), "WIP index left behind by a complete copy"); }
    }
    sx::reached("end");
}
/// An I/O error anywhere in prune.
pub fn h_fault_prune() {
    world();
    let mut want = Expect::default();
    put("src", &v1());
    sx::must("init", || init("repo"));
    sx::must("backup", || backup("repo", &["src"]));
    let s1 = want.learn("repo", &v1());
    put("src", &v2());
    sx::must("backup", || backup("repo", &["src"]));
    want.learn("repo", &v2());
    sx::must("forget", || forget("repo", &[&s1]));
    want.forget(&s1);
    let k = sx::any_u64("fault");
    let e = sx::process(sx::NEVER, k, false, || prune("repo", &[]));
    no_partial("repo", "after the fault");
    verify("repo", &want, "after the fault");
    if e.ok() { tight("repo", "after a prune that reports success"); }
    sx::must("prune after the fault", || prune("repo", &[]));
    verify("repo", &want, "after the next prune");
    sx::reached("end");
}

/// Any command, when some file or directory cannot be read: it fails, or its
/// work is done; the repository keeps all it had.
pub fn h_fault_read() {
    world();
    let mut want = Expect::default();
    put("src", &v1());
    sx::must("init", || init("repo"));
    sx::must("backup", || backup("repo", &["src"]));
    let s1 = want.learn("repo", &v1());
    put("src", &v2());
    sx::must("backup", || backup("repo", &["src"]));
    want.learn("repo", &v2());
    let what = sx::choice("what", 6);
    match what {
        0 => put("src", &v3()),
        1 => { sx::must("forget", || forget("repo", &[&s1])); want.forget(&s1); }
        3 => { sx::must("init", || init("other")); put("t", &v3()); sx::must("backup", || backup("other", &["t"])); want.0.push((snaps("other")[0].clone(), closed(&v3()))); }
        _ => {}
    }
    let f = || match what {
        0 => backup("repo", &["src"]),
        1 => prune("repo", &[]),
        2 => rebuild_index("repo", &[]),
        3 => copy("other", &["--to", "repo", "--all"]),
        4 => { clear("o"); restore("repo", &["-o", "o", &s1]) }
        _ => check("repo", &["--read-packs"]),
    };
    sx::set(10, 1);
    sx::set(11, 0);
    let e = sx::process(sx::NEVER, sx::any_u64("fault"), false, f);
    sx::set(10, 0);
    match e { sx::End::Returned(_) | sx::End::Exited(_) => {} _ => sx::failf(format_args!("{} ends like this: {e:?}", WHAT[what as usize])) }
    no_partial("repo", "after the fault");
    let new = if what == 0 { snaps("repo").into_iter().find(|i| !want.0.iter().any(|w| w.0 == *i)) } else { None };
    if what == 0 {
        sx::assert(new.is_some() || !e.ok(), "backup reports success without a snapshot");
        // what cannot be read is left out, and said
        if let Some(n) = &new { let t = listed("repo", n); sx::assert(!e.ok() || t == closed(&v3()), "backup reports success, but something is missing"); want.0.push((n.clone(), t)); }
    }
    if what == 3 && !snaps("repo").contains(&want.0[2].0) { sx::assert(!e.ok(), "copy reports success without the snapshot"); want.0.pop(); }
    if what == 4 { if e.ok() { sx::assert(get("o") == want.0[0].1, "restore reports success, but the files differ"); } let _ = fs::remove_dir_all("o"); }
    verify("repo", &want, "after the fault");
    if what == 1 && e.ok() { tight("repo", "after a prune that reports success"); }
    if !e.ok() && what < 4 {
        sx::must("the same again", f);
        if what == 0 { let n = snaps("repo").into_iter().find(|i| !want.0.iter().any(|w| w.0 == *i)); if let Some(n) = n { want.0.push((n, closed(&v3()))); } else { sx::assert(new.is_some(), "no snapshot the second time"); } }
        if what == 3 && want.0.len() < 3 { want.0.push((snaps("other")[0].clone(), closed(&v3()))); }
        verify("repo", &want, "after the same again");
        if what == 1 { tight("repo", "after the second prune"); }
    }
    sx::reached("end");
}
const WHAT: [&str; 6] = ["backup", "prune", "rebuild-index", "copy", "restore", "check"];
/// The tree a snapshot restores to.
fn listed(repo: &str, id: &str) -> Tree {
    clear("probe");
    sx::must("restore of what was made", || restore(repo, &["-o", "probe", id]));
    let t = get("probe");
    let _ = fs::remove_dir_all("probe");
    t
}
