//! Picking up after an interrupted run.
use crate::sx;
use crate::util::*;
use crate::hist::{v1, v2, v3};
use std::fs;

/// A backup killed anywhere, then anything else that is run from the same
/// working directory: all there was is kept, nothing is stored twice, and the
/// next complete backup leaves nothing behind.
pub fn h_resume() {
    world();
    let mut want = Expect::default();
    sx::must("init", || init("repo"));
    put("second", &tree(&[("s", "sierra"), ("t/u", "uniform")]));
    sx::must("backup", || backup("repo", &["second"]));
    want.learn("repo", &tree(&[("s", "sierra"), ("t/u", "uniform")]));
    put("src", &v1());
    let then = sx::choice("then", 8);
    if then == 4 {
        sx::must("init", || init("other"));
        sx::must("backup", || backup("other", &["src"]));
    }
    put("src", &v2());
    let k = sx::any_u64("crash");
    let e = sx::process(k, sx::NEVER, true, || backup("repo", &["src"]));
    if !e.crashed() { sx::assert(e.ok(), "backup fails"); }
    if snaps("repo").len() > 1 { want.learn("repo", &v2()); }
    let wip = fs::exists("backpak-wip.index").unwrap();
    let mut last = None;
    match then {
        0 => last = Some(v2()),
        1 => last = Some(v3()),
        2 => {
            sx::must("backup -n", || backup("repo", &["-n", "src"]));
            sx::assert(fs::exists("backpak-wip.index").unwrap() == wip, "a dry run removes or leaves a WIP index");
            last = Some(v2());
        }
        3 => {
            // an unrelated backup that has nothing to do, run from the same directory
            sx::must("backup of something unchanged", || backup("repo", &["second"]));
            sx::assert(!fs::exists("backpak-wip.index").unwrap(), "WIP index left behind by a complete backup");
            sx::must("check", || check("repo", &["--read-packs"]));
            // access times differ
            if snaps("repo").len() > want.0.len() { want.learn("repo", &tree(&[("s", "sierra"), ("t/u", "uniform")])); }
        }
        4 => {
            sx::must("copy", || copy("other", &["--to", "repo", "--all"]));
            want.learn("repo", &v1());
            sx::assert(!fs::exists("backpak-wip.index").unwrap(), "WIP index left behind by a complete copy");
        }
        5 => {
            sx::must("rebuild-index", || rebuild_index("repo", &[]));
            last = Some(v2());
        }
        6 => {
            sx::must("prune", || prune("repo", &[]));
            last = Some(v2());
        }
        _ => {
            sx::must("filter-snapshot", || filter_snapshot("repo", &["-s", "/s$", &want.0[0].0]));
            want.learn("repo", &tree(&[("t/u", "uniform")]));
            last = Some(v2());
        }
    }
    if let Some(t) = last {
        put("src", &t);
        sx::must("the next backup", || backup("repo", &["src"]));
        want.learn("repo", &t);
        sx::assert(!fs::exists("backpak-wip.index").unwrap(), "WIP index left behind by a complete backup");
    }
    if then != 6 && then != 5 { once("repo", "after the next backup"); }
    verify("repo", &want, "after the next command");
    sx::reached("end");
}
/// Two interruptions in a row.
pub fn h_resume_twice() {
    world();
    let mut want = Expect::default();
    sx::must("init", || init("repo"));
    put("src", &v2());
    let k = sx::any_u64("crash");
    let a = sx::process(k, sx::NEVER, true, || backup("repo", &["src"]));
    sx::assume(a.crashed() && snaps("repo").is_empty());
    if sx::flag("changed") { put("src", &v3()); }
    let now = get("src");
    let k = sx::any_u64("crash2");
    let b = sx::process(k, sx::NEVER, true, || backup("repo", &["src"]));
    if !b.crashed() { sx::assert(b.ok(), "the second backup fails"); }
    if !snaps("repo").is_empty() { want.learn("repo", &now); }
    sx::must("the third backup", || backup("repo", &["src"]));
    if snaps("repo").len() > want.0.len() { want.learn("repo", &now); }
    sx::assert(!fs::exists("backpak-wip.index").unwrap(), "WIP index left behind by a complete backup");
    once("repo", "after the third backup");
    verify("repo", &want, "after the third backup");
    sx::reached("end");
}
/// Commands that must not change anything, do not: not in the repository, not
/// in the working directory, whatever was left there.
pub fn h_dryrun() {
    world();
    let mut want = Expect::default();
    sx::must("init", || init("repo"));
    put("src", &v1());
    sx::must("backup", || backup("repo", &["src"]));
    let s1 = want.learn("repo", &v1());
    put("src", &v2());
    sx::must("backup", || backup("repo", &["src"]));
    want.learn("repo", &v2());
    sx::must("init", || init("other"));
    put("src", &v3());
    let left = sx::choice("left", 3);
    match left {
        0 => sx::must("forget", || forget("repo", &[&s1])),
        1 => {
            let k = sx::any_u64("crash");
            sx::assume(sx::process(k, sx::NEVER, false, || backup("repo", &["src"])).crashed());
        }
        _ => {
            sx::must("forget", || forget("repo", &[&s1]));
            let k = sx::any_u64("crash");
            sx::assume(sx::process(k, sx::NEVER, false, || prune("repo", &[])).crashed());
        }
    }
    fs::create_dir_all("out/x").unwrap();
    fs::write("out/a", "before").unwrap();
    // packs the WIP index does not know, and complete indexes not uploaded, are of
    // no use to anyone: only a run that makes the very same file touches them
    let wip: Vec<String> = backpak::index::read_wip().unwrap().map(|i| i.packs.keys().map(|k| format!("{k}.pack")).collect()).unwrap_or_default();
    let all = |d: &str| {
        let mut f = full(d);
        f.remove("").unwrap();
        if d == "." { f.retain(|k, _| k.contains('/') || k == "backpak-wip.index" || wip.contains(k) || !(k.ends_with(".pack") || k.ends_with(".index"))); }
        f
    };
    let (before, inside) = (all("."), all("repo"));
    let which = sx::choice("command", 14);
    let end = match which {
        0 => sx::run(|| backup("repo", &["-n", "src"])),
        1 => sx::run(|| prune("repo", &["-n"])),
        2 => sx::run(|| restore("repo", &["-n", "-tp", "--delete", "-o", "out", "LAST"])),
        3 => sx::run(|| restore("repo", &["-n", "--delete", "LAST"])),
        4 => sx::run(|| forget("repo", &["-n", "LAST"])),
        5 => sx::run(|| copy("repo", &["-n", "--to", "other", "--all"])),
        6 => sx::run(|| filter_snapshot("repo", &["-n", "-s", "/a$", "LAST"])),
        7 => sx::run(|| rebuild_index("repo", &["-n"])),
        8 => sx::run(|| check("repo", &["--read-packs"])),
        9 => sx::run(|| ls("repo", &["LAST"])),
        10 => sx::run(|| diff("repo", &["LAST"])),
        11 => sx::run(|| snapshots("repo", &[])),
        12 => sx::run(|| usage("repo")),
        _ => sx::run(|| forget("repo", &["-n", "DUPLICATES"])),
    };
    // (a WIP index of another repository's is in the way of `copy`)
    if which != 5 || left == 0 { sx::assert(end.ok(), "the dry run, or the command that only reads, fails"); }
    let at = |f: Full| -> Vec<_> { f.into_iter().map(|(k, i)| (k, if i.kind == Kind::Dir { None } else { Some((i.kind, i.mode, i.mtime)) })).collect() };
    sx::assert(at(all("repo")) == at(inside), "the dry run, or the command that only reads, changes the repository");
    sx::assert(at(all(".")) == at(before), "the dry run, or the command that only reads, changes the working directory");
    sx::reached("end");
}
