//! Commands that run at the same time; power failures.
use crate::hist::{v1, v2, v3};
use crate::sx;
use crate::util::*;
use std::fs;

fn at(dir: &str, f: impl Fn() -> anyhow::Result<()>) -> anyhow::Result<()> {
    std::env::set_current_dir(dir)?;
    f()
}
/// Two commands that add to a repository at once: all of one happens at any
/// point of the other. Whichever reports success has done its work, and the
/// repository is sound.
pub fn h_concurrent() {
    world();
    let mut want = Expect::default();
    sx::must("init", || init("repo"));
    put("src", &v1());
    sx::must("backup", || backup("repo", &["src"]));
    let s1 = want.learn("repo", &v1());
    sx::must("init", || init("other"));
    put("src", &v3());
    sx::must("backup", || backup("other", &["src"]));
    put("src", &v2());
    fs::create_dir("two").unwrap();
    let t2 = tree(&[("a", "alpha"), ("d/b", "BRAVO-2"), ("d/c", "charlie"), ("i", "india")]);
    put("two/src", &t2);
    let (x, y) = (sx::choice("first", 3), sx::choice("second", 4));
    let first = || match x {
        0 => backup("repo", &["src"]),
        1 => copy("other", &["--to", "repo", "--all"]),
        _ => rebuild_index("repo", &[]),
    };
    let second = || at("two", || match y {
        0 => backup("../repo", &["src"]),
        1 => copy("../other", &["--to", "../repo", "--all"]),
        2 => rebuild_index("../repo", &[]),
        _ => forget("../repo", &[&s1]),
    });
    let (e, o) = sx::meanwhile(sx::any_u64("meanwhile"), second, first);
    if o == sx::Other::NotRun { return; }
    no_partial("repo", "after both");
    // what is there
    let done = |e: bool, t: &Tree, what: &str, want: &mut Expect| {
        let found = snaps("repo").into_iter().find(|i| !want.0.iter().any(|w| w.0 == *i) && {
            clear("probe");
            let r = sx::run(|| restore("repo", &["-o", "probe", i]));
            let same = r.ok() && get("probe") == closed(t);
            let _ = fs::remove_dir_all("probe");
            same
        });
        match found { Some(i) => want.0.push((i, closed(t))), None => if e { sx::failf(format_args!("{what} reports success, but its snapshot is not there")) } }
    };
    if y == 3 && o == sx::Other::Ok { want.forget(&s1); sx::assert(!snaps("repo").contains(&s1), "forget reports success, but the snapshot is there"); }
    if x == 0 { done(e.ok(), &v2(), "backup", &mut want); }
    if x == 1 { done(e.ok(), &v3(), "copy", &mut want); }
    if y == 0 { done(o == sx::Other::Ok, &t2, "backup meanwhile", &mut want); }
    if y == 1 && x != 1 { done(o == sx::Other::Ok, &v3(), "copy meanwhile", &mut want); }
    if snaps("repo").len() != want.0.len() { sx::failf(format_args!("{} snapshots instead of {}", snaps("repo").len(), want.0.len())); }
    verify("repo", &want, "after both");
    // and goes on working
    sx::must("backup", || backup("repo", &["src"]));
    if x == 0 && e.ok() { verify("repo", &want, "after the next backup"); }
    sx::reached("end");
}

/// A power failure anywhere in a command: data that was not synced is gone,
/// names are not. Nothing under a final name is cut short, and the command
/// can be run again.
pub fn h_power() {
    world();
    if sx::flag("apart") { sx::set(8, 1); }
    let mut want = Expect::default();
    sx::must("init", || init("repo"));
    put("src", &v1());
    sx::must("backup", || backup("repo", &["src"]));
    let s1 = want.learn("repo", &v1());
    let what = sx::choice("what", 4);
    match what {
        0 => {}
        1 => {
            put("src", &v2());
            sx::must("backup", || backup("repo", &["src"]));
            want.learn("repo", &v2());
            sx::must("forget", || forget("repo", &[&s1]));
            want.forget(&s1);
        }
        _ => {
            sx::must("init", || init("other"));
            put("src", &v3());
            sx::must("backup", || backup("other", &["src"]));
        }
    }
    put("src", &v2());
    let run = || match what {
        0 => backup("repo", &["src"]),
        1 => prune("repo", &[]),
        2 => copy("other", &["--to", "repo", "--all"]),
        _ => rebuild_index("repo", &[]),
    };
    let k = sx::any_u64("crash");
    let e = if sx::flag("killed") { sx::process(k, sx::NEVER, true, run) } else { sx::process_power(k, run) };
    if !e.crashed() { sx::assert(e.ok(), "fails"); }
    no_partial("repo", "after the power failure");
    let before = want.0.len();
    let learn = |want: &mut Expect, must: bool| {
        let t = match what { 0 => v2(), 2 => v3(), _ => return };
        if snaps("repo").len() > want.0.len() { want.learn("repo", &t); } else if must && want.0.len() == before { sx::fail("no snapshot"); }
    };
    learn(&mut want, !e.crashed());
    verify("repo", &want, "after the power failure");
    if e.crashed() {
        sx::must("once more", run);
        learn(&mut want, true);
        verify("repo", &want, "after running it again");
    }
    sx::reached("end");
}

/// A backup runs at any point of a command that reads: that command works, and
/// sees each snapshot whole.
pub fn h_readers() {
    world();
    let mut want = Expect::default();
    sx::must("init", || init("repo"));
    put("src", &v1());
    sx::must("backup", || backup("repo", &["src"]));
    want.learn("repo", &v1());
    put("src", &v2());
    sx::must("backup", || backup("repo", &["src"]));
    want.learn("repo", &v2());
    sx::must("init", || init("other"));
    fs::create_dir("two").unwrap();
    put("two/src", &v3());
    let x = sx::choice("first", 11);
    let first = || match x {
        0 => check("repo", &[]),
        1 => check("repo", &["--read-packs"]),
        2 => { clear("o"); restore("repo", &["-o", "o", "LAST"]) }
        3 => diff("repo", &["LAST"]),
        4 => diff("repo", &["LAST~", "LAST"]),
        5 => ls("repo", &["-r", "LAST"]),
        6 => dump("repo", &["-o", "dumped", "LAST", "src/a"]),
        7 => copy("repo", &["--to", "other", "--all"]),
        8 => usage("repo"),
        9 => snapshots("repo", &["--sizes"]),
        _ => filter_snapshot("repo", &["-s", "b", "LAST"]),
    };
    let second = || at("two", || backup("../repo", &["src"]));
    let (e, o) = sx::meanwhile(sx::any_u64("meanwhile"), second, first);
    if o == sx::Other::NotRun { return; }
    if !e.ok() { sx::failf(format_args!("a command that reads fails because of a backup meanwhile ({e:?})")); }
    if o != sx::Other::Ok { sx::fail("a backup fails because of a command that reads meanwhile"); }
    if x == 2 { let g = get("o"); sx::assert(g == closed(&v2()) || g == closed(&v3()), "restored neither the last snapshot nor the new one"); }
    if x == 6 {
        let g = fs::read("dumped").unwrap();
        sx::assert([v2(), v3()].iter().any(|t| t.get("a").is_some_and(|b| b.as_ref() == Some(&g))), "dumped neither the last snapshot's file nor the new one's");
    }
    if x == 7 { sx::must("check of the copy", || check("other", &["--read-packs"])); }
    if x != 10 { want.learn("repo", &v3()); }
    verify("repo", &want, "after both");
    sx::reached("end");
}
