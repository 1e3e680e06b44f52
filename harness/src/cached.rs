//! Repositories whose objects go through the local cache: it changes nothing
//! but speed, whatever it holds.
use crate::hist::{v1, v2, v3};
use crate::sx;
use crate::util::*;
use backpak::ui;
use clap::Parser;
use std::fs;
use std::sync::atomic::Ordering::SeqCst;

pub fn init_cached(repo: &str) -> anyhow::Result<()> { ui::init::run(p(repo), ui::init::Args::parse_from(["init", "filesystem", "--force-cache"])) }
pub fn cache_dir() -> String { format!("{}/.cache/backpak", std::env::var("HOME").unwrap()) }
const DB: &str = "cache_metadata.sqlite";
pub fn objects() -> Vec<String> { if fs::exists(cache_dir()).unwrap() { names(&cache_dir()).into_iter().filter(|n| !n.starts_with(DB)).collect() } else { vec![] } }
/// Objects of the repository, cached: they are what the repository has.
pub fn cached_right(repo: &str, when: &str) {
    for n in objects() {
        let d = if n.ends_with(".pack") { "packs" } else if n.ends_with(".index") { "indexes" } else if n.ends_with(".snapshot") { "snapshots" } else { continue };
        let q = format!("{repo}/{d}/{n}");
        if fs::exists(&q).unwrap() && fs::read(&q).unwrap() != fs::read(format!("{}/{n}", cache_dir())).unwrap() { sx::failf(format_args!("{when}: the cache holds something else for one of the {d}")); }
    }
}

fn start(want: &mut Expect) -> (String, String) {
    sx::must("init", || init_cached("repo"));
    put("src", &v1());
    sx::must("backup", || backup("repo", &["src"]));
    let s1 = want.learn("repo", &v1());
    put("src", &v2());
    sx::must("backup", || backup("repo", &["src"]));
    let s2 = want.learn("repo", &v2());
    (s1, s2)
}
/// One command; true if it made a snapshot of src.
fn step(what: u64, want: &mut Expect, when: &str) -> bool {
    match what {
        0 => { sx::must(when, || backup("repo", &["src"])); true }
        1 => { sx::must(when, || check("repo", &["--read-packs"])); false }
        2 => {
            if want.0.len() < 2 { return false; }
            let s = want.0[0].0.clone();
            sx::must(when, || forget("repo", &[&s]));
            want.forget(&s);
            sx::must(when, || prune("repo", &[]));
            false
        }
        3 => { sx::must(when, || rebuild_index("repo", &[])); false }
        _ => { clear("o"); sx::must(when, || restore("repo", &["-o", "o", "LAST"])); let _ = fs::remove_dir_all("o"); false }
    }
}

/// A cache in any state.
pub fn h_cache_any() {
    world();
    let mut want = Expect::default();
    let (s1, _) = start(&mut want);
    let c = cache_dir();
    let state = sx::choice("cache", 9);
    match state {
        0 => {}
        1 => fs::remove_dir_all(&c).unwrap(),
        2 => fs::remove_file(format!("{c}/{DB}")).unwrap(),
        3 => for n in objects() { fs::remove_file(format!("{c}/{n}")).unwrap(); },
        4 => for n in objects() { if n.ends_with(".pack") { fs::remove_file(format!("{c}/{n}")).unwrap(); } },
        5 => for n in objects() { if !n.ends_with(".pack") { fs::remove_file(format!("{c}/{n}")).unwrap(); } },
        // something left by an interrupted run, and something of another repository
        6 => for n in objects() { fs::copy(format!("{c}/{n}"), format!("{c}/{n}.abcdef.part")).unwrap(); fs::remove_file(format!("{c}/{n}")).unwrap(); },
        7 => { fs::remove_dir_all(&c).unwrap(); fs::create_dir_all(&c).unwrap(); for n in names("repo/packs") { fs::copy(format!("repo/packs/{n}"), format!("{c}/{n}")).unwrap(); } }
        _ => { sx::must("init", || init_cached("other")); put("t", &v3()); sx::must("backup", || backup("other", &["t"])); fs::remove_dir_all("t").unwrap(); }
    }
    let limit = [0, 1, 700][sx::choice("size", 3) as usize];
    CACHE_SIZE.store(limit, SeqCst);
    let _ = s1;
    put("src", &v3());
    let then = sx::choice("then", 5);
    if step(then, &mut want, "with that cache") { want.learn("repo", &v3()); }
    // it is as small as was asked for, but for the object used last; of what it
    // was not told of it knows nothing
    let sizes: Vec<u64> = objects().iter().map(|n| fs::metadata(format!("{c}/{n}")).unwrap().len()).collect();
    let most = sizes.iter().max().copied().unwrap_or(0);
    if limit != 0 && then == 0 && ![2, 6, 7].contains(&state) && sizes.iter().sum::<u64>() >= limit + most { sx::fail("the cache holds more than it was told to"); }
    if then == 0 && ![2, 6, 7].contains(&state) && !objects().contains(&format!("{}.snapshot", want.0.last().unwrap().0)) { sx::fail("the object used last is not cached"); }
    cached_right("repo", "afterwards");
    verify("repo", &want, "afterwards");
    sx::reached("end");
}

/// Two machines with caches of their own use one repository in turn.
pub fn h_cache_machines() {
    world();
    let mut want = Expect::default();
    start(&mut want);
    let c = cache_dir();
    let apart = |m: u64| format!("{c}-{m}");
    // machine 1 has seen nothing yet, or everything
    let mut at = 0;
    fs::create_dir_all(apart(1)).unwrap();
    let mut go = |m: u64| if m != at { fs::rename(&c, apart(at)).unwrap(); fs::rename(apart(m), &c).unwrap(); at = m; };
    if sx::flag("seen") { go(1); sx::must("check", || check("repo", &["--read-packs"])); }
    let trees = [v3(), tree(&[("x", "xray"), ("a", "alpha")])];
    for k in 0..if sx::deep() { 3 } else { 2 } {
        go(sx::choice("machine", 2));
        let t = &trees[k % 2];
        put("src", t);
        if step(sx::choice("does", 5), &mut want, "in turn") { want.learn("repo", t); }
    }
    for m in 0..2 { go(m); cached_right("repo", "afterwards"); verify("repo", &want, "afterwards"); }
    sx::reached("end");
}

/// A command killed anywhere, by power failure or otherwise, and then another.
pub fn h_cache_crash() {
    world();
    let mut want = Expect::default();
    let (s1, _) = start(&mut want);
    let c = cache_dir();
    let what = sx::choice("what", 4);
    if what == 2 { sx::must("forget", || forget("repo", &[&s1])); want.forget(&s1); }
    match sx::choice("cache", if sx::deep() { 3 } else { 2 }) { 0 => fs::remove_dir_all(&c).unwrap(), 1 => { CACHE_SIZE.store(600, SeqCst); } _ => {} }
    put("src", &v3());
    let f = || match what {
        0 => backup("repo", &["src"]),
        1 => check("repo", &["--read-packs"]),
        2 => prune("repo", &[]),
        _ => restore("repo", &["-n", "-o", "src", "LAST"]),
    };
    let k = sx::any_u64("crash");
    let e = if sx::flag("power") { sx::process_power(k, f) } else { sx::process(k, sx::NEVER, sx::any_bool("torn"), f) };
    if !e.crashed() { return; }
    no_partial("repo", "after the crash");
    cached_right("repo", "after the crash");
    // a snapshot that made it
    if what == 0 && snaps("repo").len() > want.0.len() { want.learn("repo", &v3()); }
    let then = if sx::deep() { sx::choice("then", 3) } else { what % 3 };
    if step([2, 0, 1][then as usize], &mut want, "after the crash") {
        if snaps("repo").len() > want.0.len() { want.learn("repo", &v3()); }
    }
    cached_right("repo", "afterwards");
    verify("repo", &want, "afterwards");
    sx::reached("end");
}

/// Two commands that share the cache: all of one happens at any point of the
/// other. Both work.
pub fn h_cache_two() {
    world();
    let mut want = Expect::default();
    start(&mut want);
    let c = cache_dir();
    let n = if sx::deep() { 3 } else { 2 };
    match sx::choice("cache", n) { 0 => fs::remove_dir_all(&c).unwrap(), 1 => { CACHE_SIZE.store(600, SeqCst); } _ => {} }
    put("src", &v3());
    fs::create_dir("two").unwrap();
    let t2 = tree(&[("a", "alpha"), ("d/b", "BRAVO-2"), ("i", "india")]);
    put("two/src", &t2);
    let (x, y) = (sx::choice("first", n), sx::choice("second", n));
    let first = || match x {
        0 => backup("repo", &["src"]),
        1 => check("repo", &["--read-packs"]),
        _ => { clear("o"); restore("repo", &["-o", "o", &want.0[1].0]) }
    };
    let second = || { std::env::set_current_dir("two")?; match y {
        0 => backup("../repo", &["src"]),
        1 => check("../repo", &["--read-packs"]),
        _ => { clear("o"); restore("../repo", &["-o", "o", &want.0[0].0]) }
    } };
    let (e, o) = sx::meanwhile(sx::any_u64("meanwhile"), second, first);
    if o == sx::Other::NotRun { return; }
    if !e.ok() { sx::failf(format_args!("a command fails because of another that uses the cache ({e:?})")); }
    if o != sx::Other::Ok { sx::fail("a command fails while another uses the cache"); }
    if x == 2 { sx::assert(get("o") == want.0[1].1, "the restore is off"); let _ = fs::remove_dir_all("o"); }
    if y == 2 { sx::assert(get("two/o") == want.0[0].1, "the other restore is off"); }
    let mut more: Vec<Tree> = vec![];
    if x == 0 { more.push(v3()); }
    if y == 0 { more.push(t2); }
    let new: Vec<String> = snaps("repo").into_iter().filter(|s| !want.0.iter().any(|w| w.0 == *s)).collect();
    if new.len() != more.len() { sx::failf(format_args!("{} new snapshots instead of {}", new.len(), more.len())); }
    for i in new {
        clear("probe");
        sx::must("restore", || restore("repo", &["-o", "probe", &i]));
        let g = get("probe");
        let k = more.iter().position(|t| closed(t) == g);
        let Some(k) = k else { sx::fail("a new snapshot restores to something else") };
        let t = more.remove(k);
        want.0.push((i, closed(&t)));
    }
    let _ = fs::remove_dir_all("probe");
    cached_right("repo", "afterwards");
    verify("repo", &want, "afterwards");
    sx::reached("end");
}
