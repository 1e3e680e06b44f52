//! Repositories whose objects go through a pair of shell commands.
use crate::cached::{cache_dir, cached_right, init_cached, objects};
use crate::hist::{v1, v2, v3};
use crate::sx;
use crate::util::*;
use backpak::backend;
use std::fs;
use std::io::Read;

const UP: &str = r"tr '\000-\377' '\001-\377\000'";
const DOWN: &str = r"tr '\001-\377\000' '\000-\377'";

fn filters(repo: &str, f: &str, u: &str) {
    let q = format!("{repo}/config.toml");
    let mut c = backend::read_config(p(&q)).unwrap();
    c.filter = Some((f.to_string(), u.to_string()));
    let mut v = vec![];
    backend::write_config(&mut v, c).unwrap();
    fs::write(q, v).unwrap();
}
/// The `n`-th time from now `./at` does something else.
fn at(n: u64) {
    sx::set(100, 0);
    sx::set(101, n);
    if sx::native() {
        use std::os::unix::fs::PermissionsExt;
        fs::write("at.count", "0").unwrap();
        fs::write("at.which", n.to_string()).unwrap();
        // (the shell itself is the child that is signalled)
        fs::write("at", "#!/bin/bash\nexec 9>at.lock; flock 9; n=$(cat at.count); echo $((n+1)) > at.count; exec 9>&-\nif [ $n = $(cat at.which) ]; then eval \"$2\"; else eval \"$1\"; fi\n").unwrap();
        fs::set_permissions("at", fs::Permissions::from_mode(0o755)).unwrap();
    }
}
fn cleanup() { for f in ["at", "at.count", "at.which", "at.lock"] { let _ = fs::remove_file(f); } }
fn forget_cache() { let _ = fs::remove_dir_all(cache_dir()); }
/// Every stored object is one more than what the cache has, byte by byte.
fn stored_filtered(repo: &str, when: &str) {
    for n in objects() {
        let d = if n.ends_with(".pack") { "packs" } else if n.ends_with(".index") { "indexes" } else if n.ends_with(".snapshot") { "snapshots" } else { continue };
        let Ok(raw) = fs::read(format!("{repo}/{d}/{n}")) else { continue };
        let plain = fs::read(format!("{}/{n}", cache_dir())).unwrap();
        if raw.len() != plain.len() || raw.iter().zip(&plain).any(|(r, p)| *r != p.wrapping_add(1)) { sx::failf(format_args!("{when}: one of the {d} is not what the filter made of it")); }
    }
}

/// Whatever the filter does to the bytes, the repository is the same.
pub fn h_filtered() {
    world();
    let mut want = Expect::default();
    sx::must("init", || init_cached("repo"));
    let rot = sx::flag("rot");
    filters("repo", if rot { UP } else { "cat" }, if rot { DOWN } else { "cat" });
    // the commands run at once, or when nothing else can
    sx::set(9, sx::choice("late", 2));
    put("src", &v1());
    sx::must("backup", || backup("repo", &["src"]));
    let s1 = want.learn("repo", &v1());
    if sx::flag("forget") { forget_cache(); }
    put("src", &v2());
    sx::must("backup", || backup("repo", &["src"]));
    want.learn("repo", &v2());
    if rot { stored_filtered("repo", "after the backups") }
    if sx::flag("forget2") { forget_cache(); }
    match sx::choice("then", 5) {
        0 => { sx::must("forget", || forget("repo", &[&s1])); want.forget(&s1); sx::must("prune", || prune("repo", &[])); }
        1 => { for n in names("repo/indexes") { fs::remove_file(format!("repo/indexes/{n}")).unwrap(); } sx::must("rebuild-index", || rebuild_index("repo", &[])); }
        2 => {
            sx::must("init", || init_cached("other"));
            filters("other", DOWN, UP);
            sx::must("copy", || copy("repo", &["--to", "other", "--all"]));
            for s in snaps("repo") { sx::assert(snaps("other").contains(&s), "a snapshot is not copied"); }
            forget_cache();
            verify("other", &want, "the copy");
        }
        3 => {
            // an unfiltered repository in, and back
            sx::must("init", || init("plain"));
            sx::must("copy", || copy("repo", &["--to", "plain", "--all"]));
            verify("plain", &want, "the plain copy");
            put("src", &v3());
            sx::must("backup", || backup("plain", &["src"]));
            let mut w2 = want.clone();
            let s3 = w2.learn("plain", &v3());
            sx::must("copy", || copy("plain", &["--to", "repo", &s3]));
            want.0.push((s3, closed(&v3())));
        }
        _ => {}
    }
    if rot { stored_filtered("repo", "afterwards") }
    forget_cache();
    verify("repo", &want, "afterwards");
    if rot { stored_filtered("repo", "at the end") }
    sx::reached("end");
}

/// Any bytes at all go through the filter and come back.
pub fn h_filtered_bytes() {
    world();
    sx::must("init", || init_cached("repo"));
    filters("repo", UP, DOWN);
    fs::create_dir("src").unwrap();
    let mut b = [0u8; 3];
    sx::bytes("content", &mut b);
    fs::write("src/f", b).unwrap();
    sx::must("backup", || backup("repo", &["src"]));
    forget_cache();
    fs::create_dir("o").unwrap();
    sx::must("restore", || restore("repo", &["-o", "o", "LAST"]));
    let got = fs::read("o/f").unwrap_or_default();
    sx::assert(sx::same(&got, &b), "the file comes back changed");
    sx::reached("end");
}

/// A filter that fails, in any way, at any point of any command.
pub fn h_filter_fails() {
    world();
    let mut want = Expect::default();
    sx::must("init", || init_cached("repo"));
    filters("repo", UP, DOWN);
    put("src", &v1());
    sx::must("backup", || backup("repo", &["src"]));
    let s1 = want.learn("repo", &v1());
    put("src", &v2());
    sx::must("backup", || backup("repo", &["src"]));
    want.learn("repo", &v2());
    put("src", &v3());
    let reading = sx::flag("reading");
    let what = sx::choice("what", if reading { 5 } else { 3 });
    if what == 1 { sx::must("forget", || forget("repo", &[&s1])); want.forget(&s1); }
    if what == 2 && !reading { sx::must("init", || init("other")); sx::must("backup", || backup("other", &["src"])); }
    // (what comes of a prefix, or of everything)
    let good = if reading { DOWN } else { UP };
    let fails = ["exit 3", "kill -9 $$", "no-such-command", "head -c 20; exit 3", "exec <&-; exit 3", "exec >&-; exit 3", &format!("{good}; exit 3"), &format!("{good}; kill -9 $$")][sx::choice("how", 8) as usize].to_string();
    if reading { forget_cache(); }
    sx::set(9, sx::choice("late", 2));
    at(sx::choice("which", if sx::deep() { 10 } else { 6 }));
    let both = format!("./at \"{good}\" \"{fails}\"");
    if reading { filters("repo", UP, &both) } else { filters("repo", &both, DOWN) }
    let before: Vec<Vec<String>> = ["packs", "indexes", "snapshots"].iter().map(|d| names(&format!("repo/{d}"))).collect();
    let e = sx::run(|| match (reading, what) {
        (_, 0) => backup("repo", &["src"]),
        (_, 1) => prune("repo", &[]),
        (false, _) => copy("other", &["--to", "repo", "--all"]),
        (_, 2) => check("repo", &["--read-packs"]),
        (_, 3) => { clear("o"); restore("repo", &["-o", "o", "LAST"]) }
        _ => rebuild_index("repo", &[]),
    });
    match e {
        sx::End::Returned(_) | sx::End::Exited(_) => {}
        _ => sx::failf(format_args!("a command whose filter failed ends like this: {e:?}")),
    }
    let reached = if sx::native() { fs::read_to_string("at.count").unwrap().trim().parse::<u64>().unwrap() > fs::read_to_string("at.which").unwrap().trim().parse::<u64>().unwrap() } else { sx::got(100) > sx::got(101) };
    if reached && e.ok() { sx::fail("a filter failed, and the command reports success"); }
    if !reached && !e.ok() { sx::failf(format_args!("no filter failed, and the command does ({e:?})")); }
    if what == 3 && e.ok() { sx::assert(get("o") == want.0.last().unwrap().1, "the restore is off"); }
    let _ = fs::remove_dir_all("o");
    cleanup();
    sx::set(9, 0);
    filters("repo", UP, DOWN);
    stored_filtered("repo", "after the failure");
    // what had been stored
    let adds = what == 0 || what == 2 && !reading;
    if adds && snaps("repo").len() > want.0.len() { want.learn("repo", &v3()); }
    if !e.ok() && what > 1 && reading { for (k, d) in ["packs", "indexes", "snapshots"].iter().enumerate() { for n in &before[k] { if !names(&format!("repo/{d}")).contains(n) { sx::failf(format_args!("one of the {d} went away")); } } } }
    verify("repo", &want, "after the failure");
    // and it works again
    if !e.ok() {
        match what {
            0 => { sx::must("backup", || backup("repo", &["src"])); if snaps("repo").len() > want.0.len() { want.learn("repo", &v3()); } }
            1 => sx::must("prune", || prune("repo", &[])),
            _ => {}
        }
        forget_cache();
        verify("repo", &want, "afterwards");
        stored_filtered("repo", "afterwards");
    }
    sx::reached("end");
}

/// However the command and the threads that feed it are scheduled.
pub fn h_filter_sched() {
    world();
    sx::must("init", || init_cached("repo"));
    filters("repo", "cat", "cat");
    fs::create_dir("src").unwrap();
    fs::write("src/f", "foxtrot").unwrap();
    sx::must("backup", || backup("repo", &["src"]));
    forget_cache();
    let id = snaps("repo")[0].clone();
    sx::set(9, sx::choice("late", 2));
    let writing = sx::flag("writing");
    let e = sx::run(|| {
        let (_, b) = backend::open(p("repo"), conf().cache_size, backend::CacheBehavior::Normal)?;
        if writing {
            fs::write("x.index", "india")?;
            sx::set(5, 1);
            sx::sched(1);
            let r = b.write("x.index", fs::File::open("x.index")?);
            sx::sched(0);
            sx::set(5, 0);
            r
        } else {
            let n = format!("{id}.snapshot");
            sx::set(5, 1);
            sx::sched(1);
            let r = b.read_snapshot(&id.parse().unwrap()).and_then(|mut f| { let mut v = vec![]; f.read_to_end(&mut v)?; Ok(v) });
            sx::sched(0);
            sx::set(5, 0);
            if r? != fs::read(format!("repo/snapshots/{n}"))? { anyhow::bail!("read something else"); }
            Ok(())
        }
    });
    if !e.ok() { sx::failf(format_args!("{} through a filter fails ({e:?})", if writing { "writing" } else { "reading" })); }
    if writing { sx::assert(fs::read("repo/indexes/x.index").unwrap() == b"india", "wrote something else"); }
    sx::reached("end");
}

/// More than fits into a pipe.
pub fn h_filter_big() {
    world();
    sx::must("init", || init_cached("repo"));
    filters("repo", UP, DOWN);
    sx::set(9, sx::choice("late", 2));
    fs::create_dir("src").unwrap();
    let mut x = 1u32;
    let b: Vec<u8> = (0..200_000).map(|_| { x = x.wrapping_mul(1664525).wrapping_add(1013904223); (x >> 24) as u8 }).collect();
    fs::write("src/f", &b).unwrap();
    sx::must("backup", || backup("repo", &["src"]));
    if sx::flag("stops") {
        // one that stops reading early
        filters("repo", UP, if sx::flag("well") { "head -c 100" } else { "head -c 100; exit 1" });
        forget_cache();
        let e = sx::run(|| check("repo", &["--read-packs"]));
        match e { sx::End::Returned(1) | sx::End::Exited(1) => {} _ => sx::failf(format_args!("with half of the objects, check ends like this: {e:?}")) }
        filters("repo", UP, DOWN);
        // (its leftovers are right by its own account)
    }
    forget_cache();
    fs::create_dir("o").unwrap();
    sx::must("restore", || restore("repo", &["-o", "o", "LAST"]));
    sx::assert(fs::read("o/f").unwrap_or_default() == b, "the file comes back changed");
    sx::reached("end");
}
