//! What is backed up, forgotten, copied, filtered, rebuilt.
use crate::sx;
use crate::util::*;
use std::fs;
use std::os::unix::fs::symlink;

fn file(q: &str, name: &str) { let mut b = [0u8; 2]; sx::bytes(name, &mut b); fs::write(q, b).unwrap(); }
/// `full`, as seen through symbolic links.
fn through(dir: &str) -> Full {
    use std::os::unix::fs::MetadataExt;
    fn go(q: &str, rel: &str, out: &mut Full) {
        let m = fs::metadata(q).unwrap();
        let kind = if m.is_dir() { Kind::Dir } else { Kind::File(fs::read(q).unwrap()) };
        out.insert(rel.to_string(), Item { kind, mode: m.mode() & 0o7777, mtime: (m.mtime(), m.mtime_nsec()) });
        if m.is_dir() { for n in names(q) { go(&format!("{q}/{n}"), &(if rel.is_empty() { n } else { format!("{rel}/{n}") }), out); } }
    }
    let mut t = Full::new();
    go(dir, "", &mut t);
    t
}
fn join(out: &mut Full, under: &str, t: Full) {
    for (k, i) in t { out.insert(if k.is_empty() { under.to_string() } else { format!("{under}/{k}") }, i); }
}

/// Several paths, with and without --dereference.
pub fn h_paths() {
    world();
    for d in ["src/d", "other/e"] { fs::create_dir_all(d).unwrap(); }
    file("src/f", "cf");
    file("other/e/h", "ch");
    fs::write("other/g", "golf").unwrap();
    match sx::choice("l", 8) {
        0 => {}
        1 => symlink("f", "src/l").unwrap(),
        2 => symlink("../other/e", "src/l").unwrap(),
        3 => symlink("d/m", "src/l").unwrap(),
        4 => symlink("../../other/g", "src/d/n").unwrap(),
        5 => symlink(fs::canonicalize("other").unwrap(), "src/l").unwrap(),
        6 => symlink("../src/f", "other/l").unwrap(),
        _ => symlink("../src/d", "other/l").unwrap(),
    }
    symlink("../f", "src/d/m").unwrap();
    let deref = sx::flag("dereference");
    let all = ["src", "other", "other/e", "other/g"];
    let mask = sx::choice("paths", 16);
    let mut ps: Vec<&str> = (0..4).filter(|k| mask >> k & 1 == 1).map(|k| all[k as usize]).collect();
    if ps.is_empty() { return; }
    sx::must("init", || init("repo"));
    let twice = sx::flag("order");
    for k in 0..2 {
        let mut a = if deref { vec!["-L"] } else { vec![] };
        a.extend_from_slice(&ps);
        sx::must("backup", || backup("repo", &a));
        // the same again, in another order, is a repetition
        if snaps("repo").len() != 1 { sx::failf(format_args!("{} snapshots after {} backups of the same", snaps("repo").len(), k + 1)); }
        if !twice { break; }
        ps.reverse();
    }
    let see = |q: &str| if deref { through(q) } else { full(q) };
    let mut want = Full::new();
    if ps.len() == 1 && fs::metadata(ps[0]).unwrap().is_dir() { want = see(ps[0]); want.remove(""); }
    else { for q in &ps { join(&mut want, q.rsplit('/').next().unwrap(), see(q)); } }
    let mut got = restored("repo", "LAST", true);
    got.remove("");
    same("restored", &got, &want, 2);
    sx::must("check", || check("repo", &["--read-packs"]));
    sx::reached("end");
}

/// The snapshot says who, when, what; a repetition makes none; nothing that
/// fails makes one.
pub fn h_record() {
    world();
    fs::create_dir_all("src/d").unwrap();
    fs::create_dir_all("other").unwrap();
    file("src/d/x", "c1");
    fs::write("other/x", "xray").unwrap();
    sx::must("init", || init("repo"));
    let author = sx::choice("author", 3);
    let tags = sx::choice("tags", 4);
    let mut a: Vec<&str> = match author { 0 => vec![], 1 => vec!["-a", "me"], _ => vec!["--author", ""] };
    if tags & 1 != 0 { a.extend(["-t", "one"]); }
    if tags & 2 != 0 { a.extend(["--tag", "two", "-t", "two"]); }
    let before = jiff::Timestamp::now();
    sx::must("backup", || backup("repo", &[&a[..], &["src", "other/x"]].concat()));
    let s = load_snaps("repo");
    sx::assert(s.len() == 1, "not one snapshot");
    let (s, id) = &s[0];
    let host = sx::host();
    sx::assert(s.author == match author { 0 => host.as_str(), 1 => "me", _ => "" }, "another author");
    let want: Vec<&str> = [("one", 1), ("two", 2)].iter().filter(|t| tags & t.1 != 0).map(|t| t.0).collect();
    sx::assert(s.tags.iter().map(|t| t.as_str()).collect::<Vec<_>>() == want, "other tags");
    let here = std::env::current_dir().unwrap();
    let mut want: Vec<String> = ["src", "other/x"].iter().map(|p| here.join(p).to_str().unwrap().to_string()).collect();
    want.sort();
    sx::assert(s.paths.iter().map(|t| t.as_str()).collect::<Vec<_>>() == want, "other paths");
    sx::assert(s.time.timestamp() >= before && s.time.timestamp() <= jiff::Timestamp::now(), "another time");
    // what is printed is what is recorded
    let (e, out) = printed(|| snapshots("repo", &[]));
    let out = String::from_utf8(out).unwrap();
    sx::assert(e.ok(), "snapshots fails");
    sx::assert(out.lines().any(|l| l.starts_with(&format!("snapshot {id}"))), "the snapshot is not listed");
    sx::assert(out.lines().any(|l| l == format!("Author: {}", s.author)), "the author is not listed");
    for p in &want { sx::assert(out.lines().any(|l| l == format!("  - {p}")), "a path is not listed"); }
    // what comes next
    let (cmd, new): (Vec<&str>, Option<bool>) = match sx::choice("next", 9) {
        0 => ([&a[..], &["src", "other/x"]].concat(), Some(false)),
        1 => ([&a[..], &["other/x", "src", "--allow-repeat"]].concat(), Some(true)),
        2 => ([&a[..], &["src", "other/x", "-t", "three"]].concat(), Some(true)),
        3 => ([&a[..], &["src", "other/x", "-a", "you"]].concat(), if author == 0 { Some(true) } else { None }),
        4 => ([&a[..], &["src"]].concat(), Some(true)),
        // two of a name
        5 => (vec!["src/d/x", "other/x"], None),
        6 => (vec!["src", "gone"], None),
        7 => (vec!["src", "--skip", "("], None),
        _ => (vec!["src", "-s", "src"], Some(false)),
    };
    let e = sx::run(|| backup("repo", &cmd));
    let n = snaps("repo").len();
    match new {
        None => { sx::assert(!e.ok(), "a backup that cannot be made succeeds"); sx::assert(n == 1, "a backup that fails leaves a snapshot"); }
        Some(x) => { sx::assert(e.ok(), "the next backup fails"); sx::assert(n == 1 + x as usize, "the next backup makes a snapshot it should not, or none"); }
    }
    sx::must("check", || check("repo", &["--read-packs"]));
    sx::reached("end");
}
const SKIPS: [&str; 8] = ["/d/b$", "a", "^/", "/k", r"\.o$", "src/d/k/", "b|x", "nothing like it"];
/// what a skip rule matches, written out
fn matches(rule: usize, path: &str) -> bool {
    match rule {
        0 => path.ends_with("/d/b"),
        1 => path.contains('a'),
        2 => path.starts_with('/'),
        3 => path.contains("/k"),
        4 => path.ends_with(".o"),
        5 => path.contains("src/d/k/"),
        6 => path.contains('b') || path.contains('x'),
        _ => false,
    }
}
fn skipped(t: &Full, prefix: &str, rules: &[usize]) -> Full {
    let path = |k: &str| if k.is_empty() { prefix.to_string() } else if prefix.is_empty() { k.to_string() } else { format!("{prefix}/{k}") };
    let gone = |k: &str| { let p = path(k); rules.iter().any(|r| matches(*r, &p)) };
    t.iter().filter(|(k, _)| {
        if gone("") && !prefix.is_empty() { return false; }
        let mut q = k.as_str();
        loop {
            if gone(q) { return false; }
            match q.rsplit_once('/') { Some((d, _)) => q = d, None => return true }
        }
    }).map(|(k, i)| (k.clone(), i.clone())).collect()
}
fn skip_world() {
    world();
    // no 'a', 'b', 'k', 'x' in the way there natively
    fs::create_dir_all("src/d/k").unwrap();
    for (q, c) in [("src/a", "ca"), ("src/d/b", "cb")] { file(q, c); }
    for (q, c) in [("src/d/c.o", "c"), ("src/d/k/e", "echo"), ("src/x.obj", "x-ray")] { fs::write(q, c).unwrap(); }
    symlink("../a", "src/d/l").unwrap();
}
/// Rules from the command line and the configuration decide what is backed up.
pub fn h_skip() {
    skip_world();
    let n = SKIPS.len() as u64;
    let (r, s) = (sx::choice("rule", n) as usize, sx::choice("configured rule", n + 1) as usize);
    let rules: Vec<usize> = if s as u64 == n { vec![r] } else { vec![r, s] };
    // above the harness's own directory anything may be called anything
    let here = std::env::current_dir().unwrap().to_str().unwrap().to_string();
    if rules.iter().any(|r| *r != 2 && matches(*r, &here)) { return; }
    sx::must("init", || init("repo"));
    let all = full("src");
    if sx::flag("parent") { sx::must("backup of everything", || backup("repo", &["src"])); }
    let had = snaps("repo").len();
    let config = || { let mut c = conf(); if (s as u64) < n { c.skips = vec![SKIPS[s].to_string()]; } c };
    let dry = sx::flag("dry run");
    let a: Vec<&str> = ["backup", "-s", SKIPS[r], "src", "-n"][..if dry { 5 } else { 4 }].to_vec();
    sx::must("backup", || { use clap::Parser; backpak::ui::backup::run(config(), p("repo"), backpak::ui::backup::Args::parse_from(a.clone())) });
    let want = skipped(&all, &format!("{here}/src"), &rules);
    let new = !dry && !want.is_empty() && !(had == 1 && want == all);
    if snaps("repo").len() != had + new as usize { sx::failf(format_args!("{} snapshots instead of {}", snaps("repo").len(), had + new as usize)); }
    if new { same("restored", &restored("repo", "LAST", true), &want, 2); }
    sx::must("check", || check("repo", &["--read-packs"]));
    sx::reached("end");
}

/// forget removes the snapshots named and nothing else.
pub fn h_forget() {
    world();
    sx::must("init", || init("repo"));
    let mut want = Expect::default();
    let mut trees: Vec<u64> = vec![];
    let n = 3 + sx::choice("more", 2);
    for k in 0..n {
        let t = if k == 0 { 0 } else { sx::choice(&format!("tree {k}"), 2) };
        fs::create_dir_all("src").unwrap();
        fs::write("src/f", if t == 0 { "alpha" } else { "bravo!" }).unwrap();
        fs::write("src/g", "golf").unwrap();
        for q in ["src/f", "src/g", "src"] { sx::set_mtime(q, 1_700_000_000 + t as i64, 0); }
        sx::must("backup", || backup("repo", &["--allow-repeat", "src"]));
        want.learn("repo", &get("src"));
        trees.push(t);
    }
    let ids: Vec<String> = want.0.iter().map(|x| x.0.clone()).collect();
    let last = n as usize - 1;
    let short = &ids[1][..12];
    let long = format!("{}0", &ids[0][..20]);
    // who has the first digits of the first
    let unique = ids.iter().filter(|i| i.starts_with(&ids[0][..4])).count() == 1;
    let (a, gone, ok): (Vec<&str>, Vec<usize>, bool) = match sx::choice("which", 15) {
        0 => (vec!["LAST"], vec![last], true),
        1 => (vec!["HEAD~"], vec![last - 1], true),
        2 => (vec!["LAST~2"], vec![last - 2], true),
        3 => (vec!["LAST~9"], vec![], false),
        4 => (vec![&ids[1]], vec![1], true),
        5 => (vec![short], vec![1], true),
        6 => (vec!["LAST~1", &ids[0]], if last == 1 { vec![0] } else { vec![last - 1, 0] }, true),
        7 => (vec!["LAST~0", "LAST~1", "LAST~2"], vec![last, last - 1, last - 2], true),
        8 => (vec![&ids[0], "00000000nosuch"], vec![0], false),
        9 => (vec![&ids[1][..3]], vec![], false),
        10 => (vec![&long], if ids[0].starts_with(&long) { vec![0] } else { vec![] }, ids[0].starts_with(&long)),
        11 => (vec![&ids[0][..4]], if unique { vec![0] } else { vec![] }, unique),
        12 => (vec!["-n", "LAST", &ids[0]], vec![], true),
        13 => {
            // Any list of two or three of these, good and bad, in any order.
            sx::assume(n == 3);
            let (mut a, mut g, mut ok): (Vec<&str>, Vec<usize>, bool) = (vec![], vec![], true);
            for k in 0..2 + sx::choice("long", 2) {
                let (x, i) = [("LAST", Some(2)), (short, Some(1)), (&ids[0], Some(0)), ("HEAD~5", None), ("00000000nosuch", None)][sx::choice(&format!("argument {k}"), 5) as usize];
                a.push(x);
                match i { Some(i) => { sx::assume(!g.contains(&i)); g.push(i) } None => ok = false }
            }
            (a, g, ok)
        }
        _ => {
            let mut g = vec![];
            let mut kept = 0;
            for k in 1..=last { if trees[k] == trees[kept] { g.push(k); } else { kept = k; } }
            (vec!["DUPLICATES"], g, true)
        }
    };
    let before = [get("repo/packs"), get("repo/indexes")];
    let e = sx::run(|| forget("repo", &a));
    sx::assert(e.ok() == ok, if ok { "forget fails" } else { "forget of what is not there succeeds" });
    sx::assert([get("repo/packs"), get("repo/indexes")] == before, "forget touches packs or indexes");
    for k in gone { want.forget(&ids[k]); }
    let mut have = snaps("repo");
    let mut left: Vec<String> = want.0.iter().map(|x| x.0.clone()).collect();
    have.sort(); left.sort();
    if have != left { sx::failf(format_args!("after forget {} snapshots are left instead of {}", have.len(), left.len())); }
    verify("repo", &want, "after forget");
    sx::reached("end");
}

/// copy brings snapshots over whole, or filtered, and leaves the source alone.
pub fn h_copy() {
    skip_world();
    let all = full("src");
    sx::must("init", || init("repo"));
    sx::must("init", || init("dest"));
    sx::must("backup", || backup("repo", &["-t", "first", "-a", "me", "src"]));
    // the destination knows some of it, or something else
    match sx::choice("there", 4) {
        0 => {}
        1 => sx::must("copy", || copy("repo", &["--to", "dest", "LAST"])),
        2 => sx::must("backup", || backup("dest", &["src/d"])),
        _ => { fs::create_dir("unlike").unwrap(); fs::write("unlike/u", "uniform").unwrap(); sx::must("backup", || backup("dest", &["unlike"])); }
    }
    fs::write("src/d/k/later", "later").unwrap();
    fs::remove_file("src/a").unwrap();
    let two = full("src");
    sx::must("backup", || backup("repo", &["src"]));
    let source = get("repo");
    let theirs = snaps("dest");
    let n = SKIPS.len() as u64;
    let r = sx::choice("rule", n + 1) as usize;
    let which = sx::choice("which", 4);
    let mut a = vec!["--to", "dest"];
    if (r as u64) < n { a.extend(["-s", SKIPS[r]]); }
    let from = load_snaps("repo");
    let id = from[0].1.to_string();
    a.extend_from_slice(match which { 0 => &["--all"][..], 1 => &["LAST"], 2 => &["LAST~"], _ => &["LAST", "HEAD~1", "LAST~0"] });
    if which == 2 { a.pop(); a.push(&id); }
    sx::must("copy", || copy("repo", &a));
    sx::assert(get("repo") == source, "copy changes the repository it copies from");
    let rules: Vec<usize> = if (r as u64) < n { vec![r] } else { vec![] };
    let mut copies = 0;
    let there = load_snaps("dest");
    for (k, t) in [(0, &all), (1, &two)] {
        if which == 1 && k == 0 || which == 2 && k == 1 { continue; }
        // paths in a snapshot start with the name of what was backed up
        let t = skipped(t, "src", &rules);
        let s = &from[k].0;
        // the copy, among whatever else has the same time
        let c: Vec<&Snap> = there.iter().filter(|(x, _)| {
            let mut x = x.clone();
            x.tree = s.tree;
            x == *s
        }).collect();
        if c.is_empty() { sx::failf(format_args!("snapshot {k} is not copied, or its author, time, paths or tags are not")); }
        let got: Vec<Full> = c.iter().map(|c| restored("dest", &c.1.to_string(), true)).collect();
        // without the top the snapshot is empty
        let mut t = t;
        if t.is_empty() { sx::assert(got.iter().any(|g| g.len() == 1), "an empty copy is not empty"); }
        else if got.len() == 1 || got.iter().all(|g| { let (mut g, mut t) = (g.clone(), t.clone()); g.remove(""); t.remove(""); g.keys().collect::<Vec<_>>() != t.keys().collect::<Vec<_>>() }) { same("a copy", &got[0], &t, 2); }
        else {
            // one with the right names
            t.remove("");
            let g = got.iter().find(|g| { let mut g = (*g).clone(); g.remove(""); g.keys().collect::<Vec<_>>() == t.keys().collect::<Vec<_>>() }).unwrap();
            let mut g = g.clone();
            g.remove("");
            same("a copy", &g, &t, 2);
        }
        copies += 1;
    }
    let _ = copies;
    for x in &theirs { sx::assert(snaps("dest").contains(x), "copy removes a snapshot"); }
    sx::must("check of the copy", || check("dest", &["--read-packs"]));
    once("dest", "the copy");
    // once more changes nothing
    let d = get("dest");
    sx::must("the same copy", || copy("repo", &a));
    sx::assert(get("dest") == d, "copying again changes the destination");
    sx::reached("end");
}
/// filter-snapshot makes a snapshot without what is skipped.
pub fn h_filter() {
    skip_world();
    let all = full("src");
    sx::must("init", || init("repo"));
    sx::must("backup", || backup("repo", &["-t", "first", "-a", "me", "src"]));
    let old = snaps("repo");
    fs::write("src/d/k/later", "later").unwrap();
    if sx::flag("another on top") { sx::must("backup", || backup("repo", &["src"])); }
    let had = load_snaps("repo");
    let n = SKIPS.len() as u64;
    let r = sx::choice("rule", n) as usize;
    let how = sx::choice("how", 4);
    let mut a = vec!["-s", SKIPS[r], &old[0]];
    a.extend_from_slice(match how { 0 => &[][..], 1 => &["-k"], 2 => &["-a", "you", "-t", "new", "-t", "newer"], _ => &["-k", "-t", "no"] });
    let e = sx::run(|| filter_snapshot("repo", &a));
    let now = load_snaps("repo");
    for x in &had { sx::assert(now.contains(x), "filter-snapshot removes or changes a snapshot"); }
    let want = skipped(&all, "src", &[r]);
    let o = &had.iter().find(|x| x.1.to_string() == old[0]).unwrap().0;
    if how == 3 { sx::assert(!e.ok() && now.len() == had.len(), "both old and new metadata asked for"); return sx::reached("end"); }
    sx::assert(e.ok(), "filter-snapshot fails");
    if want == all {
        sx::assert(now.len() == had.len(), "a snapshot although nothing is filtered");
    } else {
        sx::assert(now.len() == had.len() + 1, "no new snapshot");
        let (s, id) = now.iter().find(|x| !had.contains(x)).unwrap();
        let got = restored("repo", &id.to_string(), true);
        if want.is_empty() { sx::assert(got.len() == 1, "an empty snapshot is not empty"); } else { same("the filtered snapshot", &got, &want, 2); }
        sx::assert(s.paths == o.paths, "other paths");
        let tags: Vec<&str> = s.tags.iter().map(|t| t.as_str()).collect();
        match how {
            0 => sx::assert(s.author == sx::host() && tags.is_empty() && s.time.timestamp() > o.time.timestamp(), "metadata that was not asked for"),
            1 => sx::assert(s.author == "me" && tags == ["first"] && s.time == o.time, "the metadata is not kept"),
            _ => sx::assert(s.author == "you" && tags == ["new", "newer"] && s.time.timestamp() > o.time.timestamp(), "not the metadata asked for"),
        }
    }
    sx::must("check", || check("repo", &["--read-packs"]));
    once("repo", "after filter-snapshot");
    same("the first snapshot", &restored("repo", &old[0], true), &all, 2);
    sx::reached("end");
}
/// rebuild-index makes up for any loss of indexes, and may be killed anywhere.
pub fn h_rebuild() {
    world();
    sx::must("init", || init("repo"));
    let mut want = Expect::default();
    let steps = [tree(&[("f", "alpha"), ("d/g", "golf")]), tree(&[("f", "alpha"), ("d/g", "other"), ("h", "hotel")]), tree(&[("f", "alfa")])];
    let mut first = String::new();
    for t in &steps {
        put("src", t);
        sx::must("backup", || backup("repo", &["src"]));
        let i = want.learn("repo", t);
        if first.is_empty() { first = i; }
    }
    if sx::flag("forgotten") { sx::must("forget", || forget("repo", &[&first])); want.forget(&first); }
    let idx = names("repo/indexes");
    sx::assert(idx.len() == 3, "not three indexes");
    let lost = sx::choice("lost", 8);
    for (k, n) in idx.iter().enumerate() { if lost >> k & 1 == 1 { fs::remove_file(format!("repo/indexes/{n}")).unwrap(); } }
    let packs = get("repo/packs");
    let at = if sx::flag("killed") { sx::any("crash", 16) } else { sx::NEVER };
    let e = sx::process(at, sx::NEVER, true, || rebuild_index("repo", &[]));
    if e.crashed() {
        // nothing is lost that was not lost before
        if lost == 0 { verify("repo", &want, "after a killed rebuild-index"); }
        let cwd = names(".");
        sx::must("rebuild-index after it was killed", || rebuild_index("repo", &[]));
        for n in names(".") { if !cwd.contains(&n) { sx::failf(format_args!("rebuild-index leaves {n} behind")); } }
    } else {
        if !e.ok() { sx::failf(format_args!("rebuild-index fails ({e:?})")); }
    }
    sx::assert(get("repo/packs") == packs, "rebuild-index changes packs");
    sx::assert(names("repo/indexes").len() == 1, "not one index after rebuild-index");
    verify("repo", &want, "after rebuild-index");
    // and the packs are all in it
    let mut v: Vec<String> = packed("repo").into_iter().map(|x| format!("{}.pack", x.1)).collect();
    v.sort(); v.dedup();
    sx::assert(v == packs.keys().cloned().collect::<Vec<_>>(), "not every pack is in the index");
    put("src", &steps[1]);
    sx::must("backup", || backup("repo", &["--allow-repeat", "src"]));
    want.learn("repo", &steps[1]);
    sx::must("prune", || prune("repo", &[]));
    verify("repo", &want, "after a backup and a prune");
    sx::reached("end");
}
