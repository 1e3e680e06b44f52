//! What the commands print.
use crate::rt::{KINDS, make};
use crate::sx;
use crate::util::*;
use std::fs;
use std::os::unix::fs::PermissionsExt;

const ERA: i64 = 1_700_000_000;

fn line(k: &str, i: &Item) -> String {
    let p = if k.is_empty() { "src".to_string() } else { format!("src/{k}") };
    match &i.kind { Kind::File(_) => p, Kind::Dir => format!("{p}/"), Kind::Link(t) => format!("{p} -> {t}") }
}
fn kind(i: &Item) -> u32 { match i.kind { Kind::File(_) => 0, Kind::Dir => 1, Kind::Link(_) => 2 } }
/// The lines `diff` must print, and those it may (access times).
fn differences(a: &Full, b: &Full, meta: bool) -> (Vec<String>, Vec<String>) {
    let (mut must, mut may) = (vec![], vec![]);
    let changed = |k: &str| matches!((a.get(k), b.get(k)), (Some(x), Some(y)) if kind(x) != kind(y));
    for (k, i) in a { if !b.contains_key(k) || changed(k) { must.push(format!("- {}", line(k, i))); } }
    for (k, j) in b {
        let Some(i) = a.get(k) else { must.push(format!("+ {}", line(k, j))); continue };
        if changed(k) { must.push(format!("+ {}", line(k, j))); continue; }
        match (&i.kind, &j.kind) {
            (Kind::File(x), Kind::File(y)) if x.len() != y.len() || !sx::same(x, y) => { must.push(format!("C {}", line(k, j))); continue; }
            (Kind::Link(x), Kind::Link(y)) if x != y => { must.push(format!("- {}", line(k, i))); must.push(format!("+ {}", line(k, j))); continue; }
            _ => {}
        }
        if !meta { continue; }
        if i.mode != j.mode { must.push(format!("P {}", line(k, j))); }
        else if i.mtime != j.mtime { must.push(format!("T {}", line(k, j))); }
        else { may.push(format!("A {}", line(k, j))); }
    }
    must.sort();
    (must, may)
}
fn expect(when: &str, got: &(sx::End, Vec<String>), want: &(Vec<String>, Vec<String>)) {
    if !got.0.ok() { sx::failf(format_args!("{when} fails ({:?})", got.0)); }
    let left: Vec<&String> = got.1.iter().filter(|l| !want.1.contains(l)).collect();
    let w: Vec<&String> = want.0.iter().collect();
    if left != w { sx::failf(format_args!("{when} prints {left:?} instead of {w:?}")); }
}

/// diff between any two snapshots, and between a snapshot and the file system.
pub fn h_diff() {
    world();
    fs::create_dir_all("src/d/k").unwrap();
    let (x, y) = (sx::choice("then", KINDS), sx::choice("now", KINDS));
    let q = ["src/a", "src/d/a"][sx::choice("place", 2) as usize];
    let stamp = |kind: u64, t: i64| if kind != 0 && kind != 4 && kind != 5 { sx::set_mtime(q, ERA + t, 0) };
    make(q, x, "c1", 0o640);
    stamp(x, 0);
    fs::write("src/d/b", "bravo").unwrap();
    sx::must("init", || init("repo"));
    sx::must("backup", || backup("repo", &["src"]));
    let one = full("src");
    let _ = if x == 3 || x == 6 { fs::remove_dir_all(q) } else { fs::remove_file(q) };
    make(q, y, "c2", 0o640);
    let later = sx::flag("later");
    stamp(y, if later { 1 } else { 0 });
    if let (Some(Kind::File(a)), Some(Kind::File(b))) = (one.get(&q[4..]).map(|i| i.kind.clone()), full("src").get(&q[4..]).map(|i| i.kind.clone())) {
        if a.len() == b.len() && !later { sx::assume(sx::same(&a, &b)); }
    }
    if sx::flag("mode") { fs::set_permissions("src/d/b", fs::Permissions::from_mode(0o600)).unwrap(); }
    let two = full("src");
    let meta = sx::flag("metadata");
    let m: &[&str] = if meta { &["-m"] } else { &[] };
    let run = |a: &[&str]| { let v = [m, a].concat(); lines(|| diff("repo", &v)) };
    expect("diff with the file system", &run(&["LAST"]), &differences(&one, &two, meta));
    sx::must("the second backup", || backup("repo", &["--allow-repeat", "src"]));
    expect("diff with nothing changed", &run(&["LAST"]), &differences(&two, &two, meta));
    expect("diff of two snapshots", &run(&["LAST~", "LAST"]), &differences(&one, &two, meta));
    expect("diff of two snapshots in reverse", &run(&["LAST", "LAST~1"]), &differences(&two, &one, meta));
    expect("diff of a snapshot with itself", &run(&["LAST~1", "HEAD~"]), &differences(&one, &one, meta));
    sx::reached("end");
}
/// ls names every entry; dump and cat give what is stored.
pub fn h_ls_dump() {
    world();
    fs::create_dir_all("src/d").unwrap();
    let (x, y) = (sx::choice("a", KINDS), sx::choice("d/b", KINDS));
    let q = ["a", "d/b", "d", "a/f", "d/b/f", "none", "d/none", "a/none", ""][sx::choice("path", 9) as usize];
    make("src/a", x, "ca", 0o640);
    make("src/d/b", y, "cb", 0o750);
    // to standard output goes something known: it is a matter of newlines there
    let file = sx::flag("to a file");
    if !file {
        let known = [&b""[..], b"xy\nz", b"line\n"][sx::choice("known", if q == "a" || q == "d/b" || q == "a/f" { 3 } else { 1 }) as usize];
        for (k, i) in full("src") { if matches!(i.kind, Kind::File(_)) { fs::write(format!("src/{k}"), known).unwrap(); } }
    }
    sx::must("init", || init("repo"));
    sx::must("backup", || backup("repo", &["src"]));
    // another snapshot on top, to be told apart
    let want = full("src");
    fs::write("src/d/later", "later").unwrap();
    sx::must("backup", || backup("repo", &["src"]));
    let mut all: Vec<String> = want.iter().map(|(k, i)| line(k, i)).collect();
    all.sort();
    let got = lines(|| ls("repo", &["LAST~"]));
    expect("ls", &got, &(all, vec![]));
    // the one entry
    let arg = if q.is_empty() { "src".to_string() } else { format!("src/{q}") };
    let (e, out) = if file {
        let e = sx::run(|| dump("repo", &["-o", "dumped", "LAST~", &arg]));
        (e, fs::read("dumped").unwrap_or_default())
    } else { printed(|| dump("repo", &["LAST~", &arg])) };
    match want.get(q).map(|i| &i.kind) {
        None => sx::assert(!e.ok(), "dump of a path that is not there succeeds"),
        Some(Kind::File(b)) => {
            sx::assert(e.ok(), "dump of a file fails");
            sx::assert(out.len() == b.len(), "dump of a file gives another size");
            sx::assert(sx::same(&out, b), "dump of a file gives something else");
        }
        Some(Kind::Link(t)) => {
            sx::assert(e.ok(), "dump of a link fails");
            sx::assert(String::from_utf8(out).unwrap().trim_end() == format!("{arg} -> {t}"), "dump of a link prints something else");
        }
        Some(Kind::Dir) => {
            sx::assert(e.ok(), "dump of a directory fails");
            let mut w: Vec<String> = want.iter().filter(|(k, _)| *k == q || (if q.is_empty() { !k.is_empty() && !k.contains('/') } else { k.strip_prefix(q).and_then(|r| r.strip_prefix('/')).is_some_and(|r| !r.contains('/')) })).map(|(k, i)| line(k, i).replace(" -> ", "-> ")).collect();
            w.sort();
            let mut g: Vec<String> = String::from_utf8(out).unwrap().lines().map(|l| l.replace(" -> ", "-> ")).collect();
            g.sort();
            if g != w { sx::failf(format_args!("dump of a directory prints {g:?} instead of {w:?}")); }
        }
    }
    sx::reached("end");
}

/// snapshots --sizes and --file-sizes, and usage, count what is stored.
pub fn h_sizes() {
    world();
    use backpak::file_util::nice_size as nice;
    use std::collections::{BTreeMap, BTreeSet};
    let blob = |c: u8, n: usize| vec![c; n];
    fs::create_dir_all("src/d").unwrap();
    sx::must("init", || init("repo"));
    let a = blob(1, 5_000);
    fs::write("src/a", &a).unwrap();
    fs::write("src/d/b", if sx::flag("the same twice") { a.clone() } else { blob(2, 20_000) }).unwrap();
    fs::write("src/e", "").unwrap();
    for k in 0..3 {
        match if k == 0 { 0 } else { sx::choice("change", 5) } {
            0 => {}
            1 => fs::write("src/a", blob(3, 7_000)).unwrap(),
            2 => fs::write("src/d/c", blob(2, 20_000)).unwrap(),
            3 => { let _ = fs::remove_file("src/d/b"); }
            _ => fs::write("src/f", blob(9 + k, 90_000)).unwrap(),
        }
        sx::must("backup", || backup("repo", &["--allow-repeat", "src"]));
    }
    let ids: Vec<String> = load_snaps("repo").iter().map(|s| s.1.to_string()).collect();
    let gone = sx::choice("forgotten", 4) as usize;
    if gone < 3 { sx::must("forget", || forget("repo", &[&ids[gone]])); }
    // what there is
    let (_, b) = backpak::backend::open(p("repo"), conf().cache_size, backpak::backend::CacheBehavior::Normal).unwrap();
    let i = backpak::index::build_master_index(&b).unwrap();
    let m = backpak::index::blob_to_pack_map(&i).unwrap();
    let len: BTreeMap<String, u64> = i.packs.values().flatten().map(|e| (e.id.to_string(), e.length as u64)).collect();
    let mut cache = backpak::tree::Cache::new(&i, &m, &b);
    let mut seen = BTreeSet::new();
    let mut want: Vec<(String, Vec<String>)> = vec![];
    let (mut unique, mut again) = (0, 0);
    let all = load_snaps("repo");
    for (s, id) in &all {
        let f = backpak::tree::forest_from_root(&s.tree, &mut cache).unwrap();
        let (mut files, mut meta, mut new, mut old) = (0, 0, 0, 0);
        let mut each = vec![];
        let mut todo = vec![(String::new(), s.tree)];
        // in the order of paths
        while let Some((q, t)) = todo.pop() {
            if let Some(path) = q.strip_prefix('\u{1}') {
                // a chunk
                let l = len[&t.to_string()];
                files += l;
                if seen.insert(t.to_string()) { new += l; each.push((l, 0, path.to_string())); } else { old += l; each.push((0, l, path.to_string())); }
                continue;
            }
            // an empty tree isn't stored
            let Some(&l) = len.get(&t.to_string()) else { sx::assert(f[&t].is_empty(), "a tree isn't stored"); continue };
            meta += l;
            if seen.insert(t.to_string()) { new += l } else { old += l }
            let mut below = vec![];
            for (n, node) in f[&t].iter() {
                let q = if q.is_empty() { n.to_string() } else { format!("{q}/{n}") };
                match &node.contents {
                    backpak::tree::NodeContents::File { chunks } => for c in chunks { below.push((format!("\u{1}{q}"), *c)); },
                    backpak::tree::NodeContents::Directory { subtree } => below.push((q, *subtree)),
                    _ => {}
                }
            }
            todo.extend(below.into_iter().rev());
        }
        unique += new;
        again += old;
        let mut l = vec![format!("Sizes: {} total ({} files, {} metadata / {} new, {} reused)", nice(files + meta), nice(files), nice(meta), nice(new), nice(old))];
        for (n, o, q) in each { if n > 0 { l.push(format!("{q} | {} new, {} reused", nice(n), nice(o))); } }
        l.sort();
        want.push((id.to_string(), l));
    }
    let listing = |args: &[&str]| -> Vec<(String, Vec<String>)> {
        let (e, o) = printed(|| snapshots("repo", args));
        sx::assert(e.ok(), "snapshots fails");
        let mut v: Vec<(String, Vec<String>)> = vec![];
        for l in String::from_utf8(o).unwrap().lines() {
            if let Some(i) = l.strip_prefix("snapshot ") { v.push((i.to_string(), vec![])); }
            else if l.starts_with("Sizes: ") || l.contains(" | ") { let l = l.trim().split_whitespace().collect::<Vec<_>>().join(" "); v.last_mut().unwrap().1.push(l); }
        }
        for x in &mut v { x.1.sort(); }
        v
    };
    let plain: Vec<(String, Vec<String>)> = want.iter().map(|w| (w.0.clone(), w.1.iter().filter(|l| l.starts_with("Sizes")).cloned().collect())).collect();
    let cmp = |when: &str, got: Vec<(String, Vec<String>)>, want: &[(String, Vec<String>)]| if got != want { sx::failf(format_args!("{when} prints {got:?} instead of {want:?}")) };
    match sx::choice("how", 5) {
        0 => cmp("snapshots --sizes", listing(&["--sizes"]), &plain),
        1 => { let r: Vec<_> = plain.iter().rev().cloned().collect(); cmp("snapshots --sizes --reverse", listing(&["-s", "-r"]), &r) }
        2 => cmp("snapshots --file-sizes", listing(&["--file-sizes"]), &want),
        3 => cmp("snapshots --sizes LAST", listing(&["--sizes", "LAST"]), &plain[plain.len() - 1..]),
        _ => {
            let (e, o) = printed(|| usage("repo"));
            sx::assert(e.ok(), "usage fails");
            let o: Vec<String> = String::from_utf8(o).unwrap().lines().map(|l| l.split_whitespace().collect::<Vec<_>>().join(" ")).collect();
            let mut w = vec![];
            w.push(format!("{} unique data", nice(unique)));
            w.push(format!("{} reused (deduplicated)", nice(again)));
            let stored: u64 = i.packs.values().flatten().map(|e| e.length as u64).sum();
            let n = names("repo/indexes").len();
            let ps = i.packs.len();
            let idx = if n == 1 { "index" } else { "indexes" };
            if stored > unique { w.push(format!("{n} {idx} reference {ps} packs, including {} unused data.", nice(stored - unique))); } else { w.push(format!("{n} {idx} reference {ps} packs")); }
            let mut total = 0;
            for d in ["snapshots", "indexes", "packs"] {
                let s: u64 = names(&format!("repo/{d}")).iter().map(|f| fs::metadata(format!("repo/{d}/{f}")).unwrap().len()).sum();
                total += s;
                w.push(format!("{d}: {}", nice(s)));
            }
            w.push(format!("total: {}", nice(total)));
            if let Some(f) = o.first() { sx::assert(f.starts_with(&format!("{} snapshots, from ", all.len())), "usage counts other snapshots"); }
            for l in w { if !o.contains(&l) { sx::failf(format_args!("usage prints {o:?}, without {l:?}")); } }
        }
    }
    sx::reached("end");
}
