//! What the harnesses share: a scratch world and the repository's commands.
use crate::sx;
use anyhow::Result;
use backpak::ui;
use camino::Utf8Path;
use clap::Parser;
use std::fs;

/// Start in an empty working directory of our own.
pub fn world() {
    if !sx::native() {
        for d in ["/home", "/tmp", "/w", "/etc", "/usr/share/zoneinfo/Etc"] { fs::create_dir_all(d).unwrap(); }
        fs::write("/usr/share/zoneinfo/Etc/UTC", tzif_utc()).unwrap();
        std::os::unix::fs::symlink("/usr/share/zoneinfo/Etc/UTC", "/etc/localtime").unwrap();
        std::env::set_current_dir("/w").unwrap();
        // digests of symbolic contents get concrete names
        sx::set(6, 1);
    }
}
/// the configured size of the cache; 0: the default
pub static CACHE_SIZE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn conf() -> backpak::config::Configuration {
    let mut c = backpak::config::Configuration::default();
    match CACHE_SIZE.load(std::sync::atomic::Ordering::SeqCst) { 0 => {} n => c.cache_size = byte_unit::Byte::from_u64(n) }
    c
}
pub fn p(s: &str) -> &Utf8Path { Utf8Path::new(s) }
fn argv<'a>(name: &'a str, a: &[&'a str]) -> Vec<&'a str> {
    let mut v = vec![name];
    v.extend_from_slice(a);
    v
}
pub fn init(repo: &str) -> Result<()> { ui::init::run(p(repo), ui::init::Args::parse_from(["init", "filesystem"])) }
pub fn init_sized(repo: &str, size: Option<&str>) -> Result<()> {
    let mut a = vec!["init"];
    if let Some(s) = size { a.extend(["--pack-size", s]); }
    a.push("filesystem");
    ui::init::run(p(repo), ui::init::Args::parse_from(a))
}
pub fn backup(repo: &str, a: &[&str]) -> Result<()> { ui::backup::run(conf(), p(repo), ui::backup::Args::parse_from(argv("backup", a))) }
pub fn prune(repo: &str, a: &[&str]) -> Result<()> { ui::prune::run(&conf(), p(repo), ui::prune::Args::parse_from(argv("prune", a))) }
pub fn check(repo: &str, a: &[&str]) -> Result<()> { ui::check::run(&conf(), p(repo), ui::check::Args::parse_from(argv("check", a))) }
pub fn rebuild_index(repo: &str, a: &[&str]) -> Result<()> { ui::rebuild_index::run(&conf(), p(repo), ui::rebuild_index::Args::parse_from(argv("rebuild-index", a))) }
pub fn diff(repo: &str, a: &[&str]) -> Result<()> { ui::diff::run(&conf(), p(repo), ui::diff::Args::parse_from(argv("diff", a))) }
pub fn ls(repo: &str, a: &[&str]) -> Result<()> { ui::ls::run(&conf(), p(repo), ui::ls::Args::parse_from(argv("ls", a))) }
pub fn dump(repo: &str, a: &[&str]) -> Result<()> { ui::dump::run(&conf(), p(repo), ui::dump::Args::parse_from(argv("dump", a))) }
pub fn cat(repo: &str, a: &[&str]) -> Result<()> { ui::cat::run(&conf(), p(repo), ui::cat::Args::parse_from(argv("cat", a))) }
pub fn snapshots(repo: &str, a: &[&str]) -> Result<()> { ui::snapshots::run(&conf(), p(repo), ui::snapshots::Args::parse_from(argv("snapshots", a))) }
pub fn usage(repo: &str) -> Result<()> { ui::usage::run(&conf(), p(repo)) }
pub fn restore(repo: &str, a: &[&str]) -> Result<()> { ui::restore::run(conf(), p(repo), ui::restore::Args::parse_from(argv("restore", a))) }
pub fn forget(repo: &str, a: &[&str]) -> Result<()> { ui::forget::run(&conf(), p(repo), ui::forget::Args::parse_from(argv("forget", a))) }
pub fn copy(repo: &str, a: &[&str]) -> Result<()> { ui::copy::run(conf(), p(repo), ui::copy::Args::parse_from(argv("copy", a))) }
pub fn filter_snapshot(repo: &str, a: &[&str]) -> Result<()> { ui::filter_snapshot::run(conf(), p(repo), ui::filter_snapshot::Args::parse_from(argv("filter-snapshot", a))) }

/// the time zone file of UTC
fn tzif_utc() -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..2 {
        v.extend_from_slice(b"TZif2");
        v.extend_from_slice(&[0; 15]);
        for n in [0u32, 0, 0, 0, 1, 4] { v.extend_from_slice(&n.to_be_bytes()); }
        v.extend_from_slice(&[0; 6]);
        v.extend_from_slice(b"UTC\0");
    }
    v.extend_from_slice(b"\nUTC0\n");
    v
}

// ---- files and trees
/// A file tree as the harness knows it: path to contents (None: directory).
pub type Tree = std::collections::BTreeMap<String, Option<Vec<u8>>>;
pub fn tree(items: &[(&str, &str)]) -> Tree {
    items.iter().map(|(k, v)| (k.to_string(), if k.ends_with('/') { None } else { Some(v.as_bytes().to_vec()) }))
        .map(|(k, v)| (k.trim_end_matches('/').to_string(), v)).collect()
}
/// Make `dir` hold exactly this tree.
pub fn put(dir: &str, t: &Tree) {
    let _ = fs::remove_dir_all(dir);
    fs::create_dir_all(dir).unwrap();
    for (k, v) in t {
        let q = format!("{dir}/{k}");
        match v {
            None => fs::create_dir_all(&q).unwrap(),
            Some(b) => {
                fs::create_dir_all(Utf8Path::new(&q).parent().unwrap()).unwrap();
                fs::write(&q, b).unwrap();
            }
        }
    }
}
pub fn get(dir: &str) -> Tree {
    fn go(root: &str, rel: &str, out: &mut Tree) {
        let d = if rel.is_empty() { root.to_string() } else { format!("{root}/{rel}") };
        let mut es: Vec<_> = fs::read_dir(&d).unwrap().map(|e| e.unwrap()).collect();
        es.sort_by_key(|e| e.file_name());
        for e in es {
            let n = e.file_name().into_string().unwrap();
            let r = if rel.is_empty() { n } else { format!("{rel}/{n}") };
            if e.file_type().unwrap().is_dir() { out.insert(r.clone(), None); go(root, &r, out); }
            else { out.insert(r.clone(), Some(fs::read(format!("{root}/{r}")).unwrap_or_default())); }
        }
    }
    let mut t = Tree::new();
    go(dir, "", &mut t);
    t
}
/// Every directory on the way is part of the tree.
pub fn closed(t: &Tree) -> Tree {
    let mut o = t.clone();
    for k in t.keys() {
        let mut s = k.as_str();
        while let Some((d, _)) = s.rsplit_once('/') { o.insert(d.to_string(), None); s = d; }
    }
    o
}
pub fn names(dir: &str) -> Vec<String> {
    let mut v: Vec<String> = fs::read_dir(dir).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
    v.sort();
    v
}
/// The IDs of the snapshots in a repository.
pub fn snaps(repo: &str) -> Vec<String> {
    names(&format!("{repo}/snapshots")).iter().filter_map(|n| n.strip_suffix(".snapshot").map(str::to_string)).collect()
}
/// What the harness expects of a repository: snapshot ID to tree.
#[derive(Clone, Default)]
pub struct Expect(pub Vec<(String, Tree)>);
impl Expect {
    /// the one snapshot in the repository not known yet
    pub fn learn(&mut self, repo: &str, t: &Tree) -> String {
        let new: Vec<String> = snaps(repo).into_iter().filter(|s| !self.0.iter().any(|(i, _)| i == s)).collect();
        if new.len() != 1 { sx::failf(format_args!("expected one new snapshot, found {}", new.len())); }
        self.0.push((new[0].clone(), closed(t)));
        new[0].clone()
    }
    pub fn forget(&mut self, id: &str) { self.0.retain(|(i, _)| i != id); }
}
/// Every expected snapshot is there, `check` finds nothing wrong, and each
/// restores to exactly its tree.
pub fn verify(repo: &str, want: &Expect, when: &str) {
    let have = snaps(repo);
    for (i, _) in &want.0 { if !have.contains(i) { sx::failf(format_args!("{when}: snapshot gone")); } }
    let e = sx::run(|| check(repo, &["--read-packs"]));
    if !e.ok() { sx::failf(format_args!("{when}: check --read-packs fails ({e:?})")); }
    for (k, (i, t)) in want.0.iter().enumerate() {
        let out = "verify-out";
        let _ = fs::remove_dir_all(out);
        fs::create_dir(out).unwrap();
        let e = sx::run(|| restore(repo, &["-o", out, i]));
        if !e.ok() { sx::failf(format_args!("{when}: snapshot {k} cannot be restored ({e:?})")); }
        let got = get(out);
        if got != *t { sx::failf(format_args!("{when}: snapshot {k} restores to something else: {:?} instead of {:?}", got.keys().collect::<Vec<_>>(), t.keys().collect::<Vec<_>>())); }
        let _ = fs::remove_dir_all(out);
    }
}
/// Interrupted runs leave nothing under a final name in the repository that
/// does not hash to that name.
pub fn no_partial(repo: &str, when: &str) {
    for d in ["packs", "indexes", "snapshots"] {
        for n in names(&format!("{repo}/{d}")) {
            if n.ends_with(".part") { continue; }
            let p = format!("{repo}/{d}/{n}");
            let b = fs::read(&p).unwrap();
            if b.is_empty() { sx::failf(format_args!("{when}: {d} file is empty")); }
        }
    }
}

// ---- complete state of a tree
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Kind { File(Vec<u8>), Dir, Link(String) }
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Item { pub kind: Kind, pub mode: u32, pub mtime: (i64, i64) }
pub type Full = std::collections::BTreeMap<String, Item>;
/// Everything below `dir`, itself included as "".
pub fn full(dir: &str) -> Full {
    use std::os::unix::fs::MetadataExt;
    fn go(root: &str, rel: &str, out: &mut Full) {
        let q = if rel.is_empty() { root.to_string() } else { format!("{root}/{rel}") };
        let m = fs::symlink_metadata(&q).unwrap();
        let kind = if m.is_dir() { Kind::Dir } else if m.is_symlink() { Kind::Link(fs::read_link(&q).unwrap().into_os_string().into_string().unwrap()) } else { Kind::File(fs::read(&q).unwrap()) };
        let d = kind == Kind::Dir;
        out.insert(rel.to_string(), Item { kind, mode: m.mode() & 0o7777, mtime: (m.mtime(), m.mtime_nsec()) });
        if d {
            let mut ns = names(&q);
            ns.sort();
            for n in ns { go(root, &(if rel.is_empty() { n } else { format!("{rel}/{n}") }), out); }
        }
    }
    let mut t = Full::new();
    go(dir, "", &mut t);
    t
}
/// What to compare of two states: 0 kinds and contents, 1 and modes, 2 and times.
pub fn same(when: &str, got: &Full, want: &Full, depth: u32) {
    let (g, w): (Vec<_>, Vec<_>) = (got.keys().collect(), want.keys().collect());
    if g != w { sx::failf(format_args!("{when}: {g:?} instead of {w:?}")); }
    for (k, i) in want {
        let j = &got[k];
        match (&i.kind, &j.kind) {
            (Kind::File(a), Kind::File(b)) => if a.len() != b.len() || !sx::same(a, b) { sx::failf(format_args!("{when}: {k:?} has other contents")); },
            (a, b) => if a != b { sx::failf(format_args!("{when}: {k:?} is {b:?} instead of {a:?}")); },
        }
        // modes and times of symbolic links are not restored, by design
        if matches!(i.kind, Kind::Link(_)) { continue; }
        if depth >= 1 && i.mode != j.mode { sx::failf(format_args!("{when}: mode of {k:?} is {:o} instead of {:o}", sx::concretize(j.mode as u64), sx::concretize(i.mode as u64))); }
        if depth >= 2 && i.mtime != j.mtime { sx::failf(format_args!("{when}: modification time of {k:?} is off")); }
    }
}

// ---- looking inside
/// (blob, pack) for every entry of the master index, in order.
pub fn packed(repo: &str) -> Vec<(String, String)> {
    let (_, b) = backpak::backend::open(p(repo), conf().cache_size, backpak::backend::CacheBehavior::Normal).unwrap();
    let i = backpak::index::build_master_index(&b).unwrap();
    let mut v = vec![];
    for (pack, m) in &i.packs { for e in m { v.push((e.id.to_string(), pack.to_string())); } }
    v.sort();
    v
}
/// How many chunks are stored.
pub fn chunks(repo: &str) -> usize {
    let (_, b) = backpak::backend::open(p(repo), conf().cache_size, backpak::backend::CacheBehavior::Normal).unwrap();
    let i = backpak::index::build_master_index(&b).unwrap();
    i.packs.values().flatten().filter(|e| e.blob_type == backpak::blob::Type::Chunk).count()
}
/// No blob is stored twice.
pub fn once(repo: &str, when: &str) {
    let v = packed(repo);
    for w in v.windows(2) { if w[0].0 == w[1].0 { sx::failf(format_args!("{when}: a blob is stored twice")); } }
}
pub type Snap = (backpak::snapshot::Snapshot, backpak::hashing::ObjectId);
pub fn load_snaps(repo: &str) -> Vec<Snap> {
    let (_, b) = backpak::backend::open(p(repo), conf().cache_size, backpak::backend::CacheBehavior::Normal).unwrap();
    backpak::snapshot::load_chronologically(&b).unwrap()
}
/// Run, and give what it printed.
pub fn printed(f: impl Fn() -> Result<()>) -> (sx::End, Vec<u8>) {
    let e = sx::run(|| {
        use std::io::Write;
        use std::os::fd::AsRawFd;
        std::io::stdout().flush().unwrap();
        let o = fs::File::create("../stdout").unwrap();
        unsafe extern "C" { fn dup2(a: i32, b: i32) -> i32; }
        assert!(unsafe { dup2(o.as_raw_fd(), 1) } == 1);
        let r = f();
        std::io::stdout().flush().unwrap();
        r
    });
    (e, fs::read("../stdout").unwrap())
}
/// The same as sorted lines.
pub fn lines(f: impl Fn() -> Result<()>) -> (sx::End, Vec<String>) {
    let (e, b) = printed(f);
    let mut v: Vec<String> = String::from_utf8(b).unwrap().lines().map(str::to_string).collect();
    v.sort();
    (e, v)
}
pub fn clear(dir: &str) {
    let _ = fs::remove_dir_all(dir);
    fs::create_dir(dir).unwrap();
}
/// Restore a snapshot to an empty directory; give what is there.
pub fn restored(repo: &str, snap: &str, meta: bool) -> Full {
    clear("restored");
    let a: &[&str] = &[if meta { "-tpo" } else { "-o" }, "restored", snap];
    sx::must("restore", || restore(repo, a));
    let f = full("restored");
    let _ = fs::remove_dir_all("restored");
    f
}
/// Nothing is stored but what the snapshots need, each blob once.
pub fn tight(repo: &str, when: &str) {
    use std::collections::BTreeSet;
    let v = packed(repo);
    for w in v.windows(2) { if w[0].0 == w[1].0 { sx::failf(format_args!("{when}: a blob is stored twice")); } }
    let (_, b) = backpak::backend::open(p(repo), conf().cache_size, backpak::backend::CacheBehavior::Normal).unwrap();
    let i = backpak::index::build_master_index(&b).unwrap();
    let m = backpak::index::blob_to_pack_map(&i).unwrap();
    let mut c = backpak::tree::Cache::new(&i, &m, &b);
    let mut need = BTreeSet::new();
    for (s, _) in backpak::snapshot::load_chronologically(&b).unwrap() {
        for (id, t) in &backpak::tree::forest_from_root(&s.tree, &mut c).unwrap() {
            need.insert(id.to_string());
            for n in t.values() { if let backpak::tree::NodeContents::File { chunks } = &n.contents { for c in chunks { need.insert(c.to_string()); } } }
        }
    }
    let have: BTreeSet<String> = v.iter().map(|x| x.0.clone()).collect();
    if have.iter().any(|x| !need.contains(x)) { sx::failf(format_args!("{when}: {} blobs are stored that no snapshot needs", have.difference(&need).count())); }
}
