//! Single modules under every input, through the library's public interface.
use crate::sx;
use crate::util::*;
use backpak::hashing::ObjectId;
use backpak::{backend, blob, chunk, config, index, pack, rcu, read, semaphored, snapshot};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::str::FromStr;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::mpsc::{channel, sync_channel};

// ---- reading blobs
fn blob(b: &[u8]) -> blob::Blob { blob::Blob { contents: blob::Contents::Buffer(b.to_vec()), id: ObjectId::hash(b), kind: blob::Type::Chunk } }
/// Packs of the given blobs in a backend of our own.
fn packed_in_memory(packs: &[Vec<blob::Blob>]) -> (backend::CachedBackend, index::Index) {
    let b = backend::in_memory();
    let mut i = index::Index::default();
    for p in packs {
        let (tx, rx) = channel();
        let (ptx, prx) = sync_channel(9);
        let (utx, urx) = sync_channel(9);
        for x in p { tx.send(x.clone()).unwrap(); }
        drop(tx);
        let n = AtomicU64::new(0);
        pack::pack(pack::DEFAULT_PACK_SIZE, rx, ptx, utx, &n, &n).unwrap();
        for (n, f) in urx { b.write(&n, f).unwrap(); }
        for m in prx { i.packs.insert(m.id, m.manifest); }
    }
    (b, i)
}
/// Any sequence of reads of blobs in several packs, with a clock that stands
/// still or not, gives each blob's bytes.
pub fn k_reader() {
    world();
    let sizes: &[&[usize]] = match sx::choice("layout", 4) {
        0 => &[&[3, 1], &[2], &[1]],
        1 => &[&[1], &[2], &[6], &[5, 1]],
        2 => &[&[0, 4], &[4], &[4, 3]],
        _ => &[&[1, 1, 1], &[1, 2], &[1, 9]],
    };
    let mut n = 0u8;
    let packs: Vec<Vec<blob::Blob>> = sizes.iter().map(|p| p.iter().map(|s| { n += 1; blob(&vec![n; *s]) }).collect()).collect();
    let all: Vec<blob::Blob> = packs.iter().flatten().cloned().collect();
    let (b, i) = packed_in_memory(&packs);
    let m = index::blob_to_pack_map(&i).unwrap();
    if sx::flag("clock stands still") { sx::set(2, 1); }
    let mut r = read::ChunkReader::new(&b, &i, &m);
    for _ in 0..if sx::deep() { 6 } else { 4 } {
        let k = sx::choice("read", all.len() as u64) as usize;
        match r.read_blob(&all[k].id) {
            Ok(x) => if x.as_slice() != all[k].bytes() { sx::fail("a blob reads as something else"); },
            Err(e) => sx::failf(format_args!("a blob cannot be read: {e:#}")),
        }
        sx::assert(r.blob_size(&all[k].id).is_ok_and(|l| l as usize == all[k].bytes().len()), "a blob has another size");
    }
    sx::assert(r.read_blob(&ObjectId::hash(b"none such")).is_err(), "a blob that is nowhere is read");
    sx::reached("end");
}

// ---- the master index
fn id(n: u8) -> ObjectId { ObjectId::hash(&[n]) }
fn write_index(b: &backend::CachedBackend, i: index::Index) -> ObjectId {
    let (tx, rx) = sync_channel(9);
    let (_p, prx) = channel();
    drop(_p);
    index::index(index::Resumable::No, i, prx, tx, &AtomicU64::new(0)).unwrap();
    let (n, f) = rx.recv().unwrap();
    let id = backend::id_from_path(&n).unwrap();
    b.write(&n, f).unwrap();
    id
}
/// Three indexes with any packs, each superseding any of those before it and
/// something else: the master index is what the ones not superseded say.
pub fn k_index() {
    world();
    let b = backend::in_memory();
    let mut made: Vec<(ObjectId, u64, BTreeSet<ObjectId>)> = vec![];
    let entry = |p: u8| vec![pack::PackManifestEntry { blob_type: if p == 2 { blob::Type::Tree } else { blob::Type::Chunk }, length: p as u32, id: id(10 + p) }, pack::PackManifestEntry { blob_type: blob::Type::Chunk, length: 7, id: id(20) }];
    for k in 0..3u64 {
        let packs = if sx::deep() { sx::choice("packs", 8) } else { [0, 1, 3, 6][sx::choice("packs", 4) as usize] };
        let over = sx::choice("supersedes", if k < 2 && !sx::deep() { 1 } else { 2 } << k);
        let mut s = BTreeSet::new();
        for (j, m) in made.iter().enumerate() { if over >> j & 1 == 1 { s.insert(m.0); } }
        if over >> k & 1 == 1 { s.insert(id(99)); }
        if packs == 0 && s.is_empty() { return; }
        let i = index::Index { packs: (0..3u8).filter(|p| packs >> p & 1 == 1).map(|p| (id(p), entry(p))).collect(), supersedes: s.clone() };
        let n = write_index(&b, i);
        if made.iter().any(|m| m.0 == n) { return; }
        made.push((n, packs, s));
    }
    // some may have been removed already
    let there = if sx::deep() { sx::choice("there", 8) } else { [7, 3, 5, 6][sx::choice("there", 4) as usize] };
    for (k, m) in made.iter().enumerate() { if there >> k & 1 == 0 { b.remove_index(&m.0).unwrap(); } }
    let mut packs = 0;
    let mut gone = BTreeSet::new();
    for (k, m) in made.iter().enumerate() { if there >> k & 1 == 1 { gone.extend(m.2.iter().copied()); } }
    for (k, m) in made.iter().enumerate() { if there >> k & 1 == 1 && !gone.contains(&m.0) { packs |= m.1; } }
    let (i, sizes) = index::build_master_index_with_sizes(&b).unwrap();
    sx::assert(sizes.len() == there.count_ones() as usize, "not every index is counted");
    sx::assert(i.supersedes == gone, "another set of superseded indexes");
    let want: BTreeMap<ObjectId, _> = (0..3u8).filter(|p| packs >> p & 1 == 1).map(|p| (id(p), entry(p))).collect();
    sx::assert(i.packs == want, "the master index is not the union of the indexes not superseded");
    let m = index::blob_to_pack_map(&i).unwrap();
    let ids = index::blob_id_set(&i).unwrap();
    let sz = index::blob_to_size_map(&i).unwrap();
    for p in 0..3u8 {
        let h = packs >> p & 1 == 1;
        sx::assert(m.get(&id(10 + p)) == h.then(|| id(p)).as_ref(), "a blob is mapped to another pack");
        sx::assert(ids.contains(&id(10 + p)) == h, "a blob is missing from the set, or in it by mistake");
        sx::assert(sz.get(&id(10 + p)).copied() == h.then_some(p as u32), "a blob has another size");
    }
    sx::assert(m.get(&id(20)).is_some_and(|x| i.packs.contains_key(x)) == (packs != 0), "a blob in several packs is mapped to none of them");
    sx::reached("end");
}

// ---- finding snapshots
const DIGITS: &[u8] = b"0123456789abcdefghijklmnopqrstuv";
fn snap(n: i64) -> snapshot::Snapshot {
    snapshot::Snapshot { time: jiff::Timestamp::from_second(n).unwrap().to_zoned(jiff::tz::TimeZone::UTC), author: format!("a{n}"), tags: BTreeSet::new(), paths: BTreeSet::new(), tree: id(n as u8) }
}
/// Snapshots named by ID, by prefix or by age.
pub fn k_find() {
    // (the regular expression is compiled once)
    let _ = snapshot::find(&[], "LAST");
    // IDs that share their first digits
    let common = [0, 3, 4, 5, 43][sx::choice("common", 5) as usize];
    let text = |k: usize| -> String {
        let mut t = vec![b'a'; 45];
        if k < 2 { t[common] = DIGITS[k]; } else { t[1] = b'z' - 5; }
        t[44] = b'0';
        String::from_utf8(t).unwrap()
    };
    let ids: Vec<String> = (0..3).map(text).collect();
    let all: Vec<(snapshot::Snapshot, ObjectId)> = (0..3).map(|k| (snap(k as i64), ObjectId::from_str(&ids[k]).unwrap())).collect();
    let n = sx::choice("snapshots", 4) as usize;
    let all = &all[..n];
    let (arg, want): (String, Option<usize>) = match sx::choice("by", 4) {
        0 => {
            let word = ["LAST", "HEAD", "last", "Head", "LASTLAST", "LAST ", ""][sx::choice("word", 7) as usize];
            let t = sx::choice("tilde", 6);
            let (suffix, back): (String, Option<usize>) = match t {
                0 => ("".into(), Some(0)),
                1 => ("~".into(), Some(1)),
                2 | 3 => {
                    let mut s = String::from("~");
                    let mut v = 0usize;
                    for _ in 0..t - 1 { let d = sx::choice("digit", 10); v = v * 10 + d as usize; s.push((b'0' + d as u8) as char); }
                    (s, Some(v))
                }
                4 => ("~18446744073709551616".into(), None),
                _ => ("~~".into(), None),
            };
            let ok = word == "LAST" || word == "HEAD";
            (format!("{word}{suffix}"), if ok { back.and_then(|b| n.checked_sub(b + 1)) } else { None })
        }
        1 => {
            // a prefix of one, perhaps with another digit
            let k = sx::choice("whose", 3) as usize;
            let len = [0, 1, 3, 4, 5, 6, 43, 44, 45][sx::choice("length", 9) as usize];
            let mut p = ids[k].as_bytes()[..len].to_vec();
            if len > 0 && sx::flag("changed") {
                let at = [0, len / 2, len - 1][sx::choice("at", 3) as usize];
                let b = [b'v', b'z', b'A', b'~', b' '][sx::choice("to", 5) as usize];
                p[at] = b;
            }
            let p = String::from_utf8(p).unwrap();
            let m: Vec<usize> = (0..n).filter(|j| ids[*j].starts_with(&p)).collect();
            let w = if len >= 4 && m.len() == 1 { Some(m[0]) } else { None };
            (p, w)
        }
        2 => (format!("{}{}", ids[0], ["0", "a", "~", "aaaaaaaa"][sx::choice("more", 4) as usize]), None),
        _ => (ids[0].to_uppercase(), None),
    };
    let got = snapshot::find(all, &arg);
    match want {
        Some(k) => match got { Ok(x) => if x.1 != all[k].1 { sx::failf(format_args!("{arg:?} finds another snapshot")); }, Err(e) => sx::failf(format_args!("{arg:?} finds nothing: {e}")) },
        None => if got.is_ok() { sx::failf(format_args!("{arg:?} finds a snapshot")); },
    }
    // several: each once, oldest first
    if n == 3 && want.is_some() {
        let other = ["LAST", "LAST~1", "HEAD~2"][sx::choice("other", 3) as usize];
        let o = snapshot::find(all, other).unwrap().1;
        let l = snapshot::from_args_list(all, &[arg.clone(), other.to_string(), arg.clone()]).unwrap();
        let w: Vec<ObjectId> = all.iter().filter(|s| s.1 == all[want.unwrap()].1 || s.1 == o).map(|s| s.1).collect();
        sx::assert(l.iter().map(|s| s.1).collect::<Vec<_>>() == w, "a list of snapshots is not each of them once, oldest first");
    }
    sx::reached("end");
}
/// Whatever the order of directory entries and threads, snapshots come in one order.
pub fn k_order() {
    world();
    let b = backend::in_memory();
    let mut want = vec![];
    for k in 0..3u64 {
        let t = sx::choice("time", 3) as i64;
        let mut s = snap(t);
        s.author = format!("author {k}");
        want.push((t, snapshot::upload(&s, &b).unwrap()));
    }
    let order = || -> Vec<(i64, ObjectId)> { snapshot::load_chronologically(&b).unwrap().into_iter().map(|s| (s.0.time.timestamp().as_second(), s.1)).collect() };
    let one = order();
    sx::sched(if sx::deep() { 3 } else { 2 });
    let two = order();
    sx::assert(one.is_sorted_by_key(|s| s.0), "the snapshots are not in the order of their times");
    sx::assert(one == two, "the order of snapshots depends on the schedule");
    want.sort();
    let mut all = one.clone();
    all.sort();
    sx::assert(all == want, "other snapshots");
    sx::reached("end");
}

// ---- semaphores, thread pools
/// Threads that take a semaphore of one or two: never more than that many have
/// it, and each gets it.
pub fn k_semaphore() {
    let n = 1 + sx::choice("count", 2) as u32;
    let threads = if sx::deep() { 4 } else { 3 };
    sx::set(5, 1);
    sx::sched(if sx::deep() { 4 } else { 3 });
    let (count, inside, most, runs) = (AtomicU32::new(n), AtomicU32::new(0), AtomicU32::new(0), AtomicU32::new(0));
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| {
                let _g = semaphored::dec(&count);
                let i = inside.fetch_add(1, SeqCst) + 1;
                most.fetch_max(i, SeqCst);
                runs.fetch_add(1, SeqCst);
                inside.fetch_sub(1, SeqCst);
            });
        }
    });
    sx::assert(most.load(SeqCst) <= n, "more have the semaphore than it counts");
    sx::assert(runs.load(SeqCst) == threads, "not every thread has run");
    sx::assert(count.load(SeqCst) == n, "the semaphore does not count what it did");
    sx::reached("end");
}
/// More jobs than processors: each runs once, its result is there, and no
/// more than that many run at once.
pub fn k_concurrently() {
    let cpus = 1 + sx::choice("cpus", 3);
    let jobs = sx::choice("jobs", 5);
    sx::set(4, cpus);
    sx::sched(if sx::deep() { 3 } else { 2 });
    let (inside, most) = (AtomicU32::new(0), AtomicU32::new(0));
    let mut v = backpak::concurrently::map_concurrently((0..jobs).map(|k| {
        let (inside, most) = (&inside, &most);
        move || {
            let i = inside.fetch_add(1, SeqCst) + 1;
            most.fetch_max(i, SeqCst);
            std::thread::yield_now();
            inside.fetch_sub(1, SeqCst);
            Ok(k * 3)
        }
    }));
    v.sort();
    sx::assert(v == (0..jobs).map(|k| k * 3).collect::<Vec<_>>(), "not each job's result once");
    sx::assert(most.load(SeqCst) as u64 <= cpus.max(1), "more jobs at once than processors");
    let sum = AtomicU64::new(0);
    backpak::concurrently::concurrently((0..jobs).map(|k| { let sum = &sum; move || { sum.fetch_add(1 << (4 * k), SeqCst); Ok(()) } }));
    sx::assert(sum.load(SeqCst) == (0..jobs).map(|k| 1u64 << (4 * k)).sum::<u64>(), "not each job once");
    sx::reached("end");
}
static DROPPED: [AtomicU32; 4] = [const { AtomicU32::new(0) }; 4];
struct Value(usize, Box<u64>);
impl Value { fn new(k: usize) -> Value { Value(k, Box::new(k as u64 * 1000 + 7)) } fn sound(&self) -> bool { DROPPED[self.0].load(SeqCst) == 0 && *self.1 == self.0 as u64 * 1000 + 7 } }
impl Default for Value { fn default() -> Value { Value::new(0) } }
impl Drop for Value { fn drop(&mut self) { *self.1 = 0; if DROPPED[self.0].fetch_add(1, SeqCst) != 0 { sx::fail("a value is dropped twice"); } } }
/// One thread publishes values while others look at them.
pub fn k_rcu() {
    sx::set(5, 1);
    sx::sched(if sx::deep() { 4 } else { 2 });
    {
        let r: rcu::Rcu<Value> = if sx::flag("default") { Default::default() } else { rcu::Rcu::new(Value::new(0)) };
        std::thread::scope(|s| {
            s.spawn(|| for k in 1..4 { r.update(Value::new(k)); });
            s.spawn(|| {
                let mut last = 0;
                for _ in 0..2 {
                    let b = r.borrow();
                    sx::assert(b.sound(), "a borrowed value is gone");
                    sx::assert(b.0 >= last, "an older value after a newer one");
                    last = b.0;
                    std::thread::yield_now();
                    sx::assert(b.sound(), "a borrowed value is gone while borrowed");
                }
            });
        });
        sx::assert(r.borrow().0 == 3 && r.borrow().sound(), "not the last value");
    }
    sx::assert(DROPPED[3].load(SeqCst) == 1, "the last value is not dropped");
    sx::reached("end");
}

// ---- text form of IDs
fn digits(t: &[u8]) -> bool {
    let mut ok = true;
    for c in t { ok &= (*c >= b'0') & (*c <= b'9') | (*c >= b'a') & (*c <= b'v'); }
    ok
}
/// Every text of 45 digits or so: an ID reads back as the same text, and
/// other texts are refused.
pub fn k_id() {
    match sx::choice("what", 2) {
        0 => {
            // four symbolic bytes hash to a symbolic digest
            let mut b = [0u8; 4];
            sx::bytes("b", &mut b);
            let i = ObjectId::hash(&b);
            let t = i.to_string();
            sx::assert(t.len() == 45 && digits(t.as_bytes()), "an ID has another form");
            let n = i.short_name();
            sx::assert(n.len() == 8 && sx::same(n.as_bytes(), &t.as_bytes()[..8]), "a short name is not the start of the ID");
            sx::assert(ObjectId::from_str(&t).is_ok_and(|j| j == i), "an ID does not read back");
        }
        _ => {
            // a text with two symbolic characters
            let len = [0, 1, 8, 43, 44, 45, 46, 52, 53][sx::choice("length", 9) as usize];
            let mut t = b"0a1b2c3d4e5f6g7h8i9jklmnopqrstuv0123456789abc0ab0cd00".to_vec();
            t.truncate(len);
            if len > 0 {
                let at = [0, len / 2, len - 1][sx::choice("at", 3) as usize];
                let mut c = [0u8; 1];
                sx::bytes("c", &mut c);
                sx::assume(c[0] < 128);
                t[at] = c[0];
            }
            let t = String::from_utf8(t).unwrap();
            let plain = t.len() == 45 && t.bytes().all(|c| c >= b'0' && c <= b'9' || c >= b'a' && c <= b'v') && (t.as_bytes()[44] - b'0') % 16 == 0;
            match ObjectId::from_str(&t) {
                Ok(i) => {
                    sx::assert(i.to_string() == t, "a text is read as the ID of another text");
                    sx::assert(t.len() == 45, "a text of another length is read as an ID");
                }
                Err(_) => sx::assert(!(plain && (t.as_bytes()[44] == b'0' || t.as_bytes()[44] == b'g')), "the text of an ID is refused"),
            }
        }
    }
    sx::reached("end");
}

// ---- configuration
/// ~/.config/backpak.toml, .backpak here, --config, and arguments.
pub fn k_config() {
    world();
    let home = "/home/u";
    let put = |p: &str, s: &str| { fs::create_dir_all(p.rsplit_once('/').unwrap().0).unwrap(); fs::write(p, s).unwrap(); };
    let _ = (home, put);
    let text = |which: u64, tag: &str| -> (String, Vec<String>, Option<String>, bool) {
        let mut s = String::new();
        let skips: Vec<String> = match which % 3 { 0 => vec![], 1 => vec![format!("{tag}-one")], _ => vec![format!("{tag}-one"), "both".into()] };
        if which % 3 != 0 { s += &format!("skips = {:?}\n", skips); }
        let out = (which / 3 % 2 == 1).then(|| format!("/out/{tag}"));
        let deref = which / 6 % 2 == 1;
        if deref { s += "[backup]\ndereference = true\n"; }
        if let Some(o) = &out { s += &format!("[restore]\noutput = {o:?}\n"); }
        (s, skips, out, deref)
    };
    let g = sx::choice("global", 14);
    let l = sx::choice("local", 14);
    let (gt, gs, go, gd) = text(g, "global");
    let (lt, ls, lo, _) = text(l, "local");
    let bad = "skips = 3";
    fs::create_dir("conf").unwrap();
    match g { 12 => {} 13 => fs::write("conf/g.toml", bad).unwrap(), _ => fs::write("conf/g.toml", &gt).unwrap() }
    match l { 12 => {} 13 => fs::write(".backpak", bad).unwrap(), _ => fs::write(".backpak", &lt).unwrap() }
    let c = config::load(Some("conf/g.toml".into()));
    let _ = fs::remove_file(".backpak");
    if g == 13 || l == 13 { sx::assert(c.is_err(), "a broken configuration is accepted"); sx::reached("end"); return; }
    // without a global file the defaults hold
    let (gs, go, gd) = if g == 12 { (vec![], None, false) } else { (gs, go, gd) };
    let Ok(c) = c else { sx::fail("a configuration is refused") };
    let here = l != 12;
    sx::assert(c.skips == if here { &ls } else { &gs }.clone(), "other skips");
    sx::assert(c.restore.output.as_ref().map(|p| p.to_string()) == (if here { lo.or(go) } else { go }), "another place to restore to");
    sx::assert(c.backup.dereference == gd, "dereferencing is not as configured");
    let d = config::load(Some("".into()));
    sx::assert(d.is_ok_and(|d| d.skips.is_empty() && d.restore.output.is_none() && !d.backup.dereference), "--config \"\" is not the default");
    let args: Vec<String> = match sx::choice("args", 3) { 0 => vec![], 1 => vec!["arg".into()], _ => vec!["both".into(), "arg".into()] };
    let m = config::merge_skips(c.skips.clone(), args.clone());
    let want: BTreeSet<String> = c.skips.iter().chain(&args).cloned().collect();
    sx::assert(m.iter().cloned().collect::<BTreeSet<_>>() == want && m.len() == want.len(), "merged skips are not those of both");
    sx::reached("end");
}

// ---- chunks
/// Files of any length and contents are cut into chunks that make up exactly
/// the file, within the size limits, each with its hash.
pub fn k_chunks() {
    world();
    const K: usize = 1024;
    const M: usize = 1024 * K;
    let len = [0, 1, 512 * K - 1, 512 * K, 512 * K + 1, 512 * K + 40, M, 2 * M + 3, 8 * M, 8 * M + 1, 10 * M - 1, 10 * M, 10 * M + 1][sx::choice("length", 13) as usize];
    let rnd = sx::flag("random");
    let mut v = vec![0u8; len];
    if rnd { let mut x = 1u64; for b in v.chunks_mut(8) { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); let n = b.len(); b.copy_from_slice(&x.to_be_bytes()[..n]); } }
    // symbolic bytes: where cuts may first be, and at the ends
    for (n, at) in [("first", 0), ("cut", 512 * K + 8), ("last", len.wrapping_sub(1))] {
        if at < len { let mut b = [0u8; 1]; sx::bytes(n, &mut b); v[at] = b[0]; }
    }
    fs::write("f", &v).unwrap();
    let c: Vec<blob::Blob> = chunk::chunk_file("f").unwrap().collect();
    let mut at = 0;
    for (k, b) in c.iter().enumerate() {
        let x = b.bytes();
        sx::assert(at + x.len() <= len, "chunks go on beyond the end");
        sx::assert(!x.is_empty() && x.len() <= 8 * M && (x.len() >= 512 * K || k + 1 == c.len()), "a chunk is too small or too big");
        sx::assert(sx::same(x, &v[at..at + x.len()]), "a chunk is not what is at its place");
        sx::assert(b.id == ObjectId::hash(x), "a chunk has another ID");
        sx::assert(b.kind == blob::Type::Chunk, "a chunk is something else");
        at += x.len();
    }
    sx::assert(at == len, "chunks do not go to the end");
    sx::reached("end");
}
