//! What goes in comes out.
use crate::sx;
use crate::util::*;
use std::fs;
use std::os::unix::fs::{PermissionsExt, symlink};

pub const KINDS: u64 = 8;
/// Make one of several things at `q`; what it holds is symbolic.
pub fn make(q: &str, kind: u64, name: &str, mode: u32) {
    match kind {
        0 => return,
        1 => { let mut b = [0u8; 2]; sx::bytes(name, &mut b); fs::write(q, b).unwrap(); }
        2 => fs::write(q, b"").unwrap(),
        3 => fs::create_dir(q).unwrap(),
        4 => return symlink("a", q).unwrap(),
        5 => return symlink("nowhere/at all", q).unwrap(),
        6 => {
            fs::create_dir(q).unwrap();
            let mut b = [0u8; 2];
            sx::bytes(name, &mut b);
            fs::write(format!("{q}/f"), b).unwrap();
            fs::create_dir(format!("{q}/e")).unwrap();
        }
        _ => { let mut b = [0u8; 3]; sx::bytes(name, &mut b); fs::write(q, b).unwrap(); }
    }
    fs::set_permissions(q, fs::Permissions::from_mode(mode)).unwrap();
}

/// Any tree of the shapes above, with any contents, restores exactly, both
/// with and without metadata; a second backup of it adds nothing.
pub fn h_roundtrip() {
    world();
    fs::create_dir_all("src/d").unwrap();
    let (x, y) = (sx::choice("a", KINDS), sx::choice("d/b", KINDS));
    make("src/a", x, "ca", 0o640);
    make("src/d/b", y, "cb", 0o1751);
    sx::must("init", || init("repo"));
    sx::must("backup", || backup("repo", &["src"]));
    let want = full("src");
    if want.len() == 2 && x == 0 { /* only an empty directory below */ }
    let s = snaps("repo");
    sx::assert(s.len() == 1, "no snapshot");
    sx::must("check", || check("repo", &["--read-packs"]));
    fs::create_dir("out").unwrap();
    let meta = sx::flag("meta");
    sx::must("restore", || restore("repo", if meta { &["-tp", "-o", "out", "LAST"] } else { &["-o", "out", "LAST"] }));
    same("restored", &full("out"), &want, if meta { 2 } else { 0 });
    sx::must("restore in place", || restore("repo", &["--delete", "LAST"]));
    same("restored in place", &full("src"), &want, 2);
    sx::reached("end");
}
/// Any mode and any modification time survive.
pub fn h_meta() {
    world();
    fs::create_dir_all("src/d").unwrap();
    fs::write("src/a", b"alpha").unwrap();
    let which = ["src/a", "src/d", "src"][sx::choice("which", 3) as usize];
    let mode = sx::any("mode", 12) as u32;
    fs::set_permissions(which, fs::Permissions::from_mode(mode)).unwrap();
    let base = [0i64, -1, 1 << 31, 1 << 32, -(1 << 31), 1_700_000_000, -9_000_000_000, 9_000_000_000, -256][sx::choice("era", 9) as usize];
    let (s, n) = if sx::flag("fraction") {
        // every fraction of a second
        (base, sx::choice("half", 2) as i64 * 463_129_088 + sx::any("nsec", 29) as i64)
    } else {
        // every second of some minutes
        (base + sx::any("sec", 8) as i64, [0, 1, 999_999_999][sx::choice("n", 3) as usize])
    };
    sx::set_mtime(which, s, n);
    let want = full("src");
    sx::must("init", || init("repo"));
    sx::must("backup", || backup("repo", &["src"]));
    fs::create_dir("out").unwrap();
    sx::must("restore", || restore("repo", &["-tp", "-o", "out", "LAST"]));
    same("restored", &full("out"), &want, 2);
    sx::reached("end");
}
/// Equal or not, in every combination: each content and each directory is stored once.
pub fn h_once() {
    world();
    let tiny = sx::flag("tiny packs");
    sx::must("init", || init_sized("repo", if tiny { Some("1 B") } else { None }));
    fs::create_dir_all("src/d").unwrap();
    fs::create_dir_all("src/e").unwrap();
    let mut want = Expect::default();
    let files = ["src/a", "src/d/c", "src/e/c", "src/f"];
    let mut all: Vec<[u8; 2]> = vec![];
    for round in 0..2 {
        for (k, f) in files.iter().enumerate() {
            if round == 1 && k != 1 && k != 3 { continue; }
            let mut b = [0u8; 2];
            sx::bytes(&format!("{f} {round}"), &mut b);
            fs::write(f, b).unwrap();
            all.push(b);
        }
        for q in files.iter().chain(&["src/d", "src/e", "src"]) { sx::set_mtime(q, 1_700_000_000 + if round == 1 && (q.contains("/d") || q.contains("/f")) { 1 } else { 0 }, 0); }
        sx::must("backup", || backup("repo", &["--allow-repeat", "src"]));
        want.learn("repo", &get("src"));
        tight("repo", "after a backup");
    }
    let mut distinct = 0;
    for (k, b) in all.iter().enumerate() { if !all[..k].contains(b) { distinct += 1; } }
    sx::assert(chunks("repo") == distinct, "not one chunk for each content");
    verify("repo", &want, "after two backups");
    sx::reached("end");
}
