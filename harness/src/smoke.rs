use crate::sx;
use crate::util::*;

pub fn h_empty() {
    let x = sx::any_u64("x");
    sx::assume(x > 5);
    sx::assert(x > 4, "arithmetic");
    let v: Vec<u64> = (0..10).map(|i| i * x).collect();
    sx::assert(v.iter().sum::<u64>() == 45u64.wrapping_mul(x), "sum");
    println!("done {}", v.len());
}
pub fn h_smoke() {
    world();
    std::fs::create_dir("src").unwrap();
    std::fs::write("src/a", b"hello world").unwrap();
    std::fs::create_dir("src/d").unwrap();
    std::fs::write("src/d/b", b"second file").unwrap();
    sx::must("init", || init("repo"));
    sx::must("backup", || backup("repo", &["src"]));
    sx::must("check", || check("repo", &["--read-packs"]));
    std::fs::create_dir("out").unwrap();
    sx::must("restore", || restore("repo", &["-o", "out", "LAST"]));
    sx::assert(std::fs::read("out/a").unwrap() == b"hello world", "a restored");
    sx::assert(std::fs::read("out/d/b").unwrap() == b"second file", "b restored");
    sx::must("prune", || prune("repo", &[]));
    sx::reached("end");
}
