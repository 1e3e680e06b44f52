mod child;
mod cov;
mod exec;
mod expr;
mod ext;
mod fs;
mod ir;
mod lin;
mod mem;
mod sha;
mod state;
mod val;
mod z3;

use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::sync::atomic::Ordering::SeqCst;

fn usage() -> ! {
    eprintln!("symx IR.ll ENTRY OUTDIR [--jobs N] [--time S] [--steps N] [--violations N] [--grace S] [--pin name=value] [--also IR.ll] [--trace] [--verbose]");
    std::process::exit(2)
}

fn main() {
    let t = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let c = t.join().unwrap_or(3);
    std::process::exit(c)
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 { usage() }
    let mut cfg = Cfg {
        jobs: 8, out: a[3].clone(), start: std::time::Instant::now(), grace: 1_000_000, deadline: std::time::Instant::now() + std::time::Duration::from_secs(600), max_steps: 4_000_000_000,
        max_violations: 1, trace: false, pins: Default::default(), verbose: false, deep: false,
    };
    let mut i = 4;
    let mut files = vec![a[1].clone()];
    let mut prefix = "/repo/src/".to_string();
    while i < a.len() {
        let v = |k: usize| a.get(k).unwrap_or_else(|| usage()).clone();
        match a[i].as_str() {
            "--jobs" => { cfg.jobs = v(i + 1).parse().unwrap(); i += 1; }
            "--time" => { cfg.deadline = std::time::Instant::now() + std::time::Duration::from_secs_f64(v(i + 1).parse().unwrap()); i += 1; }
            "--steps" => { cfg.max_steps = v(i + 1).parse().unwrap(); i += 1; }
            "--grace" => { cfg.grace = v(i + 1).parse().unwrap(); i += 1; }
            "--violations" => { cfg.max_violations = v(i + 1).parse().unwrap(); i += 1; }
            "--prefix" => { prefix = v(i + 1); i += 1; }
            "--pin" => { let s = v(i + 1); let (k, x) = s.rsplit_once('=').unwrap(); cfg.pins.insert(k.into(), x.parse().unwrap()); i += 1; }
            "--also" => { files.push(v(i + 1)); i += 1; }
            "--deep" => cfg.deep = true,
            "--trace" => cfg.trace = true,
            "--verbose" => cfg.verbose = true,
            _ => usage(),
        }
        i += 1;
    }
    let t0 = std::time::Instant::now();
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&files)));
    let load_s = t0.elapsed().as_secs_f64();
    let Some(entry) = m.find_func(&a[2]) else { eprintln!("symx: no function {}", a[2]); return 3 };
    std::fs::create_dir_all(&cfg.out).unwrap();
    for f in std::fs::read_dir(&cfg.out).unwrap() {
        let p = f.unwrap().path();
        if p.extension().is_some_and(|e| e == "part" || e == "json") { let _ = std::fs::remove_file(p); }
    }
    let sh: &'static Shared = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(p as *const Shared)
    };
    unsafe { libc::prctl(libc::PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0); }
    sh.active.store(1, SeqCst);
    sh.procs.store(1, SeqCst);
    let out = cfg.out.clone();
    let mut x = Exec::new(m, cfg, sh);
    let st = x.initial(entry);
    x.work.push(st);
    x.run_all();
    // results of this process
    let mut part = String::new();
    for v in &x.found { writeln!(part, "V {v}").unwrap(); }
    for v in &x.errors { writeln!(part, "E {v}").unwrap(); }
    for v in &x.samples { writeln!(part, "S {v}").unwrap(); }
    for (k, n) in &x.reached { writeln!(part, "R {n} {k}").unwrap(); }
    for f in &x.fn_seen {
        let fu = m.func(*f);
        let h = fu.hit.borrow();
        let bs: Vec<String> = h.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| i.to_string()).collect();
        writeln!(part, "H {f} {}", bs.join(" ")).unwrap();
    }
    std::fs::write(format!("{out}/{}.part", std::process::id()), part).unwrap();
    sh.active.fetch_sub(1, SeqCst);
    let mut bad = 0;
    if !x.is_root {
        // children of a child are reaped by the root
        unsafe { libc::_exit(0) }
    }
    loop {
        let mut s = 0;
        let r = unsafe { libc::waitpid(-1, &mut s, 0) };
        if r < 0 { break; }
        if s != 0 { bad += 1; eprintln!("symx: worker {r} ended with status {s:#x}"); }
    }
    let mut vs = vec![];
    let mut es = vec![];
    let mut ss = vec![];
    let mut reached: BTreeMap<String, u64> = BTreeMap::new();
    let mut hits: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();
    for f in std::fs::read_dir(&out).unwrap() {
        let p = f.unwrap().path();
        if p.extension().is_none_or(|e| e != "part") { continue; }
        for l in std::fs::read_to_string(&p).unwrap().lines() {
            let (k, r) = l.split_at(2);
            match k {
                "V " => vs.push(r.to_string()),
                "E " => es.push(r.to_string()),
                "S " => if ss.len() < 5 { ss.push(r.to_string()) },
                "R " => { let (n, k) = r.split_once(' ').unwrap(); *reached.entry(k.into()).or_insert(0) += n.parse::<u64>().unwrap(); }
                "H " => {
                    let mut it = r.split(' ');
                    let f: u32 = it.next().unwrap().parse().unwrap();
                    hits.entry(f).or_default().extend(it.filter(|s| !s.is_empty()).map(|s| s.parse::<u32>().unwrap()));
                }
                _ => {}
            }
        }
        let _ = std::fs::remove_file(&p);
    }
    let cv = cov::covered(m, &hits, &prefix);
    let g = |a: &std::sync::atomic::AtomicU64| a.load(SeqCst);
    let mut j = String::from("{");
    write!(j, "\"entry\":{},\"z3\":{},\"load_s\":{load_s:.2},\"wall_s\":{:.2},", js(&a[2]), js(&z3::version()), t0.elapsed().as_secs_f64()).unwrap();
    write!(j, "\"paths\":{},\"infeasible\":{},\"forks\":{},\"steps\":{},\"violations\":{},\"errors\":{},\"abandoned\":{},\"stop\":{},\"workers\":{},\"dead_workers\":{bad},\"max_ops\":{},",
        g(&sh.paths), g(&sh.infeasible), g(&sh.forks), g(&sh.steps), g(&sh.violations), g(&sh.errors), g(&sh.timeouts), g(&sh.stop), g(&sh.procs), g(&sh.max_ops)).unwrap();
    write!(j, "\"queries\":{},\"cached\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"slowest_s\":{:.3},", g(&sh.queries), g(&sh.cached), g(&sh.sat), g(&sh.unsat), g(&sh.nanos) as f64 / 1e9, g(&sh.slowest) as f64 / 1e9).unwrap();
    write!(j, "\"ir_functions\":{},", hits.len()).unwrap();
    write!(j, "\"reached\":{{{}}},", reached.iter().map(|(k, n)| format!("{}:{n}", js(k))).collect::<Vec<_>>().join(",")).unwrap();
    write!(j, "\"functions\":{{{}}},", cv.iter().map(|(f, fs)| format!("{}:{{{}}}", js(f), fs.iter().map(|(n, l)| format!("{}:{}", js(n), l.len())).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")).unwrap();
    write!(j, "\"violation_list\":[{}],\"error_list\":[{}],\"samples\":[{}]}}", vs.join(","), es.join(","), ss.join(",")).unwrap();
    std::fs::write(format!("{out}/result.json"), j).unwrap();
    if !vs.is_empty() { 1 } else if !es.is_empty() || bad > 0 { 3 } else if g(&sh.timeouts) > 0 { 4 } else { 0 }
}
