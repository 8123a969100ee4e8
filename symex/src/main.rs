mod exec;
mod expr;
mod ir;
mod lia;
mod smt;
use exec::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::time::{Duration, Instant};

extern "C" {
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o.push('"');
    o
}
fn jmap(m: &BTreeMap<String, u64>) -> String { format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")) }

fn report(x: &Exec, wall: f64) -> String {
    let st = &x.st;
    let mut files: BTreeMap<String, BTreeMap<String, std::collections::BTreeSet<u32>>> = BTreeMap::new();
    for d in &x.cov { for (f, l, n) in x.m.loc(*d) { if f.contains("/repo/") { files.entry(f).or_default().entry(n).or_default().insert(l); } } }
    let fs: Vec<String> = files.iter().map(|(f, m)| format!("{}:{{{}}}", js(f), m.iter().map(|(n, l)| format!("{}:[{}]", js(n), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","))).collect();
    format!("{{\"paths\":{},\"forks\":{},\"instrs\":{},\"props\":{},\"props_trivial\":{},\"field_ops\":{},\"generic\":{},\"polynomials\":{},\"merged\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"hard\":{},\"wall_s\":{:.3},\"errors\":{},\"aborts\":{},\"reached\":[{}],\"nviol\":{},\"violations\":[{}],\"recs\":[{}],\"covered\":{{{}}}}}\n",
        jmap(&st.paths), st.forks, st.instrs, st.props, st.props_trivial, st.field_ops, st.generic, x.d.polys.len(), x.d.merged, x.s.queries, x.s.sat, x.s.unsat, x.s.time, x.s.max_time, x.s.hard, wall,
        jmap(&st.errors), jmap(&st.aborts), st.reached.iter().map(|r| js(r)).collect::<Vec<_>>().join(","), jmap(&st.nviol),
        st.violations.iter().map(|v| format!("{{\"msg\":{},\"kind\":\"{}\",\"input\":\"{}\"}}", js(&v.msg), v.kind, v.input)).collect::<Vec<_>>().join(","),
        st.recs.iter().map(|r| format!("[\"{}\",\"{}\",\"{:016x}\"]", r.outcome, r.input, r.hash)).collect::<Vec<_>>().join(","),
        fs.join(","))
}

fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: &str| -> String { a.iter().position(|x| x == k).map_or(d.to_string(), |i| a[i + 1].clone()) };
    let (file, name) = (&a[1], &a[2]);
    let out = opt("--out", "/dev/stdout");
    let jobs: usize = opt("--jobs", "1").parse().unwrap();
    let solver = opt("--solver", "z3");
    let qt: u64 = opt("--query-timeout", "120").parse::<u64>().unwrap() * 1000;
    let secs: f64 = opt("--time", "600").parse().unwrap();
    let t0 = Instant::now();
    let m = ir::Module::load(file);
    let cfg = Cfg { max_paths: opt("--max-paths", "1000000").parse().unwrap(), deadline: t0 + Duration::from_secs_f64(secs), max_instrs: opt("--max-instrs", "2000000000").parse().unwrap(), max_recs: opt("--max-recs", "64").parse().unwrap(), trace: false, enum_limit: opt("--enum", "300").parse().unwrap() };
    let mut x = Exec::new(m, smt::Solver::new(&solver, qt), cfg);
    if let Err(e) = x.start(name) { eprintln!("{}", e); std::process::exit(3); }
    if jobs > 1 {
        let c = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const std::sync::atomic::AtomicUsize };
        unsafe { (*c).store(jobs - 1, std::sync::atomic::Ordering::SeqCst); }
        x.workers = Some(Workers { free: c, next: unsafe { c.add(8) }, kids: vec![], id: 0 });
    }
    x.run();
    if let Some(w) = x.workers.take() {
        unsafe { (*w.free).fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
        let mut bad = 0;
        let wall = t0.elapsed().as_secs_f64();
        for p in w.kids { let mut st = 0; unsafe { waitpid(p, &mut st, 0); } if st != 0 { bad += 1; } }
        if bad > 0 { *x.st.errors.entry("a worker died".into()).or_insert(0) += bad; }
        if w.id > 0 {
            std::fs::write(format!("{}.{}", out, w.id), report(&x, wall)).unwrap();
            unsafe { _exit(0) }
        }
    }
    let r = report(&x, t0.elapsed().as_secs_f64());
    let mut f = std::fs::File::create(&out).unwrap();
    f.write_all(r.as_bytes()).unwrap();
}

fn main() {
    std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap().join().unwrap();
}
