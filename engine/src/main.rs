mod dom; mod exec; mod expr; mod ir; mod mem; mod smt;
use exec::*;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}
fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } } o.push('"'); o }
fn arr<T: std::fmt::Display>(v: &[T]) -> String { format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }

fn dump(e: &Engine, path: &str, wall: f64) {
    let mut o = String::from("{");
    let s = &e.st;
    let _ = write!(o, "\"paths\":{},\"pruned\":{},\"steps\":{},\"forks\":{},\"asserts\":{},\"discharged_const\":{},\"discharged_fd\":{},\"discharged_smt\":{},\"assignments\":{},\"max_forks\":{},\"undecided\":{},\"infeasible_dropped\":{},", s.paths, s.pruned, s.steps, s.forks, s.asserts, s.discharged_const, s.discharged_fd, s.discharged_smt, s.assignments, s.max_forks, s.undecided, s.infeasible_dropped);
    let _ = write!(o, "\"fd_queries\":{},\"fd_time\":{},\"fd_evals\":{},\"smt_queries\":{},\"smt_unsat\":{},\"smt_unknown\":{},\"smt_time\":{},\"exprs\":{},\"wall\":{},", e.cx.fd_queries, e.cx.fd_time, e.cx.evals, e.cx.smt.queries, e.cx.smt.unsat, e.cx.smt.unknown, e.cx.smt.time, e.ex.nodes.len(), wall);
    let _ = write!(o, "\"assert_sites\":{{{}}},", s.assert_sites.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"covered\":{{{}}},", s.covered.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let mut fns: Vec<String> = e.fn_used.iter().map(|i| js(&e.m.fns[*i as usize].name)).collect(); fns.sort();
    let _ = write!(o, "\"functions\":[{}],", fns.join(","));
    let _ = write!(o, "\"errors\":[{}],", e.errors.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"inputs\":[{}],", e.ex.vars.iter().filter(|v| !v.undef).map(|v| format!("[{},{}]", js(&v.name), v.w)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"violations\":[{}],", e.viol.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"inputs\":{},\"trace\":[{}]}}", js(&v.kind), js(&v.msg), arr(&v.inputs), v.trace.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"samples\":[{}]", e.samples.iter().map(|v| format!("{{\"inputs\":{},\"obs\":{}}}", arr(&v.inputs), arr(&v.obs))).collect::<Vec<_>>().join(","));
    o.push('}');
    std::fs::write(path, o).expect("cannot write result");
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| -> Option<String> { args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned()) };
    let irp = opt("--ir").expect("--ir");
    let h = opt("--harness").expect("--harness");
    let out = opt("--out").expect("--out");
    let jobs: usize = opt("--jobs").map_or(8, |x| x.parse().unwrap());
    let secs: f64 = opt("--time").map_or(600., |x| x.parse().unwrap());
    let limit: usize = opt("--limit").map_or(1 << 16, |x| x.parse().unwrap());
    let params: Vec<u64> = opt("--params").map_or(vec![], |x| x.split(',').filter(|y| !y.is_empty()).map(|y| y.parse().unwrap()).collect());
    let solver = opt("--solver").unwrap_or("z3-new -in".into());
    let smt_ms: u64 = opt("--smt-ms").map_or(20000, |x| x.parse().unwrap());
    let t0 = Instant::now();
    let m = ir::Module::load(&irp);
    let cfg = Cfg { max_steps: opt("--max-steps").map_or(2_000_000_000, |x| x.parse().unwrap()), max_ptr: 1024, smt_assert: !args.iter().any(|a| a == "--no-smt-assert"), samples: opt("--samples").map_or(8, |x| x.parse().unwrap()), params, deadline: t0 + Duration::from_secs_f64(secs), max_viol: opt("--max-viol").map_or(4, |x| x.parse().unwrap()) };
    let mut sm = smt::Smt::new(&solver, smt_ms);
    sm.dump = opt("--dump");
    let cx = dom::DomCtx { limit, smt: sm, fd_queries: 0, fd_time: 0., cache_cap: opt("--cache-cap").map_or(4096, |x| x.parse().unwrap()), evals: 0 };
    let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut AtomicU64 };
    let (active, next_id, found) = unsafe { (&*shared, &*shared.add(1), &*shared.add(2)) };
    active.store(1, SeqCst);
    next_id.store(1, SeqCst);
    let mut e = Engine::new(m, cfg, cx, Split { jobs: jobs as u64, active, next_id, found, id: 0, kids: vec![], last: t0 });
    e.start(&h);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        while let Some(s) = e.work.pop() {
            if e.viol.is_empty() && Instant::now() > e.cfg.deadline { e.errors.push("time budget exhausted".into()); break; }
            e.run(s);
            if e.viol.len() >= e.cfg.max_viol { found.fetch_add(1, SeqCst); }
            if found.load(SeqCst) > 0 { break; }
        }
    }));
    if r.is_err() { e.errors.push("engine panic".into()); }
    dump(&e, &format!("{}.{}", out, e.split.id), t0.elapsed().as_secs_f64());
    active.fetch_sub(1, SeqCst);
    drop(std::mem::replace(&mut e.cx.smt, smt::Smt::new(&solver, 1)));
    for p in &e.split.kids { let mut st = 0; unsafe { waitpid(*p, &mut st, 0); } if st != 0 { eprintln!("worker died: status {}", st); std::fs::write(format!("{}.died", out), format!("{}", st)).ok(); } }
    if e.split.id > 0 { unsafe { _exit(0) } }
    let n = next_id.load(SeqCst);
    println!("workers={} wall={:.2}", n, t0.elapsed().as_secs_f64());
    std::process::exit(0);
}
