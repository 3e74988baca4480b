mod exec;
mod ir;
mod solver;
mod term;
use exec::*;
use std::fmt::Write as _;
use std::io::Write as _;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}
fn nums(v: &[u128]) -> String { format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }

fn report(e: &Eng) -> String {
    let mut o = String::from("{");
    let s = &e.st;
    let q = &e.so.st;
    let _ = write!(o, "\"paths\":{},\"instrs\":{},\"forks\":{},\"checks\":{},\"checks_sym\":{},\"assumed_out\":{},\"panics_ok\":{},\"concretized\":{},\"max_vars\":{},\"max_path_steps\":{}", s.paths, s.instrs, s.forks, s.checks, s.checks_sym, s.assumed_out, s.panics_ok, s.concretized, s.max_vars, s.max_path_steps);
    let _ = write!(o, ",\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_s\":{:.3}", q.queries, q.sat, q.unsat, q.unknown, q.cache_hits, q.secs);
    let _ = write!(o, ",\"timed_out\":{}", e.timed_out);
    let _ = write!(o, ",\"errors\":[{}]", uniq(e.errors.clone()).iter().take(20).map(|x| js(x)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"violations\":[{}]", e.viol.iter().map(|v| format!("{{\"tag\":{},\"detail\":{},\"stack\":{},\"inputs\":{}}}", js(&v.tag), js(&v.detail), js(&v.stack), nums(&v.inputs))).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"samples\":[{}]", e.samples.iter().map(|v| format!("{{\"inputs\":{},\"obs\":{},\"end\":{}}}", nums(&v.inputs), nums(&v.obs), js(&v.end))).collect::<Vec<_>>().join(","));
    let mut tg: Vec<_> = e.tags.iter().collect();
    tg.sort();
    let _ = write!(o, ",\"tags\":{{{}}}", tg.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(","));
    let mut en: Vec<_> = e.ends.iter().collect();
    en.sort();
    let _ = write!(o, ",\"ends\":{{{}}}", en.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let mut fs = vec![];
    for (i, f) in e.m.funcs.iter().enumerate() {
        let n = e.covered[i].iter().filter(|x| **x).count();
        if n > 0 { fs.push(format!("[{},{},{}]", js(&pretty(&f.name)), n, f.blocks.len())); }
    }
    let _ = write!(o, ",\"functions\":[{}]", fs.join(","));
    o.push('}');
    o
}

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: &str| -> String { args.iter().position(|a| a == k).map(|i| args[i + 1].clone()).unwrap_or(d.to_string()) };
    let irf = &args[1];
    let entry = opt("--entry", "harness_main");
    let jobs: usize = opt("--jobs", "8").parse().unwrap();
    let max_time: f64 = opt("--max-time", "600").parse().unwrap();
    let max_steps: u64 = opt("--max-steps", "20000000").parse().unwrap();
    let samples: usize = opt("--samples", "4").parse().unwrap();
    let per_tag: usize = opt("--per-tag", "2").parse().unwrap();
    let outp = opt("--out", "/dev/stdout");
    let frontier: usize = opt("--frontier", "1500").parse().unwrap();
    let tmo: u32 = opt("--solver-timeout-ms", "60000").parse().unwrap();
    let trace = args.iter().any(|a| a == "--trace");
    let dump = opt("--dump", "");
    let t0 = Instant::now();
    let text = std::fs::read_to_string(irf).expect("read IR");
    let m = ir::Parser::parse(&text);
    drop(text);
    let tp = t0.elapsed().as_secs_f64();
    let cfg = Cfg { max_steps, deadline: t0 + Duration::from_secs_f64(max_time), samples, max_per_tag: per_tag, timeout_ms: tmo, trace };
    let mut e = Eng::new(m, cfg);
    if !dump.is_empty() { e.so.dump_dir = Some(dump); e.so.dump_max = opt("--dump-max", "200").parse().unwrap(); }
    let st = e.initial(&entry);
    let mut q = std::collections::VecDeque::new();
    q.push_back(st);
    let mut ext = vec![];
    // breadth first until the frontier is wide enough (or a little time has passed)
    while let Some(s) = q.pop_front() {
        e.run(s, &mut ext);
        for x in ext.drain(..) { q.push_back(x); }
        if e.timed_out || e.viol.len() > 40 { break; }
        if jobs > 1 && (q.len() >= frontier || (q.len() >= 4 * jobs && t0.elapsed().as_secs_f64() > tp + 4.0)) { break; }
    }
    let mut parts = vec![report(&e)];
    if !q.is_empty() && !e.timed_out {
        // workers
        let states: Vec<State> = q.into_iter().collect();
        let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const std::sync::atomic::AtomicUsize;
        let ctr = unsafe { &*shared };
        let dir = format!("{}/symll-{}", std::env::var("SYMLL_TMP").unwrap_or("/tmp".into()), std::process::id());
        let _ = std::fs::create_dir_all(&dir);
        let mut pids = vec![];
        for w in 0..jobs {
            let pid = unsafe { fork() };
            if pid == 0 {
                unsafe { prctl(1, 9, 0, 0, 0); }
                e.st = Stats::default(); e.so.st = Default::default(); e.viol.clear(); e.samples.clear(); e.errors.clear(); e.tags.clear(); e.ends.clear();
                let n = states.len();
                let mut stack: Vec<State> = vec![];
                loop {
                    let i = ctr.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= n || e.timed_out { break; }
                    stack.push(states[i].clone());
                    while let Some(s) = stack.pop() {
                        e.run(s, &mut stack);
                        if e.timed_out || e.viol.len() > 40 { break; }
                    }
                    if e.timed_out || e.viol.len() > 40 { break; }
                }
                let r = report(&e);
                let _ = std::fs::write(format!("{}/{}", dir, w), r);
                unsafe { _exit(0) }
            }
            pids.push(pid);
        }
        for (w, p) in pids.iter().enumerate() {
            let mut s = 0;
            unsafe { waitpid(*p, &mut s, 0); }
            match std::fs::read_to_string(format!("{}/{}", dir, w)) { Ok(r) if s == 0 => parts.push(r), _ => parts.push("{\"errors\":[\"worker died\"]}".into()) }
        }
        let _ = std::fs::remove_dir_all(&dir);
    }
    let out = format!("{{\"entry\":{},\"z3\":{},\"parse_s\":{:.2},\"wall_s\":{:.2},\"parts\":[{}]}}\n", js(&entry), js(&solver::Solver::version()), tp, t0.elapsed().as_secs_f64(), parts.join(",\n"));
    let mut f = std::fs::File::create(outp).unwrap();
    f.write_all(out.as_bytes()).unwrap();
}

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    if h.join().is_err() { std::process::exit(4); }
}
