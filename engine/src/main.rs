#![allow(dead_code)]
mod exec;
mod expr;
mod ll;
mod mem;
mod z3;
use exec::*;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

static mut DEADLINE: Option<Instant> = None;
pub fn timed_out() -> bool {
    unsafe { if let Some(d) = *(&raw const DEADLINE) { if Instant::now() > d { return true; } } }
    let s = shared();
    s.stop.load(Ordering::Relaxed) != 0
}
#[repr(C)]
pub struct Shared { active: AtomicU64, max: AtomicU64, stop: AtomicU64, viol: AtomicU64, next: AtomicU64, paths: AtomicU64 }
static mut SHARED: *mut Shared = std::ptr::null_mut();
fn shared() -> &'static Shared { unsafe { &*SHARED } }

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn getpid() -> i32;
}

fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c { '"' => r += "\\\"", '\\' => r += "\\\\", '\n' => r += "\\n", c if (c as u32) < 32 => r += &format!("\\u{:04x}", c as u32), c => r.push(c) }
    }
    r + "\""
}
fn ins(v: &[(u16, u64)]) -> String { format!("[{}]", v.iter().map(|(w, x)| format!("[{},{}]", w, x)).collect::<Vec<_>>().join(",")) }

fn result(x: &Exec) -> String {
    let mut s = String::from("{");
    s += &format!("\"paths\":{},\"killed\":{},\"steps\":{},\"forks\":{},\"queries\":{},\"solver_ms\":{},\"solver_max_ms\":{},\"solver_unknown\":{},\"arith_queries\":{},\"branch_decisions\":{},\"checks\":{},\"violating_paths\":{},\"max_call_depth\":{},\"max_path_steps\":{},\"expr_nodes\":{}", x.paths, x.killed, x.steps, x.nforks, x.z.queries, x.z.time.as_millis(), x.z.max_ms, x.z.unknown, x.z.arith_queries, x.decided_by_solver, x.checks, x.nviol, x.maxdepth, x.maxpathsteps, x.p.n.len());
    s += ",\"violations\":[";
    s += &x.violations.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"loc\":{},\"count\":{},\"inputs\":{}}}", esc(&v.kind), esc(&v.msg), esc(&v.loc), v.count, ins(&v.inputs))).collect::<Vec<_>>().join(",");
    s += "],\"incomplete\":{";
    s += &x.incomplete.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
    s += "},\"reach\":{";
    s += &x.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",");
    s += "},\"panics\":{";
    s += &x.panics.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
    s += "},\"samples\":[";
    s += &x.samples.iter().map(|v| format!("{{\"inputs\":{},\"outs\":\"{:016x}\",\"nouts\":{},\"steps\":{}}}", ins(&v.inputs), v.outs, v.nouts, v.steps)).collect::<Vec<_>>().join(",");
    s += "],\"functions\":[";
    s += &x.executed.iter().enumerate().filter(|(_, &n)| n > 0).map(|(i, n)| format!("[{},{}]", esc(&x.m.funcs[i].name), n)).collect::<Vec<_>>().join(",");
    s += "]}";
    s
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut o = Opts { params: vec![], max_steps: 400_000_000, max_viol: 400, rlimit: 60_000_000, seed: 1, samples: 8, trace: false };
    let mut timeout = 600;
    let mut jobs = 1u64;
    let mut i = 1;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--ll" => ll = v,
            "--entry" => entry = v,
            "-p" => o.params = v.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--out" => out = v,
            "--max-steps" => o.max_steps = v.parse().unwrap(),
            "--max-viol" => o.max_viol = v.parse().unwrap(),
            "--timeout" => timeout = v.parse().unwrap(),
            "--rlimit" => o.rlimit = v.parse().unwrap(),
            "--seed" => o.seed = v.parse().unwrap(),
            "--samples" => o.samples = v.parse().unwrap(),
            "-j" => jobs = v.parse().unwrap(),
            "--trace" => { o.trace = true; i += 1; continue; }
            x => { eprintln!("symx: unknown option {}", x); return 2; }
        }
        i += 2;
    }
    let t0 = Instant::now();
    unsafe {
        DEADLINE = Some(t0 + Duration::from_secs(timeout));
        SHARED = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut Shared;
    }
    let sh = shared();
    sh.max.store(jobs, Ordering::SeqCst);
    sh.active.store(1, Ordering::SeqCst);
    let m = ll::Module::load(&ll);
    let tl = t0.elapsed();
    let mut x = Exec::new(&m, o);
    if let Err(e) = x.start(&entry) { eprintln!("symx: {}", e); return 2; }
    let mut kids: Vec<(i32, String)> = vec![];
    let mut myout = out.clone();
    let mut root = true;
    loop {
        let s = x.run_path();
        let is_v = matches!(s, Stop::Violation(..));
        x.finish(s);
        sh.paths.fetch_add(1, Ordering::Relaxed);
        if is_v && sh.viol.fetch_add(1, Ordering::SeqCst) + 1 >= x.o.max_viol { sh.stop.store(1, Ordering::SeqCst); }
        if sh.stop.load(Ordering::Relaxed) != 0 {
            let n = x.work.len() as u64;
            if n > 0 { *x.incomplete.entry("stopped after the violation limit".into()).or_insert(0) += n; }
            break;
        }
        // give the oldest pending state to another process when there is room
        while x.work.len() >= 2 {
            let cur = sh.active.load(Ordering::SeqCst);
            if cur >= sh.max.load(Ordering::SeqCst) { break; }
            if sh.active.compare_exchange(cur, cur + 1, Ordering::SeqCst, Ordering::SeqCst).is_err() { continue; }
            let id = sh.next.fetch_add(1, Ordering::SeqCst);
            let f = format!("{}.{}", out, id);
            let pid = unsafe { fork() };
            if pid < 0 { sh.active.fetch_sub(1, Ordering::SeqCst); break; }
            if pid == 0 {
                let st = x.work.remove(0);
                x.work = vec![st];
                x.paths = 0; x.killed = 0; x.steps = 0; x.nforks = 0; x.nviol = 0; x.decided_by_solver = 0; x.checks = 0;
                x.violations.clear(); x.incomplete.clear(); x.samples.clear(); x.reach.clear(); x.panics.clear();
                for e in x.executed.iter_mut() { *e = 0; }
                x.z.queries = 0; x.z.time = Duration::ZERO; x.z.unknown = 0; x.z.arith_queries = 0; x.z.max_ms = 0;
                kids.clear();
                myout = f;
                root = false;
                break;
            }
            x.work.remove(0);
            kids.push((pid, f));
        }
        match x.work.pop() { Some(st) => { x.st = st; x.st.mem.flush(); } None => break }
        if timed_out() && sh.stop.load(Ordering::Relaxed) == 0 { *x.incomplete.entry("time limit".into()).or_insert(0) += 1 + x.work.len() as u64; break; }
    }
    sh.active.fetch_sub(1, Ordering::SeqCst);
    let mut parts = vec![result(&x)];
    let mut bad = 0;
    for (pid, f) in kids {
        let mut st = 0;
        unsafe { waitpid(pid, &mut st, 0); }
        match std::fs::read_to_string(&f) { Ok(s) if st == 0 => parts.push(s), _ => bad += 1 }
        let _ = std::fs::remove_file(&f);
    }
    if bad > 0 { parts.push(format!("{{\"incomplete\":{{\"worker process lost\":{}}}}}", bad)); }
    let body = parts.join("\n");
    if root {
        let mut f = std::fs::File::create(&out).unwrap();
        writeln!(f, "{{\"load_ms\":{},\"wall_ms\":{},\"z3\":{}}}", tl.as_millis(), t0.elapsed().as_millis(), esc(&z3::Z3::version())).unwrap();
        writeln!(f, "{}", body).unwrap();
        0
    } else {
        std::fs::write(&myout, body).unwrap();
        unsafe { let _ = getpid(); _exit(0) }
    }
}
fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    std::process::exit(h.join().unwrap_or(3));
}
