//! rsym: bounded symbolic execution of LLVM IR, path conditions and assertions decided by Z3.
mod exec; mod expr; mod ir; mod lib_model; mod solver;
use exec::*;
use std::collections::BTreeMap;
use std::ffi::c_void;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::time::Instant;

extern "C" {
    fn fork() -> i32; fn _exit(c: i32) -> !; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn getpid() -> i32;
    fn mmap(a: *mut c_void, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut c_void;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
#[repr(C)] struct Shared { slots: AtomicI64, live: AtomicI64, stop: AtomicI64, viol: AtomicI64, timeout: AtomicI64, crashed: AtomicI64, paths: AtomicU64, pending: AtomicI64 }

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } } o.push('"'); o }
fn nums(v: &[u64]) -> String { format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    let r = h.join();
    std::process::exit(match r { Ok(c) => c, Err(_) => 73 });
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    let file = a.get(1).cloned().unwrap_or_default();
    let entry = get("--entry").unwrap_or("rsym_main".into());
    let params: Vec<u64> = get("--params").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let max_steps: u64 = get("--steps").map(|s| s.parse().unwrap()).unwrap_or(5_000_000);
    let time: f64 = get("--time").map(|s| s.parse().unwrap()).unwrap_or(600.0);
    let jobs: i64 = get("--jobs").map(|s| s.parse().unwrap()).unwrap_or(8);
    let out = get("--out");
    let max_viol: u64 = get("--max-viol").map(|s| s.parse().unwrap()).unwrap_or(3);
    let samples: usize = get("--samples").map(|s| s.parse().unwrap()).unwrap_or(12);
    let every: u64 = get("--sample-every").map(|s| s.parse().unwrap()).unwrap_or(97);
    let t0 = Instant::now();
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&file)));
    if std::env::var("RSYM_PARSE_ALL").is_ok() { let mut n = 0; for i in 0..m.fns.len() { if m.fns[i].body.is_some() { let f = m.func(i as u32); for b in &f.blocks { for x in &b.insts { if let ir::Inst::Unsupported(s) = x { println!("unsupported: {} in {}", s, f.name); } } } n += 1; } } println!("parsed {} functions in {:?}", n, t0.elapsed()); return 0; }
    let load_s = t0.elapsed().as_secs_f64();
    let sh: &'static Shared = unsafe { let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0); &*(p as *const Shared) };
    sh.slots.store(jobs - 1, SeqCst); sh.live.store(1, SeqCst);
    let tmp = out.clone().map(|o| format!("{}.part", o)).unwrap_or(format!("/tmp/rsym.{}", unsafe { getpid() }));
    let mut ex = Exec::new(m, Cfg { params, max_steps, sample_every: every, max_samples: samples, max_viol }, 20_000);
    if std::env::var("RSYM_DUMP").is_ok() { let f = m.func(m.fn_by_name[entry.as_str()]); for (i, b) in f.blocks.iter().enumerate() { println!("block {}", i); for x in &b.insts { println!("   {:?}", x); } } return 0; }
    if let Err(e) = ex.start(&entry) { eprintln!("rsym: {}", e); return 72; }
    let root = unsafe { getpid() };
    let mut kids: Vec<i32> = vec![];
    let mut first = true;
    let mut poll = |ex: &mut Exec<'static>| -> bool {
        if sh.stop.load(SeqCst) != 0 { return false; }
        if t0.elapsed().as_secs_f64() > time { sh.timeout.store(1, SeqCst); sh.stop.store(1, SeqCst); return false; }
        if ex.work.len() >= 2 && sh.slots.load(SeqCst) > 0 {
            if sh.slots.fetch_sub(1, SeqCst) > 0 {
                sh.live.fetch_add(1, SeqCst);
                let pid = unsafe { fork() };
                if pid == 0 {
                    unsafe { prctl(1, 9, 0, 0, 0); }
                    let keep = (ex.work.len() + 1) / 2;
                    // the child takes the states closest to the root, and abandons the parent's current path
                    ex.work.truncate(keep);
                    ex.stats = Stats::default();
                    let s = &mut ex.solver; s.queries = 0; s.hits = 0; s.sat = 0; s.unsat = 0; s.unknown = 0; s.time = 0.0; s.hard = 0;
                    for f in &m.fns { f.hits.set(0); }
                    ex.prof.clear(); SEEN.store(0, SeqCst);
                    CHILD.store(1, SeqCst);
                    return false;
                }
                if pid > 0 { let keep = (ex.work.len() + 1) / 2; ex.work.drain(..keep); unsafe { KIDS.push(pid); } }
                else { sh.live.fetch_sub(1, SeqCst); sh.slots.fetch_add(1, SeqCst); }
            } else { sh.slots.fetch_add(1, SeqCst); }
        }
        true
    };
    loop {
        if !first { match ex.work.pop() { Some(s) => ex.st = s, None => break } }
        first = false;
        let before = ex.st.steps;
        let done = ex.run_path(&mut poll);
        if !done {
            if CHILD.swap(0, SeqCst) == 1 { unsafe { KIDS.clear(); } continue; }
            break; // stopped
        }
        let total = ex.st.steps; ex.stats.insts = ex.stats.insts - total + (total - before);
        if ex.stats.nviol > 0 { let n = sh.viol.fetch_add(ex.stats.nviol as i64 - ex_viol_seen(&ex), SeqCst); let _ = n; set_seen(&ex); if sh.viol.load(SeqCst) >= ex.cfg.max_viol as i64 { sh.stop.store(1, SeqCst); } }
        if ex.stats.errors.values().sum::<u64>() > 20 { sh.stop.store(1, SeqCst); }
        if sh.stop.load(SeqCst) != 0 { break; }
    }
    kids.extend(unsafe { KIDS.iter().copied() });
    let left = ex.work.len();
    // write this process's part
    let me = unsafe { getpid() };
    let part = format!("{}.{}", tmp, me);
    let s = &ex.stats; let sv = &ex.solver;
    let mut o = String::new();
    let _ = write!(o, "{{\"paths\":{},\"infeasible\":{},\"insts\":{},\"branches\":{},\"forks\":{},\"asserts\":{},\"assert_q\":{},\"left\":{},\"max_steps\":{},\"max_pc\":{},\"max_depth\":{},\"queries\":{},\"hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"hard\":{},\"solver_s\":{:.3},\"nviol\":{},", s.paths, s.infeasible, s.insts, s.branches, s.forks, s.asserts, s.assert_q, left, s.max_steps, s.max_pc, s.max_depth, sv.queries, sv.hits, sv.sat, sv.unsat, sv.unknown, sv.hard, sv.time, s.nviol);
    let _ = write!(o, "\"reach\":{{{}}},", s.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"errors\":{{{}}},", s.errors.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"viol\":[{}],", s.viol.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"loc\":{},\"steps\":{},\"stack\":[{}],\"tape\":{}}}", js(&v.kind), js(&v.msg), js(&v.loc), v.steps, v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), nums(&v.tape))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"samples\":[{}],", s.samples.iter().map(|v| format!("{{\"outcome\":{},\"steps\":{},\"tape\":{},\"trace\":{}}}", js(&v.outcome), v.steps, nums(&v.tape), nums(&v.trace))).collect::<Vec<_>>().join(","));
    let fns: Vec<String> = m.fns.iter().filter(|f| f.hits.get() > 0).map(|f| format!("{}:{}", js(&f.name), f.hits.get())).collect();
    let _ = write!(o, "\"fns\":{{{}}}}}", fns.join(","));
    std::fs::write(&part, o).ok();
    if ex.profile { let mut v: Vec<_> = ex.prof.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(*x.1)); for ((f, b), n) in v.iter().take(15) { eprintln!("[fork {}] {} block {}", n, m.fns[*f as usize].name, b); } let mut h: Vec<_> = m.fns.iter().filter(|f| f.hits.get() > 0).collect(); h.sort_by_key(|f| std::cmp::Reverse(f.hits.get())); for f in h.iter().take(25) { eprintln!("[call {}] {}", f.hits.get(), f.name); } }
    sh.slots.fetch_add(1, SeqCst);
    // a process stays until its own children are done, so that the root's exit means everything is done
    let mut bad = 0;
    for k in &kids { let mut st = 0; unsafe { waitpid(*k, &mut st, 0); } if st != 0 { bad += 1; } }
    if bad > 0 { sh.crashed.fetch_add(bad, SeqCst); }
    if me != root { unsafe { _exit(0) } }
    // merge
    let dir = std::path::Path::new(&tmp).parent().unwrap().to_path_buf();
    let pre = std::path::Path::new(&tmp).file_name().unwrap().to_str().unwrap().to_string() + ".";
    let mut parts = vec![];
    for e in std::fs::read_dir(if dir.as_os_str().is_empty() { std::path::Path::new(".") } else { &dir }).unwrap().flatten() { let n = e.file_name().into_string().unwrap(); if n.starts_with(&pre) { parts.push(std::fs::read_to_string(e.path()).unwrap_or_default()); std::fs::remove_file(e.path()).ok(); } }
    let res = format!("{{\"entry\":{},\"wall_s\":{:.3},\"load_s\":{:.3},\"timeout\":{},\"crashed\":{},\"stopped\":{},\"functions_in_ir\":{},\"parts\":[{}]}}\n", js(&entry), t0.elapsed().as_secs_f64(), load_s, sh.timeout.load(SeqCst), sh.crashed.load(SeqCst), sh.stop.load(SeqCst), m.fns.iter().filter(|f| f.body.is_some()).count(), parts.join(","));
    match out { Some(f) => { std::fs::write(f, res).unwrap(); } None => print!("{}", res) }
    let _ = BTreeMap::<u32, u32>::new();
    0
}
static CHILD: AtomicI64 = AtomicI64::new(0);
static mut KIDS: Vec<i32> = vec![];
static SEEN: AtomicI64 = AtomicI64::new(0);
fn ex_viol_seen(_e: &Exec) -> i64 { SEEN.load(SeqCst) }
fn set_seen(e: &Exec) { SEEN.store(e.stats.nviol as i64, SeqCst); }
