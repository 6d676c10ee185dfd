//! llsym: bounded symbolic execution of LLVM IR with Z3.
mod exec;
mod expr;
mod ir;
mod mem;
mod z3;

use exec::*;
use expr::*;
use std::collections::VecDeque;
use std::io::Write;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// readable form of a v0-mangled name (identifiers only)
pub fn demangle(n: &str) -> String {
    let b = n.as_bytes();
    if !n.starts_with("_R") { return n.to_string(); }
    let mut i = 2;
    let mut out: Vec<&str> = vec![];
    while i < b.len() {
        let c = b[i];
        if c == b's' || c == b'B' {
            while i < b.len() && b[i] != b'_' { i += 1; }
            i += 1;
        } else if c.is_ascii_digit() {
            let mut k = 0usize;
            while i < b.len() && b[i].is_ascii_digit() { k = k * 10 + (b[i] - b'0') as usize; i += 1; }
            if i < b.len() && b[i] == b'_' { i += 1; }
            if i + k > b.len() { break; }
            if k > 0 { out.push(&n[i..i + k]); }
            i += k;
        } else { i += 1; }
    }
    out.join("::")
}

struct Job {
    name: String,
    harness: u32,
    parts: Vec<Vec<Result<u8, Mask>>>,
}

enum Work {
    Job(usize),
    Donated { job: usize, model: Vec<u8>, ndec: u32, hash: u64, skip: u32 },
}

struct Queue {
    q: Mutex<(VecDeque<Work>, usize, bool)>, // work, idle workers, finished
    cv: Condvar,
    n: usize,
}

impl Queue {
    fn pop(&self) -> Option<Work> {
        let mut g = self.q.lock().unwrap();
        loop {
            if let Some(w) = g.0.pop_front() { return Some(w); }
            if g.2 { return None; }
            g.1 += 1;
            if g.1 == self.n { g.2 = true; self.cv.notify_all(); return None; }
            g = self.cv.wait(g).unwrap();
            if g.2 && g.0.is_empty() { return None; }
            g.1 -= 1;
        }
    }
    fn hungry(&self) -> bool { let g = self.q.lock().unwrap(); g.1 > 0 && g.0.len() < g.1 }
    fn push(&self, w: Work) { let mut g = self.q.lock().unwrap(); g.0.push_back(w); self.cv.notify_one(); }
}

fn hex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

fn read_jobs(p: &str) -> Vec<Job> {
    let mut v: Vec<Job> = vec![];
    for l in std::fs::read_to_string(p).expect("jobs").lines() {
        let mut t = l.split(' ');
        match t.next() {
            Some("J") => { let h = t.next().unwrap().parse().unwrap(); v.push(Job { harness: h, name: t.collect::<Vec<_>>().join(" "), parts: vec![] }) }
            Some("P") => {
                let mut part = vec![];
                for s in t {
                    if let Some(h) = s.strip_prefix('x') { part.extend(hex(h).into_iter().map(Ok)); }
                    else if let Some(h) = s.strip_prefix('m') {
                        let b = hex(h); // 32 bytes, bit i of the set at byte i/8, bit i%8
                        let mut m = [0u64; 4];
                        for i in 0..256 { if b[i / 8] >> (i % 8) & 1 == 1 { m[i >> 6] |= 1 << (i & 63); } }
                        assert!(!mempty(&m));
                        part.push(if mcount(&m) == 1 { Ok(mfirst(&m)) } else { Err(m) });
                    }
                }
                v.last_mut().unwrap().parts.push(part);
            }
            _ => {}
        }
    }
    v
}

fn snapshot(ex: &mut Exec, m: &'static ir::Module) -> Result<State, String> {
    let mut st = State::new();
    for g in &m.globals {
        if !g.init.iter().all(|b| *b == 0) { st.mem.write_bytes(g.addr, &g.init).map_err(|f| format!("{:x}", f.0))?; }
    }
    if let Some(&f) = m.fidx.get("sym_warmup") {
        let cold = st.clone();
        st.enter(m.body(f), &[]);
        let e = ex.run(&mut st);
        // if it does not end normally, every path starts cold
        if e != End::Done || !ex.pending.is_empty() {
            eprintln!("warm-up: {:?}", e);
            ex.pending.clear();
            st = cold;
        }
        st.icount = 0;
        st.peak = 0;
        ex.st = Stats::default();
    }
    Ok(st)
}

fn start(ex: &mut Exec, m: &'static ir::Module, snap: &State, job: &Job) -> State {
    let mut st = snap.clone();
    let mut nv = 0u16;
    let mut parts = vec![];
    for p in &job.parts {
        let mut q = vec![];
        for b in p {
            match b {
                Ok(c) => q.push(PB::C(*c)),
                Err(m) => {
                    st.doms.push(*m);
                    st.model[nv as usize] = mfirst(m);
                    q.push(PB::V(nv));
                    nv += 1;
                }
            }
        }
        parts.push(q);
    }
    assert!((nv as usize) <= MAXV, "too many symbolic bytes");
    st.parts = Rc::new(parts);
    let f = m.body(*m.fidx.get("sym_dispatch").expect("sym_dispatch"));
    st.enter(f, &[Val::I(job.harness as u64)]);
    let _ = ex;
    st
}

fn fnv(h: u64, b: u8) -> u64 { (h ^ b as u64).wrapping_mul(0x100000001b3) }

use std::sync::atomic::Ordering::Relaxed;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let ll = opt("--ll").expect("--ll");
    let jobs = Arc::new(read_jobs(&opt("--jobs").expect("--jobs")));
    let out = opt("--out").expect("--out");
    let threads: usize = opt("--threads").map(|x| x.parse().unwrap()).unwrap_or(8);
    let dl: f64 = opt("--deadline").map(|x| x.parse().unwrap()).unwrap_or(600.0);
    let limit: u64 = opt("--limit").map(|x| x.parse().unwrap()).unwrap_or(400_000_000);
    let dump = opt("--dump");
    let grace: f64 = opt("--grace").map(|x| x.parse().unwrap()).unwrap_or(1e9);
    let maxfail: u64 = opt("--max-fail").map(|x| x.parse().unwrap()).unwrap_or(200);
    let t0 = Instant::now();
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&ll, &classify)));
    let t_load = t0.elapsed().as_secs_f64();
    let queue = Arc::new(Queue { q: Mutex::new(((0..jobs.len()).map(Work::Job).collect(), 0, false)), cv: Condvar::new(), n: threads });
    let fails = Arc::new(std::sync::atomic::AtomicU64::new(0));
    let limits = Arc::new(std::sync::atomic::AtomicU64::new(0));
    let first = Arc::new(std::sync::atomic::AtomicU64::new(u64::MAX));
    let current: Arc<Vec<std::sync::atomic::AtomicUsize>> = Arc::new((0..threads).map(|_| std::sync::atomic::AtomicUsize::new(usize::MAX)).collect());
    {
        // a thread that does not get back to the deadline check must not hold up the answer
        let (jobs, out, current) = (jobs.clone(), out.clone(), current.clone());
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_secs_f64(dl + 40.0));
            let mut f = std::fs::File::create(format!("{}/paths.w.tsv", out)).unwrap();
            for c in current.iter() {
                let j = c.load(Relaxed);
                if j != usize::MAX { let _ = writeln!(f, "{}\t{}\ttimeout\tstuck\t0\t0\t0\t", j, jobs[j].harness); }
            }
            println!("{{\"paths\":0,\"instructions\":0,\"z3_queries\":0,\"z3_seconds\":0,\"timeout\":true,\"errors\":[]}}");
            extern "C" { fn _exit(c: i32) -> !; }
            unsafe { _exit(0) } // without the destructors the other threads may still need
        });
    }
    let mut hs = vec![];
    for tid in 0..threads {
        let current = current.clone();
        let (jobs, queue, out, dump, fails, limits, first) = (jobs.clone(), queue.clone(), out.clone(), dump.clone(), fails.clone(), limits.clone(), first.clone());
        hs.push(std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
            let mut ex = Exec::new(m, 20000);
            ex.z3.tid = tid;
            ex.limit = limit;
            if let Some(d) = dump { ex.z3.dump_dir = Some(d); ex.z3.dump_every = 7; }
            ex.deadline = t0 + Duration::from_secs_f64(dl);
            let mut err: Option<String> = None;
            let snap = match snapshot(&mut ex, m) { Ok(s) => s, Err(e) => { return (ex.st, 0, 0, 0, Some(e), vec![0u64; jobs.len()], false); } };
            let mut f = std::io::LineWriter::new(std::fs::File::create(format!("{}/paths.{}.tsv", out, tid)).unwrap());
            let mut timeout = false;
            let mut per = vec![0u64; jobs.len()];
            while let Some(w) = { current[tid].store(usize::MAX, Relaxed); queue.pop() } {
                if err.is_some() || timeout { continue; }
                if ex.ar.len() > 3_000_000 { ex.reset_arena(); }
                let (ji, st) = match w {
                    Work::Job(j) => (j, start(&mut ex, m, &snap, &jobs[j])),
                    Work::Donated { job, model, ndec, hash, skip } => {
                        let mut st = start(&mut ex, m, &snap, &jobs[job]);
                        st.model.copy_from_slice(&model);
                        st.skip = skip;
                        st.expect = if ndec > 0 { Some((ndec, hash)) } else { None };
                        (job, st)
                    }
                };
                ex.pending.push(st);
                current[tid].store(ji, Relaxed);
                while let Some(mut st) = ex.pending.pop() {
                    if fails.load(Relaxed) >= maxfail || limits.load(Relaxed) >= maxfail / 4 { ex.pending.clear(); break; }
                    // once something failed, look for more cases only for a while
                    let ff = first.load(Relaxed);
                    if ff != u64::MAX { ex.deadline = ex.deadline.min(t0 + Duration::from_secs_f64(ff as f64 / 1000.0 + grace)); }
                    let e = if Instant::now() > ex.deadline { End::Timeout } else {
                        let mut e = ex.run(&mut st);
                        while e == End::Again {
                            // another round in a fresh world, with what the path knows about the input
                            st.mem = snap.mem.clone();
                            st.frames.clear();
                            st.slots.clear();
                            st.sp = snap.sp;
                            st.heap = snap.heap;
                            st.peak = 0;
                            st.round += 1;
                            st.enter(m.body(m.fidx["sym_dispatch"]), &[Val::I(jobs[ji].harness as u64)]);
                            e = ex.run(&mut st);
                        }
                        e
                    };
                    if let Some(x) = ex.fatal.take() { err = Some(x); ex.pending.clear(); break; }
                    ex.st.paths += 1;
                    per[ji] += 1;
                    let mut h = 0xcbf29ce484222325u64;
                    for b in &st.out { h = fnv(h, match b { Ok(c) => *c, Err(e) => ex.ar.eval(*e, &st.model) as u8 }); }
                    let failed = || { fails.fetch_add(1, Relaxed); first.fetch_min(t0.elapsed().as_millis() as u64, Relaxed); };
                    let (kind, info) = match e {
                        End::Done => ("ok", String::new()),
                        End::Fail(i) => { failed(); ("fail", format!("{}", i)) }
                        End::Assume => ("assume", String::new()),
                        End::Panic(s) => { failed(); ("panic", s) }
                        End::Limit => { limits.fetch_add(1, Relaxed); ("limit", String::new()) }
                        End::Fault(s) => ("fault", s),
                        End::Unsup(s) => ("unsup", s),
                        End::Again => unreachable!(),
                        End::Timeout => { timeout = true; ("timeout", String::new()) }
                    };
                    let ps: Vec<String> = st.parts.iter().map(|p| p.iter().map(|b| format!("{:02x}", match b { PB::C(c) => *c, PB::V(v) => st.model[*v as usize] })).collect::<String>()).collect();
                    writeln!(f, "{}\t{}\t{}\t{}\t{:x}\t{:x}\t{}\t{}", ji, jobs[ji].harness, kind, info.replace(['\t', '\n'], " "), st.reach, h, st.icount, ps.join(",")).unwrap();
                    if timeout { ex.pending.clear(); break; }
                    while ex.pending.len() > 1 && queue.hungry() {
                        let s = ex.pending.remove(0);
                        queue.push(Work::Donated { job: ji, model: s.model.to_vec(), ndec: s.ndec, hash: s.dechash, skip: s.ndec + s.skip });
                    }
                }
            }
            f.flush().unwrap();
            (ex.st, ex.z3.queries, ex.z3.time_ns, ex.z3.dumped, err, per, timeout)
        }).unwrap());
    }
    let mut s = Stats::default();
    let (mut q, mut tn, mut dumped) = (0, 0, 0);
    let mut errs = vec![];
    let mut timeout = false;
    let mut per = vec![0u64; jobs.len()];
    for h in hs {
        let (x, a, b, d, e, p, t) = h.join().unwrap();
        s.paths += x.paths; s.forks += x.forks; s.decisions += x.decisions; s.instrs += x.instrs;
        s.unary_hits += x.unary_hits; s.cache_hits += x.cache_hits; s.tern_hits += x.tern_hits; s.max_instrs = s.max_instrs.max(x.max_instrs);
        q += a; tn += b; dumped += d;
        if let Some(e) = e { if !errs.contains(&e) { errs.push(e); } }
        timeout |= t;
        for i in 0..per.len() { per[i] += p[i]; }
    }
    let ex = m.executed.lock().unwrap();
    let mut names: Vec<String> = ex.iter().map(|f| m.funcs[*f as usize].name.clone()).filter(|n| n.contains("dockerfile_parser")).map(|n| demangle(&n)).collect();
    names.sort();
    names.dedup();
    std::fs::write(format!("{}/functions.txt", out), names.join("\n")).unwrap();
    std::fs::write(format!("{}/perjob.txt", out), jobs.iter().zip(&per).map(|(j, n)| format!("{}\t{}\n", n, j.name)).collect::<String>()).unwrap();
    println!("{{\"paths\":{},\"forks\":{},\"decisions\":{},\"instructions\":{},\"max_instructions_per_path\":{},\"z3_queries\":{},\"z3_seconds\":{:.3},\"unary_cache_hits\":{},\"query_cache_hits\":{},\"implied\":{},\"functions_total\":{},\"functions_crate\":{},\"load_s\":{:.2},\"wall_s\":{:.2},\"timeout\":{},\"dumped\":{},\"z3\":\"{}\",\"errors\":{:?}}}",
        s.paths, s.forks, s.decisions, s.instrs, s.max_instrs, q, tn as f64 / 1e9, s.unary_hits, s.cache_hits, s.tern_hits, ex.len(), names.len(), t_load, t0.elapsed().as_secs_f64(), timeout, dumped, z3::version(), errs);
    std::process::exit(if !errs.is_empty() { 2 } else { 0 });
}
