//! Native replay: every explored path is run against the natively compiled crate.
//! stdin: lines `harness kind info reach outhash part,part,...`; prints disagreements.
use dfharness::*;
use std::cell::RefCell;
use std::io::{BufRead, Read, Write};

#[derive(Default)]
struct Ctx { parts: Vec<Vec<u8>>, reach: u64, hash: u64, kept: Vec<u8>, round: u32 }
thread_local! { static CTX: RefCell<Ctx> = RefCell::new(Ctx::default()); }

struct Failed(u32);
struct Assumed;
struct Again;

extern "C" {
    fn fork() -> i32;
    fn pipe(p: *mut i32) -> i32;
    fn read(f: i32, p: *mut u8, n: usize) -> isize;
    fn write(f: i32, p: *const u8, n: usize) -> isize;
    fn close(f: i32) -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
}
/// the bytes f returns when run in a copy of this process
fn apart(f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    unsafe {
        let mut p = [0i32; 2];
        assert!(pipe(p.as_mut_ptr()) == 0);
        let c = fork();
        assert!(c >= 0);
        if c == 0 {
            let b = f();
            let mut at = 0;
            while at < b.len() {
                let n = write(p[1], b[at..].as_ptr(), b.len() - at);
                if n <= 0 { _exit(1) }
                at += n as usize;
            }
            _exit(0)
        }
        close(p[1]);
        let (mut v, mut b) = (vec![], [0u8; 4096]);
        loop {
            let n = read(p[0], b.as_mut_ptr(), b.len());
            if n <= 0 { break }
            v.extend_from_slice(&b[..n as usize]);
        }
        close(p[0]);
        waitpid(c, std::ptr::null_mut(), 0);
        v
    }
}

#[no_mangle]
pub extern "C-unwind" fn sym_part(i: u32, p: *mut u8, cap: usize) -> usize {
    CTX.with(|c| {
        let c = c.borrow();
        let b = if i == 99 { &c.kept } else { match c.parts.get(i as usize) { Some(b) => b, None => return 0 } };
        if cap == 0 { return b.len() }
        assert!(b.len() <= cap);
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len()) };
        b.len()
    })
}
#[no_mangle]
pub extern "C-unwind" fn sym_fail(id: u32) -> ! { std::panic::panic_any(Failed(id)) }
#[no_mangle]
pub extern "C-unwind" fn sym_assume(c: bool) { if !c { std::panic::panic_any(Assumed) } }
#[no_mangle]
pub extern "C-unwind" fn sym_reach(id: u32) { CTX.with(|c| c.borrow_mut().reach |= 1 << (id & 63)) }
#[no_mangle]
pub extern "C-unwind" fn sym_round() -> u32 { CTX.with(|c| c.borrow().round) }
#[no_mangle]
pub extern "C-unwind" fn sym_keep(p: *const u8, n: usize) -> ! {
    let b = unsafe { std::slice::from_raw_parts(p, n) }.to_vec();
    CTX.with(|c| c.borrow_mut().kept = b);
    std::panic::panic_any(Again)
}
#[no_mangle]
pub extern "C-unwind" fn sym_pick(x: u64) -> u64 { x }
/// measures stack use by painting the unused stack
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn sym_peak(start: u64) -> u64 {
    const SIZE: usize = 8 << 20;
    const MARK: u64 = 0x5ac3_5ac3_1dea_d15b;
    let here = 0u64;
    let sp = (&here as *const u64 as usize) & !63;
    unsafe {
        if start == 1 {
            for a in (sp - SIZE..sp - 4096).step_by(8) { std::ptr::write_volatile(a as *mut u64, MARK) }
            return 0;
        }
        let mut a = sp - SIZE + 64;
        while a < sp - 8192 && std::ptr::read_volatile(a as *const u64) == MARK { a += 8 }
        (sp - a) as u64
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_out(p: *const u8, n: usize) {
    let b = unsafe { std::slice::from_raw_parts(p, n) };
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        for x in b { c.hash = (c.hash ^ *x as u64).wrapping_mul(0x100000001b3); }
        c.hash = (c.hash ^ 0xff).wrapping_mul(0x100000001b3);
    })
}

fn hex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

/// (kind, info, reach, hash)
fn run(h: usize, parts: Vec<Vec<u8>>) -> (String, String, u64, u64) {
    CTX.with(|c| *c.borrow_mut() = Ctx { parts, hash: 0xcbf29ce484222325, ..Ctx::default() });
    if !TABLE[h].0.starts_with("c27") { return here(h) }
    // each round in a copy of this process, which runs nothing else
    loop {
        let b = apart(|| {
            let (k, info, reach, hash) = here(h);
            let kept = CTX.with(|c| c.borrow().kept.clone());
            let mut b = format!("{}\t{}\t{:x}\t{:x}\t", k, info, reach, hash).into_bytes();
            b.extend(kept);
            b
        });
        let mut f = b.splitn(5, |c| *c == b'\t');
        let mut s = || String::from_utf8_lossy(f.next().unwrap_or(b"")).into_owned();
        let (k, info, reach, hash) = (s(), s(), u64::from_str_radix(&s(), 16).unwrap_or(0), u64::from_str_radix(&s(), 16).unwrap_or(0));
        if k != "again" { return (if k.is_empty() { "panic".into() } else { k }, info, reach, hash) }
        let kept = f.next().unwrap_or(b"").to_vec();
        CTX.with(|c| { let mut c = c.borrow_mut(); c.kept = kept; c.round += 1; c.reach = reach; c.hash = hash; });
    }
}
fn here(h: usize) -> (String, String, u64, u64) {
    let r = std::panic::catch_unwind(|| (TABLE[h].1)());
    let (reach, hash) = CTX.with(|c| { let c = c.borrow(); (c.reach, c.hash) });
    match r {
        Ok(()) => ("ok".into(), String::new(), reach, hash),
        Err(e) => {
            if let Some(f) = e.downcast_ref::<Failed>() { ("fail".into(), f.0.to_string(), reach, hash) }
            else if e.downcast_ref::<Again>().is_some() { ("again".into(), String::new(), reach, hash) }
            else if e.downcast_ref::<Assumed>().is_some() { ("assume".into(), String::new(), reach, hash) }
            else {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                ("panic".into(), m.replace(['\n', '\t'], " "), reach, hash)
            }
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("list") {
        for (i, (n, _)) in TABLE.iter().enumerate() { println!("{}\t{}", i, n); }
        return;
    }
    let _ = std::panic::catch_unwind(warm_up);
    let threads = 8;
    let mut s = String::new();
    std::io::stdin().lock().read_to_string(&mut s).unwrap();
    let lines: Vec<String> = s.lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect();
    let lines = std::sync::Arc::new(lines);
    let mut hs = vec![];
    for t in 0..threads {
        let lines = lines.clone();
        hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            let mut n = 0u64;
            let mut out = String::new();
            for l in lines.iter().skip(t).step_by(threads) {
                let f: Vec<&str> = l.split('\t').collect();
                let h: usize = f[1].parse().unwrap();
                let parts: Vec<Vec<u8>> = f[7].split(',').map(hex).collect();
                let (k, info, reach, hash) = run(h, parts);
                n += 1;
                let same = k == f[2] && (k != "fail" || info == f[3]) && (k == "panic" || (format!("{:x}", reach) == f[4] && format!("{:x}", hash) == f[5]));
                if !same || k == "fail" || k == "panic" {
                    out.push_str(&format!("{}\t{}\t{}\t{}\n", if same { "SAME" } else { "DIFF" }, k, info, l));
                }
            }
            (n, out)
        }).unwrap());
    }
    let mut n = 0;
    let so = std::io::stdout();
    let mut so = so.lock();
    for h in hs { let (k, o) = h.join().unwrap(); n += k; so.write_all(o.as_bytes()).unwrap(); }
    writeln!(so, "REPLAYED\t{}", n).unwrap();
    let _ = std::io::stdin().lock().lines().count();
}
