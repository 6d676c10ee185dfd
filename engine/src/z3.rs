//! Minimal hand-written bindings to the Z3 C API (libz3).
#![allow(non_camel_case_types, non_snake_case)]
use crate::expr::{Arena, Bop, Cop, Node, E};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr};

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_config(c: P);
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(_c: P, code: c_int) {
    // any API error means an encoding bug: never continue silently
    eprintln!("z3 API error {}", code);
    std::process::exit(70);
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub struct Z3 {
    c: P,
    s: P,
    memo: HashMap<E, P>,
    one1: P,
    bool_memo: HashMap<E, P>,
    pub queries: u64,
    pub time_ns: u64,
    pub unknowns: u64,
    pub dumped: u64,
    pub dump_every: u64,
    pub dump_dir: Option<String>,
    pub tid: usize,
}

pub enum Sat {
    Sat(Vec<(u16, u8)>),
    Unsat,
    Unknown,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let t = std::ffi::CString::new(format!("{}", timeout_ms)).unwrap();
            Z3_set_param_value(cfg, b"timeout\0".as_ptr() as _, t.as_ptr());
            Z3_set_param_value(cfg, b"model\0".as_ptr() as _, b"true\0".as_ptr() as _);
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let b1 = Z3_mk_bv_sort(c, 1);
            Z3_inc_ref(c, b1);
            let one1 = Z3_mk_unsigned_int64(c, 1, b1);
            Z3_inc_ref(c, one1);
            Z3 {
                c,
                s,
                memo: HashMap::new(),
                bool_memo: HashMap::new(),
                one1,
                queries: 0,
                time_ns: 0,
                unknowns: 0,
                dumped: 0,
                dump_every: 0,
                dump_dir: None,
                tid: 0,
            }
        }
    }

    pub fn free(&mut self) {
        unsafe { Z3_del_context(self.c) };
    }

    fn keep(&self, p: P) -> P {
        unsafe { Z3_inc_ref(self.c, p) };
        p
    }

    fn sort(&self, w: u32) -> P {
        unsafe { Z3_mk_bv_sort(self.c, w) }
    }

    fn num(&self, w: u32, v: u128) -> P {
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, self.sort(w))
            } else {
                let s = std::ffi::CString::new(format!("{}", v)).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), self.sort(w))
            }
        }
    }

    fn var(&self, v: u16) -> P {
        unsafe {
            let s = Z3_mk_int_symbol(self.c, v as c_int);
            Z3_mk_const(self.c, s, self.sort(8))
        }
    }

    /// Z3 bool -> bv1
    fn b2v(&self, b: P) -> P {
        unsafe {
            let z = self.num(1, 0);
            Z3_mk_ite(self.c, b, self.one1, z)
        }
    }

    pub fn bv(&mut self, ar: &Arena, e: E) -> P {
        if let Some(p) = self.memo.get(&e) {
            return *p;
        }
        let w = ar.width(e) as u32;
        let c = self.c;
        let p = unsafe {
            match *ar.node(e) {
                Node::Const { v, .. } => self.num(w, v),
                Node::Var(i) => self.var(i),
                Node::Bin { op, a, b, .. } => {
                    let x = self.bv(ar, a);
                    let y = self.bv(ar, b);
                    match op {
                        Bop::Add => Z3_mk_bvadd(c, x, y),
                        Bop::Sub => Z3_mk_bvsub(c, x, y),
                        Bop::Mul => Z3_mk_bvmul(c, x, y),
                        Bop::UDiv => Z3_mk_bvudiv(c, x, y),
                        Bop::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Bop::URem => Z3_mk_bvurem(c, x, y),
                        Bop::SRem => Z3_mk_bvsrem(c, x, y),
                        Bop::And => Z3_mk_bvand(c, x, y),
                        Bop::Or => Z3_mk_bvor(c, x, y),
                        Bop::Xor => Z3_mk_bvxor(c, x, y),
                        Bop::Shl => Z3_mk_bvshl(c, x, y),
                        Bop::LShr => Z3_mk_bvlshr(c, x, y),
                        Bop::AShr => Z3_mk_bvashr(c, x, y),
                    }
                }
                Node::Cmp { op, a, b } => {
                    let x = self.bv(ar, a);
                    let y = self.bv(ar, b);
                    let b = match op {
                        Cop::Eq => Z3_mk_eq(c, x, y),
                        Cop::Ult => Z3_mk_bvult(c, x, y),
                        Cop::Ule => Z3_mk_bvule(c, x, y),
                        Cop::Slt => Z3_mk_bvslt(c, x, y),
                        Cop::Sle => Z3_mk_bvsle(c, x, y),
                    };
                    self.b2v(b)
                }
                Node::Ite { c: cc, a, b, .. } => {
                    let k = self.boolean(ar, cc);
                    let x = self.bv(ar, a);
                    let y = self.bv(ar, b);
                    Z3_mk_ite(c, k, x, y)
                }
                Node::ZExt { a, .. } => {
                    let x = self.bv(ar, a);
                    Z3_mk_zero_ext(c, w - ar.width(a) as u32, x)
                }
                Node::SExt { a, .. } => {
                    let x = self.bv(ar, a);
                    Z3_mk_sign_ext(c, w - ar.width(a) as u32, x)
                }
                Node::Extract { a, lo, .. } => {
                    let x = self.bv(ar, a);
                    Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, x)
                }
                Node::Concat { a, b, .. } => {
                    let x = self.bv(ar, a);
                    let y = self.bv(ar, b);
                    Z3_mk_concat(c, x, y)
                }
                Node::Lut { v, tab, .. } => {
                    // nested ite over runs of equal values
                    let t = ar.tables[tab as usize].clone();
                    let var = self.keep(self.var(v));
                    let mut acc = self.keep(self.num(w, t[255] as u128));
                    let mut i = 255usize;
                    while i > 0 {
                        let mut j = i;
                        while j > 0 && t[j - 1] == t[i] {
                            j -= 1;
                        }
                        // [j..=i] equal; var >= j selects acc
                        if j == 0 {
                            break;
                        }
                        let lim = self.num(8, j as u128);
                        let cond = Z3_mk_bvult(c, var, lim);
                        self.keep(cond);
                        let lowv = self.num(w, t[j - 1] as u128);
                        let n = Z3_mk_ite(c, cond, lowv, acc);
                        // NOTE: built from the top down; the lower runs are refined below
                        let n = self.keep(n);
                        acc = n;
                        i = j - 1;
                    }
                    acc
                }
            }
        };
        self.keep(p);
        self.memo.insert(e, p);
        p
    }

    /// Z3 Bool for a width-1 expression
    pub fn boolean(&mut self, ar: &Arena, e: E) -> P {
        if let Some(p) = self.bool_memo.get(&e) {
            return *p;
        }
        let c = self.c;
        let p = unsafe {
            match *ar.node(e) {
                Node::Cmp { op, a, b } => {
                    let x = self.bv(ar, a);
                    let y = self.bv(ar, b);
                    match op {
                        Cop::Eq => Z3_mk_eq(c, x, y),
                        Cop::Ult => Z3_mk_bvult(c, x, y),
                        Cop::Ule => Z3_mk_bvule(c, x, y),
                        Cop::Slt => Z3_mk_bvslt(c, x, y),
                        Cop::Sle => Z3_mk_bvsle(c, x, y),
                    }
                }
                Node::Bin { op: Bop::And, a, b, .. } => {
                    let x = [self.boolean(ar, a), self.boolean(ar, b)];
                    Z3_mk_and(c, 2, x.as_ptr())
                }
                Node::Bin { op: Bop::Or, a, b, .. } => {
                    let x = [self.boolean(ar, a), self.boolean(ar, b)];
                    Z3_mk_or(c, 2, x.as_ptr())
                }
                _ => {
                    let x = self.bv(ar, e);
                    Z3_mk_eq(c, x, self.one1)
                }
            }
        };
        self.keep(p);
        self.bool_memo.insert(e, p);
        p
    }

    fn domain(&self, v: u16, dom: &[u64; 4]) -> Option<P> {
        if *dom == [u64::MAX; 4] {
            return None;
        }
        let inset = |i: usize| dom[i >> 6] >> (i & 63) & 1 == 1;
        let c = self.c;
        let x = self.keep(self.var(v));
        let mut parts: Vec<P> = vec![];
        let mut i = 0usize;
        while i < 256 {
            if inset(i) {
                let s = i;
                while i + 1 < 256 && inset(i + 1) {
                    i += 1;
                }
                unsafe {
                    let lo = self.keep(self.num(8, s as u128));
                    let hi = self.keep(self.num(8, i as u128));
                    let p = if s == i {
                        Z3_mk_eq(c, x, lo)
                    } else {
                        let a = self.keep(Z3_mk_bvule(c, lo, x));
                        let b = self.keep(Z3_mk_bvule(c, x, hi));
                        Z3_mk_and(c, 2, [a, b].as_ptr())
                    };
                    parts.push(self.keep(p));
                }
            }
            i += 1;
        }
        Some(unsafe { Z3_mk_or(c, parts.len() as u32, parts.as_ptr()) })
    }

    /// Decide: exists values within the domains satisfying all conditions?
    pub fn check(&mut self, ar: &Arena, doms: &[(u16, [u64; 4])], conds: &[E], want_model: bool) -> Sat {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        unsafe {
            Z3_solver_push(self.c, self.s);
            for (v, d) in doms {
                if let Some(p) = self.domain(*v, d) {
                    self.keep(p);
                    Z3_solver_assert(self.c, self.s, p);
                }
            }
            for &e in conds {
                let p = self.boolean(ar, e);
                Z3_solver_assert(self.c, self.s, p);
            }
            let r = Z3_solver_check(self.c, self.s);
            if self.dump_every > 0 && self.queries % self.dump_every == 1 {
                if let Some(d) = &self.dump_dir {
                    let txt = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                    let name = format!("{}/q_{}_{}.smt2", d, self.tid, self.queries);
                    let exp = match r { 1 => "sat", -1 => "unsat", _ => "unknown" };
                    let _ = std::fs::write(&name, format!("(set-logic QF_BV)\n; expect {}\n{}\n(check-sat)\n", exp, txt));
                    self.dumped += 1;
                    if self.dumped % 40 == 0 {
                        self.dump_every *= 2; // early queries and late ones alike, few files
                    }
                }
            }
            let out = match r {
                1 => {
                    let mut m = vec![];
                    if want_model {
                        let md = Z3_solver_get_model(self.c, self.s);
                        Z3_model_inc_ref(self.c, md);
                        for (v, _) in doms {
                            let x = self.keep(self.var(*v));
                            let mut r: P = std::ptr::null_mut();
                            Z3_model_eval(self.c, md, x, true, &mut r);
                            self.keep(r);
                            let mut u = 0u64;
                            if !Z3_get_numeral_uint64(self.c, r, &mut u) {
                                eprintln!("z3: model value is not a numeral");
                                std::process::exit(70);
                            }
                            Z3_dec_ref(self.c, r);
                            m.push((*v, u as u8));
                        }
                        Z3_model_dec_ref(self.c, md);
                    }
                    Sat::Sat(m)
                }
                -1 => Sat::Unsat,
                _ => {
                    self.unknowns += 1;
                    Sat::Unknown
                }
            };
            Z3_solver_pop(self.c, self.s, 1);
            if self.queries % 4096 == 0 {
                Z3_solver_reset(self.c, self.s);
            }
            self.time_ns += t0.elapsed().as_nanos() as u64;
            out
        }
    }
}
