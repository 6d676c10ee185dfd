//! Symbolic executor: runs LLVM IR functions; Z3 decides which branches are feasible.
use crate::expr::*;
use crate::ir::{self, Bin, Callee, CallI, Cast, CVal, Func, Ins, Intr, Kind, Module, Opd, Pred, Rmw, Ty};
use crate::mem::*;
use crate::z3::{Sat, Z3};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    X(E),
    W(Rc<u128>),
    A(Rc<Vec<Val>>),
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub pc: u32,
    pub base: u32,
    pub sp: u64,
}

/// one symbolic input part: concrete bytes and symbolic variables
#[derive(Clone, Debug)]
pub enum PB {
    C(u8),
    V(u16),
}

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub frames: Vec<Frame>,
    pub slots: Vec<Val>,
    pub sp: u64,
    /// greatest number of frames so far
    pub peak: u32,
    pub heap: u64,
    pub doms: Vec<Mask>,
    pub cons: Vec<E>,
    pub multi: u128,
    pub model: Box<[u8; MAXV]>,
    pub icount: u64,
    pub forks: u32,
    pub skip: u32,
    pub ndec: u32,
    pub dechash: u64,
    /// expected (ndec, dechash) when a replayed prefix ends
    pub expect: Option<(u32, u64)>,
    pub out: Vec<Result<u8, E>>,
    pub reach: u64,
    pub parts: Rc<Vec<Vec<PB>>>,
    /// what an earlier round kept, and the number of the round
    pub kept: Vec<Result<u8, E>>,
    pub round: u32,
}

#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Done,
    Fail(u32),
    Assume,
    /// start over with the memory of the beginning
    Again,
    Panic(String),
    Limit,
    Fault(String),
    Unsup(String),
    Timeout,
}

pub const BUILTINS: &[&str] = &[
    "bcmp", "memcmp", "strlen", "malloc", "calloc", "realloc", "posix_memalign", "free", "rust_psm_stack_pointer",
    "pthread_self", "pthread_getattr_np", "pthread_attr_init", "pthread_attr_getstack", "pthread_attr_destroy",
    "getenv", "__errno_location", "sysconf", "__cxa_thread_atexit_impl", "pthread_key_create", "pthread_setspecific",
    "pthread_key_delete", "getrandom", "syscall", "mmap64", "munmap", "mprotect", "abort",
    "sym_part", "sym_assume", "sym_fail", "sym_reach", "sym_out", "sym_pick", "sym_peak", "sym_keep", "sym_round", "@hash_one", "@sip_write", "gettid", "pthread_attr_getguardsize",
    "open64", "sched_getaffinity", "readlink", "stat64", "fstat64", "statx",
];
pub fn builtin_id(n: &str) -> Option<u16> { BUILTINS.iter().position(|x| *x == n).map(|x| x as u16) }

pub fn classify(n: &str, has_body: bool) -> Kind {
    if !has_body {
        return match builtin_id(n) { Some(i) => Kind::Builtin(i), None => Kind::Missing };
    }
    let glue = n.contains("drop_glue") || n.contains("3fmt") || n.contains("Payload");
    if !glue {
        if let Some(p) = n.find("4core9panicking") {
            let r = &n[p + 15..];
            if r.contains("panic") || r.contains("assert_failed") || r.contains("unreachable") { return Kind::Panic; }
        }
        if let Some(p) = n.find("3std9panicking") {
            let r = &n[p + 14..];
            if r.contains("begin_panic") || r.contains("panic_with_hook") || r.starts_with("10rust_panic") { return Kind::Panic; }
        }
        if n.contains("11BuildHasher8hash_one") { return Kind::Builtin(builtin_id("@hash_one").unwrap()); }
    }
    Kind::Normal
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: u64,
    pub forks: u64,
    pub decisions: u64,
    pub instrs: u64,
    pub unary_hits: u64,
    pub cache_hits: u64,
    pub tern_hits: u64,
    pub max_instrs: u64,
}

pub struct Exec {
    pub m: &'static Module,
    pub ar: Arena,
    pub z3: Z3,
    pub pending: Vec<State>,
    ucache: HashMap<(E, Mask), Mask, FxB>,
    mcache: HashMap<u64, Option<Rc<Vec<(u16, u8)>>>, FxB>,
    pub st: Stats,
    pub limit: u64,
    pub deadline: std::time::Instant,
    pub fatal: Option<String>,
    pub trace: bool,
}

enum Stop {
    End(End),
}
type R<T> = Result<T, Stop>;
impl From<Fault> for Stop { fn from(f: Fault) -> Stop { Stop::End(End::Fault(format!("address {:#x}", f.0))) } }
fn unsup<T>(s: impl Into<String>) -> R<T> { Err(Stop::End(End::Unsup(s.into()))) }

#[inline(always)]
fn mask64(w: u16) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
#[inline(always)]
fn sx64(v: u64, w: u16) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

fn from128(v: u128, w: u16) -> Val { if w <= 64 { Val::I((v & mask128(w)) as u64) } else { Val::W(Rc::new(v & mask128(w))) } }

fn cval(c: &CVal) -> Val {
    match c {
        CVal::I(v) => Val::I(*v),
        CVal::W(v) => Val::W(Rc::new(*v)),
        CVal::A(f) => Val::A(Rc::new(f.iter().map(cval).collect())),
    }
}
fn bop(b: Bin) -> Bop {
    match b { Bin::Add => Bop::Add, Bin::Sub => Bop::Sub, Bin::Mul => Bop::Mul, Bin::UDiv => Bop::UDiv, Bin::SDiv => Bop::SDiv, Bin::URem => Bop::URem, Bin::SRem => Bop::SRem, Bin::And => Bop::And, Bin::Or => Bop::Or, Bin::Xor => Bop::Xor, Bin::Shl => Bop::Shl, Bin::LShr => Bop::LShr, Bin::AShr => Bop::AShr }
}
fn zero_of(t: &Ty) -> Val {
    match t {
        Ty::Int(w) if *w > 64 => Val::W(Rc::new(0)),
        Ty::Vec(n, t) => Val::A(Rc::new(vec![zero_of(t); *n as usize])),
        Ty::Arr(n, t) => Val::A(Rc::new(vec![zero_of(t); *n as usize])),
        Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(zero_of).collect())),
        _ => Val::I(0),
    }
}

impl State {
    pub fn new() -> State {
        State {
            mem: Mem::new(), frames: vec![], slots: vec![], sp: STACK_TOP - 0x1000, peak: 0, heap: HEAP_BASE, doms: vec![], cons: vec![], multi: 0,
            model: Box::new([0; MAXV]), icount: 0, forks: 0, skip: 0, ndec: 0, dechash: 0, expect: None, out: vec![], reach: 0, parts: Rc::new(vec![]), kept: vec![], round: 0,
        }
    }
    pub fn enter(&mut self, f: &'static Func, args: &[Val]) {
        let base = self.slots.len() as u32;
        self.slots.resize(base as usize + f.nslots as usize, Val::I(0));
        for (i, a) in args.iter().enumerate() { if i < f.nparams as usize { self.slots[base as usize + i] = a.clone(); } }
        self.frames.push(Frame { f, pc: 0, base, sp: self.sp });
        self.peak = self.peak.max(self.frames.len() as u32);
    }
}

macro_rules! opd {
    ($st:expr, $base:expr, $o:expr) => {
        match $o { Opd::S(i) => $st.slots[$base + *i as usize].clone(), Opd::I(v) => Val::I(*v), Opd::C(c) => cval(c) }
    };
}

impl Exec {
    pub fn new(m: &'static Module, timeout_ms: u32) -> Exec {
        Exec {
            m, ar: Arena::new(), z3: Z3::new(timeout_ms), pending: vec![], ucache: HashMap::default(), mcache: HashMap::default(), st: Stats::default(),
            limit: 400_000_000, deadline: std::time::Instant::now() + std::time::Duration::from_secs(100000), fatal: None, trace: false,
        }
    }
    /// forget all expressions (only when no state is alive)
    pub fn reset_arena(&mut self) {
        let (q, t, u, tid, de, dd, dn) = (self.z3.queries, self.z3.time_ns, self.z3.unknowns, self.z3.tid, self.z3.dump_every, self.z3.dump_dir.clone(), self.z3.dumped);
        self.ar = Arena::new();
        self.z3.free();
        self.z3 = Z3::new(20000);
        self.z3.queries = q; self.z3.time_ns = t; self.z3.unknowns = u; self.z3.tid = tid; self.z3.dump_every = de; self.z3.dump_dir = dd; self.z3.dumped = dn;
        self.ucache.clear();
        self.mcache.clear();
    }

    fn to_e(&mut self, v: &Val, w: u16) -> E {
        match v { Val::I(x) => self.ar.cst(*x as u128, w), Val::X(e) => *e, Val::W(x) => self.ar.cst(**x, w), Val::A(_) => panic!("aggregate as int") }
    }
    fn from_e(&self, e: E) -> Val {
        match self.ar.as_const(e) { Some(v) => from128(v, self.ar.width(e)), None => Val::X(e) }
    }

    // ------------------------------------------------------------ decisions
    fn component(&mut self, st: &State, c: E) -> (u128, Vec<E>) {
        let mut vars = self.ar.support(c);
        let mut used = vec![false; st.cons.len()];
        let mut list = vec![];
        loop {
            let mut changed = false;
            for (i, &k) in st.cons.iter().enumerate() {
                if !used[i] && self.ar.support(k) & vars != 0 {
                    used[i] = true;
                    list.push(k);
                    vars |= self.ar.support(k);
                    changed = true;
                }
            }
            if !changed { break; }
        }
        (vars, list)
    }

    /// is the path condition together with c satisfiable? a model if so
    fn feasible(&mut self, st: &State, c: E) -> R<Option<Box<[u8; MAXV]>>> {
        if let Some(v) = self.ar.as_const(c) { return Ok(if v == 1 { Some(st.model.clone()) } else { None }); }
        let s = self.ar.support(c);
        if s.count_ones() == 1 && s & st.multi == 0 {
            let v = s.trailing_zeros() as usize;
            let k = self.ar.canon1(c);
            let key = (k, st.doms[v]);
            let sat = if let Some(m) = self.ucache.get(&key) { self.st.unary_hits += 1; *m } else {
                let t = self.ar.truth1(c);
                let m = mand(&t, &st.doms[v]);
                // the solver decides; the table must agree with it
                let r = self.z3.check(&self.ar, &[(v as u16, st.doms[v])], &[c], true);
                match r {
                    Sat::Sat(md) => if mempty(&m) || !md.iter().all(|(_, b)| mhas(&m, *b)) { self.fatal = Some("solver and table disagree (sat)".into()); },
                    Sat::Unsat => if !mempty(&m) { self.fatal = Some("solver and table disagree (unsat)".into()); },
                    Sat::Unknown => return Err(Stop::End(End::Timeout)),
                }
                self.ucache.insert(key, m);
                m
            };
            if mempty(&sat) { return Ok(None); }
            let mut md = st.model.clone();
            md[v] = mfirst_pref(&sat);
            return Ok(Some(md));
        }
        match self.ar.tern(c, &st.doms) {
            Some(false) => { self.st.tern_hits += 1; return Ok(None); }
            _ => {}
        }
        let (vars, mut list) = self.component(st, c);
        list.push(c);
        let mut h = Fx::default();
        {
            use std::hash::Hasher;
            let mut ids: Vec<u64> = list.iter().map(|e| self.ar.shash(*e)).collect();
            ids.sort();
            for x in ids { h.write_u64(x); }
            for v in 0..MAXV { if vars >> v & 1 == 1 { h.write_u64(v as u64 + 1000); for x in st.doms[v] { h.write_u64(x); } } }
        }
        let key = { use std::hash::Hasher; h.finish() };
        let r = if let Some(r) = self.mcache.get(&key) { self.st.cache_hits += 1; r.clone() } else {
            let doms: Vec<(u16, Mask)> = (0..MAXV).filter(|v| vars >> v & 1 == 1).map(|v| (v as u16, st.doms[v])).collect();
            let r = match self.z3.check(&self.ar, &doms, &list, true) {
                Sat::Sat(m) => Some(Rc::new(m)),
                Sat::Unsat => None,
                Sat::Unknown => return Err(Stop::End(End::Timeout)),
            };
            self.mcache.insert(key, r.clone());
            r
        };
        Ok(r.map(|m| {
            let mut md = st.model.clone();
            for (v, b) in m.iter() { md[*v as usize] = *b; }
            md
        }))
    }

    fn simplify_cons(&mut self, st: &mut State) {
        if st.cons.is_empty() { return; }
        let old = std::mem::take(&mut st.cons);
        let mut redo = vec![];
        for c in old {
            match self.ar.tern(c, &st.doms) {
                Some(true) => {}
                _ => redo.push(c),
            }
        }
        st.cons = redo;
        st.multi = st.cons.iter().fold(0, |a, c| a | self.ar.support(*c));
    }

    fn constrain(&mut self, st: &mut State, c: E) {
        if self.ar.as_const(c).is_some() { return; }
        let s = self.ar.support(c);
        if s.count_ones() == 1 {
            let v = s.trailing_zeros() as usize;
            let t = self.ar.truth1(c);
            let n = mand(&st.doms[v], &t);
            if n != st.doms[v] {
                st.doms[v] = n;
                if s & st.multi != 0 { self.simplify_cons(st); }
            }
            return;
        }
        if let Node::Bin { op: Bop::And, a, b, w: 1 } = *self.ar.node(c) {
            self.constrain(st, a);
            self.constrain(st, b);
            return;
        }
        match self.ar.tern(c, &st.doms) { Some(true) => return, _ => {} }
        if let Node::Bin { op: Bop::Or, a, b, w: 1 } = *self.ar.node(c) {
            if self.ar.tern(a, &st.doms) == Some(false) { return self.constrain(st, b); }
            if self.ar.tern(b, &st.doms) == Some(false) { return self.constrain(st, a); }
        }
        if let Node::Bin { op: Bop::Xor, a, b, w: 1 } = *self.ar.node(c) {
            if self.ar.as_const(b) == Some(1) {
                if let Node::Bin { op: Bop::Or, a: x, b: y, w: 1 } = *self.ar.node(a) {
                    let nx = self.ar.not1(x);
                    let ny = self.ar.not1(y);
                    self.constrain(st, nx);
                    self.constrain(st, ny);
                    return;
                }
                if let Node::Bin { op: Bop::And, a: x, b: y, w: 1 } = *self.ar.node(a) {
                    if self.ar.tern(x, &st.doms) == Some(true) { let n = self.ar.not1(y); return self.constrain(st, n); }
                    if self.ar.tern(y, &st.doms) == Some(true) { let n = self.ar.not1(x); return self.constrain(st, n); }
                }
            }
        }
        if !st.cons.contains(&c) {
            st.cons.push(c);
            st.multi |= s;
        }
    }

    /// conds are mutually exclusive and exhaustive; picks the one the witness satisfies,
    /// queues a state for every other feasible one (they re-execute the instruction)
    fn decide(&mut self, st: &mut State, pc: usize, conds: &[E]) -> R<usize> {
        self.st.decisions += 1;
        let mut idx = usize::MAX;
        for (i, c) in conds.iter().enumerate() { if self.ar.eval(*c, &st.model) == 1 { idx = i; break; } }
        if idx == usize::MAX { return Err(Stop::End(End::Unsup("no alternative holds under the witness".into()))); }
        st.frames.last_mut().unwrap().pc = pc as u32;
        if st.skip > 0 {
            st.skip -= 1;
        } else {
            for (j, c) in conds.iter().enumerate() {
                if j == idx { continue; }
                if let Some(m) = self.feasible(st, *c)? {
                    let mut n = st.clone();
                    n.model = m;
                    n.skip = 1;
                    n.forks += 1;
                    n.expect = None;
                    self.st.forks += 1;
                    self.pending.push(n);
                }
            }
        }
        st.ndec += 1;
        st.dechash = (st.dechash.rotate_left(7) ^ self.ar.shash(conds[idx])).wrapping_mul(0x9e3779b97f4a7c15);
        if let Some((n, h)) = st.expect {
            if st.ndec == n {
                if st.dechash != h { self.fatal = Some("donated prefix diverged".into()); return unsup("diverged"); }
                st.expect = None;
            }
        }
        self.constrain(st, conds[idx]);
        Ok(idx)
    }
    fn decide_bool(&mut self, st: &mut State, pc: usize, c: E) -> R<bool> {
        // implied by the path already?
        match self.ar.tern(c, &st.doms) { Some(b) => { self.st.tern_hits += 1; return Ok(b); } None => {} }
        let n = self.ar.not1(c);
        Ok(self.decide(st, pc, &[c, n])? == 0)
    }
    /// fork over the values of e, one at a time
    fn concretize(&mut self, st: &mut State, pc: usize, e: E) -> R<u64> {
        if let Some(v) = self.ar.as_const(e) { return Ok(v as u64); }
        let w = self.ar.width(e);
        let s = self.ar.support(e);
        if s.count_ones() == 1 {
            // all distinct values of a one-variable expression at once
            let v = s.trailing_zeros() as usize;
            let mut vals: Vec<u128> = vec![];
            let mut md = *st.model;
            for b in miter(&st.doms[v]) {
                md[v] = b;
                let x = self.ar.eval(e, &md);
                if !vals.contains(&x) { vals.push(x); }
            }
            if vals.len() == 1 { return Ok(vals[0] as u64); }
            let mut conds = vec![];
            for x in &vals { let k = self.ar.cst(*x, w); conds.push(self.ar.cmp(Cop::Eq, e, k)); }
            let i = self.decide(st, pc, &conds)?;
            return Ok(vals[i] as u64);
        }
        // enumerate with the solver: witness value first, then ask for another
        let mut vals: Vec<u128> = vec![];
        let x = self.ar.eval(e, &st.model);
        vals.push(x);
        let mut conds = vec![];
        let k = self.ar.cst(x, w);
        conds.push(self.ar.cmp(Cop::Eq, e, k));
        if st.skip == 0 {
            let mut rest = self.ar.not1(conds[0]);
            loop {
                let Some(m) = self.feasible(st, rest)? else { break };
                let y = self.ar.eval(e, &m);
                if vals.contains(&y) { return unsup("concretize: repeated value"); }
                vals.push(y);
                if vals.len() > 4096 { return unsup("concretize: too many values"); }
                let k = self.ar.cst(y, w);
                let c = self.ar.cmp(Cop::Eq, e, k);
                conds.push(c);
                let nc = self.ar.not1(c);
                rest = self.ar.bin(Bop::And, rest, nc);
            }
        }
        let i = self.decide(st, pc, &conds)?;
        Ok(vals[i] as u64)
    }
    /// operand as a concrete integer; the choice is written back to its slot
    #[inline(always)]
    fn cint(&mut self, st: &mut State, base: usize, pc: usize, o: &Opd) -> R<u64> {
        match o {
            Opd::I(v) => Ok(*v),
            Opd::S(i) => {
                if let Val::I(v) = &st.slots[base + *i as usize] { return Ok(*v); }
                self.cint_slow(st, base, pc, *i)
            }
            Opd::C(_) => unsup("aggregate address"),
        }
    }
    #[cold]
    fn cint_slow(&mut self, st: &mut State, base: usize, pc: usize, i: u32) -> R<u64> {
        match st.slots[base + i as usize].clone() {
            Val::X(e) => {
                let v = self.concretize(st, pc, e)?;
                st.slots[base + i as usize] = Val::I(v);
                Ok(v)
            }
            Val::W(v) => Ok(*v as u64),
            _ => unsup("aggregate as integer"),
        }
    }

    // ------------------------------------------------------------ values
    fn bin(&mut self, op: Bin, w: u16, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::I(x), Val::I(y)) if w <= 64 => Val::I(bin64(op, *x, *y, w)),
            (Val::X(_), _) | (_, Val::X(_)) => {
                let x = self.to_e(a, w);
                let y = self.to_e(b, w);
                let r = self.ar.bin(bop(op), x, y);
                self.from_e(r)
            }
            _ => {
                let x = to128(a);
                let y = to128(b);
                from128(bin_const(bop(op), x, y, w), w)
            }
        }
    }
    fn icmp(&mut self, p: Pred, w: u16, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::I(x), Val::I(y)) => Val::I(icmp64(p, *x, *y, w) as u64),
            (Val::X(_), _) | (_, Val::X(_)) => {
                let x = self.to_e(a, w);
                let y = self.to_e(b, w);
                let r = self.cmp_e(p, x, y);
                self.from_e(r)
            }
            _ => {
                let (x, y) = (to128(a), to128(b));
                let (sx, sy) = (sext128(x, w), sext128(y, w));
                Val::I(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Slt => sx < sy, Pred::Sle => sx <= sy, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy } as u64)
            }
        }
    }
    fn cmp_e(&mut self, p: Pred, x: E, y: E) -> E {
        match p {
            Pred::Eq => self.ar.cmp(Cop::Eq, x, y),
            Pred::Ne => { let e = self.ar.cmp(Cop::Eq, x, y); self.ar.not1(e) }
            Pred::Ult => self.ar.cmp(Cop::Ult, x, y),
            Pred::Ule => self.ar.cmp(Cop::Ule, x, y),
            Pred::Ugt => self.ar.cmp(Cop::Ult, y, x),
            Pred::Uge => self.ar.cmp(Cop::Ule, y, x),
            Pred::Slt => self.ar.cmp(Cop::Slt, x, y),
            Pred::Sle => self.ar.cmp(Cop::Sle, x, y),
            Pred::Sgt => self.ar.cmp(Cop::Slt, y, x),
            Pred::Sge => self.ar.cmp(Cop::Sle, y, x),
        }
    }
    fn cast(&mut self, op: Cast, from: u16, to: u16, a: &Val) -> Val {
        match a {
            Val::I(v) => match op {
                Cast::Zext | Cast::Bit => if to <= 64 { Val::I(*v) } else { Val::W(Rc::new(*v as u128)) },
                Cast::Trunc => Val::I(*v & mask64(to)),
                Cast::Sext => from128(sext128(*v as u128, from) as u128, to),
            },
            Val::W(v) => match op { Cast::Trunc => from128(**v, to), Cast::Sext => from128(sext128(**v, from) as u128, to), _ => a.clone() },
            Val::X(e) => {
                let r = match op { Cast::Zext => self.ar.zext(*e, to), Cast::Sext => self.ar.sext(*e, to), Cast::Trunc => self.ar.extract(*e, 0, to), Cast::Bit => *e };
                self.from_e(r)
            }
            Val::A(_) => a.clone(),
        }
    }
    /// flatten to one integer of the given type's width
    fn flatten(&mut self, v: &Val, t: &Ty) -> E {
        match t {
            Ty::Vec(n, et) => {
                let w = et.bits();
                let Val::A(l) = v else { return self.to_e(v, *n as u16 * w) };
                let l = l.clone();
                let mut acc: Option<E> = None;
                for x in l.iter() {
                    let e = self.to_e(x, w);
                    acc = Some(match acc { None => e, Some(a) => self.ar.concat(e, a) });
                }
                acc.unwrap()
            }
            t => self.to_e(v, t.bits()),
        }
    }
    fn unflatten(&mut self, e: E, t: &Ty) -> Val {
        match t {
            Ty::Vec(n, et) => {
                let w = et.bits();
                let mut l = vec![];
                for i in 0..*n { let x = self.ar.extract(e, i as u16 * w, w); l.push(self.from_e(x)); }
                Val::A(Rc::new(l))
            }
            _ => self.from_e(e),
        }
    }
    fn ite(&mut self, c: E, a: &Val, b: &Val, ty: &Ty) -> Option<Val> {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let (x, y) = (x.clone(), y.clone());
                let mut out = vec![];
                for i in 0..x.len() {
                    let t = match ty { Ty::Vec(_, t) | Ty::Arr(_, t) => (**t).clone(), Ty::Struct(f, _) => f[i].clone(), _ => return None };
                    out.push(self.ite(c, &x[i], &y[i], &t)?);
                }
                Some(Val::A(Rc::new(out)))
            }
            _ => {
                let w = ty.bits();
                if w == 0 { return Some(a.clone()); }
                let x = self.to_e(a, w);
                let y = self.to_e(b, w);
                let r = self.ar.ite(c, x, y);
                Some(self.from_e(r))
            }
        }
    }

    fn load(&mut self, st: &State, a: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Ptr => self.load_int(st, a, 8, 64),
            Ty::Int(w) if *w <= 64 => self.load_int(st, a, (*w as usize + 7) / 8, *w),
            Ty::Int(w) => {
                let n = (*w as usize + 7) / 8;
                let e = st.mem.read_expr(&mut self.ar, a, n)?;
                let e = self.ar.extract(e, 0, *w);
                Ok(self.from_e(e))
            }
            Ty::Vec(n, t) => {
                let w = t.bits();
                if w % 8 != 0 {
                    let b = *n as u16 * w;
                    let e = st.mem.read_expr(&mut self.ar, a, (b as usize + 7) / 8)?;
                    let e = self.ar.extract(e, 0, b);
                    return Ok(self.unflatten(e, ty));
                }
                let mut l = Vec::with_capacity(*n as usize);
                for i in 0..*n as u64 { l.push(self.load_int(st, a + i * (w as u64 / 8), w as usize / 8, w)?); }
                Ok(Val::A(Rc::new(l)))
            }
            Ty::Arr(n, t) => {
                let s = t.alloc_size();
                let mut l = vec![];
                for i in 0..*n { l.push(self.load(st, a + i * s, t)?); }
                Ok(Val::A(Rc::new(l)))
            }
            Ty::Struct(f, _) => {
                let mut l = vec![];
                for (i, t) in f.iter().enumerate() { l.push(self.load(st, a + ty.field_off(i), t)?); }
                Ok(Val::A(Rc::new(l)))
            }
            _ => unsup("load type"),
        }
    }
    fn load_int(&mut self, st: &State, a: u64, n: usize, w: u16) -> R<Val> {
        match st.mem.read_int(a, n) {
            Ok(v) => Ok(Val::I(v & mask64(w))),
            Err(Some(f)) => Err(f.into()),
            Err(None) => {
                let e = st.mem.read_expr(&mut self.ar, a, n)?;
                let e = self.ar.extract(e, 0, w);
                Ok(self.from_e(e))
            }
        }
    }
    fn store(&mut self, st: &mut State, a: u64, v: &Val, ty: &Ty) -> R<()> {
        match (ty, v) {
            (Ty::Vec(n, t), Val::A(l)) => {
                let w = t.bits();
                if w % 8 != 0 {
                    let e = self.flatten(v, ty);
                    let b = (*n as u16 * w + 7) / 8 * 8;
                    let e = self.ar.zext(e, b);
                    return Ok(st.mem.write_expr(&mut self.ar, a, b as usize / 8, e)?);
                }
                for i in 0..*n as usize { self.store(st, a + i as u64 * (w as u64 / 8), &l[i], t)?; }
                Ok(())
            }
            (Ty::Arr(_, t), Val::A(l)) => {
                let s = t.alloc_size();
                for (i, x) in l.iter().enumerate() { self.store(st, a + i as u64 * s, x, t)?; }
                Ok(())
            }
            (Ty::Struct(f, _), Val::A(l)) => {
                for (i, t) in f.iter().enumerate() { self.store(st, a + ty.field_off(i), &l[i], t)?; }
                Ok(())
            }
            (t, Val::I(x)) if t.bits() <= 64 => Ok(st.mem.write_int(a, (t.bits() as usize + 7) / 8, *x)?),
            (t, v) => {
                let w = t.bits();
                let e = self.to_e(v, w);
                Ok(st.mem.write_expr(&mut self.ar, a, (w as usize + 7) / 8, e)?)
            }
        }
    }

    /// load through a symbolic address that depends on one input byte: a table lookup
    fn load_lut(&mut self, st: &State, e: E, n: usize, w: u16) -> Option<Val> {
        let s = self.ar.support(e);
        if s.count_ones() != 1 || w > 64 { return None; }
        let v = s.trailing_zeros() as usize;
        let mut md = *st.model;
        let mut tab = [0u64; 256];
        let mut first = None;
        for b in miter(&st.doms[v]) {
            md[v] = b;
            let a = self.ar.eval(e, &md) as u64;
            match st.mem.read_int(a, n) { Ok(x) => { let x = x & mask64(w); tab[b as usize] = x; if first.is_none() { first = Some(x); } } Err(_) => return None }
        }
        let f = first?;
        for b in 0..=255u8 { if !mhas(&st.doms[v], b) { tab[b as usize] = f; } }
        let r = self.ar.lut(v as u16, tab, w);
        Some(self.from_e(r))
    }

    fn take_edge(&mut self, st: &mut State, base: usize, e: &ir::Edge) -> usize {
        match e.moves.len() {
            0 => {}
            1 => { let v = opd!(st, base, &e.moves[0].1); st.slots[base + e.moves[0].0 as usize] = v; }
            _ => {
                let vals: Vec<Val> = e.moves.iter().map(|(_, o)| opd!(st, base, o)).collect();
                for ((d, _), v) in e.moves.iter().zip(vals) { st.slots[base + *d as usize] = v; }
            }
        }
        e.pc as usize
    }

    pub fn run(&mut self, st: &mut State) -> End {
        let ic0 = st.icount;
        let r = match self.run_inner(st) { Ok(e) => e, Err(Stop::End(e)) => e };
        self.st.instrs += st.icount - ic0;
        self.st.max_instrs = self.st.max_instrs.max(st.icount);
        match r {
            End::Fault(s) => End::Fault(format!("{} in {}", s, bt(st))),
            End::Unsup(s) => End::Unsup(format!("{} in {}", s, bt(st))),
            End::Panic(s) => End::Panic(format!("{} in {}", s, bt(st))),
            e => e,
        }
    }

    fn run_inner(&mut self, st: &mut State) -> R<End> {
        let mut check = 0u32;
        loop {
            let (f, base, mut pc) = { let fr = st.frames.last().unwrap(); (fr.f, fr.base as usize, fr.pc as usize) };
            // run inside this frame
            loop {
                st.icount += 1;
                check += 1;
                if check & 0xffff == 0 {
                    if st.icount > self.limit { return Ok(End::Limit); }
                    if std::time::Instant::now() > self.deadline { return Ok(End::Timeout); }
                }
                let ins = &f.code[pc];
                match ins {
                    Ins::Bin { op, w, dst, a, b } => {
                        let r = match (rd(st, base, a), rd(st, base, b)) {
                            (Some(x), Some(y)) if *w <= 64 => Val::I(bin64(*op, x, y, *w)),
                            _ => { let x = opd!(st, base, a); let y = opd!(st, base, b); self.bin(*op, *w, &x, &y) }
                        };
                        st.slots[base + *dst as usize] = r;
                        pc += 1;
                    }
                    Ins::Icmp { p, w, dst, a, b } => {
                        let r = match (rd(st, base, a), rd(st, base, b)) {
                            (Some(x), Some(y)) => Val::I(icmp64(*p, x, y, *w) as u64),
                            _ => { let x = opd!(st, base, a); let y = opd!(st, base, b); self.icmp(*p, *w, &x, &y) }
                        };
                        st.slots[base + *dst as usize] = r;
                        pc += 1;
                    }
                    Ins::LoadI { dst, p, bytes, w } => {
                        let r = match rd(st, base, p) {
                            Some(a) => match st.mem.read_int(a, *bytes as usize) {
                                Ok(v) => Val::I(v & mask64(*w)),
                                Err(Some(f)) => { st.frames.last_mut().unwrap().pc = pc as u32; return Err(f.into()) }
                                Err(None) => self.load_int(st, a, *bytes as usize, *w)?,
                            },
                            None => {
                                let pv = opd!(st, base, p);
                                let l = if let Val::X(e) = pv { self.load_lut(st, e, *bytes as usize, *w) } else { None };
                                match l { Some(v) => v, None => { let a = self.cint(st, base, pc, p)?; self.load_int(st, a, *bytes as usize, *w)? } }
                            }
                        };
                        st.slots[base + *dst as usize] = r;
                        pc += 1;
                    }
                    Ins::StoreI { v, p, bytes, w } => {
                        let a = self.cint(st, base, pc, p)?;
                        match rd(st, base, v) {
                            Some(x) => if let Err(f) = st.mem.write_int(a, *bytes as usize, x) { st.frames.last_mut().unwrap().pc = pc as u32; return Err(f.into()) },
                            None => { let x = opd!(st, base, v); let e = self.to_e(&x, *w); st.mem.write_expr(&mut self.ar, a, *bytes as usize, e)?; }
                        }
                        pc += 1;
                    }
                    Ins::Gep { dst, base: b, off, terms } => {
                        let r = match rd(st, base, b) {
                            Some(mut x) => {
                                x = x.wrapping_add(*off as u64);
                                let mut ok = true;
                                for (o, sc, w) in terms.iter() {
                                    match rd(st, base, o) { Some(v) => x = x.wrapping_add(sx64(v, *w).wrapping_mul(*sc) as u64), None => { ok = false; break; } }
                                }
                                if ok { Some(Val::I(x)) } else { None }
                            }
                            None => None,
                        };
                        let r = match r { Some(r) => r, None => {
                            let bv = opd!(st, base, b);
                            let mut e = self.to_e(&bv, 64);
                            let k = self.ar.cst(*off as u64 as u128, 64);
                            e = self.ar.bin(Bop::Add, e, k);
                            for (o, sc, w) in terms.iter() {
                                let ov = opd!(st, base, o);
                                let mut t = self.to_e(&ov, *w);
                                if *w < 64 { t = self.ar.sext(t, 64); } else if *w > 64 { t = self.ar.extract(t, 0, 64); }
                                let s = self.ar.cst(*sc as u64 as u128, 64);
                                t = self.ar.bin(Bop::Mul, t, s);
                                e = self.ar.bin(Bop::Add, e, t);
                            }
                            self.from_e(e)
                        } };
                        st.slots[base + *dst as usize] = r;
                        pc += 1;
                    }
                    Ins::Br(e) => { pc = self.take_edge(st, base, e); }
                    Ins::CondBr(c, es) => {
                        let t = match rd(st, base, c) {
                            Some(v) => v & 1 == 1,
                            None => {
                                let cv = opd!(st, base, c);
                                let Val::X(e) = cv else { return unsup("branch on aggregate") };
                                let t = self.decide_bool(st, pc, e)?;
                                if let Opd::S(i) = c { st.slots[base + *i as usize] = Val::I(t as u64); }
                                t
                            }
                        };
                        pc = self.take_edge(st, base, if t { &es.0 } else { &es.1 });
                    }
                    Ins::Select { dst, c, a, b, ty, vc } => {
                        let r = if *vc {
                            let cv = opd!(st, base, c);
                            let (av, bv) = (opd!(st, base, a), opd!(st, base, b));
                            let (Val::A(cl), Val::A(al), Val::A(bl), Ty::Vec(_, et)) = (cv, av, bv, &**ty) else { return unsup("vector select") };
                            let mut out = vec![];
                            for i in 0..cl.len() {
                                out.push(match &cl[i] { Val::I(v) => if *v & 1 == 1 { al[i].clone() } else { bl[i].clone() }, Val::X(e) => self.ite(*e, &al[i], &bl[i], et).unwrap(), _ => return unsup("vector select") });
                            }
                            Val::A(Rc::new(out))
                        } else {
                            match rd(st, base, c) {
                                Some(v) => if v & 1 == 1 { opd!(st, base, a) } else { opd!(st, base, b) },
                                None => {
                                    let Val::X(e) = opd!(st, base, c) else { return unsup("select on aggregate") };
                                    let (av, bv) = (opd!(st, base, a), opd!(st, base, b));
                                    match self.ar.tern(e, &st.doms) {
                                        Some(true) => av,
                                        Some(false) => bv,
                                        None => match self.ite(e, &av, &bv, ty) { Some(v) => v, None => return unsup("select type") },
                                    }
                                }
                            }
                        };
                        st.slots[base + *dst as usize] = r;
                        pc += 1;
                    }
                    Ins::Cast { op, from, to, dst, a } => {
                        let r = match rd(st, base, a) {
                            Some(v) if *to <= 64 => match op { Cast::Trunc => Val::I(v & mask64(*to)), Cast::Sext => Val::I(sx64(v, *from) as u64 & mask64(*to)), _ => Val::I(v) },
                            _ => { let x = opd!(st, base, a); self.cast(*op, *from, *to, &x) }
                        };
                        st.slots[base + *dst as usize] = r;
                        pc += 1;
                    }
                    Ins::Switch { v, w, cases, edges } => {
                        let k = match rd(st, base, v) {
                            Some(x) => cases.iter().find(|c| c.0 == x as u128).map(|c| c.1).unwrap_or(0),
                            None => {
                                let sv = opd!(st, base, v);
                                let e = match sv { Val::X(e) => e, Val::W(x) => self.ar.cst(*x, *w), _ => return unsup("switch on aggregate") };
                                let mut conds = vec![self.ar.f; edges.len()];
                                let mut any = self.ar.f;
                                for (c, k) in cases.iter() {
                                    if *k == 0 { continue; }
                                    let cc = self.ar.cst(*c, *w);
                                    let q = self.ar.cmp(Cop::Eq, e, cc);
                                    conds[*k as usize] = self.ar.bin(Bop::Or, conds[*k as usize], q);
                                    any = self.ar.bin(Bop::Or, any, q);
                                }
                                conds[0] = self.ar.not1(any);
                                let mut hit = None;
                                for (i, c) in conds.iter().enumerate() { if self.ar.tern(*c, &st.doms) == Some(true) { hit = Some(i); } }
                                match hit { Some(i) => i as u32, None => {
                                    // NB: the slot keeps the symbolic value: one decision per execution of this instruction
                                    self.decide(st, pc, &conds)? as u32
                                } }
                            }
                        };
                        pc = self.take_edge(st, base, &edges[k as usize]);
                    }
                    Ins::Call(ci, _, edge) => {
                        match self.call(st, base, pc, ci)? {
                            CallR::Entered => break,
                            CallR::Val(v) => {
                                if ci.dst != u32::MAX { st.slots[base + ci.dst as usize] = v; }
                                match edge { Some(e) => pc = self.take_edge(st, base, e), None => pc += 1 }
                            }
                            CallR::End(e) => { st.frames.last_mut().unwrap().pc = pc as u32; return Ok(e) }
                        }
                    }
                    Ins::Ret(v) => {
                        let r = match v { Some(o) => opd!(st, base, o), None => Val::I(0) };
                        let fr = st.frames.pop().unwrap();
                        st.sp = fr.sp;
                        st.slots.truncate(fr.base as usize);
                        let Some(cf) = st.frames.last() else { return Ok(End::Done) };
                        let (cfu, cb, cpc) = (cf.f, cf.base as usize, cf.pc as usize);
                        let Ins::Call(ci, _, edge) = &cfu.code[cpc] else { return unsup("return to non-call") };
                        if ci.dst != u32::MAX { st.slots[cb + ci.dst as usize] = r; }
                        let npc = match edge { Some(e) => self.take_edge(st, cb, e), None => cpc + 1 };
                        st.frames.last_mut().unwrap().pc = npc as u32;
                        break;
                    }
                    Ins::Unreachable => { st.frames.last_mut().unwrap().pc = pc as u32; return Ok(End::Fault("unreachable".into())) }
                    Ins::Alloca { dst, size, align, n } => {
                        let k = self.cint(st, base, pc, n)?;
                        let tot = size * k;
                        let al = (*align).max(16);
                        st.sp = (st.sp - tot) / al * al;
                        if st.sp < STACK_END + 0x10000 { return Ok(End::Fault("stack overflow".into())); }
                        st.slots[base + *dst as usize] = Val::I(st.sp);
                        pc += 1;
                    }
                    Ins::ExtractValue { dst, a, path } => {
                        let mut v = opd!(st, base, a);
                        for i in path.iter() { v = match &v { Val::A(l) => l[*i as usize].clone(), _ => return unsup("extractvalue") }; }
                        st.slots[base + *dst as usize] = v;
                        pc += 1;
                    }
                    Ins::InsertValue { dst, a, v, path, ty } => {
                        let av = opd!(st, base, a);
                        let vv = opd!(st, base, v);
                        let r = insert_val(av, &path[..], vv, ty);
                        st.slots[base + *dst as usize] = r;
                        pc += 1;
                    }
                    Ins::Load { dst, p, ty } => {
                        let a = self.cint(st, base, pc, p)?;
                        let v = self.load(st, a, ty)?;
                        st.slots[base + *dst as usize] = v;
                        pc += 1;
                    }
                    Ins::Store { v, p, ty } => {
                        let a = self.cint(st, base, pc, p)?;
                        let x = opd!(st, base, v);
                        self.store(st, a, &x, ty)?;
                        pc += 1;
                    }
                    Ins::Freeze { dst, a } => { let v = opd!(st, base, a); st.slots[base + *dst as usize] = v; pc += 1; }
                    Ins::Nop => pc += 1,
                    Ins::VBin { op, w, dst, a, b } => {
                        let (Val::A(x), Val::A(y)) = (opd!(st, base, a), opd!(st, base, b)) else { return unsup("vbin") };
                        let mut out = Vec::with_capacity(x.len());
                        for i in 0..x.len() { out.push(self.bin(*op, *w, &x[i], &y[i])); }
                        st.slots[base + *dst as usize] = Val::A(Rc::new(out));
                        pc += 1;
                    }
                    Ins::VIcmp { p, w, dst, a, b } => {
                        let (Val::A(x), Val::A(y)) = (opd!(st, base, a), opd!(st, base, b)) else { return unsup("vicmp") };
                        let mut out = Vec::with_capacity(x.len());
                        for i in 0..x.len() { out.push(self.icmp(*p, *w, &x[i], &y[i])); }
                        st.slots[base + *dst as usize] = Val::A(Rc::new(out));
                        pc += 1;
                    }
                    Ins::VCast { op, from, to, dst, a } => {
                        let v = opd!(st, base, a);
                        let r = match (op, &**from, &**to) {
                            (Cast::Bit, f, t) => {
                                let e = self.flatten(&v, f);
                                self.unflatten(e, t)
                            }
                            (op, Ty::Vec(_, ft), Ty::Vec(_, tt)) => {
                                let Val::A(l) = v else { return unsup("vcast") };
                                let mut out = vec![];
                                for x in l.iter() { out.push(self.cast(*op, ft.bits(), tt.bits(), x)); }
                                Val::A(Rc::new(out))
                            }
                            _ => return unsup("vcast"),
                        };
                        st.slots[base + *dst as usize] = r;
                        pc += 1;
                    }
                    Ins::ExtractElt { dst, a, i } => {
                        let k = self.cint(st, base, pc, i)?;
                        let Val::A(l) = opd!(st, base, a) else { return unsup("extractelement") };
                        st.slots[base + *dst as usize] = l[k as usize].clone();
                        pc += 1;
                    }
                    Ins::InsertElt { dst, a, v, i } => {
                        let k = self.cint(st, base, pc, i)?;
                        let Val::A(mut l) = opd!(st, base, a) else { return unsup("insertelement") };
                        let vv = opd!(st, base, v);
                        Rc::make_mut(&mut l)[k as usize] = vv;
                        st.slots[base + *dst as usize] = Val::A(l);
                        pc += 1;
                    }
                    Ins::Shuffle { dst, a, b, n, mask } => {
                        let (Val::A(x), Val::A(y)) = (opd!(st, base, a), opd!(st, base, b)) else { return unsup("shuffle") };
                        let out: Vec<Val> = mask.iter().map(|k| if *k < *n { x[*k as usize].clone() } else { y[(*k - *n) as usize].clone() }).collect();
                        st.slots[base + *dst as usize] = Val::A(Rc::new(out));
                        pc += 1;
                    }
                    Ins::AtomicRmw { dst, op, p, v, w } => {
                        let a = self.cint(st, base, pc, p)?;
                        let n = (*w as usize + 7) / 8;
                        let old = self.load_int(st, a, n, *w)?;
                        let x = opd!(st, base, v);
                        let new = match op {
                            Rmw::Xchg => x,
                            Rmw::Add => self.bin(Bin::Add, *w, &old, &x),
                            Rmw::Sub => self.bin(Bin::Sub, *w, &old, &x),
                            Rmw::And => self.bin(Bin::And, *w, &old, &x),
                            Rmw::Or => self.bin(Bin::Or, *w, &old, &x),
                            Rmw::Xor => self.bin(Bin::Xor, *w, &old, &x),
                            _ => return unsup("atomicrmw"),
                        };
                        self.store(st, a, &new, &Ty::Int(*w))?;
                        st.slots[base + *dst as usize] = old;
                        pc += 1;
                    }
                    Ins::CmpXchg { dst, p, c, n, w } => {
                        let a = self.cint(st, base, pc, p)?;
                        let old = self.load_int(st, a, (*w as usize + 7) / 8, *w)?;
                        let cv = opd!(st, base, c);
                        let nv = opd!(st, base, n);
                        let Val::I(eq) = self.icmp(Pred::Eq, *w, &old, &cv) else { return unsup("symbolic cmpxchg") };
                        if eq == 1 { self.store(st, a, &nv, &Ty::Int(*w))?; }
                        st.slots[base + *dst as usize] = Val::A(Rc::new(vec![old, Val::I(eq)]));
                        pc += 1;
                    }
                    Ins::Unsupported(s) => { st.frames.last_mut().unwrap().pc = pc as u32; return unsup(format!("instruction {}", s)) }
                }
            }
        }
    }

    fn call(&mut self, st: &mut State, base: usize, pc: usize, ci: &CallI) -> R<CallR> {
        let fi = match &ci.callee {
            Callee::F(f) => *f,
            Callee::P(o) => {
                let a = self.cint(st, base, pc, o)?;
                match self.m.addr2func.get(&a) { Some(f) => *f, None => return Err(Stop::End(End::Fault(format!("call of {:#x}", a)))) }
            }
            Callee::Asm(cpuid) => return Ok(CallR::Val(if *cpuid { zero_of(&ci.rty) } else { Val::I(0) })),
            Callee::Intr(i, w) => return self.intrinsic(st, base, pc, ci, *i, *w),
        };
        let d = &self.m.funcs[fi as usize];
        match d.kind {
            Kind::Normal => {
                let f = self.m.body(fi);
                st.frames.last_mut().unwrap().pc = pc as u32;
                let nb = st.slots.len();
                st.slots.reserve(f.nslots as usize);
                for (i, a) in ci.args.iter().enumerate() {
                    if i >= f.nparams as usize { break; }
                    let v = opd!(st, base, a);
                    st.slots.push(v);
                }
                st.slots.resize(nb + f.nslots as usize, Val::I(0));
                if st.frames.len() > 200_000 { return Ok(CallR::End(End::Fault("call depth".into()))); }
                st.frames.push(Frame { f, pc: 0, base: nb as u32, sp: st.sp });
                st.peak = st.peak.max(st.frames.len() as u32);
                Ok(CallR::Entered)
            }
            Kind::Panic => Ok(CallR::End(End::Panic(d.name.clone()))),
            Kind::Missing => { let n = d.name.clone(); st.frames.last_mut().unwrap().pc = pc as u32; unsup(format!("external function {}", n)) }
            Kind::Builtin(b) => self.builtin(st, base, pc, ci, BUILTINS[b as usize]),
        }
    }

    pub fn malloc(&mut self, st: &mut State, n: u64, al: u64) -> R<u64> {
        let al = al.max(16);
        let p = (st.heap + 16 + al - 1) / al * al;
        if n > 0x1000_0000 || p + n >= HEAP_END { return unsup(format!("heap exhausted ({} bytes)", n)); }
        st.mem.write_int(p - 8, 8, n)?;
        st.heap = p + n;
        Ok(p)
    }

    fn builtin(&mut self, st: &mut State, base: usize, pc: usize, ci: &CallI, name: &str) -> R<CallR> {
        macro_rules! arg { ($i:expr) => { self.cint(st, base, pc, &ci.args[$i])? } }
        let v = |x: u64| Ok(CallR::Val(Val::I(x)));
        match name {
            "malloc" => { let n = arg!(0); let p = self.malloc(st, n, 16)?; v(p) }
            "calloc" => { let n = arg!(0) * arg!(1); let p = self.malloc(st, n, 16)?; st.mem.fill(p, 0, n)?; v(p) }
            "posix_memalign" => { let pp = arg!(0); let al = arg!(1); let n = arg!(2); let p = self.malloc(st, n, al)?; st.mem.write_int(pp, 8, p)?; v(0) }
            "free" => {
                let p = arg!(0);
                if p != 0 {
                    let n = match st.mem.read_int(p - 8, 8) { Ok(n) => n, _ => return unsup("free") };
                    if p + n == st.heap { st.heap = p - 16; }
                }
                v(0)
            }
            "realloc" => {
                let p = arg!(0);
                let n = arg!(1);
                if p == 0 { let q = self.malloc(st, n, 16)?; return v(q); }
                let old = match st.mem.read_int(p - 8, 8) { Ok(n) => n, _ => return unsup("realloc") };
                if p + old == st.heap && p + n < HEAP_END {
                    st.mem.write_int(p - 8, 8, n)?;
                    st.heap = p + n;
                    return v(p);
                }
                let q = self.malloc(st, n, 16)?;
                st.mem.copy(q, p, old.min(n))?;
                v(q)
            }
            "bcmp" | "memcmp" => {
                let (a, b, n) = (arg!(0), arg!(1), arg!(2));
                let x = st.mem.bytes(a, n)?;
                let y = st.mem.bytes(b, n)?;
                // first concretely different byte bounds the comparison
                if name == "bcmp" {
                    let mut acc = self.ar.t;
                    for i in 0..n as usize {
                        match (x[i], y[i]) {
                            (Ok(p), Ok(q)) => if p != q { acc = self.ar.f; break; },
                            (p, q) => {
                                let p = match p { Ok(k) => self.ar.cst(k as u128, 8), Err(e) => e };
                                let q = match q { Ok(k) => self.ar.cst(k as u128, 8), Err(e) => e };
                                let c = self.ar.cmp(Cop::Eq, p, q);
                                acc = self.ar.bin(Bop::And, acc, c);
                            }
                        }
                    }
                    let one = self.ar.cst(1, 32);
                    let z = self.ar.cst(0, 32);
                    let r = self.ar.ite(acc, z, one);
                    Ok(CallR::Val(self.from_e(r)))
                } else {
                    let z = self.ar.cst(0, 32);
                    let one = self.ar.cst(1, 32);
                    let neg = self.ar.cst(u32::MAX as u128, 32);
                    let mut end = n as usize;
                    for i in 0..n as usize { if let (Ok(p), Ok(q)) = (x[i], y[i]) { if p != q { end = i + 1; break; } } }
                    let mut acc = z;
                    for i in (0..end).rev() {
                        let p = match x[i] { Ok(k) => self.ar.cst(k as u128, 8), Err(e) => e };
                        let q = match y[i] { Ok(k) => self.ar.cst(k as u128, 8), Err(e) => e };
                        let eq = self.ar.cmp(Cop::Eq, p, q);
                        let lt = self.ar.cmp(Cop::Ult, p, q);
                        let s = self.ar.ite(lt, neg, one);
                        acc = self.ar.ite(eq, acc, s);
                    }
                    Ok(CallR::Val(self.from_e(acc)))
                }
            }
            "strlen" => {
                let a = arg!(0);
                let mut n = 0;
                loop { match st.mem.get(a + n)? { Ok(0) => break, Ok(_) => n += 1, Err(_) => return unsup("symbolic strlen") } }
                v(n)
            }
            "rust_psm_stack_pointer" => v(st.sp),
            "pthread_self" => v(1),
            "gettid" => v(1),
            "pthread_getattr_np" | "pthread_attr_init" | "pthread_attr_destroy" | "pthread_setspecific" | "pthread_key_delete" | "mprotect" | "munmap" => v(0),
            "pthread_attr_getstack" => {
                let (pa, ps) = (arg!(1), arg!(2));
                st.mem.write_int(pa, 8, STACK_END)?;
                st.mem.write_int(ps, 8, STACK_TOP - STACK_END)?;
                v(0)
            }
            "pthread_attr_getguardsize" => { let p = arg!(1); st.mem.write_int(p, 8, 4096)?; v(0) }
            "pthread_key_create" => { let p = arg!(0); st.mem.write_int(p, 4, 1)?; v(0) }
            "__cxa_thread_atexit_impl" => v(0),
            "getenv" => v(0),
            "__errno_location" => v(ERRNO),
            "syscall" => {
                let n = arg!(0);
                if n != 318 { return unsup(format!("syscall {}", n)); }
                let (p, k) = (arg!(1), arg!(2));
                st.mem.fill(p, 7, k)?;
                v(k)
            }
            // no file system: every open or stat fails with ENOENT
            "open64" | "readlink" | "stat64" | "fstat64" | "statx" => {
                st.mem.write_int(ERRNO, 4, 2)?;
                v(if name == "readlink" { u64::MAX } else { u32::MAX as u64 })
            }
            // one processor
            "sched_getaffinity" => { let (n, p) = (arg!(1), arg!(2)); st.mem.fill(p, 0, n)?; st.mem.write_int(p, 1, 1)?; v(0) }
            "sysconf" => v(4096),
            "getrandom" => { let (p, n) = (arg!(0), arg!(1)); st.mem.fill(p, 7, n)?; v(n) }
            "@hash_one" => Ok(CallR::Val(Val::I(0x1234_5678_9abc_def0))),
            "mmap64" => { let n = arg!(1); let p = self.malloc(st, n + 4096, 4096)?; v(p) }
            "abort" => Ok(CallR::End(End::Panic("abort".into()))),
            "sym_part" => {
                let (i, p, cap) = (arg!(0), arg!(1), arg!(2));
                if i == 99 {
                    if cap == 0 { return v(st.kept.len() as u64); }
                    if st.kept.len() as u64 > cap { return unsup("part too long"); }
                    let kept = st.kept.clone();
                    for (k, b) in kept.iter().enumerate() {
                        match b {
                            Ok(c) => st.mem.write_int(p + k as u64, 1, *c as u64)?,
                            Err(e) => st.mem.set_sym(p + k as u64, *e)?,
                        }
                    }
                    return v(kept.len() as u64);
                }
                let parts = st.parts.clone();
                if i as usize >= parts.len() { return v(0); }
                let part = &parts[i as usize];
                if cap == 0 { return v(part.len() as u64); }
                if part.len() as u64 > cap { return unsup("part too long"); }
                for (k, b) in part.iter().enumerate() {
                    match b {
                        PB::C(c) => st.mem.write_int(p + k as u64, 1, *c as u64)?,
                        PB::V(x) => { let e = self.ar.var(*x); st.mem.set_sym(p + k as u64, e)?; }
                    }
                }
                v(part.len() as u64)
            }
            "sym_assume" => {
                let c = arg!(0);
                if c & 1 == 0 { Ok(CallR::End(End::Assume)) } else { v(0) }
            }
            "sym_fail" => { let id = arg!(0); Ok(CallR::End(End::Fail(id as u32))) }
            "sym_reach" => { let id = arg!(0); st.reach |= 1 << (id & 63); v(0) }
            "sym_peak" => { // greatest depth of calls since the last request
                let now = st.frames.len() as u32;
                let d = st.peak.max(now) - now;
                st.peak = now;
                v(d as u64 * 64)
            }
            "sym_pick" => { let x = arg!(0); v(x) }
            "sym_round" => v(st.round as u64),
            "sym_keep" => {
                let (p, n) = (arg!(0), arg!(1));
                st.kept = st.mem.bytes(p, n)?;
                Ok(CallR::End(End::Again))
            }
            "sym_out" => {
                let (p, n) = (arg!(0), arg!(1));
                let b = st.mem.bytes(p, n)?;
                st.out.extend(b);
                st.out.push(Ok(0xff));
                v(0)
            }
            n => { st.frames.last_mut().unwrap().pc = pc as u32; unsup(format!("builtin {}", n)) }
        }
    }

    fn intrinsic(&mut self, st: &mut State, base: usize, pc: usize, ci: &CallI, i: Intr, w: u16) -> R<CallR> {
        macro_rules! arg { ($i:expr) => { self.cint(st, base, pc, &ci.args[$i])? } }
        macro_rules! val { ($i:expr) => { opd!(st, base, &ci.args[$i]) } }
        let unit = Ok(CallR::Val(Val::I(0)));
        match i {
            Intr::Memcpy | Intr::Memmove => {
                let (d, s, n) = (arg!(0), arg!(1), arg!(2));
                st.mem.copy(d, s, n)?;
                unit
            }
            Intr::Memset => {
                let (d, n) = (arg!(0), arg!(2));
                match val!(1) {
                    Val::I(v) => st.mem.fill(d, v as u8, n)?,
                    Val::X(e) => for k in 0..n { st.mem.set_sym(d + k, e)?; },
                    _ => return unsup("memset"),
                }
                unit
            }
            Intr::Nop | Intr::Assume => unit,
            Intr::Trap => Ok(CallR::End(End::Panic("trap".into()))),
            Intr::Tls | Intr::Expect => Ok(CallR::Val(val!(0))),
            Intr::IsConst => Ok(CallR::Val(Val::I(0))),
            Intr::Xgetbv => Ok(CallR::Val(Val::I(0))),
            Intr::Cttz | Intr::Ctlz | Intr::Ctpop | Intr::Bswap | Intr::Bitrev | Intr::Abs => {
                let a = val!(0);
                let r = match &a {
                    Val::I(v) => Val::I(match i {
                        Intr::Cttz => if *v == 0 { w as u64 } else { v.trailing_zeros() as u64 },
                        Intr::Ctlz => (v.leading_zeros() as u64) - (64 - w as u64),
                        Intr::Ctpop => v.count_ones() as u64,
                        Intr::Bswap => v.swap_bytes() >> (64 - w),
                        Intr::Bitrev => v.reverse_bits() >> (64 - w),
                        _ => (sx64(*v, w).wrapping_abs() as u64) & mask64(w),
                    }),
                    Val::X(e) => {
                        let e = *e;
                        let r = match i {
                            Intr::Cttz => {
                                let mut acc = self.ar.cst(w as u128, w);
                                for k in (0..w).rev() { let b = self.ar.extract(e, k, 1); let c = self.ar.cst(k as u128, w); acc = self.ar.ite(b, c, acc); }
                                acc
                            }
                            Intr::Ctlz => {
                                let mut acc = self.ar.cst(w as u128, w);
                                for k in 0..w { let b = self.ar.extract(e, k, 1); let c = self.ar.cst((w - 1 - k) as u128, w); acc = self.ar.ite(b, c, acc); }
                                acc
                            }
                            Intr::Ctpop => {
                                let mut acc = self.ar.cst(0, w);
                                for k in 0..w { let b = self.ar.extract(e, k, 1); let b = self.ar.zext(b, w); acc = self.ar.bin(Bop::Add, acc, b); }
                                acc
                            }
                            Intr::Bswap => {
                                let mut acc: Option<E> = None;
                                for k in (0..w / 8).rev() { let b = self.ar.extract(e, k * 8, 8); acc = Some(match acc { None => b, Some(a) => self.ar.concat(b, a) }); }
                                acc.unwrap()
                            }
                            Intr::Abs => {
                                let z = self.ar.cst(0, w);
                                let c = self.ar.cmp(Cop::Slt, e, z);
                                let n = self.ar.bin(Bop::Sub, z, e);
                                self.ar.ite(c, n, e)
                            }
                            _ => return unsup("symbolic bitreverse"),
                        };
                        self.from_e(r)
                    }
                    _ => return unsup("wide bit intrinsic"),
                };
                Ok(CallR::Val(r))
            }
            Intr::Fshl | Intr::Fshr => {
                let (a, b) = (val!(0), val!(1));
                let s = arg!(2) % w as u64;
                let s = if i == Intr::Fshr { (w as u64 - s) % w as u64 } else { s };
                // fshl: high w bits of (a:b) << s ; fshr s == fshl (w-s), with s=0 giving b
                if s == 0 { return Ok(CallR::Val(if i == Intr::Fshl { a } else { b })); }
                if w > 64 { return unsup("fshl width"); }
                let sh = Val::I(s);
                let x = self.bin(Bin::Shl, w, &a, &sh);
                let y = self.bin(Bin::LShr, w, &b, &Val::I(w as u64 - s));
                Ok(CallR::Val(self.bin(Bin::Or, w, &x, &y)))
            }
            Intr::Umax | Intr::Umin | Intr::Smax | Intr::Smin => {
                let (a, b) = (val!(0), val!(1));
                if let (Val::A(x), Val::A(y)) = (&a, &b) {
                    let Ty::Vec(_, t) = &ci.rty else { return unsup("minmax") };
                    let w = t.bits();
                    let (x, y) = (x.clone(), y.clone());
                    let mut out = vec![];
                    for k in 0..x.len() { out.push(self.minmax(i, w, &x[k], &y[k])); }
                    return Ok(CallR::Val(Val::A(Rc::new(out))));
                }
                Ok(CallR::Val(self.minmax(i, w, &a, &b)))
            }
            Intr::UaddSat | Intr::UsubSat => {
                let (a, b) = (val!(0), val!(1));
                let r = if i == Intr::UaddSat { self.bin(Bin::Add, w, &a, &b) } else { self.bin(Bin::Sub, w, &a, &b) };
                let (ov, sat) = if i == Intr::UaddSat { (self.icmp(Pred::Ult, w, &r, &a), mask64(w)) } else { (self.icmp(Pred::Ult, w, &a, &b), 0) };
                Ok(CallR::Val(match ov { Val::I(v) => if v == 1 { Val::I(sat) } else { r }, Val::X(e) => self.ite(e, &Val::I(sat), &r, &Ty::Int(w)).unwrap(), _ => return unsup("sat") }))
            }
            Intr::UaddO | Intr::UsubO | Intr::UmulO | Intr::SaddO | Intr::SsubO | Intr::SmulO => {
                let (a, b) = (val!(0), val!(1));
                if let (Val::I(x), Val::I(y)) = (&a, &b) {
                    let (x, y) = (*x, *y);
                    let (r, o): (u128, bool) = match i {
                        Intr::UaddO => { let r = x as u128 + y as u128; (r, r > mask128(w)) }
                        Intr::UsubO => ((x as u128).wrapping_sub(y as u128), x < y),
                        Intr::UmulO => { let r = x as u128 * y as u128; (r, r > mask128(w)) }
                        _ => {
                            let (p, q) = (sx64(x, w) as i128, sx64(y, w) as i128);
                            let r = match i { Intr::SaddO => p + q, Intr::SsubO => p - q, _ => p * q };
                            (r as u128, sext128(r as u128 & mask128(w), w) != r)
                        }
                    };
                    return Ok(CallR::Val(Val::A(Rc::new(vec![from128(r, w), Val::I(o as u64)]))));
                }
                let (x, y) = (self.to_e(&a, w), self.to_e(&b, w));
                if w > 64 { return unsup("wide overflow intrinsic"); }
                let op = match i { Intr::UaddO | Intr::SaddO => Bop::Add, Intr::UsubO | Intr::SsubO => Bop::Sub, _ => Bop::Mul };
                let r = self.ar.bin(op, x, y);
                let o = match i {
                    Intr::UaddO => self.ar.cmp(Cop::Ult, r, x),
                    Intr::UsubO => self.ar.cmp(Cop::Ult, x, y),
                    Intr::UmulO | Intr::SmulO | Intr::SaddO | Intr::SsubO => {
                        let (x2, y2, r2) = if i == Intr::UmulO { (self.ar.zext(x, 2 * w), self.ar.zext(y, 2 * w), self.ar.zext(r, 2 * w)) } else { (self.ar.sext(x, 2 * w), self.ar.sext(y, 2 * w), self.ar.sext(r, 2 * w)) };
                        let f = self.ar.bin(op, x2, y2);
                        let e = self.ar.cmp(Cop::Eq, f, r2);
                        self.ar.not1(e)
                    }
                    _ => unreachable!(),
                };
                Ok(CallR::Val(Val::A(Rc::new(vec![self.from_e(r), self.from_e(o)]))))
            }
            Intr::Scmp | Intr::Ucmp => {
                let (a, b) = (val!(0), val!(1));
                // the mangled name's last type is the operand type
                let rw = ci.rty.bits();
                let p = if i == Intr::Scmp { Pred::Slt } else { Pred::Ult };
                let lt = self.icmp(p, w, &a, &b);
                let gt = self.icmp(p, w, &b, &a);
                if let (Val::I(l), Val::I(g)) = (&lt, &gt) { return Ok(CallR::Val(Val::I(if *l == 1 { mask64(rw) } else { *g }))); }
                let l = self.to_e(&lt, 1);
                let g = self.to_e(&gt, 1);
                let m1 = self.ar.cst(u128::MAX, rw);
                let gz = self.ar.zext(g, rw);
                let r = self.ar.ite(l, m1, gz);
                Ok(CallR::Val(self.from_e(r)))
            }
            Intr::VecReduceOr | Intr::VecReduceAnd | Intr::VecReduceAdd => {
                let Val::A(l) = val!(0) else { return unsup("reduce") };
                let w = ci.rty.bits();
                let op = match i { Intr::VecReduceOr => Bin::Or, Intr::VecReduceAnd => Bin::And, _ => Bin::Add };
                let mut acc = l[0].clone();
                for x in l[1..].iter() { acc = self.bin(op, w, &acc, x); }
                Ok(CallR::Val(acc))
            }
            _ => unsup(format!("intrinsic {:?}", i)),
        }
    }
    fn minmax(&mut self, i: Intr, w: u16, a: &Val, b: &Val) -> Val {
        let p = match i { Intr::Umax => Pred::Ugt, Intr::Umin => Pred::Ult, Intr::Smax => Pred::Sgt, _ => Pred::Slt };
        match self.icmp(p, w, a, b) { Val::I(1) => a.clone(), Val::I(_) => b.clone(), Val::X(e) => self.ite(e, a, b, &Ty::Int(w)).unwrap(), _ => unreachable!() }
    }
}

/// a fixed cell below the globals
const ERRNO: u64 = 0x80000;

enum CallR {
    Val(Val),
    Entered,
    End(End),
}

fn mfirst_pref(m: &Mask) -> u8 {
    // prefer readable witnesses
    for r in [b'a'..=b'z', b'A'..=b'Z', b'0'..=b'9', b' '..=b'~'] { for b in r { if mhas(m, b) { return b; } } }
    mfirst(m)
}

fn insert_val(a: Val, path: &[u32], v: Val, ty: &Ty) -> Val {
    if path.is_empty() { return v; }
    let i = path[0] as usize;
    let Val::A(mut l) = a else { panic!("insertvalue into scalar") };
    let t = match ty { Ty::Struct(f, _) => f[i].clone(), Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => panic!() };
    let old = l[i].clone();
    let n = insert_val(old, &path[1..], v, &t);
    Rc::make_mut(&mut l)[i] = n;
    Val::A(l)
}

fn to128(v: &Val) -> u128 { match v { Val::I(x) => *x as u128, Val::W(x) => **x, _ => panic!("to128") } }

#[inline(always)]
fn rd(st: &State, base: usize, o: &Opd) -> Option<u64> {
    match o {
        Opd::S(i) => if let Val::I(v) = &st.slots[base + *i as usize] { Some(*v) } else { None },
        Opd::I(v) => Some(*v),
        Opd::C(_) => None,
    }
}

#[inline(always)]
fn bin64(op: Bin, a: u64, b: u64, w: u16) -> u64 {
    let m = mask64(w);
    let r = match op {
        Bin::Add => a.wrapping_add(b),
        Bin::Sub => a.wrapping_sub(b),
        Bin::Mul => a.wrapping_mul(b),
        Bin::And => a & b,
        Bin::Or => a | b,
        Bin::Xor => a ^ b,
        Bin::Shl => if b >= w as u64 { 0 } else { a << b },
        Bin::LShr => if b >= w as u64 { 0 } else { a >> b },
        _ => return bin_const(bop(op), a as u128, b as u128, w) as u64,
    };
    r & m
}
#[inline(always)]
fn icmp64(p: Pred, a: u64, b: u64, w: u16) -> bool {
    match p {
        Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ult => a < b, Pred::Ule => a <= b, Pred::Ugt => a > b, Pred::Uge => a >= b,
        Pred::Slt => sx64(a, w) < sx64(b, w), Pred::Sle => sx64(a, w) <= sx64(b, w), Pred::Sgt => sx64(a, w) > sx64(b, w), Pred::Sge => sx64(a, w) >= sx64(b, w),
    }
}

pub fn bt(st: &State) -> String {
    st.frames.iter().rev().take(6).map(|f| format!("{}:{}", crate::demangle(&f.f.name), f.pc)).collect::<Vec<_>>().join(" < ")
}
