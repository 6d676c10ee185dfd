//! Reader for the textual LLVM IR that rustc emits (one post-LTO module).
//! Function bodies are decoded lazily, on first execution.
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Vec(u32, Box<Ty>),
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => 0,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                if b > 8 { (b + 15) / 16 * 16 } else { b.next_power_of_two() }
            }
            Ty::Ptr => 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            Ty::Arr(n, t) => n * t.alloc_size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed { o = (o + t.align() - 1) / t.align() * t.align(); }
                    o += t.alloc_size();
                }
                if !packed { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            _ => 0,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn alloc_size(&self) -> u64 {
        let a = self.align();
        (self.size() + a - 1) / a * a
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr => 8,
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed { o = (o + t.align() - 1) / t.align() * t.align(); }
                    if k == i { return o; }
                    o += t.alloc_size();
                }
                o
            }
            Ty::Arr(_, t) => t.alloc_size() * i as u64,
            _ => panic!("field_off"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum CVal {
    I(u64),
    W(u128),
    A(Vec<CVal>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    S(u32),
    I(u64),
    C(Arc<CVal>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Zext, Sext, Trunc, Bit }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Max, Min, UMax, UMin, Nand }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Memcpy, Memmove, Memset, Nop, Assume, Trap, Cttz, Ctlz, Ctpop, Bswap, Bitrev, Fshl, Fshr,
    Umax, Umin, Smax, Smin, UaddSat, UsubSat, SaddSat, SsubSat,
    UaddO, UsubO, UmulO, SaddO, SsubO, SmulO, Scmp, Ucmp, Abs, IsConst, Tls, Pshufb, Xgetbv, Expect,
    VecReduceOr, VecReduceAnd, VecReduceAdd,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub pc: u32,
    pub moves: Box<[(u32, Opd)]>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    F(u32),
    P(Opd),
    Asm(bool), // true: cpuid
    Intr(Intr, u16),
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub dst: u32, // u32::MAX = none
    pub callee: Callee,
    pub args: Box<[Opd]>,
    pub rty: Ty,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: Bin, w: u16, dst: u32, a: Opd, b: Opd },
    Icmp { p: Pred, w: u16, dst: u32, a: Opd, b: Opd },
    Select { dst: u32, c: Opd, a: Opd, b: Opd, ty: Box<Ty>, vc: bool },
    Cast { op: Cast, from: u16, to: u16, dst: u32, a: Opd },
    VCast { op: Cast, from: Box<Ty>, to: Box<Ty>, dst: u32, a: Opd },
    VBin { op: Bin, w: u16, dst: u32, a: Opd, b: Opd },
    VIcmp { p: Pred, w: u16, dst: u32, a: Opd, b: Opd },
    LoadI { dst: u32, p: Opd, bytes: u8, w: u16 },
    Load { dst: u32, p: Opd, ty: Box<Ty> },
    StoreI { v: Opd, p: Opd, bytes: u8, w: u16 },
    Store { v: Opd, p: Opd, ty: Box<Ty> },
    Alloca { dst: u32, size: u64, align: u64, n: Opd },
    Gep { dst: u32, base: Opd, off: i64, terms: Box<[(Opd, i64, u16)]> },
    Call(Box<CallI>, u32 /* next pc for invoke, 0 otherwise */, Option<Box<Edge>>),
    Br(Box<Edge>),
    CondBr(Opd, Box<(Edge, Edge)>),
    Switch { v: Opd, w: u16, cases: Box<[(u128, u32)]>, edges: Box<[Edge]> }, // edge 0 = default
    Ret(Option<Opd>),
    Unreachable,
    ExtractValue { dst: u32, a: Opd, path: Box<[u32]> },
    InsertValue { dst: u32, a: Opd, v: Opd, path: Box<[u32]>, ty: Box<Ty> },
    ExtractElt { dst: u32, a: Opd, i: Opd },
    InsertElt { dst: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { dst: u32, a: Opd, b: Opd, n: u32, mask: Box<[u32]> },
    AtomicRmw { dst: u32, op: Rmw, p: Opd, v: Opd, w: u16 },
    CmpXchg { dst: u32, p: Opd, c: Opd, n: Opd, w: u16 },
    Freeze { dst: u32, a: Opd },
    Nop,
    Unsupported(Box<str>),
}

pub struct Func {
    pub name: String,
    pub nslots: u32,
    pub nparams: u32,
    pub code: Vec<Ins>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Normal, Panic, Builtin(u16), Missing }

pub struct FuncDecl {
    pub name: String,
    pub range: Option<(usize, usize)>, // byte range of the text, header included
    pub body: OnceLock<Func>,
    pub kind: Kind,
    pub addr: u64,
    pub weak: bool,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub init: Vec<u8>,
    pub constant: bool,
}

pub struct Module {
    pub text: Vec<u8>,
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gaddr: HashMap<String, u64>,
    pub addr2func: HashMap<u64, u32>,
    pub executed: Mutex<std::collections::BTreeSet<u32>>,
}

pub const FUNC_BASE: u64 = 0x1000;
pub const GLOBAL_BASE: u64 = 0x10_0000;

// ---------------------------------------------------------------- lexer
#[derive(Clone, Debug, PartialEq)]
enum Tok {
    L(String),
    G(String),
    Num(String),
    Id(String),
    P(u8),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    Meta,
    Attr,
    Dots,
}

fn is_name(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') }

fn lex(s: &[u8]) -> Vec<Tok> {
    let mut v = Vec::with_capacity(s.len() / 5 + 4);
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => { while i < s.len() && s[i] != b'\n' { i += 1; } }
            b'%' | b'@' => {
                let (name, j) = lex_name(s, i + 1);
                v.push(if c == b'%' { Tok::L(name) } else { Tok::G(name) });
                i = j;
            }
            b'"' => { let (b, j) = lex_str(s, i + 1); v.push(Tok::Str(b)); i = j; }
            b'c' if i + 1 < s.len() && s[i + 1] == b'"' => { let (b, j) = lex_str(s, i + 2); v.push(Tok::CStr(b)); i = j; }
            b'!' => {
                i += 1;
                if i < s.len() && (s[i] == b'"') { let (_, j) = lex_str(s, i + 1); i = j; }
                else { while i < s.len() && is_name(s[i]) { i += 1; } }
                v.push(Tok::Meta);
            }
            b'#' => { i += 1; while i < s.len() && s[i].is_ascii_digit() { i += 1; } v.push(Tok::Attr); }
            b'.' if s[i..].starts_with(b"...") => { v.push(Tok::Dots); i += 3; }
            b'-' | b'0'..=b'9' => {
                let j = i;
                i += 1;
                while i < s.len() && is_name(s[i]) { i += 1; }
                v.push(Tok::Num(String::from_utf8_lossy(&s[j..i]).into_owned()));
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let j = i;
                while i < s.len() && is_name(s[i]) { i += 1; }
                v.push(Tok::Id(String::from_utf8_lossy(&s[j..i]).into_owned()));
            }
            _ => { v.push(Tok::P(c)); i += 1; }
        }
    }
    v
}
fn lex_name(s: &[u8], i: usize) -> (String, usize) {
    if i < s.len() && s[i] == b'"' {
        let (b, j) = lex_str(s, i + 1);
        return (String::from_utf8_lossy(&b).into_owned(), j);
    }
    let mut j = i;
    while j < s.len() && is_name(s[j]) { j += 1; }
    (String::from_utf8_lossy(&s[i..j]).into_owned(), j)
}
fn lex_str(s: &[u8], mut i: usize) -> (Vec<u8>, usize) {
    let mut b = vec![];
    while s[i] != b'"' {
        if s[i] == b'\\' {
            if s[i + 1] == b'\\' { b.push(b'\\'); i += 2; continue; }
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            b.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else { b.push(s[i]); i += 1; }
    }
    (b, i + 1)
}

// ---------------------------------------------------------------- parser
struct P<'a> {
    t: &'a [Tok],
    i: usize,
    m: &'a Module,
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<&'a Tok> { self.t.get(self.i) }
    fn next(&mut self) -> &'a Tok { let t = &self.t[self.i]; self.i += 1; t }
    fn isp(&self, c: u8) -> bool { matches!(self.peek(), Some(Tok::P(x)) if *x == c) }
    fn isid(&self, s: &str) -> bool { matches!(self.peek(), Some(Tok::Id(x)) if x == s) }
    fn eat(&mut self, c: u8) -> bool { if self.isp(c) { self.i += 1; true } else { false } }
    fn eatid(&mut self, s: &str) -> bool { if self.isid(s) { self.i += 1; true } else { false } }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) { panic!("expected {:?} at {:?}", c as char, &self.t[self.i.saturating_sub(8)..(self.i + 6).min(self.t.len())]); }
    }

    fn ty(&mut self) -> Ty {
        let t = match self.next() {
            Tok::Id(s) => match s.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.isid("addrspace") { self.i += 1; self.skip_parens(); }
                    Ty::Ptr
                }
                "label" | "metadata" | "token" | "float" | "double" | "x86_mmx" => Ty::Other,
                s if s.starts_with('i') && s[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(s[1..].parse().unwrap()),
                s => panic!("type {}", s),
            },
            Tok::P(b'[') => {
                let n = self.num() as u64;
                assert!(self.eatid("x"));
                let e = self.ty();
                self.expect(b']');
                Ty::Arr(n, Box::new(e))
            }
            Tok::P(b'{') => self.struct_body(false),
            Tok::P(b'<') => {
                if self.eat(b'{') {
                    let s = self.struct_body(true);
                    self.expect(b'>');
                    s
                } else {
                    let n = self.num() as u32;
                    assert!(self.eatid("x"));
                    let e = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n, Box::new(e))
                }
            }
            x => panic!("type token {:?} near {:?}", x, &self.t[self.i.saturating_sub(6)..(self.i + 6).min(self.t.len())]),
        };
        // function type: ret (params)
        if self.isp(b'(') { self.skip_parens(); }
        t
    }
    fn struct_body(&mut self, packed: bool) -> Ty {
        let mut f = vec![];
        while !self.eat(b'}') {
            f.push(self.ty());
            self.eat(b',');
        }
        Ty::Struct(f, packed)
    }
    fn skip_parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() { Tok::P(b'(') => d += 1, Tok::P(b')') => d -= 1, _ => {} }
        }
    }
    fn num(&mut self) -> i128 {
        match self.next() { Tok::Num(s) => s.parse().unwrap(), x => panic!("num {:?}", x) }
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Id(s)) => {
                    if is_const_kw(s) { return; }
                    let al = s == "align";
                    self.i += 1;
                    if self.isp(b'(') { self.skip_parens(); }
                    else if al { self.i += 1; }
                }
                Some(Tok::Str(_)) | Some(Tok::Attr) => self.i += 1,
                _ => return,
            }
        }
    }

    /// a constant of type ty, as bytes-independent value
    fn cval(&mut self, ty: &Ty) -> CVal {
        match self.next() {
            Tok::Num(s) => {
                if let Some(h) = s.strip_prefix("0x") { return CVal::I(u64::from_str_radix(h, 16).unwrap()); }
                let v: i128 = s.parse::<i128>().unwrap_or_else(|_| s.parse::<u128>().unwrap() as i128);
                let w = ty.bits();
                if w > 64 { CVal::W(v as u128 & if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }) }
                else { CVal::I((v as u128 & crate::expr::mask128(w)) as u64) }
            }
            Tok::Id(s) => match s.as_str() {
                "true" => CVal::I(1),
                "false" | "null" => CVal::I(0),
                "zeroinitializer" | "undef" | "poison" => zero(ty),
                "splat" => {
                    self.expect(b'(');
                    let t = self.ty();
                    let v = self.cval(&t);
                    self.expect(b')');
                    let n = if let Ty::Vec(n, _) = ty { *n } else { 1 };
                    CVal::A(vec![v; n as usize])
                }
                "getelementptr" => {
                    while matches!(self.peek(), Some(Tok::Id(s)) if matches!(s.as_str(), "inbounds" | "nuw" | "nusw" | "inrange")) {
                        self.i += 1;
                        if self.isp(b'(') && matches!(self.t.get(self.i - 1), Some(Tok::Id(s)) if s == "inrange") { self.skip_parens(); }
                    }
                    self.expect(b'(');
                    let bt = self.ty();
                    self.expect(b',');
                    let pt = self.ty();
                    let base = match self.cval(&pt) { CVal::I(v) => v, _ => panic!() };
                    let mut cur = bt;
                    let mut off = 0i64;
                    let mut first = true;
                    while self.eat(b',') {
                        let it = self.ty();
                        let ix = match self.cval(&it) { CVal::I(v) => sx(v, it.bits()), _ => panic!() };
                        if first { off += ix * cur.alloc_size() as i64; first = false; }
                        else {
                            off += match &cur { Ty::Arr(_, t) => ix * t.alloc_size() as i64, t => t.field_off(ix as usize) as i64 };
                            cur = match cur { Ty::Arr(_, t) => *t, Ty::Struct(f, _) => f[ix as usize].clone(), _ => panic!() };
                        }
                    }
                    self.expect(b')');
                    CVal::I(base.wrapping_add(off as u64))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast" => {
                    self.expect(b'(');
                    let t = self.ty();
                    let v = self.cval(&t);
                    assert!(self.eatid("to"));
                    let to = self.ty();
                    self.expect(b')');
                    match v {
                        CVal::I(x) => CVal::I((x as u128 & crate::expr::mask128(to.bits())) as u64),
                        v => v,
                    }
                }
                "add" | "sub" => {
                    let neg = s == "sub";
                    while matches!(self.peek(), Some(Tok::Id(_))) { self.i += 1; }
                    self.expect(b'(');
                    let t = self.ty();
                    let a = self.cval(&t);
                    self.expect(b',');
                    let t2 = self.ty();
                    let b = self.cval(&t2);
                    self.expect(b')');
                    match (a, b) {
                        (CVal::I(a), CVal::I(b)) => CVal::I(if neg { a.wrapping_sub(b) } else { a.wrapping_add(b) }),
                        _ => panic!(),
                    }
                }
                s => panic!("constant {} near {:?}", s, &self.t[self.i.saturating_sub(6)..(self.i + 6).min(self.t.len())]),
            },
            Tok::G(n) => CVal::I(self.m.sym(n)),
            Tok::CStr(b) => CVal::A(b.iter().map(|x| CVal::I(*x as u64)).collect()),
            Tok::P(b'[') => { let r = self.agg(b']'); r }
            Tok::P(b'{') => self.agg(b'}'),
            Tok::P(b'<') => {
                if self.eat(b'{') { let r = self.agg(b'}'); self.expect(b'>'); r } else { self.agg(b'>') }
            }
            Tok::Meta => CVal::I(0),
            x => panic!("const token {:?} near {:?}", x, &self.t[self.i.saturating_sub(6)..(self.i + 6).min(self.t.len())]),
        }
    }
    fn agg(&mut self, close: u8) -> CVal {
        let mut v = vec![];
        while !self.eat(close) {
            let t = self.ty();
            v.push(self.cval(&t));
            self.eat(b',');
        }
        CVal::A(v)
    }
}

fn is_const_kw(s: &str) -> bool {
    matches!(s, "true" | "false" | "null" | "zeroinitializer" | "undef" | "poison" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "add" | "sub" | "blockaddress" | "asm")
}
pub fn sx(v: u64, w: u16) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

fn zero(ty: &Ty) -> CVal {
    match ty {
        Ty::Int(w) if *w > 64 => CVal::W(0),
        Ty::Vec(n, t) => CVal::A(vec![zero(t); *n as usize]),
        Ty::Arr(n, t) => CVal::A(vec![zero(t); *n as usize]),
        Ty::Struct(f, _) => CVal::A(f.iter().map(zero).collect()),
        _ => CVal::I(0),
    }
}

pub fn put(out: &mut [u8], off: usize, ty: &Ty, v: &CVal) {
    match (ty, v) {
        (Ty::Int(w), CVal::I(x)) => { let n = ((*w as usize + 7) / 8).min(8); out[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]); }
        (Ty::Int(w), CVal::W(x)) => { let n = (*w as usize + 7) / 8; out[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]); }
        (Ty::Ptr, CVal::I(x)) => out[off..off + 8].copy_from_slice(&x.to_le_bytes()),
        (Ty::Vec(_, t), CVal::A(f)) | (Ty::Arr(_, t), CVal::A(f)) => {
            let s = t.alloc_size() as usize;
            for (i, x) in f.iter().enumerate() { put(out, off + i * s, t, x); }
        }
        (t @ Ty::Struct(ft, _), CVal::A(f)) => {
            for (i, x) in f.iter().enumerate() { put(out, off + t.field_off(i) as usize, &ft[i], x); }
        }
        _ => panic!("put {:?} {:?}", ty, v),
    }
}

impl Module {
    pub fn sym(&self, n: &str) -> u64 {
        if let Some(a) = self.gaddr.get(n) { return *a; }
        if let Some(i) = self.fidx.get(n) {
            let f = &self.funcs[*i as usize];
            // undefined weak symbols resolve to null
            if f.weak && f.range.is_none() { return 0; }
            return f.addr;
        }
        panic!("unknown symbol {}", n)
    }

    pub fn load(path: &str, classify: &dyn Fn(&str, bool) -> Kind) -> Module {
        let text = std::fs::read(path).expect("read ll");
        let mut m = Module { text: vec![], funcs: vec![], fidx: HashMap::new(), globals: vec![], gaddr: HashMap::new(), addr2func: HashMap::new(), executed: Mutex::new(Default::default()) };
        let mut glines: Vec<(String, usize, usize)> = vec![];
        let mut i = 0;
        let n = text.len();
        let add = |m: &mut Module, name: String, range: Option<(usize, usize)>, weak: bool| {
            let id = m.funcs.len() as u32;
            let addr = FUNC_BASE + id as u64 * 16;
            let kind = classify(&name, range.is_some());
            m.fidx.insert(name.clone(), id);
            m.addr2func.insert(addr, id);
            m.funcs.push(FuncDecl { name, range, body: OnceLock::new(), kind, addr, weak });
        };
        while i < n {
            let mut e = i;
            while e < n && text[e] != b'\n' { e += 1; }
            let line = &text[i..e];
            if line.starts_with(b"define ") {
                let start = i;
                // body ends at a line that is exactly "}"
                let mut p = e + 1;
                loop {
                    let mut q = p;
                    while q < n && text[q] != b'\n' { q += 1; }
                    if &text[p..q] == b"}" { e = q; break; }
                    p = q + 1;
                    if p >= n { panic!("unterminated function"); }
                }
                let at = line.iter().position(|c| *c == b'@').unwrap();
                let (name, _) = lex_name(line, at + 1);
                add(&mut m, name, Some((start, e)), false);
            } else if line.starts_with(b"declare ") {
                let at = line.iter().position(|c| *c == b'@').unwrap();
                let (name, _) = lex_name(line, at + 1);
                let weak = line.windows(11).any(|w| w == b"extern_weak");
                add(&mut m, name, None, weak);
            } else if line.starts_with(b"@") {
                let (name, j) = lex_name(line, 1);
                glines.push((name, i + j, e));
            }
            i = e + 1;
        }
        m.text = text;
        // two passes over globals: addresses first
        let mut addr = GLOBAL_BASE;
        let mut parsed = vec![];
        let text = std::mem::take(&mut m.text);
        for (name, s, e) in &glines {
            let toks = lex(&text[*s..*e]);
            let mut k = 0;
            let mut constant = false;
            let mut external = false;
            while k < toks.len() {
                match &toks[k] {
                    Tok::Id(s) if s == "constant" => { constant = true; k += 1; break; }
                    Tok::Id(s) if s == "global" => { k += 1; break; }
                    Tok::Id(s) if s == "external" || s == "extern_weak" => { external = true; k += 1; }
                    _ => k += 1,
                }
            }
            let mut p = P { t: &toks, i: k, m: &m };
            let ty = p.ty();
            let rest = p.i;
            let mut align = ty.align().max(1);
            // explicit alignment
            let mut z = rest;
            while z + 1 < toks.len() {
                if toks[z] == Tok::Id("align".into()) { if let Tok::Num(s) = &toks[z + 1] { align = s.parse().unwrap(); } }
                z += 1;
            }
            addr = (addr + align - 1) / align * align;
            let size = ty.alloc_size();
            m.gaddr.insert(name.clone(), addr);
            parsed.push((name.clone(), toks, rest, ty, addr, size, constant, external));
            addr += size.max(1) + 16;
        }
        let mut gl = vec![];
        for (name, toks, rest, ty, addr, size, constant, external) in parsed {
            let mut init = vec![0u8; size as usize];
            if !external {
                let mut p = P { t: &toks, i: rest, m: &m };
                let v = p.cval(&ty);
                put(&mut init, 0, &ty, &v);
            }
            gl.push(Global { name, addr, size, init, constant });
        }
        m.globals = gl;
        m.text = text;
        m
    }

    pub fn body(&self, f: u32) -> &Func {
        let d = &self.funcs[f as usize];
        d.body.get_or_init(|| {
            self.executed.lock().unwrap().insert(f);
            self.decode(f)
        })
    }

    fn decode(&self, fi: u32) -> Func {
        let d = &self.funcs[fi as usize];
        let (s, e) = d.range.unwrap();
        let text = &self.text[s..e];
        let hend = text.iter().position(|c| *c == b'\n').unwrap();
        let head = lex(&text[..hend]);
        let mut slots: HashMap<String, u32> = HashMap::new();
        // parameters: tokens after @name (
        let mut k = head.iter().position(|t| matches!(t, Tok::G(_))).unwrap() + 1;
        assert_eq!(head[k], Tok::P(b'('));
        k += 1;
        let mut nparams = 0;
        let mut depth = 1;
        let mut unnamed = 0;
        let mut last_named = false;
        let mut seen = false;
        while depth > 0 {
            match &head[k] {
                Tok::P(b'(') | Tok::P(b'[') | Tok::P(b'{') | Tok::P(b'<') => depth += 1,
                Tok::P(b']') | Tok::P(b'}') | Tok::P(b'>') => depth -= 1,
                Tok::P(b')') => {
                    depth -= 1;
                    if depth == 0 && seen && !last_named { slots.insert(format!("{}", unnamed), nparams); unnamed += 1; nparams += 1; }
                }
                Tok::P(b',') if depth == 1 => {
                    if !last_named { slots.insert(format!("{}", unnamed), nparams); unnamed += 1; nparams += 1; }
                    last_named = false;
                }
                Tok::L(n) if depth == 1 => { slots.insert(n.clone(), nparams); nparams += 1; last_named = true; if n.parse::<u32>().is_ok() { unnamed += 1; } }
                _ => {}
            }
            seen = true;
            k += 1;
        }
        // split into logical lines (switch spans several)
        let mut lines: Vec<Vec<Tok>> = vec![];
        let mut blocks: Vec<(String, usize)> = vec![];
        let body = &text[hend + 1..];
        let mut first = true;
        let mut pending: Vec<u8> = vec![];
        let mut in_switch = false;
        for raw in body.split(|c| *c == b'\n') {
            if raw.is_empty() { continue; }
            if !in_switch && raw[0] != b' ' && raw[0] != b';' {
                // label
                let (name, _) = lex_name(raw, 0);
                blocks.push((name, lines.len()));
                first = false;
                continue;
            }
            let tr = trim(raw);
            if tr.is_empty() || tr[0] == b';' || tr.starts_with(b"#dbg") { continue; }
            if first {
                // unnamed entry block: its number is the next unnamed value
                blocks.push((format!("{}", unnamed), lines.len()));
                first = false;
            }
            if in_switch {
                pending.push(b' ');
                pending.extend_from_slice(tr);
                if tr[0] == b']' { in_switch = false; lines.push(lex(&std::mem::take(&mut pending))); }
                continue;
            }
            if tr.starts_with(b"switch ") && tr[tr.len() - 1] == b'[' {
                in_switch = true;
                pending = tr.to_vec();
                continue;
            }
            // invoke / landingpad clauses continue on the next line: join
            if tr.starts_with(b"to label") {
                let l = lex(tr);
                lines.last_mut().unwrap().extend(l);
                continue;
            }
            if tr.starts_with(b"cleanup") || tr.starts_with(b"catch ") || tr.starts_with(b"filter ") { continue; }
            lines.push(lex(tr));
        }
        // slots for results
        let mut nslots = nparams;
        for l in &lines {
            if let (Some(Tok::L(n)), Some(Tok::P(b'='))) = (l.get(0), l.get(1)) {
                slots.entry(n.clone()).or_insert_with(|| { nslots += 1; nslots - 1 });
            }
        }
        // phis: collect per block
        let nb = blocks.len();
        let mut bidx: HashMap<&str, usize> = HashMap::new();
        for (i, (n, _)) in blocks.iter().enumerate() { bidx.insert(n.as_str(), i); }
        let mut phis: Vec<HashMap<usize, Vec<(u32, Opd)>>> = vec![HashMap::new(); nb];
        let mut line_block = vec![0usize; lines.len()];
        for bi in 0..nb {
            let s = blocks[bi].1;
            let e = if bi + 1 < nb { blocks[bi + 1].1 } else { lines.len() };
            for li in s..e { line_block[li] = bi; }
        }
        let mut is_phi = vec![false; lines.len()];
        for (li, l) in lines.iter().enumerate() {
            if l.len() > 3 && matches!(&l[2], Tok::Id(s) if s == "phi") && matches!(l[1], Tok::P(b'=')) {
                is_phi[li] = true;
                let dst = slots[match &l[0] { Tok::L(n) => n, _ => panic!() }];
                let mut p = P { t: l, i: 3, m: self };
                let ty = p.ty();
                loop {
                    p.expect(b'[');
                    let v = self.opd(&mut p, &ty, &slots);
                    p.expect(b',');
                    let from = match p.next() { Tok::L(n) => *bidx.get(n.as_str()).unwrap_or_else(|| panic!("block {} in {}", n, d.name)), x => panic!("{:?}", x) };
                    p.expect(b']');
                    let mv = phis[line_block[li]].entry(from).or_default();
                    if !mv.iter().any(|(d, _)| *d == dst) { mv.push((dst, v)); }
                    if !p.eat(b',') || matches!(p.peek(), Some(Tok::Meta)) { break; }
                }
            }
        }
        // pcs
        let mut pcs = vec![0u32; nb];
        let mut pc = 0;
        for bi in 0..nb {
            pcs[bi] = pc;
            let s = blocks[bi].1;
            let e = if bi + 1 < nb { blocks[bi + 1].1 } else { lines.len() };
            for li in s..e { if !is_phi[li] { pc += 1; } }
        }
        let mut code = Vec::with_capacity(pc as usize);
        for (li, l) in lines.iter().enumerate() {
            if is_phi[li] { continue; }
            let bi = line_block[li];
            let edge = |n: &str| -> Edge {
                let t = *bidx.get(n).unwrap_or_else(|| panic!("label {} in {}", n, d.name));
                Edge { pc: pcs[t], moves: phis[t].get(&bi).cloned().unwrap_or_default().into_boxed_slice() }
            };
            code.push(self.ins(l, &slots, &edge));
        }
        Func { name: d.name.clone(), nslots, nparams, code }
    }

    fn opd(&self, p: &mut P, ty: &Ty, slots: &HashMap<String, u32>) -> Opd {
        if let Some(Tok::L(n)) = p.peek() {
            p.i += 1;
            return Opd::S(*slots.get(n).unwrap_or_else(|| panic!("slot {}", n)));
        }
        match p.cval(ty) {
            CVal::I(v) => Opd::I(v),
            c => Opd::C(Arc::new(c)),
        }
    }

    fn ins(&self, l: &[Tok], slots: &HashMap<String, u32>, edge: &dyn Fn(&str) -> Edge) -> Ins {
        let mut p = P { t: l, i: 0, m: self };
        let mut dst = u32::MAX;
        if let (Some(Tok::L(n)), Some(Tok::P(b'='))) = (l.get(0), l.get(1)) { dst = slots[n]; p.i = 2; }
        let op = match p.next() { Tok::Id(s) => s.as_str(), x => panic!("ins {:?} in {:?}", x, l) };
        let label = |p: &mut P| -> String {
            assert!(p.eatid("label"), "{:?}", l);
            match p.next() { Tok::L(n) => n.clone(), x => panic!("{:?}", x) }
        };
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while matches!(p.peek(), Some(Tok::Id(s)) if matches!(s.as_str(), "nuw" | "nsw" | "exact" | "disjoint")) { p.i += 1; }
                let ty = p.ty();
                let a = self.opd(&mut p, &ty, slots);
                p.expect(b',');
                let b = self.opd(&mut p, &ty, slots);
                let op = match op { "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv, "urem" => Bin::URem, "srem" => Bin::SRem, "and" => Bin::And, "or" => Bin::Or, "xor" => Bin::Xor, "shl" => Bin::Shl, "lshr" => Bin::LShr, _ => Bin::AShr };
                match &ty { Ty::Vec(_, t) => Ins::VBin { op, w: t.bits(), dst, a, b }, t => Ins::Bin { op, w: t.bits(), dst, a, b } }
            }
            "icmp" => {
                p.eatid("samesign");
                let pr = match p.next() { Tok::Id(s) => match s.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, "samesign" => { panic!() } x => panic!("{}", x) }, _ => panic!() };
                let ty = p.ty();
                let a = self.opd(&mut p, &ty, slots);
                p.expect(b',');
                let b = self.opd(&mut p, &ty, slots);
                match &ty { Ty::Vec(_, t) => Ins::VIcmp { p: pr, w: t.bits(), dst, a, b }, t => Ins::Icmp { p: pr, w: t.bits(), dst, a, b } }
            }
            "select" => {
                let ct = p.ty();
                let c = self.opd(&mut p, &ct, slots);
                p.expect(b',');
                let ty = p.ty();
                let a = self.opd(&mut p, &ty, slots);
                p.expect(b',');
                let t2 = p.ty();
                let b = self.opd(&mut p, &t2, slots);
                Ins::Select { dst, c, a, b, ty: Box::new(ty), vc: matches!(ct, Ty::Vec(..)) }
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
                while matches!(p.peek(), Some(Tok::Id(s)) if matches!(s.as_str(), "nneg" | "nuw" | "nsw")) { p.i += 1; }
                let from = p.ty();
                let a = self.opd(&mut p, &from, slots);
                assert!(p.eatid("to"));
                let to = p.ty();
                let k = match op {
                    "zext" => Cast::Zext,
                    "sext" => Cast::Sext,
                    "trunc" => Cast::Trunc,
                    "bitcast" => Cast::Bit,
                    _ => if to.bits() >= from.bits() { Cast::Zext } else { Cast::Trunc },
                };
                if matches!(from, Ty::Vec(..)) || matches!(to, Ty::Vec(..)) {
                    Ins::VCast { op: k, from: Box::new(from), to: Box::new(to), dst, a }
                } else {
                    Ins::Cast { op: k, from: from.bits(), to: to.bits(), dst, a }
                }
            }
            "load" => {
                while matches!(p.peek(), Some(Tok::Id(s)) if matches!(s.as_str(), "atomic" | "volatile")) { p.i += 1; }
                let ty = p.ty();
                p.expect(b',');
                let pt = p.ty();
                let a = self.opd(&mut p, &pt, slots);
                match ty {
                    Ty::Int(w) if w <= 64 => Ins::LoadI { dst, p: a, bytes: ((w + 7) / 8) as u8, w },
                    Ty::Ptr => Ins::LoadI { dst, p: a, bytes: 8, w: 64 },
                    ty => Ins::Load { dst, p: a, ty: Box::new(ty) },
                }
            }
            "store" => {
                while matches!(p.peek(), Some(Tok::Id(s)) if matches!(s.as_str(), "atomic" | "volatile")) { p.i += 1; }
                let ty = p.ty();
                let v = self.opd(&mut p, &ty, slots);
                p.expect(b',');
                let pt = p.ty();
                let a = self.opd(&mut p, &pt, slots);
                match ty {
                    Ty::Int(w) if w <= 64 => Ins::StoreI { v, p: a, bytes: ((w + 7) / 8) as u8, w },
                    Ty::Ptr => Ins::StoreI { v, p: a, bytes: 8, w: 64 },
                    ty => Ins::Store { v, p: a, ty: Box::new(ty) },
                }
            }
            "alloca" => {
                let ty = p.ty();
                let mut n = Opd::I(1);
                let mut align = ty.align();
                while p.eat(b',') {
                    if p.eatid("align") { align = p.num() as u64; }
                    else if matches!(p.peek(), Some(Tok::Meta)) { break; }
                    else { let t = p.ty(); n = self.opd(&mut p, &t, slots); }
                }
                Ins::Alloca { dst, size: ty.alloc_size(), align: align.max(1), n }
            }
            "getelementptr" => {
                while matches!(p.peek(), Some(Tok::Id(s)) if matches!(s.as_str(), "inbounds" | "nuw" | "nusw")) { p.i += 1; }
                let bt = p.ty();
                p.expect(b',');
                let pt = p.ty();
                if matches!(pt, Ty::Vec(..)) { return Ins::Unsupported("vector gep".into()); }
                let base = self.opd(&mut p, &pt, slots);
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = bt;
                let mut first = true;
                while p.eat(b',') {
                    if matches!(p.peek(), Some(Tok::Meta)) { break; }
                    let it = p.ty();
                    let ix = self.opd(&mut p, &it, slots);
                    if first {
                        first = false;
                        let sc = cur.alloc_size() as i64;
                        match ix { Opd::I(v) => off += sx(v, it.bits()).wrapping_mul(sc), o => terms.push((o, sc, it.bits())) }
                        continue;
                    }
                    match cur {
                        Ty::Arr(_, t) => {
                            let sc = t.alloc_size() as i64;
                            match ix { Opd::I(v) => off += sx(v, it.bits()).wrapping_mul(sc), o => terms.push((o, sc, it.bits())) }
                            cur = *t;
                        }
                        Ty::Struct(..) => {
                            let k = match ix { Opd::I(v) => v as usize, _ => panic!() };
                            off += cur.field_off(k) as i64;
                            cur = match cur { Ty::Struct(f, _) => f[k].clone(), _ => unreachable!() };
                        }
                        _ => panic!("gep"),
                    }
                }
                Ins::Gep { dst, base, off, terms: terms.into_boxed_slice() }
            }
            "br" => {
                if p.isid("label") { let n = label(&mut p); return Ins::Br(Box::new(edge(&n))); }
                let t = p.ty();
                let c = self.opd(&mut p, &t, slots);
                p.expect(b',');
                let a = label(&mut p);
                p.expect(b',');
                let b = label(&mut p);
                Ins::CondBr(c, Box::new((edge(&a), edge(&b))))
            }
            "switch" => {
                let t = p.ty();
                let v = self.opd(&mut p, &t, slots);
                p.expect(b',');
                let dn = label(&mut p);
                p.expect(b'[');
                let mut edges = vec![edge(&dn)];
                let mut names = vec![dn];
                let mut cases = vec![];
                while !p.eat(b']') {
                    let ct = p.ty();
                    let c = match p.cval(&ct) { CVal::I(v) => v as u128, CVal::W(v) => v, x => panic!("{:?}", x) };
                    p.expect(b',');
                    let n = label(&mut p);
                    let k = if let Some(k) = names.iter().position(|x| *x == n) { k } else { names.push(n.clone()); edges.push(edge(&n)); names.len() - 1 };
                    cases.push((c, k as u32));
                }
                Ins::Switch { v, w: t.bits(), cases: cases.into_boxed_slice(), edges: edges.into_boxed_slice() }
            }
            "ret" => {
                let t = p.ty();
                if t == Ty::Void { Ins::Ret(None) } else { Ins::Ret(Some(self.opd(&mut p, &t, slots))) }
            }
            "unreachable" => Ins::Unreachable,
            "resume" => Ins::Unsupported("resume".into()),
            "landingpad" => Ins::Unsupported("landingpad".into()),
            "fence" => Ins::Nop,
            "extractvalue" => {
                let t = p.ty();
                let a = self.opd(&mut p, &t, slots);
                let mut path = vec![];
                while p.eat(b',') { if matches!(p.peek(), Some(Tok::Meta)) { break; } path.push(p.num() as u32); }
                Ins::ExtractValue { dst, a, path: path.into_boxed_slice() }
            }
            "insertvalue" => {
                let t = p.ty();
                let a = self.opd(&mut p, &t, slots);
                p.expect(b',');
                let vt = p.ty();
                let v = self.opd(&mut p, &vt, slots);
                let mut path = vec![];
                while p.eat(b',') { if matches!(p.peek(), Some(Tok::Meta)) { break; } path.push(p.num() as u32); }
                Ins::InsertValue { dst, a, v, path: path.into_boxed_slice(), ty: Box::new(t) }
            }
            "extractelement" => {
                let t = p.ty();
                let a = self.opd(&mut p, &t, slots);
                p.expect(b',');
                let it = p.ty();
                let i = self.opd(&mut p, &it, slots);
                Ins::ExtractElt { dst, a, i }
            }
            "insertelement" => {
                let t = p.ty();
                let a = self.opd(&mut p, &t, slots);
                p.expect(b',');
                let vt = p.ty();
                let v = self.opd(&mut p, &vt, slots);
                p.expect(b',');
                let it = p.ty();
                let i = self.opd(&mut p, &it, slots);
                Ins::InsertElt { dst, a, v, i }
            }
            "shufflevector" => {
                let t = p.ty();
                let a = self.opd(&mut p, &t, slots);
                p.expect(b',');
                let t2 = p.ty();
                let b = self.opd(&mut p, &t2, slots);
                p.expect(b',');
                let mt = p.ty();
                let m = p.cval(&mt);
                let mask = match m { CVal::A(v) => v.iter().map(|x| match x { CVal::I(v) => *v as u32, _ => 0 }).collect::<Vec<_>>(), _ => panic!() };
                let n = if let Ty::Vec(n, _) = t { n } else { panic!() };
                Ins::Shuffle { dst, a, b, n, mask: mask.into_boxed_slice() }
            }
            "atomicrmw" => {
                p.eatid("volatile");
                let op = match p.next() { Tok::Id(s) => match s.as_str() { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, "nand" => Rmw::Nand, x => panic!("{}", x) }, _ => panic!() };
                let pt = p.ty();
                let a = self.opd(&mut p, &pt, slots);
                p.expect(b',');
                let t = p.ty();
                let v = self.opd(&mut p, &t, slots);
                Ins::AtomicRmw { dst, op, p: a, v, w: t.bits() }
            }
            "cmpxchg" => {
                p.eatid("weak");
                p.eatid("volatile");
                let pt = p.ty();
                let a = self.opd(&mut p, &pt, slots);
                p.expect(b',');
                let t = p.ty();
                let c = self.opd(&mut p, &t, slots);
                p.expect(b',');
                let t2 = p.ty();
                let n = self.opd(&mut p, &t2, slots);
                Ins::CmpXchg { dst, p: a, c, n, w: t.bits() }
            }
            "freeze" => {
                let t = p.ty();
                let a = self.opd(&mut p, &t, slots);
                Ins::Freeze { dst, a }
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let inv = op == "invoke";
                if op != "call" && !inv { assert!(p.eatid("call")); }
                // calling convention and return attributes
                loop {
                    match p.peek() {
                        Some(Tok::Id(s)) if is_type_kw(s) => break,
                        Some(Tok::Id(s)) => {
                            let al = s == "align";
                            p.i += 1;
                            if p.isp(b'(') { p.skip_parens(); } else if al { p.i += 1; }
                        }
                        Some(Tok::P(b'{')) | Some(Tok::P(b'<')) | Some(Tok::P(b'[')) => break,
                        x => panic!("call {:?} {:?}", x, l),
                    }
                }
                let rty = p.ty();
                let callee = if p.eatid("asm") {
                    while matches!(p.peek(), Some(Tok::Id(_))) { p.i += 1; }
                    let s = match p.next() { Tok::Str(b) => b.clone(), x => panic!("{:?}", x) };
                    p.expect(b',');
                    p.next();
                    if s.is_empty() { Callee::Asm(false) }
                    else if s.windows(5).any(|w| w == b"cpuid") { Callee::Asm(true) }
                    else { return Ins::Unsupported(format!("asm {}", String::from_utf8_lossy(&s)).into()); }
                } else {
                    match p.next() {
                        Tok::G(n) => {
                            if let Some(r) = n.strip_prefix("llvm.") {
                                match intrinsic(r) { Some((i, w)) => Callee::Intr(i, w), None => return Ins::Unsupported(format!("intrinsic {}", n).into()) }
                            } else { Callee::F(self.fidx[n.as_str()]) }
                        }
                        Tok::L(n) => Callee::P(Opd::S(slots[n.as_str()])),
                        x => panic!("callee {:?}", x),
                    }
                };
                p.expect(b'(');
                let mut args = vec![];
                while !p.eat(b')') {
                    let t = p.ty();
                    p.skip_attrs();
                    args.push(self.opd(&mut p, &t, slots));
                    p.eat(b',');
                }
                let mut e = None;
                if inv {
                    while !p.isid("to") { p.i += 1; }
                    p.i += 1;
                    let n = label(&mut p);
                    e = Some(Box::new(edge(&n)));
                }
                if rty == Ty::Void { dst = u32::MAX; }
                Ins::Call(Box::new(CallI { dst, callee, args: args.into_boxed_slice(), rty }), 0, e)
            }
            x => Ins::Unsupported(x.into()),
        }
    }
}

fn is_type_kw(s: &str) -> bool {
    matches!(s, "void" | "ptr" | "float" | "double") || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
}
fn trim(s: &[u8]) -> &[u8] {
    let mut i = 0;
    while i < s.len() && s[i] == b' ' { i += 1; }
    &s[i..]
}

fn intrinsic(n: &str) -> Option<(Intr, u16)> {
    let w = n.rsplit('.').next().and_then(|s| s.strip_prefix('i')).and_then(|s| s.parse::<u16>().ok()).unwrap_or(0);
    let h = |p: &str| n.starts_with(p);
    let i = if h("memcpy") { Intr::Memcpy } else if h("memmove") { Intr::Memmove } else if h("memset") { Intr::Memset }
        else if h("lifetime") || h("experimental.noalias") || h("dbg") || h("x86.sse2.pause") || h("donothing") || h("prefetch") || h("sideeffect") || h("invariant") { Intr::Nop }
        else if h("assume") { Intr::Assume } else if h("trap") || h("ubsantrap") || h("debugtrap") { Intr::Trap }
        else if h("cttz") { Intr::Cttz } else if h("ctlz") { Intr::Ctlz } else if h("ctpop") { Intr::Ctpop }
        else if h("bswap") { Intr::Bswap } else if h("bitreverse") { Intr::Bitrev } else if h("fshl") { Intr::Fshl } else if h("fshr") { Intr::Fshr }
        else if h("umax") { Intr::Umax } else if h("umin") { Intr::Umin } else if h("smax") { Intr::Smax } else if h("smin") { Intr::Smin }
        else if h("uadd.sat") { Intr::UaddSat } else if h("usub.sat") { Intr::UsubSat } else if h("sadd.sat") { Intr::SaddSat } else if h("ssub.sat") { Intr::SsubSat }
        else if h("uadd.with") { Intr::UaddO } else if h("usub.with") { Intr::UsubO } else if h("umul.with") { Intr::UmulO }
        else if h("sadd.with") { Intr::SaddO } else if h("ssub.with") { Intr::SsubO } else if h("smul.with") { Intr::SmulO }
        else if h("scmp") { Intr::Scmp } else if h("ucmp") { Intr::Ucmp } else if h("abs") { Intr::Abs }
        else if h("is.constant") { Intr::IsConst } else if h("threadlocal.address") { Intr::Tls }
        else if h("x86.ssse3.pshuf.b") || h("x86.avx2.pshuf.b") { Intr::Pshufb } else if h("x86.xgetbv") { Intr::Xgetbv }
        else if h("expect") { Intr::Expect }
        else if h("vector.reduce.or") { Intr::VecReduceOr } else if h("vector.reduce.and") { Intr::VecReduceAnd } else if h("vector.reduce.add") { Intr::VecReduceAdd }
        else { return None };
    Some((i, w))
}
