//! Hash-consed bit-vector expressions over symbolic input bytes.
//! Width-1 expressions double as conditions.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;
pub const MAXV: usize = 128;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Bop { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cop { Eq, Ult, Ule, Slt, Sle }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const { w: u16, v: u128 },
    Var(u16),
    Bin { op: Bop, a: E, b: E, w: u16 },
    Cmp { op: Cop, a: E, b: E },
    Ite { c: E, a: E, b: E, w: u16 },
    ZExt { a: E, w: u16 },
    SExt { a: E, w: u16 },
    Extract { a: E, lo: u16, w: u16 },
    /// a is the high part
    Concat { a: E, b: E, w: u16 },
    /// table lookup by one input byte
    Lut { v: u16, tab: u32, w: u16 },
}

pub type Mask = [u64; 4];
pub const FULL: Mask = [u64::MAX; 4];
#[inline]
pub fn mhas(m: &Mask, i: u8) -> bool { m[(i >> 6) as usize] >> (i & 63) & 1 == 1 }
#[inline]
pub fn mand(a: &Mask, b: &Mask) -> Mask { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
#[inline]
pub fn mnot(a: &Mask) -> Mask { [!a[0], !a[1], !a[2], !a[3]] }
#[inline]
pub fn mempty(a: &Mask) -> bool { a[0] | a[1] | a[2] | a[3] == 0 }
pub fn mcount(a: &Mask) -> u32 { a.iter().map(|x| x.count_ones()).sum() }
pub fn mfirst(a: &Mask) -> u8 {
    for i in 0..4 {
        if a[i] != 0 { return (i as u8) * 64 + a[i].trailing_zeros() as u8; }
    }
    unreachable!()
}
pub fn miter(a: &Mask) -> impl Iterator<Item = u8> + '_ {
    (0..=255u8).filter(move |&i| mhas(a, i))
}

#[inline]
pub fn mask128(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
#[inline]
pub fn sext128(v: u128, w: u16) -> i128 {
    if w >= 128 { v as i128 } else { let s = 128 - w as u32; ((v << s) as i128) >> s }
}

pub fn bin_const(op: Bop, a: u128, b: u128, w: u16) -> u128 {
    let m = mask128(w);
    let r = match op {
        Bop::Add => a.wrapping_add(b),
        Bop::Sub => a.wrapping_sub(b),
        Bop::Mul => a.wrapping_mul(b),
        // SMT-LIB semantics for division by zero (guarded by the code under test anyway)
        Bop::UDiv => if b == 0 { m } else { a / b },
        Bop::URem => if b == 0 { a } else { a % b },
        Bop::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 }
        }
        Bop::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 { a } else { x.wrapping_rem(y) as u128 }
        }
        Bop::And => a & b,
        Bop::Or => a | b,
        Bop::Xor => a ^ b,
        Bop::Shl => if b >= w as u128 { 0 } else { a << b },
        Bop::LShr => if b >= w as u128 { 0 } else { a >> b },
        Bop::AShr => { let s = if b >= w as u128 { w as u128 - 1 } else { b }; (sext128(a, w) >> s) as u128 }
    };
    r & m
}
pub fn cmp_const(op: Cop, a: u128, b: u128, w: u16) -> bool {
    match op {
        Cop::Eq => a == b,
        Cop::Ult => a < b,
        Cop::Ule => a <= b,
        Cop::Slt => sext128(a, w) < sext128(b, w),
        Cop::Sle => sext128(a, w) <= sext128(b, w),
    }
}

pub struct Arena {
    nodes: Vec<Node>,
    supp: Vec<u128>,
    widths: Vec<u16>,
    hashes: Vec<u64>,
    memo: HashMap<Node, E, FxB>,
    xmemo: HashMap<(E, u16, u16), E, FxB>,
    pub tables: Vec<Rc<[u64; 256]>>,
    tabmemo: HashMap<Rc<[u64; 256]>, u32>,
    truth: HashMap<E, Mask, FxB>,
    canon: HashMap<E, E, FxB>,
    pub t: E,
    pub f: E,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
}
#[derive(Default, Clone, Copy)]
pub struct FxB;
impl std::hash::BuildHasher for FxB {
    type Hasher = Fx;
    fn build_hasher(&self) -> Fx { Fx(0) }
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            nodes: vec![], supp: vec![], widths: vec![], hashes: vec![], memo: HashMap::default(), xmemo: HashMap::default(), tables: vec![],
            tabmemo: HashMap::new(), truth: HashMap::default(), canon: HashMap::default(), t: 0, f: 0,
        };
        a.f = a.cst(0, 1);
        a.t = a.cst(1, 1);
        a
    }
    pub fn len(&self) -> usize { self.nodes.len() }
    #[inline]
    pub fn node(&self, e: E) -> &Node { &self.nodes[e as usize] }
    #[inline]
    pub fn width(&self, e: E) -> u16 { self.widths[e as usize] }
    #[inline]
    pub fn support(&self, e: E) -> u128 { self.supp[e as usize] }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u128> {
        if let Node::Const { v, .. } = self.nodes[e as usize] { Some(v) } else { None }
    }

    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.memo.get(&n) { return e; }
        let (w, s) = match n {
            Node::Const { w, .. } => (w, 0),
            Node::Var(v) => (8, 1u128 << v),
            Node::Bin { a, b, w, .. } => (w, self.support(a) | self.support(b)),
            Node::Cmp { a, b, .. } => (1, self.support(a) | self.support(b)),
            Node::Ite { c, a, b, w } => (w, self.support(a) | self.support(b) | self.support(c)),
            Node::ZExt { a, w } | Node::SExt { a, w } | Node::Extract { a, w, .. } => (w, self.support(a)),
            Node::Concat { a, b, w } => (w, self.support(a) | self.support(b)),
            Node::Lut { v, w, .. } => (w, 1u128 << v),
        };
        let h = self.node_hash(&n);
        let e = self.nodes.len() as E;
        self.hashes.push(h);
        self.nodes.push(n);
        self.supp.push(s);
        self.widths.push(w);
        self.memo.insert(n, e);
        e
    }
    /// hash of the structure of a node, independent of the order in which the
    /// arena was filled (simplification order must not depend on history)
    fn node_hash(&self, n: &Node) -> u64 {
        use std::hash::Hasher;
        let mut h = Fx(0x9e37);
        let g = |e: E| self.hashes[e as usize];
        match *n {
            Node::Const { w, v } => { h.write_u8(1); h.write_u16(w); h.write_u128(v) }
            Node::Var(v) => { h.write_u8(2); h.write_u16(v) }
            Node::Bin { op, a, b, w } => { h.write_u8(3); h.write_u8(op as u8); h.write_u16(w); h.write_u64(g(a)); h.write_u64(g(b)) }
            Node::Cmp { op, a, b } => { h.write_u8(4); h.write_u8(op as u8); h.write_u64(g(a)); h.write_u64(g(b)) }
            Node::Ite { c, a, b, w } => { h.write_u8(5); h.write_u16(w); h.write_u64(g(c)); h.write_u64(g(a)); h.write_u64(g(b)) }
            Node::ZExt { a, w } => { h.write_u8(6); h.write_u16(w); h.write_u64(g(a)) }
            Node::SExt { a, w } => { h.write_u8(7); h.write_u16(w); h.write_u64(g(a)) }
            Node::Extract { a, lo, w } => { h.write_u8(8); h.write_u16(lo); h.write_u16(w); h.write_u64(g(a)) }
            Node::Concat { a, b, w } => { h.write_u8(9); h.write_u16(w); h.write_u64(g(a)); h.write_u64(g(b)) }
            Node::Lut { v, tab, w } => {
                h.write_u8(10); h.write_u16(v); h.write_u16(w);
                for x in self.tables[tab as usize].iter() { h.write_u64(*x) }
            }
        }
        let x = h.finish();
        (x ^ (x >> 31)).wrapping_mul(0xbf58476d1ce4e5b9)
    }
    #[inline]
    pub fn shash(&self, e: E) -> u64 { self.hashes[e as usize] }
    pub fn cst(&mut self, v: u128, w: u16) -> E { self.mk(Node::Const { w, v: v & mask128(w) }) }
    pub fn var(&mut self, v: u16) -> E { self.mk(Node::Var(v)) }

    pub fn lut(&mut self, v: u16, tab: [u64; 256], w: u16) -> E {
        if tab.iter().all(|x| *x == tab[0]) { return self.cst(tab[0] as u128, w); }
        let r = Rc::new(tab);
        let id = if let Some(&i) = self.tabmemo.get(&r) { i } else {
            let i = self.tables.len() as u32;
            self.tables.push(r.clone());
            self.tabmemo.insert(r, i);
            i
        };
        self.mk(Node::Lut { v, tab: id, w })
    }

    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let aw = self.width(a);
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw { return a; }
        match *self.node(a) {
            Node::Const { v, .. } => self.cst(v >> lo, w),
            Node::Extract { a: x, lo: l2, .. } => self.extract(x, lo + l2, w),
            Node::ZExt { a: x, .. } => {
                let xw = self.width(x);
                if lo >= xw { self.cst(0, w) }
                else if lo + w <= xw { self.extract(x, lo, w) }
                else { let y = self.extract(x, lo, xw - lo); self.zext(y, w) }
            }
            Node::SExt { a: x, .. } => {
                let xw = self.width(x);
                if lo + w <= xw { self.extract(x, lo, w) }
                else if lo == 0 { self.sext(x, w) }
                else { self.mk(Node::Extract { a, lo, w }) }
            }
            Node::Concat { a: h, b: l, .. } => {
                let lw = self.width(l);
                if lo >= lw { self.extract(h, lo - lw, w) }
                else if lo + w <= lw { self.extract(l, lo, w) }
                else {
                    let x = self.extract(l, lo, lw - lo);
                    let y = self.extract(h, 0, lo + w - lw);
                    self.concat(y, x)
                }
            }
            Node::Ite { c, a: x, b: y, .. } if self.as_const(x).is_some() || self.as_const(y).is_some() => {
                if let Some(&e) = self.xmemo.get(&(a, lo, w)) { return e; }
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                let r = self.ite(c, p, q);
                self.xmemo.insert((a, lo, w), r);
                r
            }
            Node::Bin { op, a: x, b: y, .. } if matches!(op, Bop::And | Bop::Or | Bop::Xor) || (lo == 0 && matches!(op, Bop::Add | Bop::Sub | Bop::Mul)) => {
                // shared subterms: each once
                if let Some(&e) = self.xmemo.get(&(a, lo, w)) { return e; }
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                let r = self.bin(op, p, q);
                self.xmemo.insert((a, lo, w), r);
                r
            }
            Node::Lut { v, tab, .. } => {
                let t = self.tables[tab as usize].clone();
                let mut n = [0u64; 256];
                for i in 0..256 { n[i] = ((t[i] as u128 >> lo) & mask128(w)) as u64; }
                self.lut(v, n, w)
            }
            _ => self.mk(Node::Extract { a, lo, w }),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.width(h), self.width(l));
        let w = hw + lw;
        match (*self.node(h), *self.node(l)) {
            (Node::Const { v: x, .. }, Node::Const { v: y, .. }) => return self.cst(x << lw | y, w),
            (Node::Const { v: 0, .. }, _) => return self.zext(l, w),
            (Node::Extract { a, lo, .. }, Node::Extract { a: a2, lo: lo2, .. }) if a == a2 && lo == lo2 + lw => {
                return self.extract(a, lo2, w)
            }
            _ => {}
        }
        if let Node::Extract { a, lo, .. } = *self.node(h) {
            if a == l && lo == lw { return self.extract(a, 0, w); }
            // h = extract(a, lw..), l = something equal to extract(a,0,lw)
            if lo == lw {
                let low = self.extract(a, 0, lw);
                if low == l { return self.extract(a, 0, w); }
            }
        }
        // (zext) on the left of the concat: keep zero part at the top
        if let Node::ZExt { a, .. } = *self.node(h) {
            let x = self.concat(a, l);
            return self.zext(x, w);
        }
        // left-nested constants merge
        if let (Some(x), Node::Concat { a: lh, b: ll, .. }) = (self.as_const(h), *self.node(l)) {
            if let Some(y) = self.as_const(lh) {
                let lhw = self.width(lh);
                let c = self.cst(x << lhw | y, hw + lhw);
                return self.concat(c, ll);
            }
        }
        self.mk(Node::Concat { a: h, b: l, w })
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let aw = self.width(a);
        if aw == w { return a; }
        match *self.node(a) {
            Node::Const { v, .. } => self.cst(v, w),
            Node::ZExt { a: x, .. } => self.mk(Node::ZExt { a: x, w }),
            Node::Lut { v, tab, .. } if w <= 64 => {
                let t = self.tables[tab as usize].clone();
                self.lut(v, *t, w)
            }
            Node::Ite { c, a: x, b: y, .. } if self.as_const(x).is_some() && self.as_const(y).is_some() => {
                let p = self.zext(x, w);
                let q = self.zext(y, w);
                self.ite(c, p, q)
            }
            _ => self.mk(Node::ZExt { a, w }),
        }
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let aw = self.width(a);
        if aw == w { return a; }
        match *self.node(a) {
            Node::Const { v, .. } => self.cst(sext128(v, aw) as u128, w),
            Node::ZExt { a: x, .. } => self.zext(x, w),
            Node::SExt { a: x, .. } => self.mk(Node::SExt { a: x, w }),
            _ => {
                if aw == 1 {
                    let t = self.cst(u128::MAX, w);
                    let z = self.cst(0, w);
                    return self.ite(a, t, z);
                }
                self.mk(Node::SExt { a, w })
            }
        }
    }
    pub fn not1(&mut self, a: E) -> E {
        debug_assert_eq!(self.width(a), 1);
        let t = self.t;
        self.bin(Bop::Xor, a, t)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b { return a; }
        if let Some(v) = self.as_const(c) { return if v == 1 { a } else { b }; }
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Bop::Or, c, b),
                (Some(0), None) => { let n = self.not1(c); return self.bin(Bop::And, n, b); }
                (None, Some(0)) => return self.bin(Bop::And, c, a),
                (None, Some(1)) => { let n = self.not1(c); return self.bin(Bop::Or, n, a); }
                _ => {}
            }
        }
        if let Node::Bin { op: Bop::Xor, a: x, b: y, w: 1 } = *self.node(c) {
            if self.as_const(y) == Some(1) { return self.ite(x, b, a); }
        }
        self.mk(Node::Ite { c, a, b, w })
    }

    fn splittable(&self, e: E) -> bool {
        matches!(self.node(e), Node::Const { .. } | Node::Concat { .. } | Node::ZExt { .. })
    }
    fn split_point(&self, e: E) -> Option<u16> {
        match *self.node(e) {
            Node::Concat { b, .. } => Some(self.width(b)),
            Node::ZExt { a, .. } => Some(self.width(a)),
            _ => None,
        }
    }

    pub fn bin(&mut self, op: Bop, a: E, b: E) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b), "{:?} {:?} {:?}", op, self.node(a), self.node(b));
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let r = bin_const(op, x, y, w);
            return self.cst(r, w);
        }
        // constants to the right for commutative ops; order others by id
        let (a, b) = match op {
            Bop::Add | Bop::Mul | Bop::And | Bop::Or | Bop::Xor => {
                if self.as_const(a).is_some() || (self.as_const(b).is_none() && self.shash(a) > self.shash(b)) { (b, a) } else { (a, b) }
            }
            _ => (a, b),
        };
        let m = mask128(w);
        if let Some(c) = self.as_const(b) {
            match op {
                Bop::Add | Bop::Sub | Bop::Or | Bop::Xor | Bop::Shl | Bop::LShr | Bop::AShr if c == 0 => return a,
                Bop::Mul if c == 0 => return b,
                Bop::Mul if c == 1 => return a,
                Bop::Mul if c.is_power_of_two() => {
                    let k = self.cst(c.trailing_zeros() as u128, w);
                    return self.bin(Bop::Shl, a, k);
                }
                Bop::And if c == 0 => return b,
                Bop::And if c == m => return a,
                Bop::Or if c == m => return b,
                Bop::UDiv if c == 1 => return a,
                Bop::UDiv if c.is_power_of_two() => {
                    let k = self.cst(c.trailing_zeros() as u128, w);
                    return self.bin(Bop::LShr, a, k);
                }
                Bop::URem if c.is_power_of_two() => {
                    let k = self.cst(c - 1, w);
                    return self.bin(Bop::And, a, k);
                }
                Bop::Sub => {
                    let k = self.cst((!c).wrapping_add(1), w);
                    return self.bin(Bop::Add, a, k);
                }
                Bop::Shl => {
                    if c >= w as u128 { return self.cst(0, w); }
                    let k = c as u16;
                    let x = self.extract(a, 0, w - k);
                    let z = self.cst(0, k);
                    return self.concat(x, z);
                }
                Bop::LShr => {
                    if c >= w as u128 { return self.cst(0, w); }
                    let k = c as u16;
                    let x = self.extract(a, k, w - k);
                    return self.zext(x, w);
                }
                Bop::Xor if w == 1 => {
                    // not
                    if let Node::Bin { op: Bop::Xor, a: x, b: y, .. } = *self.node(a) {
                        if self.as_const(y) == Some(1) { return x; }
                    }
                    if let Node::Cmp { op: o, a: x, b: y } = *self.node(a) {
                        match o {
                            Cop::Ult => return self.cmp(Cop::Ule, y, x),
                            Cop::Ule => return self.cmp(Cop::Ult, y, x),
                            Cop::Slt => return self.cmp(Cop::Sle, y, x),
                            Cop::Sle => return self.cmp(Cop::Slt, y, x),
                            Cop::Eq => {}
                        }
                    }
                }
                Bop::Add | Bop::Xor => {
                    if let Node::Bin { op: o2, a: x, b: y, .. } = *self.node(a) {
                        if o2 == op {
                            if let Some(k) = self.as_const(y) {
                                let r = bin_const(op, k, c, w);
                                let r = self.cst(r, w);
                                return self.bin(op, x, r);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if a == b {
            match op {
                Bop::And | Bop::Or => return a,
                Bop::Xor | Bop::Sub => return self.cst(0, w),
                _ => {}
            }
        }
        if matches!(op, Bop::And | Bop::Or | Bop::Xor) && w > 1 {
            if self.splittable(a) && self.splittable(b) {
                if let Some(p) = self.split_point(a).or_else(|| self.split_point(b)) {
                    // prefer the lowest split point
                    let p = match (self.split_point(a), self.split_point(b)) { (Some(x), Some(y)) => x.min(y), _ => p };
                    let al = self.extract(a, 0, p);
                    let ah = self.extract(a, p, w - p);
                    let bl = self.extract(b, 0, p);
                    let bh = self.extract(b, p, w - p);
                    let l = self.bin(op, al, bl);
                    let h = self.bin(op, ah, bh);
                    return self.concat(h, l);
                }
            }
            // and with a low/contiguous mask: slice out the zero parts
            if op == Bop::And {
                if let Some(c) = self.as_const(b) {
                    let hi = 128 - c.leading_zeros() as u16; // bits [0,hi) may be set
                    let lo = c.trailing_zeros() as u16;
                    if hi < w || lo > 0 {
                        let x = self.extract(a, lo, hi - lo);
                        let k = self.cst(c >> lo, hi - lo);
                        let y = self.bin(Bop::And, x, k);
                        let y = if lo > 0 { let z = self.cst(0, lo); self.concat(y, z) } else { y };
                        return self.zext(y, w);
                    }
                }
            }
        }
        if w == 1 && matches!(op, Bop::And | Bop::Or) {
            // x & !x
            let na = self.is_not_of(a, b);
            if na { return if op == Bop::And { self.f } else { self.t }; }
        }
        self.mk(Node::Bin { op, a, b, w })
    }
    fn is_not_of(&self, a: E, b: E) -> bool {
        let chk = |x: E, y: E| if let Node::Bin { op: Bop::Xor, a, b, w: 1 } = *self.node(x) { a == y && self.as_const(b) == Some(1) } else { false };
        chk(a, b) || chk(b, a)
    }

    pub fn cmp(&mut self, op: Cop, a: E, b: E) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return if cmp_const(op, x, y, w) { self.t } else { self.f };
        }
        if a == b {
            return match op { Cop::Eq | Cop::Ule | Cop::Sle => self.t, _ => self.f };
        }
        let (a, b) = if op == Cop::Eq && (self.as_const(a).is_some() || (self.as_const(b).is_none() && self.shash(a) > self.shash(b))) { (b, a) } else { (a, b) };
        let m = mask128(w);
        // both zero extended
        let za = if let Node::ZExt { a: x, .. } = *self.node(a) { Some(x) } else { None };
        let zb = if let Node::ZExt { a: x, .. } = *self.node(b) { Some(x) } else { None };
        if let (Some(x), Some(y)) = (za, zb) {
            let k = self.width(x).max(self.width(y));
            let x = self.zext(x, k);
            let y = self.zext(y, k);
            let op2 = match op { Cop::Slt => Cop::Ult, Cop::Sle => Cop::Ule, o => o };
            return self.cmp(op2, x, y);
        }
        if let Some(c) = self.as_const(b) {
            if w == 1 && op == Cop::Eq { return if c == 1 { a } else { self.not1(a) }; }
            match op {
                Cop::Ult if c == 0 => return self.f,
                Cop::Ult if c == 1 => { let z = self.cst(0, w); return self.cmp(Cop::Eq, a, z); }
                Cop::Ule if c == m => return self.t,
                Cop::Ule => { let k = self.cst(c + 1, w); return self.cmp(Cop::Ult, a, k); }
                _ => {}
            }
            if let Some(x) = za {
                let xm = mask128(self.width(x));
                match op {
                    Cop::Eq => {
                        if c > xm { return self.f; }
                        let k = self.cst(c, self.width(x));
                        return self.cmp(Cop::Eq, x, k);
                    }
                    Cop::Ult => {
                        if c > xm { return self.t; }
                        let k = self.cst(c, self.width(x));
                        return self.cmp(Cop::Ult, x, k);
                    }
                    Cop::Slt | Cop::Sle => {
                        if sext128(c, w) < 0 { return self.f; }
                        let o = if op == Cop::Slt { Cop::Ult } else { Cop::Ule };
                        return self.cmp(o, a, b);
                    }
                    _ => {}
                }
            }
            if op == Cop::Eq {
                match *self.node(a) {
                    Node::Concat { a: h, b: l, .. } => {
                        let lw = self.width(l);
                        let ch = self.cst(c >> lw, w - lw);
                        let cl = self.cst(c, lw);
                        let x = self.cmp(Cop::Eq, h, ch);
                        let y = self.cmp(Cop::Eq, l, cl);
                        return self.bin(Bop::And, x, y);
                    }
                    Node::Bin { op: Bop::Add, a: x, b: y, .. } => {
                        if let Some(k) = self.as_const(y) {
                            let r = self.cst(c.wrapping_sub(k), w);
                            return self.cmp(Cop::Eq, x, r);
                        }
                    }
                    Node::Bin { op: Bop::Xor, a: x, b: y, .. } => {
                        if let Some(k) = self.as_const(y) {
                            let r = self.cst(c ^ k, w);
                            return self.cmp(Cop::Eq, x, r);
                        }
                    }
                    Node::Ite { c: cc, a: x, b: y, .. } => {
                        if let (Some(p), Some(q)) = (self.as_const(x), self.as_const(y)) {
                            return if p == c { cc } else if q == c { self.not1(cc) } else { self.f };
                        }
                        if self.as_const(x).is_some() || self.as_const(y).is_some() {
                            let p = self.cmp(Cop::Eq, x, b);
                            let q = self.cmp(Cop::Eq, y, b);
                            return self.ite(cc, p, q);
                        }
                    }
                    _ => {}
                }
            }
        }
        if let (Some(c), Some(x)) = (self.as_const(a), zb) {
            let xw = self.width(x);
            let xm = mask128(xw);
            match op {
                Cop::Ult => {
                    if c >= xm { return self.f; }
                    let k = self.cst(c, xw);
                    return self.cmp(Cop::Ult, k, x);
                }
                Cop::Ule => {
                    if c > xm { return self.f; }
                    let k = self.cst(c, xw);
                    return self.cmp(Cop::Ule, k, x);
                }
                Cop::Slt | Cop::Sle => {
                    if sext128(c, w) < 0 { return self.t; }
                    let o = if op == Cop::Slt { Cop::Ult } else { Cop::Ule };
                    return self.cmp(o, a, b);
                }
                _ => {}
            }
        }
        if op == Cop::Eq {
            // concat vs concat with the same split
            if let (Node::Concat { a: h, b: l, .. }, Node::Concat { a: h2, b: l2, .. }) = (*self.node(a), *self.node(b)) {
                if self.width(l) == self.width(l2) {
                    let x = self.cmp(Cop::Eq, h, h2);
                    let y = self.cmp(Cop::Eq, l, l2);
                    return self.bin(Bop::And, x, y);
                }
            }
        }
        self.mk(Node::Cmp { op, a, b })
    }

    /// Evaluate under an assignment of the input bytes.
    pub fn eval(&self, e: E, m: &[u8; MAXV]) -> u128 {
        match *self.node(e) {
            Node::Const { v, .. } => v,
            Node::Var(i) => m[i as usize] as u128,
            Node::Lut { v, tab, .. } => self.tables[tab as usize][m[v as usize] as usize] as u128,
            _ => {
                let mut memo: HashMap<E, u128, FxB> = HashMap::default();
                self.eval_memo(e, m, &mut memo)
            }
        }
    }
    fn eval_memo(&self, e: E, m: &[u8; MAXV], memo: &mut HashMap<E, u128, FxB>) -> u128 {
        match *self.node(e) {
            Node::Const { v, .. } => return v,
            Node::Var(i) => return m[i as usize] as u128,
            Node::Lut { v, tab, .. } => return self.tables[tab as usize][m[v as usize] as usize] as u128,
            _ => {}
        }
        if let Some(&v) = memo.get(&e) { return v; }
        let r = match *self.node(e) {
            Node::Bin { op, a, b, w } => {
                let x = self.eval_memo(a, m, memo);
                let y = self.eval_memo(b, m, memo);
                bin_const(op, x, y, w)
            }
            Node::Cmp { op, a, b } => {
                let x = self.eval_memo(a, m, memo);
                let y = self.eval_memo(b, m, memo);
                cmp_const(op, x, y, self.width(a)) as u128
            }
            Node::Ite { c, a, b, .. } => {
                if self.eval_memo(c, m, memo) == 1 { self.eval_memo(a, m, memo) } else { self.eval_memo(b, m, memo) }
            }
            Node::ZExt { a, .. } => self.eval_memo(a, m, memo),
            Node::SExt { a, w } => { let aw = self.width(a); (sext128(self.eval_memo(a, m, memo), aw) as u128) & mask128(w) }
            Node::Extract { a, lo, w } => (self.eval_memo(a, m, memo) >> lo) & mask128(w),
            Node::Concat { a, b, .. } => { let lw = self.width(b); self.eval_memo(a, m, memo) << lw | self.eval_memo(b, m, memo) }
            _ => unreachable!(),
        };
        memo.insert(e, r);
        r
    }

    /// the same one-variable expression over variable 0
    pub fn canon1(&mut self, e: E) -> E {
        let s = self.support(e);
        if s <= 1 { return e; }
        if let Some(&c) = self.canon.get(&e) { return c; }
        let c = match *self.node(e) {
            Node::Const { .. } => e,
            Node::Var(_) => self.var(0),
            Node::Lut { tab, w, .. } => self.mk(Node::Lut { v: 0, tab, w }),
            Node::Bin { op, a, b, w } => { let a = self.canon1(a); let b = self.canon1(b); self.mk(Node::Bin { op, a, b, w }) }
            Node::Cmp { op, a, b } => { let a = self.canon1(a); let b = self.canon1(b); self.mk(Node::Cmp { op, a, b }) }
            Node::Ite { c, a, b, w } => { let c = self.canon1(c); let a = self.canon1(a); let b = self.canon1(b); self.mk(Node::Ite { c, a, b, w }) }
            Node::ZExt { a, w } => { let a = self.canon1(a); self.mk(Node::ZExt { a, w }) }
            Node::SExt { a, w } => { let a = self.canon1(a); self.mk(Node::SExt { a, w }) }
            Node::Extract { a, lo, w } => { let a = self.canon1(a); self.mk(Node::Extract { a, lo, w }) }
            Node::Concat { a, b, w } => { let a = self.canon1(a); let b = self.canon1(b); self.mk(Node::Concat { a, b, w }) }
        };
        self.canon.insert(e, c);
        c
    }

    /// the set of byte values for which a one-variable condition holds
    pub fn truth1(&mut self, e: E) -> Mask {
        debug_assert_eq!(self.support(e).count_ones(), 1);
        let c = self.canon1(e);
        if let Some(&m) = self.truth.get(&c) { return m; }
        let mut model = [0u8; MAXV];
        let mut r = [0u64; 4];
        for i in 0..=255u8 {
            model[0] = i;
            if self.eval(c, &model) & 1 == 1 { r[(i >> 6) as usize] |= 1 << (i & 63); }
        }
        self.truth.insert(c, r);
        r
    }

    /// Three-valued evaluation of a condition under per-byte domains: Some(b) if
    /// it has the same value everywhere.
    pub fn tern(&mut self, e: E, doms: &[Mask]) -> Option<bool> {
        if let Some(v) = self.as_const(e) { return Some(v == 1); }
        let s = self.support(e);
        if s.count_ones() == 1 {
            let v = s.trailing_zeros() as usize;
            let t = self.truth1(e);
            let d = &doms[v];
            if mempty(&mand(&t, d)) { return Some(false); }
            if mempty(&mand(&mnot(&t), d)) { return Some(true); }
            return None;
        }
        match *self.node(e) {
            Node::Bin { op: Bop::And, a, b, w: 1 } => {
                let x = self.tern(a, doms);
                if x == Some(false) { return x; }
                let y = self.tern(b, doms);
                if y == Some(false) { return y; }
                if x == Some(true) && y == Some(true) { Some(true) } else { None }
            }
            Node::Bin { op: Bop::Or, a, b, w: 1 } => {
                let x = self.tern(a, doms);
                if x == Some(true) { return x; }
                let y = self.tern(b, doms);
                if y == Some(true) { return y; }
                if x == Some(false) && y == Some(false) { Some(false) } else { None }
            }
            Node::Bin { op: Bop::Xor, a, b, w: 1 } => {
                if self.as_const(b) == Some(1) { self.tern(a, doms).map(|x| !x) } else { None }
            }
            _ => None,
        }
    }
}
