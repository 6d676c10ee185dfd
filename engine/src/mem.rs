//! Copy-on-write byte memory with a symbolic shadow.
use crate::expr::{Arena, FxB, E};
use std::collections::HashMap;
use std::rc::Rc;

pub const PSZ: usize = 4096;
pub const L2N: usize = 1024;
pub const L1N: usize = 256;
pub const LIMIT: u64 = (PSZ * L2N * L1N) as u64; // 1 GiB
pub const HEAP_BASE: u64 = 0x0800_0000;
pub const HEAP_END: u64 = 0x2f00_0000;
pub const STACK_END: u64 = 0x3000_0000; // lowest address of the stack region
pub const STACK_TOP: u64 = 0x3f00_0000;

#[derive(Clone)]
pub struct Shadow {
    pub bits: [u64; PSZ / 64],
    pub map: HashMap<u16, E, FxB>,
}
#[derive(Clone)]
pub struct Page {
    pub data: [u8; PSZ],
    pub sym: Option<Box<Shadow>>,
}
#[derive(Clone)]
pub struct L2(pub Vec<Option<Rc<Page>>>);

#[derive(Clone)]
pub struct Mem {
    pub l1: Vec<Option<Rc<L2>>>,
}

#[derive(Debug)]
pub struct Fault(pub u64);

impl Mem {
    pub fn new() -> Mem { Mem { l1: vec![None; L1N] } }

    #[inline(always)]
    pub fn page(&self, a: u64) -> Option<&Page> {
        let p = (a >> 12) as usize;
        let i = p >> 10;
        if i >= L1N { return None; }
        match &self.l1[i] {
            Some(l) => match &l.0[p & (L2N - 1)] { Some(p) => Some(p), None => None },
            None => None,
        }
    }
    #[inline]
    fn mapped(a: u64) -> bool {
        (a >= 0x1000 && a < HEAP_END) || (a >= STACK_END && a < STACK_TOP)
    }
    #[inline(always)]
    pub fn page_mut(&mut self, a: u64) -> Result<&mut Page, Fault> {
        let p = (a >> 12) as usize;
        let i = p >> 10;
        if i >= L1N || !Self::mapped(a) { return Err(Fault(a)); }
        let slot = &mut self.l1[i];
        if slot.is_none() { *slot = Some(Rc::new(L2(vec![None; L2N]))); }
        let l2 = Rc::make_mut(slot.as_mut().unwrap());
        let ps = &mut l2.0[p & (L2N - 1)];
        if ps.is_none() { *ps = Some(Rc::new(Page { data: [0; PSZ], sym: None })); }
        Ok(Rc::make_mut(ps.as_mut().unwrap()))
    }

    /// concrete little-endian read; Err(None) if symbolic
    #[inline(always)]
    pub fn read_int(&self, a: u64, n: usize) -> Result<u64, Option<Fault>> {
        let o = (a & 4095) as usize;
        if o + n <= PSZ {
            match self.page(a) {
                Some(p) => {
                    if let Some(s) = &p.sym {
                        // any symbolic byte in range?
                        let mut i = 0;
                        while i < n {
                            let k = o + i;
                            if s.bits[k >> 6] >> (k & 63) & 1 == 1 { return Err(None); }
                            i += 1;
                        }
                    }
                    if n == 8 { return Ok(u64::from_le_bytes(p.data[o..o + 8].try_into().unwrap())); }
                    let mut v = 0u64;
                    let mut i = 0;
                    while i < n { v |= (p.data[o + i] as u64) << (8 * i); i += 1; }
                    Ok(v)
                }
                None => if Self::mapped(a) { Ok(0) } else { Err(Some(Fault(a))) },
            }
        } else {
            let mut v = 0u64;
            for i in 0..n { v |= self.read_int(a + i as u64, 1)? << (8 * i); }
            Ok(v)
        }
    }
    #[inline(always)]
    pub fn write_int(&mut self, a: u64, n: usize, v: u64) -> Result<(), Fault> {
        let o = (a & 4095) as usize;
        if o + n <= PSZ {
            let p = self.page_mut(a)?;
            let b = v.to_le_bytes();
            p.data[o..o + n].copy_from_slice(&b[..n]);
            if let Some(s) = &mut p.sym {
                for k in o..o + n {
                    if s.bits[k >> 6] >> (k & 63) & 1 == 1 { s.bits[k >> 6] &= !(1 << (k & 63)); s.map.remove(&(k as u16)); }
                }
            }
            Ok(())
        } else {
            for i in 0..n { self.write_int(a + i as u64, 1, v >> (8 * i) & 255)?; }
            Ok(())
        }
    }
    /// one byte: concrete or symbolic
    pub fn get(&self, a: u64) -> Result<Result<u8, E>, Fault> {
        match self.page(a) {
            Some(p) => {
                let o = (a & 4095) as usize;
                if let Some(s) = &p.sym {
                    if s.bits[o >> 6] >> (o & 63) & 1 == 1 { return Ok(Err(s.map[&(o as u16)])); }
                }
                Ok(Ok(p.data[o]))
            }
            None => if Self::mapped(a) { Ok(Ok(0)) } else { Err(Fault(a)) },
        }
    }
    pub fn set_sym(&mut self, a: u64, e: E) -> Result<(), Fault> {
        let p = self.page_mut(a)?;
        let o = (a & 4095) as usize;
        let s = p.sym.get_or_insert_with(|| Box::new(Shadow { bits: [0; PSZ / 64], map: HashMap::default() }));
        s.bits[o >> 6] |= 1 << (o & 63);
        s.map.insert(o as u16, e);
        Ok(())
    }
    pub fn set(&mut self, a: u64, b: Result<u8, E>) -> Result<(), Fault> {
        match b { Ok(v) => self.write_int(a, 1, v as u64), Err(e) => self.set_sym(a, e) }
    }
    pub fn bytes(&self, a: u64, n: u64) -> Result<Vec<Result<u8, E>>, Fault> {
        let mut v = Vec::with_capacity(n as usize);
        for i in 0..n { v.push(self.get(a + i)?); }
        Ok(v)
    }
    /// memmove semantics
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> Result<(), Fault> {
        if n == 0 || d == s { return Ok(()); }
        // page-wise, through a bounce buffer
        let mut buf: Vec<u8> = vec![0; n as usize];
        let mut syms: Vec<(u64, E)> = vec![];
        let mut i = 0;
        while i < n {
            let a = s + i;
            let o = (a & 4095) as usize;
            let k = ((PSZ - o) as u64).min(n - i) as usize;
            match self.page(a) {
                Some(p) => {
                    buf[i as usize..i as usize + k].copy_from_slice(&p.data[o..o + k]);
                    if let Some(sh) = &p.sym {
                        for j in o..o + k { if sh.bits[j >> 6] >> (j & 63) & 1 == 1 { syms.push((i + (j - o) as u64, sh.map[&(j as u16)])); } }
                    }
                }
                None => if !Self::mapped(a) { return Err(Fault(a)); },
            }
            i += k as u64;
        }
        self.write_bytes(d, &buf)?;
        for (i, e) in syms { self.set_sym(d + i, e)?; }
        Ok(())
    }
    pub fn write_bytes(&mut self, d: u64, buf: &[u8]) -> Result<(), Fault> {
        let n = buf.len();
        let mut i = 0;
        while i < n {
            let a = d + i as u64;
            let o = (a & 4095) as usize;
            let k = (PSZ - o).min(n - i);
            let p = self.page_mut(a)?;
            p.data[o..o + k].copy_from_slice(&buf[i..i + k]);
            if let Some(sh) = &mut p.sym {
                for j in o..o + k { if sh.bits[j >> 6] >> (j & 63) & 1 == 1 { sh.bits[j >> 6] &= !(1 << (j & 63)); sh.map.remove(&(j as u16)); } }
            }
            i += k;
        }
        Ok(())
    }
    pub fn fill(&mut self, d: u64, v: u8, n: u64) -> Result<(), Fault> {
        let buf = vec![v; n as usize];
        self.write_bytes(d, &buf)
    }
    /// n bytes as one expression of width 8n
    pub fn read_expr(&self, ar: &mut Arena, a: u64, n: usize) -> Result<E, Fault> {
        let mut acc: Option<E> = None;
        for i in 0..n {
            let e = match self.get(a + i as u64)? { Ok(b) => ar.cst(b as u128, 8), Err(e) => e };
            acc = Some(match acc { None => e, Some(l) => ar.concat(e, l) });
        }
        Ok(acc.unwrap())
    }
    pub fn write_expr(&mut self, ar: &mut Arena, a: u64, n: usize, e: E) -> Result<(), Fault> {
        let w = ar.width(e);
        for i in 0..n {
            let lo = 8 * i as u16;
            let b = if lo >= w { ar.cst(0, 8) } else if lo + 8 <= w { ar.extract(e, lo, 8) } else { let x = ar.extract(e, lo, w - lo); ar.zext(x, 8) };
            match ar.as_const(b) { Some(v) => self.write_int(a + i as u64, 1, v as u64)?, None => self.set_sym(a + i as u64, b)? }
        }
        Ok(())
    }
}
