//! Copy-on-write byte memory with per-byte symbolic overlay.
use crate::expr::{Ctx, Op, E, NONE};
use crate::ir::V;
use std::rc::Rc;

pub const PB: u64 = 9;
pub const PS: usize = 1 << PB;
pub const CBITS: u64 = 9;
pub const CS: usize = 1 << CBITS;
pub const LIMIT: u64 = 0x2000_0000;

#[derive(Clone)]
pub struct Page { pub b: [u8; PS], pub s: Option<Box<[E; PS]>> }
#[derive(Clone)]
struct Chunk { p: Vec<Option<Rc<Page>>> }

#[derive(Clone)]
pub struct Mem { top: Rc<Vec<Option<Rc<Chunk>>>>, pub brk: u64, free: Rc<Vec<u64>> }

pub const HEAP: u64 = 0x800_0000;
pub const STACK: u64 = 0x400_0000;
pub const STACK_END: u64 = 0x7f0_0000;

#[derive(Debug)]
pub struct Fault(pub u64);

fn class(sz: u64) -> usize {
    // size classes: multiples of 16 up to 1024, then powers of two
    if sz <= 1024 { ((sz + 15) / 16) as usize } else { 64 + (64 - (sz - 1).leading_zeros() as usize) }
}
fn class_size(c: usize) -> u64 { if c <= 64 { c as u64 * 16 } else { 1u64 << (c - 64) } }

impl Mem {
    pub fn new() -> Mem {
        let n = (LIMIT >> (PB + CBITS)) as usize;
        Mem { top: Rc::new(vec![None; n]), brk: HEAP, free: Rc::new(vec![0; 160]) }
    }
    #[inline]
    fn page(&self, a: u64) -> Option<&Page> {
        let c = (a >> (PB + CBITS)) as usize;
        match self.top.get(c) { Some(Some(ch)) => match &ch.p[((a >> PB) as usize) & (CS - 1)] { Some(p) => Some(p), None => None }, _ => None }
    }
    #[inline]
    fn page_mut(&mut self, a: u64) -> &mut Page {
        let c = (a >> (PB + CBITS)) as usize;
        let top = Rc::make_mut(&mut self.top);
        let ch = top[c].get_or_insert_with(|| Rc::new(Chunk { p: vec![None; CS] }));
        let ch = Rc::make_mut(ch);
        let p = ch.p[((a >> PB) as usize) & (CS - 1)].get_or_insert_with(|| Rc::new(Page { b: [0; PS], s: None }));
        Rc::make_mut(p)
    }
    #[inline]
    fn check(&self, a: u64, n: u64) -> Result<(), Fault> {
        if a < 0x1000 || a.wrapping_add(n) > LIMIT || a > LIMIT { return Err(Fault(a)); }
        if a >= HEAP && a + n > self.brk { return Err(Fault(a)); }
        if a >= STACK_END && a < HEAP { return Err(Fault(a)); }
        Ok(())
    }
    #[inline]
    pub fn get(&self, a: u64) -> (u8, E) {
        match self.page(a) { None => (0, NONE), Some(p) => { let o = (a as usize) & (PS - 1); (p.b[o], match &p.s { Some(s) => s[o], None => NONE }) } }
    }
    #[inline]
    pub fn set(&mut self, a: u64, b: u8, e: E) {
        let p = self.page_mut(a);
        let o = (a as usize) & (PS - 1);
        p.b[o] = b;
        match &mut p.s { Some(s) => s[o] = e, None => if e != NONE { let mut s = Box::new([NONE; PS]); s[o] = e; p.s = Some(s); } }
    }
    /// load up to 8 bytes (w bits)
    #[inline]
    pub fn load(&self, c: &mut Ctx, a: u64, w: u32) -> Result<V, Fault> {
        let n = ((w + 7) / 8) as usize;
        self.check(a, n as u64)?;
        let o = (a as usize) & (PS - 1);
        if o + n <= PS {
            let p = match self.page(a) { None => return Ok(V::c(0)), Some(p) => p };
            let mut buf = [0u8; 8];
            buf[..n].copy_from_slice(&p.b[o..o + n]);
            match &p.s {
                None => return Ok(V::c(u64::from_le_bytes(buf) & crate::expr::mask(w) as u64)),
                Some(s) => {
                    if s[o..o + n].iter().all(|&e| e == NONE) { return Ok(V::c(u64::from_le_bytes(buf) & crate::expr::mask(w) as u64)); }
                }
            }
        }
        let mut bytes = [(0u8, NONE); 8];
        for i in 0..n { bytes[i] = self.get(a + i as u64); }
        Ok(assemble(c, &bytes[..n], w))
    }
    pub fn store(&mut self, c: &mut Ctx, a: u64, v: V, w: u32) -> Result<(), Fault> {
        let n = ((w + 7) / 8) as usize;
        self.check(a, n as u64)?;
        let o = (a as usize) & (PS - 1);
        if v.is_c() {
            let buf = v.v.to_le_bytes();
            if o + n <= PS {
                let p = self.page_mut(a);
                p.b[o..o + n].copy_from_slice(&buf[..n]);
                if let Some(s) = &mut p.s { for x in &mut s[o..o + n] { *x = NONE; } }
            } else { for i in 0..n { self.set(a + i as u64, buf[i], NONE); } }
        } else {
            let e = if w % 8 != 0 { c.zext(v.e, n as u32 * 8) } else { v.e };
            for i in 0..n {
                let x = if n == 1 { e } else { c.extract(e, i as u32 * 8, 8) };
                match c.as_const(x) { Some(k) => self.set(a + i as u64, k as u8, NONE), None => self.set(a + i as u64, 0, x) }
            }
        }
        Ok(())
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> Result<(), Fault> {
        if n == 0 { return Ok(()); }
        self.check(s, n)?; self.check(d, n)?;
        if d == s { return Ok(()); }
        // chunked, reading the whole source first (memmove semantics)
        let mut buf: Vec<u8> = Vec::with_capacity(n as usize);
        let mut sym: Vec<(u32, E)> = vec![];
        let mut a = s; let mut left = n;
        while left > 0 {
            let o = (a as usize) & (PS - 1);
            let k = (PS - o).min(left as usize);
            match self.page(a) {
                None => buf.resize(buf.len() + k, 0),
                Some(p) => {
                    let base = buf.len();
                    buf.extend_from_slice(&p.b[o..o + k]);
                    if let Some(ss) = &p.s { for i in 0..k { if ss[o + i] != NONE { sym.push(((base + i) as u32, ss[o + i])); } } }
                }
            }
            a += k as u64; left -= k as u64;
        }
        let mut a = d; let mut pos = 0usize;
        while pos < n as usize {
            let o = (a as usize) & (PS - 1);
            let k = (PS - o).min(n as usize - pos);
            let p = self.page_mut(a);
            p.b[o..o + k].copy_from_slice(&buf[pos..pos + k]);
            if let Some(ss) = &mut p.s { for x in &mut ss[o..o + k] { *x = NONE; } }
            a += k as u64; pos += k;
        }
        for (i, e) in sym { self.set(d + i as u64, 0, e); }
        Ok(())
    }
    pub fn fill(&mut self, d: u64, b: u8, e: E, n: u64) -> Result<(), Fault> {
        if n == 0 { return Ok(()); }
        self.check(d, n)?;
        if e != NONE { for i in 0..n { self.set(d + i, b, e); } return Ok(()); }
        let mut a = d; let mut left = n as usize;
        while left > 0 {
            let o = (a as usize) & (PS - 1);
            let k = (PS - o).min(left);
            let p = self.page_mut(a);
            for x in &mut p.b[o..o + k] { *x = b; }
            if let Some(ss) = &mut p.s { for x in &mut ss[o..o + k] { *x = NONE; } }
            a += k as u64; left -= k;
        }
        Ok(())
    }
    pub fn write_concrete(&mut self, a: u64, bytes: &[u8]) { for (i, b) in bytes.iter().enumerate() { self.set(a + i as u64, *b, NONE); } }

    pub fn malloc(&mut self, sz: u64, align: u64) -> u64 {
        if sz > 0x800_0000 { return 0; }
        let c = class(sz.max(1));
        if align <= 16 {
            let h = self.free[c];
            if h != 0 {
                let nx = { let mut b = [0u8; 8]; for i in 0..8 { b[i] = self.get(h + i as u64).0; } u64::from_le_bytes(b) };
                Rc::make_mut(&mut self.free)[c] = nx;
                return h;
            }
        }
        let al = align.max(16);
        let a = crate::ir::up(self.brk + 16, al);
        let end = a + class_size(c);
        if end + 0x1000 > LIMIT { return 0; }
        self.brk = end;
        let hdr = a - 8;
        for (i, b) in (c as u64).to_le_bytes().iter().enumerate() { self.set(hdr + i as u64, *b, NONE); }
        a
    }
    pub fn size_class(&self, a: u64) -> usize { let mut b = [0u8; 8]; for i in 0..8 { b[i] = self.get(a - 8 + i as u64).0; } u64::from_le_bytes(b) as usize }
    pub fn free(&mut self, a: u64) {
        if a == 0 { return; }
        let c = self.size_class(a);
        let h = self.free[c];
        for (i, b) in h.to_le_bytes().iter().enumerate() { self.set(a + i as u64, *b, NONE); }
        Rc::make_mut(&mut self.free)[c] = a;
    }
    pub fn realloc(&mut self, a: u64, n: u64) -> u64 {
        if a == 0 { return self.malloc(n, 16); }
        let c = self.size_class(a);
        if class(n.max(1)) == c { return a; }
        let b = self.malloc(n, 16);
        if b == 0 { return 0; }
        let _ = self.copy(b, a, class_size(c).min(n));
        self.free(a);
        b
    }
}

pub fn assemble(c: &mut Ctx, bytes: &[(u8, E)], w: u32) -> V {
    let mut acc: E = NONE;
    for (b, e) in bytes.iter() {
        let x = if *e != NONE { *e } else { c.cst(*b as u128, 8) };
        acc = if acc == NONE { x } else { c.concat(x, acc) };
    }
    if c.w(acc) != w { acc = c.extract(acc, 0, w); }
    match c.as_const(acc) { Some(k) => V::c(k as u64), None => V { e: acc, v: 0 } }
}
#[allow(unused)]
fn _u(o: Op) {}
