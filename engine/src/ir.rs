//! LLVM textual IR: index a module, parse function bodies lazily and lower them
//! to a flat register code that the executor interprets.
use crate::expr::Op;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Struct(Vec<Ty>, bool), Arr(u64, Box<Ty>), Vec(u64, Box<Ty>), Other }

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.store().next_power_of_two(),
            _ => 1,
        }
    }
    pub fn store(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn bits(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => panic!("bits {:?}", self) } }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f { if !*p { o = up(o, t.align()); } o += t.size(); }
                up(o, self.align())
            }
            Ty::Arr(n, t) => n * t.size(),
            _ => up(self.store(), self.align()),
        }
    }
    pub fn field(&self, i: u64) -> (u64, &Ty) {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*p { o = up(o, t.align()); }
                    if k as u64 == i { return (o, t); }
                    o += t.size();
                }
                panic!()
            }
            Ty::Arr(_, t) => (i * t.size(), t),
            Ty::Vec(_, t) => (i * t.store(), t),
            _ => panic!("field of {:?}", self),
        }
    }
    /// number of register slots
    pub fn slots(&self) -> usize {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => if *w > 64 { 2 } else { 1 },
            Ty::Ptr | Ty::F32 | Ty::F64 => 1,
            Ty::Struct(f, _) => f.iter().map(|t| t.slots()).sum(),
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.slots(),
        }
    }
    fn slot_of(&self, i: u64) -> (usize, &Ty) {
        match self {
            Ty::Struct(f, _) => (f[..i as usize].iter().map(|t| t.slots()).sum(), &f[i as usize]),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i as usize * t.slots(), t),
            _ => panic!(),
        }
    }
    /// (byte offset, scalar type) of every leaf
    pub fn leaves(&self, base: u64, out: &mut Vec<(u64, Ty)>) {
        match self {
            Ty::Void | Ty::Other => {}
            Ty::Struct(f, _) => for i in 0..f.len() { let (o, t) = self.field(i as u64); t.leaves(base + o, out) },
            Ty::Arr(n, t) => for i in 0..*n { t.leaves(base + i * t.size(), out) },
            Ty::Vec(n, t) => for i in 0..*n { t.leaves(base + i * t.store(), out) },
            t => out.push((base, t.clone())),
        }
    }
}
pub fn up(o: u64, a: u64) -> u64 { (o + a - 1) / a * a }

pub type Opd = u32;
pub const CB: u32 = 1 << 31;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Zext, Sext, Trunc }

#[derive(Debug)]
pub struct Edge { pub to: u32, pub moves: Vec<(u32, Opd)> }

#[derive(Debug)]
pub enum Callee { Direct(usize), Ptr(Opd), Intr(Intr) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Memcpy, Memmove, Memset, Assume, Umin(u32), Umax(u32), Smin(u32), Smax(u32), Abs(u32), Ctlz(u32), Cttz(u32), Ctpop(u32), Bswap(u32),
    Bitrev(u32), Fshl(u32), Fshr(u32), UsubSat(u32), UaddSat(u32), SsubSat(u32), SaddSat(u32),
    UaddO(u32), UsubO(u32), UmulO(u32), SaddO(u32), SsubO(u32), SmulO(u32), Ucmp(u32, u32), Scmp(u32, u32),
    Trap, Id, LoadRel, Zero, Fabs(u32), Libm(usize, u32), RedAdd(u32, u32), RedOr(u32, u32), RedAnd(u32, u32), RedUmax(u32, u32), RedUmin(u32, u32), RedMul(u32, u32), RedXor(u32, u32),
}

#[derive(Debug)]
pub enum Inst {
    Bin { op: Op, w: u32, d: u32, a: Opd, b: Opd },
    BinW { op: Op, w: u32, d: u32, a: [Opd; 2], b: [Opd; 2] },
    Icmp { p: Pred, w: u32, d: u32, a: Opd, b: Opd },
    IcmpW { p: Pred, w: u32, d: u32, a: [Opd; 2], b: [Opd; 2] },
    Cast { k: Cast, from: u32, to: u32, d: u32, a: Opd, ah: Opd },
    Fp { code: u32, wa: u32, w: u32, d: u32, a: Opd, b: Opd },
    Sel { d: u32, c: Opd, a: Opd, b: Opd, w: u32, ptr: bool },
    SelW { d: u32, c: Opd, a: [Opd; 2], b: [Opd; 2] },
    Mov { d: u32, a: Opd },
    PackBits { d: u32, ew: u32, from: Vec<Opd>, w: u32 },
    UnpackBits { d: u32, ew: u32, n: u32, a: [Opd; 2], w: u32 },
    DynElem { d: u32, elems: Vec<Opd>, idx: Opd },
    Gep { d: u32, base: Opd, off: u64, idx: Opd, scale: u64, w: u32 },
    GepN { d: u32, base: Opd, off: u64, idx: Vec<(Opd, u64, u32)> },
    Load { d: u32, a: Opd, off: u64, w: u32, ptr: bool },
    Store { a: Opd, off: u64, v: Opd, w: u32 },
    LoadW { d: u32, a: Opd, w: u32 },
    StoreW { a: Opd, v: [Opd; 2], w: u32 },
    LoadBits { d: u32, a: Opd, off: u64, ew: u32, n: u32 },
    Rmw { d: u32, a: Opd, v: Opd, w: u32, op: u8 },
    CmpXchg { d: u32, a: Opd, c: Opd, n: Opd, w: u32 },
    Alloca { d: u32, off: u64 },
    DynAlloca { d: u32, n: Opd, sz: u64 },
    Call { d: u32, nd: u32, callee: Callee, args: Vec<Opd> },
    Br(Edge),
    CondBr { c: Opd, t: Edge, f: Edge },
    Switch { v: Opd, w: u32, cases: Vec<(u64, u32)>, edges: Vec<Edge> }, // edges[0] = default
    Ret(Vec<Opd>),
    Unreachable,
    Unsup(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct V { pub e: u32, pub v: u64 }
impl V { pub const fn c(v: u64) -> V { V { e: u32::MAX, v } } #[inline] pub fn is_c(&self) -> bool { self.e == u32::MAX } }

pub struct Func {
    pub name: String,
    pub id: usize,
    pub nparams: u32,
    pub nregs: u32,
    pub code: Vec<Inst>,
    pub consts: Vec<V>,
    pub alloca: u64,
}

pub enum GKind { Var { ty_off: usize }, Func { def: Option<(usize, usize)>, weak: bool }, Alias(usize) }
pub struct Global { pub name: String, pub addr: u64, pub size: u64, pub kind: GKind }

pub struct Module {
    pub src: &'static [u8],
    pub globals: Vec<Global>,
    pub byname: HashMap<&'static [u8], usize>,
    pub types: HashMap<&'static [u8], Ty>,
    pub faddr: HashMap<u64, usize>,
    bad: std::collections::HashSet<usize>,
    pub funcs: Vec<Option<&'static Func>>,
    pub ginit: Vec<(u64, Vec<u8>)>,
    pub gend: u64,
}

pub const GBASE: u64 = 0x10_0000;
pub const FBASE: u64 = 0x7000_0000_0000;

struct P<'a> { s: &'a [u8], p: usize, m: &'a Module }

fn is_id(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' }

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.p < self.s.len() {
            let c = self.s[self.p];
            if c == b' ' || c == b'\n' || c == b'\t' { self.p += 1; }
            else if c == b';' { while self.p < self.s.len() && self.s[self.p] != b'\n' { self.p += 1; } }
            else if c == b'/' && self.s.get(self.p + 1) == Some(&b'*') { self.p += 2; while self.p < self.s.len() && !self.s[self.p..].starts_with(b"*/") { self.p += 1; } self.p = (self.p + 2).min(self.s.len()); }
            else { break }
        }
    }
    fn peek(&mut self) -> u8 { self.ws(); if self.p < self.s.len() { self.s[self.p] } else { 0 } }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.p..].starts_with(t.as_bytes()) {
            let last = *t.as_bytes().last().unwrap();
            if is_id(last) { if let Some(&c) = self.s.get(self.p + t.len()) { if is_id(c) { return false; } } }
            self.p += t.len();
            return true;
        }
        false
    }
    fn exp(&mut self, t: &str) { if !self.eat(t) { panic!("expected {:?} at {:?}", t, self.here()) } }
    fn here(&self) -> String { String::from_utf8_lossy(&self.s[self.p..self.s.len().min(self.p + 120)]).to_string() }
    fn word(&mut self) -> &'a [u8] {
        self.ws();
        let st = self.p;
        while self.p < self.s.len() && is_id(self.s[self.p]) { self.p += 1; }
        &self.s[st..self.p]
    }
    fn peek_word(&mut self) -> &'a [u8] { self.ws(); let p = self.p; let w = self.word(); self.p = p; w }
    fn sigil_name(&mut self) -> &'a [u8] {
        // after % or @
        self.ws();
        self.p += 1;
        if self.s[self.p] == b'"' {
            let st = self.p + 1;
            self.p += 1;
            while self.s[self.p] != b'"' { self.p += 1; }
            self.p += 1;
            &self.s[st..self.p - 1]
        } else {
            let st = self.p;
            while self.p < self.s.len() && is_id(self.s[self.p]) { self.p += 1; }
            &self.s[st..self.p]
        }
    }
    fn skip_balanced(&mut self) {
        // at an opening bracket
        self.ws();
        let mut d = 0i32;
        loop {
            let c = self.s[self.p];
            match c {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => d -= 1,
                b'"' => { self.p += 1; while self.s[self.p] != b'"' { self.p += 1; } }
                _ => {}
            }
            self.p += 1;
            if d == 0 { break; }
        }
    }
    fn int(&mut self) -> i128 {
        self.ws();
        let neg = if self.s[self.p] == b'-' { self.p += 1; true } else { false };
        let mut v: u128 = 0;
        let st = self.p;
        while self.p < self.s.len() && self.s[self.p].is_ascii_digit() { v = v.wrapping_mul(10).wrapping_add((self.s[self.p] - b'0') as u128); self.p += 1; }
        if st == self.p { panic!("int expected at {}", self.here()) }
        if neg { (v as i128).wrapping_neg() } else { v as i128 }
    }
    fn is_type_start(&mut self) -> bool {
        match self.peek() {
            b'[' | b'{' | b'<' | b'%' => true,
            _ => {
                let w = self.peek_word();
                match w {
                    b"ptr" | b"void" | b"float" | b"double" | b"half" | b"label" | b"metadata" | b"token" | b"x86_fp80" | b"fp128" => true,
                    _ => w.len() > 1 && w[0] == b'i' && w[1..].iter().all(|c| c.is_ascii_digit()),
                }
            }
        }
    }
    fn ty(&mut self) -> Ty {
        match self.peek() {
            b'[' => { self.p += 1; let n = self.int() as u64; self.exp("x"); let t = self.ty(); self.exp("]"); Ty::Arr(n, Box::new(t)) }
            b'{' => { self.p += 1; let f = self.ty_list(b'}'); Ty::Struct(f, false) }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' { self.p += 1; let f = self.ty_list(b'}'); self.exp(">"); return Ty::Struct(f, true); }
                let n = self.int() as u64; self.exp("x"); let t = self.ty(); self.exp(">"); Ty::Vec(n, Box::new(t))
            }
            b'%' => { let n = self.sigil_name(); self.m.types.get(n).cloned().unwrap_or(Ty::Other) }
            _ => {
                let w = self.word();
                match w {
                    b"ptr" => { if self.eat("addrspace") { self.skip_balanced(); } Ty::Ptr }
                    b"void" => Ty::Void,
                    b"float" => Ty::F32,
                    b"double" => Ty::F64,
                    b"label" | b"metadata" | b"token" | b"half" | b"x86_fp80" | b"fp128" => Ty::Other,
                    _ => {
                        if w.len() > 1 && w[0] == b'i' { if let Ok(n) = std::str::from_utf8(&w[1..]).unwrap().parse() { return Ty::Int(n); } }
                        panic!("type expected, got {:?} at {}", String::from_utf8_lossy(w), self.here())
                    }
                }
            }
        }
    }
    fn ty_list(&mut self, close: u8) -> Vec<Ty> {
        let mut v = vec![];
        if self.peek() == close { self.p += 1; return v; }
        loop {
            v.push(self.ty());
            if self.peek() == b',' { self.p += 1; } else { assert_eq!(self.peek(), close); self.p += 1; return v; }
        }
    }
    /// skip attribute words up to a type or value start
    fn attrs(&mut self) {
        loop {
            if self.is_type_start() { return; }
            let c = self.peek();
            if c == b'#' || c == b'"' { return; }
            if !c.is_ascii_alphabetic() { return; }
            let w = self.word();
            if w == b"align" { if self.peek() == b'(' { self.skip_balanced() } else { self.int(); } continue; }
            if self.s.get(self.p) == Some(&b'(') { self.skip_balanced(); }
        }
    }
    fn val_attrs(&mut self) {
        // parameter attributes between type and value
        loop {
            let c = self.peek();
            if !c.is_ascii_lowercase() { return; }
            let w = self.peek_word();
            match w {
                b"true" | b"false" | b"null" | b"undef" | b"poison" | b"zeroinitializer" | b"getelementptr" | b"inttoptr" | b"ptrtoint" | b"splat" | b"trunc" | b"sub" | b"add" | b"bitcast" | b"xor" | b"c" | b"asm" | b"ptrtoaddr" => return,
                _ => {}
            }
            self.p += w.len();
            if w == b"align" { if self.peek() == b'(' { self.skip_balanced() } else { self.int(); } continue; }
            if self.s.get(self.p) == Some(&b'(') { self.skip_balanced(); }
        }
    }
    fn gaddr(&self, n: &[u8]) -> u64 {
        match self.m.byname.get(n) {
            Some(&i) => { let g = &self.m.globals[i]; if let GKind::Alias(off) = g.kind { let mut q = P { s: self.m.src, p: off, m: self.m }; let a = q.konst(&Ty::Ptr); return a[0].v; } g.addr }
            None => panic!("unknown global {}", String::from_utf8_lossy(n)),
        }
    }
    /// constant of type t -> slots
    fn konst(&mut self, t: &Ty) -> Vec<V> {
        let c = self.peek();
        if c == b'@' { let n = self.sigil_name(); return vec![V::c(self.gaddr(n))]; }
        if matches!(t, Ty::F32 | Ty::F64) && (c == b'+' || c == b'-' || c == b'f') {
            self.ws();
            let r = &self.s[self.p..];
            let neg = c == b'-';
            let e = if *t == Ty::F32 { 0x7f80_0000u64 } else { 0x7ff0_0000_0000_0000 };
            let sign = if neg { if *t == Ty::F32 { 1 << 31 } else { 1 << 63 } } else { 0 };
            if r[1..].starts_with(b"inf") { self.p += 4; return vec![V::c(e | sign)]; }
            if r[1..].starts_with(b"qnan") { self.p += 5; return vec![V::c(e | sign | if *t == Ty::F32 { 1 << 22 } else { 1 << 51 })]; }
            if r.starts_with(b"f0x") {
                self.p += 3;
                let st = self.p;
                while self.s[self.p].is_ascii_hexdigit() { self.p += 1; }
                return vec![V::c(u64::from_str_radix(std::str::from_utf8(&self.s[st..self.p]).unwrap(), 16).expect("fp bits"))];
            }
            if c == b'+' { self.p += 1; }
        }
        let c = self.peek();
        if c.is_ascii_digit() || c == b'-' {
            match t {
                Ty::Int(w) => { let v = self.int() as u128 & crate::expr::mask(*w); return if *w > 64 { vec![V::c(v as u64), V::c((v >> 64) as u64)] } else { vec![V::c(v as u64)] }; }
                Ty::F32 | Ty::F64 => {
                    self.ws();
                    let st = self.p;
                    while self.p < self.s.len() && (is_id(self.s[self.p]) || self.s[self.p] == b'+') { self.p += 1; }
                    let s = std::str::from_utf8(&self.s[st..self.p]).unwrap();
                    let d = if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).expect("fp hex")) } else { s.parse::<f64>().unwrap() };
                    return vec![V::c(if *t == Ty::F32 { (d as f32).to_bits() as u64 } else { d.to_bits() })];
                }
                _ => panic!("number for {:?}", t),
            }
        }
        match c {
            b'[' | b'{' => {
                self.p += 1;
                let close = if c == b'[' { b']' } else { b'}' };
                let mut v = vec![];
                while self.peek() != close { let t = self.ty(); v.extend(self.konst(&t)); if self.peek() == b',' { self.p += 1; } }
                self.p += 1;
                return v;
            }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    self.p += 1;
                    let mut v = vec![];
                    while self.peek() != b'}' { let t = self.ty(); v.extend(self.konst(&t)); if self.peek() == b',' { self.p += 1; } }
                    self.p += 1; self.exp(">");
                    return v;
                }
                let mut v = vec![];
                while self.peek() != b'>' { let t = self.ty(); v.extend(self.konst(&t)); if self.peek() == b',' { self.p += 1; } }
                self.p += 1;
                return v;
            }
            _ => {}
        }
        let w = self.word();
        match w {
            b"true" => vec![V::c(1)],
            b"false" => vec![V::c(0)],
            b"null" | b"undef" | b"poison" | b"zeroinitializer" | b"none" => vec![V::c(0); t.slots()],
            b"c" => {
                assert_eq!(self.s[self.p], b'"');
                self.p += 1;
                let mut v = vec![];
                while self.s[self.p] != b'"' {
                    if self.s[self.p] == b'\\' && self.s[self.p + 1] == b'\\' { v.push(V::c(b'\\' as u64)); self.p += 2; }
                    else if self.s[self.p] == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                        v.push(V::c(u64::from_str_radix(h, 16).unwrap())); self.p += 3;
                    } else { v.push(V::c(self.s[self.p] as u64)); self.p += 1; }
                }
                self.p += 1;
                v
            }
            b"splat" => {
                self.exp("("); let et = self.ty(); let v = self.konst(&et); self.exp(")");
                let n = if let Ty::Vec(n, _) = t { *n as usize } else { panic!() };
                let mut o = vec![]; for _ in 0..n { o.extend_from_slice(&v); } o
            }
            b"getelementptr" => {
                while self.peek() != b'(' { self.word(); if self.peek() == b'(' && self.s[self.p..].starts_with(b"(-") { self.skip_balanced(); } }
                // "inrange(a, b)" looks like "inrange(" – handle
                self.exp("(");
                let bt = self.ty(); self.exp(",");
                let pt = self.ty(); self.val_attrs();
                let mut a = self.konst(&pt)[0].v;
                let mut cur = bt;
                let mut first = true;
                while self.peek() == b',' {
                    self.p += 1;
                    let it = self.ty();
                    let i = self.konst(&it)[0].v;
                    let i = crate::expr::sx(i as u128, it.bits()) as i64;
                    if first { a = a.wrapping_add((i as u64).wrapping_mul(cur.size())); first = false; }
                    else { let (o, t2) = match &cur { Ty::Arr(_, t) => ((i as u64).wrapping_mul(t.size()), (**t).clone()), _ => { let (o, t) = cur.field(i as u64); (o, t.clone()) } }; a = a.wrapping_add(o); cur = t2; }
                }
                self.exp(")");
                vec![V::c(a)]
            }
            b"inttoptr" | b"ptrtoint" | b"trunc" | b"bitcast" | b"ptrtoaddr" => {
                self.exp("("); let st = self.ty(); let v = self.konst(&st); self.exp("to"); let dt = self.ty(); self.exp(")");
                let m = if dt.slots() == 1 { crate::expr::mask(dt.bits()) as u64 } else { !0 };
                vec![V::c(v[0].v & m)]
            }
            b"sub" | b"add" | b"xor" => {
                while self.peek() != b'(' { self.word(); }
                self.exp("("); let t1 = self.ty(); let a = self.konst(&t1)[0].v; self.exp(","); let t2 = self.ty(); let b = self.konst(&t2)[0].v; self.exp(")");
                let m = crate::expr::mask(t1.bits()) as u64;
                vec![V::c(match w { b"sub" => a.wrapping_sub(b), b"add" => a.wrapping_add(b), _ => a ^ b } & m)]
            }
            _ => panic!("constant? {:?} at {}", String::from_utf8_lossy(w), self.here()),
        }
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let src: &'static [u8] = Box::leak(std::fs::read(path).expect("read ll").into_boxed_slice());
        let mut m = Module { src, globals: vec![], byname: HashMap::new(), types: HashMap::new(), faddr: HashMap::new(), bad: Default::default(), funcs: vec![], ginit: vec![], gend: 0 };
        // index lines
        let mut p = 0;
        let mut gvars: Vec<(usize, usize)> = vec![]; // (global idx, offset after '=')
        while p < src.len() {
            let e = src[p..].iter().position(|&c| c == b'\n').map(|x| p + x).unwrap_or(src.len());
            let line = &src[p..e];
            if line.starts_with(b"@") {
                let mut q = P { s: src, p, m: &m };
                let n: &'static [u8] = unsafe { std::mem::transmute::<&[u8], &'static [u8]>(q.sigil_name()) };
                q.exp("=");
                let off = q.p;
                gvars.push((m.globals.len(), off));
                m.byname.insert(n, m.globals.len());
                m.globals.push(Global { name: String::from_utf8_lossy(n).to_string(), addr: 0, size: 0, kind: GKind::Var { ty_off: off } });
                m.funcs.push(None);
            } else if line.starts_with(b"%") {
                let mut q = P { s: src, p, m: &m };
                let n: &'static [u8] = unsafe { std::mem::transmute::<&[u8], &'static [u8]>(q.sigil_name()) };
                q.exp("="); q.exp("type");
                let t = if q.eat("opaque") { Ty::Other } else { q.ty() };
                m.types.insert(n, t);
            } else if line.starts_with(b"define") || line.starts_with(b"declare") {
                let at = line.iter().position(|&c| c == b'@').unwrap();
                let mut q = P { s: src, p: p + at, m: &m };
                let n: &'static [u8] = unsafe { std::mem::transmute::<&[u8], &'static [u8]>(q.sigil_name()) };
                let id = m.globals.len();
                let weak = line[..at].windows(11).any(|w| w == b"extern_weak");
                let mut def = None;
                if line.starts_with(b"define") {
                    // body until "\n}\n"
                    let mut q = e;
                    loop {
                        let x = src[q..].iter().position(|&c| c == b'\n').unwrap() + q;
                        if src[x + 1] == b'}' { q = x + 1; break; }
                        q = x + 1;
                    }
                    def = Some((p, q));
                    p = q;
                }
                let addr = if weak { 0 } else { FBASE + id as u64 * 16 };
                m.faddr.insert(addr, id);
                m.byname.insert(n, id);
                m.globals.push(Global { name: String::from_utf8_lossy(n).to_string(), addr, size: 0, kind: GKind::Func { def, weak } });
                m.funcs.push(None);
                if def.is_some() { continue; }
            }
            p = e + 1;
        }
        // lay out variables
        let mut addr = GBASE;
        let mut inits: Vec<(usize, usize, Ty)> = vec![];
        for &(gi, off) in &gvars {
            let mut q = P { s: src, p: off, m: &m };
            let mut external = false;
            let mut alias = false;
            loop {
                let w = q.peek_word();
                match w {
                    b"global" | b"constant" => { q.p += w.len(); break; }
                    b"alias" | b"ifunc" => { q.p += w.len(); alias = true; break; }
                    b"external" | b"extern_weak" => external = true,
                    b"" => panic!("global decl at {}", q.here()),
                    _ => {}
                }
                q.p += w.len();
                if q.s[q.p] == b'(' { q.skip_balanced(); }
            }
            let t = q.ty();
            if alias {
                q.exp(",");
                let pt = q.ty();
                let _ = pt;
                let o = q.p;
                m.globals[gi].kind = GKind::Alias(o);
                continue;
            }
            let al = t.align().max(16);
            addr = up(addr, al);
            let size = t.size();
            let o = q.p;
            m.globals[gi].addr = addr;
            m.globals[gi].size = size;
            if !external { inits.push((gi, o, t)); }
            addr += size.max(1);
        }
        m.gend = addr;
        let mut out = vec![];
        for (gi, off, t) in &inits {
            let a = m.globals[*gi].addr;
            let mut q = P { s: src, p: *off, m: &m };
            let v = q.konst(t);
            let mut lv = vec![];
            t.leaves(0, &mut lv);
            let mut bytes = vec![0u8; t.size() as usize];
            let mut si = 0;
            for (o, lt) in &lv {
                let n = lt.store() as usize;
                let mut x = v[si].v as u128;
                if lt.slots() == 2 { x |= (v[si + 1].v as u128) << 64; }
                si += lt.slots();
                bytes[*o as usize..*o as usize + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            out.push((a, bytes));
        }
        m.ginit = out;
        m
    }
    pub fn func_id(&self, name: &str) -> Option<usize> { self.byname.get(name.as_bytes()).copied() }

    pub fn get(&mut self, id: usize) -> Option<&'static Func> {
        if let Some(f) = self.funcs[id] { return Some(f); }
        let (s, e) = match self.globals[id].kind { GKind::Func { def: Some(d), .. } => d, _ => return None };
        if self.bad.contains(&id) { return None }
        // a construct the lowering does not know makes the paths through this function incomplete
        let f = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.lower(id, s, e))) {
            Ok(f) => f,
            Err(_) => { self.bad.insert(id); return None }
        };
        let f: &'static Func = Box::leak(Box::new(f));
        self.funcs[id] = Some(f);
        Some(f)
    }

    fn lower(&self, id: usize, s: usize, e: usize) -> Func {
        let text = &self.src[s..e];
        let nl = {
            // the define line ends with " {\n"
            text.iter().position(|&c| c == b'\n').unwrap()
        };
        let mut l = Low { m: self, names: HashMap::new(), nregs: 0, consts: vec![], cmap: HashMap::new(), alloca: 0 };
        // header
        let at = text.iter().position(|&c| c == b'@').unwrap();
        let mut q = P { s: text, p: at, m: self };
        q.sigil_name();
        q.exp("(");
        let mut unnamed = 0usize;
        while q.peek() != b')' {
            if q.eat("...") { break; }
            let t = q.ty();
            q.val_attrs();
            let nm: String = if q.peek() == b'%' { String::from_utf8_lossy(q.sigil_name()).to_string() } else { let n = unnamed.to_string(); n };
            if nm.parse::<usize>().is_ok() { unnamed += 1; }
            l.alloc(&nm, t);
            if q.peek() == b',' { q.p += 1; }
        }
        let nparams = l.nregs;
        // logical lines
        let body = &text[nl + 1..];
        let mut lines: Vec<(usize, usize)> = vec![];
        let mut p = 0;
        while p < body.len() {
            let e = body[p..].iter().position(|&c| c == b'\n').map(|x| p + x).unwrap_or(body.len());
            let ln = &body[p..e];
            if ln.is_empty() || ln.starts_with(b"  ; ") || ln.starts_with(b";") || ln.starts_with(b"    #dbg") || ln.starts_with(b"}") { p = e + 1; continue; }
            let cont = ln.starts_with(b"   ") || ln.starts_with(b"  ]");
            if cont { lines.last_mut().unwrap().1 = e; } else { lines.push((p, e)); }
            p = e + 1;
        }
        // pass 1: result types
        let mut blocks: HashMap<Vec<u8>, u32> = HashMap::new();
        let mut cur_block: Vec<u8> = vec![];
        let mut first = true;
        let mut raw: Vec<(usize, usize, Option<(u32, Ty)>)> = vec![];
        struct Blk { name: Vec<u8>, start: usize }
        let mut blks: Vec<Blk> = vec![];
        for &(a, b) in &lines {
            let ln = &body[a..b];
            if ln[0] != b' ' {
                // label
                let nm = if ln[0] == b'"' { let e = ln[1..].iter().position(|&c| c == b'"').unwrap(); ln[1..1 + e].to_vec() } else { let e = ln.iter().position(|&c| c == b':').unwrap(); ln[..e].to_vec() };
                cur_block = nm;
                blks.push(Blk { name: cur_block.clone(), start: raw.len() });
                first = false;
                continue;
            }
            if first { cur_block = unnamed.to_string().into_bytes(); blks.push(Blk { name: cur_block.clone(), start: 0 }); first = false; }
            let mut q = P { s: ln, p: 0, m: self };
            if q.peek() == b'%' {
                let nm = String::from_utf8_lossy(q.sigil_name()).to_string();
                q.exp("=");
                let t = result_type(&mut P { s: ln, p: q.p, m: self });
                let slot = l.alloc(&nm, t.clone());
                raw.push((a + q.p, b, Some((slot, t))));
            } else { raw.push((a, b, None)); }
        }
        let _ = cur_block;
        // pass 2: collect phis and lower
        let mut code: Vec<Inst> = vec![];
        // phi: block -> [(dst slot, ty, [(val slots, pred)])]
        let mut phis: HashMap<Vec<u8>, Vec<(u32, usize, Vec<(Vec<Opd>, Vec<u8>)>)>> = HashMap::new();
        let nb = blks.len();
        // first gather all phis
        for bi in 0..nb {
            let end = if bi + 1 < nb { blks[bi + 1].start } else { raw.len() };
            for r in &raw[blks[bi].start..end] {
                let mut q = P { s: &body[r.0..r.1], p: 0, m: self };
                if !q.eat("phi") { break; }
                while !q.is_type_start() { q.word(); }
                let t = q.ty();
                let (slot, _) = r.2.as_ref().unwrap();
                let mut inc = vec![];
                while q.peek() == b'[' {
                    q.p += 1;
                    let v = l.val(&mut q, &t);
                    q.exp(",");
                    let b = q.sigil_name().to_vec();
                    q.exp("]");
                    inc.push((v, b));
                    if q.peek() == b',' && { let s = q.p; q.p += 1; let r = q.peek() == b'['; if !r { q.p = s; } r } { continue; } else { break; }
                }
                phis.entry(blks[bi].name.clone()).or_default().push((*slot, t.slots(), inc));
            }
        }
        let mut fix: Vec<Vec<u8>> = vec![];
        let mk_edge = |fix: &mut Vec<Vec<u8>>, from: &[u8], to: &[u8]| -> Edge {
            let mut moves = vec![];
            if let Some(ps) = phis.get(to) {
                for (slot, n, inc) in ps {
                    let (v, _) = inc.iter().find(|(_, b)| b == from).unwrap_or_else(|| panic!("phi edge"));
                    for k in 0..*n { if v[k] != slot + k as u32 { moves.push((slot + k as u32, v[k])); } }
                }
            }
            // parallel-move safety: reorder not attempted; the executor reads all before writing when needed
            fix.push(to.to_vec());
            Edge { to: (fix.len() - 1) as u32, moves }
        };
        for bi in 0..nb {
            blocks.insert(blks[bi].name.clone(), code.len() as u32);
            let end = if bi + 1 < nb { blks[bi + 1].start } else { raw.len() };
            let bname = blks[bi].name.clone();
            for ri in blks[bi].start..end {
                let r = &raw[ri];
                let mut q = P { s: &body[r.0..r.1], p: 0, m: self };
                let (d, dt) = match &r.2 { Some((d, t)) => (*d, t.clone()), None => (0, Ty::Void) };
                let w = q.word();
                match w {
                    b"phi" => {}
                    b"br" => {
                        if q.eat("label") { let t = q.sigil_name().to_vec(); let e = mk_edge(&mut fix, &bname, &t); code.push(Inst::Br(e)); }
                        else {
                            q.exp("i1"); let c = l.val(&mut q, &Ty::Int(1))[0]; q.exp(","); q.exp("label"); let t = q.sigil_name().to_vec(); q.exp(","); q.exp("label"); let f = q.sigil_name().to_vec();
                            let te = mk_edge(&mut fix, &bname, &t); let fe = mk_edge(&mut fix, &bname, &f);
                            code.push(Inst::CondBr { c, t: te, f: fe });
                        }
                    }
                    b"switch" => {
                        let t = q.ty(); let v = l.val(&mut q, &t)[0]; q.exp(","); q.exp("label");
                        let dn = q.sigil_name().to_vec();
                        let mut edges = vec![mk_edge(&mut fix, &bname, &dn)];
                        let mut names = vec![dn];
                        let mut cases = vec![];
                        q.exp("[");
                        if t.bits() > 64 { code.push(Inst::Unsup("wide switch".into())); continue; }
                        while q.peek() != b']' {
                            let ct = q.ty(); let k = q.konst(&ct)[0].v; q.exp(","); q.exp("label");
                            let n = q.sigil_name().to_vec();
                            let ei = match names.iter().position(|x| *x == n) { Some(i) => i, None => { names.push(n.clone()); edges.push(mk_edge(&mut fix, &bname, &n)); names.len() - 1 } };
                            cases.push((k, ei as u32));
                        }
                        cases.sort();
                        code.push(Inst::Switch { v, w: t.bits(), cases, edges });
                    }
                    b"ret" => { let t = q.ty(); let v = if t == Ty::Void { vec![] } else { l.val(&mut q, &t) }; code.push(Inst::Ret(v)); }
                    b"unreachable" => code.push(Inst::Unreachable),
                    b"resume" | b"landingpad" | b"cleanupret" => code.push(Inst::Unsup("unwind".into())),
                    b"call" | b"tail" | b"musttail" | b"notail" | b"invoke" => {
                        if w != b"call" && w != b"invoke" { q.exp("call"); }
                        let n = code.len();
                        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| l.call(&mut q, d, &dt, &mut code))).is_err() { code.truncate(n); code.push(Inst::Unsup("call not understood".into())); }
                        if w == b"invoke" {
                            // skip attributes up to "to label"
                            loop { let pw = q.peek_word(); if pw == b"to" { break; } if pw.is_empty() { q.ws(); q.p += 1; } else { q.p += pw.len(); } }
                            q.exp("to"); q.exp("label");
                            let t = q.sigil_name().to_vec();
                            let e = mk_edge(&mut fix, &bname, &t);
                            code.push(Inst::Br(e));
                        }
                    }
                    _ => {
                        let n = code.len();
                        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| l.simple(w, &mut q, d, &dt, &mut code))).is_err() { code.truncate(n); code.push(Inst::Unsup(format!("{} not understood", String::from_utf8_lossy(w)))); }
                    }
                }
            }
        }
        // resolve edges
        let resolve = |e: &mut Edge| { e.to = blocks[&fix[e.to as usize]]; };
        for i in code.iter_mut() {
            match i {
                Inst::Br(e) => resolve(e),
                Inst::CondBr { t, f, .. } => { resolve(t); resolve(f); }
                Inst::Switch { edges, .. } => for e in edges { resolve(e) },
                _ => {}
            }
        }
        Func { name: self.globals[id].name.clone(), id, nparams, nregs: l.nregs, code, consts: l.consts, alloca: up(l.alloca, 16) }
    }
}

fn result_type(q: &mut P) -> Ty {
    let w = q.word();
    match w {
        b"phi" => { while !q.is_type_start() { q.word(); } q.ty() }
        b"call" | b"tail" | b"musttail" | b"notail" | b"invoke" => {
            if w != b"call" && w != b"invoke" { q.exp("call"); }
            call_ret(q)
        }
        b"load" => { q.eat("atomic"); q.eat("volatile"); q.ty() }
        b"getelementptr" => {
            while !q.is_type_start() { q.word(); if q.peek() == b'(' { q.skip_balanced(); } }
            q.ty(); q.exp(","); let t = q.ty();
            t
        }
        b"alloca" | b"inttoptr" => Ty::Ptr,
        b"icmp" | b"fcmp" => {
            while !q.is_type_start() { q.word(); }
            match q.ty() { Ty::Vec(n, _) => Ty::Vec(n, Box::new(Ty::Int(1))), _ => Ty::Int(1) }
        }
        b"select" => {
            while !q.is_type_start() { q.word(); }
            q.ty(); skip_val(q); q.exp(","); q.ty()
        }
        b"zext" | b"sext" | b"trunc" | b"bitcast" | b"ptrtoint" | b"ptrtoaddr" | b"uitofp" | b"sitofp" | b"fptoui" | b"fptosi" | b"fpext" | b"fptrunc" | b"addrspacecast" => {
            while !q.is_type_start() { q.word(); }
            q.ty(); skip_val(q); q.exp("to"); q.ty()
        }
        b"extractvalue" => {
            let mut t = q.ty(); skip_val(q);
            while q.peek() == b',' { q.p += 1; if !q.peek().is_ascii_digit() { break; } let i = q.int() as u64; t = t.slot_of(i).1.clone(); }
            t
        }
        b"insertvalue" | b"insertelement" | b"freeze" | b"landingpad" | b"fneg" => { while !q.is_type_start() { q.word(); } q.ty() }
        b"extractelement" => match q.ty() { Ty::Vec(_, t) => *t, _ => panic!() },
        b"shufflevector" => {
            let t = q.ty(); skip_val(q); q.exp(","); q.ty(); skip_val(q); q.exp(",");
            let mt = q.ty();
            match (t, mt) { (Ty::Vec(_, e), Ty::Vec(n, _)) => Ty::Vec(n, e), _ => panic!() }
        }
        b"atomicrmw" => { q.eat("volatile"); q.word(); q.ty(); skip_val(q); q.exp(","); q.ty() }
        b"cmpxchg" => { q.eat("weak"); q.eat("volatile"); q.ty(); skip_val(q); q.exp(","); let t = q.ty(); Ty::Struct(vec![t, Ty::Int(1)], false) }
        b"add" | b"sub" | b"mul" | b"udiv" | b"sdiv" | b"urem" | b"srem" | b"and" | b"or" | b"xor" | b"shl" | b"lshr" | b"ashr" | b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"frem" => {
            while !q.is_type_start() { q.word(); }
            q.ty()
        }
        _ => panic!("result type of {:?}: {}", String::from_utf8_lossy(w), q.here()),
    }
}
fn skip_val(q: &mut P) {
    let c = q.peek();
    match c {
        b'%' | b'@' => { q.sigil_name(); }
        b'[' | b'{' => q.skip_balanced(),
        b'<' => { let mut d = 0; loop { match q.s[q.p] { b'<' => d += 1, b'>' => d -= 1, _ => {} } q.p += 1; if d == 0 { break; } } }
        _ => {
            q.val_attrs();
            let c = q.peek();
            if c == b'-' || c.is_ascii_digit() { while q.p < q.s.len() && (is_id(q.s[q.p]) || q.s[q.p] == b'+') { q.p += 1; } return; }
            if c == b'%' || c == b'@' { q.sigil_name(); return; }
            loop {
                let w = q.word();
                if w.is_empty() { break; }
                let gep = matches!(w, b"getelementptr" | b"inttoptr" | b"ptrtoint" | b"splat" | b"trunc" | b"sub" | b"add" | b"bitcast" | b"xor");
                if !gep && q.peek() != b'(' { break; }
                while q.peek() != b'(' { q.word(); }
                q.skip_balanced();
                break;
            }
        }
    }
}
fn call_ret(q: &mut P) -> Ty {
    // fast-math flags, cc, ret attrs
    loop {
        if q.is_type_start() { break; }
        let w = q.word();
        if w.is_empty() { panic!("call at {}", q.here()); }
        if w == b"cc" { q.int(); }
        if w == b"align" { q.int(); continue; }
        if q.peek() == b'(' { q.skip_balanced(); }
    }
    q.ty()
}

struct Low<'a> {
    m: &'a Module,
    names: HashMap<String, (u32, Ty)>,
    nregs: u32,
    consts: Vec<V>,
    cmap: HashMap<u64, u32>,
    alloca: u64,
}

impl<'a> Low<'a> {
    fn alloc(&mut self, n: &str, t: Ty) -> u32 {
        let s = self.nregs;
        self.nregs += t.slots() as u32;
        self.names.insert(n.to_string(), (s, t));
        s
    }
    fn k(&mut self, v: u64) -> Opd {
        if let Some(&i) = self.cmap.get(&v) { return i | CB; }
        let i = self.consts.len() as u32;
        self.consts.push(V::c(v));
        self.cmap.insert(v, i);
        i | CB
    }
    fn val(&mut self, q: &mut P, t: &Ty) -> Vec<Opd> {
        if q.peek() == b'%' {
            let n = q.sigil_name();
            let n = std::str::from_utf8(n).unwrap();
            let (s, rt) = self.names.get(n).unwrap_or_else(|| panic!("undefined %{}", n)).clone();
            return (0..rt.slots() as u32).map(|i| s + i).collect();
        }
        let v = q.konst(t);
        v.iter().map(|x| self.k(x.v)).collect()
    }
    fn tyval(&mut self, q: &mut P) -> (Ty, Vec<Opd>) {
        let t = q.ty();
        q.val_attrs();
        let v = self.val(q, &t);
        (t, v)
    }
    fn elem(t: &Ty) -> (u64, Ty, bool) { match t { Ty::Vec(n, e) => (*n, (**e).clone(), true), t => (1, t.clone(), false) } }
    fn simple(&mut self, w: &[u8], q: &mut P, d: u32, dt: &Ty, code: &mut Vec<Inst>) {
        let flags = |q: &mut P| { while !q.is_type_start() { q.word(); } };
        match w {
            b"add" | b"sub" | b"mul" | b"udiv" | b"sdiv" | b"urem" | b"srem" | b"and" | b"or" | b"xor" | b"shl" | b"lshr" | b"ashr" => {
                flags(q);
                let t = q.ty();
                let a = self.val(q, &t); q.exp(","); let b = self.val(q, &t);
                let op = match w { b"add" => Op::Add, b"sub" => Op::Sub, b"mul" => Op::Mul, b"udiv" => Op::UDiv, b"sdiv" => Op::SDiv, b"urem" => Op::URem, b"srem" => Op::SRem, b"and" => Op::And, b"or" => Op::Or, b"xor" => Op::Xor, b"shl" => Op::Shl, b"lshr" => Op::LShr, _ => Op::AShr };
                let (n, et, _) = Self::elem(&t);
                let w = et.bits();
                if w > 64 { for i in 0..n as usize { code.push(Inst::BinW { op, w, d: d + 2 * i as u32, a: [a[2 * i], a[2 * i + 1]], b: [b[2 * i], b[2 * i + 1]] }); } }
                else { for i in 0..n as usize { code.push(Inst::Bin { op, w, d: d + i as u32, a: a[i], b: b[i] }); } }
            }
            b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"frem" => {
                flags(q);
                let t = q.ty();
                let a = self.val(q, &t); q.exp(","); let b = self.val(q, &t);
                let c = match w { b"fadd" => 1, b"fsub" => 2, b"fmul" => 3, b"fdiv" => 4, _ => 5 };
                let (n, et, _) = Self::elem(&t);
                for i in 0..n as usize { code.push(Inst::Fp { code: c, wa: et.bits(), w: et.bits(), d: d + i as u32, a: a[i], b: b[i] }); }
            }
            b"fneg" => {
                flags(q);
                let t = q.ty(); let a = self.val(q, &t);
                let (n, et, _) = Self::elem(&t);
                for i in 0..n as usize { code.push(Inst::Fp { code: crate::fp::FNEG, wa: et.bits(), w: et.bits(), d: d + i as u32, a: a[i], b: a[i] }); }
            }
            b"fcmp" => {
                let mut pr = q.word();
                while !q.is_type_start() { pr = q.word(); }
                let t = q.ty(); let a = self.val(q, &t); q.exp(","); let b = self.val(q, &t);
                let bits = match pr { b"oeq" => 1, b"ogt" => 2, b"oge" => 3, b"olt" => 4, b"ole" => 5, b"one" => 6, b"ord" => 7, b"uno" => 8, b"ueq" => 9, b"ugt" => 10, b"uge" => 11, b"ult" => 12, b"ule" => 13, b"une" => 14, b"true" => 15, _ => 0 };
                let (n, et, _) = Self::elem(&t);
                for i in 0..n as usize { code.push(Inst::Fp { code: crate::fp::FCMP + bits, wa: et.bits(), w: 1, d: d + i as u32, a: a[i], b: b[i] }); }
            }
            b"uitofp" | b"sitofp" | b"fptoui" | b"fptosi" | b"fpext" | b"fptrunc" => {
                flags(q);
                let t = q.ty(); let a = self.val(q, &t); q.exp("to"); let t2 = q.ty();
                let c = match w { b"uitofp" => 7, b"sitofp" => 8, b"fpext" => 9, b"fptrunc" => 10, b"fptoui" => 11, _ => 12 };
                let (n, et, _) = Self::elem(&t); let (_, et2, _) = Self::elem(&t2);
                if et.bits() > 64 || et2.bits() > 64 { code.push(Inst::Unsup("wide fp cast".into())); return; }
                for i in 0..n as usize { code.push(Inst::Fp { code: c, wa: et.bits(), w: et2.bits(), d: d + i as u32, a: a[i], b: a[i] }); }
            }
            b"icmp" => {
                let mut pr = q.word();
                if pr == b"samesign" { pr = q.word(); }
                let t = q.ty(); let a = self.val(q, &t); q.exp(","); let b = self.val(q, &t);
                let p = match pr { b"eq" => Pred::Eq, b"ne" => Pred::Ne, b"ugt" => Pred::Ugt, b"uge" => Pred::Uge, b"ult" => Pred::Ult, b"ule" => Pred::Ule, b"sgt" => Pred::Sgt, b"sge" => Pred::Sge, b"slt" => Pred::Slt, b"sle" => Pred::Sle, _ => panic!("pred") };
                let (n, et, _) = Self::elem(&t);
                let w = et.bits();
                if w > 64 { for i in 0..n as usize { code.push(Inst::IcmpW { p, w, d: d + i as u32, a: [a[2 * i], a[2 * i + 1]], b: [b[2 * i], b[2 * i + 1]] }); } }
                else { for i in 0..n as usize { code.push(Inst::Icmp { p, w, d: d + i as u32, a: a[i], b: b[i] }); } }
            }
            b"zext" | b"sext" | b"trunc" => {
                flags(q);
                let t = q.ty(); let a = self.val(q, &t); q.exp("to"); let t2 = q.ty();
                let k = match w { b"zext" => Cast::Zext, b"sext" => Cast::Sext, _ => Cast::Trunc };
                let (n, et, _) = Self::elem(&t); let (_, et2, _) = Self::elem(&t2);
                let (sa, sd) = (et.slots(), et2.slots());
                let z = self.k(0);
                for i in 0..n as usize { code.push(Inst::Cast { k, from: et.bits(), to: et2.bits(), d: d + (i * sd) as u32, a: a[i * sa], ah: if sa == 2 { a[i * 2 + 1] } else { z } }); }
            }
            b"ptrtoint" | b"inttoptr" | b"ptrtoaddr" => {
                let t = q.ty(); let a = self.val(q, &t); q.exp("to"); let t2 = q.ty();
                if t.bits() == t2.bits() { code.push(Inst::Mov { d, a: a[0] }); }
                else { let z = self.k(0); code.push(Inst::Cast { k: if t.bits() < t2.bits() { Cast::Zext } else { Cast::Trunc }, from: t.bits(), to: t2.bits(), d, a: a[0], ah: if a.len() > 1 { a[1] } else { z } }); }
            }
            b"freeze" => { let t = q.ty(); let a = self.val(q, &t); for (i, x) in a.iter().enumerate() { code.push(Inst::Mov { d: d + i as u32, a: *x }); } }
            b"bitcast" => {
                let t = q.ty(); let a = self.val(q, &t); q.exp("to"); let t2 = q.ty();
                let (n1, e1, v1) = Self::elem(&t); let (n2, e2, v2) = Self::elem(&t2);
                if n1 == n2 { for (i, x) in a.iter().enumerate() { code.push(Inst::Mov { d: d + i as u32, a: *x }); } }
                else if v1 && !v2 && e2.bits() <= 128 { code.push(Inst::PackBits { d, ew: e1.bits(), from: a, w: e2.bits() }); }
                else if !v1 && v2 && e1.bits() <= 128 { let z = self.k(0); code.push(Inst::UnpackBits { d, ew: e2.bits(), n: n2 as u32, a: [a[0], if a.len() > 1 { a[1] } else { z }], w: e1.bits() }); }
                else if v1 && v2 && n1 * e1.bits() as u64 <= 128 {
                    let w = n1 as u32 * e1.bits();
                    let t = self.nregs; self.nregs += 2;
                    code.push(Inst::PackBits { d: t, ew: e1.bits(), from: a, w });
                    let z = self.k(0);
                    code.push(Inst::UnpackBits { d, ew: e2.bits(), n: n2 as u32, a: [t, if w > 64 { t + 1 } else { z }], w });
                }
                else { code.push(Inst::Unsup("bitcast".into())); }
            }
            b"select" => {
                flags(q);
                let (ct, c) = self.tyval(q); q.exp(","); let (t, a) = self.tyval(q); q.exp(","); let (_, b) = self.tyval(q);
                let mut lv = vec![]; t.leaves(0, &mut lv);
                let mut s = 0;
                for (i, (_, lt)) in lv.iter().enumerate() {
                    let cc = if matches!(ct, Ty::Vec(..)) { c[i] } else { c[0] };
                    if lt.slots() == 2 { code.push(Inst::SelW { d: d + s as u32, c: cc, a: [a[s], a[s + 1]], b: [b[s], b[s + 1]] }); }
                    else { code.push(Inst::Sel { d: d + s as u32, c: cc, a: a[s], b: b[s], w: lt.bits(), ptr: *lt == Ty::Ptr }); }
                    s += lt.slots();
                }
            }
            b"extractvalue" => {
                let t = q.ty(); let a = self.val(q, &t);
                let mut cur = &t; let mut o = 0;
                while q.peek() == b',' { q.p += 1; if !q.peek().is_ascii_digit() { break; } let i = q.int() as u64; let (so, st) = cur.slot_of(i); o += so; cur = st; }
                for i in 0..cur.slots() { code.push(Inst::Mov { d: d + i as u32, a: a[o + i] }); }
            }
            b"insertvalue" => {
                let t = q.ty(); let a = self.val(q, &t); q.exp(",");
                let (vt, v) = self.tyval(q);
                let mut cur = &t; let mut o = 0;
                while q.peek() == b',' { q.p += 1; if !q.peek().is_ascii_digit() { break; } let i = q.int() as u64; let (so, st) = cur.slot_of(i); o += so; cur = st; }
                let n = vt.slots();
                for i in 0..t.slots() { let src = if i >= o && i < o + n { v[i - o] } else { a[i] }; code.push(Inst::Mov { d: d + i as u32, a: src }); }
            }
            b"extractelement" => {
                let t = q.ty(); let a = self.val(q, &t); q.exp(","); let it = q.ty();
                let i = self.val(q, &it)[0];
                if i & CB != 0 { let s = dt.slots(); let k = self.consts[(i & !CB) as usize].v as usize; for j in 0..s { code.push(Inst::Mov { d: d + j as u32, a: a[k * s + j] }); } }
                else { code.push(Inst::DynElem { d, elems: a, idx: i }); }
            }
            b"insertelement" => {
                let t = q.ty(); let a = self.val(q, &t); q.exp(","); let (vt, v) = self.tyval(q); q.exp(","); let it = q.ty(); let i = self.val(q, &it)[0];
                if i & CB == 0 { code.push(Inst::Unsup("dyn insertelement".into())); return; }
                let k = self.consts[(i & !CB) as usize].v as usize;
                let s = vt.slots();
                for j in 0..t.slots() { let src = if j / s == k { v[j % s] } else { a[j] }; code.push(Inst::Mov { d: d + j as u32, a: src }); }
            }
            b"shufflevector" => {
                let (t, a) = self.tyval(q); q.exp(","); let (_, b) = self.tyval(q); q.exp(","); let mt = q.ty(); let mv = q.konst(&mt);
                let (n, et, _) = Self::elem(&t); let s = et.slots();
                for (i, m) in mv.iter().enumerate() {
                    let k = m.v as usize;
                    for j in 0..s { let src = if k < n as usize { a[k * s + j] } else { b[(k - n as usize) * s + j] }; code.push(Inst::Mov { d: d + (i * s + j) as u32, a: src }); }
                }
            }
            b"getelementptr" => {
                while !q.is_type_start() { q.word(); if q.peek() == b'(' { q.skip_balanced(); } }
                let bt = q.ty(); q.exp(",");
                let (pt, base) = self.tyval(q);
                if pt != Ty::Ptr { code.push(Inst::Unsup("vector gep".into())); return; }
                let mut cur = bt; let mut first = true; let mut off = 0u64;
                let mut idx = vec![];
                while q.peek() == b',' {
                    q.p += 1;
                    if q.peek() == b'!' { break; }
                    let it = q.ty();
                    let i = self.val(q, &it)[0];
                    let kv = if i & CB != 0 { Some(crate::expr::sx(self.consts[(i & !CB) as usize].v as u128, it.bits()) as i64 as u64) } else { None };
                    let (stride, next) = if first { first = false; (Some(cur.size()), cur.clone()) } else {
                        match &cur {
                            Ty::Arr(_, t) => (Some(t.size()), (**t).clone()),
                            Ty::Vec(_, t) => (Some(t.store()), (**t).clone()),
                            Ty::Struct(..) => { let (o, t) = cur.field(kv.unwrap()); off = off.wrapping_add(o); (None, t.clone()) }
                            _ => panic!("gep"),
                        }
                    };
                    if let Some(st) = stride { match kv { Some(k) => off = off.wrapping_add(k.wrapping_mul(st)), None => idx.push((i, st, it.bits())) } }
                    cur = next;
                }
                let z = self.k(0);
                match idx.len() {
                    0 => code.push(Inst::Gep { d, base: base[0], off, idx: z, scale: 0, w: 64 }),
                    1 => code.push(Inst::Gep { d, base: base[0], off, idx: idx[0].0, scale: idx[0].1, w: idx[0].2 }),
                    _ => code.push(Inst::GepN { d, base: base[0], off, idx }),
                }
            }
            b"load" => {
                q.eat("atomic"); q.eat("volatile");
                let t = q.ty(); q.exp(","); let (_, a) = self.tyval(q);
                if let Ty::Vec(n, e) = &t { if e.bits() % 8 != 0 { code.push(Inst::LoadBits { d, a: a[0], off: 0, ew: e.bits(), n: *n as u32 }); return; } }
                let mut lv = vec![]; t.leaves(0, &mut lv);
                // protect against d overlapping a (SSA: never)
                let mut s = d;
                for (o, lt) in &lv {
                    if lt.slots() == 2 { if *o != 0 { code.push(Inst::Unsup("wide leaf load".into())); } code.push(Inst::LoadW { d: s, a: a[0], w: lt.bits() }); }
                    else { code.push(Inst::Load { d: s, a: a[0], off: *o, w: lt.bits(), ptr: *lt == Ty::Ptr }); }
                    s += lt.slots() as u32;
                }
            }
            b"store" => {
                q.eat("atomic"); q.eat("volatile");
                let (t, v) = self.tyval(q); q.exp(","); let (_, a) = self.tyval(q);
                if let Ty::Vec(_, e) = &t { if e.bits() % 8 != 0 { code.push(Inst::Unsup("store of bit vector".into())); return; } }
                let mut lv = vec![]; t.leaves(0, &mut lv);
                let mut s = 0;
                for (o, lt) in &lv {
                    if lt.slots() == 2 { if *o != 0 { code.push(Inst::Unsup("wide leaf store".into())); } code.push(Inst::StoreW { a: a[0], v: [v[s], v[s + 1]], w: lt.bits() }); }
                    else { code.push(Inst::Store { a: a[0], off: *o, v: v[s], w: lt.bits() }); }
                    s += lt.slots();
                }
            }
            b"alloca" => {
                let t = q.ty();
                let mut n = None; let mut al = t.align();
                while q.peek() == b',' {
                    q.p += 1;
                    if q.peek() == b'!' { break; }
                    if q.eat("align") { al = q.int() as u64; } else { let it = q.ty(); n = Some(self.val(q, &it)[0]); }
                }
                match n {
                    Some(o) if o & CB == 0 => code.push(Inst::DynAlloca { d, n: o, sz: t.size() }),
                    _ => {
                        let k = n.map(|o| self.consts[(o & !CB) as usize].v).unwrap_or(1);
                        self.alloca = up(self.alloca, al.max(1));
                        code.push(Inst::Alloca { d, off: self.alloca });
                        self.alloca += t.size() * k;
                    }
                }
            }
            b"atomicrmw" => {
                q.eat("volatile");
                let op = q.word().to_vec();
                let (_, a) = self.tyval(q); q.exp(","); let (t, v) = self.tyval(q);
                let k = match &op[..] { b"add" => 0, b"sub" => 1, b"xchg" => 2, b"and" => 3, b"or" => 4, b"xor" => 5, b"umax" => 6, b"umin" => 7, _ => { code.push(Inst::Unsup("rmw".into())); return; } };
                code.push(Inst::Rmw { d, a: a[0], v: v[0], w: t.bits(), op: k });
            }
            b"cmpxchg" => {
                q.eat("weak"); q.eat("volatile");
                let (_, a) = self.tyval(q); q.exp(","); let (t, c) = self.tyval(q); q.exp(","); let (_, n) = self.tyval(q);
                code.push(Inst::CmpXchg { d, a: a[0], c: c[0], n: n[0], w: t.bits() });
            }
            b"fence" => {}
            _ => code.push(Inst::Unsup(String::from_utf8_lossy(w).to_string())),
        }
    }
    fn call(&mut self, q: &mut P, d: u32, dt: &Ty, code: &mut Vec<Inst>) {
        let rt = call_ret(q);
        let _ = &rt;
        if q.peek() == b'(' { q.skip_balanced(); }
        if q.peek_word() == b"asm" {
            // inline asm barriers only: result (if any) is unsupported, void is a no-op
            if *dt == Ty::Void { return; }
            code.push(Inst::Unsup("inline asm".into()));
            return;
        }
        let mut direct: Option<&[u8]> = None;
        let mut ptr = 0;
        if q.peek() == b'@' { direct = Some(q.sigil_name()); } else { ptr = self.val(q, &Ty::Ptr)[0]; }
        q.exp("(");
        let mut args: Vec<Opd> = vec![];
        let mut tys: Vec<Ty> = vec![];
        if let Some(n) = direct { if n.starts_with(b"llvm.dbg") || n.starts_with(b"llvm.experimental.noalias") || n.starts_with(b"llvm.lifetime") || n.starts_with(b"llvm.assume") || n.starts_with(b"llvm.invariant") || n.starts_with(b"llvm.x86.sse2.pause") || n.starts_with(b"llvm.donothing") || n.starts_with(b"llvm.va_") || n.starts_with(b"llvm.prefetch") || n.starts_with(b"llvm.sideeffect") || n.starts_with(b"llvm.pseudoprobe") {
            return;
        } }
        while q.peek() != b')' {
            let t = q.ty();
            q.val_attrs();
            if t == Ty::Other { // metadata
                let mut dep = 0; loop { match q.s[q.p] { b'(' => dep += 1, b')' if dep == 0 => break, b')' => dep -= 1, b',' if dep == 0 => break, _ => {} } q.p += 1; }
            } else { args.extend(self.val(q, &t)); tys.push(t); }
            if q.peek() == b',' { q.p += 1; }
        }
        q.exp(")");
        let nd = dt.slots() as u32;
        let callee = match direct {
            Some(n) if n.starts_with(b"llvm.") => {
                let s = std::str::from_utf8(n).unwrap();
                let w = tys.get(0).map(|t| match t { Ty::Vec(_, e) => e.bits(), Ty::Int(w) => *w, Ty::Ptr => 64, Ty::F32 => 32, Ty::F64 => 64, _ => 0 }).unwrap_or(0);
                let vn = if let Some(Ty::Vec(n, _)) = tys.get(0) { *n as u32 } else { 1 };
                let st = |p: &str| s.starts_with(p);
                use crate::fp::*;
                let un = if st("llvm.sqrt.") { FSQRT } else if st("llvm.trunc.") { FTRUNC } else if st("llvm.floor.") { FFLOOR } else if st("llvm.ceil.") { FCEIL } else if st("llvm.round.") { FROUND }
                    else if st("llvm.rint.") || st("llvm.nearbyint.") || st("llvm.roundeven.") { FRINT } else if st("llvm.fptoui.sat") { FPTOUI_SAT } else if st("llvm.fptosi.sat") { FPTOSI_SAT } else if st("llvm.is.fpclass") { FCLASS } else { 0 };
                if un != 0 {
                    let (rw, lanes) = match &dt { Ty::Vec(n, e) => (e.bits(), *n as usize), t => (t.bits(), 1) };
                    for k in 0..lanes { let b = if un == FCLASS { args[lanes] } else { args[k] }; code.push(Inst::Fp { code: un, wa: w, w: rw, d: d + k as u32, a: args[k], b }); }
                    return;
                }
                if let (1, Some(k)) = (vn, LIBM.iter().position(|n| s.strip_prefix("llvm.").map_or(false, |r| r.split('.').next() == Some(n)))) {
                    code.push(Inst::Call { d, nd, callee: Callee::Intr(Intr::Libm(k, w)), args });
                    return;
                }
                let i = if st("llvm.memcpy") { Intr::Memcpy } else if st("llvm.memmove") { Intr::Memmove } else if st("llvm.memset") { Intr::Memset }
                    else if st("llvm.umin.") { Intr::Umin(w) } else if st("llvm.umax.") { Intr::Umax(w) } else if st("llvm.smin.") { Intr::Smin(w) } else if st("llvm.smax.") { Intr::Smax(w) }
                    else if st("llvm.abs.") { Intr::Abs(w) } else if st("llvm.ctlz.") { Intr::Ctlz(w) } else if st("llvm.cttz.") { Intr::Cttz(w) } else if st("llvm.ctpop.") { Intr::Ctpop(w) }
                    else if st("llvm.bswap.") { Intr::Bswap(w) } else if st("llvm.bitreverse.") { Intr::Bitrev(w) } else if st("llvm.fshl.") { Intr::Fshl(w) } else if st("llvm.fshr.") { Intr::Fshr(w) }
                    else if st("llvm.usub.sat") { Intr::UsubSat(w) } else if st("llvm.uadd.sat") { Intr::UaddSat(w) } else if st("llvm.ssub.sat") { Intr::SsubSat(w) } else if st("llvm.sadd.sat") { Intr::SaddSat(w) }
                    else if st("llvm.uadd.with") { Intr::UaddO(w) } else if st("llvm.usub.with") { Intr::UsubO(w) } else if st("llvm.umul.with") { Intr::UmulO(w) }
                    else if st("llvm.sadd.with") { Intr::SaddO(w) } else if st("llvm.ssub.with") { Intr::SsubO(w) } else if st("llvm.smul.with") { Intr::SmulO(w) }
                    else if st("llvm.ucmp.") { Intr::Ucmp(dt.bits(), w) } else if st("llvm.scmp.") { Intr::Scmp(dt.bits(), w) }
                    else if st("llvm.trap") || st("llvm.ubsantrap") { Intr::Trap } else if st("llvm.expect") || st("llvm.threadlocal.address") || st("llvm.launder") || st("llvm.strip") || st("llvm.ssa.copy") { Intr::Id }
                    else if st("llvm.load.relative") { Intr::LoadRel } else if st("llvm.is.constant") || st("llvm.objectsize") { Intr::Zero } else if st("llvm.fabs") { Intr::Fabs(w) }
                    else if st("llvm.vector.reduce.add") { Intr::RedAdd(w, vn) } else if st("llvm.vector.reduce.or") { Intr::RedOr(w, vn) } else if st("llvm.vector.reduce.and") { Intr::RedAnd(w, vn) }
                    else if st("llvm.vector.reduce.umax") { Intr::RedUmax(w, vn) } else if st("llvm.vector.reduce.umin") { Intr::RedUmin(w, vn) } else if st("llvm.vector.reduce.mul") { Intr::RedMul(w, vn) } else if st("llvm.vector.reduce.xor") { Intr::RedXor(w, vn) }
                    else { code.push(Inst::Unsup(s.to_string())); return; };
                // vectorised min/max etc: expand per lane
                if let Some(Ty::Vec(n, e)) = tys.get(0) {
                    if matches!(i, Intr::Umin(_) | Intr::Umax(_) | Intr::Smin(_) | Intr::Smax(_) | Intr::Abs(_) | Intr::Ctlz(_) | Intr::Cttz(_) | Intr::Ctpop(_) | Intr::Bswap(_) | Intr::UsubSat(_) | Intr::UaddSat(_) | Intr::Fshl(_) | Intr::Fshr(_) | Intr::SsubSat(_) | Intr::SaddSat(_)) {
                        if e.slots() != 1 { code.push(Inst::Unsup(s.to_string())); return; }
                        let n = *n as usize;
                        for k in 0..n {
                            let mut la = vec![];
                            let mut o = 0;
                            for t in &tys { if let Ty::Vec(..) = t { la.push(args[o + k]); o += n; } else { la.push(args[o]); o += 1; } }
                            code.push(Inst::Call { d: d + k as u32, nd: 1, callee: Callee::Intr(i), args: la });
                        }
                        return;
                    }
                }
                Callee::Intr(i)
            }
            Some(n) => Callee::Direct(*self.m.byname.get(n).unwrap_or_else(|| panic!("callee {}", String::from_utf8_lossy(n)))),
            None => Callee::Ptr(ptr),
        };
        code.push(Inst::Call { d, nd, callee, args });
    }
}
