//! Symbolic executor over the lowered IR.
use crate::expr::{fxh, mask, sx, Ctx, Op, E, NONE};
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Z3, R};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame { pub f: &'static Func, pub pc: u32, pub regs: Vec<V>, pub sp: u64, pub dynsp: u64, pub ret: u32 }

#[derive(Clone)]
pub struct State {
    pub fr: Frame,
    pub callers: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub cons: Rc<Vec<E>>,
    pub dom: Rc<Vec<[u64; 4]>>,
    pub multi: u128,
    pub model: Rc<Vec<u8>>,
    pub obs: Rc<Vec<V>>,
    pub reach: u64,
    pub depth: u32,
    pub hash: u64,
    pub steps: u64,
}

pub enum Stop { Done, Fail(String), Panic(String), Assume, Unsup(String), Fault(u64), Limit(String) }

#[derive(Clone, Copy, PartialEq)]
enum Sp { Symbolic, Arg, Assume, Fail, Reach, Observe, Concretize, IsSym, Malloc, Calloc, Realloc, Memalign, Free, Memcmp, Bcmp, Strlen, Panic, Ret0, RetM1, Errno, Syscall, Write, Memcpy, Memset, Abort, TlsKey, TlsSet, TlsGet, NoStack, Libm(usize), Clock }

pub struct PathRec { pub outcome: &'static str, pub msg: String, pub model: Vec<u8>, pub obs: Vec<u64>, pub reach: u64 }

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub done: u64, pub assumed: u64, pub forks: u64, pub instrs: u64, pub decisions: u64, pub dom_unsat: u64, pub dom_sat: u64, pub cache_hits: u64,
    pub unsup: HashMap<String, u64>, pub pending: u64, 
}

pub struct Cfg { pub max_paths: u64, pub deadline: Instant, pub end: Instant, pub confirm: bool, pub max_steps: u64, pub keep: usize, pub arg: Vec<u8> }

pub struct Exec {
    pub m: Module,
    pub c: Ctx,
    pub z: Z3,
    base: Mem,
    sp: Vec<Option<Sp>>,
    masks: HashMap<E, [u64; 4], fxh::B>,
    confirmed: HashSet<(E, [u64; 4]), fxh::B>,
    qcache: HashMap<Vec<E>, Option<Vec<(usize, u8)>>, fxh::B>,
    pub work: Vec<State>,
    pub st: Stats,
    pub cfg: Cfg,
    pub executed: HashSet<usize>,
    pub recs: Vec<PathRec>,
    pub nrec: u64,
    pub reach: u64,
    pool: Vec<Vec<V>>,
    errno: u64,
    pub trace: bool,
    pub prof: Option<HashMap<(usize, u32), u64>>,
}

type Res<T> = Result<T, Stop>;

impl Exec {
    pub fn new(path: &str, timeout_ms: u32) -> Exec {
        let m = Module::load(path);
        let mut base = Mem::new();
        for (a, b) in &m.ginit { base.write_concrete(*a, b); }
        let mut sp = vec![None; m.globals.len()];
        for (i, g) in m.globals.iter().enumerate() {
            if !matches!(g.kind, GKind::Func { .. }) { continue; }
            let n = g.name.as_str();
            sp[i] = match n {
                "ksym_symbolic" => Some(Sp::Symbolic), "ksym_arg" => Some(Sp::Arg), "ksym_assume" => Some(Sp::Assume), "ksym_fail" => Some(Sp::Fail), "ksym_reach" => Some(Sp::Reach),
                "ksym_observe" => Some(Sp::Observe), "ksym_concretize" => Some(Sp::Concretize), "ksym_is_symbolic" => Some(Sp::IsSym),
                "malloc" => Some(Sp::Malloc), "calloc" => Some(Sp::Calloc), "realloc" => Some(Sp::Realloc), "posix_memalign" => Some(Sp::Memalign), "free" => Some(Sp::Free),
                "memcmp" => Some(Sp::Memcmp), "bcmp" => Some(Sp::Bcmp), "strlen" => Some(Sp::Strlen), "memcpy" | "memmove" => Some(Sp::Memcpy), "memset" => Some(Sp::Memset),
                "getenv" => Some(Sp::Ret0), "write" | "writev" => Some(Sp::Write), "__errno_location" => Some(Sp::Errno), "syscall" => Some(Sp::Syscall),
                "abort" => Some(Sp::Abort), "rust_begin_unwind" | "rust_panic" => Some(Sp::Panic),
                "pthread_key_create" => Some(Sp::TlsKey), "pthread_setspecific" => Some(Sp::TlsSet), "pthread_getspecific" => Some(Sp::TlsGet), "pthread_key_delete" => Some(Sp::Ret0),
                "__cxa_thread_atexit_impl" => Some(Sp::Ret0), "open64" | "stat64" | "read" => Some(Sp::RetM1),
                "clock_gettime" => Some(Sp::Clock),
                _ if crate::fp::LIBM.contains(&n) && n != "powi" => Some(Sp::Libm(crate::fp::LIBM.iter().position(|x| *x == n).unwrap())),
                _ => {
                    if n.contains("4core9panicking") || n.contains("3std9panicking") || n.contains("rust_begin_unwind") || n.contains("handle_alloc_error") || n.contains("capacity_overflow") || n.contains("unwrap_failed") || n.contains("expect_failed") || n.contains("slice_index_fail") || n.contains("slice_error_fail") || n.contains("4core5slice5index5slice") && n.contains("fail") || n.contains("3str16slice_error_fail") || n.contains("panic_display") || n.contains("5alloc7raw_vec12handle_error") {
                        Some(Sp::Panic)
                    } else { None }
                }
            };
        }
        let _ = Sp::NoStack;
        Exec {
            m, c: Ctx::new(), z: Z3::new(timeout_ms), base, sp, masks: HashMap::with_hasher(fxh::B), confirmed: HashSet::with_hasher(fxh::B), qcache: HashMap::with_hasher(fxh::B), work: vec![], st: Stats::default(),
            cfg: Cfg { max_paths: u64::MAX, deadline: Instant::now(), end: Instant::now(), confirm: true, max_steps: 200_000_000, keep: 64, arg: vec![] },
            executed: HashSet::new(), recs: vec![], nrec: 0, reach: 0, pool: vec![], errno: 0, trace: false, prof: None,
        }
    }
    pub fn reset(&mut self) {
        self.work.clear(); self.st = Stats::default(); self.recs.clear(); self.nrec = 0; self.reach = 0; self.executed.clear();
        self.z.queries = 0; self.z.sat = 0; self.z.unsat = 0; self.z.unknown = 0; self.z.time = 0.0; self.z.maxq = 0.0;
    }

    // ---------- solving ----------
    fn single(&self, e: E) -> Option<usize> { let v = self.c.vars[e as usize]; if v.count_ones() == 1 { Some(v.trailing_zeros() as usize) } else { None } }
    fn mask_of(&mut self, e: E, x: usize) -> [u64; 4] {
        if let Some(m) = self.masks.get(&e) { return *m; }
        let mut m = [0u64; 4];
        let mut model = vec![0u8; x + 1];
        for v in 0..256usize { model[x] = v as u8; if self.c.eval(e, &model) & 1 == 1 { m[v / 64] |= 1 << (v % 64); } }
        self.masks.insert(e, m);
        m
    }
    fn slice(&self, st: &State, e: E) -> Vec<E> {
        let mut vs = self.c.vars[e as usize];
        let mut out: Vec<E> = vec![];
        let mut rest: Vec<E> = st.cons.to_vec();
        loop {
            let n = rest.len();
            let mut keep = Vec::with_capacity(n);
            for x in rest { let v = self.c.vars[x as usize]; if v & vs != 0 { vs |= v; out.push(x); } else { keep.push(x); } }
            rest = keep;
            if rest.len() == n { break; }
        }
        out.sort_unstable();
        out
    }
    /// Is path-condition /\ e satisfiable?  Some(model) / None.
    fn check(&mut self, st: &State, e: E) -> Res<Option<Rc<Vec<u8>>>> {
        if let Some(k) = self.c.as_const(e) { return Ok(if k == 1 { Some(st.model.clone()) } else { None }); }
        if let Some(x) = self.single(e) {
            let m = self.mask_of(e, x);
            let d = st.dom[x];
            let r = [m[0] & d[0], m[1] & d[1], m[2] & d[2], m[3] & d[3]];
            if r == [0; 4] {
                self.st.dom_unsat += 1;
                if self.cfg.confirm && !self.confirmed.contains(&(e, d)) {
                    // the SMT solver has the last word on every infeasibility claim
                    let mut cs: Vec<E> = st.cons.iter().copied().filter(|k| self.c.vars[*k as usize] == 1u128 << x).collect();
                    cs.push(e);
                    match self.z.check(&self.c, &cs) {
                        R::Unsat => { self.confirmed.insert((e, d)); }
                        R::Sat(_) => return Err(Stop::Unsup("solver disagrees with byte-domain reasoning".into())),
                        R::Unknown => return Err(Stop::Unsup("solver unknown".into())),
                    }
                }
                return Ok(None);
            }
            if st.multi >> x & 1 == 0 {
                self.st.dom_sat += 1;
                let mut md = (*st.model).clone();
                let k = (0..4).find(|&i| r[i] != 0).unwrap();
                md[x] = (k * 64) as u8 + r[k].trailing_zeros() as u8;
                return Ok(Some(Rc::new(md)));
            }
        }
        let mut cs = self.slice(st, e);
        cs.push(e);
        if let Some(r) = self.qcache.get(&cs) {
            self.st.cache_hits += 1;
            return Ok(r.as_ref().map(|v| { let mut md = (*st.model).clone(); for (i, b) in v { md[*i] = *b; } Rc::new(md) }));
        }
        if Instant::now() > self.cfg.end { return Err(Stop::Limit("deadline".into())); }
        match self.z.check(&self.c, &cs) {
            R::Unsat => { self.qcache.insert(cs, None); Ok(None) }
            R::Unknown => Err(Stop::Unsup("solver unknown".into())),
            R::Sat(v) => {
                let mut md = (*st.model).clone();
                for (i, b) in &v { md[*i] = *b; }
                // witnesses are re-evaluated, never trusted
                for k in &cs { if self.c.eval(*k, &md) & 1 != 1 { return Err(Stop::Unsup("solver model does not satisfy query".into())); } }
                self.qcache.insert(cs, Some(v));
                Ok(Some(Rc::new(md)))
            }
        }
    }
    fn add(&mut self, st: &mut State, e: E) {
        if self.c.as_const(e).is_some() { return; }
        let n = self.c.n(e);
        if n.op == Op::And && n.w == 1 { self.add(st, n.a); self.add(st, n.b); return; }
        if n.op == Op::Not {
            let k = self.c.n(n.a);
            if k.op == Op::Or && k.w == 1 { let (x, y) = (self.c.not(k.a), self.c.not(k.b)); self.add(st, x); self.add(st, y); return; }
        }
        if let Some(x) = self.single(e) {
            let m = self.mask_of(e, x);
            let d = &mut Rc::make_mut(&mut st.dom)[x];
            let r = [m[0] & d[0], m[1] & d[1], m[2] & d[2], m[3] & d[3]];
            if r == *d { return; }
            *d = r;
        } else { st.multi |= self.c.vars[e as usize]; }
        Rc::make_mut(&mut st.cons).push(e);
    }
    /// Decide a symbolic condition; returns the side taken and, when the other side is feasible too, a state for it.
    fn split(&mut self, st: &mut State, cond: E) -> Res<(bool, Option<State>)> {
        let t = self.c.eval(cond, &st.model) & 1 == 1;
        let nc = self.c.not(cond);
        let (tc, oc) = if t { (cond, nc) } else { (nc, cond) };
        match self.check(st, oc)? {
            None => Ok((t, None)),
            Some(md) => {
                self.st.forks += 1;
                let mut o = st.clone();
                o.model = md;
                self.add(&mut o, oc);
                self.decide(&mut o, cond, !t as u64);
                self.add(st, tc);
                self.decide(st, cond, t as u64);
                Ok((t, Some(o)))
            }
        }
    }
    fn decide(&mut self, st: &mut State, _e: E, v: u64) {
        st.depth += 1;
        self.st.decisions += 1;
    }
    fn push(&mut self, o: State) { self.work.push(o); }

    /// Fix the value of a symbolic expression on this path, forking the alternatives (they re-execute the instruction).
    fn concretize(&mut self, st: &mut State, v: V) -> Res<u64> {
        if v.is_c() { return Ok(v.v); }
        let k = self.c.eval(v.e, &st.model);
        let w = self.c.w(v.e);
        let kc = self.c.cst(k, w);
        let eq = self.c.cmp(Op::Eq, v.e, kc);
        let ne = self.c.not(eq);
        if let Some(md) = self.check(st, ne)? {
            self.st.forks += 1;
            let mut o = st.clone();
            o.model = md;
            self.add(&mut o, ne);
            self.push(o);
            self.add(st, eq);
            self.decide(st, eq, k as u64 ^ 0x5555);
        }
        Ok(k as u64)
    }

    // ---------- values ----------
    #[inline] fn ex(&mut self, v: V, w: u32) -> E { if v.is_c() { self.c.cst(v.v as u128, w) } else { v.e } }
    #[inline] fn un(&self, e: E) -> V { match self.c.as_const(e) { Some(k) => V::c(k as u64), None => V { e, v: 0 } } }
    fn wide(&mut self, lo: V, hi: V, w: u32) -> E { let l = self.ex(lo, 64); let h = self.ex(hi, w - 64); self.c.concat(h, l) }
    fn unwide(&mut self, e: E) -> (V, V) { let w = self.c.w(e); let l = self.c.extract(e, 0, 64); let h = self.c.extract(e, 64, w - 64); (self.un(l), self.un(h)) }

    pub fn bin(&mut self, op: Op, w: u32, a: V, b: V) -> V {
        if a.is_c() && b.is_c() {
            let m = if w >= 64 { !0u64 } else { (1u64 << w) - 1 };
            let (x, y) = (a.v, b.v);
            let r = match op {
                Op::Add => x.wrapping_add(y), Op::Sub => x.wrapping_sub(y), Op::Mul => x.wrapping_mul(y), Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
                Op::Shl => if y >= w as u64 { 0 } else { x << y },
                Op::LShr => if y >= w as u64 { 0 } else { x >> y },
                Op::UDiv => if y == 0 { 0 } else { x / y }, Op::URem => if y == 0 { 0 } else { x % y },
                _ => Ctx::fold(op, x as u128, y as u128, w) as u64,
            };
            return V::c(r & m);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.c.bin(op, x, y);
        self.un(e)
    }
    fn icmp_e(&mut self, p: Pred, x: E, y: E) -> E {
        match p {
            Pred::Eq => self.c.cmp(Op::Eq, x, y),
            Pred::Ne => { let e = self.c.cmp(Op::Eq, x, y); self.c.not(e) }
            Pred::Ult => self.c.cmp(Op::Ult, x, y), Pred::Ule => self.c.cmp(Op::Ule, x, y), Pred::Ugt => self.c.cmp(Op::Ult, y, x), Pred::Uge => self.c.cmp(Op::Ule, y, x),
            Pred::Slt => self.c.cmp(Op::Slt, x, y), Pred::Sle => self.c.cmp(Op::Sle, x, y), Pred::Sgt => self.c.cmp(Op::Slt, y, x), Pred::Sge => self.c.cmp(Op::Sle, y, x),
        }
    }
    fn icmp(&mut self, p: Pred, w: u32, a: V, b: V) -> V {
        if a.is_c() && b.is_c() {
            let (x, y) = (a.v, b.v);
            let s = 64 - w.min(64);
            let (sx, sy) = (((x << s) as i64), ((y << s) as i64));
            return V::c(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Slt => sx < sy, Pred::Sle => sx <= sy, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy } as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.icmp_e(p, x, y);
        self.un(e)
    }
    fn ite_v(&mut self, c: E, a: V, b: V, w: u32) -> V { if a == b { return a; } let (x, y) = (self.ex(a, w), self.ex(b, w)); let e = self.c.ite(c, x, y); self.un(e) }

    // ---------- memory with symbolic addresses ----------
    fn load(&mut self, st: &mut State, a: V, w: u32, ptr: bool) -> Res<V> {
        if a.is_c() { return st.mem.load(&mut self.c, a.v, w).map_err(|f| Stop::Fault(f.0)); }
        // candidates
        let e = a.e;
        if !ptr {
            if let Some(x) = self.single(e) {
                let d = st.dom[x];
                let mut model = vec![0u8; x + 1];
                let mut vals: Vec<(u8, V)> = vec![];
                let mut ok = true;
                for v in 0..256usize {
                    if d[v / 64] >> (v % 64) & 1 == 0 { continue; }
                    model[x] = v as u8;
                    let ad = self.c.eval(e, &model) as u64;
                    match st.mem.load(&mut self.c, ad, w) { Ok(r) => vals.push((v as u8, r)), Err(_) => { ok = false; break; } }
                }
                if ok && !vals.is_empty() {
                    let xe = self.c.var(x);
                    return Ok(self.runs8(xe, &vals, w));
                }
            } else {
                let (lo, hi) = self.c.rng[e as usize];
                let tz = self.tz(e, &mut HashMap::new()).min(6);
                let base_tz = 1u128 << tz;
                if hi - lo <= 8192 && (hi - lo) / base_tz <= 2048 {
                    let mut vals: Vec<(u64, V)> = vec![];
                    let mut ad = lo;
                    while ad <= hi {
                        if let Ok(r) = st.mem.load(&mut self.c, ad as u64, w) { vals.push((ad as u64, r)); }
                        ad += base_tz;
                    }
                    if !vals.is_empty() { return Ok(self.runs64(e, &vals, w)); }
                }
            }
        }
        let k = self.concretize(st, a)?;
        st.mem.load(&mut self.c, k, w).map_err(|f| Stop::Fault(f.0))
    }
    /// Number of trailing zero bits that every value of `e` has, at least.
    fn tz(&self, e: E, memo: &mut HashMap<E, u32>) -> u32 {
        if let Some(&t) = memo.get(&e) { return t; }
        let n = self.c.n(e);
        let t = match n.op {
            Op::Const => if n.k == 0 { 64 } else { n.k.trailing_zeros() },
            Op::Add | Op::Or | Op::Xor | Op::Sub => self.tz(n.a, memo).min(self.tz(n.b, memo)),
            Op::Shl => match self.c.as_const(n.b) { Some(k) => self.tz(n.a, memo).saturating_add(k as u32), None => 0 },
            Op::Mul => self.tz(n.a, memo).saturating_add(self.tz(n.b, memo)),
            Op::ZExt => self.tz(n.a, memo),
            Op::Concat => { let t = self.tz(n.b, memo); if t >= self.c.w(n.b) { self.c.w(n.b) + self.tz(n.a, memo) } else { t } }
            Op::Ite => self.tz(n.b, memo).min(self.tz(n.c, memo)),
            _ => 0,
        }.min(64);
        memo.insert(e, t);
        t
    }
    fn runs8(&mut self, x: E, vals: &[(u8, V)], w: u32) -> V {
        // group into runs of equal value (ignoring infeasible gaps), then a balanced ITE
        let mut runs: Vec<(u8, V)> = vec![]; // start, value
        for (k, v) in vals { match runs.last() { Some((_, l)) if l == v => {} , _ => runs.push((*k, *v)) } }
        self.bal(&runs.iter().map(|(k, v)| (*k as u64, *v)).collect::<Vec<_>>(), x, 8, w)
    }
    fn runs64(&mut self, x: E, vals: &[(u64, V)], w: u32) -> V {
        let mut runs: Vec<(u64, V)> = vec![];
        for (k, v) in vals { match runs.last() { Some((_, l)) if l == v => {} , _ => runs.push((*k, *v)) } }
        self.bal(&runs, x, 64, w)
    }
    fn bal(&mut self, r: &[(u64, V)], x: E, xw: u32, w: u32) -> V {
        if r.len() == 1 { return r[0].1; }
        let m = r.len() / 2;
        let l = self.bal(&r[..m], x, xw, w);
        let h = self.bal(&r[m..], x, xw, w);
        let k = self.c.cst(r[m].0 as u128, xw);
        let c = self.c.cmp(Op::Ult, x, k);
        self.ite_v(c, l, h, w)
    }

    // ---------- running ----------
    pub fn start(&mut self, entry: &str, param: u64) -> Result<(), String> {
        let id = self.m.func_id(entry).ok_or_else(|| format!("no entry {}", entry))?;
        let f = self.m.get(id).ok_or("entry is a declaration")?;
        let mut regs = vec![V::c(0); f.nregs as usize];
        if f.nparams > 0 { regs[0] = V::c(param); }
        self.executed.insert(id);
        let fr = Frame { f, pc: 0, regs, sp: STACK, dynsp: STACK + f.alloca, ret: 0 };
        self.work.push(State { fr, callers: vec![], mem: self.base.clone(), cons: Rc::new(vec![]), dom: Rc::new(vec![]), multi: 0, model: Rc::new(vec![]), obs: Rc::new(vec![]), reach: 0, depth: 0, hash: 0xcbf29ce484222325, steps: 0 });
        Ok(())
    }
    pub fn run_all(&mut self) {
        while let Some(mut st) = self.work.pop() {
            if self.st.paths >= self.cfg.max_paths || Instant::now() > self.cfg.deadline { self.work.push(st); break; }
            let r = self.run(&mut st);
            self.finish(st, r);
        }
        self.st.pending = self.work.len() as u64;
    }
    /// Runs the oldest pending states first until there are at least `n` (or few more appear).
    pub fn spread(&mut self, n: usize) {
        for _ in 0..4 * n {
            if self.work.is_empty() || self.work.len() >= n { break }
            let mut st = self.work.remove(0);
            let r = self.run(&mut st);
            self.finish(st, r);
        }
    }
    /// Keeps every `n`-th pending state starting with the `i`-th; used after fork.
    pub fn keep_part(&mut self, i: usize, n: usize) {
        let w = std::mem::take(&mut self.work);
        self.reset();
        self.work = w.into_iter().enumerate().filter(|(k, _)| k % n == i).map(|(_, s)| s).collect();
    }
    fn finish(&mut self, st: State, r: Stop) {
        if let Stop::Assume = r { self.st.assumed += 1; return; }
        self.st.paths += 1;
        let (o, msg): (&'static str, String) = match r {
            Stop::Done => { self.st.done += 1; ("ok", String::new()) }
            Stop::Fail(m) => ("fail", m),
            Stop::Panic(m) => ("panic", m),
            Stop::Fault(a) => ("fault", format!("memory fault at {:#x} in {}", a, self.bt(&st))),
            Stop::Limit(m) => { *self.st.unsup.entry(m.clone()).or_insert(0) += 1; ("limit", m) }
            Stop::Unsup(m) => { let k = format!("{} @ {}", m, st.fr.f.name); *self.st.unsup.entry(k.clone()).or_insert(0) += 1; ("unsup", format!("{}\n{}", k, self.bt(&st))) }
            _ => unreachable!(),
        };
        self.reach |= st.reach;
        let model = st.model.to_vec();
        let obs: Vec<u64> = st.obs.iter().map(|v| if v.is_c() { v.v } else { self.c.eval(v.e, &model) as u64 }).collect();
        let rec = PathRec { outcome: o, msg, model, obs, reach: st.reach };
        // reservoir of ok paths; keep every abnormal one up to a limit
        if o == "ok" {
            self.nrec += 1;
            let keep = self.cfg.keep;
            let oks = self.recs.iter().filter(|r| r.outcome == "ok").count();
            if oks < keep { self.recs.push(rec); }
            else {
                let h = (self.nrec.wrapping_mul(0x9E3779B97F4A7C15) >> 20) % self.nrec;
                if (h as usize) < keep { if let Some(i) = self.recs.iter().enumerate().filter(|(_, r)| r.outcome == "ok").map(|(i, _)| i).nth(h as usize) { self.recs[i] = rec; } }
            }
        } else if self.recs.iter().filter(|r| r.outcome == o).count() < 20 { self.recs.push(rec); }
        if !st.fr.regs.is_empty() { self.pool.push(st.fr.regs); }
    }
    pub fn bt(&self, st: &State) -> String {
        let mut s = st.fr.f.name.clone();
        for c in st.callers.iter().rev().take(12) { s.push_str(" <- "); s.push_str(&c.f.name); }
        s
    }
    fn run(&mut self, st: &mut State) -> Stop {
        loop {
            match self.step_many(st) { Ok(()) => {} Err(s) => return s }
        }
    }
    fn newregs(&mut self, n: usize) -> Vec<V> {
        match self.pool.pop() { Some(mut v) => { v.clear(); v.resize(n, V::c(0)); v } None => vec![V::c(0); n] }
    }

    fn step_many(&mut self, st: &mut State) -> Res<()> {
        let f: &'static Func = st.fr.f;
        macro_rules! g { ($o:expr) => {{ let o = $o; if o & CB != 0 { f.consts[(o & !CB) as usize] } else { st.fr.regs[o as usize] } }} }
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; st.fr.regs[$d as usize] = v; }} }
        let mut n = 0u64;
        loop {
            let pc = st.fr.pc as usize;
            let inst = &f.code[pc];
            n += 1;
            match inst {
                Inst::Bin { op, w, d, a, b } => { let (x, y) = (g!(*a), g!(*b)); set!(*d, self.bin(*op, *w, x, y)); }
                Inst::Icmp { p, w, d, a, b } => { let (x, y) = (g!(*a), g!(*b)); set!(*d, self.icmp(*p, *w, x, y)); }
                Inst::Mov { d, a } => { let x = g!(*a); set!(*d, x); }
                Inst::Gep { d, base, off, idx, scale, w } => {
                    let b = g!(*base); let i = g!(*idx);
                    if b.is_c() && i.is_c() {
                        let s = 64 - *w;
                        let iv = (((i.v << s) as i64) >> s) as u64;
                        set!(*d, V::c(b.v.wrapping_add(*off).wrapping_add(iv.wrapping_mul(*scale))));
                    } else { let r = self.gep(b, *off, &[(i, *scale, *w)]); set!(*d, r); }
                }
                Inst::GepN { d, base, off, idx } => { let b = g!(*base); let l: Vec<(V, u64, u32)> = idx.iter().map(|(o, s, w)| (g!(*o), *s, *w)).collect(); let r = self.gep(b, *off, &l); set!(*d, r); }
                Inst::Load { d, a, off, w, ptr } => {
                    let mut ad = g!(*a);
                    if ad.is_c() { ad.v = ad.v.wrapping_add(*off); } else if *off != 0 { ad = self.bin(Op::Add, 64, ad, V::c(*off)); }
                    let v = self.load(st, ad, *w, *ptr)?;
                    set!(*d, v);
                }
                Inst::Store { a, off, v, w } => {
                    let ad = g!(*a);
                    let k = self.concretize(st, ad)?;
                    let x = g!(*v);
                    st.mem.store(&mut self.c, k.wrapping_add(*off), x, *w).map_err(|f| Stop::Fault(f.0))?;
                }
                Inst::Sel { d, c, a, b, w, ptr } => {
                    let cv = g!(*c);
                    if cv.is_c() { let x = if cv.v & 1 == 1 { g!(*a) } else { g!(*b) }; set!(*d, x); }
                    else {
                        let (x, y) = (g!(*a), g!(*b));
                        if x == y { set!(*d, x); }
                        else if *ptr {
                            let (t, o) = self.split(st, cv.e)?;
                            if let Some(mut o) = o { o.fr.regs[*d as usize] = if t { y } else { x }; o.fr.pc += 1; o.steps += n; self.push(o); }
                            set!(*d, if t { x } else { y });
                        } else { let r = self.ite_v(cv.e, x, y, *w); set!(*d, r); }
                    }
                }
                Inst::Br(e) => { if let Some(p) = &mut self.prof { *p.entry((f.id, e.to)).or_insert(0) += 1; } take(st, f, e); continue; }
                Inst::CondBr { c, t, f: fe } => {
                    let cv = g!(*c);
                    if cv.is_c() { take(st, f, if cv.v & 1 == 1 { t } else { fe }); continue; }
                    let (tk, o) = self.split(st, cv.e)?;
                    if let Some(mut o) = o { take(&mut o, f, if tk { fe } else { t }); o.steps += n; if self.trace { eprintln!("fork {} pc {} : {}", f.name, pc, self.c.show(cv.e)); } self.push(o); }
                    take(st, f, if tk { t } else { fe });
                    continue;
                }
                Inst::Switch { v, w, cases, edges } => {
                    let x = g!(*v);
                    if x.is_c() {
                        let ei = match cases.binary_search_by(|c| c.0.cmp(&x.v)) { Ok(i) => cases[i].1, Err(_) => 0 };
                        take(st, f, &edges[ei as usize]);
                        continue;
                    }
                    // one condition per destination
                    let mut conds: Vec<E> = vec![];
                    for ei in 1..edges.len() as u32 {
                        let mut e = self.c.cst(0, 1);
                        for (k, i) in cases { if *i == ei { let kc = self.c.cst(*k as u128, *w); let q = self.c.cmp(Op::Eq, x.e, kc); e = self.c.bin(Op::Or, e, q); } }
                        conds.push(e);
                    }
                    let cur = self.c.eval(x.e, &st.model) as u64;
                    let ei = match cases.binary_search_by(|c| c.0.cmp(&cur)) { Ok(i) => cases[i].1, Err(_) => 0 };
                    let mut others: Vec<(u32, E)> = vec![];
                    let mut any = self.c.cst(0, 1);
                    for (i, e) in conds.iter().enumerate() {
                        any = self.c.bin(Op::Or, any, *e);
                        if i as u32 + 1 != ei { others.push((i as u32 + 1, *e)); }
                    }
                    let dflt = self.c.not(any);
                    if ei != 0 { others.push((0, dflt)); }
                    let mut forked = false;
                    for (oi, e) in others {
                        if let Some(md) = self.check(st, e)? {
                            forked = true;
                            self.st.forks += 1;
                            let mut o = st.clone();
                            o.model = md;
                            self.add(&mut o, e);
                            self.decide(&mut o, e, oi as u64 + 7);
                            take(&mut o, f, &edges[oi as usize]);
                            o.steps += n;
                            self.push(o);
                        }
                    }
                    if forked {
                        let e = if ei == 0 { dflt } else { conds[ei as usize - 1] };
                        self.add(st, e);
                        self.decide(st, e, ei as u64 + 7);
                    }
                    take(st, f, &edges[ei as usize]);
                    continue;
                }
                Inst::Cast { k, from, to, d, a, ah } => {
                    let x = g!(*a);
                    if *from <= 64 && *to <= 64 {
                        let r = if x.is_c() {
                            match k { Cast::Zext => x, Cast::Trunc => V::c(x.v & mask(*to) as u64), Cast::Sext => { let s = 64 - *from; V::c(((((x.v << s) as i64) >> s) as u64) & mask(*to) as u64) } }
                        } else {
                            let e = match k { Cast::Zext => self.c.zext(x.e, *to), Cast::Sext => self.c.sext(x.e, *to), Cast::Trunc => self.c.extract(x.e, 0, *to) };
                            self.un(e)
                        };
                        set!(*d, r);
                    } else {
                        let e = if *from > 64 { let h = g!(*ah); self.wide(x, h, *from) } else { self.ex(x, *from) };
                        let e = match k { Cast::Zext => self.c.zext(e, *to), Cast::Sext => self.c.sext(e, *to), Cast::Trunc => self.c.extract(e, 0, *to) };
                        if *to > 64 { let (l, h) = self.unwide(e); set!(*d, l); set!(*d + 1, h); } else { let v = self.un(e); set!(*d, v); }
                    }
                }
                Inst::Alloca { d, off } => { set!(*d, V::c(st.fr.sp + *off)); }
                Inst::DynAlloca { d, n: cnt, sz } => { let c = g!(*cnt); let k = self.concretize(st, c)?; let a = up(st.fr.dynsp, 16); st.fr.dynsp = a + k * *sz; set!(*d, V::c(a)); }
                Inst::Call { d, nd, callee, args } => {
                    match callee {
                        Callee::Intr(i) => {
                            let av: Vec<V> = args.iter().map(|o| g!(*o)).collect();
                            self.intrinsic(st, *i, *d, &av)?;
                        }
                        _ => {
                            let id = match callee {
                                Callee::Direct(id) => *id,
                                Callee::Ptr(o) => {
                                    let p = g!(*o);
                                    let k = self.concretize(st, p)?;
                                    match self.m.faddr.get(&k) { Some(id) => *id, None => return Err(Stop::Unsup(format!("indirect call to {:#x}", k))) }
                                }
                                _ => unreachable!(),
                            };
                            if let Some(s) = self.sp[id] {
                                let mut av = [V::c(0); 8];
                                for (i, o) in args.iter().enumerate().take(8) { av[i] = g!(*o); }
                                let _ = nd;
                                self.special(st, s, id, *d, &av)?;
                            } else {
                                let cf = match self.m.get(id) { Some(c) => c, None => return Err(Stop::Unsup(format!("external {}", self.m.globals[id].name))) };
                                if st.callers.len() > 4000 { return Err(Stop::Limit("call depth".into())); }
                                self.executed.insert(id);
                                let mut regs = self.newregs(cf.nregs as usize);
                                for (i, o) in args.iter().enumerate() { if i < cf.nparams as usize { regs[i] = g!(*o); } }
                                let sp = up(st.fr.dynsp, 64);
                                if sp + cf.alloca > STACK_END { return Err(Stop::Limit("stack overflow".into())); }
                                let nf = Frame { f: cf, pc: 0, regs, sp, dynsp: sp + cf.alloca, ret: *d };
                                let mut old = std::mem::replace(&mut st.fr, nf);
                                old.pc += 1;
                                st.callers.push(Rc::new(old));
                                self.st.instrs += n; st.steps += n;
                                if st.steps > self.cfg.max_steps { return Err(Stop::Limit("steps".into())); }
                                return Ok(());
                            }
                        }
                    }
                }
                Inst::Ret(v) => {
                    self.st.instrs += n; st.steps += n;
                    match st.callers.pop() {
                        None => return Err(Stop::Done),
                        Some(c) => {
                            let ret = st.fr.ret as usize;
                            let mut cf = match Rc::try_unwrap(c) { Ok(c) => c, Err(c) => (*c).clone() };
                            for (i, o) in v.iter().enumerate() { cf.regs[ret + i] = g!(*o); }
                            let old = std::mem::replace(&mut st.fr, cf);
                            self.pool.push(old.regs);
                            return Ok(());
                        }
                    }
                }
                Inst::BinW { op, w, d, a, b } => {
                    let (x, y) = ({ let (l, h) = (g!(a[0]), g!(a[1])); self.wide(l, h, *w) }, { let (l, h) = (g!(b[0]), g!(b[1])); self.wide(l, h, *w) });
                    let e = self.c.bin(*op, x, y);
                    let (l, h) = self.unwide(e); set!(*d, l); set!(*d + 1, h);
                }
                Inst::IcmpW { p, w, d, a, b } => {
                    let (x, y) = ({ let (l, h) = (g!(a[0]), g!(a[1])); self.wide(l, h, *w) }, { let (l, h) = (g!(b[0]), g!(b[1])); self.wide(l, h, *w) });
                    let e = self.icmp_e(*p, x, y); let v = self.un(e); set!(*d, v);
                }
                Inst::SelW { d, c, a, b } => {
                    let cv = g!(*c);
                    for k in 0..2 {
                        let (x, y) = (g!(a[k]), g!(b[k]));
                        let r = if cv.is_c() { if cv.v & 1 == 1 { x } else { y } } else { self.ite_v(cv.e, x, y, 64) };
                        set!(*d + k as u32, r);
                    }
                }
                Inst::Fp { code, wa, w, d, a, b } => {
                    let (mut x, mut y) = (g!(*a), g!(*b));
                    let mut code = *code;
                    if code == crate::fp::FCLASS { code += (self.concretize(st, y)? & 1023) as u32; y = x; }
                    if code == crate::fp::FREM && !(x.is_c() && y.is_c()) { x = V::c(self.concretize(st, x)?); y = V::c(self.concretize(st, y)?); }
                    let code = &code;
                    if x.is_c() && y.is_c() { set!(*d, V::c(crate::fp::eval(*code, x.v as u128, y.v as u128, *wa, *w) as u64)); }
                    else { let (p, q) = (self.ex(x, *wa), self.ex(y, *wa)); let e = self.c.fp(*code, *w, p, q); set!(*d, V { e, v: 0 }); }
                }
                Inst::PackBits { d, ew, from, w } => {
                    if from.iter().all(|o| g!(*o).is_c()) {
                        let mut r = 0u128;
                        for (i, o) in from.iter().enumerate() { r |= (g!(*o).v as u128) << (i as u32 * ew); }
                        set!(*d, V::c(r as u64)); if *w > 64 { set!(*d + 1, V::c((r >> 64) as u64)); }
                    } else {
                        let mut e = NONE;
                        for o in from { let v = g!(*o); let x = self.ex(v, *ew); e = if e == NONE { x } else { self.c.concat(x, e) }; }
                        if *w > 64 { let (l, h) = self.unwide(e); set!(*d, l); set!(*d + 1, h); } else { let v = self.un(e); set!(*d, v); }
                    }
                }
                Inst::UnpackBits { d, ew, n: cnt, a, w } => {
                    let x = g!(a[0]);
                    let e = if *w > 64 { let h = g!(a[1]); self.wide(x, h, *w) } else { self.ex(x, *w) };
                    for i in 0..*cnt { let p = self.c.extract(e, i * ew, *ew); let v = self.un(p); set!(*d + i, v); }
                }
                Inst::DynElem { d, elems, idx } => { let i = g!(*idx); let k = self.concretize(st, i)? as usize; let v = g!(elems[k]); set!(*d, v); }
                Inst::LoadW { d, a, w } => {
                    let ad = g!(*a); let k = self.concretize(st, ad)?;
                    let l = st.mem.load(&mut self.c, k, 64).map_err(|f| Stop::Fault(f.0))?; let h = st.mem.load(&mut self.c, k + 8, *w - 64).map_err(|f| Stop::Fault(f.0))?;
                    set!(*d, l); set!(*d + 1, h);
                }
                Inst::StoreW { a, v, w } => {
                    let ad = g!(*a); let k = self.concretize(st, ad)?;
                    let (l, h) = (g!(v[0]), g!(v[1]));
                    st.mem.store(&mut self.c, k, l, 64).map_err(|f| Stop::Fault(f.0))?; st.mem.store(&mut self.c, k + 8, h, *w - 64).map_err(|f| Stop::Fault(f.0))?;
                }
                Inst::LoadBits { d, a, off, ew, n: cnt } => {
                    let ad = g!(*a); let k = self.concretize(st, ad)?;
                    let tot = ew * cnt;
                    if tot > 64 { return Err(Stop::Unsup("bit vector load".into())); }
                    let v = st.mem.load(&mut self.c, k + off, tot).map_err(|f| Stop::Fault(f.0))?;
                    let e = self.ex(v, tot);
                    for i in 0..*cnt { let p = self.c.extract(e, i * ew, *ew); let v = self.un(p); set!(*d + i, v); }
                }
                Inst::Rmw { d, a, v, w, op } => {
                    let ad = g!(*a); let k = self.concretize(st, ad)?;
                    let old = st.mem.load(&mut self.c, k, *w).map_err(|f| Stop::Fault(f.0))?;
                    let x = g!(*v);
                    let nv = match op { 0 => self.bin(Op::Add, *w, old, x), 1 => self.bin(Op::Sub, *w, old, x), 2 => x, 3 => self.bin(Op::And, *w, old, x), 4 => self.bin(Op::Or, *w, old, x), 5 => self.bin(Op::Xor, *w, old, x), _ => return Err(Stop::Unsup("rmw".into())) };
                    st.mem.store(&mut self.c, k, nv, *w).map_err(|f| Stop::Fault(f.0))?;
                    set!(*d, old);
                }
                Inst::CmpXchg { d, a, c, n: nv, w } => {
                    let ad = g!(*a); let k = self.concretize(st, ad)?;
                    let old = st.mem.load(&mut self.c, k, *w).map_err(|f| Stop::Fault(f.0))?;
                    let (cv, nv) = (g!(*c), g!(*nv));
                    let old = V::c(self.concretize(st, old)?); let cv = V::c(self.concretize(st, cv)?);
                    let ok = old.v == cv.v;
                    if ok { st.mem.store(&mut self.c, k, nv, *w).map_err(|f| Stop::Fault(f.0))?; }
                    set!(*d, old); set!(*d + 1, V::c(ok as u64));
                }
                Inst::Unreachable => return Err(Stop::Fail(format!("reached LLVM unreachable in {}", self.bt(st)))),
                Inst::Unsup(s) => return Err(Stop::Unsup(s.clone())),
            }
            st.fr.pc += 1;
            if n & 0xfff == 0 {
                if st.steps + n > self.cfg.max_steps { return Err(Stop::Limit("steps".into())); }
                if n & 0xffff == 0 && Instant::now() > self.cfg.end { return Err(Stop::Limit("deadline".into())); }
            }
        }
    }
    fn gep(&mut self, b: V, off: u64, idx: &[(V, u64, u32)]) -> V {
        let mut r = self.bin(Op::Add, 64, b, V::c(off));
        for (i, s, w) in idx {
            let x = if i.is_c() { V::c(sx(i.v as u128, *w) as u64) } else { let e = self.c.sext(i.e, 64); self.un(e) };
            let y = if s.is_power_of_two() { self.bin(Op::Shl, 64, x, V::c(s.trailing_zeros() as u64)) } else { self.bin(Op::Mul, 64, x, V::c(*s)) };
            r = self.bin(Op::Add, 64, r, y);
        }
        r
    }

    fn special(&mut self, st: &mut State, s: Sp, id: usize, d: u32, a: &[V]) -> Res<()> {
        macro_rules! ret { ($v:expr) => {{ let v = $v; st.fr.regs[d as usize] = v; }} }
        match s {
            Sp::Symbolic => {
                let (p, n) = (self.concretize(st, a[0])?, self.concretize(st, a[1])?);
                for i in 0..n {
                    let k = st.model.len();
                    if k >= 128 { return Err(Stop::Unsup("too many symbolic bytes".into())); }
                    Rc::make_mut(&mut st.model).push(0);
                    Rc::make_mut(&mut st.dom).push([!0; 4]);
                    let e = self.c.var(k);
                    st.mem.set(p + i, 0, e);
                }
            }
            Sp::Arg => {
                let (p, n) = (self.concretize(st, a[0])?, self.concretize(st, a[1])?);
                let k = self.cfg.arg.len().min(n as usize);
                for i in 0..k { st.mem.set(p + i as u64, self.cfg.arg[i], NONE); }
                ret!(V::c(k as u64));
            }
            Sp::Assume => {
                let c = a[0];
                if c.is_c() { if c.v & 1 == 0 { return Err(Stop::Assume); } }
                else {
                    let e = if self.c.w(c.e) != 1 { self.c.extract(c.e, 0, 1) } else { c.e };
                    if self.c.eval(e, &st.model) & 1 == 0 {
                        match self.check(st, e)? { None => return Err(Stop::Assume), Some(m) => st.model = m }
                    }
                    self.add(st, e);
                }
            }
            Sp::Fail => {
                let (p, n) = (self.concretize(st, a[0])?, self.concretize(st, a[1])?);
                let mut m = vec![]; for i in 0..n { let (b, e) = st.mem.get(p + i); m.push(if e == NONE { b } else { self.c.eval(e, &st.model) as u8 }); }
                return Err(Stop::Fail(String::from_utf8_lossy(&m).to_string()));
            }
            Sp::Reach => { let k = self.concretize(st, a[0])?; st.reach |= 1 << (k & 63); }
            Sp::Observe => { let o = a[0]; Rc::make_mut(&mut st.obs).push(o); }
            Sp::Concretize => { let k = self.concretize(st, a[0])?; ret!(V::c(k)); }
            Sp::IsSym => ret!(V::c(1)),
            Sp::Malloc => { let n = self.concretize(st, a[0])?; ret!(V::c(st.mem.malloc(n, 16))); }
            Sp::Calloc => { let (n, m) = (self.concretize(st, a[0])?, self.concretize(st, a[1])?); let p = st.mem.malloc(n * m, 16); if p != 0 { let _ = st.mem.fill(p, 0, NONE, n * m); } ret!(V::c(p)); }
            Sp::Realloc => { let (p, n) = (self.concretize(st, a[0])?, self.concretize(st, a[1])?); ret!(V::c(st.mem.realloc(p, n))); }
            Sp::Memalign => { let (o, al, n) = (self.concretize(st, a[0])?, self.concretize(st, a[1])?, self.concretize(st, a[2])?); let p = st.mem.malloc(n, al); st.mem.store(&mut self.c, o, V::c(p), 64).map_err(|f| Stop::Fault(f.0))?; ret!(V::c(0)); }
            Sp::Free => { let p = self.concretize(st, a[0])?; st.mem.free(p); }
            Sp::Memcmp | Sp::Bcmp => {
                let (p, q, n) = (self.concretize(st, a[0])?, self.concretize(st, a[1])?, self.concretize(st, a[2])?);
                let mut r = self.c.cst(0, 32);
                if s == Sp::Bcmp {
                    let mut all = self.c.cst(1, 1);
                    for i in 0..n {
                        let ((b1, e1), (b2, e2)) = (st.mem.get(p + i), st.mem.get(q + i));
                        if e1 == NONE && e2 == NONE { if b1 != b2 { ret!(V::c(1)); return Ok(()); } continue; }
                        let x = if e1 == NONE { self.c.cst(b1 as u128, 8) } else { e1 }; let y = if e2 == NONE { self.c.cst(b2 as u128, 8) } else { e2 };
                        let q = self.c.cmp(Op::Eq, x, y);
                        all = self.c.bin(Op::And, all, q);
                    }
                    let ne = self.c.not(all);
                    r = self.c.zext(ne, 32);
                } else {
                    for i in (0..n).rev() {
                        let ((b1, e1), (b2, e2)) = (st.mem.get(p + i), st.mem.get(q + i));
                        if e1 == NONE && e2 == NONE { if b1 != b2 { r = self.c.cst((b1 as i32 - b2 as i32) as u32 as u128, 32); } continue; }
                        let x = if e1 == NONE { self.c.cst(b1 as u128, 8) } else { e1 }; let y = if e2 == NONE { self.c.cst(b2 as u128, 8) } else { e2 };
                        let eq = self.c.cmp(Op::Eq, x, y);
                        let lt = self.c.cmp(Op::Ult, x, y);
                        let (m1, p1) = (self.c.cst(0xffff_ffff, 32), self.c.cst(1, 32));
                        let df = self.c.ite(lt, m1, p1);
                        r = self.c.ite(eq, r, df);
                    }
                }
                let v = self.un(r); ret!(v);
            }
            Sp::Libm(k) => self.intrinsic(st, Intr::Libm(k, 64), d, a)?,
            Sp::Clock => { let p = self.concretize(st, a[1])?; st.mem.fill(p, 0, NONE, 16).map_err(|f| Stop::Fault(f.0))?; ret!(V::c(0)); } // time stands still
            Sp::Strlen => { let p = self.concretize(st, a[0])?; let mut n = 0; while { let (b, e) = st.mem.get(p + n); b != 0 || e != NONE } { n += 1; } ret!(V::c(n)); }
            Sp::Memcpy => { let (x, y, n) = (self.concretize(st, a[0])?, self.concretize(st, a[1])?, self.concretize(st, a[2])?); st.mem.copy(x, y, n).map_err(|f| Stop::Fault(f.0))?; ret!(V::c(x)); }
            Sp::Memset => { let (x, n) = (self.concretize(st, a[0])?, self.concretize(st, a[2])?); let b = V::c(self.concretize(st, a[1])?); st.mem.fill(x, b.v as u8, NONE, n).map_err(|f| Stop::Fault(f.0))?; ret!(V::c(x)); }
            Sp::Panic => return Err(Stop::Panic(format!("panic via {} in {}", self.m.globals[id].name, self.bt(st)))),
            Sp::Abort => return Err(Stop::Panic(format!("abort in {}", self.bt(st)))),
            Sp::Ret0 => ret!(V::c(0)),
            Sp::RetM1 => ret!(V::c(u64::MAX)),
            Sp::Errno => { if self.errno == 0 { self.errno = 0x3f_f000; } ret!(V::c(0x3f_f000)); }
            Sp::Syscall => {
                let nr = self.concretize(st, a[0])?;
                if nr == 318 { // getrandom: any fixed bytes
                    let (p, n) = (self.concretize(st, a[1])?, self.concretize(st, a[2])?);
                    for i in 0..n { st.mem.set(p + i, (i as u8).wrapping_mul(37).wrapping_add(11), NONE); }
                    ret!(V::c(n));
                } else { return Err(Stop::Unsup(format!("syscall {}", nr))); }
            }
            Sp::Write => { let n = self.concretize(st, a[2])?; ret!(V::c(n)); }
            Sp::TlsKey => { let p = self.concretize(st, a[0])?; st.mem.store(&mut self.c, p, V::c(7), 32).map_err(|f| Stop::Fault(f.0))?; ret!(V::c(0)); }
            Sp::TlsSet => { st.mem.store(&mut self.c, 0x3f_f800, a[1], 64).map_err(|f| Stop::Fault(f.0))?; ret!(V::c(0)); }
            Sp::TlsGet => { let v = st.mem.load(&mut self.c, 0x3f_f800, 64).map_err(|f| Stop::Fault(f.0))?; ret!(v); }
            Sp::NoStack => {}
        }
        Ok(())
    }

    fn intrinsic(&mut self, st: &mut State, i: Intr, d: u32, a: &[V]) -> Res<()> {
        macro_rules! ret { ($v:expr) => {{ let v = $v; st.fr.regs[d as usize] = v; }} }
        match i {
            Intr::Memcpy | Intr::Memmove => { let n = self.concretize(st, a[2])?; if n == 0 { return Ok(()); } let (x, y) = (self.concretize(st, a[0])?, self.concretize(st, a[1])?); st.mem.copy(x, y, n).map_err(|f| Stop::Fault(f.0))?; }
            Intr::Memset => {
                let n = self.concretize(st, a[2])?; if n == 0 { return Ok(()); }
                let x = self.concretize(st, a[0])?;
                let (b, e) = if a[1].is_c() { (a[1].v as u8, NONE) } else { (0, a[1].e) };
                st.mem.fill(x, b, e, n).map_err(|f| Stop::Fault(f.0))?;
            }
            Intr::Assume => {}
            Intr::Umin(w) | Intr::Umax(w) | Intr::Smin(w) | Intr::Smax(w) => {
                if w > 64 { return Err(Stop::Unsup("wide minmax".into())); }
                let p = match i { Intr::Umin(_) => Pred::Ult, Intr::Umax(_) => Pred::Ugt, Intr::Smin(_) => Pred::Slt, _ => Pred::Sgt };
                let c = self.icmp(p, w, a[0], a[1]);
                let r = if c.is_c() { if c.v == 1 { a[0] } else { a[1] } } else { self.ite_v(c.e, a[0], a[1], w) };
                ret!(r);
            }
            Intr::Abs(w) => { let c = self.icmp(Pred::Slt, w, a[0], V::c(0)); let ng = self.bin(Op::Sub, w, V::c(0), a[0]); let r = if c.is_c() { if c.v == 1 { ng } else { a[0] } } else { self.ite_v(c.e, ng, a[0], w) }; ret!(r); }
            Intr::Ctlz(w) | Intr::Cttz(w) | Intr::Ctpop(w) => {
                if w > 64 { return Err(Stop::Unsup("wide bit count".into())); }
                if a[0].is_c() {
                    let x = a[0].v;
                    ret!(V::c(match i { Intr::Ctlz(_) => (x.leading_zeros() as u64) - (64 - w as u64), Intr::Cttz(_) => if x == 0 { w as u64 } else { x.trailing_zeros() as u64 }, _ => x.count_ones() as u64 }));
                } else {
                    let e = a[0].e;
                    let mut r;
                    if let Intr::Ctpop(_) = i {
                        r = self.c.cst(0, w);
                        for k in 0..w { let b = self.c.extract(e, k, 1); let z = self.c.zext(b, w); r = self.c.bin(Op::Add, r, z); }
                    } else {
                        r = self.c.cst(w as u128, w);
                        for k in 0..w {
                            // later iterations take priority
                            let bit = if let Intr::Ctlz(_) = i { k } else { w - 1 - k };
                            let val = if let Intr::Ctlz(_) = i { w - 1 - k } else { w - 1 - k };
                            let b = self.c.extract(e, bit, 1);
                            let vc = self.c.cst(val as u128, w);
                            r = self.c.ite(b, vc, r);
                        }
                    }
                    let v = self.un(r); ret!(v);
                }
            }
            Intr::Bswap(w) => {
                if a[0].is_c() { ret!(V::c(a[0].v.swap_bytes() >> (64 - w))); }
                else { let mut r = NONE; for k in 0..w / 8 { let b = self.c.extract(a[0].e, k * 8, 8); r = if r == NONE { b } else { self.c.concat(r, b) }; } let v = self.un(r); ret!(v); }
            }
            Intr::Bitrev(w) => {
                if a[0].is_c() { ret!(V::c(a[0].v.reverse_bits() >> (64 - w))); }
                else { let mut r = NONE; for k in 0..w { let b = self.c.extract(a[0].e, k, 1); r = if r == NONE { b } else { self.c.concat(r, b) }; } let v = self.un(r); ret!(v); }
            }
            Intr::Fshl(w) | Intr::Fshr(w) => {
                if w > 64 { return Err(Stop::Unsup("wide funnel".into())); }
                let s = self.concretize(st, a[2])? % w as u64;
                let sh = if let Intr::Fshl(_) = i { s } else { if s == 0 { ret!(a[1]); return Ok(()); } w as u64 - s };
                if sh == 0 { ret!(a[0]); } else {
                    let h = self.bin(Op::Shl, w, a[0], V::c(sh)); let l = self.bin(Op::LShr, w, a[1], V::c(w as u64 - sh));
                    let r = self.bin(Op::Or, w, h, l); ret!(r);
                }
            }
            Intr::UsubSat(w) => { let c = self.icmp(Pred::Ult, w, a[0], a[1]); let s = self.bin(Op::Sub, w, a[0], a[1]); let r = if c.is_c() { if c.v == 1 { V::c(0) } else { s } } else { self.ite_v(c.e, V::c(0), s, w) }; ret!(r); }
            Intr::UaddSat(w) => { let s = self.bin(Op::Add, w, a[0], a[1]); let c = self.icmp(Pred::Ult, w, s, a[0]); let mx = V::c(mask(w) as u64); let r = if c.is_c() { if c.v == 1 { mx } else { s } } else { self.ite_v(c.e, mx, s, w) }; ret!(r); }
            Intr::SsubSat(_) | Intr::SaddSat(_) => return Err(Stop::Unsup("signed saturating".into())),
            Intr::UaddO(w) | Intr::UsubO(w) | Intr::UmulO(w) | Intr::SaddO(w) | Intr::SsubO(w) | Intr::SmulO(w) => {
                let op = match i { Intr::UaddO(_) | Intr::SaddO(_) => Op::Add, Intr::UsubO(_) | Intr::SsubO(_) => Op::Sub, _ => Op::Mul };
                let sg = matches!(i, Intr::SaddO(_) | Intr::SsubO(_) | Intr::SmulO(_));
                if w > 64 {
                    // only add/sub unsigned on wide ints
                    let (x, y) = (self.wide(a[0], a[1], w), self.wide(a[2], a[3], w));
                    let r = self.c.bin(op, x, y);
                    let o = match i {
                        Intr::UaddO(_) => self.c.cmp(Op::Ult, r, x),
                        Intr::UsubO(_) => self.c.cmp(Op::Ult, x, y),
                        Intr::UmulO(_) => match (self.c.as_const(x), self.c.as_const(y)) { (Some(p), Some(q)) => { let o = p.checked_mul(q).is_none(); self.c.cst(o as u128, 1) } _ => return Err(Stop::Unsup("wide umulo".into())) },
                        _ => match (self.c.as_const(x), self.c.as_const(y)) { (Some(p), Some(q)) => { let (p, q) = (p as i128, q as i128); let o = match op { Op::Add => p.checked_add(q), Op::Sub => p.checked_sub(q), _ => p.checked_mul(q) }.is_none(); self.c.cst(o as u128, 1) } _ => return Err(Stop::Unsup("wide signed overflow op".into())) },
                    };
                    let (l, h) = self.unwide(r); let ov = self.un(o);
                    ret!(l); st.fr.regs[d as usize + 1] = h; st.fr.regs[d as usize + 2] = ov;
                    return Ok(());
                }
                let r = self.bin(op, w, a[0], a[1]);
                let o = if a[0].is_c() && a[1].is_c() {
                    let o = if sg {
                        let (x, y) = (sx(a[0].v as u128, w), sx(a[1].v as u128, w));
                        let z = match op { Op::Add => x + y, Op::Sub => x - y, _ => x * y };
                        sx(z as u128 & mask(w), w) != z
                    } else {
                        let (x, y) = (a[0].v as u128, a[1].v as u128);
                        match op { Op::Add => x + y > mask(w), Op::Sub => x < y, _ => x * y > mask(w) }
                    };
                    V::c(o as u64)
                } else {
                    let (x, y) = (self.ex(a[0], w), self.ex(a[1], w));
                    let ww = if op == Op::Mul { 2 * w } else { w + 1 };
                    let (x2, y2) = if sg { (self.c.sext(x, ww), self.c.sext(y, ww)) } else { (self.c.zext(x, ww), self.c.zext(y, ww)) };
                    let e = if !sg && op == Op::Sub { self.c.cmp(Op::Ult, x, y) } else {
                        let z = self.c.bin(op, x2, y2);
                        let lo = self.c.extract(z, 0, w);
                        let back = if sg { self.c.sext(lo, ww) } else { self.c.zext(lo, ww) };
                        let q = self.c.cmp(Op::Eq, back, z);
                        self.c.not(q)
                    };
                    self.un(e)
                };
                ret!(r); st.fr.regs[d as usize + 1] = o;
            }
            Intr::Ucmp(rw, w) | Intr::Scmp(rw, w) => {
                if w > 64 { return Err(Stop::Unsup("wide cmp".into())); }
                let (pl, pg) = if let Intr::Ucmp(..) = i { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(pl, w, a[0], a[1]); let g = self.icmp(pg, w, a[0], a[1]);
                let m1 = V::c(mask(rw) as u64);
                let r = if g.is_c() { if g.v == 1 { V::c(1) } else { V::c(0) } } else { self.ite_v(g.e, V::c(1), V::c(0), rw) };
                let r = if l.is_c() { if l.v == 1 { m1 } else { r } } else { self.ite_v(l.e, m1, r, rw) };
                ret!(r);
            }
            Intr::Trap => return Err(Stop::Panic(format!("trap in {}", self.bt(st)))),
            Intr::Id => ret!(a[0]),
            Intr::LoadRel => {
                let b = self.concretize(st, a[0])?;
                let o = self.concretize(st, a[1])?;
                let v = st.mem.load(&mut self.c, b.wrapping_add(o), 32).map_err(|f| Stop::Fault(f.0))?;
                ret!(V::c(b.wrapping_add(v.v as i32 as i64 as u64)));
            }
            Intr::Zero => ret!(V::c(0)),
            Intr::Libm(k, w) => {
                let x = self.concretize(st, a[0])?;
                let y = if a.len() > 1 { self.concretize(st, a[1])? } else { 0 };
                let powi = crate::fp::LIBM[k] == "powi";
                ret!(V::c(if w == 32 { crate::fp::libm32(k, f32::from_bits(x as u32), if powi { y as i32 as f32 } else { f32::from_bits(y as u32) }).to_bits() as u64 }
                    else { crate::fp::libm(k, f64::from_bits(x), if powi { y as i32 as f64 } else { f64::from_bits(y) }).to_bits() }));
            }
            Intr::Fabs(w) => { let r = self.bin(Op::And, w, a[0], V::c(mask(w - 1) as u64)); ret!(r); }
            Intr::RedAdd(w, n) | Intr::RedOr(w, n) | Intr::RedAnd(w, n) | Intr::RedMul(w, n) | Intr::RedXor(w, n) | Intr::RedUmax(w, n) | Intr::RedUmin(w, n) => {
                let mut r = a[0];
                for k in 1..n as usize {
                    r = match i {
                        Intr::RedAdd(..) => self.bin(Op::Add, w, r, a[k]), Intr::RedOr(..) => self.bin(Op::Or, w, r, a[k]), Intr::RedAnd(..) => self.bin(Op::And, w, r, a[k]), Intr::RedMul(..) => self.bin(Op::Mul, w, r, a[k]), Intr::RedXor(..) => self.bin(Op::Xor, w, r, a[k]),
                        Intr::RedUmax(..) => { let c = self.icmp(Pred::Ugt, w, r, a[k]); if c.is_c() { if c.v == 1 { r } else { a[k] } } else { self.ite_v(c.e, r, a[k], w) } }
                        _ => { let c = self.icmp(Pred::Ult, w, r, a[k]); if c.is_c() { if c.v == 1 { r } else { a[k] } } else { self.ite_v(c.e, r, a[k], w) } }
                    };
                }
                ret!(r);
            }
        }
        Ok(())
    }
}

#[inline]
fn take(st: &mut State, f: &'static Func, e: &Edge) {
    match e.moves.len() {
        0 => {}
        1 => { let (d, o) = e.moves[0]; st.fr.regs[d as usize] = if o & CB != 0 { f.consts[(o & !CB) as usize] } else { st.fr.regs[o as usize] }; }
        n if n <= 8 => {
            let mut tmp = [V::c(0); 8];
            for (i, (_, o)) in e.moves.iter().enumerate() { tmp[i] = if o & CB != 0 { f.consts[(o & !CB) as usize] } else { st.fr.regs[*o as usize] }; }
            for (i, (d, _)) in e.moves.iter().enumerate() { st.fr.regs[*d as usize] = tmp[i]; }
        }
        _ => {
            let tmp: Vec<V> = e.moves.iter().map(|(_, o)| if o & CB != 0 { f.consts[(o & !CB) as usize] } else { st.fr.regs[*o as usize] }).collect();
            for (i, (d, _)) in e.moves.iter().enumerate() { st.fr.regs[*d as usize] = tmp[i]; }
        }
    }
    st.fr.pc = e.to;
}
