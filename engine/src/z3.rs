//! Minimal binding to libz3 (bit-vectors and floating point), plus query statistics.
use crate::expr::{Ctx, Op, E, NONE};
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type C = *mut c_void; type A = *mut c_void; type S = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_mk_context(c: *mut c_void) -> C;
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_mk_simple_solver(c: C) -> S;
    fn Z3_mk_params(c: C) -> *mut c_void;
    fn Z3_params_inc_ref(c: C, p: *mut c_void);
    fn Z3_params_set_uint(c: C, p: *mut c_void, k: *mut c_void, v: c_uint);
    fn Z3_solver_set_params(c: C, s: S, p: *mut c_void);
    fn Z3_mk_string_symbol(c: C, s: *const c_char) -> *mut c_void;
    fn Z3_mk_solver(c: C) -> S;
    fn Z3_solver_inc_ref(c: C, s: S);
    fn Z3_solver_push(c: C, s: S);
    fn Z3_solver_pop(c: C, s: S, n: c_uint);
    fn Z3_solver_assert(c: C, s: S, a: A);
    fn Z3_solver_check(c: C, s: S) -> c_int;
    fn Z3_solver_get_model(c: C, s: S) -> *mut c_void;
    fn Z3_model_inc_ref(c: C, m: *mut c_void);
    fn Z3_model_dec_ref(c: C, m: *mut c_void);
    fn Z3_model_eval(c: C, m: *mut c_void, a: A, comp: bool, out: *mut A) -> bool;
    fn Z3_get_numeral_uint64(c: C, a: A, v: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: C, n: c_uint) -> *mut c_void;
    fn Z3_mk_int_symbol(c: C, i: c_int) -> *mut c_void;
    fn Z3_mk_const(c: C, s: *mut c_void, t: *mut c_void) -> A;
    fn Z3_mk_numeral(c: C, s: *const c_char, t: *mut c_void) -> A;
    fn Z3_mk_unsigned_int64(c: C, v: u64, t: *mut c_void) -> A;
    fn Z3_mk_bvadd(c: C, a: A, b: A) -> A; fn Z3_mk_bvsub(c: C, a: A, b: A) -> A; fn Z3_mk_bvmul(c: C, a: A, b: A) -> A;
    fn Z3_mk_bvudiv(c: C, a: A, b: A) -> A; fn Z3_mk_bvurem(c: C, a: A, b: A) -> A; fn Z3_mk_bvsdiv(c: C, a: A, b: A) -> A; fn Z3_mk_bvsrem(c: C, a: A, b: A) -> A;
    fn Z3_mk_bvand(c: C, a: A, b: A) -> A; fn Z3_mk_bvor(c: C, a: A, b: A) -> A; fn Z3_mk_bvxor(c: C, a: A, b: A) -> A;
    fn Z3_mk_bvshl(c: C, a: A, b: A) -> A; fn Z3_mk_bvlshr(c: C, a: A, b: A) -> A; fn Z3_mk_bvashr(c: C, a: A, b: A) -> A;
    fn Z3_mk_zero_ext(c: C, n: c_uint, a: A) -> A; fn Z3_mk_sign_ext(c: C, n: c_uint, a: A) -> A;
    fn Z3_mk_extract(c: C, h: c_uint, l: c_uint, a: A) -> A; fn Z3_mk_concat(c: C, a: A, b: A) -> A;
    fn Z3_mk_eq(c: C, a: A, b: A) -> A; fn Z3_mk_bvult(c: C, a: A, b: A) -> A; fn Z3_mk_bvule(c: C, a: A, b: A) -> A; fn Z3_mk_bvslt(c: C, a: A, b: A) -> A; fn Z3_mk_bvsle(c: C, a: A, b: A) -> A;
    fn Z3_mk_bvnot(c: C, a: A) -> A;
    fn Z3_mk_ite(c: C, i: A, a: A, b: A) -> A;
    fn Z3_mk_fpa_sort_32(c: C) -> *mut c_void; fn Z3_mk_fpa_sort_64(c: C) -> *mut c_void;
    fn Z3_mk_fpa_to_fp_bv(c: C, a: A, s: *mut c_void) -> A; fn Z3_mk_fpa_to_ieee_bv(c: C, a: A) -> A;
    fn Z3_mk_fpa_rne(c: C) -> A; fn Z3_mk_fpa_rtz(c: C) -> A;
    fn Z3_mk_fpa_add(c: C, r: A, a: A, b: A) -> A; fn Z3_mk_fpa_sub(c: C, r: A, a: A, b: A) -> A; fn Z3_mk_fpa_mul(c: C, r: A, a: A, b: A) -> A; fn Z3_mk_fpa_div(c: C, r: A, a: A, b: A) -> A;
    fn Z3_mk_fpa_neg(c: C, a: A) -> A; fn Z3_mk_fpa_abs(c: C, a: A) -> A;
    fn Z3_mk_fpa_to_fp_unsigned(c: C, r: A, a: A, s: *mut c_void) -> A; fn Z3_mk_fpa_to_fp_signed(c: C, r: A, a: A, s: *mut c_void) -> A; fn Z3_mk_fpa_to_fp_float(c: C, r: A, a: A, s: *mut c_void) -> A;
    fn Z3_mk_fpa_to_ubv(c: C, r: A, a: A, n: c_uint) -> A; fn Z3_mk_fpa_to_sbv(c: C, r: A, a: A, n: c_uint) -> A;
    fn Z3_mk_fpa_eq(c: C, a: A, b: A) -> A; fn Z3_mk_fpa_gt(c: C, a: A, b: A) -> A; fn Z3_mk_fpa_lt(c: C, a: A, b: A) -> A; fn Z3_mk_fpa_is_nan(c: C, a: A) -> A;
    fn Z3_mk_fpa_rna(c: C) -> A; fn Z3_mk_fpa_rtp(c: C) -> A; fn Z3_mk_fpa_rtn(c: C) -> A;
    fn Z3_mk_fpa_sqrt(c: C, r: A, a: A) -> A; fn Z3_mk_fpa_round_to_integral(c: C, r: A, a: A) -> A;
    fn Z3_mk_fpa_is_infinite(c: C, a: A) -> A; fn Z3_mk_fpa_is_zero(c: C, a: A) -> A; fn Z3_mk_fpa_is_normal(c: C, a: A) -> A; fn Z3_mk_fpa_is_subnormal(c: C, a: A) -> A; fn Z3_mk_fpa_is_negative(c: C, a: A) -> A;
    fn Z3_mk_and(c: C, n: c_uint, a: *const A) -> A; fn Z3_mk_not(c: C, a: A) -> A;
    fn Z3_mk_or(c: C, n: c_uint, a: *const A) -> A;
    fn Z3_solver_to_string(c: C, s: S) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

pub struct Z3 {
    c: C, s: S, memo: Vec<A>, one: A, vars: Vec<A>,
    pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub time: f64, pub maxq: f64,
    pub dump: Option<(String, u64, u64)>, // dir, every, count
}
pub enum R { Sat(Vec<(usize, u8)>), Unsat, Unknown }

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let k = CString::new("model").unwrap(); let v = CString::new("true").unwrap();
            Z3_global_param_set(k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(Z3_mk_config());
            let s = if std::env::var("KSYM_Z3_TACTIC").is_ok() { Z3_mk_solver(c) } else { Z3_mk_simple_solver(c) };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
            Z3 { c, s, memo: vec![], one, vars: vec![], queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, maxq: 0.0, dump: None }
        }
    }
    pub fn version() -> String { unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() } }
    fn b2bv(&self, b: A) -> A { unsafe { let z = Z3_mk_unsigned_int64(self.c, 0, Z3_mk_bv_sort(self.c, 1)); Z3_mk_ite(self.c, b, self.one, z) } }
    fn var(&mut self, i: usize) -> A {
        while self.vars.len() <= i { let k = self.vars.len(); let v = unsafe { Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, k as c_int), Z3_mk_bv_sort(self.c, 8)) }; self.vars.push(v); }
        self.vars[i]
    }
    pub fn ast(&mut self, x: &Ctx, root: E) -> A {
        if self.memo.len() < x.nodes.len() { self.memo.resize(x.nodes.len(), std::ptr::null_mut()); }
        let mut st = vec![root];
        let c = self.c;
        while let Some(&e) = st.last() {
            if !self.memo[e as usize].is_null() { st.pop(); continue; }
            let n = x.n(e);
            let mut ok = true;
            for k in [n.a, n.b, n.c] { if k != NONE && self.memo[k as usize].is_null() { st.push(k); ok = false; } }
            if !ok { continue; }
            let g = |k: E| if k == NONE { std::ptr::null_mut() } else { self.memo[k as usize] };
            let (a, b, d) = (g(n.a), g(n.b), g(n.c));
            let w = n.w as u32;
            let r = unsafe {
                match n.op {
                    Op::Const => { let s = Z3_mk_bv_sort(c, w); if w <= 64 { Z3_mk_unsigned_int64(c, n.k as u64, s) } else { let t = CString::new(n.k.to_string()).unwrap(); Z3_mk_numeral(c, t.as_ptr(), s) } }
                    Op::Var => self.var(n.k as usize),
                    Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b),
                    Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b), Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b),
                    Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b),
                    Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b),
                    Op::ZExt => Z3_mk_zero_ext(c, w - x.w(n.a), a), Op::SExt => Z3_mk_sign_ext(c, w - x.w(n.a), a),
                    Op::Extract => Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, a), Op::Concat => Z3_mk_concat(c, a, b),
                    Op::Eq => self.b2bv(Z3_mk_eq(c, a, b)), Op::Ult => self.b2bv(Z3_mk_bvult(c, a, b)), Op::Ule => self.b2bv(Z3_mk_bvule(c, a, b)),
                    Op::Slt => self.b2bv(Z3_mk_bvslt(c, a, b)), Op::Sle => self.b2bv(Z3_mk_bvsle(c, a, b)),
                    Op::Not => Z3_mk_bvnot(c, a),
                    Op::Ite => Z3_mk_ite(c, Z3_mk_eq(c, a, self.one), b, d),
                    Op::Fp => self.fp(n.k as u32, a, b, x.w(n.a), w),
                }
            };
            self.memo[e as usize] = r;
            st.pop();
        }
        self.memo[root as usize]
    }
    unsafe fn fp(&self, code: u32, a: A, b: A, wa: u32, w: u32) -> A {
        use crate::fp::*;
        let c = self.c;
        let so = |w: u32| if w == 32 { Z3_mk_fpa_sort_32(c) } else { Z3_mk_fpa_sort_64(c) };
        let rne = Z3_mk_fpa_rne(c);
        if code >= FCLASS {
            let m = code - FCLASS;
            let x = Z3_mk_fpa_to_fp_bv(c, a, so(wa));
            let neg = Z3_mk_fpa_is_negative(c, x); let pos = Z3_mk_not(c, neg);
            let mut v = vec![];
            if m & 3 != 0 { v.push(Z3_mk_fpa_is_nan(c, x)); }
            for (k, s, p) in [(2, neg, Z3_mk_fpa_is_infinite(c, x)), (3, neg, Z3_mk_fpa_is_normal(c, x)), (4, neg, Z3_mk_fpa_is_subnormal(c, x)), (5, neg, Z3_mk_fpa_is_zero(c, x)),
                (6, pos, Z3_mk_fpa_is_zero(c, x)), (7, pos, Z3_mk_fpa_is_subnormal(c, x)), (8, pos, Z3_mk_fpa_is_normal(c, x)), (9, pos, Z3_mk_fpa_is_infinite(c, x))] {
                if m >> k & 1 != 0 { let q = [s, p]; v.push(Z3_mk_and(c, 2, q.as_ptr())); }
            }
            return self.b2bv(Z3_mk_or(c, v.len() as u32, v.as_ptr()));
        }
        if code >= FCMP {
            let (x, y) = (Z3_mk_fpa_to_fp_bv(c, a, so(wa)), Z3_mk_fpa_to_fp_bv(c, b, so(wa)));
            let p = code - FCMP;
            let mut v = vec![];
            if p & 1 != 0 { v.push(Z3_mk_fpa_eq(c, x, y)); }
            if p & 2 != 0 { v.push(Z3_mk_fpa_gt(c, x, y)); }
            if p & 4 != 0 { v.push(Z3_mk_fpa_lt(c, x, y)); }
            if p & 8 != 0 { v.push(Z3_mk_fpa_is_nan(c, x)); v.push(Z3_mk_fpa_is_nan(c, y)); }
            return self.b2bv(Z3_mk_or(c, v.len() as u32, v.as_ptr()));
        }
        match code {
            UITOFP => return Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, rne, a, so(w))),
            SITOFP => return Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, rne, a, so(w))),
            FPEXT | FPTRUNC => return Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, rne, Z3_mk_fpa_to_fp_bv(c, a, so(wa)), so(w))),
            FPTOUI => return Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), Z3_mk_fpa_to_fp_bv(c, a, so(wa)), w),
            FPTOSI => return Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), Z3_mk_fpa_to_fp_bv(c, a, so(wa)), w),
            FPTOUI_SAT | FPTOSI_SAT => {
                let sg = code == FPTOSI_SAT;
                let x = Z3_mk_fpa_to_fp_bv(c, a, so(wa));
                let num = |v: u128| { let t = CString::new((v & crate::expr::mask(w)).to_string()).unwrap(); Z3_mk_numeral(c, t.as_ptr(), Z3_mk_bv_sort(c, w)) };
                let flt = |v: f64| Z3_mk_fpa_to_fp_bv(c, if wa == 32 { Z3_mk_unsigned_int64(c, (v as f32).to_bits() as u64, Z3_mk_bv_sort(c, 32)) } else { Z3_mk_unsigned_int64(c, v.to_bits(), Z3_mk_bv_sort(c, 64)) }, so(wa));
                let hi = 2f64.powi(w as i32 - sg as i32); // the first value too large
                let lo = if sg { -hi } else { 0.0 };
                let r = if sg { Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), x, w) } else { Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), x, w) };
                let big = Z3_mk_not(c, Z3_mk_fpa_lt(c, x, flt(hi)));
                let r = Z3_mk_ite(c, big, num(if sg { (1u128 << (w - 1)) - 1 } else { u128::MAX }), r);
                let r = Z3_mk_ite(c, Z3_mk_fpa_lt(c, x, flt(lo)), num(if sg { 1u128 << (w - 1) } else { 0 }), r);
                return Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, x), num(0), r);
            }
            _ => {}
        }
        let x = Z3_mk_fpa_to_fp_bv(c, a, so(w));
        let y = Z3_mk_fpa_to_fp_bv(c, b, so(w));
        let r = match code { FADD => Z3_mk_fpa_add(c, rne, x, y), FSUB => Z3_mk_fpa_sub(c, rne, x, y), FMUL => Z3_mk_fpa_mul(c, rne, x, y), FDIV => Z3_mk_fpa_div(c, rne, x, y), FNEG => Z3_mk_fpa_neg(c, x), FABS => Z3_mk_fpa_abs(c, x), FSQRT => Z3_mk_fpa_sqrt(c, rne, x),
            FTRUNC => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), x), FFLOOR => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), x), FCEIL => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), x), FROUND => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), x), FRINT => Z3_mk_fpa_round_to_integral(c, rne, x), _ => panic!("fp op") };
        Z3_mk_fpa_to_ieee_bv(c, r)
    }
    pub fn check(&mut self, x: &Ctx, cs: &[E]) -> R {
        let t0 = Instant::now();
        self.queries += 1;
        let mut vs = 0u128;
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for &e in cs { vs |= x.vars[e as usize]; let a = self.ast(x, e); let q = Z3_mk_eq(self.c, a, self.one); Z3_solver_assert(self.c, self.s, q); }
            let r = Z3_solver_check(self.c, self.s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut v = vec![];
                    for i in 0..128 { if vs >> i & 1 == 1 {
                        let a = self.var(i);
                        let mut o: A = std::ptr::null_mut();
                        Z3_model_eval(self.c, m, a, true, &mut o);
                        let mut k = 0u64;
                        Z3_get_numeral_uint64(self.c, o, &mut k);
                        v.push((i, k as u8));
                    } }
                    Z3_model_dec_ref(self.c, m);
                    self.sat += 1;
                    R::Sat(v)
                }
                -1 => { self.unsat += 1; R::Unsat }
                _ => { self.unknown += 1; R::Unknown }
            };
            if let Some((dir, every, cnt)) = &mut self.dump {
                *cnt += 1;
                if *cnt % *every == 0 && r != 0 {
                    let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().to_string();
                    let _ = std::fs::write(format!("{}/q{}_{}.smt2", dir, std::process::id(), cnt), format!("(set-logic ALL)\n(set-info :status {})\n{}\n(check-sat)\n", if r == 1 { "sat" } else { "unsat" }, s));
                }
            }
            Z3_solver_pop(self.c, self.s, 1);
            out
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.maxq { self.maxq = dt; }
        r
    }
}
