//! Thin libz3 binding (C API through FFI) and the expression translation.
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, mc: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, d: *const P, r: P) -> P;
    fn Z3_mk_app(c: P, d: P, n: c_uint, a: *const P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(c: P, e: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error {}: {:?}", e, m);
    std::process::exit(3);
}
pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    s: P,
    cache: Vec<P>,
    fps: [P; 2],
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub timeout_ms: u32,
    vars: Vec<P>,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, on_err);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let fps = [Z3_mk_fpa_sort(c, 8, 24), Z3_mk_fpa_sort(c, 11, 53)];
            Z3_inc_ref(c, fps[0]);
            Z3_inc_ref(c, fps[1]);
            let z = Z3 { c, s, cache: vec![], fps, queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, max_time: 0.0, timeout_ms, vars: vec![] };
            z.set_timeout(s, timeout_ms.min(5000));
            z
        }
    }
    unsafe fn set_timeout(&self, s: P, ms: u32) {
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        let k = CString::new("timeout").unwrap();
        let k = Z3_mk_string_symbol(self.c, k.as_ptr());
        Z3_params_set_uint(self.c, p, k, ms);
        Z3_solver_set_params(self.c, s, p);
    }
    unsafe fn fsort(&self, w: u16) -> P {
        if w == 32 {
            self.fps[0]
        } else {
            self.fps[1]
        }
    }
    pub fn tr(&mut self, pool: &Pool, e: ExprId) -> P {
        if self.cache.len() < pool.nodes.len() {
            self.cache.resize(pool.nodes.len() + 1024, std::ptr::null_mut());
        }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if !self.cache[x as usize].is_null() {
                st.pop();
                continue;
            }
            let n = pool.nodes[x as usize];
            let kids: Vec<u32> = match n.op {
                Op::Const | Op::Var => vec![],
                Op::Ite => vec![n.a, n.b, n.c],
                Op::Extract | Op::ZExt | Op::SExt | Op::Select | Op::FIsNan | Op::SiToFp | Op::UiToFp | Op::FpToSi | Op::FpToUi | Op::FExt | Op::FTrunc | Op::FSqrt | Op::FRound => vec![n.a],
                Op::Uf => pool.ufs[n.a as usize].1.clone(),
                _ => vec![n.a, n.b],
            };
            let mut pending = false;
            for k in &kids {
                if self.cache[*k as usize].is_null() {
                    st.push(*k);
                    pending = true;
                }
            }
            if pending {
                continue;
            }
            st.pop();
            let r = unsafe { self.build(pool, n, &kids) };
            unsafe { Z3_inc_ref(self.c, r) };
            self.cache[x as usize] = r;
        }
        self.cache[e as usize]
    }
    /// child as a bit-vector (1-bit nodes are Bool in z3)
    unsafe fn bv(&self, pool: &Pool, e: ExprId) -> P {
        let a = self.cache[e as usize];
        if pool.w(e) == 1 {
            Z3_mk_ite(self.c, a, self.num(1, 1), self.num(1, 0))
        } else {
            a
        }
    }
    unsafe fn num(&self, w: u16, v: u128) -> P {
        let s = CString::new(v.to_string()).unwrap();
        let sort = Z3_mk_bv_sort(self.c, w as u32);
        Z3_mk_numeral(self.c, s.as_ptr(), sort)
    }
    unsafe fn from_bv1(&self, w: u16, a: P) -> P {
        if w == 1 {
            Z3_mk_eq(self.c, a, self.num(1, 1))
        } else {
            a
        }
    }
    unsafe fn table(&self, idx: P, iw: u16, vals: &[u64], lo: usize, hi: usize, ew: u16) -> P {
        // balanced decision tree over runs of equal values
        if vals[lo..hi].iter().all(|v| *v == vals[lo]) {
            return if ew == 1 {
                if vals[lo] == 1 {
                    Z3_mk_true(self.c)
                } else {
                    Z3_mk_false(self.c)
                }
            } else {
                self.num(ew, vals[lo] as u128)
            };
        }
        let mid = (lo + hi) / 2;
        let c = Z3_mk_bvult(self.c, idx, self.num(iw, mid as u128));
        let a = self.table(idx, iw, vals, lo, mid, ew);
        let b = self.table(idx, iw, vals, mid, hi, ew);
        Z3_mk_ite(self.c, c, a, b)
    }
    unsafe fn fp(&self, pool: &Pool, e: ExprId) -> P {
        let w = pool.w(e);
        Z3_mk_fpa_to_fp_bv(self.c, self.cache[e as usize], self.fsort(w))
    }
    unsafe fn build(&mut self, pool: &Pool, n: Node, kids: &[u32]) -> P {
        let c = self.c;
        let k = |i: usize| self.cache[kids[i] as usize];
        let w1 = kids.first().map_or(false, |k| pool.w(*k) == 1);
        match n.op {
            Op::Const => {
                let v = pool.consts[n.a as usize];
                if n.w == 1 {
                    if v == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                } else {
                    self.num(n.w, v)
                }
            }
            Op::Var => {
                let name = CString::new(format!("v{}", n.a)).unwrap();
                let s = Z3_mk_string_symbol(c, name.as_ptr());
                let sort = if n.w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, n.w as u32) };
                let v = Z3_mk_const(c, s, sort);
                if self.vars.len() <= n.a as usize {
                    self.vars.resize(n.a as usize + 1, std::ptr::null_mut());
                }
                self.vars[n.a as usize] = v;
                v
            }
            Op::Add => Z3_mk_bvadd(c, k(0), k(1)),
            Op::Sub => Z3_mk_bvsub(c, k(0), k(1)),
            Op::Mul => Z3_mk_bvmul(c, k(0), k(1)),
            Op::UDiv if !w1 => Z3_mk_bvudiv(c, k(0), k(1)),
            Op::SDiv if !w1 => Z3_mk_bvsdiv(c, k(0), k(1)),
            Op::URem if !w1 => Z3_mk_bvurem(c, k(0), k(1)),
            Op::SRem if !w1 => Z3_mk_bvsrem(c, k(0), k(1)),
            Op::And if w1 => Z3_mk_and(c, 2, [k(0), k(1)].as_ptr()),
            Op::Or if w1 => Z3_mk_or(c, 2, [k(0), k(1)].as_ptr()),
            Op::Xor if w1 => {
                if pool.as_const(kids[1]) == Some(1) {
                    Z3_mk_not(c, k(0))
                } else {
                    Z3_mk_xor(c, k(0), k(1))
                }
            }
            Op::And => Z3_mk_bvand(c, k(0), k(1)),
            Op::Or => Z3_mk_bvor(c, k(0), k(1)),
            Op::Xor => Z3_mk_bvxor(c, k(0), k(1)),
            Op::Shl if !w1 => Z3_mk_bvshl(c, k(0), k(1)),
            Op::LShr if !w1 => Z3_mk_bvlshr(c, k(0), k(1)),
            Op::AShr if !w1 => Z3_mk_bvashr(c, k(0), k(1)),
            Op::Eq => Z3_mk_eq(c, k(0), k(1)),
            Op::Ult => Z3_mk_bvult(c, self.bv(pool, kids[0]), self.bv(pool, kids[1])),
            Op::Ule => Z3_mk_bvule(c, self.bv(pool, kids[0]), self.bv(pool, kids[1])),
            Op::Slt => Z3_mk_bvslt(c, self.bv(pool, kids[0]), self.bv(pool, kids[1])),
            Op::Sle => Z3_mk_bvsle(c, self.bv(pool, kids[0]), self.bv(pool, kids[1])),
            Op::Ite => Z3_mk_ite(c, k(0), k(1), k(2)),
            Op::Concat => Z3_mk_concat(c, self.bv(pool, kids[0]), self.bv(pool, kids[1])),
            Op::Extract => {
                let a = self.bv(pool, kids[0]);
                let r = Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, a);
                self.from_bv1(n.w, r)
            }
            Op::ZExt => {
                if w1 {
                    Z3_mk_ite(c, k(0), self.num(n.w, 1), self.num(n.w, 0))
                } else {
                    Z3_mk_zero_ext(c, (n.w - pool.w(kids[0])) as u32, k(0))
                }
            }
            Op::SExt => {
                if w1 {
                    Z3_mk_ite(c, k(0), self.num(n.w, mask(n.w)), self.num(n.w, 0))
                } else {
                    Z3_mk_sign_ext(c, (n.w - pool.w(kids[0])) as u32, k(0))
                }
            }
            Op::Select => {
                let t = &pool.tables[n.b as usize];
                let iw = pool.w(kids[0]);
                let idx = self.bv(pool, kids[0]);
                let hi = if iw < 63 { t.vals.len().min(1usize << iw) } else { t.vals.len() };
                self.table(idx, iw, &t.vals, 0, hi, t.ew)
            }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                let (a, b) = (self.fp(pool, kids[0]), self.fp(pool, kids[1]));
                let rm = Z3_mk_fpa_rne(c);
                let r = match n.op {
                    Op::FAdd => Z3_mk_fpa_add(c, rm, a, b),
                    Op::FSub => Z3_mk_fpa_sub(c, rm, a, b),
                    Op::FMul => Z3_mk_fpa_mul(c, rm, a, b),
                    _ => Z3_mk_fpa_div(c, rm, a, b),
                };
                Z3_mk_fpa_to_ieee_bv(c, r)
            }
            Op::FLt => Z3_mk_fpa_lt(c, self.fp(pool, kids[0]), self.fp(pool, kids[1])),
            Op::FLe => Z3_mk_fpa_leq(c, self.fp(pool, kids[0]), self.fp(pool, kids[1])),
            Op::FEq => Z3_mk_fpa_eq(c, self.fp(pool, kids[0]), self.fp(pool, kids[1])),
            Op::FIsNan => Z3_mk_fpa_is_nan(c, self.fp(pool, kids[0])),
            Op::SiToFp => {
                let r = Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), self.bv(pool, kids[0]), self.fsort(n.w));
                Z3_mk_fpa_to_ieee_bv(c, r)
            }
            Op::UiToFp => {
                let r = Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), self.bv(pool, kids[0]), self.fsort(n.w));
                Z3_mk_fpa_to_ieee_bv(c, r)
            }
            Op::FpToSi | Op::FpToUi => {
                // saturating semantics (llvm.fpto*i.sat; plain casts are UB outside the range)
                let f = self.fp(pool, kids[0]);
                let w = n.w as u32;
                let aw = pool.w(kids[0]);
                let signed = n.op == Op::FpToSi;
                let conv = if signed { Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), f, w) } else { Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), f, w) };
                let (lo, hi): (f64, f64) = if signed { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)) } else { (0.0, 2f64.powi(w as i32)) };
                let fc = |x: f64| -> P {
                    let b = if aw == 32 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 };
                    Z3_mk_fpa_to_fp_bv(c, self.num(aw, b), self.fsort(aw))
                };
                let maxv = if signed { self.num(n.w, mask(n.w) >> 1) } else { self.num(n.w, mask(n.w)) };
                let minv = if signed { self.num(n.w, 1u128 << (w - 1)) } else { self.num(n.w, 0) };
                let lt = Z3_mk_fpa_lt(c, f, fc(lo));
                let ge = Z3_mk_fpa_leq(c, fc(hi), f);
                let nan = Z3_mk_fpa_is_nan(c, f);
                let r = Z3_mk_ite(c, lt, minv, conv);
                let r = Z3_mk_ite(c, ge, maxv, r);
                Z3_mk_ite(c, nan, self.num(n.w, 0), r)
            }
            Op::FExt | Op::FTrunc => {
                let r = Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), self.fp(pool, kids[0]), self.fsort(n.w));
                Z3_mk_fpa_to_ieee_bv(c, r)
            }
            Op::FSqrt => {
                let r = Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), self.fp(pool, kids[0]));
                Z3_mk_fpa_to_ieee_bv(c, r)
            }
            Op::FRound => {
                let rm = match n.c {
                    0 => Z3_mk_fpa_rtn(c),
                    1 => Z3_mk_fpa_rtp(c),
                    2 => Z3_mk_fpa_rtz(c),
                    3 => Z3_mk_fpa_rna(c),
                    _ => Z3_mk_fpa_rne(c),
                };
                let r = Z3_mk_fpa_round_to_integral(c, rm, self.fp(pool, kids[0]));
                Z3_mk_fpa_to_ieee_bv(c, r)
            }
            Op::FRem | Op::Uf => {
                let name = if n.op == Op::Uf { pool.ufs[n.a as usize].0.clone() } else { "frem".to_string() };
                let name = CString::new(format!("{}_{}", name, n.w)).unwrap();
                let s = Z3_mk_string_symbol(c, name.as_ptr());
                let dom: Vec<P> = kids.iter().map(|k| Z3_mk_bv_sort(c, pool.w(*k) as u32)).collect();
                let rs = Z3_mk_bv_sort(c, n.w as u32);
                let d = Z3_mk_func_decl(c, s, kids.len() as u32, dom.as_ptr(), rs);
                let args: Vec<P> = kids.iter().map(|k| self.bv(pool, *k)).collect();
                let r = Z3_mk_app(c, d, kids.len() as u32, args.as_ptr());
                self.from_bv1(n.w, r)
            }
            _ => panic!("z3 build {:?} w={}", n.op, n.w),
        }
    }
    /// check satisfiability of the conjunction; on sat returns values for `vars`
    pub fn check(&mut self, pool: &Pool, cs: &[ExprId], vars: &[u32]) -> (Res, Vec<u64>) {
        let t0 = Instant::now();
        let asts: Vec<P> = cs.iter().map(|c| self.tr(pool, *c)).collect();
        unsafe {
            let c = self.c;
            let mut s = self.s;
            Z3_solver_push(c, s);
            for a in &asts {
                Z3_solver_assert(c, s, *a);
            }
            let mut r = Z3_solver_check(c, s);
            let mut own = false;
            if r == 0 {
                // second attempt: bit-blasting solver with the full time limit
                Z3_solver_pop(c, s, 1);
                let lg = CString::new("QF_BVFP").unwrap();
                let lg = Z3_mk_string_symbol(c, lg.as_ptr());
                s = Z3_mk_solver_for_logic(c, lg);
                Z3_solver_inc_ref(c, s);
                self.set_timeout(s, self.timeout_ms.min(crate::time_left_ms()));
                for a in &asts {
                    Z3_solver_assert(c, s, *a);
                }
                r = Z3_solver_check(c, s);
                own = true;
            }
            let mut vals = vec![];
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    for v in vars {
                        let mut x = 0u64;
                        if (*v as usize) < self.vars.len() && !self.vars[*v as usize].is_null() {
                            let w = pool.vars[*v as usize].1;
                            let t = self.vars[*v as usize];
                            let t = if w == 1 { Z3_mk_ite(c, t, self.num(8, 1), self.num(8, 0)) } else { t };
                            Z3_inc_ref(c, t);
                            let mut out: P = std::ptr::null_mut();
                            if Z3_model_eval(c, m, t, true, &mut out) {
                                Z3_inc_ref(c, out);
                                Z3_get_numeral_uint64(c, out, &mut x);
                            }
                        }
                        vals.push(x);
                    }
                    Z3_model_dec_ref(c, m);
                    self.sat += 1;
                    Res::Sat
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            };
            if own {
                Z3_solver_dec_ref(c, s);
            } else {
                Z3_solver_pop(c, s, 1);
            }
            let dt = t0.elapsed().as_secs_f64();
            self.queries += 1;
            self.time += dt;
            if dt > self.max_time {
                self.max_time = dt;
            }
            (res, vals)
        }
    }
}
