//! Translation of terms to Z3 (C API) and satisfiability queries.
use crate::expr::{Ex, E, K};
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;

#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, f: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, r: P, a: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, r: P, a: P, n: c_uint) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, o: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(c: P, e: c_int) {
    let s = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error {e}: {}", s.to_string_lossy());
    std::process::abort();
}

pub struct Z {
    c: P,
    s: P,
    sf: P,
    bv: Vec<P>,
    bl: Vec<P>,
    vars: Vec<P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
    pub max_time: f64,
    pub dump: Option<String>,
    pub dumped: u32,
}

#[derive(Debug)]
pub enum R {
    Sat(Vec<u8>),
    Unsat,
    Unknown,
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() }
}

impl Z {
    pub fn new(rlimit: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let l = CString::new("QF_BV").unwrap();
            let sy = Z3_mk_string_symbol(c, l.as_ptr());
            let s = Z3_mk_solver_for_logic(c, sy);
            Z3_solver_inc_ref(c, s);
            let sf = Z3_mk_solver(c);
            Z3_solver_inc_ref(c, sf);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), rlimit);
            Z3_solver_set_params(c, s, p);
            Z3_solver_set_params(c, sf, p);
            Self {
                c,
                s,
                sf,
                bv: vec![],
                bl: vec![],
                vars: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                time: 0.0,
                max_time: 0.0,
                dump: None,
                dumped: 0,
            }
        }
    }
    fn var(&mut self, i: usize) -> P {
        while self.vars.len() <= i {
            let n = CString::new(format!("v{}", self.vars.len())).unwrap();
            unsafe {
                let s = Z3_mk_string_symbol(self.c, n.as_ptr());
                let t = Z3_mk_bv_sort(self.c, 8);
                self.vars.push(Z3_mk_const(self.c, s, t));
            }
        }
        self.vars[i]
    }
    fn fp(&mut self, ex: &Ex, e: E) -> P {
        let b = self.bv(ex, e);
        unsafe {
            let s = if ex.w(e) == 64 {
                Z3_mk_fpa_sort_double(self.c)
            } else {
                Z3_mk_fpa_sort_single(self.c)
            };
            Z3_mk_fpa_to_fp_bv(self.c, b, s)
        }
    }
    pub fn bv(&mut self, ex: &Ex, e: E) -> P {
        if self.bv.len() <= e as usize {
            self.bv.resize(ex.n.len().max(e as usize + 1), std::ptr::null_mut());
        }
        let r = self.bv[e as usize];
        if !r.is_null() {
            return r;
        }
        let nd = ex.node(e);
        let c = self.c;
        let r = unsafe {
            match nd.k {
                K::Const => {
                    let t = Z3_mk_bv_sort(c, c_uint::from(nd.w));
                    if nd.w <= 64 {
                        Z3_mk_unsigned_int64(c, nd.imm as u64, t)
                    } else {
                        let s = CString::new(nd.imm.to_string()).unwrap();
                        Z3_mk_numeral(c, s.as_ptr(), t)
                    }
                }
                K::Var => self.var(nd.imm as usize),
                K::Eq | K::Ult | K::Ule | K::Slt | K::Sle | K::FOeq | K::FOlt | K::FOle | K::FUno => {
                    self.b2v(ex, e)
                }
                K::And | K::Or | K::Xor if nd.w == 1 => self.b2v(ex, e),
                K::Ite => {
                    let x = self.bl(ex, nd.a);
                    let y = self.bv(ex, nd.b);
                    let z = self.bv(ex, nd.c);
                    Z3_mk_ite(c, x, y, z)
                }
                K::Extract => {
                    let x = self.bv(ex, nd.a);
                    let lo = nd.imm as c_uint;
                    Z3_mk_extract(c, lo + c_uint::from(nd.w) - 1, lo, x)
                }
                K::ZExt => {
                    let x = self.bv(ex, nd.a);
                    Z3_mk_zero_ext(c, c_uint::from(nd.w) - ex.w(nd.a), x)
                }
                K::SExt => {
                    let x = self.bv(ex, nd.a);
                    Z3_mk_sign_ext(c, c_uint::from(nd.w) - ex.w(nd.a), x)
                }
                K::FAdd | K::FSub | K::FMul | K::FDiv => {
                    let x = self.fp(ex, nd.a);
                    let y = self.fp(ex, nd.b);
                    let r = Z3_mk_fpa_rne(c);
                    let f = match nd.k {
                        K::FAdd => Z3_mk_fpa_add(c, r, x, y),
                        K::FSub => Z3_mk_fpa_sub(c, r, x, y),
                        K::FMul => Z3_mk_fpa_mul(c, r, x, y),
                        _ => Z3_mk_fpa_div(c, r, x, y),
                    };
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                K::FSqrt => {
                    let x = self.fp(ex, nd.a);
                    Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), x))
                }
                K::FFloor | K::FCeil | K::FTrunc | K::FRound => {
                    let x = self.fp(ex, nd.a);
                    let r = match nd.k {
                        K::FFloor => Z3_mk_fpa_rtn(c),
                        K::FCeil => Z3_mk_fpa_rtp(c),
                        K::FTrunc => Z3_mk_fpa_rtz(c),
                        _ => Z3_mk_fpa_rna(c),
                    };
                    Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, r, x))
                }
                K::SiToF | K::UiToF => {
                    let x = self.bv(ex, nd.a);
                    let s = if nd.w == 64 { Z3_mk_fpa_sort_double(c) } else { Z3_mk_fpa_sort_single(c) };
                    let r = Z3_mk_fpa_rne(c);
                    let f = if nd.k == K::SiToF {
                        Z3_mk_fpa_to_fp_signed(c, r, x, s)
                    } else {
                        Z3_mk_fpa_to_fp_unsigned(c, r, x, s)
                    };
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                K::FToSi => {
                    let x = self.fp(ex, nd.a);
                    Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), x, c_uint::from(nd.w))
                }
                K::FToUi => {
                    let x = self.fp(ex, nd.a);
                    Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), x, c_uint::from(nd.w))
                }
                K::FExt | K::FNarrow => {
                    let x = self.fp(ex, nd.a);
                    let s = if nd.w == 64 { Z3_mk_fpa_sort_double(c) } else { Z3_mk_fpa_sort_single(c) };
                    Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), x, s))
                }
                K::FRem => {
                    eprintln!("z3: frem is not encoded");
                    std::process::abort();
                }
                _ => {
                    let x = self.bv(ex, nd.a);
                    let y = self.bv(ex, nd.b);
                    match nd.k {
                        K::Add => Z3_mk_bvadd(c, x, y),
                        K::Sub => Z3_mk_bvsub(c, x, y),
                        K::Mul => Z3_mk_bvmul(c, x, y),
                        K::UDiv => Z3_mk_bvudiv(c, x, y),
                        K::SDiv => Z3_mk_bvsdiv(c, x, y),
                        K::URem => Z3_mk_bvurem(c, x, y),
                        K::SRem => Z3_mk_bvsrem(c, x, y),
                        K::And => Z3_mk_bvand(c, x, y),
                        K::Or => Z3_mk_bvor(c, x, y),
                        K::Xor => Z3_mk_bvxor(c, x, y),
                        K::Shl => Z3_mk_bvshl(c, x, y),
                        K::LShr => Z3_mk_bvlshr(c, x, y),
                        K::AShr => Z3_mk_bvashr(c, x, y),
                        K::Concat => Z3_mk_concat(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.bv[e as usize] = r;
        r
    }
    fn b2v(&mut self, ex: &Ex, e: E) -> P {
        let b = self.bl(ex, e);
        unsafe {
            let t = Z3_mk_bv_sort(self.c, 1);
            let one = Z3_mk_unsigned_int64(self.c, 1, t);
            let zero = Z3_mk_unsigned_int64(self.c, 0, t);
            Z3_mk_ite(self.c, b, one, zero)
        }
    }
    pub fn bl(&mut self, ex: &Ex, e: E) -> P {
        if self.bl.len() <= e as usize {
            self.bl.resize(ex.n.len().max(e as usize + 1), std::ptr::null_mut());
        }
        let r = self.bl[e as usize];
        if !r.is_null() {
            return r;
        }
        let nd = ex.node(e);
        let c = self.c;
        let r = unsafe {
            match nd.k {
                K::Const => {
                    if nd.imm != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                K::And | K::Or => {
                    let a = [self.bl(ex, nd.a), self.bl(ex, nd.b)];
                    if nd.k == K::And {
                        Z3_mk_and(c, 2, a.as_ptr())
                    } else {
                        Z3_mk_or(c, 2, a.as_ptr())
                    }
                }
                K::Xor => {
                    if ex.is_const(nd.b) == Some(1) {
                        Z3_mk_not(c, self.bl(ex, nd.a))
                    } else {
                        let x = self.bl(ex, nd.a);
                        let y = self.bl(ex, nd.b);
                        Z3_mk_xor(c, x, y)
                    }
                }
                K::Ite => {
                    let x = self.bl(ex, nd.a);
                    let y = self.bl(ex, nd.b);
                    let z = self.bl(ex, nd.c);
                    Z3_mk_ite(c, x, y, z)
                }
                K::Eq if ex.w(nd.a) == 1 => {
                    let x = self.bl(ex, nd.a);
                    let y = self.bl(ex, nd.b);
                    Z3_mk_eq(c, x, y)
                }
                K::Eq | K::Ult | K::Ule | K::Slt | K::Sle => {
                    let x = self.bv(ex, nd.a);
                    let y = self.bv(ex, nd.b);
                    match nd.k {
                        K::Eq => Z3_mk_eq(c, x, y),
                        K::Ult => Z3_mk_bvult(c, x, y),
                        K::Ule => Z3_mk_bvule(c, x, y),
                        K::Slt => Z3_mk_bvslt(c, x, y),
                        _ => Z3_mk_bvsle(c, x, y),
                    }
                }
                K::FOeq | K::FOlt | K::FOle | K::FUno => {
                    let x = self.fp(ex, nd.a);
                    let y = self.fp(ex, nd.b);
                    match nd.k {
                        K::FOeq => Z3_mk_fpa_eq(c, x, y),
                        K::FOlt => Z3_mk_fpa_lt(c, x, y),
                        K::FOle => Z3_mk_fpa_leq(c, x, y),
                        _ => {
                            let a = [Z3_mk_fpa_is_nan(c, x), Z3_mk_fpa_is_nan(c, y)];
                            Z3_mk_or(c, 2, a.as_ptr())
                        }
                    }
                }
                _ => {
                    let x = self.bv(ex, e);
                    let t = Z3_mk_bv_sort(c, 1);
                    let one = Z3_mk_unsigned_int64(c, 1, t);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        self.bl[e as usize] = r;
        r
    }
    /// is the conjunction satisfiable?  `base` supplies values for variables outside the query
    pub fn check(&mut self, ex: &Ex, cs: &[E], base: &[u8], vars: u128, fp: bool) -> R {
        let t0 = Instant::now();
        self.queries += 1;
        let s = if fp { self.sf } else { self.s };
        let r = unsafe {
            Z3_solver_push(self.c, s);
            for e in cs {
                let a = self.bl(ex, *e);
                Z3_solver_assert(self.c, s, a);
            }
            let ck = Z3_solver_check(self.c, s);
            if let Some(d) = &self.dump {
                if self.dumped < 40 && self.queries % 97 == 1 && ck != 0 {
                    let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().to_string();
                    let f = format!("{d}/q{}_{}_{}.smt2", std::process::id(), self.queries, if ck == 1 { "sat" } else { "unsat" });
                    let _ = std::fs::write(f, format!("(set-logic ALL)\n{t}(check-sat)\n"));
                    self.dumped += 1;
                }
            }
            let r = match ck {
                1 => {
                    let mut m = base.to_vec();
                    let md = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, md);
                    let mut v = vars;
                    while v != 0 {
                        let i = v.trailing_zeros() as usize;
                        v &= v - 1;
                        let x = self.var(i);
                        let mut o: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, md, x, true, &mut o) {
                            let mut n = 0u64;
                            if Z3_get_numeral_uint64(self.c, o, &mut n) {
                                while m.len() <= i {
                                    m.push(0);
                                }
                                m[i] = n as u8;
                            }
                        }
                    }
                    Z3_model_dec_ref(self.c, md);
                    self.sat += 1;
                    R::Sat(m)
                }
                -1 => {
                    self.unsat += 1;
                    R::Unsat
                }
                _ => R::Unknown,
            };
            Z3_solver_pop(self.c, s, 1);
            r
        };
        let t = t0.elapsed().as_secs_f64();
        self.time += t;
        if t > self.max_time {
            self.max_time = t;
        }
        r
    }
}
