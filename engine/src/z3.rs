//! Minimal FFI to z3 and translation of expressions to z3 terms.
#![allow(non_camel_case_types)]

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type Ptr = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> Ptr;
    fn Z3_del_config(c: Ptr);
    fn Z3_set_param_value(c: Ptr, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: Ptr) -> Ptr;
    fn Z3_del_context(c: Ptr);
    fn Z3_mk_bv_sort(c: Ptr, n: c_uint) -> Ptr;
    fn Z3_mk_string_symbol(c: Ptr, s: *const c_char) -> Ptr;
    fn Z3_mk_const(c: Ptr, s: Ptr, t: Ptr) -> Ptr;
    fn Z3_mk_unsigned_int64(c: Ptr, v: u64, t: Ptr) -> Ptr;
    fn Z3_mk_true(c: Ptr) -> Ptr;
    fn Z3_mk_false(c: Ptr) -> Ptr;
    fn Z3_mk_eq(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_not(c: Ptr, a: Ptr) -> Ptr;
    fn Z3_mk_ite(c: Ptr, a: Ptr, b: Ptr, d: Ptr) -> Ptr;
    fn Z3_mk_and(c: Ptr, n: c_uint, a: *const Ptr) -> Ptr;
    fn Z3_mk_or(c: Ptr, n: c_uint, a: *const Ptr) -> Ptr;
    fn Z3_mk_xor(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvadd(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvsub(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvmul(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvudiv(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvurem(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvsdiv(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvsrem(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvand(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvor(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvxor(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvshl(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvlshr(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvashr(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvult(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvule(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvslt(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_concat(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_extract(c: Ptr, hi: c_uint, lo: c_uint, a: Ptr) -> Ptr;
    fn Z3_mk_zero_ext(c: Ptr, n: c_uint, a: Ptr) -> Ptr;
    fn Z3_mk_sign_ext(c: Ptr, n: c_uint, a: Ptr) -> Ptr;
    fn Z3_mk_simple_solver(c: Ptr) -> Ptr;
    fn Z3_mk_solver_for_logic(c: Ptr, s: Ptr) -> Ptr;
    fn Z3_solver_inc_ref(c: Ptr, s: Ptr);
    fn Z3_solver_assert(c: Ptr, s: Ptr, a: Ptr);
    fn Z3_solver_reset(c: Ptr, s: Ptr);
    fn Z3_solver_push(c: Ptr, s: Ptr);
    fn Z3_solver_pop(c: Ptr, s: Ptr, n: c_uint);
    fn Z3_solver_check(c: Ptr, s: Ptr) -> c_int;
    fn Z3_solver_get_model(c: Ptr, s: Ptr) -> Ptr;
    fn Z3_model_inc_ref(c: Ptr, m: Ptr);
    fn Z3_model_dec_ref(c: Ptr, m: Ptr);
    fn Z3_model_eval(c: Ptr, m: Ptr, t: Ptr, compl: bool, out: *mut Ptr) -> bool;
    fn Z3_get_numeral_uint64(c: Ptr, a: Ptr, out: *mut u64) -> bool;
    fn Z3_mk_params(c: Ptr) -> Ptr;
    fn Z3_params_inc_ref(c: Ptr, p: Ptr);
    fn Z3_params_set_uint(c: Ptr, p: Ptr, k: Ptr, v: c_uint);
    fn Z3_solver_set_params(c: Ptr, s: Ptr, p: Ptr);
    fn Z3_get_error_code(c: Ptr) -> c_int;
    fn Z3_set_error_handler(c: Ptr, h: Option<extern "C" fn(Ptr, c_int)>);
    fn Z3_inc_ref(c: Ptr, a: Ptr);
}

pub enum Sat {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    ctx: Ptr,
    solver: Ptr,
    memo: HashMap<E, Ptr, BuildFx>,
    vars: HashMap<u32, Ptr>,
    pub queries: u64,
    pub time: std::time::Duration,
    pub unknowns: u64,
    pub rlimit: u32,
}

extern "C" fn on_err(_c: Ptr, e: c_int) {
    eprintln!("z3 error code {}", e);
    std::process::exit(3);
}

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let mut z = Z3 {
                ctx,
                solver: std::ptr::null_mut(),
                memo: HashMap::default(),
                vars: HashMap::new(),
                queries: 0,
                time: std::time::Duration::ZERO,
                unknowns: 0,
                rlimit: 40_000_000,
            };
            z.mk_solver();
            z
        }
    }
    unsafe fn mk_solver(&mut self) {
        let s = CString::new("QF_BV").unwrap();
        let sym = Z3_mk_string_symbol(self.ctx, s.as_ptr());
        self.solver = Z3_mk_solver_for_logic(self.ctx, sym);
        Z3_solver_inc_ref(self.ctx, self.solver);
        let p = Z3_mk_params(self.ctx);
        Z3_params_inc_ref(self.ctx, p);
        let k = CString::new("rlimit").unwrap();
        let k = Z3_mk_string_symbol(self.ctx, k.as_ptr());
        Z3_params_set_uint(self.ctx, p, k, self.rlimit);
        Z3_solver_set_params(self.ctx, self.solver, p);
    }
    /// Throw away all terms (memory).
    pub fn renew(&mut self) {
        unsafe {
            Z3_del_context(self.ctx);
            let (q, t, u) = (self.queries, self.time, self.unknowns);
            *self = Z3::new();
            self.queries = q;
            self.time = t;
            self.unknowns = u;
        }
    }
    fn var(&mut self, v: u32) -> Ptr {
        if let Some(x) = self.vars.get(&v) {
            return *x;
        }
        unsafe {
            let s = CString::new(format!("v{}", v)).unwrap();
            let sym = Z3_mk_string_symbol(self.ctx, s.as_ptr());
            let t = Z3_mk_const(self.ctx, sym, Z3_mk_bv_sort(self.ctx, 8));
            self.vars.insert(v, t);
            t
        }
    }
    unsafe fn num(&self, v: u64, w: u32) -> Ptr {
        Z3_mk_unsigned_int64(self.ctx, v, Z3_mk_bv_sort(self.ctx, w))
    }
    /// As a bit-vector even when it is Boolean.
    fn bv(&mut self, e: E) -> Ptr {
        let t = self.tr(e);
        if ex().w(e) == 1 {
            unsafe { Z3_mk_ite(self.ctx, t, self.num(1, 1), self.num(0, 1)) }
        } else {
            t
        }
    }
    unsafe fn from_bv(&self, t: Ptr, w: u32) -> Ptr {
        if w == 1 {
            Z3_mk_eq(self.ctx, t, self.num(1, 1))
        } else {
            t
        }
    }
    pub fn tr(&mut self, e: E) -> Ptr {
        if let Some(x) = self.memo.get(&e) {
            return *x;
        }
        let n = ex().nodes[e as usize];
        let w = n.w as u32;
        let c = self.ctx;
        let r = unsafe {
            match n.k {
                K::Const => {
                    let v = n.b as u64 | (n.c as u64) << 32;
                    if w == 1 {
                        if v != 0 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        self.num(v, w)
                    }
                }
                K::ConstW => {
                    let v = ex().wide[n.a as usize];
                    let hi = self.num((v >> 64) as u64, w - 64);
                    let lo = self.num(v as u64, 64);
                    Z3_mk_concat(c, hi, lo)
                }
                K::Var => self.var(n.a),
                K::Lut => {
                    let t = ex().luts[n.b as usize].clone();
                    let v = self.var(n.a);
                    // runs of constant or slope-one values
                    let mut segs: Vec<(usize, bool)> = vec![];
                    let mut i = 0;
                    while i < 256 {
                        let mut j = i + 1;
                        while j < 256 && t[j] == t[i] {
                            j += 1;
                        }
                        let mut k = i + 1;
                        while k < 256 && w >= 8 && t[k] == t[i].wrapping_add((k - i) as u64) {
                            k += 1;
                        }
                        if k > j {
                            segs.push((i, true));
                            i = k;
                        } else {
                            segs.push((i, false));
                            i = j;
                        }
                    }
                    let mut acc: Option<Ptr> = None;
                    for s in 0..segs.len() {
                        let (st, slope) = segs[s];
                        let val = if slope {
                            let vw = if w > 8 { Z3_mk_zero_ext(c, w - 8, v) } else { v };
                            Z3_mk_bvadd(c, vw, self.num(mask(t[st].wrapping_sub(st as u64), w), w))
                        } else {
                            self.num(t[st], w)
                        };
                        acc = Some(match acc {
                            None => val,
                            Some(a) => {
                                let cond = Z3_mk_bvule(c, self.num(st as u64, 8), v);
                                Z3_mk_ite(c, cond, val, a)
                            }
                        });
                    }
                    let r = acc.unwrap();
                    self.from_bv(r, w)
                }
                K::Eq => {
                    let a = self.tr(n.a);
                    let b = self.tr(n.b);
                    Z3_mk_eq(c, a, b)
                }
                K::Ult => {
                    let a = self.bv(n.a);
                    let b = self.bv(n.b);
                    Z3_mk_bvult(c, a, b)
                }
                K::Slt => {
                    let a = self.bv(n.a);
                    let b = self.bv(n.b);
                    Z3_mk_bvslt(c, a, b)
                }
                K::Ite => {
                    let a = self.tr(n.a);
                    let b = self.tr(n.b);
                    let d = self.tr(n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                K::Concat => {
                    let a = self.bv(n.a);
                    let b = self.bv(n.b);
                    Z3_mk_concat(c, a, b)
                }
                K::Extract => {
                    let a = self.bv(n.a);
                    let r = Z3_mk_extract(c, n.b + w - 1, n.b, a);
                    self.from_bv(r, w)
                }
                K::ZExt => {
                    let iw = ex().w(n.a);
                    let a = self.bv(n.a);
                    Z3_mk_zero_ext(c, w - iw, a)
                }
                K::SExt => {
                    let iw = ex().w(n.a);
                    let a = self.bv(n.a);
                    Z3_mk_sign_ext(c, w - iw, a)
                }
                k if w == 1 => {
                    match k {
                        K::And => {
                            let v = [self.tr(n.a), self.tr(n.b)];
                            Z3_mk_and(c, 2, v.as_ptr())
                        }
                        K::Or => {
                            let v = [self.tr(n.a), self.tr(n.b)];
                            Z3_mk_or(c, 2, v.as_ptr())
                        }
                        K::Xor => {
                            if ex().cval(n.b) == Some(1) {
                                let a = self.tr(n.a);
                                Z3_mk_not(c, a)
                            } else {
                                let a = self.tr(n.a);
                                let b = self.tr(n.b);
                                Z3_mk_xor(c, a, b)
                            }
                        }
                        k => {
                            let a = self.bv(n.a);
                            let b = self.bv(n.b);
                            let r = self.arith(k, a, b);
                            self.from_bv(r, 1)
                        }
                    }
                }
                k => {
                    let a = self.tr(n.a);
                    let b = self.tr(n.b);
                    self.arith(k, a, b)
                }
            }
        };
        self.memo.insert(e, r);
        r
    }
    unsafe fn arith(&self, k: K, a: Ptr, b: Ptr) -> Ptr {
        let c = self.ctx;
        match k {
            K::Add => Z3_mk_bvadd(c, a, b),
            K::Sub => Z3_mk_bvsub(c, a, b),
            K::Mul => Z3_mk_bvmul(c, a, b),
            K::UDiv => Z3_mk_bvudiv(c, a, b),
            K::URem => Z3_mk_bvurem(c, a, b),
            K::SDiv => Z3_mk_bvsdiv(c, a, b),
            K::SRem => Z3_mk_bvsrem(c, a, b),
            K::And => Z3_mk_bvand(c, a, b),
            K::Or => Z3_mk_bvor(c, a, b),
            K::Xor => Z3_mk_bvxor(c, a, b),
            K::Shl => Z3_mk_bvshl(c, a, b),
            K::LShr => Z3_mk_bvlshr(c, a, b),
            K::AShr => Z3_mk_bvashr(c, a, b),
            _ => unreachable!(),
        }
    }
    /// Check the conjunction of `cs`; the model covers `vars`.
    pub fn check(&mut self, cs: &[E], vars: &[u32]) -> Sat {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        if self.memo.len() > 400_000 {
            self.renew();
        }
        let r = unsafe {
            let c = self.ctx;
            Z3_solver_reset(c, self.solver);
            for e in cs {
                let t = self.tr(*e);
                Z3_solver_assert(c, self.solver, t);
            }
            match Z3_solver_check(c, self.solver) {
                1 => {
                    let m = Z3_solver_get_model(c, self.solver);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for v in vars {
                        let t = self.var(*v);
                        let mut o: Ptr = std::ptr::null_mut();
                        let mut val = 0u64;
                        if Z3_model_eval(c, m, t, true, &mut o) && Z3_get_numeral_uint64(c, o, &mut val) {
                            out.push((*v, val as u8));
                        } else {
                            out.push((*v, 0));
                        }
                    }
                    Z3_model_dec_ref(c, m);
                    Sat::Sat(out)
                }
                -1 => Sat::Unsat,
                _ => {
                    self.unknowns += 1;
                    Sat::Unknown
                }
            }
        };
        self.time += t0.elapsed();
        r
    }
}
