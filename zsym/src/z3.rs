//! Minimal FFI to libz3 and the query layer (independent slicing + caching).
use crate::expr::*;
use crate::hash::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_mk_solver_for_logic(c: P, logic: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_fresh_const(c: P, prefix: *const c_char, ty: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("zsym: z3 error code {}", e);
    std::process::exit(70);
}

#[derive(Clone)]
pub enum Res {
    Sat(Rc<Vec<(u32, u128)>>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    s2: P,
    s3: P,
    intsort: P,
    memo: FxMap<E, P>,
    imemo: FxMap<E, Option<(P, Rc<Vec<P>>)>>,
    pub int_decided: u64,
    pub cross_checked: u64,
    pub cross_time: f64,
    pub lin_cross_time: f64,
    pub cross_base: f64,
    tick: u64,
    bvs: FxMap<u32, P>,
    boolsort: P,
    cache: FxMap<Vec<E>, Res>,
    tables: FxMap<E, Rc<Vec<u64>>>,
    pub slow: f64,
    pub table_decided: u64,
    pub queries: u64,
    pub cache_hits: u64,
    pub time: f64,
    pub max_time: f64,
    pub unknowns: u64,
    pub timeout_ms: u32,
    pub sat: u64,
    pub unsat: u64,
    pub last_models: Vec<Rc<Vec<(u32, u128)>>>,
}

impl Solver {
    pub fn version() -> String {
        let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
        unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
        format!("{}.{}.{}", a, b, c)
    }
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, on_err);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let l = CString::new("QF_BV").unwrap();
            let s2 = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s2);
            let s3 = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s3);
            let mut me = Solver {
                c,
                s,
                s2,
                s3,
                intsort: Z3_mk_int_sort(c),
                imemo: Default::default(),
                int_decided: 0,
                cross_checked: 0,
                cross_time: 0.0,
                lin_cross_time: 0.0,
                cross_base: 0.0,
                tick: 0,
                memo: Default::default(),
                bvs: Default::default(),
                boolsort: Z3_mk_bool_sort(c),
                cache: Default::default(),
                tables: Default::default(),
                table_decided: 0,
                slow: std::env::var("ZSYM_SLOW").ok().and_then(|s| s.parse().ok()).unwrap_or(1e9),
                queries: 0,
                cache_hits: 0,
                time: 0.0,
                max_time: 0.0,
                unknowns: 0,
                timeout_ms,
                sat: 0,
                unsat: 0,
                last_models: vec![],
            };
            me.set_timeout(s, 1000.min(timeout_ms));
            me.set_timeout(s2, timeout_ms);
            me.set_timeout(s3, 3000.min(timeout_ms));
            me
        }
    }
    pub fn reset_stats(&mut self) {
        (self.int_decided, self.cross_checked, self.table_decided, self.queries, self.cache_hits) = (0, 0, 0, 0, 0);
        (self.unknowns, self.sat, self.unsat) = (0, 0, 0);
        (self.time, self.max_time) = (0.0, 0.0);
        // what was spent on rechecks counts as spent for the new process
        self.lin_cross_time = self.lin_cross_time.max(1.1);
        self.cross_base = self.cross_time + self.lin_cross_time;
    }
    unsafe fn set_timeout(&mut self, s: P, ms: u32) {
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        let k = CString::new("timeout").unwrap();
        Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), ms);
        Z3_solver_set_params(self.c, s, p);
    }
    fn sort(&mut self, w: u32) -> P {
        let c = self.c;
        *self.bvs.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w) })
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        let s = self.sort(w);
        let t = CString::new(v.to_string()).unwrap();
        unsafe { Z3_mk_numeral(self.c, t.as_ptr(), s) }
    }
    /// bool for width 1, bv otherwise
    fn tr(&mut self, e: E) -> P {
        if let Some(&p) = self.memo.get(&e) {
            return p;
        }
        let x = cx();
        let (n, w) = x.nodes[e as usize];
        let w = w as u32;
        let c = self.c;
        let r = unsafe {
            match n {
                Node::Const(v) => {
                    if w == 1 {
                        if v != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) }
                    } else {
                        self.num(v, w)
                    }
                }
                Node::Var(i) => {
                    let s = if w == 1 { self.boolsort } else { self.sort(w) };
                    Z3_mk_const(c, Z3_mk_int_symbol(c, i as c_int), s)
                }
                Node::Not(a) => {
                    let p = self.tr(a);
                    Z3_mk_not(c, p)
                }
                Node::Ite(q, a, b) => {
                    let (q, a, b) = (self.tr(q), self.tr(a), self.tr(b));
                    Z3_mk_ite(c, q, a, b)
                }
                Node::Extract(a, lo) => {
                    let p = self.bv(a);
                    let r = Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, p);
                    if w == 1 {
                        let one = self.num(1, 1);
                        Z3_mk_eq(c, r, one)
                    } else {
                        r
                    }
                }
                Node::ZExt(a) => {
                    let aw = x.w(a);
                    let p = self.bv(a);
                    Z3_mk_zero_ext(c, w - aw, p)
                }
                Node::SExt(a) => {
                    let aw = x.w(a);
                    let p = self.bv(a);
                    Z3_mk_sign_ext(c, w - aw, p)
                }
                Node::LinTab(t, a) => {
                    let p = self.bv(a);
                    let nb = x.lin_tables[t as usize].idx_bits;
                    let mut r = self.num(0, w);
                    let one = self.num(1, 1);
                    for i in 0..nb {
                        let bit = Z3_mk_eq(c, Z3_mk_extract(c, i, i, p), one);
                        let k = x.lin_tables[t as usize].basis[i as usize];
                        let k = self.num(k, w);
                        let z = self.num(0, w);
                        r = Z3_mk_bvxor(c, r, Z3_mk_ite(c, bit, k, z));
                    }
                    r
                }
                Node::Bin(op, a, b) => {
                    let aw = x.w(a);
                    if aw == 1 && op != Op::Concat {
                        let (p, q) = (self.tr(a), self.tr(b));
                        match op {
                            Op::And => Z3_mk_and(c, 2, [p, q].as_ptr()),
                            Op::Or => Z3_mk_or(c, 2, [p, q].as_ptr()),
                            Op::Xor | Op::Add | Op::Sub => Z3_mk_xor(c, p, q),
                            Op::Eq => Z3_mk_eq(c, p, q),
                            Op::Mul => Z3_mk_and(c, 2, [p, q].as_ptr()),
                            _ => {
                                let (p, q) = (self.bv(a), self.bv(b));
                                match op {
                                    Op::Slt => Z3_mk_bvslt(c, p, q),
                                    Op::Sle => Z3_mk_bvsle(c, p, q),
                                    Op::Ult => Z3_mk_bvult(c, p, q),
                                    Op::Ule => Z3_mk_bvule(c, p, q),
                                    _ => {
                                        let r = match op {
                                            Op::UDiv => Z3_mk_bvudiv(c, p, q),
                                            Op::URem => Z3_mk_bvurem(c, p, q),
                                            Op::SDiv => Z3_mk_bvsdiv(c, p, q),
                                            Op::SRem => Z3_mk_bvsrem(c, p, q),
                                            Op::Shl => Z3_mk_bvshl(c, p, q),
                                            Op::LShr => Z3_mk_bvlshr(c, p, q),
                                            Op::AShr => Z3_mk_bvashr(c, p, q),
                                            _ => unreachable!(),
                                        };
                                        let one = self.num(1, 1);
                                        Z3_mk_eq(c, r, one)
                                    }
                                }
                            }
                        }
                    } else {
                        let (p, q) = (self.bv(a), self.bv(b));
                        match op {
                            Op::Add => Z3_mk_bvadd(c, p, q),
                            Op::Sub => Z3_mk_bvsub(c, p, q),
                            Op::Mul => Z3_mk_bvmul(c, p, q),
                            Op::UDiv => Z3_mk_bvudiv(c, p, q),
                            Op::URem => Z3_mk_bvurem(c, p, q),
                            Op::SDiv => Z3_mk_bvsdiv(c, p, q),
                            Op::SRem => Z3_mk_bvsrem(c, p, q),
                            Op::And => Z3_mk_bvand(c, p, q),
                            Op::Or => Z3_mk_bvor(c, p, q),
                            Op::Xor => Z3_mk_bvxor(c, p, q),
                            Op::Shl => Z3_mk_bvshl(c, p, q),
                            Op::LShr => Z3_mk_bvlshr(c, p, q),
                            Op::AShr => Z3_mk_bvashr(c, p, q),
                            Op::Eq => Z3_mk_eq(c, p, q),
                            Op::Ult => Z3_mk_bvult(c, p, q),
                            Op::Ule => Z3_mk_bvule(c, p, q),
                            Op::Slt => Z3_mk_bvslt(c, p, q),
                            Op::Sle => Z3_mk_bvsle(c, p, q),
                            Op::Concat => Z3_mk_concat(c, p, q),
                        }
                    }
                }
            }
        };
        self.memo.insert(e, r);
        r
    }
    fn bv(&mut self, e: E) -> P {
        let w = cx().w(e);
        let p = self.tr(e);
        if w == 1 {
            let (o, z) = (self.num(1, 1), self.num(0, 1));
            unsafe { Z3_mk_ite(self.c, p, o, z) }
        } else {
            p
        }
    }

    fn int(&mut self, v: i128) -> P {
        let t = CString::new(v.to_string()).unwrap();
        unsafe { Z3_mk_numeral(self.c, t.as_ptr(), self.intsort) }
    }
    fn pow2(&mut self, n: u32) -> P {
        if n < 127 {
            return self.int(1i128 << n);
        }
        let t = CString::new(if n == 127 { "170141183460469231731687303715884105728" } else { "340282366920938463463374607431768211456" }).unwrap();
        assert!(n <= 128);
        unsafe { Z3_mk_numeral(self.c, t.as_ptr(), self.intsort) }
    }
    /// fresh integer in lo..=hi
    fn fresh(&mut self, lo: P, hi: P, side: &mut Vec<P>) -> P {
        unsafe {
            let v = Z3_mk_fresh_const(self.c, c"k".as_ptr(), self.intsort);
            side.push(Z3_mk_le(self.c, lo, v));
            side.push(Z3_mk_le(self.c, v, hi));
            v
        }
    }
    /// Exact linear integer encoding (bool for width 1, otherwise 0 <= t < 2^w), with side conditions
    /// that define the auxiliary integers; None if the expression is not (cheaply) linear.
    fn itr(&mut self, e: E) -> Option<(P, Rc<Vec<P>>)> {
        if let Some(r) = self.imemo.get(&e) {
            return r.clone();
        }
        let mut side = vec![];
        let r = self.itr0(e, &mut side).map(|p| {
            side.sort();
            side.dedup();
            (p, Rc::new(side))
        });
        self.imemo.insert(e, r.clone());
        r
    }
    fn isub(&mut self, e: E, side: &mut Vec<P>) -> Option<P> {
        let (p, s) = self.itr(e)?;
        side.extend(s.iter());
        if cx().w(e) == 1 {
            return None;
        }
        Some(p)
    }
    fn ibool(&mut self, e: E, side: &mut Vec<P>) -> Option<P> {
        let (p, s) = self.itr(e)?;
        side.extend(s.iter());
        Some(p)
    }
    fn signed(&mut self, p: P, w: u32) -> P {
        let (h, f) = (self.pow2(w - 1), self.pow2(w));
        unsafe {
            let n = Z3_mk_sub(self.c, 2, [p, f].as_ptr());
            Z3_mk_ite(self.c, Z3_mk_lt(self.c, p, h), p, n)
        }
    }
    /// p as quotient and remainder by n
    fn divmod(&mut self, p: P, n: u128, w: u32, side: &mut Vec<P>) -> (P, P) {
        let zero = self.int(0);
        let full = self.pow2(w);
        let n1 = self.int(n as i128 - 1);
        let q = self.fresh(zero, full, side);
        let r = self.fresh(zero, n1, side);
        let k = self.int(n as i128);
        unsafe {
            let m = Z3_mk_mul(self.c, 2, [k, q].as_ptr());
            let s = Z3_mk_add(self.c, 2, [m, r].as_ptr());
            side.push(Z3_mk_eq(self.c, p, s));
        }
        (q, r)
    }
    fn itr0(&mut self, e: E, side: &mut Vec<P>) -> Option<P> {
        let x = cx();
        let (n, w) = x.nodes[e as usize];
        let w = w as u32;
        let c = self.c;
        if w > 120 {
            return None;
        }
        let zero = self.int(0);
        let full = self.pow2(w);
        unsafe {
            Some(match n {
                Node::Const(v) => {
                    if w == 1 {
                        if v != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) }
                    } else {
                        self.int(v as i128)
                    }
                }
                Node::Var(i) => {
                    if w == 1 {
                        Z3_mk_const(c, Z3_mk_int_symbol(c, i as c_int), self.boolsort)
                    } else {
                        let v = Z3_mk_const(c, Z3_mk_int_symbol(c, i as c_int), self.intsort);
                        side.push(Z3_mk_le(c, zero, v));
                        side.push(Z3_mk_lt(c, v, full));
                        v
                    }
                }
                Node::Not(a) => {
                    let p = self.ibool(a, side)?;
                    Z3_mk_not(c, p)
                }
                Node::Ite(q, a, b) => {
                    let (q, a, b) = (self.ibool(q, side)?, self.ibool(a, side)?, self.ibool(b, side)?);
                    Z3_mk_ite(c, q, a, b)
                }
                Node::ZExt(a) => {
                    let p = self.ibool(a, side)?;
                    if x.w(a) == 1 {
                        let one = self.int(1);
                        Z3_mk_ite(c, p, one, zero)
                    } else {
                        p
                    }
                }
                Node::SExt(a) => {
                    let aw = x.w(a);
                    let p = self.ibool(a, side)?;
                    if aw == 1 {
                        let m = Z3_mk_sub(c, 2, [full, self.int(1)].as_ptr());
                        Z3_mk_ite(c, p, m, zero)
                    } else {
                        let h = self.pow2(aw - 1);
                        let af = self.pow2(aw);
                        let m = Z3_mk_add(c, 3, [p, full, Z3_mk_sub(c, 2, [zero, af].as_ptr())].as_ptr());
                        Z3_mk_ite(c, Z3_mk_lt(c, p, h), p, m)
                    }
                }
                Node::Extract(a, lo) => {
                    let p = self.isub(a, side)?;
                    let lo = lo as u32;
                    let hi = if lo > 0 { self.divmod(p, 1 << lo, w + lo, side).0 } else { p };
                    // the quotient above is bounded by the width of the parent
                    let r = if lo + w < x.w(a) { self.divmod(hi, 1 << w, x.w(a), side).1 } else { hi };
                    if w == 1 {
                        Z3_mk_eq(c, r, self.int(1))
                    } else {
                        r
                    }
                }
                Node::LinTab(..) => return None,
                Node::Bin(op, a, b) => {
                    let aw = x.w(a);
                    if aw == 1 && op != Op::Concat {
                        let (p, q) = (self.ibool(a, side)?, self.ibool(b, side)?);
                        return Some(match op {
                            Op::And => Z3_mk_and(c, 2, [p, q].as_ptr()),
                            Op::Or => Z3_mk_or(c, 2, [p, q].as_ptr()),
                            Op::Xor => Z3_mk_xor(c, p, q),
                            Op::Eq => Z3_mk_eq(c, p, q),
                            _ => return None,
                        });
                    }
                    let kb = x.as_const(b);
                    match op {
                        Op::Add => {
                            let mut l = vec![];
                            x.addends(e, &mut l);
                            if l.len() > 10 {
                                return None;
                            }
                            let mut k = 0i128;
                            let mut ts = vec![];
                            for t in l {
                                match x.as_const(t) {
                                    Some(v) if v >> (w - 1) & 1 == 1 => k += v as i128 - (1i128 << w),
                                    Some(v) => k += v as i128,
                                    None => ts.push(self.isub(t, side)?),
                                }
                            }
                            let n = ts.len() as i128;
                            ts.push(self.int(k));
                            let lo = self.int(if k < 0 { -1 } else { 0 });
                            let hi = self.int(n);
                            let m = self.fresh(lo, hi, side);
                            ts.push(Z3_mk_mul(c, 2, [Z3_mk_sub(c, 2, [zero, full].as_ptr()), m].as_ptr()));
                            let r = Z3_mk_add(c, ts.len() as c_uint, ts.as_ptr());
                            side.push(Z3_mk_le(c, zero, r));
                            side.push(Z3_mk_lt(c, r, full));
                            r
                        }
                        Op::Sub => {
                            let (p, q) = (self.isub(a, side)?, self.isub(b, side)?);
                            let one = self.int(1);
                            let m = self.fresh(zero, one, side);
                            let r = Z3_mk_add(c, 3, [p, Z3_mk_sub(c, 2, [zero, q].as_ptr()), Z3_mk_mul(c, 2, [full, m].as_ptr())].as_ptr());
                            side.push(Z3_mk_le(c, zero, r));
                            side.push(Z3_mk_lt(c, r, full));
                            r
                        }
                        Op::Mul | Op::Shl => {
                            let k = match op {
                                Op::Mul => kb?,
                                _ => 1u128.checked_shl(kb? as u32)?,
                            };
                            if k >= 1 << 20 {
                                return None;
                            }
                            let p = self.isub(a, side)?;
                            let kk = self.int(k as i128);
                            let m = self.fresh(zero, kk, side);
                            let r = Z3_mk_sub(c, 2, [Z3_mk_mul(c, 2, [self.int(k as i128), p].as_ptr()), Z3_mk_mul(c, 2, [full, m].as_ptr())].as_ptr());
                            side.push(Z3_mk_le(c, zero, r));
                            side.push(Z3_mk_lt(c, r, full));
                            r
                        }
                        Op::UDiv | Op::URem | Op::LShr => {
                            let k = match op {
                                Op::LShr => 1u128.checked_shl(kb? as u32)?,
                                _ => kb?,
                            };
                            if k == 0 || k >= 1 << 64 {
                                return None;
                            }
                            let p = self.isub(a, side)?;
                            let (q, r) = self.divmod(p, k, w, side);
                            if op == Op::URem { r } else { q }
                        }
                        Op::And => {
                            let k = kb?;
                            if k == 0 || k & (k + 1) != 0 || k >= 1 << 100 {
                                return None;
                            }
                            let p = self.isub(a, side)?;
                            self.divmod(p, k + 1, w, side).1
                        }
                        Op::Xor => {
                            if kb? != (1u128 << w) - 1 {
                                return None;
                            }
                            let p = self.isub(a, side)?;
                            Z3_mk_sub(c, 2, [self.int((1i128 << w) - 1), p].as_ptr())
                        }
                        Op::Concat => {
                            let (p, q) = (self.isub(a, side)?, self.isub(b, side)?);
                            Z3_mk_add(c, 2, [Z3_mk_mul(c, 2, [self.pow2(x.w(b)), p].as_ptr()), q].as_ptr())
                        }
                        Op::Eq => {
                            let (p, q) = (self.isub(a, side)?, self.isub(b, side)?);
                            Z3_mk_eq(c, p, q)
                        }
                        Op::Ult => {
                            let (p, q) = (self.isub(a, side)?, self.isub(b, side)?);
                            Z3_mk_lt(c, p, q)
                        }
                        Op::Ule => {
                            let (p, q) = (self.isub(a, side)?, self.isub(b, side)?);
                            Z3_mk_le(c, p, q)
                        }
                        Op::Slt | Op::Sle => {
                            let (p, q) = (self.isub(a, side)?, self.isub(b, side)?);
                            let (p, q) = (self.signed(p, aw), self.signed(q, aw));
                            if op == Op::Slt { Z3_mk_lt(c, p, q) } else { Z3_mk_le(c, p, q) }
                        }
                        _ => return None,
                    }
                }
            })
        }
    }
    /// Worth trying as integers: sums of wide values.
    fn arithmetic(&mut self, cs: &[E]) -> Option<Vec<P>> {
        let x = cx();
        let mut vs = 0;
        for &e in cs {
            vs = x.set_union_pub(vs, x.vset[e as usize]);
        }
        let mut wide = false;
        for (i, wd) in x.sets[vs as usize].iter().enumerate() {
            for b in 0..64 {
                if wd >> b & 1 != 0 && x.vars[i * 64 + b].w >= 24 {
                    wide = true;
                }
            }
        }
        if !wide {
            return None;
        }
        let mut out = vec![];
        for &e in cs {
            let (p, s) = self.itr(e)?;
            out.push(p);
            out.extend(s.iter());
        }
        out.sort();
        out.dedup();
        Some(out)
    }

    fn raw_check(&mut self, cs: &[E]) -> Res {
        let t0 = Instant::now();
        self.queries += 1;
        let mut res = Res::Unknown;
        let ints = self.arithmetic(cs);
        for which in 0..3 {
            let s = [self.s3, self.s, self.s2][which];
            if which == 0 && ints.is_none() {
                continue;
            }
            unsafe {
                Z3_solver_push(self.c, s);
                if which == 0 {
                    for &a in ints.as_ref().unwrap() {
                        Z3_solver_assert(self.c, s, a);
                    }
                } else {
                    for &e in cs {
                        let a = self.tr(e);
                        Z3_solver_assert(self.c, s, a);
                    }
                }
                let r = Z3_solver_check(self.c, s);
                if r == 1 {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let x = cx();
                    let mut vs = 0;
                    for &e in cs {
                        vs = x.set_union_pub(vs, x.vset[e as usize]);
                    }
                    let set = x.sets[vs as usize].clone();
                    let mut out = vec![];
                    for (wi, word) in set.iter().enumerate() {
                        for b in 0..64 {
                            if (word >> b) & 1 != 0 {
                                let vid = (wi * 64 + b) as u32;
                                let vw = x.vars[vid as usize].w;
                                let s = if vw == 1 { self.boolsort } else if which == 0 { self.intsort } else { self.sort(vw) };
                                let t = Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, vid as c_int), s);
                                let mut v: P = std::ptr::null_mut();
                                if !Z3_model_eval(self.c, m, t, true, &mut v) {
                                    eprintln!("zsym: model eval failed");
                                    std::process::exit(70);
                                }
                                let val = if vw == 1 {
                                    (Z3_get_bool_value(self.c, v) == 1) as u128
                                } else {
                                    CStr::from_ptr(Z3_get_numeral_string(self.c, v))
                                        .to_str()
                                        .unwrap()
                                        .parse::<u128>()
                                        .unwrap()
                                };
                                out.push((vid, val));
                            }
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    // validate the model against our own evaluator
                    let mut md = Model::default();
                    for &(i, v) in &out {
                        md.0.insert(i, v);
                    }
                    for &e in cs {
                        if x.eval(e, &md) != 1 {
                            eprintln!("zsym: z3 model does not satisfy constraint {}", x.show(e, 6));
                            std::process::exit(70);
                        }
                    }
                    res = Res::Sat(Rc::new(out));
                } else if r == -1 {
                    res = Res::Unsat;
                }
                Z3_solver_pop(self.c, s, 1);
            }
            if !matches!(res, Res::Unknown) {
                if which == 0 {
                    self.int_decided += 1;
                }
                break;
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        if dt > self.slow {
            let x = cx();
            eprintln!("SLOW {:.2}s {} constraints", dt, cs.len());
            for &e in cs {
                let n: u32 = x.sets[x.vset[e as usize] as usize].iter().map(|w| w.count_ones()).sum();
                let mut ns = vec![];
                for (i, wd) in x.sets[x.vset[e as usize] as usize].iter().enumerate() { for b in 0..64 { if wd >> b & 1 == 1 { ns.push(x.vars[i * 64 + b].name.clone()); } } }
                eprintln!("   vars {} {:?} {}", n, ns, x.show(e, std::env::var("ZSYM_DEPTH").ok().and_then(|s| s.parse().ok()).unwrap_or(6)));
            }
        }
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        match res {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknowns += 1,
        }
        res
    }

    /// Satisfiability of pc ∧ extra, where pc is known satisfiable; only the part of pc
    /// connected to `extra` by shared variables is sent. Model values of that slice are returned.
    fn table(&mut self, e: E, v: u32, n: usize) -> Rc<Vec<u64>> {
        if let Some(t) = self.tables.get(&e) {
            return t.clone();
        }
        let x = cx();
        let mut t = vec![0u64; n.div_ceil(64)];
        let mut md = Model::default();
        for i in 0..n {
            md.0.insert(v, i as u128);
            if x.eval(e, &md) == 1 {
                t[i / 64] |= 1 << (i % 64);
            }
        }
        let t = Rc::new(t);
        self.tables.insert(e, t.clone());
        t
    }
    /// All values of `e` under `pc`, if both depend on one small variable only:
    /// (value of e, how many variable values give it, one of them).
    pub fn values(&mut self, pc: &[E], e: E) -> Option<(u32, Vec<(u128, u32, u128)>)> {
        let x = cx();
        let vs = x.vset[e as usize];
        let v = x.single_var(vs)?;
        let w = x.vars[v as usize].w;
        if w > 11 {
            return None;
        }
        let n = 1usize << w;
        let mut acc = vec![!0u64; n.div_ceil(64)];
        for &c in pc {
            if x.sets_intersect(vs, x.vset[c as usize]) {
                if x.single_var(x.vset[c as usize]) != Some(v) {
                    return None;
                }
                let t = self.table(c, v, n);
                for (a, b) in acc.iter_mut().zip(t.iter()) {
                    *a &= b;
                }
            }
        }
        self.table_decided += 1;
        let mut out: std::collections::BTreeMap<u128, (u32, u128)> = Default::default();
        let mut md = Model::default();
        for i in 0..n {
            if acc[i / 64] >> (i % 64) & 1 != 0 {
                md.0.insert(v, i as u128);
                let val = x.eval(e, &md);
                out.entry(val).or_insert((0, i as u128)).0 += 1;
            }
        }
        Some((v, out.into_iter().map(|(k, (c, i))| (k, c, i)).collect()))
    }
    /// A sample of what is decided without z3 is given to z3 as well; they must agree.
    pub fn cross_check(&mut self, key: &[E], sat: bool, always: bool) {
        self.tick += 1;
        if !(always || self.tick <= 16 || self.tick % 4096 == 0) || (if always { self.lin_cross_time } else { self.cross_time }) > 1.0 {
            return;
        }
        let t0 = Instant::now();
        unsafe {
            Z3_solver_push(self.c, self.s);
            for &e in key {
                let a = self.tr(e);
                Z3_solver_assert(self.c, self.s, a);
            }
            let r = Z3_solver_check(self.c, self.s);
            Z3_solver_pop(self.c, self.s, 1);
            if r != 0 {
                self.cross_checked += 1;
                if (r == 1) != sat {
                    eprintln!("zsym: z3 and the decision procedures disagree on {}", cx().show(key[0], 8));
                    std::process::exit(70);
                }
            }
        }
        if always {
            self.lin_cross_time += t0.elapsed().as_secs_f64();
        } else {
            self.cross_time += t0.elapsed().as_secs_f64();
        }
    }
    pub fn drain_log(&mut self) {
        for e in std::mem::take(&mut cx().lin_log) {
            self.cross_check(&[e], false, true);
        }
    }
    pub fn check(&mut self, pc: &[E], extra: E) -> Res {
        let x = cx();
        if !x.lin_log.is_empty() {
            self.drain_log();
        }
        if let Some(v) = x.as_const(extra) {
            return if v != 0 { Res::Sat(Rc::new(vec![])) } else { Res::Unsat };
        }
        // slice
        let mut vs = x.vset[extra as usize];
        let mut taken = vec![false; pc.len()];
        loop {
            let mut changed = false;
            for (i, &c) in pc.iter().enumerate() {
                if !taken[i] && x.sets_intersect(vs, x.vset[c as usize]) {
                    taken[i] = true;
                    vs = x.set_union_pub(vs, x.vset[c as usize]);
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        let mut key: Vec<E> = vec![extra];
        for (i, &c) in pc.iter().enumerate() {
            if taken[i] {
                key.push(c);
            }
        }
        key.sort();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return r.clone();
        }
        // one variable of few bits: its truth table decides
        if let Some(v) = x.single_var(vs) {
            let w = x.vars[v as usize].w;
            if w <= 11 {
                let n = 1usize << w;
                let mut acc = vec![!0u64; n.div_ceil(64)];
                if n < 64 {
                    acc[0] = (1u64 << n) - 1;
                }
                for &e in &key {
                    let t = self.table(e, v, n);
                    for (a, b) in acc.iter_mut().zip(t.iter()) {
                        *a &= b;
                    }
                }
                self.table_decided += 1;
                self.cross_check(&key, acc.iter().any(|&x| x != 0), false);
                let r = match acc.iter().position(|&x| x != 0) {
                    Some(i) => Res::Sat(Rc::new(vec![(v, (i * 64) as u128 + acc[i].trailing_zeros() as u128)])),
                    None => Res::Unsat,
                };
                return r;
            }
        }
        // try recent models
        let n = self.last_models.len();
        for i in (n.saturating_sub(8)..n).rev() {
            let md0 = self.last_models[i].clone();
            let mut md = Model::default();
            for &(i, v) in md0.iter() {
                md.0.insert(i, v);
            }
            if x.eval(extra, &md) == 1 && key.iter().all(|&e| x.eval(e, &md) == 1) {
                // restrict to slice vars
                let set = x.sets[vs as usize].clone();
                let mut out = vec![];
                for (wi, word) in set.iter().enumerate() {
                    for b in 0..64 {
                        if (word >> b) & 1 != 0 {
                            let vid = (wi * 64 + b) as u32;
                            out.push((vid, md.get(vid)));
                        }
                    }
                }
                let r = Res::Sat(Rc::new(out));
                self.cache_hits += 1;
                self.cache.insert(key, r.clone());
                return r;
            }
        }
        let r = self.raw_check(&key);
        if let Res::Sat(m) = &r {
            self.last_models.push(m.clone());
            if self.last_models.len() > 64 {
                self.last_models.drain(0..32);
            }
        }
        self.cache.insert(key, r.clone());
        r
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.s);
            Z3_solver_dec_ref(self.c, self.s2);
        }
    }
}
