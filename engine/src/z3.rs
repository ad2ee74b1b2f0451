//! Minimal bindings to the system libz3.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
}

extern "C" fn on_err(_c: P, code: c_int) {
    // any solver error makes the run inconclusive
    eprintln!("symx: z3 error {}", code);
    std::process::exit(3);
}

// `arith` is a second solver for constraints that only add, subtract and compare: they are put to z3
// as linear integer arithmetic (exactly, wrap-around included), which it decides much faster.
pub struct Z3 { c: P, s: P, arith: P, cache: Vec<P>, icache: Vec<(bool, P)>, pub arith_queries: u64, pub queries: u64, pub time: std::time::Duration, pub unknown: u64, pub max_ms: u128 }
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum R { Sat, Unsat, Unknown }

impl Z3 {
    pub fn new(rlimit: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = if std::env::var("SYMX_SIMPLE").is_ok() { Z3_mk_simple_solver(c) } else {
                let l = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()))
            };
            Z3_solver_inc_ref(c, s);
            let arith = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, arith);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), rlimit);
            Z3_solver_set_params(c, s, p);
            Z3_solver_set_params(c, arith, p);
            Z3 { c, s, arith, cache: vec![], icache: vec![], arith_queries: 0, queries: 0, time: Default::default(), unknown: 0, max_ms: 0 }
        }
    }
    pub fn version() -> String { unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }
    fn bv(&mut self, p: &Pool, e: E) -> P {
        let a = self.ast(p, e);
        if p.w(e) == 1 {
            unsafe {
                let s = Z3_mk_bv_sort(self.c, 1);
                Z3_mk_ite(self.c, a, Z3_mk_unsigned_int64(self.c, 1, s), Z3_mk_unsigned_int64(self.c, 0, s))
            }
        } else { a }
    }
    fn ast(&mut self, p: &Pool, e: E) -> P {
        if self.cache.len() < p.n.len() { self.cache.resize(p.n.len(), std::ptr::null_mut()); }
        let r = self.cache[e as usize];
        if !r.is_null() { return r; }
        let n = p.n[e as usize];
        let c = self.c;
        let a = unsafe {
            match n.op {
                Op::Const => {
                    if n.w == 1 { if n.v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } }
                    else {
                        let s = Z3_mk_bv_sort(c, n.w as u32);
                        if n.w <= 64 { Z3_mk_unsigned_int64(c, n.v as u64, s) } else { let t = CString::new(n.v.to_string()).unwrap(); Z3_mk_numeral(c, t.as_ptr(), s) }
                    }
                }
                Op::Var => { let s = if n.w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, n.w as u32) }; Z3_mk_const(c, Z3_mk_int_symbol(c, n.v as c_int), s) }
                Op::Not => { let x = self.ast(p, n.a); if n.w == 1 { Z3_mk_not(c, x) } else { Z3_mk_bvnot(c, x) } }
                Op::And => { let v = [self.ast(p, n.a), self.ast(p, n.b)]; if n.w == 1 { Z3_mk_and(c, 2, v.as_ptr()) } else { Z3_mk_bvand(c, v[0], v[1]) } }
                Op::Or => { let v = [self.ast(p, n.a), self.ast(p, n.b)]; if n.w == 1 { Z3_mk_or(c, 2, v.as_ptr()) } else { Z3_mk_bvor(c, v[0], v[1]) } }
                Op::Xor => { let v = [self.ast(p, n.a), self.ast(p, n.b)]; if n.w == 1 { Z3_mk_xor(c, v[0], v[1]) } else { Z3_mk_bvxor(c, v[0], v[1]) } }
                Op::Eq => { let (x, y) = (self.ast(p, n.a), self.ast(p, n.b)); Z3_mk_eq(c, x, y) }
                Op::Ite => { let (x, y, z) = (self.ast(p, n.a), self.ast(p, n.b), self.ast(p, n.c)); Z3_mk_ite(c, x, y, z) }
                Op::SExt => { let x = self.bv(p, n.a); Z3_mk_sign_ext(c, (n.w - p.w(n.a)) as u32, x) }
                Op::Extract => {
                    let x = self.bv(p, n.a);
                    let r = Z3_mk_extract(c, n.v as u32 + n.w as u32 - 1, n.v as u32, x);
                    if n.w == 1 { let s = Z3_mk_bv_sort(c, 1); Z3_mk_eq(c, r, Z3_mk_unsigned_int64(c, 1, s)) } else { r }
                }
                Op::Concat => { let (x, y) = (self.bv(p, n.a), self.bv(p, n.b)); Z3_mk_concat(c, x, y) }
                _ => {
                    let (x, y) = (self.bv(p, n.a), self.bv(p, n.b));
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, x, y), Op::Sub => Z3_mk_bvsub(c, x, y), Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y), Op::URem => Z3_mk_bvurem(c, x, y), Op::SDiv => Z3_mk_bvsdiv(c, x, y), Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y), Op::LShr => Z3_mk_bvlshr(c, x, y), Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::Ult => Z3_mk_bvult(c, x, y), Op::Slt => Z3_mk_bvslt(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        unsafe { Z3_inc_ref(c, a); }
        self.cache[e as usize] = a;
        a
    }
    fn int(&self, v: u128) -> P { let t = CString::new(v.to_string()).unwrap(); unsafe { Z3_mk_numeral(self.c, t.as_ptr(), Z3_mk_int_sort(self.c)) } }
    /// e over the integers (booleans for width 1); null when it is not of that kind
    fn lin(&mut self, p: &Pool, e: E) -> P {
        if self.icache.len() < p.n.len() { self.icache.resize(p.n.len(), (false, std::ptr::null_mut())); }
        let (done, r) = self.icache[e as usize];
        if done { return r; }
        let r = self.lin1(p, e).unwrap_or(std::ptr::null_mut());
        if !r.is_null() { unsafe { Z3_inc_ref(self.c, r); } }
        self.icache[e as usize] = (true, r);
        r
    }
    fn l(&mut self, p: &Pool, e: E) -> Option<P> { let r = self.lin(p, e); if r.is_null() { None } else { Some(r) } }
    fn lin1(&mut self, p: &Pool, e: E) -> Option<P> {
        let n = p.n[e as usize];
        let c = self.c;
        unsafe {
            if n.w == 1 {
                return Some(match n.op {
                    Op::Const => if n.v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                    Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.v as c_int), Z3_mk_bool_sort(c)),
                    Op::Not => Z3_mk_not(c, self.l(p, n.a)?),
                    Op::And => { let v = [self.l(p, n.a)?, self.l(p, n.b)?]; Z3_mk_and(c, 2, v.as_ptr()) }
                    Op::Or => { let v = [self.l(p, n.a)?, self.l(p, n.b)?]; Z3_mk_or(c, 2, v.as_ptr()) }
                    Op::Xor => { let (x, y) = (self.l(p, n.a)?, self.l(p, n.b)?); Z3_mk_xor(c, x, y) }
                    Op::Eq => { let (x, y) = (self.l(p, n.a)?, self.l(p, n.b)?); Z3_mk_eq(c, x, y) }
                    Op::Ult => { let (x, y) = (self.l(p, n.a)?, self.l(p, n.b)?); if p.w(n.a) == 1 { return None; } Z3_mk_lt(c, x, y) }
                    Op::Slt => { if p.w(n.a) == 1 { return None; } let (x, y) = (self.signed(p, n.a)?, self.signed(p, n.b)?); Z3_mk_lt(c, x, y) }
                    Op::Ite => { let (x, y, z) = (self.l(p, n.a)?, self.l(p, n.b)?, self.l(p, n.c)?); Z3_mk_ite(c, x, y, z) }
                    _ => return None,
                });
            }
            if n.w > 64 { return None; }
            let m = self.int(1u128 << n.w);
            Some(match n.op {
                Op::Const => self.int(n.v),
                Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.v as c_int), Z3_mk_int_sort(c)),
                Op::Concat if p.k(n.a) == Some(0) => {
                    let x = self.l(p, n.b)?;
                    if p.w(n.b) == 1 { Z3_mk_ite(c, x, self.int(1), self.int(0)) } else { x }
                }
                Op::Ite => { let (x, y, z) = (self.l(p, n.a)?, self.l(p, n.b)?, self.l(p, n.c)?); Z3_mk_ite(c, x, y, z) }
                Op::Add => {
                    let v = [self.l(p, n.a)?, self.l(p, n.b)?];
                    let t = Z3_mk_add(c, 2, v.as_ptr());
                    let u = [t, m];
                    Z3_mk_ite(c, Z3_mk_le(c, m, t), Z3_mk_sub(c, 2, u.as_ptr()), t)
                }
                Op::Sub => {
                    let v = [self.l(p, n.a)?, self.l(p, n.b)?];
                    let t = Z3_mk_sub(c, 2, v.as_ptr());
                    let u = [t, m];
                    Z3_mk_ite(c, Z3_mk_lt(c, v[0], v[1]), Z3_mk_add(c, 2, u.as_ptr()), t)
                }
                _ => return None,
            })
        }
    }
    fn signed(&mut self, p: &Pool, e: E) -> Option<P> {
        let x = self.l(p, e)?;
        let w = p.w(e);
        let (h, m) = (self.int(1u128 << (w - 1)), self.int(1u128 << w));
        let u = [x, m];
        unsafe { Some(Z3_mk_ite(self.c, Z3_mk_le(self.c, h, x), Z3_mk_sub(self.c, 2, u.as_ptr()), x)) }
    }
    /// Checks the conjunction; on Sat returns values for `want` (variable expressions).
    pub fn check(&mut self, p: &Pool, cs: &[E], want: &[E]) -> (R, Vec<u64>) {
        let t = std::time::Instant::now();
        self.queries += 1;
        let mut asts: Vec<P> = cs.iter().map(|&e| self.lin(p, e)).collect();
        let lin = asts.iter().all(|a| !a.is_null());
        let wants: Vec<P>;
        let solver;
        if lin {
            self.arith_queries += 1;
            solver = self.arith;
            wants = want.iter().map(|&e| self.lin(p, e)).collect();
            for (i, &x) in wants.iter().enumerate() {
                let w = p.w(want[i]);
                if w == 1 { continue; }
                unsafe { asts.push(Z3_mk_le(self.c, self.int(0), x)); asts.push(Z3_mk_lt(self.c, x, self.int(1u128 << w))); }
            }
        } else {
            solver = self.s;
            asts = cs.iter().map(|&e| self.ast(p, e)).collect();
            wants = want.iter().map(|&e| self.ast(p, e)).collect();
        }
        let mut out = vec![];
        let r = unsafe {
            Z3_solver_push(self.c, solver);
            for a in asts { Z3_solver_assert(self.c, solver, a); }
            let r = match Z3_solver_check(self.c, solver) { 1 => R::Sat, -1 => R::Unsat, _ => R::Unknown };
            if r == R::Sat {
                let m = Z3_solver_get_model(self.c, solver);
                Z3_model_inc_ref(self.c, m);
                for (i, x) in wants.into_iter().enumerate() {
                    let mut v: P = std::ptr::null_mut();
                    if !Z3_model_eval(self.c, m, x, true, &mut v) { on_err(self.c, -1); }
                    if p.w(want[i]) == 1 { out.push((Z3_get_bool_value(self.c, v) == 1) as u64); }
                    else { let mut u = 0u64; if !Z3_get_numeral_uint64(self.c, v, &mut u) { on_err(self.c, -2); } out.push(u); }
                }
                Z3_model_dec_ref(self.c, m);
            }
            Z3_solver_pop(self.c, solver, 1);
            r
        };
        if r == R::Unknown { self.unknown += 1; }
        let d = t.elapsed();
        self.time += d;
        self.max_ms = self.max_ms.max(d.as_millis());
        (r, out)
    }
}
