//! The SMT back end: libz3 through its C interface.
use crate::term::{Op, Terms, N, T};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::rc::Rc;

type Ast = *mut c_void;
type Ctx = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_set_error_handler(c: Ctx, h: extern "C" fn(Ctx, c_int));
    fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
    fn Z3_mk_solver_for_logic(c: Ctx, l: *mut c_void) -> *mut c_void;
    fn Z3_solver_inc_ref(c: Ctx, s: *mut c_void);
    fn Z3_solver_reset(c: Ctx, s: *mut c_void);
    fn Z3_solver_assert(c: Ctx, s: *mut c_void, a: Ast);
    fn Z3_solver_check(c: Ctx, s: *mut c_void) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: *mut c_void) -> *mut c_void;
    fn Z3_solver_set_params(c: Ctx, s: *mut c_void, p: *mut c_void);
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: *mut c_void, v: c_uint);
    fn Z3_model_inc_ref(c: Ctx, m: *mut c_void);
    fn Z3_model_dec_ref(c: Ctx, m: *mut c_void);
    fn Z3_model_eval(c: Ctx, m: *mut c_void, t: Ast, complete: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, v: Ast, u: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> *mut c_void;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, ty: *mut c_void) -> Ast;
    fn Z3_mk_numeral(c: Ctx, n: *const c_char, ty: *mut c_void) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, ty: *mut c_void) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, h: c_uint, l: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
}

extern "C" fn on_error(c: Ctx, e: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3: {}", m.to_string_lossy());
    std::process::exit(3);
}

pub enum Answer {
    Unsat,
    /// values of the requested variables
    Sat(Vec<(u32, u8)>),
    Unknown,
}

pub struct Z3 {
    c: Ctx,
    s: *mut c_void,
    bv: HashMap<T, Ast>,
    bo: HashMap<T, Ast>,
    vars: HashMap<u32, Ast>,
    cache: HashMap<Vec<T>, Option<Rc<Vec<(u32, u8)>>>>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub time: f64,
    pub slowest: f64,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, on_error);
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3 {
                c,
                s,
                bv: HashMap::new(),
                bo: HashMap::new(),
                vars: HashMap::new(),
                cache: HashMap::new(),
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                cached: 0,
                time: 0.0,
                slowest: 0.0,
            }
        }
    }
    fn var(&mut self, i: u32) -> Ast {
        let c = self.c;
        *self.vars.entry(i).or_insert_with(|| unsafe {
            let n = CString::new(format!("b{}", i)).unwrap();
            Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bv_sort(c, 8))
        })
    }
    fn num(&self, v: u128, w: u32) -> Ast {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w);
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let n = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, n.as_ptr(), s)
            }
        }
    }
    fn boolean(&mut self, ts: &Terms, t: T) -> Ast {
        if let Some(a) = self.bo.get(&t) {
            return *a;
        }
        let c = self.c;
        let r = unsafe {
            match ts.node(t) {
                N::Const(v) => {
                    if *v != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                N::Eq(a, b) => {
                    let (x, y) = if ts.w(*a) == 1 {
                        (self.boolean(ts, *a), self.boolean(ts, *b))
                    } else {
                        (self.bits(ts, *a), self.bits(ts, *b))
                    };
                    Z3_mk_eq(c, x, y)
                }
                N::Ult(a, b) => {
                    let (x, y) = (self.bits(ts, *a), self.bits(ts, *b));
                    Z3_mk_bvult(c, x, y)
                }
                N::Slt(a, b) => {
                    let (x, y) = (self.bits(ts, *a), self.bits(ts, *b));
                    Z3_mk_bvslt(c, x, y)
                }
                N::Ite(p, a, b) => {
                    let (p, x, y) = (self.boolean(ts, *p), self.boolean(ts, *a), self.boolean(ts, *b));
                    Z3_mk_ite(c, p, x, y)
                }
                N::Bin(Op::And, a, b) => {
                    let l = [self.boolean(ts, *a), self.boolean(ts, *b)];
                    Z3_mk_and(c, 2, l.as_ptr())
                }
                N::Bin(Op::Or, a, b) => {
                    let l = [self.boolean(ts, *a), self.boolean(ts, *b)];
                    Z3_mk_or(c, 2, l.as_ptr())
                }
                N::Bin(Op::Xor, a, b) => {
                    if ts.cval(*b) == Some(1) {
                        let x = self.boolean(ts, *a);
                        Z3_mk_not(c, x)
                    } else {
                        let (x, y) = (self.boolean(ts, *a), self.boolean(ts, *b));
                        Z3_mk_xor(c, x, y)
                    }
                }
                _ => {
                    let x = self.bits(ts, t);
                    Z3_mk_eq(c, x, self.num(1, 1))
                }
            }
        };
        self.bo.insert(t, r);
        r
    }
    fn bits(&mut self, ts: &Terms, t: T) -> Ast {
        if let Some(a) = self.bv.get(&t) {
            return *a;
        }
        let c = self.c;
        let w = ts.w(t);
        let r = unsafe {
            match ts.node(t).clone() {
                N::Const(v) => self.num(v, w),
                N::Sip => self.num(crate::term::SIP_HASH as u128, w),
                N::Var(i) => self.var(i),
                N::Eq(..) | N::Ult(..) | N::Slt(..) => {
                    let b = self.boolean(ts, t);
                    Z3_mk_ite(c, b, self.num(1, 1), self.num(0, 1))
                }
                N::Ite(p, a, b) => {
                    let (p, x, y) = (self.boolean(ts, p), self.bits(ts, a), self.bits(ts, b));
                    Z3_mk_ite(c, p, x, y)
                }
                N::Bin(_, _, _) if w == 1 && matches!(ts.node(t), N::Bin(Op::And | Op::Or | Op::Xor, _, _)) => {
                    let b = self.boolean(ts, t);
                    Z3_mk_ite(c, b, self.num(1, 1), self.num(0, 1))
                }
                N::Bin(o, a, b) => {
                    let (x, y) = (self.bits(ts, a), self.bits(ts, b));
                    match o {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                    }
                }
                N::Ext(a, lo) => {
                    let x = self.bits(ts, a);
                    Z3_mk_extract(c, lo + w - 1, lo, x)
                }
                N::Cat(l) => {
                    let mut r = self.bits(ts, l[0]);
                    for p in &l[1..] {
                        let y = self.bits(ts, *p);
                        r = Z3_mk_concat(c, r, y);
                    }
                    r
                }
                N::SExt(a) => {
                    let x = self.bits(ts, a);
                    Z3_mk_sign_ext(c, w - ts.w(a), x)
                }
            }
        };
        self.bv.insert(t, r);
        r
    }
    /// Is the conjunction satisfiable? `key` must be sorted and free of duplicates.
    pub fn check(&mut self, ts: &Terms, key: Vec<T>) -> Answer {
        if let Some(r) = self.cache.get(&key) {
            self.cached += 1;
            return match r {
                None => Answer::Unsat,
                Some(v) => Answer::Sat((**v).clone()),
            };
        }
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let c = self.c;
        let r = unsafe {
            Z3_solver_reset(c, self.s);
            let mut vs: Vec<u64> = Vec::new();
            for t in &key {
                let b = self.boolean(ts, *t);
                Z3_solver_assert(c, self.s, b);
                let v = ts.vars(*t);
                if vs.len() < v.len() {
                    vs.resize(v.len(), 0);
                }
                for (i, x) in v.iter().enumerate() {
                    vs[i] |= x;
                }
            }
            match Z3_solver_check(c, self.s) {
                -1 => {
                    self.unsat += 1;
                    self.cache.insert(key, None);
                    Answer::Unsat
                }
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(c, self.s);
                    Z3_model_inc_ref(c, m);
                    let mut out = Vec::new();
                    for (i, x) in vs.iter().enumerate() {
                        for k in 0..64 {
                            if x >> k & 1 == 1 {
                                let v = (i * 64 + k) as u32;
                                let a = self.var(v);
                                let mut r: Ast = std::ptr::null_mut();
                                let mut u = 0u64;
                                if Z3_model_eval(c, m, a, true, &mut r) && Z3_get_numeral_uint64(c, r, &mut u) {
                                    out.push((v, u as u8));
                                } else {
                                    eprintln!("z3: no value for a variable");
                                    std::process::exit(3);
                                }
                            }
                        }
                    }
                    Z3_model_dec_ref(c, m);
                    self.cache.insert(key, Some(Rc::new(out.clone())));
                    Answer::Sat(out)
                }
                _ => {
                    self.unknown += 1;
                    Answer::Unknown
                }
            }
        };
        let d = t0.elapsed().as_secs_f64();
        self.time += d;
        if d > self.slowest {
            self.slowest = d;
        }
        r
    }
}
