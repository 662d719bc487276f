//! Z3 through its C API (bit-vector theory), one context per worker thread,
//! plus a result cache shared between workers.
use crate::ir::{Bin, Pred};
use crate::val::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_void, CStr, CString};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> i32;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: u32) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: u32, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: u32, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: u32, lo: u32, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: u32, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: u32, a: P) -> P;
    fn Z3_get_error_code(c: P) -> i32;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, i32)>);
}
extern "C" fn quiet(_: P, _: i32) {}

#[derive(Default)]
pub struct Stats {
    pub queries: AtomicU64,   // queries asked by the executor
    pub z3: AtomicU64,        // of which decided by a z3 call
    pub cached: AtomicU64,    // of which answered from the shared cache
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub unknown: AtomicU64,
    pub ns: AtomicU64,
    pub model_hits: AtomicU64, // branch sides witnessed by the path's current model
}

#[derive(Clone)]
pub enum Ans {
    Sat(Arc<Vec<(u32, u64)>>),
    Unsat,
    Unknown,
}

pub struct Cache {
    shards: Vec<Mutex<HashMap<u128, Ans>>>,
    pub stats: Stats,
    pub dump: Mutex<Vec<(String, bool)>>,
    pub dump_max: usize,
    pub timeout_ms: u32,
}
impl Cache {
    pub fn new(dump_max: usize, timeout_ms: u32) -> Cache {
        Cache {
            shards: (0..64).map(|_| Mutex::new(HashMap::new())).collect(),
            stats: Stats::default(),
            dump: Mutex::new(vec![]),
            dump_max,
            timeout_ms,
        }
    }
}

pub struct Solver<'a> {
    ctx: P,
    slv: P,
    terms: HashMap<u128, P>,
    bools: HashMap<u128, P>,
    n: u32,
    cache: &'a Cache,
}

impl<'a> Solver<'a> {
    pub fn new(cache: &'a Cache) -> Solver<'a> {
        let mut s = Solver { ctx: std::ptr::null_mut(), slv: std::ptr::null_mut(), terms: HashMap::new(), bools: HashMap::new(), n: 0, cache };
        s.open();
        s
    }
    fn open(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("timeout").unwrap();
            let v = CString::new(self.cache.timeout_ms.to_string()).unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            self.ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(self.ctx, Some(quiet));
            let l = CString::new("QF_BV").unwrap();
            self.slv = Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, l.as_ptr()));
            Z3_solver_inc_ref(self.ctx, self.slv);
        }
    }
    fn close(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.slv);
            Z3_del_context(self.ctx);
        }
        self.terms.clear();
        self.bools.clear();
    }

    fn b(&mut self, t: &T) -> P {
        // boolean view of a 1-bit term
        if let Some(p) = self.bools.get(&t.h) {
            return *p;
        }
        let c = self.ctx;
        let r = unsafe {
            match &t.k {
                K::C(x) => {
                    if *x == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                K::Not(a) => {
                    let a = self.b(a);
                    Z3_mk_not(c, a)
                }
                K::Cmp(p, x, y) => {
                    let (a, b) = (self.t(x), self.t(y));
                    match p {
                        Pred::Eq => Z3_mk_eq(c, a, b),
                        Pred::Ult => Z3_mk_bvult(c, a, b),
                        Pred::Ule => Z3_mk_bvule(c, a, b),
                        Pred::Slt => Z3_mk_bvslt(c, a, b),
                        Pred::Sle => Z3_mk_bvsle(c, a, b),
                        _ => unreachable!(),
                    }
                }
                K::Bin(Bin::And, x, y) => {
                    let v = [self.b(x), self.b(y)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                K::Bin(Bin::Or, x, y) => {
                    let v = [self.b(x), self.b(y)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                K::Bin(Bin::Xor, x, y) => {
                    let (a, b) = (self.b(x), self.b(y));
                    Z3_mk_xor(c, a, b)
                }
                _ => {
                    let a = self.t(t);
                    let s = Z3_mk_bv_sort(c, 1);
                    Z3_mk_eq(c, a, Z3_mk_unsigned_int64(c, 1, s))
                }
            }
        };
        self.bools.insert(t.h, r);
        r
    }
    fn t(&mut self, t: &T) -> P {
        if let Some(p) = self.terms.get(&t.h) {
            return *p;
        }
        let c = self.ctx;
        let w = t.w;
        let r = unsafe {
            match &t.k {
                K::Var(i) => {
                    let n = CString::new(format!("v{}_{}", i, w)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bv_sort(c, w))
                }
                K::C(x) => {
                    let s = Z3_mk_bv_sort(c, w);
                    if *x <= u64::MAX as u128 {
                        Z3_mk_unsigned_int64(c, *x as u64, s)
                    } else {
                        let n = CString::new(x.to_string()).unwrap();
                        Z3_mk_numeral(c, n.as_ptr(), s)
                    }
                }
                K::Cmp(..) | K::Not(_) => {
                    let b = self.b(t);
                    let s = Z3_mk_bv_sort(c, 1);
                    Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
                }
                K::Bin(o, a, b) => {
                    let (a, b) = (self.t(a), self.t(b));
                    match o {
                        Bin::Add => Z3_mk_bvadd(c, a, b),
                        Bin::Sub => Z3_mk_bvsub(c, a, b),
                        Bin::Mul => Z3_mk_bvmul(c, a, b),
                        Bin::UDiv => Z3_mk_bvudiv(c, a, b),
                        Bin::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Bin::URem => Z3_mk_bvurem(c, a, b),
                        Bin::SRem => Z3_mk_bvsrem(c, a, b),
                        Bin::Shl => Z3_mk_bvshl(c, a, b),
                        Bin::LShr => Z3_mk_bvlshr(c, a, b),
                        Bin::AShr => Z3_mk_bvashr(c, a, b),
                        Bin::And => Z3_mk_bvand(c, a, b),
                        Bin::Or => Z3_mk_bvor(c, a, b),
                        Bin::Xor => Z3_mk_bvxor(c, a, b),
                    }
                }
                K::Ite(q, a, b) => {
                    let q = self.b(q);
                    let (a, b) = (self.t(a), self.t(b));
                    Z3_mk_ite(c, q, a, b)
                }
                K::Ext(a, lo) => {
                    let a = self.t(a);
                    Z3_mk_extract(c, lo + w - 1, *lo, a)
                }
                K::Cat(h, l) => {
                    let (a, b) = (self.t(h), self.t(l));
                    Z3_mk_concat(c, a, b)
                }
                K::Zx(a) => {
                    let n = w - a.w;
                    let a = self.t(a);
                    Z3_mk_zero_ext(c, n, a)
                }
                K::Sx(a) => {
                    let n = w - a.w;
                    let a = self.t(a);
                    Z3_mk_sign_ext(c, n, a)
                }
            }
        };
        self.terms.insert(t.h, r);
        r
    }

    /// Is the conjunction of the terms satisfiable?
    pub fn check(&mut self, cs: &[T], vars: &[u32]) -> Ans {
        let st = &self.cache.stats;
        st.queries.fetch_add(1, Relaxed);
        let mut hs: Vec<u128> = cs.iter().map(|c| c.h).collect();
        hs.sort();
        hs.dedup();
        let mut key = 0xcbf29ce484222325u128;
        for h in &hs {
            key = (key ^ h).wrapping_mul(0x0000000001000000000000000000013B);
            key ^= key >> 71;
        }
        let shard = &self.cache.shards[(key >> 64) as usize % 64];
        if let Some(a) = shard.lock().unwrap().get(&key) {
            st.cached.fetch_add(1, Relaxed);
            return a.clone();
        }
        let t0 = Instant::now();
        self.n += 1;
        if self.n > 4000 {
            self.n = 0;
            self.close();
            self.open();
        }
        let ans = unsafe {
            Z3_solver_reset(self.ctx, self.slv);
            for c in cs {
                let p = self.b(c);
                Z3_solver_assert(self.ctx, self.slv, p);
            }
            let r = Z3_solver_check(self.ctx, self.slv);
            if Z3_get_error_code(self.ctx) != 0 {
                Ans::Unknown
            } else {
                match r {
                    1 => {
                        let m = Z3_solver_get_model(self.ctx, self.slv);
                        Z3_model_inc_ref(self.ctx, m);
                        let mut out = vec![];
                        let mut ok = true;
                        for (i, w) in vars.iter().enumerate() {
                            if *w == 0 {
                                continue;
                            }
                            if !cs.iter().any(|c| c.vars & (1u128 << (i as u32).min(127)) != 0) {
                                continue;
                            }
                            let p = self.t(&var(i as u32, *w));
                            let mut v: P = std::ptr::null_mut();
                            let mut x = 0u64;
                            if Z3_model_eval(self.ctx, m, p, true, &mut v) && Z3_get_numeral_uint64(self.ctx, v, &mut x) {
                                out.push((i as u32, x));
                            } else {
                                ok = false;
                            }
                        }
                        Z3_model_dec_ref(self.ctx, m);
                        if ok {
                            Ans::Sat(Arc::new(out))
                        } else {
                            Ans::Unknown
                        }
                    }
                    -1 => Ans::Unsat,
                    _ => Ans::Unknown,
                }
            }
        };
        let n = st.z3.fetch_add(1, Relaxed);
        st.ns.fetch_add(t0.elapsed().as_nanos() as u64, Relaxed);
        match &ans {
            Ans::Sat(_) => st.sat.fetch_add(1, Relaxed),
            Ans::Unsat => st.unsat.fetch_add(1, Relaxed),
            Ans::Unknown => st.unknown.fetch_add(1, Relaxed),
        };
        if self.cache.dump_max > 0 && !matches!(ans, Ans::Unknown) && (n < 40 || n % 17 == 0) {
            let mut d = self.cache.dump.lock().unwrap();
            if d.len() < self.cache.dump_max {
                let s = unsafe { CStr::from_ptr(Z3_solver_to_string(self.ctx, self.slv)).to_string_lossy().into_owned() };
                d.push((s, matches!(ans, Ans::Sat(_))));
            }
        }
        shard.lock().unwrap().insert(key, ans.clone());
        ans
    }
}
impl<'a> Drop for Solver<'a> {
    fn drop(&mut self) {
        self.close();
    }
}
