//! SMT back end: the C API of Z3, loaded at run time, logic QF_BV.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}
type P = *mut c_void;

macro_rules! api {
    ($($name:ident : fn($($t:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        pub struct Api { $($name: unsafe extern "C" fn($($t),*) $(-> $r)?,)* }
        impl Api {
            pub fn load(path: &str) -> Api {
                unsafe {
                    let c = CString::new(path).unwrap();
                    let h = dlopen(c.as_ptr(), 2);
                    if h.is_null() {
                        panic!("dlopen {path}: {}", std::ffi::CStr::from_ptr(dlerror()).to_string_lossy());
                    }
                    Api { $($name: {
                        let c = CString::new(stringify!($name)).unwrap();
                        let p = dlsym(h, c.as_ptr());
                        assert!(!p.is_null(), stringify!($name));
                        std::mem::transmute::<*mut c_void, unsafe extern "C" fn($($t),*) $(-> $r)?>(p)
                    },)* }
                }
            }
        }
    };
}
api! {
    Z3_mk_config: fn() -> P;
    Z3_set_param_value: fn(P, *const c_char, *const c_char);
    Z3_mk_context_rc: fn(P) -> P;
    Z3_del_context: fn(P);
    Z3_inc_ref: fn(P, P);
    Z3_mk_int_symbol: fn(P, c_int) -> P;
    Z3_mk_string_symbol: fn(P, *const c_char) -> P;
    Z3_mk_bv_sort: fn(P, c_uint) -> P;
    Z3_mk_const: fn(P, P, P) -> P;
    Z3_mk_unsigned_int64: fn(P, u64, P) -> P;
    Z3_mk_true: fn(P) -> P;
    Z3_mk_false: fn(P) -> P;
    Z3_mk_eq: fn(P, P, P) -> P;
    Z3_mk_not: fn(P, P) -> P;
    Z3_mk_ite: fn(P, P, P, P) -> P;
    Z3_mk_xor: fn(P, P, P) -> P;
    Z3_mk_and: fn(P, c_uint, *const P) -> P;
    Z3_mk_or: fn(P, c_uint, *const P) -> P;
    Z3_mk_bvadd: fn(P, P, P) -> P;
    Z3_mk_bvsub: fn(P, P, P) -> P;
    Z3_mk_bvmul: fn(P, P, P) -> P;
    Z3_mk_bvudiv: fn(P, P, P) -> P;
    Z3_mk_bvurem: fn(P, P, P) -> P;
    Z3_mk_bvsdiv: fn(P, P, P) -> P;
    Z3_mk_bvsrem: fn(P, P, P) -> P;
    Z3_mk_bvand: fn(P, P, P) -> P;
    Z3_mk_bvor: fn(P, P, P) -> P;
    Z3_mk_bvxor: fn(P, P, P) -> P;
    Z3_mk_bvshl: fn(P, P, P) -> P;
    Z3_mk_bvlshr: fn(P, P, P) -> P;
    Z3_mk_bvashr: fn(P, P, P) -> P;
    Z3_mk_bvult: fn(P, P, P) -> P;
    Z3_mk_bvslt: fn(P, P, P) -> P;
    Z3_mk_concat: fn(P, P, P) -> P;
    Z3_mk_extract: fn(P, c_uint, c_uint, P) -> P;
    Z3_mk_sign_ext: fn(P, c_uint, P) -> P;
    Z3_mk_simple_solver: fn(P) -> P;
    Z3_mk_solver_for_logic: fn(P, P) -> P;
    Z3_solver_inc_ref: fn(P, P);
    Z3_solver_dec_ref: fn(P, P);
    Z3_solver_reset: fn(P, P);
    Z3_solver_assert: fn(P, P, P);
    Z3_solver_check: fn(P, P) -> c_int;
    Z3_solver_get_model: fn(P, P) -> P;
    Z3_solver_set_params: fn(P, P, P);
    Z3_mk_params: fn(P) -> P;
    Z3_params_inc_ref: fn(P, P);
    Z3_params_set_uint: fn(P, P, P, c_uint);
    Z3_model_inc_ref: fn(P, P);
    Z3_model_dec_ref: fn(P, P);
    Z3_model_eval: fn(P, P, P, bool, *mut P) -> bool;
    Z3_get_numeral_uint64: fn(P, P, *mut u64) -> bool;
    Z3_get_error_code: fn(P) -> c_int;
    Z3_set_error_handler: fn(P, P);
    Z3_get_full_version: fn() -> *const c_char;
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time_us: u64,
    pub cache_hits: u64,
    pub slow: u64,
}

pub struct Solver {
    api: Api,
    c: P,
    fast: P,
    slow: P,
    bv: Vec<P>,
    bo: Vec<P>,
    sorts: Vec<P>,
    pub st: Stats,
    pub cache: FxMap<Vec<E>, Option<Vec<(u32, u8)>>>,
    pub version: String,
}

pub enum Res {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}

impl Solver {
    pub fn new(path: &str, slow_ms: u32) -> Solver {
        let api = Api::load(path);
        unsafe {
            let cfg = (api.Z3_mk_config)();
            let c = (api.Z3_mk_context_rc)(cfg);
            (api.Z3_set_error_handler)(c, std::ptr::null_mut());
            let mkp = |ms: u32| {
                let p = (api.Z3_mk_params)(c);
                (api.Z3_params_inc_ref)(c, p);
                let k = CString::new("timeout").unwrap();
                let s = (api.Z3_mk_string_symbol)(c, k.as_ptr());
                (api.Z3_params_set_uint)(c, p, s, ms);
                p
            };
            let fast = (api.Z3_mk_simple_solver)(c);
            (api.Z3_solver_inc_ref)(c, fast);
            (api.Z3_solver_set_params)(c, fast, mkp(1000));
            let l = CString::new("QF_BV").unwrap();
            let ls = (api.Z3_mk_string_symbol)(c, l.as_ptr());
            let slow = (api.Z3_mk_solver_for_logic)(c, ls);
            (api.Z3_solver_inc_ref)(c, slow);
            (api.Z3_solver_set_params)(c, slow, mkp(slow_ms));
            let version = std::ffi::CStr::from_ptr((api.Z3_get_full_version)()).to_string_lossy().into_owned();
            Solver { api, c, fast, slow, bv: vec![], bo: vec![], sorts: vec![std::ptr::null_mut(); 65], st: Stats::default(), cache: Default::default(), version }
        }
    }
    fn sort(&mut self, w: u8) -> P {
        if self.sorts[w as usize].is_null() {
            unsafe {
                let s = (self.api.Z3_mk_bv_sort)(self.c, w as c_uint);
                (self.api.Z3_inc_ref)(self.c, s);
                self.sorts[w as usize] = s;
            }
        }
        self.sorts[w as usize]
    }
    fn tb(&mut self, x: &Ctx, e: E) -> P {
        // translate to a bit-vector term
        if self.bv.len() <= e as usize {
            self.bv.resize(x.n.len().max(e as usize + 1), std::ptr::null_mut());
        }
        if !self.bv[e as usize].is_null() {
            return self.bv[e as usize];
        }
        let n = x.n[e as usize];
        let c = self.c;
        let s = self.sort(n.w);
        let r = unsafe {
            if n.w == 1 && !matches!(n.op, Op::Const | Op::Extract) {
                let b = self.to(x, e);
                let one = (self.api.Z3_mk_unsigned_int64)(c, 1, s);
                (self.api.Z3_inc_ref)(c, one);
                let zero = (self.api.Z3_mk_unsigned_int64)(c, 0, s);
                (self.api.Z3_inc_ref)(c, zero);
                (self.api.Z3_mk_ite)(c, b, one, zero)
            } else {
                let a = if n.a != 0 && n.op != Op::Ite { self.tb(x, n.a) } else { std::ptr::null_mut() };
                let b = if n.b != 0 { self.tb(x, n.b) } else { std::ptr::null_mut() };
                let api = &self.api;
                match n.op {
                    Op::Const => (api.Z3_mk_unsigned_int64)(c, n.v, s),
                    Op::Sym => {
                        let y = (api.Z3_mk_int_symbol)(c, n.v as c_int);
                        (api.Z3_mk_const)(c, y, s)
                    }
                    Op::Add => (api.Z3_mk_bvadd)(c, a, b),
                    Op::Sub => (api.Z3_mk_bvsub)(c, a, b),
                    Op::Mul => (api.Z3_mk_bvmul)(c, a, b),
                    Op::UDiv => (api.Z3_mk_bvudiv)(c, a, b),
                    Op::URem => (api.Z3_mk_bvurem)(c, a, b),
                    Op::SDiv => (api.Z3_mk_bvsdiv)(c, a, b),
                    Op::SRem => (api.Z3_mk_bvsrem)(c, a, b),
                    Op::And => (api.Z3_mk_bvand)(c, a, b),
                    Op::Or => (api.Z3_mk_bvor)(c, a, b),
                    Op::Xor => (api.Z3_mk_bvxor)(c, a, b),
                    Op::Shl => (api.Z3_mk_bvshl)(c, a, b),
                    Op::LShr => (api.Z3_mk_bvlshr)(c, a, b),
                    Op::AShr => (api.Z3_mk_bvashr)(c, a, b),
                    Op::Concat => (api.Z3_mk_concat)(c, a, b),
                    Op::Extract => (api.Z3_mk_extract)(c, (n.v + n.w as u64 - 1) as c_uint, n.v as c_uint, a),
                    Op::SExt => (api.Z3_mk_sign_ext)(c, (n.w - x.w(n.a)) as c_uint, a),
                    Op::Ite => {
                        let q = self.to(x, n.a);
                        let y = self.tb(x, n.c);
                        (self.api.Z3_mk_ite)(c, q, b, y)
                    }
                    _ => unreachable!(),
                }
            }
        };
        assert!(!r.is_null());
        unsafe { (self.api.Z3_inc_ref)(c, r) };
        self.bv[e as usize] = r;
        r
    }
    fn to(&mut self, x: &Ctx, e: E) -> P {
        // translate a width-1 expression to a formula
        if self.bo.len() <= e as usize {
            self.bo.resize(x.n.len().max(e as usize + 1), std::ptr::null_mut());
        }
        if !self.bo[e as usize].is_null() {
            return self.bo[e as usize];
        }
        let n = x.n[e as usize];
        assert_eq!(n.w, 1);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.v != 0 {
                        (self.api.Z3_mk_true)(c)
                    } else {
                        (self.api.Z3_mk_false)(c)
                    }
                }
                Op::And | Op::Or | Op::Xor => {
                    let a = self.to(x, n.a);
                    if n.op == Op::Xor && x.cv(n.b) == Some(1) {
                        (self.api.Z3_mk_not)(c, a)
                    } else {
                        let b = self.to(x, n.b);
                        let v = [a, b];
                        match n.op {
                            Op::And => (self.api.Z3_mk_and)(c, 2, v.as_ptr()),
                            Op::Or => (self.api.Z3_mk_or)(c, 2, v.as_ptr()),
                            _ => (self.api.Z3_mk_xor)(c, a, b),
                        }
                    }
                }
                Op::Ite => {
                    let q = self.to(x, n.a);
                    let a = self.to(x, n.b);
                    let b = self.to(x, n.c);
                    (self.api.Z3_mk_ite)(c, q, a, b)
                }
                Op::Eq => {
                    let a = self.tb(x, n.a);
                    let b = self.tb(x, n.b);
                    (self.api.Z3_mk_eq)(c, a, b)
                }
                Op::Ult => {
                    let a = self.tb(x, n.a);
                    let b = self.tb(x, n.b);
                    (self.api.Z3_mk_bvult)(c, a, b)
                }
                Op::Slt => {
                    let a = self.tb(x, n.a);
                    let b = self.tb(x, n.b);
                    (self.api.Z3_mk_bvslt)(c, a, b)
                }
                Op::Extract => {
                    let a = self.tb(x, e);
                    let s = self.sort(1);
                    let one = (self.api.Z3_mk_unsigned_int64)(c, 1, s);
                    (self.api.Z3_inc_ref)(c, one);
                    (self.api.Z3_mk_eq)(c, a, one)
                }
                _ => panic!("width-1 {:?}", n),
            }
        };
        assert!(!r.is_null());
        unsafe { (self.api.Z3_inc_ref)(c, r) };
        self.bo[e as usize] = r;
        r
    }
    /// satisfiability of the conjunction; a model for the symbols in `syms`
    pub fn check(&mut self, x: &mut Ctx, cs: &[E]) -> Res {
        let mut key: Vec<E> = cs.to_vec();
        key.sort();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.st.cache_hits += 1;
            return match r {
                Some(m) => Res::Sat(m.clone()),
                None => Res::Unsat,
            };
        }
        let t = Instant::now();
        self.st.queries += 1;
        let mut sup: Supp = [0; NSYM / 64];
        let mut fs = vec![];
        for e in &key {
            let s = *x.support(*e);
            supp_or(&mut sup, &s);
            fs.push(self.to(x, *e));
        }
        let c = self.c;
        let mut res = Res::Unknown;
        unsafe {
            for (i, s) in [self.fast, self.slow].into_iter().enumerate() {
                if i == 1 {
                    self.st.slow += 1;
                }
                (self.api.Z3_solver_reset)(c, s);
                for f in &fs {
                    (self.api.Z3_solver_assert)(c, s, *f);
                }
                let r = (self.api.Z3_solver_check)(c, s);
                if (self.api.Z3_get_error_code)(c) != 0 {
                    panic!("z3 error {}", (self.api.Z3_get_error_code)(c));
                }
                if r == 1 {
                    let m = (self.api.Z3_solver_get_model)(c, s);
                    (self.api.Z3_model_inc_ref)(c, m);
                    let mut out = vec![];
                    for y in supp_iter(&sup) {
                        let e = x.sym(y);
                        let a = self.tb(x, e);
                        let mut v: P = std::ptr::null_mut();
                        let ok = (self.api.Z3_model_eval)(c, m, a, true, &mut v);
                        assert!(ok);
                        let mut k = 0u64;
                        let ok = (self.api.Z3_get_numeral_uint64)(c, v, &mut k);
                        assert!(ok);
                        out.push((y, k as u8));
                    }
                    (self.api.Z3_model_dec_ref)(c, m);
                    res = Res::Sat(out);
                    break;
                } else if r == -1 {
                    res = Res::Unsat;
                    break;
                }
            }
        }
        self.st.time_us += t.elapsed().as_micros() as u64;
        match &res {
            Res::Sat(m) => {
                self.st.sat += 1;
                self.cache.insert(key, Some(m.clone()));
            }
            Res::Unsat => {
                self.st.unsat += 1;
                self.cache.insert(key, None);
            }
            Res::Unknown => self.st.unknown += 1,
        }
        res
    }
}
