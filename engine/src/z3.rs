//! Minimal hand-written binding to libz3 and the translation of terms to it.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_del_config(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, d: *const P, r: P) -> P;
    fn Z3_mk_app(c: P, d: P, n: c_uint, a: *const P) -> P;
    // fp
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, f: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, f: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, f: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, f: P, w: c_uint) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_fma(c: P, rm: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_neg(c: P, a: P) -> P;
    fn Z3_mk_fpa_abs(c: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    // solver
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, out: *mut u64) -> bool;
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

extern "C" fn on_err(c: P, e: c_int) {
    let s = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {:?}", s);
    std::process::exit(3);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    quick: P,
    bvm: HashMap<E, P, Fx>,
    boolm: HashMap<E, P, Fx>,
    fpm: HashMap<E, P, Fx>,
    setm: HashMap<(E, SetId), P, Fx>,
    ufd: HashMap<(u32, Vec<u32>, u32), P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: std::time::Duration,
    pub max_time: std::time::Duration,
    pub slow_ms: u32,
}

pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{}.{}.{}.{}", a, b, c, d)
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.c) }
    }
}

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let quick = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, quick);
            let mut z = Z3 {
                c,
                quick,
                bvm: HashMap::default(),
                boolm: HashMap::default(),
                fpm: HashMap::default(),
                setm: HashMap::default(),
                ufd: HashMap::new(),
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: Default::default(),
                max_time: Default::default(),
                slow_ms: 60_000,
            };
            z.timeout(quick, 1500);
            z
        }
    }
    fn timeout(&mut self, s: P, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            let sym = Z3_mk_string_symbol(self.c, k.as_ptr());
            Z3_params_set_uint(self.c, p, sym, ms);
            Z3_solver_set_params(self.c, s, p);
        }
    }
    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w);
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let t = CString::new(format!("{}", v)).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }
    fn conj(&self, v: &[P], and: bool) -> P {
        unsafe {
            match (v.len(), and) {
                (0, true) => Z3_mk_true(self.c),
                (0, false) => Z3_mk_false(self.c),
                (1, _) => v[0],
                (n, true) => Z3_mk_and(self.c, n as c_uint, v.as_ptr()),
                (n, false) => Z3_mk_or(self.c, n as c_uint, v.as_ptr()),
            }
        }
    }
    fn bit_tree(&mut self, t: P, bit: u32, base: u64, ivs: &[(u64, u64)]) -> P {
        let top = base | ((1u128 << (bit + 1)) - 1) as u64;
        let c = self.c;
        unsafe {
            if ivs.is_empty() {
                return Z3_mk_false(c);
            }
            if ivs[0].0 <= base && ivs[0].1 >= top {
                return Z3_mk_true(c);
            }
            let mid = base | 1u64 << bit;
            let (mut lo, mut hi) = (vec![], vec![]);
            for &(l, h) in ivs {
                if l < mid {
                    lo.push((l, h.min(mid - 1)));
                }
                if h >= mid {
                    hi.push((l.max(mid), h));
                }
            }
            let b = Z3_mk_eq(c, Z3_mk_extract(c, bit, bit, t), self.num(1, 1));
            if bit == 0 {
                return if hi.is_empty() { Z3_mk_not(c, b) } else { b };
            }
            let f = self.bit_tree(t, bit - 1, base, &lo);
            let g = self.bit_tree(t, bit - 1, mid, &hi);
            Z3_mk_ite(c, b, g, f)
        }
    }
    fn in_set(&mut self, a: &Arena, e: E, s: SetId) -> P {
        if let Some(&p) = self.setm.get(&(e, s)) {
            return p;
        }
        let t = self.bv(a, e);
        let w = a.w(e);
        let m = mask(w) as u64;
        if a.sets[s as usize].len() > 6 && w <= 64 {
            // a decision tree over the bits, most significant first
            let p = self.bit_tree(t, w - 1, 0, &a.sets[s as usize]);
            self.setm.insert((e, s), p);
            return p;
        }
        let mut parts = vec![];
        for &(l, h) in a.sets[s as usize].iter() {
            unsafe {
                let p = if l == h {
                    Z3_mk_eq(self.c, t, self.num(l as u128, w))
                } else {
                    let mut q = vec![];
                    if l > 0 {
                        q.push(Z3_mk_bvule(self.c, self.num(l as u128, w), t));
                    }
                    if h < m {
                        q.push(Z3_mk_bvule(self.c, t, self.num(h as u128, w)));
                    }
                    self.conj(&q, true)
                };
                parts.push(p);
            }
        }
        let p = self.conj(&parts, false);
        self.setm.insert((e, s), p);
        p
    }
    pub fn boolean(&mut self, a: &Arena, e: E) -> P {
        if let Some(&p) = self.boolm.get(&e) {
            return p;
        }
        let n = a.n(e);
        debug_assert!(n.w == 1);
        let c = self.c;
        let p = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::And | Op::Or => {
                    let x = self.boolean(a, n.a[0]);
                    let y = self.boolean(a, n.a[1]);
                    self.conj(&[x, y], n.op == Op::And)
                }
                Op::Xor => {
                    let x = self.boolean(a, n.a[0]);
                    if a.c(n.a[1]) == Some(1) {
                        Z3_mk_not(c, x)
                    } else {
                        let y = self.boolean(a, n.a[1]);
                        Z3_mk_xor(c, x, y)
                    }
                }
                Op::Eq if a.w(n.a[0]) == 1 => {
                    let x = self.boolean(a, n.a[0]);
                    let y = self.boolean(a, n.a[1]);
                    Z3_mk_eq(c, x, y)
                }
                Op::Eq => {
                    let x = self.bv(a, n.a[0]);
                    let y = self.bv(a, n.a[1]);
                    Z3_mk_eq(c, x, y)
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let x = self.bv(a, n.a[0]);
                    let y = self.bv(a, n.a[1]);
                    match n.op {
                        Op::Ult => Z3_mk_bvult(c, x, y),
                        Op::Ule => Z3_mk_bvule(c, x, y),
                        Op::Slt => Z3_mk_bvslt(c, x, y),
                        _ => Z3_mk_bvsle(c, x, y),
                    }
                }
                Op::Ite => {
                    let x = self.boolean(a, n.a[0]);
                    let y = self.boolean(a, n.a[1]);
                    let z = self.boolean(a, n.a[2]);
                    Z3_mk_ite(c, x, y, z)
                }
                Op::InSet => self.in_set(a, n.a[0], n.k as SetId),
                Op::FOeq => {
                    let x = self.fp(a, n.a[0]);
                    let y = self.fp(a, n.a[1]);
                    Z3_mk_fpa_eq(c, x, y)
                }
                Op::FOlt => {
                    let x = self.fp(a, n.a[0]);
                    let y = self.fp(a, n.a[1]);
                    Z3_mk_fpa_lt(c, x, y)
                }
                Op::FOle => {
                    let x = self.fp(a, n.a[0]);
                    let y = self.fp(a, n.a[1]);
                    Z3_mk_fpa_leq(c, x, y)
                }
                Op::FUno => {
                    let x = self.fp(a, n.a[0]);
                    let y = self.fp(a, n.a[1]);
                    let p = Z3_mk_fpa_is_nan(c, x);
                    let q = Z3_mk_fpa_is_nan(c, y);
                    self.conj(&[p, q], false)
                }
                _ => {
                    let t = self.bv(a, e);
                    Z3_mk_eq(c, t, self.num(1, 1))
                }
            }
        };
        self.boolm.insert(e, p);
        p
    }
    fn rne(&self) -> P {
        unsafe { Z3_mk_fpa_rne(self.c) }
    }
    fn fsort(&self, w: u32) -> P {
        unsafe {
            if w == 32 {
                Z3_mk_fpa_sort_single(self.c)
            } else {
                Z3_mk_fpa_sort_double(self.c)
            }
        }
    }
    fn fp(&mut self, a: &Arena, e: E) -> P {
        if let Some(&p) = self.fpm.get(&e) {
            return p;
        }
        let n = a.n(e);
        let c = self.c;
        let p = unsafe {
            match n.op {
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let x = self.fp(a, n.a[0]);
                    let y = self.fp(a, n.a[1]);
                    let r = self.rne();
                    match n.op {
                        Op::FAdd => Z3_mk_fpa_add(c, r, x, y),
                        Op::FSub => Z3_mk_fpa_sub(c, r, x, y),
                        Op::FMul => Z3_mk_fpa_mul(c, r, x, y),
                        _ => Z3_mk_fpa_div(c, r, x, y),
                    }
                }
                Op::Fma => {
                    let x = self.fp(a, n.a[0]);
                    let y = self.fp(a, n.a[1]);
                    let z = self.fp(a, n.a[2]);
                    Z3_mk_fpa_fma(c, self.rne(), x, y, z)
                }
                Op::UIToFP => {
                    let x = self.bv(a, n.a[0]);
                    Z3_mk_fpa_to_fp_unsigned(c, self.rne(), x, self.fsort(n.w))
                }
                Op::SIToFP => {
                    let x = self.bv(a, n.a[0]);
                    Z3_mk_fpa_to_fp_signed(c, self.rne(), x, self.fsort(n.w))
                }
                Op::FPExt | Op::FPTrunc => {
                    let x = self.fp(a, n.a[0]);
                    Z3_mk_fpa_to_fp_float(c, self.rne(), x, self.fsort(n.w))
                }
                Op::FNeg => {
                    let x = self.fp(a, n.a[0]);
                    Z3_mk_fpa_neg(c, x)
                }
                Op::FAbs => {
                    let x = self.fp(a, n.a[0]);
                    Z3_mk_fpa_abs(c, x)
                }
                Op::FSqrt => {
                    let x = self.fp(a, n.a[0]);
                    Z3_mk_fpa_sqrt(c, self.rne(), x)
                }
                Op::FFloor | Op::FCeil | Op::FTruncI => {
                    let x = self.fp(a, n.a[0]);
                    let rm = match n.op {
                        Op::FFloor => Z3_mk_fpa_rtn(c),
                        Op::FCeil => Z3_mk_fpa_rtp(c),
                        _ => Z3_mk_fpa_rtz(c),
                    };
                    Z3_mk_fpa_round_to_integral(c, rm, x)
                }
                _ => {
                    let x = self.bv(a, e);
                    Z3_mk_fpa_to_fp_bv(c, x, self.fsort(n.w))
                }
            }
        };
        self.fpm.insert(e, p);
        p
    }
    fn bv(&mut self, a: &Arena, e: E) -> P {
        if let Some(&p) = self.bvm.get(&e) {
            return p;
        }
        let n = a.n(e);
        let c = self.c;
        use Op::*;
        let p = unsafe {
            match n.op {
                Const => self.num(n.k, n.w),
                Var => {
                    let nm = CString::new(format!("v{}", n.k)).unwrap();
                    let s = Z3_mk_string_symbol(c, nm.as_ptr());
                    Z3_mk_const(c, s, Z3_mk_bv_sort(c, n.w))
                }
                Uf => {
                    let l = a.ufargs[n.k as usize].clone();
                    let ws: Vec<u32> = l.1.iter().map(|x| a.w(*x)).collect();
                    let key = (l.0, ws.clone(), n.w);
                    let d = if let Some(&d) = self.ufd.get(&key) {
                        d
                    } else {
                        let sorts: Vec<P> = ws.iter().map(|w| Z3_mk_bv_sort(c, *w)).collect();
                        let nm = CString::new(format!("uf{}_{:?}_{}", l.0, ws, n.w)).unwrap();
                        let s = Z3_mk_string_symbol(c, nm.as_ptr());
                        let d = Z3_mk_func_decl(c, s, sorts.len() as c_uint, sorts.as_ptr(), Z3_mk_bv_sort(c, n.w));
                        self.ufd.insert(key, d);
                        d
                    };
                    let args: Vec<P> = l.1.iter().map(|x| self.bv(a, *x)).collect();
                    Z3_mk_app(c, d, args.len() as c_uint, args.as_ptr())
                }
                FAdd | FSub | FMul | FDiv | Fma | UIToFP | SIToFP | FPExt | FPTrunc | FNeg | FAbs | FSqrt | FFloor | FCeil | FTruncI => {
                    let f = self.fp(a, e);
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                FPToUI | FPToSI => {
                    let f = self.fp(a, n.a[0]);
                    if n.op == FPToUI {
                        Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), f, n.w)
                    } else {
                        Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), f, n.w)
                    }
                }
                FRem => {
                    eprintln!("frem not supported");
                    std::process::exit(3)
                }
                _ if n.w == 1 && matches!(n.op, And | Or | Xor | Eq | Ult | Ule | Slt | Sle | Ite | InSet | FOeq | FOlt | FOle | FUno) => {
                    let b = self.boolean(a, e);
                    Z3_mk_ite(c, b, self.num(1, 1), self.num(0, 1))
                }
                ZExt => {
                    let x = self.bv(a, n.a[0]);
                    Z3_mk_zero_ext(c, n.w - a.w(n.a[0]), x)
                }
                SExt => {
                    let x = self.bv(a, n.a[0]);
                    Z3_mk_sign_ext(c, n.w - a.w(n.a[0]), x)
                }
                Extract => {
                    let x = self.bv(a, n.a[0]);
                    Z3_mk_extract(c, n.k as c_uint + n.w - 1, n.k as c_uint, x)
                }
                Concat => {
                    let x = self.bv(a, n.a[0]);
                    let y = self.bv(a, n.a[1]);
                    Z3_mk_concat(c, x, y)
                }
                Ite => {
                    let x = self.boolean(a, n.a[0]);
                    let y = self.bv(a, n.a[1]);
                    let z = self.bv(a, n.a[2]);
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let x = self.bv(a, n.a[0]);
                    let y = self.bv(a, n.a[1]);
                    match n.op {
                        Add => Z3_mk_bvadd(c, x, y),
                        Mul => Z3_mk_bvmul(c, x, y),
                        UDiv => Z3_mk_bvudiv(c, x, y),
                        SDiv => Z3_mk_bvsdiv(c, x, y),
                        URem => Z3_mk_bvurem(c, x, y),
                        SRem => Z3_mk_bvsrem(c, x, y),
                        Shl => Z3_mk_bvshl(c, x, y),
                        LShr => Z3_mk_bvlshr(c, x, y),
                        AShr => Z3_mk_bvashr(c, x, y),
                        And => Z3_mk_bvand(c, x, y),
                        Or => Z3_mk_bvor(c, x, y),
                        Xor => Z3_mk_bvxor(c, x, y),
                        o => panic!("bv {:?}", o),
                    }
                }
            }
        };
        self.bvm.insert(e, p);
        p
    }

    /// Decide the conjunction of `cs` with the domains `doms` ((var term, set)); with want = vars to read back on sat.
    pub fn check(&mut self, a: &mut Arena, doms: &[(u32, SetId)], cs: &[E], want: &[u32]) -> (Res, Vec<u64>) {
        let t0 = std::time::Instant::now();
        let mut parts = vec![];
        for &(v, s) in doms {
            let full = a.var_full(v);
            let e = a.var(v);
            // declared range and current domain together
            let vi = &a.vars[v as usize];
            if s == full && vi.lo == 0 && vi.hi == mask(vi.w) as u64 {
                continue;
            }
            let p = self.in_set(a, e, s);
            parts.push(p);
        }
        for &e in cs {
            let p = self.boolean(a, e);
            parts.push(p);
        }
        let r = self.run(self.quick, &parts, a, want);
        let r = if r.0 == Res::Unknown {
            unsafe {
                let s = Z3_mk_solver(self.c);
                Z3_solver_inc_ref(self.c, s);
                let ms = self.slow_ms;
                self.timeout(s, ms);
                let r = self.run(s, &parts, a, want);
                Z3_solver_dec_ref(self.c, s);
                r
            }
        } else {
            r
        };
        self.queries += 1;
        match r.0 {
            Res::Sat => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        let dt = t0.elapsed();
        if dt.as_millis() > 300 && std::env::var("SX_DBG").is_ok() {
            eprintln!("slow {:?} {:?}", dt, r.0);
            for &(v, s) in doms {
                eprintln!("  dom v{} {} intervals", v, a.sets[s as usize].len());
            }
            for &e in cs {
                eprintln!("  {}", a.show(e, 6));
            }
        }
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        r
    }
    fn run(&mut self, s: P, parts: &[P], a: &mut Arena, want: &[u32]) -> (Res, Vec<u64>) {
        unsafe {
            Z3_solver_push(self.c, s);
            for p in parts {
                Z3_solver_assert(self.c, s, *p);
            }
            let r = Z3_solver_check(self.c, s);
            let mut vals = vec![];
            if r == 1 && !want.is_empty() {
                let m = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, m);
                for &v in want {
                    let e = a.var(v);
                    let t = self.bv(a, e);
                    let mut out: P = std::ptr::null_mut();
                    let mut val = 0u64;
                    if Z3_model_eval(self.c, m, t, true, &mut out) {
                        Z3_get_numeral_uint64(self.c, out, &mut val);
                    }
                    vals.push(val);
                }
                Z3_model_dec_ref(self.c, m);
            }
            Z3_solver_pop(self.c, s, 1);
            (
                match r {
                    1 => Res::Sat,
                    -1 => Res::Unsat,
                    _ => Res::Unknown,
                },
                vals,
            )
        }
    }
    /// Sat check that also evaluates a term to a concrete value.
    pub fn value_of(&mut self, a: &mut Arena, doms: &[(u32, SetId)], cs: &[E], t: E) -> (Res, u64) {
        // add equation through a fresh reading of the model: read all vars, then evaluate
        let vars: Vec<u32> = {
            let mut s: Vec<u32> = doms.iter().map(|d| d.0).collect();
            for v in a.supps[a.supp[t as usize] as usize].iter() {
                if !s.contains(v) {
                    s.push(*v);
                }
            }
            s
        };
        let (r, vals) = self.check(a, doms, cs, &vars);
        if r != Res::Sat {
            return (r, 0);
        }
        let mut memo = HashMap::default();
        let f = |v: u32| vars.iter().position(|x| *x == v).map(|i| vals[i]).unwrap_or(0);
        match a.eval(t, &f, &mut memo) {
            Some(v) => (Res::Sat, v as u64),
            None => (Res::Unknown, 0),
        }
    }
}

// silence unused warnings for bindings kept for completeness
#[allow(dead_code)]
fn _unused(c: P) {
    unsafe {
        let _ = Z3_mk_bool_sort(c);
    }
}
