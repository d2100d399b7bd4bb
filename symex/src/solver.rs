//! SMT back end: libz3 through its C API.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, i: P, t: P, e: P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, o: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
}
extern "C" fn on_error(c: P, e: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {:?}", m);
    std::process::exit(4);
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Sat(Vec<(u16, u8)>),
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: P,
    params: P,
    bv: HashMap<u32, P>,
    cache: HashMap<Id, P, Fx>,
    bcache: HashMap<Id, P, Fx>,
    domc: HashMap<(u16, [u64; 4]), P>,
    qcache: HashMap<Vec<u64>, Res>,
    pub n_sat: u64,
    pub n_unsat: u64,
    pub n_unknown: u64,
    pub n_cached: u64,
    pub time: f64,
    pub timeout_ms: u32,
    pub dump: Option<String>,
    dumped: usize,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            // Not reference-counted terms: the context owns everything
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, on_error);
            let params = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, params);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, params, Z3_mk_string_symbol(ctx, k.as_ptr()), timeout_ms);
            Solver {
                ctx,
                params,
                bv: HashMap::new(),
                cache: HashMap::default(),
                bcache: HashMap::default(),
                domc: HashMap::new(),
                qcache: HashMap::new(),
                n_sat: 0,
                n_unsat: 0,
                n_unknown: 0,
                n_cached: 0,
                time: 0.0,
                timeout_ms,
                dump: None,
                dumped: 0,
            }
        }
    }
    fn bvs(&mut self, w: u32) -> P {
        let c = self.ctx;
        *self.bv.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w) })
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        let s = self.bvs(w);
        let n = CString::new(v.to_string()).unwrap();
        unsafe { Z3_mk_numeral(self.ctx, n.as_ptr(), s) }
    }
    fn symbol(&mut self, s: u16) -> P {
        let n = CString::new(format!("b{}", s)).unwrap();
        let so = self.bvs(8);
        unsafe { Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, n.as_ptr()), so) }
    }
    fn fp(&mut self, i: Id) -> P {
        let t = self.term(i);
        unsafe {
            let s = if width(i) == 32 {
                Z3_mk_fpa_sort_single(self.ctx)
            } else {
                Z3_mk_fpa_sort_double(self.ctx)
            };
            Z3_mk_fpa_to_fp_bv(self.ctx, t, s)
        }
    }
    /// Boolean term of a 1-bit node
    fn boolean(&mut self, i: Id) -> P {
        if let Some(p) = self.bcache.get(&i) {
            return *p;
        }
        let c = self.ctx;
        let n = nd(i);
        let r = unsafe {
            match n.op {
                Op::Const(k) => {
                    if k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Cmp(k, x, y) => match k {
                    Cmp::Eq => {
                        if width(x) == 1 {
                            let (a, b) = (self.boolean(x), self.boolean(y));
                            Z3_mk_eq(c, a, b)
                        } else {
                            let (a, b) = (self.term(x), self.term(y));
                            Z3_mk_eq(c, a, b)
                        }
                    }
                    Cmp::Ult | Cmp::Ule | Cmp::Slt | Cmp::Sle => {
                        let (a, b) = (self.term(x), self.term(y));
                        match k {
                            Cmp::Ult => Z3_mk_bvult(c, a, b),
                            Cmp::Ule => Z3_mk_bvule(c, a, b),
                            Cmp::Slt => Z3_mk_bvslt(c, a, b),
                            _ => Z3_mk_bvsle(c, a, b),
                        }
                    }
                    _ => {
                        let (a, b) = (self.fp(x), self.fp(y));
                        match k {
                            Cmp::FOeq => Z3_mk_fpa_eq(c, a, b),
                            Cmp::FOlt => Z3_mk_fpa_lt(c, a, b),
                            Cmp::FOle => Z3_mk_fpa_leq(c, a, b),
                            _ => {
                                let v = [Z3_mk_fpa_is_nan(c, a), Z3_mk_fpa_is_nan(c, b)];
                                Z3_mk_or(c, 2, v.as_ptr())
                            }
                        }
                    }
                },
                Op::Bin(B::And, x, y) => {
                    let v = [self.boolean(x), self.boolean(y)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Bin(B::Or, x, y) => {
                    let v = [self.boolean(x), self.boolean(y)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Bin(B::Xor, x, y) => {
                    let (a, b) = (self.boolean(x), self.boolean(y));
                    let e = Z3_mk_eq(c, a, b);
                    Z3_mk_not(c, e)
                }
                Op::Ite(k, x, y) => {
                    let (k, a, b) = (self.boolean(k), self.boolean(x), self.boolean(y));
                    Z3_mk_ite(c, k, a, b)
                }
                _ => {
                    let t = self.term(i);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, t, one)
                }
            }
        };
        self.bcache.insert(i, r);
        r
    }
    fn term(&mut self, i: Id) -> P {
        if let Some(p) = self.cache.get(&i) {
            return *p;
        }
        let c = self.ctx;
        let n = nd(i);
        let w = n.w as u32;
        let r = unsafe {
            match n.op {
                Op::Const(k) => self.num(k, w),
                Op::Sym(s) => self.symbol(s),
                Op::Bin(b, x, y) => match b {
                    B::FAdd | B::FSub | B::FMul | B::FDiv => {
                        let (a, d) = (self.fp(x), self.fp(y));
                        let rm = Z3_mk_fpa_rne(c);
                        let f = match b {
                            B::FAdd => Z3_mk_fpa_add(c, rm, a, d),
                            B::FSub => Z3_mk_fpa_sub(c, rm, a, d),
                            B::FMul => Z3_mk_fpa_mul(c, rm, a, d),
                            _ => Z3_mk_fpa_div(c, rm, a, d),
                        };
                        Z3_mk_fpa_to_ieee_bv(c, f)
                    }
                    _ => {
                        let (a, d) = (self.term(x), self.term(y));
                        match b {
                            B::Add => Z3_mk_bvadd(c, a, d),
                            B::Sub => Z3_mk_bvsub(c, a, d),
                            B::Mul => Z3_mk_bvmul(c, a, d),
                            B::UDiv => Z3_mk_bvudiv(c, a, d),
                            B::SDiv => Z3_mk_bvsdiv(c, a, d),
                            B::URem => Z3_mk_bvurem(c, a, d),
                            B::SRem => Z3_mk_bvsrem(c, a, d),
                            B::And => Z3_mk_bvand(c, a, d),
                            B::Or => Z3_mk_bvor(c, a, d),
                            B::Xor => Z3_mk_bvxor(c, a, d),
                            B::Shl => Z3_mk_bvshl(c, a, d),
                            B::LShr => Z3_mk_bvlshr(c, a, d),
                            B::AShr => Z3_mk_bvashr(c, a, d),
                            _ => unreachable!(),
                        }
                    }
                },
                Op::Cmp(..) => {
                    let b = self.boolean(i);
                    let (o, z) = (self.num(1, 1), self.num(0, 1));
                    Z3_mk_ite(c, b, o, z)
                }
                Op::Un(u, x) => {
                    let wi = width(x);
                    let so = if w == 32 {
                        Z3_mk_fpa_sort_single(c)
                    } else {
                        Z3_mk_fpa_sort_double(c)
                    };
                    match u {
                        U::UIToF | U::SIToF => {
                            let t = self.term(x);
                            let rm = Z3_mk_fpa_rne(c);
                            let f = if u == U::UIToF {
                                Z3_mk_fpa_to_fp_unsigned(c, rm, t, so)
                            } else {
                                Z3_mk_fpa_to_fp_signed(c, rm, t, so)
                            };
                            Z3_mk_fpa_to_ieee_bv(c, f)
                        }
                        U::FToUI => {
                            let t = self.fp(x);
                            Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), t, w)
                        }
                        U::FToSI => {
                            let t = self.fp(x);
                            Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), t, w)
                        }
                        U::FCvt => {
                            let t = self.fp(x);
                            let f = Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), t, so);
                            Z3_mk_fpa_to_ieee_bv(c, f)
                        }
                        U::FSqrt => {
                            let t = self.fp(x);
                            Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), t))
                        }
                        _ => {
                            let _ = wi;
                            let t = self.fp(x);
                            let rm = match u {
                                U::FFloor => Z3_mk_fpa_rtn(c),
                                U::FCeil => Z3_mk_fpa_rtp(c),
                                U::FTrunc => Z3_mk_fpa_rtz(c),
                                U::FRoundEven => Z3_mk_fpa_rne(c),
                                _ => Z3_mk_fpa_rna(c),
                            };
                            Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, rm, t))
                        }
                    }
                }
                Op::Ite(k, x, y) => {
                    let (k, a, b) = (self.boolean(k), self.term(x), self.term(y));
                    Z3_mk_ite(c, k, a, b)
                }
                Op::ZExt(x) => {
                    let t = self.term(x);
                    Z3_mk_zero_ext(c, w - width(x), t)
                }
                Op::SExt(x) => {
                    let t = self.term(x);
                    Z3_mk_sign_ext(c, w - width(x), t)
                }
                Op::Extract(x, lo) => {
                    let t = self.term(x);
                    Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, t)
                }
                Op::Concat(h, l) => {
                    let (a, b) = (self.term(h), self.term(l));
                    Z3_mk_concat(c, a, b)
                }
                Op::Lut(t, x) => {
                    let idx = self.term(x);
                    let tab = ar().tables[t as usize].clone();
                    let mut groups: HashMap<u128, Vec<usize>> = HashMap::new();
                    for (k, v) in tab.iter().enumerate() {
                        groups.entry(*v).or_default().push(k);
                    }
                    let mut gs: Vec<_> = groups.into_iter().collect();
                    gs.sort_by_key(|(v, g)| (std::cmp::Reverse(g.len()), *v));
                    let mut acc = self.num(gs[0].0, w);
                    for (v, g) in &gs[1..] {
                        let alts: Vec<P> = g
                            .iter()
                            .map(|k| {
                                let n = self.num(*k as u128, 8);
                                Z3_mk_eq(c, idx, n)
                            })
                            .collect();
                        let cond = Z3_mk_or(c, alts.len() as u32, alts.as_ptr());
                        let val = self.num(*v, w);
                        acc = Z3_mk_ite(c, cond, val, acc);
                    }
                    acc
                }
            }
        };
        self.cache.insert(i, r);
        r
    }
    fn domain(&mut self, s: u16, d: &[u64; 4]) -> P {
        if let Some(p) = self.domc.get(&(s, *d)) {
            return *p;
        }
        let c = self.ctx;
        let x = self.symbol(s);
        let mut parts = Vec::new();
        let has = |v: usize| d[v / 64] >> (v % 64) & 1 == 1;
        let mut v = 0;
        while v < 256 {
            if has(v) {
                let lo = v;
                while v < 256 && has(v) {
                    v += 1;
                }
                let hi = v - 1;
                unsafe {
                    let (l, h) = (self.num(lo as u128, 8), self.num(hi as u128, 8));
                    if lo == hi {
                        parts.push(Z3_mk_eq(c, x, l));
                    } else {
                        let b = [Z3_mk_bvule(c, l, x), Z3_mk_bvule(c, x, h)];
                        parts.push(Z3_mk_and(c, 2, b.as_ptr()));
                    }
                }
            } else {
                v += 1;
            }
        }
        let r = unsafe { Z3_mk_or(c, parts.len() as u32, parts.as_ptr()) };
        self.domc.insert((s, *d), r);
        r
    }
    /// Decide the conjunction of 1-bit nodes and byte domains
    pub fn check(&mut self, conds: &[Id], doms: &[(u16, [u64; 4])]) -> Res {
        let mut key: Vec<u64> = conds.iter().map(|i| *i as u64).collect();
        key.sort();
        key.dedup();
        for (s, d) in doms {
            key.push(1 << 40 | *s as u64);
            key.extend_from_slice(d);
        }
        if let Some(r) = self.qcache.get(&key) {
            self.n_cached += 1;
            return r.clone();
        }
        let t0 = std::time::Instant::now();
        let fpq = false;
        let r = unsafe {
            let c = self.ctx;
            let lg = CString::new("QF_BV").unwrap();
            let has_fp = conds.iter().any(|i| uses_fp(*i));
            let s = if fpq || has_fp {
                Z3_mk_solver(c)
            } else {
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, lg.as_ptr()))
            };
            Z3_solver_inc_ref(c, s);
            Z3_solver_set_params(c, s, self.params);
            for i in conds {
                let b = self.boolean(*i);
                Z3_solver_assert(c, s, b);
            }
            for (k, d) in doms {
                if *d != [u64::MAX; 4] {
                    let b = self.domain(*k, d);
                    Z3_solver_assert(c, s, b);
                }
            }
            let r = Z3_solver_check(c, s);
            if let Some(dir) = &self.dump {
                if self.dumped < 40 {
                    let txt = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
                    let want = match r {
                        1 => "sat",
                        -1 => "unsat",
                        _ => "unknown",
                    };
                    let _ = std::fs::write(
                        format!("{}/q{}.{}.smt2", dir, self.dumped, want),
                        format!("(set-info :status {})\n{}\n(check-sat)\n", want, txt),
                    );
                    self.dumped += 1;
                }
            }
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut mask = 0u128;
                    for i in conds {
                        mask |= nd(*i).mask;
                    }
                    let mut v = Vec::new();
                    for (k, _) in doms {
                        let sy = self.symbol(*k);
                        let mut o: P = std::ptr::null_mut();
                        let mut val = 0u64;
                        if Z3_model_eval(c, m, sy, true, &mut o) {
                            Z3_get_numeral_uint64(c, o, &mut val);
                        }
                        v.push((*k, val as u8));
                    }
                    Z3_model_dec_ref(c, m);
                    self.n_sat += 1;
                    Res::Sat(v)
                }
                -1 => {
                    self.n_unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.n_unknown += 1;
                    Res::Unknown
                }
            };
            Z3_solver_dec_ref(c, s);
            out
        };
        self.time += t0.elapsed().as_secs_f64();
        self.qcache.insert(key, r.clone());
        r
    }
}

fn uses_fp(root: Id) -> bool {
    let mut seen = std::collections::HashSet::new();
    let mut st = vec![root];
    while let Some(i) = st.pop() {
        if !seen.insert(i) {
            continue;
        }
        match nd(i).op {
            Op::Bin(B::FAdd | B::FSub | B::FMul | B::FDiv, ..) | Op::Un(..) => return true,
            Op::Cmp(Cmp::FOeq | Cmp::FOlt | Cmp::FOle | Cmp::FUno, ..) => return true,
            Op::Bin(_, x, y) | Op::Cmp(_, x, y) | Op::Concat(x, y) => {
                st.push(x);
                st.push(y)
            }
            Op::ZExt(x) | Op::SExt(x) | Op::Extract(x, _) | Op::Lut(_, x) => st.push(x),
            Op::Ite(a, b, c) => {
                st.push(a);
                st.push(b);
                st.push(c)
            }
            _ => {}
        }
    }
    false
}
