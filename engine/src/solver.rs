//! z3 back end (C API) with constraint slicing and a query cache.
use crate::term::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(_c: P, e: c_int) { eprintln!("z3 error {}", e); std::process::exit(2); }

#[derive(Clone)]
pub enum Ans { Unsat, Sat(Rc<Vec<(u32, u128)>>), Unknown }

#[derive(Default, Clone)]
pub struct SStats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub cache_hits: u64, pub secs: f64 }

pub struct Solver {
    ctx: P,
    s: P,
    bv: HashMap<T, P>,
    bo: HashMap<T, P>,
    cache: HashMap<Vec<T>, Ans>,
    pub st: SStats,
    pub dump_dir: Option<String>,
    pub dumped: u32,
    pub dump_max: u32,
    pub deadline: Option<Instant>,
}

impl Solver {
    pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, on_err);
            let s = if std::env::var("SYMLL_SIMPLE").is_err() { let l = CString::new("QF_BV").unwrap(); Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr())) } else { Z3_mk_simple_solver(ctx) };
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, s, p);
            Solver { ctx, s, bv: HashMap::new(), bo: HashMap::new(), cache: HashMap::new(), st: SStats::default(), dump_dir: None, dumped: 0, dump_max: 0, deadline: None }
        }
    }
    fn to_bv(&mut self, ts: &Terms, t: T) -> P {
        if let Some(&p) = self.bv.get(&t) { return p; }
        let c = self.ctx;
        let n = ts.nodes[t as usize];
        let p = unsafe {
            match n.k {
                K::Const(v) => { let s = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(c, s.as_ptr(), Z3_mk_bv_sort(c, n.w as c_uint)) }
                // the symbol carries index and width, so one index at two widths stays two constants
                K::Var(i) => Z3_mk_const(c, Z3_mk_int_symbol(c, (i * 256 + n.w as u32) as c_int), Z3_mk_bv_sort(c, n.w as c_uint)),
                K::Bin(op, a, b) => {
                    if is_cmp(op) || n.w == 1 {
                        let b = self.to_bool(ts, t);
                        let so = Z3_mk_bv_sort(c, 1);
                        let one = Z3_mk_numeral(c, b"1\0".as_ptr() as *const c_char, so);
                        let zero = Z3_mk_numeral(c, b"0\0".as_ptr() as *const c_char, so);
                        Z3_mk_ite(c, b, one, zero)
                    } else {
                        let x = self.to_bv(ts, a);
                        let y = self.to_bv(ts, b);
                        match op {
                            Op::Add => Z3_mk_bvadd(c, x, y), Op::Sub => Z3_mk_bvsub(c, x, y), Op::Mul => Z3_mk_bvmul(c, x, y),
                            Op::UDiv => Z3_mk_bvudiv(c, x, y), Op::SDiv => Z3_mk_bvsdiv(c, x, y), Op::URem => Z3_mk_bvurem(c, x, y), Op::SRem => Z3_mk_bvsrem(c, x, y),
                            Op::And => Z3_mk_bvand(c, x, y), Op::Or => Z3_mk_bvor(c, x, y), Op::Xor => Z3_mk_bvxor(c, x, y),
                            Op::Shl => Z3_mk_bvshl(c, x, y), Op::LShr => Z3_mk_bvlshr(c, x, y), Op::AShr => Z3_mk_bvashr(c, x, y),
                            _ => unreachable!(),
                        }
                    }
                }
                K::Ite(i, a, b) => { let i = self.to_bool(ts, i); let x = self.to_bv(ts, a); let y = self.to_bv(ts, b); Z3_mk_ite(c, i, x, y) }
                K::Zext(a) => { let x = self.to_bv(ts, a); Z3_mk_zero_ext(c, (n.w - ts.w(a)) as c_uint, x) }
                K::Sext(a) => { let x = self.to_bv(ts, a); Z3_mk_sign_ext(c, (n.w - ts.w(a)) as c_uint, x) }
                K::Extract(a, lo) => { let x = self.to_bv(ts, a); Z3_mk_extract(c, (lo + n.w - 1) as c_uint, lo as c_uint, x) }
                K::Concat(h, l) => { let x = self.to_bv(ts, h); let y = self.to_bv(ts, l); Z3_mk_concat(c, x, y) }
            }
        };
        self.bv.insert(t, p);
        p
    }
    fn to_bool(&mut self, ts: &Terms, t: T) -> P {
        if let Some(&p) = self.bo.get(&t) { return p; }
        let c = self.ctx;
        let n = ts.nodes[t as usize];
        assert_eq!(n.w, 1);
        let p = unsafe {
            match n.k {
                K::Const(v) => if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                K::Bin(op, a, b) if is_cmp(op) => {
                    if ts.w(a) == 1 && op == Op::Eq { let x = self.to_bool(ts, a); let y = self.to_bool(ts, b); Z3_mk_eq(c, x, y) }
                    else {
                        let x = self.to_bv(ts, a);
                        let y = self.to_bv(ts, b);
                        match op { Op::Eq => Z3_mk_eq(c, x, y), Op::Ult => Z3_mk_bvult(c, x, y), Op::Ule => Z3_mk_bvule(c, x, y), Op::Slt => Z3_mk_bvslt(c, x, y), _ => Z3_mk_bvsle(c, x, y) }
                    }
                }
                K::Bin(Op::And, a, b) => { let v = [self.to_bool(ts, a), self.to_bool(ts, b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                K::Bin(Op::Or, a, b) => { let v = [self.to_bool(ts, a), self.to_bool(ts, b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                K::Bin(Op::Xor, a, b) => {
                    if ts.as_const(b) == Some(1) { let x = self.to_bool(ts, a); Z3_mk_not(c, x) }
                    else { let x = self.to_bool(ts, a); let y = self.to_bool(ts, b); Z3_mk_xor(c, x, y) }
                }
                K::Bin(Op::Add, a, b) | K::Bin(Op::Sub, a, b) => { let x = self.to_bool(ts, a); let y = self.to_bool(ts, b); Z3_mk_xor(c, x, y) }
                K::Bin(Op::Mul, a, b) => { let v = [self.to_bool(ts, a), self.to_bool(ts, b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                K::Ite(i, a, b) => { let i = self.to_bool(ts, i); let x = self.to_bool(ts, a); let y = self.to_bool(ts, b); Z3_mk_ite(c, i, x, y) }
                K::Var(_) | K::Extract(..) => {
                    let x = self.to_bv(ts, t);
                    let one = Z3_mk_numeral(c, b"1\0".as_ptr() as *const c_char, Z3_mk_bv_sort(c, 1));
                    Z3_mk_eq(c, x, one)
                }
                k => panic!("to_bool {:?}", k),
            }
        };
        self.bo.insert(t, p);
        p
    }
    /// Is (sliced) pc /\ cond satisfiable?  `pc` is the whole path condition.
    pub fn check(&mut self, ts: &mut Terms, pc: &[T], cond: T) -> Ans {
        if let Some(c) = ts.as_const(cond) { if c == 0 { return Ans::Unsat; } }
        // slicing by shared support
        let mut vars: Vec<u32> = ts.support(cond).to_vec();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, &p) in pc.iter().enumerate() {
                if used[i] { continue; }
                let s = ts.support(p);
                if s.iter().any(|v| vars.binary_search(v).is_ok()) {
                    used[i] = true;
                    let m = merge(&vars, &s);
                    if m.len() != vars.len() { ch = true; vars = m; }
                }
            }
            if !ch { break; }
        }
        let mut key: Vec<T> = pc.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, &t)| t).collect();
        key.push(cond);
        key.sort_unstable();
        key.dedup();
        if let Some(a) = self.cache.get(&key) { self.st.cache_hits += 1; return a.clone(); }
        let t0 = Instant::now();
        if self.deadline.map_or(false, |d| t0 > d) { self.st.unknown += 1; return Ans::Unknown; }
        let a = unsafe {
            let c = self.ctx;
            Z3_solver_push(c, self.s);
            for &t in &key { let p = self.to_bool(ts, t); Z3_solver_assert(c, self.s, p); }
            let r = Z3_solver_check(c, self.s);
            if let Some(d) = &self.dump_dir {
                if self.dumped < self.dump_max && r != 0 {
                    self.dumped += 1;
                    let s = CStr::from_ptr(Z3_solver_to_string(c, self.s)).to_string_lossy().into_owned();
                    let ans = if r == 1 { "sat" } else { "unsat" };
                    let _ = std::fs::write(format!("{}/q{}-{}.{}.smt2", d, std::process::id(), self.dumped, ans), format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s));
                }
            }
            let ans = match r {
                1 => {
                    let m = Z3_solver_get_model(c, self.s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    // every width variant of the variables that occur in the key
                    let mut seen = vec![];
                    for &t in &key { collect_vars(ts, t, &mut seen); }
                    seen.sort_unstable(); seen.dedup();
                    for &vt in &seen {
                        let p = self.to_bv(ts, vt);
                        let mut v: P = std::ptr::null_mut();
                        Z3_model_eval(c, m, p, true, &mut v);
                        let s = CStr::from_ptr(Z3_get_numeral_string(c, v)).to_string_lossy().into_owned();
                        if let K::Var(i) = ts.k(vt) { out.push((i, s.parse::<u128>().unwrap())); }
                    }
                    Z3_model_dec_ref(c, m);
                    self.st.sat += 1;
                    Ans::Sat(Rc::new(out))
                }
                -1 => { self.st.unsat += 1; Ans::Unsat }
                _ => { self.st.unknown += 1; Ans::Unknown }
            };
            Z3_solver_pop(c, self.s, 1);
            ans
        };
        self.st.queries += 1;
        self.st.secs += t0.elapsed().as_secs_f64();
        self.cache.insert(key, a.clone());
        a
    }
}

fn collect_vars(ts: &Terms, t: T, out: &mut Vec<T>) {
    let mut seen = std::collections::HashSet::new();
    let mut st = vec![t];
    while let Some(t) = st.pop() {
        if !seen.insert(t) { continue; }
        match ts.k(t) {
            K::Const(_) => {}
            K::Var(_) => out.push(t),
            K::Bin(_, a, b) | K::Concat(a, b) => { st.push(a); st.push(b); }
            K::Ite(a, b, c) => { st.push(a); st.push(b); st.push(c); }
            K::Zext(a) | K::Sext(a) | K::Extract(a, _) => st.push(a),
        }
    }
}
