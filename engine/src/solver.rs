//! Thin wrapper over libz3's C API: incremental solving along the current path, plus an independence-sliced query cache.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;
pub type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    pub fn Z3_mk_config() -> P; pub fn Z3_set_param_value(c: P, a: *const c_char, b: *const c_char); pub fn Z3_mk_context(c: P) -> P; pub fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    pub fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P; pub fn Z3_mk_bv_sort(c: P, w: c_uint) -> P; pub fn Z3_mk_const(c: P, s: P, t: P) -> P; pub fn Z3_inc_ref(c: P, a: P);
    pub fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P; pub fn Z3_mk_true(c: P) -> P; pub fn Z3_mk_false(c: P) -> P; pub fn Z3_mk_eq(c: P, a: P, b: P) -> P; pub fn Z3_mk_not(c: P, a: P) -> P; pub fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    pub fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P; pub fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P; pub fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvnot(c: P, a: P) -> P; pub fn Z3_mk_bvadd(c: P, a: P, b: P) -> P; pub fn Z3_mk_bvsub(c: P, a: P, b: P) -> P; pub fn Z3_mk_bvmul(c: P, a: P, b: P) -> P; pub fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P; pub fn Z3_mk_bvurem(c: P, a: P, b: P) -> P; pub fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P; pub fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvand(c: P, a: P, b: P) -> P; pub fn Z3_mk_bvor(c: P, a: P, b: P) -> P; pub fn Z3_mk_bvxor(c: P, a: P, b: P) -> P; pub fn Z3_mk_bvshl(c: P, a: P, b: P) -> P; pub fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P; pub fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvult(c: P, a: P, b: P) -> P; pub fn Z3_mk_bvslt(c: P, a: P, b: P) -> P; pub fn Z3_mk_concat(c: P, a: P, b: P) -> P; pub fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P; pub fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P; pub fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    pub fn Z3_mk_solver_for_logic(c: P, s: P) -> P; pub fn Z3_mk_solver(c: P) -> P; pub fn Z3_solver_inc_ref(c: P, s: P); pub fn Z3_solver_dec_ref(c: P, s: P); pub fn Z3_solver_push(c: P, s: P); pub fn Z3_solver_pop(c: P, s: P, n: c_uint); pub fn Z3_solver_assert(c: P, s: P, a: P); pub fn Z3_solver_check(c: P, s: P) -> c_int; pub fn Z3_solver_get_model(c: P, s: P) -> P;
    pub fn Z3_model_inc_ref(c: P, m: P); pub fn Z3_model_dec_ref(c: P, m: P); pub fn Z3_model_eval(c: P, m: P, a: P, comp: bool, out: *mut P) -> bool; pub fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    pub fn Z3_mk_params(c: P) -> P; pub fn Z3_params_inc_ref(c: P, p: P); pub fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint); pub fn Z3_solver_set_params(c: P, s: P, p: P);
    pub fn Z3_mk_fpa_sort_double(c: P) -> P; pub fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P; pub fn Z3_mk_fpa_rne(c: P) -> P; pub fn Z3_mk_fpa_rna(c: P) -> P; pub fn Z3_mk_fpa_rtz(c: P) -> P; pub fn Z3_mk_fpa_rtp(c: P) -> P; pub fn Z3_mk_fpa_rtn(c: P) -> P; pub fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P; pub fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P; pub fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P; pub fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    pub fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P; pub fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P; pub fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P; pub fn Z3_mk_fpa_is_nan(c: P, a: P) -> P; pub fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P; pub fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P; pub fn Z3_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P; pub fn Z3_mk_fpa_to_ubv(c: P, r: P, a: P, w: c_uint) -> P; pub fn Z3_mk_fpa_to_sbv(c: P, r: P, a: P, w: c_uint) -> P; pub fn Z3_mk_fpa_round_to_integral(c: P, r: P, a: P) -> P; pub fn Z3_mk_fpa_sqrt(c: P, r: P, a: P) -> P; pub fn Z3_mk_fpa_abs(c: P, a: P) -> P; pub fn Z3_mk_fpa_numeral_double(c: P, d: f64, s: P) -> P; pub fn Z3_mk_fpa_is_negative(c: P, a: P) -> P;
    pub fn Z3_get_full_version() -> *const c_char;
}
extern "C" { fn Z3_get_error_msg(c: P, code: c_int) -> *const c_char; }
extern "C" fn on_err(c: P, code: c_int) { eprintln!("z3 error {} {}", code, unsafe { CStr::from_ptr(Z3_get_error_msg(c, code)).to_string_lossy() }); std::process::exit(70); }

#[derive(Clone)]
pub enum Res { Sat(Rc<Vec<(u32, u128)>>), Unsat, Unknown }
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub cached: u64, pub secs: f64, pub max: f64 }
pub struct Solver { pub c: P, pub rl: Option<crate::real::Real>, pub note: String, bv: HashMap<Id, P, Fx>, bl: HashMap<Id, P, Fx>, fp: HashMap<Id, P, Fx>, supp: HashMap<Id, Rc<Vec<u32>>, Fx>, cache: HashMap<(Vec<Id>, Id), Res>, pub st: Stats, dbl: P, symw: HashMap<u32, HashSet<u32>>, pub timeout_ms: u32, pub uses_fun: bool, fpm: bool }

impl Solver {
    pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }
    pub fn new(timeout_ms: u32, fp: bool) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg); Z3_set_error_handler(c, Some(on_err));
            let dbl = Z3_mk_fpa_sort_double(c);
            Solver { c, rl: None, note: String::new(), bv: HashMap::with_hasher(Fx), bl: HashMap::with_hasher(Fx), fp: HashMap::with_hasher(Fx), supp: HashMap::with_hasher(Fx), cache: HashMap::new(), st: Stats { queries: 0, sat: 0, unsat: 0, unknown: 0, cached: 0, secs: 0.0, max: 0.0 }, dbl, symw: HashMap::new(), timeout_ms, uses_fun: false, fpm: fp }
        }
    }
    unsafe fn fresh(&self) -> P { let lg = CString::new("QF_BV").unwrap(); let s = if self.fpm { Z3_mk_solver(self.c) } else { Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, lg.as_ptr())) }; Z3_solver_inc_ref(self.c, s); s }
    pub unsafe fn limit(&self, s: P, ms: u32) { let p = Z3_mk_params(self.c); Z3_params_inc_ref(self.c, p); let n = CString::new("timeout").unwrap(); Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, n.as_ptr()), ms); Z3_solver_set_params(self.c, s, p); }
    unsafe fn model(&self, s: P, sy: &[u32]) -> Vec<(u32, u128)> {
        let m = Z3_solver_get_model(self.c, s); Z3_model_inc_ref(self.c, m);
        let mut out = vec![];
        for &s in sy { let ws: Vec<u32> = self.symw.get(&s).map(|x| x.iter().copied().collect()).unwrap_or_default();
            let mut val = 0u128;
            for w in ws { let nm = CString::new(format!("s{}_{}", s, w)).unwrap(); let k = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, nm.as_ptr()), Z3_mk_bv_sort(self.c, w));
                let mut o: P = std::ptr::null_mut(); if Z3_model_eval(self.c, m, k, true, &mut o) { let t = CStr::from_ptr(Z3_get_numeral_string(self.c, o)).to_string_lossy().into_owned(); let v: u128 = t.parse().unwrap_or(0); if v != 0 { val = v; } } }
            out.push((s, val)); }
        Z3_model_dec_ref(self.c, m);
        out
    }
    pub fn support(&mut self, ar: &Arena, i: Id) -> Rc<Vec<u32>> {
        if let Some(s) = self.supp.get(&i) { return s.clone(); }
        let mut st = vec![i];
        while let Some(&x) = st.last() {
            if self.supp.contains_key(&x) { st.pop(); continue; }
            let n = ar.node(x); let mut miss = false;
            for k in [n.a, n.b, n.c] { if k != NONE && !self.supp.contains_key(&k) { st.push(k); miss = true; } }
            if miss { continue; }
            let mut v: Vec<u32> = vec![]; if n.op == Op::Sym { v.push(n.k as u32); }
            let kids: Vec<Rc<Vec<u32>>> = [n.a, n.b, n.c].iter().filter(|k| **k != NONE).map(|k| self.supp[k].clone()).collect();
            let r = if v.is_empty() && !kids.is_empty() && kids.iter().all(|k| k.iter().all(|s| kids[0].binary_search(s).is_ok())) { kids[0].clone() } else { for k in kids { v.extend(k.iter()); } v.sort(); v.dedup(); Rc::new(v) };
            self.supp.insert(x, r); st.pop();
        }
        self.supp[&i].clone()
    }
    fn num(&self, k: u128, w: u32) -> P { unsafe { let s = CString::new(k.to_string()).unwrap(); Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_bv_sort(self.c, w)) } }
    fn keep(&self, a: P) -> P { unsafe { Z3_inc_ref(self.c, a) }; a }
    fn as_bool(&mut self, ar: &Arena, i: Id) -> P {
        if let Some(p) = self.bl.get(&i) { return *p; }
        self.prep(ar, i);
        if let Some(p) = self.bl.get(&i) { return *p; }
        let b = self.bv[&i]; let one = self.num(1, 1);
        let r = self.keep(unsafe { Z3_mk_eq(self.c, b, one) }); self.bl.insert(i, r); r
    }
    fn as_bv(&mut self, ar: &Arena, i: Id) -> P {
        if let Some(p) = self.bv.get(&i) { return *p; }
        self.prep(ar, i);
        if let Some(p) = self.bv.get(&i) { return *p; }
        if let Some(&b) = self.bl.get(&i) { let (o, z) = (self.num(1, 1), self.num(0, 1)); let r = self.keep(unsafe { Z3_mk_ite(self.c, b, o, z) }); self.bv.insert(i, r); return r; }
        let f = self.fp[&i]; let r = self.keep(unsafe { Z3_mk_fpa_to_ieee_bv(self.c, f) }); self.bv.insert(i, r); r
    }
    fn as_fp(&mut self, ar: &Arena, i: Id) -> P {
        if let Some(p) = self.fp.get(&i) { return *p; }
        if let Some(k) = ar.cval(i) { let r = self.keep(unsafe { Z3_mk_fpa_numeral_double(self.c, f64::from_bits(k as u64), self.dbl) }); self.fp.insert(i, r); return r; }
        self.prep(ar, i);
        if let Some(p) = self.fp.get(&i) { return *p; }
        let b = self.as_bv(ar, i); let r = self.keep(unsafe { Z3_mk_fpa_to_fp_bv(self.c, b, self.dbl) }); self.fp.insert(i, r); r
    }
    fn has(&self, i: Id) -> bool { self.bv.contains_key(&i) || self.bl.contains_key(&i) || self.fp.contains_key(&i) }
    /// translate i and everything below it (iteratively)
    fn prep(&mut self, ar: &Arena, root: Id) {
        let mut st = vec![root];
        while let Some(&i) = st.last() {
            if self.has(i) { st.pop(); continue; }
            let n = ar.node(i); let mut miss = false;
            for k in [n.a, n.b, n.c] { if k != NONE && !self.has(k) { st.push(k); miss = true; } }
            if miss { continue; }
            st.pop(); self.one(ar, i, n);
        }
    }
    fn one(&mut self, ar: &Arena, i: Id, n: Node) {
        let c = self.c; let w = n.w as u32;
        unsafe {
            let mut isb = false; let mut isf = false;
            let aw = ar.w(n.a);
            let r = match n.op {
                Op::Const => if w == 1 { isb = true; if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.num(n.k, w) },
                Op::Sym => { let s = CString::new(format!("s{}_{}", n.k, w)).unwrap(); self.symw.entry(n.k as u32).or_default().insert(w); Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, w)) }
                Op::Not if w == 1 => { isb = true; let a = self.as_bool(ar, n.a); Z3_mk_not(c, a) }
                Op::And if w == 1 => { isb = true; let v = [self.as_bool(ar, n.a), self.as_bool(ar, n.b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                Op::Or if w == 1 => { isb = true; let v = [self.as_bool(ar, n.a), self.as_bool(ar, n.b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                Op::Xor if w == 1 => { isb = true; let (a, b) = (self.as_bool(ar, n.a), self.as_bool(ar, n.b)); Z3_mk_xor(c, a, b) }
                Op::Eq => { isb = true; if aw == 1 { let (a, b) = (self.as_bool(ar, n.a), self.as_bool(ar, n.b)); Z3_mk_eq(c, a, b) } else { let (a, b) = (self.as_bv(ar, n.a), self.as_bv(ar, n.b)); Z3_mk_eq(c, a, b) } }
                Op::Ult => { isb = true; let (a, b) = (self.as_bv(ar, n.a), self.as_bv(ar, n.b)); Z3_mk_bvult(c, a, b) }
                Op::Slt => { isb = true; let (a, b) = (self.as_bv(ar, n.a), self.as_bv(ar, n.b)); Z3_mk_bvslt(c, a, b) }
                Op::Ite => { let q = self.as_bool(ar, n.a); if w == 1 { isb = true; let (a, b) = (self.as_bool(ar, n.b), self.as_bool(ar, n.c)); Z3_mk_ite(c, q, a, b) }
                    else if self.fp.contains_key(&n.b) && self.fp.contains_key(&n.c) { isf = true; let (a, b) = (self.as_fp(ar, n.b), self.as_fp(ar, n.c)); Z3_mk_ite(c, q, a, b) }
                    else { let (a, b) = (self.as_bv(ar, n.b), self.as_bv(ar, n.c)); Z3_mk_ite(c, q, a, b) } }
                Op::FLt | Op::FLe | Op::FEq | Op::FUno => { isb = true; let (a, b) = (self.as_fp(ar, n.a), self.as_fp(ar, n.b)); match n.op { Op::FLt => Z3_mk_fpa_lt(c, a, b), Op::FLe => Z3_mk_fpa_leq(c, a, b), Op::FEq => Z3_mk_fpa_eq(c, a, b), _ => { let v = [Z3_mk_fpa_is_nan(c, a), Z3_mk_fpa_is_nan(c, b)]; Z3_mk_or(c, 2, v.as_ptr()) } } }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => { isf = true; let (a, b) = (self.as_fp(ar, n.a), self.as_fp(ar, n.b)); let rm = Z3_mk_fpa_rne(c); match n.op { Op::FAdd => Z3_mk_fpa_add(c, rm, a, b), Op::FSub => Z3_mk_fpa_sub(c, rm, a, b), Op::FMul => Z3_mk_fpa_mul(c, rm, a, b), _ => Z3_mk_fpa_div(c, rm, a, b) } }
                Op::FRem => { eprintln!("unsupported: symbolic frem"); std::process::exit(71) }
                Op::U2F => { isf = true; let a = self.as_bv(ar, n.a); Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), a, self.dbl) }
                Op::S2F => { isf = true; let a = self.as_bv(ar, n.a); Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), a, self.dbl) }
                Op::F2U => { let a = self.as_fp(ar, n.a); let z = Z3_mk_fpa_numeral_double(c, 0.0, self.dbl); let m = Z3_mk_fpa_numeral_double(c, 2f64.powi(w as i32), self.dbl);
                    let v = [Z3_mk_fpa_is_nan(c, a), Z3_mk_fpa_leq(c, a, z)]; let low = Z3_mk_or(c, 2, v.as_ptr()); let hi = Z3_mk_fpa_leq(c, m, a);
                    let t = Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), a, w); let t = Z3_mk_ite(c, hi, self.num(ones(w), w), t); Z3_mk_ite(c, low, self.num(0, w), t) }
                Op::F2S => { let a = self.as_fp(ar, n.a); let m = Z3_mk_fpa_numeral_double(c, 2f64.powi(w as i32 - 1), self.dbl); let l = Z3_mk_fpa_numeral_double(c, -2f64.powi(w as i32 - 1), self.dbl);
                    let t = Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), a, w); let t = Z3_mk_ite(c, Z3_mk_fpa_leq(c, m, a), self.num(ones(w) >> 1, w), t); let t = Z3_mk_ite(c, Z3_mk_fpa_leq(c, a, l), self.num(1 << (w - 1), w), t); Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, a), self.num(0, w), t) }
                Op::FFun => { isf = true; let a = self.as_fp(ar, n.a); match FUNS[n.k as usize] {
                    "floor" => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), a), "ceil" => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), a), "trunc" => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), a), "round" => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), a), "rint" | "roundeven" => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rne(c), a),
                    "sqrt" => Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), a), "fabs" => Z3_mk_fpa_abs(c, a),
                    f => { eprintln!("unsupported: transcendental {} on a symbolic value in bit-precise mode", f); std::process::exit(71) } } }
                _ => {
                    let a = self.as_bv(ar, n.a); let b = if n.b != NONE { self.as_bv(ar, n.b) } else { a };
                    match n.op { Op::Not => Z3_mk_bvnot(c, a), Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b), Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b), Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b), Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b), Op::Extract => Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, a), Op::ZExt => Z3_mk_zero_ext(c, w - aw, a), Op::SExt => Z3_mk_sign_ext(c, w - aw, a), _ => unreachable!("{:?}", n.op) }
                }
            };
            let r = self.keep(r);
            if isb { self.bl.insert(i, r); } else if isf { self.fp.insert(i, r); } else { self.bv.insert(i, r); }
        }
    }
    /// is pc /\ extra satisfiable? The model covers the symbols of the constraints sharing symbols with `extra`.
    pub fn check(&mut self, ar: &Arena, pc: &[Id], extra: Id) -> Res {
        if ar.cval(extra) == Some(0) { return Res::Unsat; }
        // independence slice
        let mut syms: HashSet<u32> = self.support(ar, extra).iter().copied().collect();
        let sup: Vec<Rc<Vec<u32>>> = pc.iter().map(|c| self.support(ar, *c)).collect();
        let mut used = vec![false; pc.len()];
        loop { let mut ch = false; for i in 0..pc.len() { if !used[i] && sup[i].iter().any(|s| syms.contains(s)) { used[i] = true; ch = true; syms.extend(sup[i].iter()); } } if !ch { break; } }
        let rel: Vec<Id> = (0..pc.len()).filter(|i| used[*i]).map(|i| pc[i]).collect();
        let mut sy: Vec<u32> = syms.iter().copied().collect(); sy.sort();
        // over the reals only what has floating-point or real-valued symbols in it; everything else is bits
        if let Some(rl) = &self.rl { if sy.iter().any(|k| rl.ranges.contains_key(k)) || rel.iter().chain([&extra]).any(|e| has_float(ar, *e)) { return self.real_check(ar, rel, extra, sy); } }
        let mut krel = rel.clone(); krel.sort(); krel.dedup();
        let key = (krel, extra);
        if let Some(r) = self.cache.get(&key) { self.st.cached += 1; return r.clone(); }
        let t0 = Instant::now();
        let b = self.as_bool(ar, extra);
        // a fresh solver per query (full preprocessing, bit-blasting, SAT): z3's incremental mode is far slower here and was
        // observed to return wrong answers after a timeout. An answer at the very end of the time budget is not believed.
        let mut r = unsafe {
            let s = self.fresh(); let ms = self.timeout_ms; self.limit(s, ms);
            for k in &rel { let e = self.as_bool(ar, *k); Z3_solver_assert(self.c, s, e); }
            Z3_solver_assert(self.c, s, b);
            let r = match Z3_solver_check(self.c, s) { 1 => Res::Sat(Rc::new(self.model(s, &sy))), -1 => Res::Unsat, _ => Res::Unknown };
            Z3_solver_dec_ref(self.c, s); r
        };
        if t0.elapsed().as_millis() as u32 > self.timeout_ms / 10 * 9 { r = Res::Unknown; }
        let dt = t0.elapsed().as_secs_f64(); self.st.queries += 1; self.st.secs += dt; if dt > self.st.max { self.st.max = dt; }
        match r { Res::Sat(_) => self.st.sat += 1, Res::Unsat => self.st.unsat += 1, Res::Unknown => self.st.unknown += 1 }
        if !matches!(r, Res::Unknown) { self.cache.insert(key, r.clone()); }
        r
    }
}
fn has_float(ar: &Arena, i: Id) -> bool {
    let mut seen: HashSet<Id> = HashSet::new(); let mut st = vec![i];
    while let Some(x) = st.pop() { if !seen.insert(x) { continue; } let n = ar.node(x); if matches!(n.op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FLt | Op::FLe | Op::FEq | Op::FUno | Op::U2F | Op::S2F | Op::F2U | Op::F2S | Op::FFun) { return true; } for k in [n.a, n.b, n.c] { if k != NONE { st.push(k); } } }
    false
}
