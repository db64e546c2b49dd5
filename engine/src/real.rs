//! Real-arithmetic mode (--real): floating-point expressions are decided over the reals with explicit rounding-error bounds.
//! Every double is its exact mathematical value plus an error of at most rel*|value| + abs; comparisons and roundings get a fresh
//! variable bounded by that error, so whatever rounding does is covered. Integers are reals related by the same constraints (their
//! integrality is only used where an equality is denied). Logarithms are variables constrained by true facts about ln at points of
//! the solver's choosing (monotonicity and tangents), added until the solver's model is a real one or there is no model left.
use crate::expr::*;
use crate::solver::*;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_int, c_uint, CStr, CString};
use std::rc::Rc;
use std::time::Instant;
extern "C" {
    fn Z3_mk_real_sort(c: P) -> P; fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P; fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P; fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P; fn Z3_mk_le(c: P, a: P, b: P) -> P; fn Z3_mk_implies(c: P, a: P, b: P) -> P; fn Z3_simplify(c: P, a: P) -> P;
    fn Z3_get_numeral_decimal_string(c: P, a: P, prec: c_uint) -> *const std::ffi::c_char; fn Z3_get_ast_id(c: P, a: P) -> c_uint;
}
const U: f64 = 2.3e-16; // 2^-52 and a little
#[derive(Clone, Copy)]
struct T { z: P, rel: f64, abs: f64, lo: f64, hi: f64, int: bool }
impl T { fn mag(&self) -> f64 { self.lo.abs().max(self.hi.abs()) } fn min(&self) -> f64 { if self.lo > 0.0 { self.lo } else if self.hi < 0.0 { -self.hi } else { 0.0 } } }
struct Log { l: P, x: P, pts: HashSet<u64>, lem: Vec<P>, lo: f64, hi: f64, def: P }
pub struct Real { pub cut: Option<String>, t: HashMap<Id, T, Fx>, b: HashMap<Id, P, Fx>, side: HashMap<Id, Vec<P>, Fx>, logs: Vec<Log>, logkey: HashMap<u32, usize>, uses: HashMap<Id, Vec<usize>, Fx>, fresh: u32, pub ranges: HashMap<u32, (f64, f64, bool)>, fsym: HashSet<u32>, ints: HashMap<Id, Vec<P>, Fx>, cache: HashMap<(Vec<Id>, Id), Res>, pub slivers: u64, pub lemmas: u64, real: P }
/// shortest exact rational of a double
fn rat(x: f64) -> String {
    if x == 0.0 { return "0".into(); }
    let b = x.to_bits(); let e = (b >> 52 & 0x7ff) as i32; let m = (b & ((1 << 52) - 1)) as u128; let (mut m, mut e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    while m & 1 == 0 { m >>= 1; e += 1; }
    let s = if x < 0.0 { "-" } else { "" };
    let p2 = |k: u32| -> String { let mut d: Vec<u8> = vec![1]; for _ in 0..k { let mut c = 0; for x in d.iter_mut() { let v = *x * 2 + c; *x = v % 10; c = v / 10; } if c > 0 { d.push(c); } } d.iter().rev().map(|x| (b'0' + x) as char).collect() };
    if e >= 0 { let mut d: Vec<u32> = m.to_string().bytes().rev().map(|c| (c - b'0') as u32).collect(); for _ in 0..e { let mut c = 0; for x in d.iter_mut() { let v = *x * 2 + c; *x = v % 10; c = v / 10; } if c > 0 { d.push(c); } } let t: String = d.iter().rev().map(|x| (b'0' + *x as u8) as char).collect(); format!("{}{}", s, t) } else { format!("{}{}/{}", s, m, p2((-e) as u32)) }
}
const INV_LN2: &str = "1.442695040888963407359924681001892137426645954152985934135449";
const INV_LN10: &str = "0.434294481903251827651128918916605082294397005803666566114453";
fn up(x: f64) -> f64 { if x == 0.0 { return 1e-300; } let y = x + x.abs() * 4e-16; if y == x { f64::from_bits(if x > 0.0 { x.to_bits() + 1 } else { x.to_bits() - 1 }) } else { y } }
fn down(x: f64) -> f64 { -up(-x) }
impl Real {
    pub fn new(c: P) -> Real { let real = unsafe { Z3_mk_real_sort(c) }; Real { cut: None, t: HashMap::with_hasher(Fx), b: HashMap::with_hasher(Fx), side: HashMap::with_hasher(Fx), logs: vec![], logkey: HashMap::new(), uses: HashMap::with_hasher(Fx), fresh: 0, ranges: HashMap::new(), fsym: HashSet::new(), ints: HashMap::with_hasher(Fx), cache: HashMap::new(), slivers: 0, lemmas: 0, real } }
}
struct Cx<'a> { c: P, r: &'a mut Real, ar: &'a Arena }
impl<'a> Cx<'a> {
    fn keep(&self, a: P) -> P { unsafe { Z3_inc_ref(self.c, a) }; a }
    fn q(&self, s: &str) -> P { let s = CString::new(s).unwrap(); self.keep(unsafe { Z3_mk_numeral(self.c, s.as_ptr(), self.r.real) }) }
    fn qf(&self, x: f64) -> P { self.q(&rat(x)) }
    fn var(&mut self, n: &str) -> P { self.r.fresh += 1; let s = CString::new(format!("{}!{}", n, self.r.fresh)).unwrap(); self.keep(unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, s.as_ptr()), self.r.real) }) }
    fn add(&self, a: P, b: P) -> P { let v = [a, b]; self.keep(unsafe { Z3_mk_add(self.c, 2, v.as_ptr()) }) }
    fn sub(&self, a: P, b: P) -> P { let v = [a, b]; self.keep(unsafe { Z3_mk_sub(self.c, 2, v.as_ptr()) }) }
    fn mul(&self, a: P, b: P) -> P { let v = [a, b]; self.keep(unsafe { Z3_mk_mul(self.c, 2, v.as_ptr()) }) }
    fn lt(&self, a: P, b: P) -> P { self.keep(unsafe { Z3_mk_lt(self.c, a, b) }) }
    fn le(&self, a: P, b: P) -> P { self.keep(unsafe { Z3_mk_le(self.c, a, b) }) }
    fn eq(&self, a: P, b: P) -> P { self.keep(unsafe { Z3_mk_eq(self.c, a, b) }) }
    fn not(&self, a: P) -> P { self.keep(unsafe { Z3_mk_not(self.c, a) }) }
    fn imp(&self, a: P, b: P) -> P { self.keep(unsafe { Z3_mk_implies(self.c, a, b) }) }
    fn or(&self, a: &[P]) -> P { self.keep(unsafe { Z3_mk_or(self.c, a.len() as u32, a.as_ptr()) }) }
    fn and(&self, a: &[P]) -> P { self.keep(unsafe { Z3_mk_and(self.c, a.len() as u32, a.as_ptr()) }) }
    fn ite(&self, c: P, a: P, b: P) -> P { self.keep(unsafe { Z3_mk_ite(self.c, c, a, b) }) }
    fn simp(&self, a: P) -> P { self.keep(unsafe { Z3_simplify(self.c, a) }) }
    fn iv(&self, z: P, rel: f64, abs: f64, lo: f64, hi: f64) -> T { T { z, rel, abs, lo: lo - lo.abs() * 1e-12, hi: hi + hi.abs() * 1e-12, int: false } }
    fn side(&mut self, i: Id, p: P) { self.r.side.entry(i).or_default().push(p); }
    /// a variable standing for the rounding error of t: |d| <= rel*|t| + abs
    fn err(&mut self, i: Id, t: &T) -> Option<P> {
        if t.rel == 0.0 && t.abs == 0.0 { return None; }
        let d = self.var("d"); let b = self.bound(t); let n = self.sub(self.q("0"), b); let (x, y) = (self.le(d, b), self.le(n, d)); self.side(i, x); self.side(i, y); Some(d)
    }
    fn bound(&mut self, t: &T) -> P {
        let a = self.qf(t.abs * 1.01); let r = self.qf(t.rel * 1.01);
        if t.lo >= 0.0 { let m = self.mul(r, t.z); self.add(m, a) } else if t.hi <= 0.0 { let m = self.mul(r, t.z); self.sub(a, m) } else { self.qf(t.rel * t.mag() * 1.02 + t.abs * 1.02) }
    }
    fn plus(&mut self, i: Id, t: &T) -> P { match self.err(i, t) { None => t.z, Some(d) => self.add(t.z, d) } }
    /// absolute errors turned into relative ones where the magnitude is bounded from below
    fn relish(&self, t: &T) -> f64 { if t.abs == 0.0 { t.rel } else { let m = t.min(); if m > 0.0 { t.rel + t.abs / m * 1.01 } else { f64::INFINITY } } }
    fn node_rec(&mut self, root: Id) -> Result<(), String> {
        let mut st = vec![root];
        while let Some(&i) = st.last() {
            if self.r.t.contains_key(&i) || self.r.b.contains_key(&i) { st.pop(); continue; }
            let n = self.ar.node(i); let mut miss = false;
            for k in [n.a, n.b, n.c] { if k != NONE && !(self.r.t.contains_key(&k) || self.r.b.contains_key(&k)) { st.push(k); miss = true; } }
            if miss { continue; }
            st.pop(); self.one(i, n)?;
        }
        Ok(())
    }
    fn isf(op: Op) -> bool { matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::U2F | Op::S2F | Op::FFun) }
    /// the term of i read as a number; fl: as a double (constants and symbols have no type of their own)
    fn num(&mut self, i: Id, fl: bool) -> Result<T, String> {
        let n = self.ar.node(i);
        match n.op {
            Op::Const if fl => { let x = f64::from_bits(n.k as u64); if !x.is_finite() { return Err(format!("real mode: constant {}", x)); } return Ok(T { z: self.qf(x), rel: 0.0, abs: 0.0, lo: x, hi: x, int: x.fract() == 0.0 }); }
            Op::Const => { let x = n.k as f64; return Ok(T { z: self.q(&n.k.to_string()), rel: 0.0, abs: 0.0, lo: down(x), hi: up(x), int: true }); }
            Op::Sym if fl && matches!(self.r.ranges.get(&(n.k as u32)), Some((_, _, true))) => {}
            Op::Ite if fl => { // typed by use
                let (a, b) = (self.num(n.b, true)?, self.num(n.c, true)?); let q = self.bool(n.a)?; let z = self.ite(q, a.z, b.z);
                return Ok(T { z, rel: a.rel.max(b.rel), abs: a.abs.max(b.abs), lo: a.lo.min(b.lo), hi: a.hi.max(b.hi), int: a.int && b.int }); }
            op if fl && !Self::isf(op) => return Err(format!("real mode: {:?} used as a double", op)),
            op if !fl && Self::isf(op) => return Err(format!("real mode: bits of {:?}", op)),
            _ => {}
        }
        self.node_rec(i)?;
        if let Some(t) = self.r.t.get(&i) { return Ok(*t); }
        let b = self.r.b[&i]; let (o, z) = (self.q("1"), self.q("0")); let z = self.ite(b, o, z); Ok(T { z, rel: 0.0, abs: 0.0, lo: 0.0, hi: 1.0, int: true })
    }
    fn bool(&mut self, i: Id) -> Result<P, String> {
        self.node_rec(i)?;
        if let Some(b) = self.r.b.get(&i) { return Ok(*b); }
        let t = self.num(i, false)?; let o = self.q("1"); Ok(self.le(o, t.z))
    }
    fn log(&mut self, i: Id, x: T) -> Result<T, String> {
        if x.lo <= 0.0 { return Err(format!("real mode: logarithm of a value not known to be positive [{}, {}]", x.lo, x.hi)); }
        let s = self.simp(x.z); let key = unsafe { Z3_get_ast_id(self.c, s) };
        let k = match self.r.logkey.get(&key) { Some(k) => *k, None => { let l = self.var("ln"); let (lo, hi) = (down(x.lo.ln()), up(x.hi.ln())); let (a, b) = (self.qf(lo), self.qf(hi)); let (p, q) = (self.le(a, l), self.le(l, b)); let def = self.and(&[p, q]);
            let k = self.r.logs.len(); self.r.logs.push(Log { l, x: x.z, pts: HashSet::new(), lem: vec![], lo, hi, def }); self.r.logkey.insert(key, k); k } };
        self.r.uses.entry(i).or_default().push(k);
        let g = &self.r.logs[k]; let r = self.relish(&x); if !r.is_finite() || r > 1e-3 { return Err("real mode: logarithm of an imprecise value".into()); }
        Ok(T { z: g.l, rel: U, abs: r * 1.01, lo: g.lo, hi: g.hi, int: false })
    }
    fn fresh_int(&mut self, i: Id, lo: f64, hi: f64) -> T { let v = self.var("i"); self.r.ints.entry(i).or_default().push(v); let (a, b) = (self.qf(lo), self.qf(hi)); let (p, q) = (self.le(a, v), self.le(v, b)); self.side(i, p); self.side(i, q); T { z: v, rel: 0.0, abs: 0.0, lo, hi, int: true } }
    /// x/y exactly, y of known sign
    fn div(&mut self, i: Id, a: T, b: T, bk: Option<f64>) -> Result<(P, f64, f64), String> {
        if b.min() == 0.0 { return Err("real mode: division by a value not known to be nonzero".into()); }
        let c = [a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi]; let (lo, hi) = (c.iter().cloned().fold(f64::INFINITY, f64::min), c.iter().cloned().fold(-f64::INFINITY, f64::max));
        if let Some(k) = bk { let s = rat(k); let (n, d) = match s.split_once('/') { Some((n, d)) => (n.to_string(), d.to_string()), None => (s.clone(), "1".into()) }; let (sg, n) = match n.strip_prefix('-') { Some(n) => ("-", n.to_string()), None => ("", n) }; let inv = self.q(&format!("{}{}/{}", sg, d, n)); return Ok((self.mul(a.z, inv), lo, hi)); }
        let v = self.var("q"); let m = self.mul(v, b.z); let e = self.eq(m, a.z); self.side(i, e);
        let (x, y) = (self.qf(down(lo)), self.qf(up(hi))); let (p, q) = (self.le(x, v), self.le(v, y)); self.side(i, p); self.side(i, q);
        Ok((v, lo, hi))
    }
    fn one(&mut self, i: Id, n: Node) -> Result<(), String> {
        let w = n.w as u32; let aw = self.ar.w(n.a);
        let fk = |me: &Self, k: Id| me.ar.cval(k).map(|x| f64::from_bits(x as u64));
        macro_rules! bo { ($e:expr) => {{ let r = $e; self.r.b.insert(i, r); return Ok(()) }} }
        macro_rules! te { ($e:expr) => {{ let r = $e; self.r.t.insert(i, r); return Ok(()) }} }
        if Self::isf(n.op) && w == 64 {
            let t = match n.op {
                Op::U2F | Op::S2F => { let a = self.num(n.a, false)?; if n.op == Op::S2F && a.hi >= 2f64.powi(aw as i32 - 1) { return Err("real mode: signed conversion of a possibly negative value".into()); } T { rel: if a.hi > 9e15 { U } else { 0.0 }, ..a } }
                Op::FAdd | Op::FSub => { let (a, b) = (self.num(n.a, true)?, self.num(n.b, true)?); let sub = n.op == Op::FSub; let (bl, bh) = if sub { (-b.hi, -b.lo) } else { (b.lo, b.hi) };
                    let z = if sub { self.sub(a.z, b.z) } else { self.add(a.z, b.z) }; let same = (a.lo >= 0.0 && bl >= 0.0) || (a.hi <= 0.0 && bh <= 0.0);
                    let ex = |t: &T| t.int && t.rel == 0.0 && t.abs == 0.0; if ex(&a) && ex(&b) && a.mag() + b.mag() < 9e15 { T { z, lo: a.lo + bl, hi: a.hi + bh, rel: 0.0, abs: 0.0, int: true } }
                    else if fk(self, n.a) == Some(0.0) || fk(self, n.b) == Some(0.0) { T { z, lo: a.lo + bl, hi: a.hi + bh, rel: a.rel.max(b.rel), abs: a.abs + b.abs, int: a.int && b.int } }
                    else if same { self.iv(z, a.rel.max(b.rel) + U, a.abs + b.abs, a.lo + bl, a.hi + bh) } else { self.iv(z, U, (a.rel * a.mag() + b.rel * b.mag() + a.abs + b.abs) * 1.01, a.lo + bl, a.hi + bh) } }
                Op::FMul if fk(self, n.b) == Some(-1.0) || fk(self, n.a) == Some(-1.0) => { let a = self.num(if fk(self, n.b) == Some(-1.0) { n.a } else { n.b }, true)?; let z = self.q("0"); T { z: self.sub(z, a.z), lo: -a.hi, hi: -a.lo, ..a } }
                Op::FMul => { let (a, b) = (self.num(n.a, true)?, self.num(n.b, true)?); let z = self.mul(a.z, b.z); let c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi];
                    let exact = |x: Option<f64>| x.map_or(false, |x| x.to_bits() & ((1 << 52) - 1) == 0); let u = if exact(fk(self, n.a)) || exact(fk(self, n.b)) { 0.0 } else { U };
                    let mut t = self.iv(z, (a.rel + b.rel) * 1.01 + u, (a.abs * b.mag() + b.abs * a.mag() + a.abs * b.abs) * 1.01, c.iter().cloned().fold(f64::INFINITY, f64::min), c.iter().cloned().fold(-f64::INFINITY, f64::max)); if n.a == n.b { t.lo = t.lo.max(0.0); } if a.int && b.int && a.rel + a.abs + b.rel + b.abs == 0.0 && t.mag() < 9e15 { t.rel = 0.0; t.int = true; } t }
                Op::FDiv => { let (a, b) = (self.num(n.a, true)?, self.num(n.b, true)?); let (ra, rb) = (self.relish(&a), self.relish(&b)); if !rb.is_finite() { return Err("real mode: division by an imprecise value".into()); }
                    let (z, lo, hi) = self.div(i, a, b, fk(self, n.b))?; if ra.is_finite() { self.iv(z, (ra + rb) * 1.01 + U, 0.0, lo, hi) } else { self.iv(z, (a.rel + rb) * 1.01 + U, a.abs / b.min() * 1.02, lo, hi) } }
                _ => { let f = FUNS[n.k as usize]; match f {
                    "ceil" | "floor" | "round" | "trunc" | "rint" | "roundeven" => { let a = self.num(n.a, true)?; if a.int && a.rel == 0.0 && a.abs == 0.0 { a } else {
                        let x = self.plus(i, &a); let (al, ah) = (a.lo - (a.rel * a.lo.abs() + a.abs) * 1.1, a.hi + (a.rel * a.hi.abs() + a.abs) * 1.1); let (l, h) = match f { "ceil" => (al.ceil(), ah.ceil()), "floor" => (al.floor(), ah.floor()), _ => (al.floor(), ah.ceil()) };
                        let k = self.fresh_int(i, l, h); let one = self.q("1"); let half = self.q("1/2");
                        let f = if f == "trunc" { if a.lo >= 0.0 { "floor" } else if a.hi <= 0.0 { "ceil" } else { "trunc" } } else { f };
                        match f { "ceil" => { let m = self.sub(k.z, one); let (p, q) = (self.lt(m, x), self.le(x, k.z)); self.side(i, p); self.side(i, q); }
                            "floor" => { let m = self.add(k.z, one); let (p, q) = (self.le(k.z, x), self.lt(x, m)); self.side(i, p); self.side(i, q); }
                            "trunc" => return Err("real mode: truncation of a value of unknown sign".into()),
                            _ => { let (m, o) = (self.sub(k.z, half), self.add(k.z, half)); let (p, q) = (self.le(m, x), self.le(x, o)); self.side(i, p); self.side(i, q); } }
                        k } }
                    "fabs" => { let a = self.num(n.a, true)?; if a.lo >= 0.0 { a } else { let z = self.q("0"); let ng = self.sub(z, a.z); let c = self.lt(a.z, z); let r = if a.hi <= 0.0 { ng } else { self.ite(c, ng, a.z) }; T { z: r, lo: a.min(), hi: a.mag(), ..a } } }
                    "fmin" | "fmax" => { let (a, b) = (self.num(n.a, true)?, self.num(n.b, true)?); let c = self.le(a.z, b.z); let mn = f == "fmin"; let z = if mn { self.ite(c, a.z, b.z) } else { self.ite(c, b.z, a.z) };
                        T { z, rel: a.rel.max(b.rel), abs: a.abs.max(b.abs), lo: if mn { a.lo.min(b.lo) } else { a.lo.max(b.lo) }, hi: if mn { a.hi.min(b.hi) } else { a.hi.max(b.hi) }, int: a.int && b.int } }
                    "log" | "log2" | "log10" | "log1p" => {
                        // ln(1/x) = -ln x
                        let an = self.ar.node(n.a); let inv = f != "log1p" && an.op == Op::FDiv && fk(self, an.a) == Some(1.0);
                        let mut a = self.num(if inv { an.b } else { n.a }, true)?;
                        if inv { a.rel += U; }
                        if f == "log1p" { // the argument is exact here: ln(1+x) has small relative error; an error in x carries over divided by 1+x
                            let one = self.q("1"); let m = (1.0 + a.lo).min(1.0); if m <= 0.0 { return Err("real mode: ln_1p near -1".into()); } let er = (a.rel * a.mag() + a.abs) / m; a = T { z: self.add(one, a.z), rel: 0.0, abs: 0.0, lo: 1.0 + a.lo, hi: 1.0 + a.hi, int: false }; if a.lo <= 0.0 { return Err("real mode: ln_1p near -1".into()); }
                            let mut t = self.log(i, a)?; t.abs = er * 1.01; t.rel = U * 2.0; t } else {
                        let t = self.log(i, a)?; let (mut z, mut t) = (t.z, t);
                        let (k, s) = match f { "log2" => (1.4426950408889634, Some(INV_LN2)), "log10" => (0.4342944819032518, Some(INV_LN10)), _ => (1.0, None) };
                        if let Some(s) = s { let c = self.q(s); z = self.mul(c, z); t = self.iv(z, U * 2.0, t.abs * k * 1.01, t.lo * k, t.hi * k); }
                        if inv { let zero = self.q("0"); z = self.sub(zero, z); t = T { z, lo: -t.hi, hi: -t.lo, ..t }; }
                        t } }
                    "sqrt" => { let a = self.num(n.a, true)?; if a.lo < 0.0 { return Err("real mode: square root of a possibly negative value".into()); } let y = self.var("sqrt"); let m = self.mul(y, y); let e = self.eq(m, a.z); self.side(i, e); let z = self.q("0"); let p = self.le(z, y); self.side(i, p); let r = self.relish(&a); self.iv(y, r + U, 0.0, a.lo.sqrt(), a.hi.sqrt()) }
                    "exp" | "exp2" | "expm1" => { // y = exp(x): ln y = x
                        if f != "exp" { return Err(format!("real mode: {}", f)); }
                        let mut a = self.num(n.a, true)?; if a.hi > 700.0 || a.lo < -700.0 {
                            // only the part of the range with a sensible result is followed: no verdict, but counterexamples there count
                            if a.lo > 40.0 || a.hi < -40.0 { return Err("real mode: exp out of range".into()); }
                            self.r.cut = Some("real mode: argument of exp limited to [-40, 40]".into());
                            let (l, h) = (self.qf(-40.0), self.qf(40.0)); let (p, q) = (self.le(l, a.z), self.le(a.z, h)); self.side(i, p); self.side(i, q); a.lo = a.lo.max(-40.0); a.hi = a.hi.min(40.0); }
                        let y = self.var("exp"); let t = self.iv(y, 0.0, 0.0, a.lo.exp(), a.hi.exp()); let (l, h) = (self.qf(t.lo), self.qf(t.hi)); let (p, q) = (self.le(l, y), self.le(y, h)); self.side(i, p); self.side(i, q);
                        let lg = self.log(i, t)?; let e = self.eq(lg.z, a.z); self.side(i, e); T { rel: (a.rel * a.mag() + a.abs) * 1.01 + U * 2.0, ..t } }
                    "powi" | "ldexp" => { let a = self.num(n.a, true)?; let e = self.ar.cval(n.b).ok_or("real mode: symbolic exponent")? as u32 as i32; 
                        if f == "ldexp" { let s = 2f64.powi(e); let k = self.qf(s); let z = self.mul(a.z, k); T { z, rel: a.rel, abs: a.abs * s, lo: a.lo * s, hi: a.hi * s, int: false } } else { self.power(i, a, e)? } }
                    "pow" => { let bk = fk(self, n.b); let ak = fk(self, n.a);
                        if let Some(c) = bk { let a = self.num(n.a, true)?; 
                            if c.fract() == 0.0 && c.abs() <= 64.0 { self.power(i, a, c as i32)? } else {
                                if a.lo <= 0.0 { return Err("real mode: power of a value not known to be positive".into()); }
                                let mut best = None; for q in 1..=12i64 { let p = (c * q as f64).round(); if (p / q as f64 - c).abs() <= 1.2e-16 * c.abs() && p.abs() <= 12.0 { best = Some((p as i32, q as i32)); break; } }
                                if let Some((p, q)) = best { let ra = self.relish(&a); // y^q = x^p
                                    let y = self.var("pow"); let (lo, hi) = { let (u, v) = (a.lo.powf(c), a.hi.powf(c)); (u.min(v), u.max(v)) }; let t = self.iv(y, c.abs() * ra * 1.01 + U * 2.0 + 2e-16 * c.abs() * a.lo.ln().abs().max(a.hi.ln().abs()), 0.0, lo, hi);
                                    let yq = self.power(i, T { rel: 0.0, ..t }, q)?; let xp = self.power(i, a, p)?; let e = self.eq(yq.z, xp.z); self.side(i, e); let (l, h) = (self.qf(t.lo), self.qf(t.hi)); let (pp, qq) = (self.le(l, y), self.le(y, h)); self.side(i, pp); self.side(i, qq); self.r.t.insert(i, t); return Ok(()); }
                                // ln y = c ln x
                                let ra = self.relish(&a); let (lo, hi) = { let (u, v) = (a.lo.powf(c), a.hi.powf(c)); (u.min(v), u.max(v)) };
                                let y = self.var("pow"); let t = self.iv(y, c.abs() * ra * 1.01 + U * 2.0, 0.0, lo, hi); let (l, h) = (self.qf(t.lo), self.qf(t.hi)); let (pp, qq) = (self.le(l, y), self.le(y, h)); self.side(i, pp); self.side(i, qq);
                                let lx = self.log(i, T { rel: 0.0, abs: 0.0, ..a })?; let ly = self.log(i, T { rel: 0.0, ..t })?; let cz = self.qf(c); let m = self.mul(cz, lx.z); let e = self.eq(ly.z, m); self.side(i, e); t } }
                        else if let Some(k) = ak { let b = self.num(n.b, true)?; if k <= 0.0 { return Err("real mode: power of a nonpositive constant".into()); } let lk = k.ln(); let (u, v) = (b.lo * lk, b.hi * lk); let (lo, hi) = (u.min(v), u.max(v)); if lo < -700.0 || hi > 700.0 { return Err("real mode: power out of range".into()); }
                            let y = self.var("pow"); let t = self.iv(y, 0.0, 0.0, lo.exp(), hi.exp()); let lg = self.log(i, t)?; let (lo2, hi2) = (self.qf(t.lo), self.qf(t.hi)); let (p, q) = (self.le(lo2, y), self.le(y, hi2)); self.side(i, p); self.side(i, q);
                            let c = self.qf(lk); let m = self.mul(c, b.z); let e = self.eq(lg.z, m); self.side(i, e); T { rel: (b.rel * b.mag() + b.abs) * lk.abs() * 1.01 + (1e-15 + U) * (1.0 + b.mag() * lk.abs()), ..t } }
                        else { return Err("real mode: symbolic base and exponent".into()); } }
                    _ => return Err(format!("real mode: {}", f)) } }
            };
            te!(t)
        }
        if w == 1 { match n.op {
            Op::Const => { let b = self.keep(unsafe { if n.k == 1 { Z3_mk_true(self.c) } else { Z3_mk_false(self.c) } }); bo!(b) }
            Op::Not => { let a = self.bool(n.a)?; bo!(self.not(a)) }
            Op::And | Op::Or | Op::Xor => { let (a, b) = (self.bool(n.a)?, self.bool(n.b)?); bo!(match n.op { Op::And => self.and(&[a, b]), Op::Or => self.or(&[a, b]), _ => { let e = self.eq(a, b); self.not(e) } }) }
            Op::Ite => { let (q, a, b) = (self.bool(n.a)?, self.bool(n.b)?, self.bool(n.c)?); bo!(self.ite(q, a, b)) }
            Op::Eq if aw == 1 => { let (a, b) = (self.bool(n.a)?, self.bool(n.b)?); bo!(self.eq(a, b)) }
            Op::FUno => { self.num(n.a, true)?; self.num(n.b, true)?; let b = self.keep(unsafe { Z3_mk_false(self.c) }); bo!(b) }
            Op::FLt | Op::FLe | Op::FEq => { let (a, b) = (self.num(n.a, true)?, self.num(n.b, true)?); let (x, y) = (self.plus(i, &a), self.plus(i, &b)); bo!(match n.op { Op::FLt => self.lt(x, y), Op::FLe => self.le(x, y), _ => self.eq(x, y) }) }
            Op::Eq | Op::Ult => { let (a, b) = (self.num(n.a, false)?, self.num(n.b, false)?);
                if n.op == Op::Ult { // integers: a < b iff a <= b-1
                    let one = self.q("1"); let m = self.sub(b.z, one); let c = self.le(m, a.z); let l = self.le(a.z, m); let ge = self.le(b.z, a.z); let o = self.or(&[l, ge]); self.side(i, o); let _ = c; bo!(l) }
                let one = self.q("1"); let e = self.eq(a.z, b.z); let (m, p) = (self.sub(b.z, one), self.add(b.z, one)); let (l, g) = (self.le(a.z, m), self.le(p, a.z)); let o = self.or(&[e, l, g]); self.side(i, o); bo!(e) }
            Op::Slt => { let (a, b) = (self.num(n.a, false)?, self.num(n.b, false)?); let h = 2f64.powi(aw as i32 - 1); if a.hi < h && b.hi < h { bo!(self.lt(a.z, b.z)) } let v = self.fresh_int(i, 0.0, 1.0); let o = self.q("1"); bo!(self.le(o, v.z)) }
            _ => {}
        } }
        // integers
        let f = self.ar.facts(i); let (flo, fhi) = (f.lo as f64, f.hi as f64); let max = 2f64.powi(w as i32);
        let any = |me: &mut Self| me.fresh_int(i, down(flo).max(0.0), up(fhi));
        let t = match n.op {
            Op::Const => self.num(i, false)?,
            Op::Sym => { match self.r.ranges.get(&(n.k as u32)).copied() { Some((lo, hi, fl)) => { let s = CString::new(format!("{}{}", if fl { "f" } else { "n" }, n.k)).unwrap(); let z = self.keep(unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, s.as_ptr()), self.r.real) });
                    let (a, b) = (self.qf(lo), self.qf(hi)); let (p, q) = (self.le(a, z), self.le(z, b)); self.side(i, p); self.side(i, q); T { z, rel: 0.0, abs: 0.0, lo, hi, int: !fl } }
                None => { let s = CString::new(format!("n{}", n.k)).unwrap(); let z = self.keep(unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, s.as_ptr()), self.r.real) }); let (a, b) = (self.q("0"), self.qf(max - 1.0)); let (p, q) = (self.le(a, z), self.le(z, b)); self.side(i, p); self.side(i, q); T { z, rel: 0.0, abs: 0.0, lo: 0.0, hi: max, int: true } } } }
            Op::F2U => { let a = self.num(n.a, true)?; let k = if a.int && a.rel == 0.0 && a.abs == 0.0 { a } else {
                    let x = self.plus(i, &a); let (al, ah) = (a.lo - (a.rel * a.lo.abs() + a.abs) * 1.1, a.hi + (a.rel * a.hi.abs() + a.abs) * 1.1); let k = self.fresh_int(i, al.floor(), ah.floor()); let one = self.q("1"); let m = self.add(k.z, one); let (p, q) = (self.le(k.z, x), self.lt(x, m)); self.side(i, p); self.side(i, q); k };
                let mut z = k.z; let (zero, top) = (self.q("0"), self.qf(max)); if k.lo < 0.0 { let c = self.lt(z, zero); z = self.ite(c, zero, z); } if k.hi >= max { let c = self.le(top, z); let one = self.q("1"); let tm = self.sub(top, one); z = self.ite(c, tm, z); }
                T { z, rel: 0.0, abs: 0.0, lo: k.lo.max(0.0).min(max), hi: k.hi.max(0.0).min(max), int: true } }
            Op::ZExt => self.num(n.a, false)?,
            Op::Add | Op::Mul => { let (a, b) = (self.num(n.a, false)?, self.num(n.b, false)?); let z = if n.op == Op::Add { self.add(a.z, b.z) } else { self.mul(a.z, b.z) }; let (lo, hi) = if n.op == Op::Add { (a.lo + b.lo, a.hi + b.hi) } else { (a.lo * b.lo, a.hi * b.hi) };
                if up(hi) < max { T { z, rel: 0.0, abs: 0.0, lo: down(lo).max(0.0), hi: up(hi), int: true } } else { let k = any(self); let m = self.qf(max); let c = self.lt(z, m); let e = self.eq(k.z, z); let p = self.imp(c, e); self.side(i, p);
                    if n.op == Op::Add { let wr = self.sub(z, m); let e = self.eq(k.z, wr); let nc = self.not(c); let p = self.imp(nc, e); self.side(i, p); } k } }
            Op::Sub => { let (a, b) = (self.num(n.a, false)?, self.num(n.b, false)?); let z = self.sub(a.z, b.z); if a.lo >= b.hi { T { z, rel: 0.0, abs: 0.0, lo: a.lo - b.hi, hi: a.hi - b.lo, int: true } } else { let k = any(self); let c = self.le(b.z, a.z); let e = self.eq(k.z, z); let p = self.imp(c, e); self.side(i, p); k } }
            Op::UDiv | Op::URem | Op::LShr | Op::Extract | Op::And | Op::Shl if { let k = if n.op == Op::Extract { Some(n.k) } else { self.ar.cval(n.b) }; k.map_or(false, |k| match n.op { Op::And => k != 0 && (k & (k + 1)) == 0, Op::UDiv | Op::URem => k != 0, _ => k < 100 }) } => {
                let k = if n.op == Op::Extract { n.k } else { self.ar.cval(n.b).unwrap() }; let a = self.num(n.a, false)?;
                if n.op == Op::Shl { let m = 2f64.powi(k as i32); if up(a.hi * m) < max { let s = self.qf(m); T { z: self.mul(a.z, s), rel: 0.0, abs: 0.0, lo: down(a.lo * m).max(0.0), hi: up(a.hi * m), int: true } } else { any(self) } }
                else {
                    // a = q*d + r
                    let d = match n.op { Op::LShr | Op::Extract => 1u128 << k, Op::And => k + 1, _ => k }; let dz = self.q(&d.to_string()); let df = d as f64;
                    let whole = d == 1; let (q, r) = if whole { (a, None) } else if a.hi < df { let z = self.q("0"); (T { z, lo: 0.0, hi: 0.0, rel: 0.0, abs: 0.0, int: true }, Some(a)) } else {
                        let q = self.fresh_int(i, (a.lo / df).floor() - 1.0, (a.hi / df).floor() + 1.0); let m = self.mul(q.z, dz); let r = self.sub(a.z, m); let (zero, one) = (self.q("0"), self.q("1")); let dm = self.sub(dz, one); let (x, y) = (self.le(zero, r), self.le(r, dm)); self.side(i, x); self.side(i, y); (T { lo: q.lo.max(0.0), ..q }, Some(T { z: r, rel: 0.0, abs: 0.0, lo: 0.0, hi: df - 1.0, int: true })) };
                    let v = match n.op { Op::URem | Op::And => r.unwrap_or(T { z: self.q("0"), lo: 0.0, hi: 0.0, rel: 0.0, abs: 0.0, int: true }), _ => q };
                    if n.op == Op::Extract && v.hi >= max { let k = any(self); let m = self.qf(max); let c = self.lt(v.z, m); let e = self.eq(k.z, v.z); let p = self.imp(c, e); self.side(i, p); k } else { v } } }
            Op::UDiv | Op::URem => { let (a, b) = (self.num(n.a, false)?, self.num(n.b, false)?); if b.lo <= 0.0 && self.ar.facts(n.b).lo == 0 { // division by zero is excluded on the path; the quotient is still at most the dividend
                    let q = self.fresh_int(i, 0.0, a.hi); let one = self.q("1"); let m = self.mul(q.z, b.z); let r = self.sub(a.z, m); let nz = self.le(one, b.z); let bm = self.sub(b.z, one); let zero = self.q("0"); let (x, y) = (self.le(zero, r), self.le(r, bm)); let f = self.and(&[x, y]); let f = self.imp(nz, f); self.side(i, f);
                    if n.op == Op::UDiv { q } else { T { z: r, hi: b.hi, ..q } } }
                else { let q = self.fresh_int(i, (a.lo / b.hi).floor().max(0.0), (a.hi / b.lo.max(1.0)).floor()); let one = self.q("1"); let m = self.mul(q.z, b.z); let r = self.sub(a.z, m); let bm = self.sub(b.z, one); let zero = self.q("0"); let (x, y) = (self.le(zero, r), self.le(r, bm)); self.side(i, x); self.side(i, y);
                    if n.op == Op::UDiv { q } else { T { z: r, lo: 0.0, hi: b.hi, ..q } } } }
            Op::Concat => { let (a, b) = (self.num(n.a, false)?, self.num(n.b, false)?); let s = 2f64.powi(self.ar.w(n.b) as i32); let k = self.qf(s); let m = self.mul(a.z, k); T { z: self.add(m, b.z), rel: 0.0, abs: 0.0, lo: down(a.lo * s + b.lo).max(0.0), hi: up(a.hi * s + b.hi), int: true } }
            Op::Ite => { let q = self.bool(n.a)?; if Self::isf(self.ar.node(n.b).op) || Self::isf(self.ar.node(n.c).op) { let t = self.num(i, true)?; self.r.t.insert(i, t); return Ok(()); } let (a, b) = (self.num(n.b, false)?, self.num(n.c, false)?); let z = self.ite(q, a.z, b.z); T { z, rel: 0.0, abs: 0.0, lo: a.lo.min(b.lo), hi: a.hi.max(b.hi), int: true } }
            _ => any(self),
        };
        te!(t)
    }
    /// x^e by repeated multiplication (the engine's and libm's results agree with it within the stated error)
    fn power(&mut self, i: Id, a: T, e: i32) -> Result<T, String> {
        if e.unsigned_abs() > 4096 { return Err("real mode: large exponent".into()); }
        let m = e.unsigned_abs(); let ra = self.relish(&a); if m == 0 { return Ok(T { z: self.q("1"), rel: 0.0, abs: 0.0, lo: 1.0, hi: 1.0, int: true }); }
        if m > 64 { return Err("real mode: exponent above 64".into()); }
        let mut z = a.z; for _ in 1..m { z = self.mul(z, a.z); }
        let (u, v) = (a.lo.powi(m as i32), a.hi.powi(m as i32)); let (mut lo, hi) = (u.min(v), u.max(v)); if a.lo < 0.0 && m % 2 == 0 { lo = 0.0; }
        let mut t = self.iv(z, (ra * 1.01 + U) * m as f64, 0.0, lo, hi); if m == 1 { t = a; }
        if e > 0 { return Ok(t); }
        let one = self.q("1"); let (z, lo, hi) = self.div(i, T { z: one, rel: 0.0, abs: 0.0, lo: 1.0, hi: 1.0, int: true }, t, None)?; Ok(self.iv(z, t.rel * 1.01 + U, 0.0, lo, hi))
    }
    fn lemma(&mut self, k: usize, p: f64) {
        if !(p > 1e-290 && p < 1e290) || !self.r.logs[k].pts.insert(p.to_bits()) { return; }
        self.r.lemmas += 1;
        let l = p.ln(); let (lo, hi) = if p == 1.0 { (0.0, 0.0) } else { (down(l), up(l)) }; let (lv, x) = (self.r.logs[k].l, self.r.logs[k].x);
        let (c, zl, zh) = (self.qf(p), self.qf(lo), self.qf(hi));
        let a = { let (g, h) = (self.le(x, c), self.le(lv, zh)); self.imp(g, h) }; let b = { let (g, h) = (self.le(c, x), self.le(zl, lv)); self.imp(g, h) };
        // ln x <= ln p + (x-p)/p
        let inv = { let s = rat(p); let (n, d) = s.split_once('/').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((s.clone(), "1".into())); self.q(&format!("{}/{}", d, n)) };
        let d = self.sub(x, c); let m = self.mul(d, inv); let r = self.add(zh, m); let t = self.le(lv, r);
        self.r.logs[k].lem.extend([a, b, t]);
        // near p, with d = (x-p)/p: ln x >= ln p + d(1+h) for -h <= d <= 0 and ln x >= ln p + d(1-h) for 0 <= d <= h (h <= 0.1)
        for h in [0.1, 1e-3, 1e-6] {
            let (h1, h2) = (self.qf(-h), self.qf(h)); let zero = self.q("0"); let (one, hh) = (self.q("1"), self.qf(h)); let (f1, f2) = (self.add(one, hh), self.sub(one, hh)); let d = m;
            let (g1, g2) = (self.le(h1, d), self.le(d, zero)); let g = self.and(&[g1, g2]); let r = self.mul(d, f1); let r = self.add(zl, r); let e = self.le(r, lv); let l1 = self.imp(g, e);
            let (g1, g2) = (self.le(zero, d), self.le(d, h2)); let g = self.and(&[g1, g2]); let r = self.mul(d, f2); let r = self.add(zl, r); let e = self.le(r, lv); let l2 = self.imp(g, e);
            self.r.logs[k].lem.extend([l1, l2]);
        }
    }
}
impl Solver {
    pub fn real_check(&mut self, ar: &Arena, rel: Vec<Id>, extra: Id, sy: Vec<u32>) -> Res {
        let mut krel = rel.clone(); krel.sort(); krel.dedup(); let key = (krel, extra);
        let mut rl = self.rl.take().unwrap();
        if let Some(r) = rl.cache.get(&key) { self.st.cached += 1; let r = r.clone(); self.rl = Some(rl); return r; }
        let r = self.real_solve(ar, &mut rl, &rel, extra, &sy);
        let r = match r { Ok(r) => r, Err(e) => { self.note = e; Res::Unknown } };
        match r { Res::Sat(_) => self.st.sat += 1, Res::Unsat => self.st.unsat += 1, Res::Unknown => self.st.unknown += 1 }
        rl.cache.insert(key, r.clone()); self.rl = Some(rl); r
    }
    fn real_solve(&mut self, ar: &Arena, rl: &mut Real, rel: &[Id], extra: Id, sy: &[u32]) -> Result<Res, String> {
        let c = self.c; let t0 = Instant::now();
        let mut goals = vec![]; let mut x = Cx { c, r: rl, ar };
        for g in rel.iter().chain([&extra]) { goals.push(x.bool(*g)?); }
        // definitions below the goals
        let mut seen: HashSet<Id> = HashSet::new(); let mut st: Vec<Id> = rel.to_vec(); st.push(extra); let mut logs: Vec<usize> = vec![]; let mut ints: Vec<(Id, P)> = vec![];
        while let Some(i) = st.pop() { if !seen.insert(i) { continue; } if let Some(s) = x.r.side.get(&i) { goals.extend(s.iter()); } if let Some(v) = x.r.ints.get(&i) { ints.extend(v.iter().map(|v| (i, *v))); } if let Some(l) = x.r.uses.get(&i) { logs.extend(l.iter()); } let n = ar.node(i); for k in [n.a, n.b, n.c] { if k != NONE { st.push(k); } } }
        logs.sort(); logs.dedup();
        for &k in &logs { let d = x.r.logs[k].def; goals.push(d); }
        if std::env::var("RDBG").is_ok() { eprintln!("QUERY {}", ar.show(extra, 14)); for g in rel { eprintln!("  PC {}", ar.show(*g, 14)); } }
        let mut extra_c: Vec<P> = vec![]; let mut excl = 0; let mut intfix: Vec<P> = vec![]; let mut hop: Vec<P> = vec![]; let mut last: Option<Vec<(u32, u128)>> = None;
        for _round in 0..120 {
            let lg = CString::new("QF_NRA").unwrap();
            let (res, model) = unsafe {
                let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, lg.as_ptr())); Z3_solver_inc_ref(c, s); self.limit(s, self.timeout_ms);
                for g in &goals { Z3_solver_assert(c, s, *g); } for g in extra_c.iter().chain(intfix.iter()).chain(hop.iter()) { Z3_solver_assert(c, s, *g); } for &k in &logs { for g in &x.r.logs[k].lem { Z3_solver_assert(c, s, *g); } }
                let q0 = Instant::now(); let r = Z3_solver_check(c, s); let dt = q0.elapsed().as_secs_f64(); self.st.queries += 1; self.st.secs += dt; if dt > self.st.max { self.st.max = dt; }
                if std::env::var("RDBG").is_ok() { eprintln!("round {} -> {} {:.2}s goals {} lemmas {}", _round, r, dt, goals.len(), logs.iter().map(|k| x.r.logs[*k].lem.len()).sum::<usize>()); }
                let val = |m: P, a: P| -> Option<f64> { let mut o: P = std::ptr::null_mut(); if !Z3_model_eval(c, m, a, true, &mut o) { return None; } let p = Z3_get_numeral_decimal_string(c, o, 60); if p.is_null() { return None; } let t = CStr::from_ptr(p).to_string_lossy().into_owned(); t.trim_end_matches('?').parse().ok() };
                let mut model = None;
                if r == 1 { let m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m);
                    let mut sv = vec![]; let mut okm = true; for &k in sy { if let Some((_, _, fl)) = x.r.ranges.get(&k) { let fl = *fl; let nm = CString::new(format!("{}{}", if fl { "f" } else { "n" }, k)).unwrap(); let z = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), x.r.real); match val(m, z) { Some(v) => sv.push((k, v, fl, z)), None => okm = false } } }
                    let lv: Vec<(usize, f64, f64)> = logs.iter().filter_map(|&k| Some((k, val(m, x.r.logs[k].x)?, val(m, x.r.logs[k].l)?))).collect();
                    let iv: Vec<(Id, P, f64)> = ints.iter().filter_map(|(i, z)| Some((*i, *z, val(m, *z)?))).collect();
                    Z3_model_dec_ref(c, m); if okm { model = Some((sv, lv, iv)); } }
                Z3_solver_dec_ref(c, s); (r as c_int, model)
            };
            if res == -1 { if !hop.is_empty() { hop.clear(); intfix.clear(); continue; } if !intfix.is_empty() { intfix.clear(); excl += 1; if excl > 6 { return Err("no integral model found".into()); } continue; }
                if excl > 0 { x.r.slivers += 1; if let Some(_m) = last { return Ok(Res::Unsat); } } return Ok(Res::Unsat); }
            if res != 1 { return Err("solver returned unknown".into()); }
            let Some((sv, lv, iv)) = model else { return Err("model value not available".into()) };
            // logarithms first
            let mut bad = false; let known = x.r.lemmas;
            for (k, xv, l) in lv { let tr = xv.ln(); if !(tr - l).abs().le(&(1e-12 * (1.0 + tr.abs()))) { bad = true; x.lemma(k, xv); x.lemma(k, l.exp());
                let f = (l / std::f64::consts::LN_2).round(); x.lemma(k, 2f64.powi(f as i32)); let f = (l / std::f64::consts::LN_2).floor(); x.lemma(k, 2f64.powi(f as i32)); x.lemma(k, 2f64.powi(f as i32 + 1)); } }
            if std::env::var("RDBG").is_ok() { eprintln!("   model {:?} bad {}", sv.iter().map(|v| (v.0, v.1)).collect::<Vec<_>>(), bad); }
            let mk = |sv: &Vec<(u32, f64, bool, P)>| -> Vec<(u32, u128)> { sv.iter().map(|(k, v, fl, _)| (*k, if *fl { v.to_bits() as u128 } else { v.round().max(0.0) as u128 })).collect() };
            let good = |m: &Vec<(u32, u128)>| -> bool { let mut sym = vec![]; for (k, v) in m { let k = *k as usize; if sym.len() <= k { sym.resize(k + 1, 0); } sym[k] = *v; } let mut md = Model::new(sym); rel.iter().all(|g| ar.eval(*g, &mut md) != 0) && ar.eval(extra, &mut md) != 0 };
            let cand = mk(&sv);
            if good(&cand) { return Ok(Res::Sat(Rc::new(cand))); }
            if bad && x.r.lemmas > known { continue; }
            // intermediate integers: the model's fractional values are excluded
            let mut cut = false;
            for (i, z, v) in &iv { if v.abs() < 4e15 && (v - v.round()).abs() > 1e-9 { let (f, g) = (x.qf(v.floor()), x.qf(v.floor() + 1.0)); let e = [x.le(*z, f), x.le(g, *z)]; let e = x.or(&e); x.side(*i, e); goals.push(e); cut = true; } }
            if cut { continue; }
            // integers: fix the rounded values and solve again for the rest
            if intfix.is_empty() { let fr: Vec<&(u32, f64, bool, P)> = sv.iter().filter(|v| !v.2 && v.1.fract() != 0.0).collect(); if !fr.is_empty() { for v in sv.iter().filter(|v| !v.2) { let k = x.qf(v.1.round()); let e = x.eq(v.3, k); intfix.push(e); } continue; } }
            // points near the model
            if sy.len() <= 4 { let base = cand.clone(); let fl: Vec<bool> = base.iter().map(|(k, _)| x.r.ranges.get(k).map_or(false, |r| r.2)).collect(); let n = base.len() as u32;
                for e in 0..14 { let f = 10f64.powi(e - 15); for d in 0..3u32.pow(n) { let mut m = base.clone(); let mut t = d; let mut ok = true;
                    for (j, (k, v)) in m.iter_mut().enumerate() { let g = t % 3; t /= 3; if g == 0 { continue; } let sg = if g == 1 { 1.0 } else { -1.0 }; let r = x.r.ranges[k];
                        let o = if fl[j] { f64::from_bits(*v as u64) } else { *v as f64 }; let mut y = o + sg * o.abs() * f; if !fl[j] { y = y.round(); if y == o { y = o + sg * (1.0 + (e / 2) as f64); } } if !(y >= r.0 && y <= r.1) { ok = false; break; } *v = if fl[j] { y.to_bits() as u128 } else { y as u128 }; }
                    if ok && good(&m) { return Ok(Res::Sat(Rc::new(m))); } } } }
            // rounding: look elsewhere, at some distance from this point
            last = Some(cand); excl += 1; intfix.clear();
            if excl > 20 { return Err("models are all within rounding of a boundary".into()); }
            let mut alt = vec![]; for v in &sv { let d = if v.2 { v.1.abs() * 1e-9 * (1u64 << excl.min(10)) as f64 } else { 0.75 }; let (a, b) = (x.qf(v.1 - d), x.qf(v.1 + d)); alt.push(x.le(v.3, a)); alt.push(x.le(b, v.3)); }
            let o = x.or(&alt); extra_c.push(o);
            // now and then, a model away from this one in every direction (only to find a model: no conclusion is drawn from there being none)
            hop.clear();
            if sv.len() > 1 && excl % 3 != 0 { for v in &sv { let r = x.r.ranges[&v.0]; let d = if v.2 { (r.1 - r.0) * 10f64.powi(-1 - (excl % 6)) } else if r.1 - r.0 > 8.0 { 2.75 } else { 0.0 }; if d > 0.0 { let (a, b) = (x.qf(v.1 - d), x.qf(v.1 + d)); let e = [x.le(v.3, a), x.le(b, v.3)]; hop.push(x.or(&e)); } } }
            if t0.elapsed().as_millis() as u32 > self.timeout_ms { return Err("solver time".into()); }
        }
        Err("no conclusion after 120 refinements".into())
    }
}
