//! Hash-consed bit-vector expression DAG with construction-time simplification and known-bits/range facts.
use crate::ir::{mask, sext};
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Id(pub u32);
pub const NONE: Id = Id(0);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op { Const, Sym, Not, Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr, Eq, Ult, Slt, Ite, Concat, Extract, ZExt, SExt,
    FAdd, FSub, FMul, FDiv, FRem, FLt, FLe, FEq, FUno, U2F, S2F, F2U, F2S, FFun }

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node { pub op: Op, pub w: u16, pub a: Id, pub b: Id, pub c: Id, pub k: u128 }
#[derive(Clone, Copy)]
/// known zero and one bits, unsigned range, signed range
pub struct Facts { pub kz: u128, pub ko: u128, pub lo: u128, pub hi: u128, pub sl: i128, pub sh: i128 }

/// libm-style functions appearing as FFun (k = id); binary ones use b
pub const FUNS: [&str; 21] = ["floor", "ceil", "round", "trunc", "sqrt", "log", "log2", "log10", "exp", "exp2", "pow", "fabs", "powi", "rint", "log1p", "expm1", "fmin", "fmax", "copysign", "roundeven", "ldexp"];
pub fn fun_id(n: &str) -> u128 { FUNS.iter().position(|x| *x == n).unwrap_or_else(|| panic!("fun {}", n)) as u128 }

pub struct Arena { pub n: Vec<Node>, pub f: Vec<Facts>, map: HashMap<Node, Id, Fx>, memo: HashMap<Node, Id, Fx>, pub fval: HashMap<Id, u128> }

#[derive(Default, Clone)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx { type Hasher = FxH; fn build_hasher(&self) -> FxH { FxH(0) } }
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
}

pub fn ones(w: u32) -> u128 { mask(!0, w) }
fn run_starts(k: u128, w: u32) -> Vec<(u32, bool)> { let mut v: Vec<(u32, bool)> = vec![]; for i in 0..w { let o = k >> i & 1 == 1; if v.last().map(|r| r.1) != Some(o) { v.push((i, o)); } } v }
fn bitlen(x: u128) -> u32 { 128 - x.leading_zeros() }

pub fn ffun(k: u128, a: f64, b: u64) -> f64 {
    match FUNS[k as usize] {
        "floor" => a.floor(), "ceil" => a.ceil(), "round" => a.round(), "trunc" => a.trunc(), "sqrt" => a.sqrt(), "log" => a.ln(), "log2" => a.log2(), "log10" => a.log10(),
        "ldexp" => { let mut e = (b as u32 as i32).clamp(-4000, 4000); let mut x = a; while e > 1000 { x *= 2f64.powi(1000); e -= 1000; } while e < -1000 { x *= 2f64.powi(-1000); e += 1000; } x * 2f64.powi(e) } "exp" => a.exp(), "exp2" => a.exp2(), "pow" => a.powf(f64::from_bits(b)), "fabs" => a.abs(), "powi" => a.powi(b as u32 as i32), "rint" => a.round_ties_even(), "log1p" => a.ln_1p(), "expm1" => a.exp_m1(),
        "fmin" => a.min(f64::from_bits(b)), "fmax" => a.max(f64::from_bits(b)), "copysign" => a.copysign(f64::from_bits(b)), "roundeven" => a.round_ties_even(), _ => unreachable!(),
    }
}

/// concrete semantics of every operator
pub fn apply(op: Op, w: u32, k: u128, a: u128, aw: u32, b: u128, bw: u32, c: u128) -> u128 {
    let f = |x: u128| f64::from_bits(x as u64);
    let r = match op {
        Op::Const | Op::Sym => k,
        Op::Not => !a,
        Op::Add => a.wrapping_add(b), Op::Sub => a.wrapping_sub(b), Op::Mul => a.wrapping_mul(b),
        Op::UDiv => if b == 0 { !0 } else { a / b }, Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { if x < 0 { 1 } else { !0 } } else { x.wrapping_div(y) as u128 } }
        Op::SRem => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        Op::And => a & b, Op::Or => a | b, Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { a << b }, Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let x = sext(a, w); (if b >= w as u128 { if x < 0 { -1 } else { 0 } } else { x >> b }) as u128 }
        Op::Eq => (a == b) as u128, Op::Ult => (a < b) as u128, Op::Slt => (sext(a, aw) < sext(b, aw)) as u128,
        Op::Ite => if a != 0 { b } else { c },
        Op::Concat => (a << bw) | b, Op::Extract => a >> k, Op::ZExt => a, Op::SExt => sext(a, aw) as u128,
        Op::FAdd => (f(a) + f(b)).to_bits() as u128, Op::FSub => (f(a) - f(b)).to_bits() as u128, Op::FMul => (f(a) * f(b)).to_bits() as u128, Op::FDiv => (f(a) / f(b)).to_bits() as u128, Op::FRem => (f(a) % f(b)).to_bits() as u128,
        Op::FLt => (f(a) < f(b)) as u128, Op::FLe => (f(a) <= f(b)) as u128, Op::FEq => (f(a) == f(b)) as u128, Op::FUno => (f(a).is_nan() || f(b).is_nan()) as u128,
        Op::U2F => (a as f64).to_bits() as u128, Op::S2F => ((sext(a, aw)) as f64).to_bits() as u128,
        Op::F2U => { let x = f(a); if x.is_nan() { 0 } else if x <= 0.0 { 0 } else { let m = ones(w); if x >= (m as f64) { m } else { x as u128 } } }
        Op::F2S => { let x = f(a); if x.is_nan() { 0 } else { let hi = (ones(w) >> 1) as i128; let lo = -hi - 1; let v = x as i128; v.clamp(lo, hi) as u128 } }
        Op::FFun => ffun(k, f(a), b as u64).to_bits() as u128,
    };
    mask(r, w)
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena { n: vec![], f: vec![], map: HashMap::with_hasher(Fx), memo: HashMap::with_hasher(Fx), fval: HashMap::new() };
        a.n.push(Node { op: Op::Const, w: 1, a: NONE, b: NONE, c: NONE, k: 0 }); a.f.push(Facts { kz: 1, ko: 0, lo: 0, hi: 0, sl: 0, sh: 0 });
        a
    }
    pub fn w(&self, i: Id) -> u32 { self.n[i.0 as usize].w as u32 }
    pub fn node(&self, i: Id) -> Node { self.n[i.0 as usize] }
    pub fn facts(&self, i: Id) -> Facts { self.f[i.0 as usize] }
    pub fn cval(&self, i: Id) -> Option<u128> { let n = &self.n[i.0 as usize]; if n.op == Op::Const { Some(n.k) } else { None } }
    pub fn konst(&mut self, k: u128, w: u32) -> Id { let k = mask(k, w); self.intern(Node { op: Op::Const, w: w as u16, a: NONE, b: NONE, c: NONE, k }) }
    pub fn sym(&mut self, idx: u32, w: u32) -> Id { self.intern(Node { op: Op::Sym, w: w as u16, a: NONE, b: NONE, c: NONE, k: idx as u128 }) }
    fn intern(&mut self, n: Node) -> Id {
        debug_assert!(match n.op { Op::Concat => n.w as u32 == self.w(n.a) + self.w(n.b), Op::Extract => n.k as u32 + n.w as u32 <= self.w(n.a), Op::ZExt | Op::SExt => (n.w as u32) > self.w(n.a), Op::Add | Op::Sub | Op::Mul | Op::And | Op::Or | Op::Xor | Op::UDiv | Op::URem | Op::Shl | Op::LShr | Op::AShr => n.w as u32 == self.w(n.a) && n.w as u32 == self.w(n.b), Op::Eq | Op::Ult | Op::Slt => self.w(n.a) == self.w(n.b) && n.w == 1, Op::Ite => self.w(n.a) == 1 && self.w(n.b) == n.w as u32 && self.w(n.c) == n.w as u32, _ => true }, "ill-typed node {:?} w {}", n.op, n.w);
        if let Some(i) = self.map.get(&n) { return *i; }
        let i = Id(self.n.len() as u32);
        let f = self.mkfacts(&n);
        self.n.push(n); self.f.push(f); self.map.insert(n, i);
        i
    }
    fn mkfacts(&self, n: &Node) -> Facts {
        let w = n.w as u32; let all = ones(w);
        let fa = if n.a != NONE { self.facts(n.a) } else { Facts { kz: 0, ko: 0, lo: 0, hi: all, sl: i128::MIN, sh: i128::MAX } };
        let fb = if n.b != NONE { self.facts(n.b) } else { Facts { kz: 0, ko: 0, lo: 0, hi: all, sl: i128::MIN, sh: i128::MAX } };
        let fc = if n.c != NONE { self.facts(n.c) } else { Facts { kz: 0, ko: 0, lo: 0, hi: all, sl: i128::MIN, sh: i128::MAX } };
        let (mut kz, mut ko, mut lo, mut hi) = (0u128, 0u128, 0u128, all);
        let bk = if n.b != NONE { self.cval(n.b) } else { None };
        match n.op {
            Op::Const => { kz = all & !n.k; ko = n.k; lo = n.k; hi = n.k; }
            Op::Not => { kz = fa.ko; ko = fa.kz; lo = all - fa.hi; hi = all - fa.lo; }
            Op::And => { kz = fa.kz | fb.kz; ko = fa.ko & fb.ko; hi = fa.hi.min(fb.hi); }
            Op::Or => { kz = fa.kz & fb.kz; ko = fa.ko | fb.ko; lo = fa.lo.max(fb.lo); }
            Op::Xor => { kz = (fa.kz & fb.kz) | (fa.ko & fb.ko); ko = (fa.kz & fb.ko) | (fa.ko & fb.kz); }
            Op::Add => { if let (Some(h), false) = (fa.hi.checked_add(fb.hi), false) { if h <= all { lo = fa.lo + fb.lo; hi = h; } }
                let tz = (fa.kz.trailing_ones()).min(fb.kz.trailing_ones()).min(w); kz |= ones(tz); if tz == 0 { kz = 0; } }
            Op::Sub => { if fa.lo >= fb.hi { lo = fa.lo - fb.hi; hi = fa.hi - fb.lo; }
                let tz = (fa.kz.trailing_ones()).min(fb.kz.trailing_ones()).min(w); if tz > 0 { kz |= ones(tz); } }
            Op::Mul => { if let Some(h) = fa.hi.checked_mul(fb.hi) { if h <= all { lo = fa.lo * fb.lo; hi = h; } }
                let tz = (fa.kz.trailing_ones() + fb.kz.trailing_ones()).min(w); if tz > 0 { kz |= ones(tz); } }
            Op::UDiv => { if fb.lo > 0 { lo = fa.lo / fb.hi; hi = fa.hi / fb.lo; } }
            Op::URem => { if fb.lo > 0 { hi = (fb.hi - 1).min(fa.hi); } }
            Op::Shl => if let Some(k) = bk { if k < w as u128 { kz = ((fa.kz << k) | ones(k as u32)) & all; if k == 0 { kz = fa.kz; } ko = (fa.ko << k) & all; if fa.hi <= all >> k { lo = fa.lo << k; hi = fa.hi << k; } } }
                else { let tz = fa.kz.trailing_ones().min(w); if tz > 0 { kz = ones(tz); } },
            Op::LShr => if let Some(k) = bk { if k < w as u128 { kz = (fa.kz >> k) | (all & !(all >> k)); ko = fa.ko >> k; lo = fa.lo >> k; hi = fa.hi >> k; } } else { hi = fa.hi; },
            Op::Ite => { kz = fb.kz & fc.kz; ko = fb.ko & fc.ko; lo = fb.lo.min(fc.lo); hi = fb.hi.max(fc.hi); }
            Op::ZExt => { let aw = self.w(n.a); kz = fa.kz | (all & !ones(aw)); ko = fa.ko; lo = fa.lo; hi = fa.hi; }
            Op::SExt => { let aw = self.w(n.a); if fa.kz >> (aw - 1) & 1 == 1 { kz = fa.kz | (all & !ones(aw)); ko = fa.ko; lo = fa.lo; hi = fa.hi; } }
            Op::Concat => { let bw = self.w(n.b); kz = (fa.kz << bw) | fb.kz; ko = (fa.ko << bw) | fb.ko; lo = (fa.lo << bw) | fb.lo; hi = (fa.hi << bw) | fb.hi; }
            Op::Extract => { kz = (fa.kz >> n.k) & all; ko = (fa.ko >> n.k) & all; if n.k == 0 && fa.hi <= all { lo = fa.lo; hi = fa.hi; } else if fa.hi >> n.k <= all { lo = fa.lo >> n.k; hi = fa.hi >> n.k; } }
            _ => {}
        }
        // combine
        if hi < all { let bl = bitlen(hi); kz |= all & !ones(bl); if bl == 0 { kz = all; } }
        hi = hi.min(all & !kz); lo = lo.max(ko);
        if lo > hi { lo = ko; hi = all & !kz; }
        // signed range
        let (mut sl, mut sh) = (i128::MIN, i128::MAX);
        if w <= 120 {
            let (mn, mx) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
            let r = match n.op {
                Op::Add => (fa.sl.saturating_add(fb.sl), fa.sh.saturating_add(fb.sh)),
                Op::Sub => (fa.sl.saturating_sub(fb.sh), fa.sh.saturating_sub(fb.sl)),
                Op::Not => (fa.sh.saturating_neg().saturating_sub(1), fa.sl.saturating_neg().saturating_sub(1)),
                Op::Ite => (fb.sl.min(fc.sl), fb.sh.max(fc.sh)),
                Op::SExt => (fa.sl, fa.sh),
                Op::Extract if n.k == 0 => (fa.sl, fa.sh),
                Op::Mul if fa.sl > -(1 << 60) && fb.sl > -(1 << 60) && fa.sh < 1 << 60 && fb.sh < 1 << 60 => { let v = [fa.sl * fb.sl, fa.sl * fb.sh, fa.sh * fb.sl, fa.sh * fb.sh]; (*v.iter().min().unwrap(), *v.iter().max().unwrap()) }
                _ => (mn, mx) };
            (sl, sh) = if r.0 >= mn && r.1 <= mx { r } else { (mn, mx) };
            if hi <= mx as u128 { sl = sl.max(lo as i128); sh = sh.min(hi as i128); }
            else if lo > mx as u128 { sl = sl.max(lo as i128 - (1i128 << w)); sh = sh.min(hi as i128 - (1i128 << w)); }
            if sl >= 0 && n.op != Op::Const { lo = lo.max(sl as u128); hi = hi.min(sh as u128); let bl = bitlen(hi); kz |= all & !ones(bl); }
            else if sh < 0 && n.op != Op::Const { lo = lo.max((sl + (1i128 << w)) as u128); hi = hi.min((sh + (1i128 << w)) as u128); ko |= 1 << (w - 1); }
        }
        Facts { kz, ko, lo, hi, sl, sh }
    }
    pub fn not1(&mut self, a: Id) -> Id { self.mk(Op::Not, 1, a, NONE, NONE, 0) }
    pub fn and1(&mut self, a: Id, b: Id) -> Id { self.mk(Op::And, 1, a, b, NONE, 0) }
    pub fn or1(&mut self, a: Id, b: Id) -> Id { self.mk(Op::Or, 1, a, b, NONE, 0) }
    pub fn eq(&mut self, a: Id, b: Id) -> Id { self.mk(Op::Eq, 1, a, b, NONE, 0) }
    pub fn ult(&mut self, a: Id, b: Id) -> Id { self.mk(Op::Ult, 1, a, b, NONE, 0) }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id { let w = self.w(a); self.mk(Op::Ite, w, c, a, b, 0) }
    pub fn extract(&mut self, a: Id, lo: u32, w: u32) -> Id { self.mk(Op::Extract, w, a, NONE, NONE, lo as u128) }
    pub fn zext(&mut self, a: Id, w: u32) -> Id { self.mk(Op::ZExt, w, a, NONE, NONE, 0) }
    pub fn sext(&mut self, a: Id, w: u32) -> Id { self.mk(Op::SExt, w, a, NONE, NONE, 0) }
    pub fn concat(&mut self, h: Id, l: Id) -> Id { let w = self.w(h) + self.w(l); self.mk(Op::Concat, w, h, l, NONE, 0) }

    pub fn mk(&mut self, op: Op, w: u32, a: Id, b: Id, c: Id, k: u128) -> Id {
        // a request seen before gives the same node: without this, an operation pushed into a deep
        // chain of choices is simplified again at every shared node
        let shared = matches!(op, Op::Extract | Op::ZExt | Op::SExt | Op::And | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr | Op::Eq | Op::Ult | Op::Slt | Op::Not);
        let key = Node { op, w: w as u16, a, b, c, k };
        if shared { if let Some(r) = self.memo.get(&key) { return *r; } }
        let mut r = self.mk0(op, w, a, b, c, k);
        let f = self.facts(r); let all = ones(w);
        if self.n[r.0 as usize].op != Op::Const {
            if f.kz | f.ko == all { r = self.konst(f.ko, w); } else if f.lo == f.hi { r = self.konst(f.lo, w); }
        }
        if shared { self.memo.insert(key, r); }
        r
    }
    fn raw(&mut self, op: Op, w: u32, a: Id, b: Id) -> Id { self.intern(Node { op, w: w as u16, a, b, c: NONE, k: 0 }) }
    fn mk0(&mut self, op: Op, w: u32, mut a: Id, mut b: Id, c: Id, k: u128) -> Id {
        // constant folding. NONE (id 0) is itself the constant 0 of width 1.
        let na = self.node(a);
        let nb = self.node(b);
        let unary = matches!(op, Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::U2F | Op::S2F | Op::F2U | Op::F2S);
        let fold = if op == Op::Ite { na.op == Op::Const } else if unary { na.op == Op::Const } else if op == Op::FFun { na.op == Op::Const && nb.op == Op::Const } else { na.op == Op::Const && nb.op == Op::Const };
        if fold && op != Op::Const && op != Op::Sym {
            if op == Op::Ite { return if na.k != 0 { b } else { c }; }
            let v = apply(op, w, k, na.k, na.w as u32, nb.k, nb.w as u32, 0);
            return self.konst(v, w);
        }
        let all = ones(w);
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            // canonical order: constant on the right, otherwise by id
            if na.op == Op::Const || (nb.op != Op::Const && a.0 > b.0) { std::mem::swap(&mut a, &mut b); }
        }
        let na = self.node(a); let nb = self.node(b);
        let ck = if nb.op == Op::Const { Some(nb.k) } else { None };
        let fa = self.facts(a);
        match op {
            Op::Not => {
                if na.op == Op::Not { return na.a; }
            }
            Op::Add => {
                if let Some(k) = ck { if k == 0 { return a; } if na.op == Op::Add { if let Some(k2) = self.cval(na.b) { let s = self.konst(k.wrapping_add(k2), w); return self.mk(Op::Add, w, na.a, s, NONE, 0); } } }
                if w == 1 { return self.mk(Op::Xor, 1, a, b, NONE, 0); }
                if (fa.kz | self.facts(b).kz) == all { return self.mk(Op::Or, w, a, b, NONE, 0); }
                if na.op == Op::Sub && na.b == b { return na.a; }
                if nb.op == Op::Sub && nb.b == a { return nb.a; }
            }
            Op::Sub => {
                if a == b { return self.konst(0, w); }
                if let Some(k) = ck { let s = self.konst(0u128.wrapping_sub(k), w); return self.mk(Op::Add, w, a, s, NONE, 0); }
                if w == 1 { return self.mk(Op::Xor, 1, a, b, NONE, 0); }
                if na.op == Op::Add { if na.a == b { return na.b; } if na.b == b { return na.a; } }
            }
            Op::Mul => {
                if let Some(k) = ck { if k == 0 { return b; } if k == 1 { return a; } if k.is_power_of_two() { let s = self.konst(k.trailing_zeros() as u128, w); return self.mk(Op::Shl, w, a, s, NONE, 0); } }
                let h = fa.hi.checked_mul(self.facts(b).hi);
                if let Some(h) = h { let need = bitlen(h).max(1); if need < w && h <= all { let x = self.extract(a, 0, need); let y = self.extract(b, 0, need); let m = self.mk(Op::Mul, need, x, y, NONE, 0); return self.zext(m, w); } }
            }
            Op::UDiv | Op::URem => {
                if let Some(k) = ck {
                    if k == 1 { return if op == Op::UDiv { a } else { self.konst(0, w) }; }
                    if k != 0 && k.is_power_of_two() { if op == Op::UDiv { let s = self.konst(k.trailing_zeros() as u128, w); return self.mk(Op::LShr, w, a, s, NONE, 0); } let s = self.konst(k - 1, w); return self.mk(Op::And, w, a, s, NONE, 0); }
                    if k != 0 && fa.hi < k { return if op == Op::UDiv { self.konst(0, w) } else { a }; }
                }
                let fb = self.facts(b);
                if fb.lo > 0 { let need = bitlen(fa.hi.max(fb.hi)).max(1); if need < w { let x = self.extract(a, 0, need); let y = self.extract(b, 0, need); let m = self.mk(op, need, x, y, NONE, 0); return self.zext(m, w); } }
            }
            Op::SDiv | Op::SRem => {
                let sb = 1u128 << (w - 1);
                if fa.kz & sb != 0 && self.facts(b).kz & sb != 0 { return self.mk(if op == Op::SDiv { Op::UDiv } else { Op::URem }, w, a, b, NONE, 0); }
            }
            Op::And => {
                if a == b { return a; }
                if let Some(k) = ck { if k == 0 { return b; } if (k | fa.kz) == all { return a; }
                    if na.op == Op::And { if let Some(k2) = self.cval(na.b) { let s = self.konst(k & k2, w); return self.mk(Op::And, w, na.a, s, NONE, 0); } }
                    if na.op == Op::ZExt && bitlen(k) <= self.w(na.a) { let aw = self.w(na.a); let kk = self.konst(k, aw); let x = self.mk(Op::And, aw, na.a, kk, NONE, 0); return self.zext(x, w); }
                    if na.op == Op::Ite && (self.cval(na.b).is_some() || self.cval(na.c).is_some()) { let x = self.mk(Op::And, w, na.b, b, NONE, 0); let y = self.mk(Op::And, w, na.c, b, NONE, 0); return self.ite(na.a, x, y); } }
                if let Some(k) = ck { if w > 1 { if let Some(r) = self.split_mask(a, k, w) { return r; } } }
                if w == 1 { if self.compl(a, b) { return self.konst(0, 1); } // a & (a & x), absorption
                    if nb.op == Op::And && (nb.a == a || nb.b == a) { return b; } if na.op == Op::And && (na.a == b || na.b == b) { return a; }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) { return a; } if na.op == Op::Or && (na.a == b || na.b == b) { return b; } }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { let x = self.mk(Op::And, self.w(na.a), na.a, nb.a, NONE, 0); return self.zext(x, w); }
            }
            Op::Or => {
                if a == b { return a; }
                if let Some(k) = ck { if k == 0 { return a; } if k == all { return b; } if (k | fa.kz) == k && k & !fa.ko == 0 { return a; }
                    if na.op == Op::Or { if let Some(k2) = self.cval(na.b) { let s = self.konst(k | k2, w); return self.mk(Op::Or, w, na.a, s, NONE, 0); } } }
                if w > 1 { if let Some(r) = self.split_or(a, b, w) { return r; } }
                if w == 1 { if self.compl(a, b) { return self.konst(1, 1); }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) { return b; } if na.op == Op::Or && (na.a == b || na.b == b) { return a; }
                    if nb.op == Op::And && (nb.a == a || nb.b == a) { return a; } if na.op == Op::And && (na.a == b || na.b == b) { return b; } }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { let x = self.mk(Op::Or, self.w(na.a), na.a, nb.a, NONE, 0); return self.zext(x, w); }
            }
            Op::Xor => {
                if a == b { return self.konst(0, w); }
                if let Some(k) = ck { if k == 0 { return a; } if k == all { return self.mk(Op::Not, w, a, NONE, NONE, 0); }
                    if na.op == Op::Xor { if let Some(k2) = self.cval(na.b) { let s = self.konst(k ^ k2, w); return self.mk(Op::Xor, w, na.a, s, NONE, 0); } } }
                if w == 1 && self.compl(a, b) { return self.konst(1, 1); }
                // chains of exclusive ors have one canonical form: leaves in order, equal ones cancelled, constant last
                if w > 1 && (na.op == Op::Xor || nb.op == Op::Xor) {
                    let (mut st, mut lv, mut k) = (vec![a, b], vec![], 0u128);
                    while let Some(x) = st.pop() { let nx = self.node(x); if nx.op == Op::Xor && lv.len() + st.len() < 8 { st.push(nx.a); st.push(nx.b); } else if nx.op == Op::Const { k ^= nx.k; } else { lv.push(x); } }
                    lv.sort_by_key(|x| x.0);
                    let mut u: Vec<Id> = vec![]; for x in lv { if u.last() == Some(&x) { u.pop(); } else { u.push(x); } }
                    if u.is_empty() { return self.konst(k, w); }
                    let mut acc = u[0];
                    for x in &u[1..] { acc = self.raw(Op::Xor, w, acc, *x); }
                    if k == all { acc = self.mk(Op::Not, w, acc, NONE, NONE, 0); } else if k != 0 { let kk = self.konst(k, w); acc = self.raw(Op::Xor, w, acc, kk); }
                    return acc;
                }
                if na.op == Op::Xor { if na.a == b { return na.b; } if na.b == b { return na.a; } }
                if nb.op == Op::Xor { if nb.a == a { return nb.b; } if nb.b == a { return nb.a; } }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { let x = self.mk(Op::Xor, self.w(na.a), na.a, nb.a, NONE, 0); return self.zext(x, w); }
            }
            Op::Shl | Op::LShr => {
                if let Some(k) = ck {
                    if k == 0 { return a; } if k >= w as u128 { return self.konst(0, w); }
                    if na.op == op { if let Some(k2) = self.cval(na.b) { let s = self.konst((k + k2).min(w as u128), w); return self.mk(op, w, na.a, s, NONE, 0); } }
                    if op == Op::LShr { // extract of the high part
                        let x = self.extract(a, k as u32, w - k as u32); return self.zext(x, w);
                    }
                    if op == Op::Shl { // concat(extract low, 0)
                        let x = self.extract(a, 0, w - k as u32); let z = self.konst(0, k as u32); return self.concat(x, z);
                    }
                }
            }
            Op::AShr => {
                if let Some(k) = ck { if k == 0 { return a; } if fa.kz >> (w - 1) & 1 == 1 { return self.mk(Op::LShr, w, a, b, NONE, 0); }
                    if k < w as u128 { let x = self.extract(a, k as u32, w - k as u32); return self.mk(Op::SExt, w, x, NONE, NONE, 0); } }
            }
            Op::Eq => {
                if a == b { return self.konst(1, 1); }
                let fb = self.facts(b); let aw = self.w(a);
                if fa.ko & fb.kz != 0 || fa.kz & fb.ko != 0 || fa.hi < fb.lo || fb.hi < fa.lo { return self.konst(0, 1); }
                if let Some(k) = ck {
                    if aw == 1 { return if k == 1 { a } else { self.not1(a) }; }
                    match na.op {
                        Op::ZExt => { let iw = self.w(na.a); let kk = self.konst(k, iw); return self.eq(na.a, kk); }
                        Op::SExt => { let iw = self.w(na.a); if mask(sext(mask(k, iw), iw) as u128, aw) != k { return self.konst(0, 1); } let kk = self.konst(k, iw); return self.eq(na.a, kk); }
                        Op::Add => if let Some(k2) = self.cval(na.b) { let kk = self.konst(k.wrapping_sub(k2), aw); return self.eq(na.a, kk); },
                        Op::Xor => if let Some(k2) = self.cval(na.b) { let kk = self.konst(k ^ k2, aw); return self.eq(na.a, kk); },
                        Op::Not => { let kk = self.konst(!k, aw); return self.eq(na.a, kk); }
                        Op::Sub if k == 0 => return self.eq(na.a, na.b),
                        Op::Ite => {
                            if let Some(k1) = self.cval(na.b) { let t = self.eq(na.c, b); return if k1 == k { self.or1(na.a, t) } else { let nc = self.not1(na.a); self.and1(nc, t) }; }
                            if let Some(k2) = self.cval(na.c) { let t = self.eq(na.b, b); let nc = self.not1(na.a); return if k2 == k { self.or1(nc, t) } else { self.and1(na.a, t) }; }
                        }
                        Op::Concat => { let lw = self.w(na.b); let hk = self.konst(k >> lw, aw - lw); let lk = self.konst(k, lw); let h = self.eq(na.a, hk); let l = self.eq(na.b, lk); return self.and1(h, l); }
                        Op::Or if k == 0 => { let z = b; let x = self.eq(na.a, z); let y = self.eq(na.b, z); return self.and1(x, y); }
                        Op::And if na.op == Op::And => { if let Some(m) = self.cval(na.b) { if m.is_power_of_two() { let bit = self.extract(na.a, m.trailing_zeros(), 1); return if k == 0 { self.not1(bit) } else if k == m { bit } else { self.konst(0, 1) }; } } }
                        _ => {}
                    }
                } else if aw == 1 { let x = self.mk(Op::Xor, 1, a, b, NONE, 0); return self.not1(x); }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.eq(na.a, nb.a); }
                if na.op == Op::ZExt && nb.op == Op::ZExt { // different inner widths
                    let (wa, wb) = (self.w(na.a), self.w(nb.a)); let m = wa.max(wb); if m < aw { let x = self.zext(na.a, m); let y = self.zext(nb.a, m); return self.eq(x, y); } }
                if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) { let h = self.eq(na.a, nb.a); let l = self.eq(na.b, nb.b); return self.and1(h, l); }
                if na.op == Op::Add && nb.op == Op::Add { if na.a == nb.a { return self.eq(na.b, nb.b); } if na.b == nb.b { return self.eq(na.a, nb.a); } }
            }
            Op::Ult => {
                if a == b { return self.konst(0, 1); }
                let fb = self.facts(b); let aw = self.w(a);
                if fa.hi < fb.lo { return self.konst(1, 1); } if fa.lo >= fb.hi { return self.konst(0, 1); }
                if let Some(k) = ck { if k == 0 { return self.konst(0, 1); } if k == 1 { let z = self.konst(0, aw); return self.eq(a, z); } if k == ones(aw) { let e = self.eq(a, b); return self.not1(e); }
                    if na.op == Op::ZExt { let iw = self.w(na.a); let kk = self.konst(k, iw); return self.ult(na.a, kk); }
                    if na.op == Op::Ite && self.cval(na.b).is_some() && self.cval(na.c).is_some() { let x = self.ult(na.b, b); let y = self.ult(na.c, b); return self.ite(na.a, x, y); } }
                if let Some(k) = self.cval(a) { if k == ones(aw) { return self.konst(0, 1); } if k == 0 { let z = self.eq(b, a); return self.not1(z); }
                    if nb.op == Op::ZExt { let iw = self.w(nb.a); let kk = self.konst(k, iw); return self.ult(kk, nb.a); } }
                if na.op == Op::ZExt && nb.op == Op::ZExt { let (wa, wb) = (self.w(na.a), self.w(nb.a)); let m = wa.max(wb); if m < aw { let x = self.zext(na.a, m); let y = self.zext(nb.a, m); return self.ult(x, y); } }
                if aw == 1 { let n = self.not1(a); return self.and1(n, b); }
            }
            Op::Slt => {
                if a == b { return self.konst(0, 1); }
                let aw = self.w(a); let sb = 1u128 << (aw - 1);
                let fb = self.facts(b);
                if fa.kz & sb != 0 && fb.kz & sb != 0 { return self.ult(a, b); }
                if fa.ko & sb != 0 && fb.kz & sb != 0 { return self.konst(1, 1); }
                if fa.kz & sb != 0 && fb.ko & sb != 0 { return self.konst(0, 1); }
                if aw <= 120 { if fa.sh < fb.sl { return self.konst(1, 1); } if fa.sl >= fb.sh { return self.konst(0, 1); } }
                if ck == Some(0) { return self.extract(a, aw - 1, 1); }
                if self.cval(a) == Some(ones(aw)) { let s = self.extract(b, aw - 1, 1); return self.not1(s); }
            }
            Op::Ite => {
                if b == c { return b; }
                if na.op == Op::Not { return self.ite(na.a, c, b); }
                if w == 1 {
                    let (cb, cc) = (self.cval(b), self.cval(c));
                    match (cb, cc) { (Some(1), Some(0)) => return a, (Some(0), Some(1)) => return self.not1(a), (Some(1), _) => return self.or1(a, c), (Some(0), _) => { let n = self.not1(a); return self.and1(n, c); } (_, Some(0)) => return self.and1(a, b), (_, Some(1)) => { let n = self.not1(a); return self.or1(n, b); } _ => {} }
                }
                let nb = self.node(b); let nc = self.node(c);
                if nb.op == Op::Ite && nb.a == a { return self.ite(a, nb.b, c); }
                if nc.op == Op::Ite && nc.a == a { return self.ite(a, b, nc.c); }
                if nc.op == Op::Ite && nc.b == b { let o = self.or1(a, nc.a); return self.ite(o, b, nc.c); }
                if nb.op == Op::Ite && nb.c == c { let o = self.and1(a, nb.a); return self.ite(o, nb.b, c); }
                if nb.op == Op::ZExt && nc.op == Op::ZExt && self.w(nb.a) == self.w(nc.a) { let x = self.ite(a, nb.a, nc.a); return self.zext(x, w); }
                if w > 1 && self.cval(b) == Some(1) && self.cval(c) == Some(0) { return self.zext(a, w); }
                if w > 1 && self.cval(b) == Some(0) && self.cval(c) == Some(1) { let n = self.not1(a); return self.zext(n, w); }
                // x == k ? k : y  ->  keep
            }
            Op::Concat => {
                if self.cval(a) == Some(0) { return self.zext(b, w); }
                if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u128 { return self.extract(na.a, nb.k as u32, w); }
                if nb.op == Op::Concat { let x = self.node(nb.a); if na.op == Op::Extract && x.op == Op::Extract && na.a == x.a && na.k == x.k + x.w as u128 { let h = self.extract(na.a, x.k as u32, na.w as u32 + x.w as u32); return self.concat(h, nb.b); }
                    if na.op == Op::Const && x.op == Op::Const { let h = self.concat(a, nb.a); return self.concat(h, nb.b); } }
                if na.op == Op::Concat { let x = self.node(na.b); if nb.op == Op::Extract && x.op == Op::Extract && x.a == nb.a && x.k == nb.k + nb.w as u128 { let l = self.extract(nb.a, nb.k as u32, nb.w as u32 + x.w as u32); return self.concat(na.a, l); } 
                    if nb.op == Op::Const && x.op == Op::Const { let l = self.concat(na.b, b); return self.concat(na.a, l); } }
                if na.op == Op::ZExt { let h = na.a; let l = self.concat(h, b); return self.zext(l, w); }
                if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a { let x = self.concat(na.b, nb.b); let y = self.concat(na.c, nb.c); return self.ite(na.a, x, y); }
                // extract(x, 8..) ++ x  where x is narrower than the source
            }
            Op::Extract => {
                let aw = self.w(a); let lo = k as u32;
                if lo == 0 && w == aw { return a; }
                match na.op {
                    Op::Extract => return self.extract(na.a, na.k as u32 + lo, w),
                    Op::Concat => { let lw = self.w(na.b); if lo >= lw { return self.extract(na.a, lo - lw, w); } if lo + w <= lw { return self.extract(na.b, lo, w); }
                        let h = self.extract(na.a, 0, lo + w - lw); let l = self.extract(na.b, lo, lw - lo); return self.concat(h, l); }
                    Op::ZExt => { let iw = self.w(na.a); if lo >= iw { return self.konst(0, w); } if lo + w <= iw { return self.extract(na.a, lo, w); } let x = self.extract(na.a, lo, iw - lo); return self.zext(x, w); }
                    Op::SExt => { let iw = self.w(na.a); if lo + w <= iw { return self.extract(na.a, lo, w); } if lo == 0 { return self.mk(Op::SExt, w, na.a, NONE, NONE, 0); } }
                    Op::And | Op::Or | Op::Xor => { let x = self.extract(na.a, lo, w); let y = self.extract(na.b, lo, w); return self.mk(na.op, w, x, y, NONE, 0); }
                    Op::Not => { let x = self.extract(na.a, lo, w); return self.mk(Op::Not, w, x, NONE, NONE, 0); }
                    Op::Add | Op::Sub | Op::Mul if lo == 0 => { let x = self.extract(na.a, 0, w); let y = self.extract(na.b, 0, w); return self.mk(na.op, w, x, y, NONE, 0); }
                    Op::Ite => { let x = self.extract(na.b, lo, w); let y = self.extract(na.c, lo, w); return self.ite(na.a, x, y); }
                    _ => {}
                }
                if (fa.hi >> lo) == 0 { return self.konst(0, w); }
            }
            Op::ZExt => {
                if self.w(a) == w { return a; }
                if na.op == Op::ZExt { return self.zext(na.a, w); }
            }
            Op::SExt => {
                let aw = self.w(a); if aw == w { return a; }
                if fa.kz >> (aw - 1) & 1 == 1 { return self.zext(a, w); }
                if na.op == Op::SExt { return self.mk(Op::SExt, w, na.a, NONE, NONE, 0); }
            }
            Op::FEq | Op::FLe if a == b && false => {}
            _ => {}
        }
        self.intern(Node { op, w: w as u16, a, b, c, k })
    }
    /// x & constant as a concatenation of extracts and zeros (at most a few runs)
    fn split_mask(&mut self, a: Id, k: u128, w: u32) -> Option<Id> {
        let runs = run_starts(k, w); if runs.len() > 5 { return None; }
        let mut acc: Option<Id> = None;
        for (i, &(st, one)) in runs.iter().enumerate() {
            let en = if i + 1 < runs.len() { runs[i + 1].0 } else { w };
            let p = if one { self.extract(a, st, en - st) } else { self.konst(0, en - st) };
            acc = Some(match acc { None => p, Some(l) => self.concat(p, l) });
        }
        acc
    }
    /// a | b where every bit of one side is known zero (or known one): concatenation of pieces
    fn split_or(&mut self, a: Id, b: Id, w: u32) -> Option<Id> {
        let (fa, fb) = (self.facts(a), self.facts(b));
        // 0: take a, 1: take b, 2: ones
        let sel = |i: u32| -> Option<u8> { let m = 1u128 << i; if (fa.ko | fb.ko) & m != 0 { Some(2) } else if fb.kz & m != 0 { if fa.kz & m != 0 { Some(3) } else { Some(0) } } else if fa.kz & m != 0 { Some(1) } else { None } };
        let mut runs: Vec<(u32, u8)> = vec![];
        for i in 0..w { let s = sel(i)?; if runs.last().map(|r| r.1) != Some(s) { runs.push((i, s)); if runs.len() > 6 { return None; } } }
        if runs.len() == 1 && runs[0].1 < 2 { return Some(if runs[0].1 == 0 { a } else { b }); }
        let mut acc: Option<Id> = None;
        for (i, &(st, k)) in runs.iter().enumerate() {
            let en = if i + 1 < runs.len() { runs[i + 1].0 } else { w }; let l = en - st;
            let p = match k { 0 => self.extract(a, st, l), 1 => self.extract(b, st, l), 2 => self.konst(!0, l), _ => self.konst(0, l) };
            acc = Some(match acc { None => p, Some(x) => self.concat(p, x) });
        }
        acc
    }
    fn compl(&self, a: Id, b: Id) -> bool { let (x, y) = (self.node(a), self.node(b)); (x.op == Op::Not && x.a == b) || (y.op == Op::Not && y.a == a) }

    pub fn popcount(&mut self, a: Id, w: u32) -> Id {
        let mut v: Vec<Id> = (0..w).map(|i| self.extract(a, i, 1)).collect();
        let mut bits = 1;
        while v.len() > 1 {
            bits += 1; let mut nv = vec![];
            for p in v.chunks(2) { if p.len() == 2 { let x = self.zext(p[0], bits); let y = self.zext(p[1], bits); nv.push(self.mk(Op::Add, bits, x, y, NONE, 0)); } else { nv.push(self.zext(p[0], bits)); } }
            v = nv;
        }
        let r = v[0]; let rw = self.w(r);
        if rw >= w { self.extract(r, 0, w) } else { self.zext(r, w) }
    }
    pub fn cttz(&mut self, a: Id, w: u32) -> Id {
        let mut r = self.konst(w as u128, w);
        for i in (0..w).rev() { let bit = self.extract(a, i, 1); let k = self.konst(i as u128, w); r = self.ite(bit, k, r); }
        r
    }
    pub fn ctlz(&mut self, a: Id, w: u32) -> Id {
        let mut r = self.konst(w as u128, w);
        for i in 0..w { let bit = self.extract(a, i, 1); let k = self.konst((w - 1 - i) as u128, w); r = self.ite(bit, k, r); }
        r
    }
    /// evaluate under an assignment with memo
    /// e with the expressions in m replaced (each by a constant or an expression with a smaller id); None: too large
    pub fn subst(&mut self, e: Id, m: &HashMap<Id, Id, Fx>, memo: &mut HashMap<Id, Id, Fx>, left: &mut u32) -> Option<Id> {
        if self.cval(e).is_some() { return Some(e); }
        if let Some(r) = memo.get(&e) { return Some(*r); }
        if *left == 0 { return None; } *left -= 1;
        let r = match m.get(&e) {
            Some(&t) => self.subst(t, m, memo, left)?,
            None => { let n = self.node(e);
                if n.op == Op::Sym { e } else {
                    let a = if n.a != NONE { self.subst(n.a, m, memo, left)? } else { NONE };
                    // only the live side of a decided choice
                    if n.op == Op::Ite { if let Some(k) = self.cval(a) { let r = self.subst(if k == 1 { n.b } else { n.c }, m, memo, left)?; memo.insert(e, r); return Some(r); } }
                    let b = if n.b != NONE { self.subst(n.b, m, memo, left)? } else { NONE };
                    let c = if n.c != NONE { self.subst(n.c, m, memo, left)? } else { NONE };
                    if (a, b, c) == (n.a, n.b, n.c) { e } else { let r = self.mk(n.op, n.w as u32, a, b, c, n.k); match m.get(&r) { Some(&t) => self.subst(t, m, memo, left)?, None => r } }
                } }
        };
        memo.insert(e, r); Some(r)
    }
    pub fn eval(&self, root: Id, m: &mut Model) -> u128 {
        if let Some(v) = self.cval(root) { return v; }
        if let Some(v) = m.memo.get(&root) { return *v; }
        let mut st = vec![root];
        while let Some(&i) = st.last() {
            if m.memo.contains_key(&i) { st.pop(); continue; }
            let n = self.node(i);
            let r = match n.op {
                Op::Const => n.k,
                Op::Sym => mask(*m.sym.get(n.k as usize).unwrap_or(&0), n.w as u32),
                Op::Ite => {
                    match self.get(n.a, m) { None => { st.push(n.a); continue; } Some(c) => { let t = if c != 0 { n.b } else { n.c }; match self.get(t, m) { None => { st.push(t); continue; } Some(v) => v } } }
                }
                _ => {
                    let mut miss = false;
                    let mut g = |x: Id, st: &mut Vec<Id>| -> u128 { if x == NONE { return 0; } match self.get(x, m) { Some(v) => v, None => { st.push(x); miss = true; 0 } } };
                    let va = g(n.a, &mut st); let vb = g(n.b, &mut st);
                    if miss { continue; }
                    apply(n.op, n.w as u32, n.k, va, self.w(n.a), vb, self.w(n.b), 0)
                }
            };
            m.memo.insert(i, r); st.pop();
        }
        m.memo[&root]
    }
    fn get(&self, i: Id, m: &Model) -> Option<u128> { if let Some(v) = self.cval(i) { Some(v) } else { m.memo.get(&i).copied() } }
    pub fn show(&self, i: Id, d: u32) -> String {
        let n = self.node(i);
        match n.op { Op::Const => format!("{:#x}", n.k), Op::Sym => format!("s{}:{}", n.k, n.w), _ if d == 0 => "..".into(),
            _ => { let mut s = format!("({:?}{}", n.op, if n.op == Op::Extract || n.op == Op::FFun { format!("[{}+{}]", n.k, n.w) } else { String::new() }); for x in [n.a, n.b, n.c] { if x != NONE { s += " "; s += &self.show(x, d - 1); } } s + ")" } }
    }
}
pub struct Model { pub sym: Vec<u128>, pub memo: HashMap<Id, u128, Fx> }
impl Model { pub fn new(sym: Vec<u128>) -> Model { Model { sym, memo: HashMap::with_hasher(Fx) } } }
