//! Harness vocabulary. Symbolically these are handled by the engine; in the native build they replay a list of values.
extern "C" {
    fn sx_sym(bits: u32) -> u64;
    fn sx_assume(c: bool);
    fn sx_check(c: bool, id: u32);
    fn sx_param(i: u32) -> u64;
    fn sx_note(v: u64);
    fn sx_reach(id: u32);
    fn sx_panic_ok(c: bool);
    fn sx_merge(n: u64);
    fn sx_split(v: u64) -> u64;
    fn sx_rng_split(on: bool);
    fn sx_uf(which: u32, x: u64, bits: u32) -> u64;
    fn sx_real(lo: u64, hi: u64) -> u64;
    fn sx_int(lo: u64, hi: u64) -> u64;
}
/// a fresh arbitrary value of `bits` bits
#[inline] pub fn sym(bits: u32) -> u64 { unsafe { sx_sym(bits) } }
#[inline] pub fn symb() -> bool { unsafe { sx_sym(1) & 1 == 1 } }
/// an arbitrary value below n (n concrete)
#[inline] pub fn below(n: u64) -> u64 { let b = 64 - (n - 1).leading_zeros(); if b == 0 { return 0; } let v = sym(b); assume(v < n); v }
#[inline] pub fn assume(c: bool) { unsafe { sx_assume(c) } }
#[inline] pub fn check(c: bool, id: u32) { unsafe { sx_check(c, id) } }
/// an arbitrary double in [lo, hi] (real mode)
#[inline] pub fn real(lo: f64, hi: f64) -> f64 { f64::from_bits(unsafe { sx_real(lo.to_bits(), hi.to_bits()) }) }
/// an arbitrary integer in [lo, hi] (real mode)
#[inline] pub fn int(lo: u64, hi: u64) -> u64 { unsafe { sx_int(lo, hi) } }
/// concrete parameter i of this run
#[inline] pub fn param(i: u32) -> u64 { unsafe { sx_param(i) } }
/// observable value, compared between the symbolic and the native execution of sampled models
#[inline] pub fn note(v: u64) { unsafe { sx_note(v) } }
#[inline] pub fn reach(id: u32) { unsafe { sx_reach(id) } }
/// from here on a panic is allowed exactly when c holds
#[inline] pub fn panic_ok(c: bool) { unsafe { sx_panic_ok(c) } }
/// state merging budget (0: off)
#[inline] pub fn merge(n: u64) { unsafe { sx_merge(n) } }
/// case-split on v: every feasible value is explored separately and is concrete afterwards
#[inline] pub fn split(v: u64) -> u64 { unsafe { sx_split(v) } }

/// case-split on small random draws from here on
#[inline] pub fn rng_split(on: bool) { unsafe { sx_rng_split(on) } }

#[cfg(feature = "native")]
pub mod native {
    use std::sync::Mutex;
    pub struct St { pub vals: Vec<u128>, pub pos: usize, pub params: Vec<u64>, pub notes: Vec<u64>, pub ok: bool }
    pub static ST: Mutex<St> = Mutex::new(St { vals: vec![], pos: 0, params: vec![], notes: vec![], ok: false });
    pub fn end(code: i32, msg: &str) -> ! {
        let n: Vec<String> = match ST.try_lock() { Ok(s) => s.notes.iter().map(|x| x.to_string()).collect(), Err(_) => vec![] };
        println!("{{\"outcome\":\"{}\",\"notes\":[{}]}}", msg, n.join(","));
        use std::io::Write; std::io::stdout().flush().ok();
        std::process::exit(code)
    }
    #[no_mangle] pub extern "C" fn sx_sym(bits: u32) -> u64 { let r = { let mut s = ST.lock().unwrap(); let p = s.pos; s.pos += 1; s.vals.get(p).copied() }; match r { Some(v) => if bits >= 64 { v as u64 } else { v as u64 & ((1u64 << bits) - 1) }, None => end(97, "values exhausted") } }
    #[no_mangle] pub extern "C" fn sx_real(lo: u64, hi: u64) -> u64 { let v = sx_sym(64); let x = f64::from_bits(v); sx_assume(x >= f64::from_bits(lo) && x <= f64::from_bits(hi)); v }
    #[no_mangle] pub extern "C" fn sx_int(lo: u64, hi: u64) -> u64 { let v = sx_sym(64); sx_assume(v >= lo && v <= hi); v }
    #[no_mangle] pub extern "C" fn sx_assume(c: bool) { if !c { end(96, "assumption violated") } }
    #[no_mangle] pub extern "C" fn sx_check(c: bool, id: u32) { if !c { end(10, &format!("check {}", id)) } }
    #[no_mangle] pub extern "C" fn sx_param(i: u32) -> u64 { let r = ST.lock().unwrap().params.get(i as usize).copied(); match r { Some(v) => v, None => end(95, "missing parameter") } }
    #[no_mangle] pub extern "C" fn sx_note(v: u64) { ST.lock().unwrap().notes.push(v) }
    static UF: Mutex<Vec<(u32, u64, u64)>> = Mutex::new(vec![]);
    #[no_mangle] pub extern "C" fn sx_uf(w: u32, x: u64, bits: u32) -> u64 { let left = { let s = ST.lock().unwrap(); s.pos < s.vals.len() };
        // a history that hashes without end has no more listed values: any function will do
        let v = if left { sx_sym(bits) } else { let mut z = x.wrapping_add(0x9e3779b97f4a7c15u64.wrapping_mul(w as u64 + 2)); z = (z ^ z >> 30).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ z >> 27).wrapping_mul(0x94d049bb133111eb); z ^= z >> 31; if bits >= 64 { z } else { z & ((1u64 << bits) - 1) } };
        let mut t = UF.lock().unwrap(); if let Some(e) = t.iter().find(|e| e.0 == w && e.1 == x) { return e.2; } t.push((w, x, v)); v }
    #[no_mangle] pub extern "C" fn sx_reach(_: u32) {}
    #[no_mangle] pub extern "C" fn sx_panic_ok(c: bool) { ST.lock().unwrap().ok = c }
    #[no_mangle] pub extern "C" fn sx_merge(_: u64) {}
    #[no_mangle] pub extern "C" fn sx_rng_split(_: bool) {}
    #[no_mangle] pub extern "C" fn sx_rsplit(v: u64) -> u64 { v }
    #[no_mangle] pub extern "C" fn sx_split(v: u64) -> u64 { v }
}

use std::hash::{BuildHasher, Hash, Hasher};

/// An item whose hash under builder `Id(i)` is h[i]: every pair of 64-bit hash values, hence every hash function.
#[derive(Clone, Copy, PartialEq, Eq, Debug, serde::Serialize, serde::Deserialize)]
pub struct It { pub h: [u64; 2] }
impl Hash for It { fn hash<H: Hasher>(&self, s: &mut H) { s.write_u64(self.h[0]); s.write_u64(self.h[1]); } }
pub fn item() -> It { It { h: [sym(64), sym(64)] } }

/// Hash builder i. An `It` hashes to its i-th component; a single u64 x hashes to UF_i(x) where UF_i is an
/// arbitrary function (Ackermann table of fresh values, consistent by construction).
#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Id(pub usize);
pub struct Hs { which: usize, n: usize, w: [u64; 2] }
impl BuildHasher for Id { type Hasher = Hs; fn build_hasher(&self) -> Hs { Hs { which: self.0, n: 0, w: [0; 2] } } }
impl Hasher for Hs {
    fn finish(&self) -> u64 { if self.n == 2 { self.w[self.which & 1] } else { uf(self.which, self.w[0]) } }
    fn write(&mut self, b: &[u8]) { let mut x = 0u64; for c in b { x = x << 8 | *c as u64; } self.write_u64(x) }
    fn write_u64(&mut self, x: u64) { if self.n < 2 { self.w[self.n] = x; } self.n += 1; }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
}
static mut UFB: [u32; 2] = [64; 2];
/// values of UF_i use only the low `bits` bits (fewer symbols when only those matter)
pub fn uf_bits(i: usize, bits: u32) { unsafe { UFB[i] = bits } }
/// the arbitrary function UF_i at x: equal arguments give equal values, nothing else is known
pub fn uf(i: usize, x: u64) -> u64 { unsafe { sx_uf(i as u32, x, UFB[i & 1]) } }
/// branch-free select
#[inline] pub fn sel(c: bool, a: u64, b: u64) -> u64 { let m = 0u64.wrapping_sub(c as u64); (a & m) | (b & !m) }
/// the crate's documented probe sequence: h_0 = a, h_{i+1} = h_i + b_i, b_0 = b, b_{i+1} = b_i + i (mod 2^64)
pub fn probe(x: &It, i: u64) -> u64 {
    let k = if i < 3 { 0 } else { i * (i - 1) * (i - 2) / 6 };
    x.h[0].wrapping_add(x.h[1].wrapping_mul(i)).wrapping_add(k)
}
/// hashes bounded below 2^bits (0: all 64 bits)
pub fn item_bits(bits: u32) -> It { if bits == 0 || bits >= 64 { item() } else { It { h: [sym(bits), sym(bits)] } } }
/// floating-point agreement up to rounding
pub fn close(a: f64, b: f64) -> bool { a == b || ((a - b) <= 1e-9 * (a.abs() + b.abs()) && (b - a) <= 1e-9 * (a.abs() + b.abs())) }
/// number of ones, branch-free
pub fn ones(x: u64) -> u64 { x.count_ones() as u64 }
