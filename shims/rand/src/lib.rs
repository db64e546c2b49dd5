//! Stand-in for `rand` 0.7 in verification builds: every draw is an arbitrary value of its documented range.
pub mod nd {
    extern "C" { fn sx_sym(bits: u32) -> u64; fn sx_assume(c: bool); fn sx_rsplit(v: u64) -> u64; }
    /// draws can be recorded and given out again, so that two executions see the same random draws
    static mut TAPE: Vec<u64> = Vec::new();
    static mut MODE: (u8, usize) = (0, 0);
    pub fn record() { unsafe { TAPE = Vec::new(); MODE = (1, 0); } }
    /// the draws recorded so far
    #[allow(static_mut_refs)]
    pub fn tape() -> Vec<u64> { unsafe { TAPE.clone() } }
    pub fn play() { unsafe { MODE = (2, 0); } }
    pub fn off() { unsafe { MODE = (0, 0); } }
    #[allow(static_mut_refs)]
    pub fn bits(n: u32) -> u64 { unsafe {
        if MODE.0 == 3 { return if n < 7 { below(1 << n) } else { assume(false); 0 }; }
        if MODE.0 == 2 && MODE.1 < TAPE.len() { MODE.1 += 1; return TAPE[MODE.1 - 1]; }
        let v = sx_sym(n); let v = if n <= 1 { sx_rsplit(v) } else { v };
        if MODE.0 == 1 { TAPE.push(v); }
        v
    } }
    /// mode 3: every draw is a digit given by the caller; the number of values each draw can take is recorded, so that the caller can go
    /// through all outcomes. A draw of more than 64 values (an f64) is divided into `cells` equal cells, represented by their middles.
    static mut DIGITS: Vec<u64> = Vec::new();
    static mut RADIX: Vec<u64> = Vec::new();
    static mut CELLS: u64 = 1;
    pub fn digits(d: &[u64], cells: u64) { unsafe { DIGITS = d.to_vec(); RADIX = Vec::new(); CELLS = cells; MODE = (3, 0); } }
    #[allow(static_mut_refs)]
    pub fn radices() -> Vec<u64> { unsafe { RADIX.clone() } }
    #[allow(static_mut_refs)]
    fn digit(n: u64) -> u64 { unsafe { let i = MODE.1; MODE.1 += 1; RADIX.push(n); if i < DIGITS.len() { DIGITS[i] } else { 0 } } }
    pub fn scripted() -> bool { unsafe { MODE.0 == 3 } }
    /// a draw from 0..n
    pub fn below(n: u64) -> u64 { if n <= 64 { digit(n) } else { assume(false); 0 } }
    /// a draw from [0, 1)
    pub fn unit() -> f64 { let c = unsafe { CELLS }; (digit(c) as f64 + 0.5) / c as f64 }
    pub fn split(v: u64) -> u64 { unsafe { sx_rsplit(v) } }
    pub fn assume(b: bool) { unsafe { sx_assume(b) } }
}
#[derive(Debug)]
pub struct Error;
pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
    fn fill_bytes(&mut self, dest: &mut [u8]) { for b in dest { *b = nd::bits(8) as u8; } }
}
pub trait SeedableRng: Sized {
    type Seed: Default + AsMut<[u8]>;
    fn from_seed(seed: Self::Seed) -> Self;
    fn seed_from_u64(_: u64) -> Self { Self::from_seed(Default::default()) }
    fn from_entropy() -> Self { Self::from_seed(Default::default()) }
    fn from_rng<R: RngCore>(_: R) -> Result<Self, Error> { Ok(Self::from_seed(Default::default())) }
}
pub trait Draw: Copy { fn any() -> Self; }
pub trait Uniform: Copy { fn between(lo: Self, hi: Self) -> Self; }
macro_rules! ints { ($($t:ty),*) => { $(
    impl Draw for $t { fn any() -> Self { nd::bits(<$t>::BITS) as $t } }
    impl Uniform for $t { fn between(lo: Self, hi: Self) -> Self {
        assert!(lo < hi, "UniformSampler::sample_single: low >= high");
        let n = (hi as u64).wrapping_sub(lo as u64);
        if n == 1 { return lo; }
        if nd::scripted() { return lo.wrapping_add(nd::below(n) as $t); }
        let b = 64 - (n - 1).leading_zeros();
        let v = nd::bits(b); nd::assume(v < n); let v = if n <= 16 { nd::split(v) } else { v }; lo.wrapping_add(v as $t) } }
)* } }
ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
impl Draw for bool { fn any() -> Self { nd::bits(1) & 1 == 1 } }
/// 53 random bits scaled to [0, 1), as in rand
impl Draw for f64 { fn any() -> Self { if nd::scripted() { return nd::unit(); } let v = nd::bits(53); v as f64 / (1u64 << 53) as f64 } }
impl Draw for f32 { fn any() -> Self { if nd::scripted() { return nd::unit() as f32; } let v = nd::bits(24); v as f32 / (1u32 << 24) as f32 } }
impl Uniform for f64 { fn between(lo: Self, hi: Self) -> Self { assert!(lo < hi); let v = f64::any(); lo + (hi - lo) * v } }
pub trait Rng: RngCore {
    fn gen<T: Draw>(&mut self) -> T { T::any() }
    fn gen_range<T: Uniform>(&mut self, lo: T, hi: T) -> T { T::between(lo, hi) }
    /// true with probability p: any outcome, except that p = 0 and p = 1 are certain
    fn gen_bool(&mut self, p: f64) -> bool { assert!(p >= 0.0 && p <= 1.0); if nd::scripted() { return nd::unit() < p; } let b = bool::any(); nd::assume(b || p < 1.0); nd::assume(!b || p > 0.0); b }
    fn gen_ratio(&mut self, n: u32, d: u32) -> bool { assert!(d > 0 && n <= d); u32::between(0, d) < n }
    fn fill<T: AsMut<[u8]> + ?Sized>(&mut self, dest: &mut T) { self.fill_bytes(dest.as_mut()) }
}
impl<R: RngCore + ?Sized> Rng for R {}
impl<R: RngCore + ?Sized> RngCore for &mut R { fn next_u32(&mut self) -> u32 { nd::bits(32) as u32 } fn next_u64(&mut self) -> u64 { nd::bits(64) } }
macro_rules! rng { ($($n:ident),*) => { $(
    #[derive(Clone, Debug, Copy, PartialEq, Eq)] pub struct $n { _p: () }
    impl RngCore for $n { fn next_u32(&mut self) -> u32 { nd::bits(32) as u32 } fn next_u64(&mut self) -> u64 { nd::bits(64) } }
    impl SeedableRng for $n { type Seed = [u8; 32]; fn from_seed(_: [u8; 32]) -> Self { $n { _p: () } } }
)* } }
pub mod rngs { use super::*; rng!(ThreadRng, StdRng, SmallRng, OsRng); pub(crate) fn t() -> ThreadRng { ThreadRng { _p: () } } }
pub use rngs::ThreadRng;
pub fn thread_rng() -> ThreadRng { rngs::t() }
pub fn random<T: Draw>() -> T { T::any() }
pub mod seq {
    use super::*;
    pub trait SliceRandom { type Item; fn choose<R: Rng + ?Sized>(&self, r: &mut R) -> Option<&Self::Item>; fn shuffle<R: Rng + ?Sized>(&mut self, r: &mut R); }
    impl<T> SliceRandom for [T] { type Item = T;
        fn choose<R: Rng + ?Sized>(&self, r: &mut R) -> Option<&T> { if self.is_empty() { None } else { Some(&self[r.gen_range(0, self.len())]) } }
        fn shuffle<R: Rng + ?Sized>(&mut self, r: &mut R) { for i in (1..self.len()).rev() { let j = r.gen_range(0, i + 1); self.swap(i, j); } } }
}
pub mod prelude { pub use super::{random, thread_rng, Rng, RngCore, SeedableRng}; pub use super::rngs::*; pub use super::seq::SliceRandom; }
