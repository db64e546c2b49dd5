//! Serialized copies (C26) and clones (C27) of every collection against the original: observations, and evolution under the
//! same further operations with the same random draws.
use crate::flat::{round_trip, to_words};
use crate::sx::*;
use probabilistic_collections::bloom::*;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::cuckoo::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::similarity::{MinHash, SimHash};
use probabilistic_collections::verif_hooks::{BitVec, BitstringVec, DoubleHasher};
use probabilistic_collections::SipHasherBuilder;
use serde::{de::DeserializeOwned, Serialize};
use std::hash::BuildHasher;

/// the crate's strategies do not implement Clone, so a sketch using them cannot be cloned; these do, and estimate the same way
#[derive(Clone)] pub struct Cm;
#[derive(Clone)] pub struct Cb;
impl CountStrategy for Cm { fn get_estimate(i: i64, r: usize, c: usize, v: ItemValueIter<'_>) -> i64 { CountMinStrategy::get_estimate(i, r, c, v) } }
impl CountStrategy for Cb { fn get_estimate(i: i64, r: usize, c: usize, v: ItemValueIter<'_>) -> i64 { CountMedianBiasStrategy::get_estimate(i, r, c, v) } }

const HB: [Id; 2] = [Id(0), Id(1)];
/// a collection with its operations and everything it answers; draw: an arbitrary item within the bounds
trait Col: Sized {
    fn mk() -> Self;
    fn draw(&self) -> It { item() }
    fn ins(&mut self, x: &It);
    fn del(&mut self, x: &It) { self.ins(x) }
    fn clr(&mut self);
    fn has(&mut self, x: &It) -> u64;
    fn nums(&self) -> Vec<u64>;
}
fn p(i: u32) -> usize { param(i) as usize }
fn ft(i: u32) -> f64 { param(i) as f64 / 1000.0 }
fn f(x: f64) -> u64 { x.to_bits() }
fn ids(h: &[Id; 2]) -> u64 { (h[0].0 * 2 + h[1].0) as u64 }
macro_rules! col { ($t:ty, $mk:expr, [$($n:ident),*], $h:ident, |$s:ident| $more:expr $(, $extra:item)*) => { impl Col for $t {
    fn mk() -> Self { $mk }
    fn ins(&mut self, x: &It) { self.insert(x) }
    fn clr(&mut self) { self.clear() }
    fn has(&mut self, x: &It) -> u64 { self.contains(x) as u64 }
    fn nums(&self) -> Vec<u64> { let $s = self; let mut v: Vec<u64> = $more; v.push(ids($s.$h())); $(v.push($s.$n() as u64);)* v }
    $($extra)*
} } }
col!(BloomFilter<It, Id>, BloomFilter::from_item_count_with_hashers(p(1), p(2), HB), [len, is_empty, hasher_count, count_ones, count_zeros], hashers, |_s| vec![]);
col!(PartitionedBloomFilter<It, Id>, PartitionedBloomFilter::from_bit_count_with_hashers(p(1), ft(2), HB), [len, is_empty, bit_count, hasher_count, count_ones, count_zeros], hashers, |_s| vec![]);
col!(ScalableBloomFilter<It, Id>, ScalableBloomFilter::with_hashers(p(1), ft(2), 2.0, 0.5, HB), [len, is_empty, filter_count, count_ones, count_zeros], hashers, |_s| vec![]);
col!(BSBloomFilter<It, Id>, BSBloomFilter::with_hashers(p(1), ft(2), HB), [len, is_empty, bit_count, hasher_count, count_ones, count_zeros], hashers, |_s| vec![]);
col!(BSSDBloomFilter<It, Id>, BSSDBloomFilter::with_hashers(p(1), ft(2), HB), [len, is_empty, bit_count, hasher_count, count_ones, count_zeros], hashers, |_s| vec![]);
col!(RLBSBloomFilter<It, Id>, RLBSBloomFilter::with_hashers(p(1), ft(2), HB), [len, is_empty, bit_count, hasher_count, count_ones, count_zeros], hashers, |_s| vec![]);
col!(CuckooFilter<It, Id>, CuckooFilter::from_parameters_with_hashers(p(1), p(2), p(3), HB), [len, is_empty, capacity, bucket_len, entries_per_index, extra_items_len, is_nearly_full, fingerprint_bit_count], hashers, |s| vec![f(s.estimated_fpp())],
    fn del(&mut self, x: &It) { self.remove(x) }, fn draw(&self) -> It { let x = item(); crate::cuckoo::entry_with(&x, self.fingerprint_bit_count() as u64, self.bucket_len() as u64, false); x });
col!(QuotientFilter<It, Id>, QuotientFilter::with_hasher(p(1) as u8, p(2) as u8, Id(0)), [len, is_empty, capacity, quotient_bits, remainder_bits], hasher2, |s| vec![f(s.estimated_fpp())],
    fn del(&mut self, x: &It) { self.remove(x) }, fn draw(&self) -> It { It { h: [split(sym(param(1) as u32)) << param(2) | sym(param(2) as u32), 0] } });
trait H2 { fn hasher2(&self) -> &[Id; 2]; }
impl H2 for QuotientFilter<It, Id> { fn hasher2(&self) -> &[Id; 2] { check(*self.hasher() == Id(0), 90); &HB } }
impl Col for ScalableCuckooFilter<It, Id> {
    fn mk() -> Self { ScalableCuckooFilter::from_entries_per_index_with_hashers(p(1), ft(2), p(3), 1.0, 0.5, HB) }
    // fingerprints 1 to 3: nonzero in every filter, all different in every filter
    fn draw(&self) -> It { uf_bits(1, 1); let fp = split(below(3)) + 1; It { h: [fp, split(sym(1))] } }
    fn ins(&mut self, x: &It) { self.insert(x) }
    fn del(&mut self, x: &It) { self.remove(x) }
    fn clr(&mut self) { self.clear() }
    fn has(&mut self, x: &It) -> u64 { self.contains(x) as u64 }
    fn nums(&self) -> Vec<u64> { vec![self.len() as u64, self.is_empty() as u64, self.capacity() as u64, self.entries_per_index() as u64, self.filter_count() as u64, f(self.estimated_fpp()), ids(self.hashers())] }
}
impl<S: CountStrategy> Col for CountMinSketch<S, It, Id> {
    fn mk() -> Self { CountMinSketch::with_hashers(p(1), p(2), HB) }
    fn draw(&self) -> It { let x = item(); for i in 0..param(1) { split(probe(&x, i) % param(2)); } x }
    fn ins(&mut self, x: &It) { let v = split(rand::nd::bits(2)) as i64; self.insert(x, v) }
    fn del(&mut self, x: &It) { let v = split(rand::nd::bits(2)) as i64; self.remove(x, v) }
    fn clr(&mut self) { self.clear() }
    fn has(&mut self, x: &It) -> u64 { self.count(x) as u64 }
    fn nums(&self) -> Vec<u64> { vec![self.rows() as u64, self.cols() as u64, f(self.confidence()), f(self.error()), ids(self.hashers())] }
}
impl Col for HyperLogLog<It, Id> {
    fn mk() -> Self { HyperLogLog::with_hasher(1.04 / 2f64.powi(p(1) as i32).sqrt() * 1.0001, Id(0)) }
    fn draw(&self) -> It { It { h: [split(sym(param(1) as u32 + 2)), 0] } }
    fn ins(&mut self, x: &It) { self.insert(x) }
    fn clr(&mut self) { self.clear() }
    fn has(&mut self, _: &It) -> u64 { 0 }
    fn nums(&self) -> Vec<u64> { vec![f(self.len()), self.is_empty() as u64, self.hasher().0 as u64] }
}
fn all<F: Col>(c: &mut F, q: &[It]) -> Vec<u64> { let mut v = c.nums(); for x in q { v.push(c.has(x)); } v }
fn eq(a: &[u64], b: &[u64]) -> bool { let mut ok = a.len() == b.len(); if ok { for i in 0..a.len() { ok &= a[i] == b[i]; } } ok }
fn op<F: Col>(c: &mut F, code: u64, x: &It) { match code { 0 => c.ins(x), 1 => c.del(x), _ => c.clr() } }
/// history: param(4) insertions, then param(5) arbitrary operations; further operations: param(6); clones: param(7) = 0 independence, 1 evolution
fn start<F: Col>() -> (F, Vec<It>) {
    merge(0); rng_split(true);
    let mut c = F::mk();
    let mut q = vec![];
    for k in 0..param(4) + param(5) { let x = c.draw(); op(&mut c, if k < param(4) { 0 } else { split(below(3)) }, &x); q.push(x); }
    let x = c.draw(); q.push(x); // an arbitrary query
    (c, q)
}
fn c26<F: Col + Serialize + DeserializeOwned>() {
    let (mut c, q) = start::<F>();
    let mut d: F = round_trip(&c);
    check(eq(&all(&mut c, &q), &all(&mut d, &q)), 1);
    check(eq(&to_words(&c), &to_words(&d)), 2);
    evolve(&mut c, &mut d, q);
}
/// the same operations with the same draws keep two equal collections equal
fn evolve<F: Col + Serialize>(c: &mut F, d: &mut F, mut q: Vec<It>) {
    for _ in 0..param(6) {
        let x = c.draw(); q.push(x);
        let code = split(below(3));
        // the draws of both the harness (values) and the collection are the same
        rand::nd::record(); op(c, code, &x); rand::nd::play(); op(d, code, &x); rand::nd::off();
        check(eq(&all(c, &q), &all(d, &q)), 3);
        check(eq(&to_words(c), &to_words(d)), 4);
    }
    reach(1);
}
fn c27<F: Col + Serialize + Clone>() {
    let (mut c, q) = start::<F>();
    let mut d = c.clone();
    let before = all(&mut c, &q);
    check(eq(&before, &all(&mut d, &q)), 1);
    let w = to_words(&c);
    check(eq(&w, &to_words(&d)), 2);
    let mut g = d.clone(); g.clr(); g.clone_from(&d);
    if param(7) == 1 { evolve(&mut d, &mut g, q); return; }
    // operations on either leave the other as it was
    let x = c.draw();
    let code = split(below(3));
    if split(sym(1)) == 0 { op(&mut c, code, &x); check(eq(&before, &all(&mut d, &q)) && eq(&w, &to_words(&d)), 5); }
    else { op(&mut d, code, &x); check(eq(&before, &all(&mut c, &q)) && eq(&w, &to_words(&c)), 6); }
    check(eq(&before, &all(&mut g, &q)) && eq(&w, &to_words(&g)), 8);
    reach(1);
}
macro_rules! kinds { ($f:ident) => { match param(0) {
    0 => $f::<BloomFilter<It, Id>>(), 1 => $f::<PartitionedBloomFilter<It, Id>>(), 2 => $f::<ScalableBloomFilter<It, Id>>(),
    3 => $f::<BSBloomFilter<It, Id>>(), 4 => $f::<BSSDBloomFilter<It, Id>>(), 5 => $f::<RLBSBloomFilter<It, Id>>(),
    6 => $f::<CuckooFilter<It, Id>>(), 7 => $f::<ScalableCuckooFilter<It, Id>>(), 8 => $f::<QuotientFilter<It, Id>>(),
    9 => $f::<CountMinSketch<Cm, It, Id>>(), 10 => $f::<CountMinSketch<Cb, It, Id>>(), _ => $f::<HyperLogLog<It, Id>>(),
} } }
pub fn h_c26() { kinds!(c26) }
pub fn h_c27() { kinds!(c27) }

fn one(s: &SipHasherBuilder, x: u64) -> u64 { use std::hash::Hasher; let mut h = s.build_hasher(); h.write_u64(x); h.finish() }
/// C26, C27: hash builders, hashers, similarity schemes and the two vectors
pub fn h_c26_misc() {
    merge(64);
    let (k0, k1, x) = (sym(64), sym(64), sym(64));
    let a = SipHasherBuilder::from_seed(k0, k1);
    let b: SipHasherBuilder = round_trip(&a);
    let c = a.clone();
    check(a == b && a == c && one(&a, x) == one(&b, x) && one(&a, x) == one(&c, x), 1);
    let d = DoubleHasher::<It, Id>::with_hashers(HB);
    let e: DoubleHasher<It, Id> = round_trip(&d);
    check(d == e && d == d.clone() && e.hashers()[0] == Id(0) && e.hashers()[1] == Id(1), 2);
    let y = [item(), item()];
    let m = MinHash::<std::vec::IntoIter<It>, It, Id>::with_hashers(p(0), HB);
    let (n, o) = (round_trip::<MinHash<std::vec::IntoIter<It>, It, Id>>(&m), m.clone());
    let v = m.get_min_hashes(y.to_vec().into_iter());
    check(eq(&v, &n.get_min_hashes(y.to_vec().into_iter())) && eq(&v, &o.get_min_hashes(y.to_vec().into_iter())) && n.hasher_count() == p(0) && o.hasher_count() == p(0), 3);
    let s = SimHash::<std::vec::IntoIter<It>, It, Id>::with_hasher(Id(1));
    let (t, u) = (round_trip::<SimHash<std::vec::IntoIter<It>, It, Id>>(&s), s.clone());
    check(t.hasher().0 == 1 && u.hasher().0 == 1 && s.get_sim_hash(y.to_vec().into_iter()) == t.get_sim_hash(y.to_vec().into_iter()), 4);
    let mut b = BitVec::with_capacity(0); for _ in 0..p(1) { b.push(symb()); }
    let g: BitVec = round_trip(&b);
    check(g == b && g.len() == b.len() && g.count_ones() == b.count_ones() && g.to_bytes() == b.to_bytes(), 5);
    let mut b = BitstringVec::new(p(2), p(1)); for i in 0..p(1) { b.set(i, sym(param(2) as u32)); }
    let g: BitstringVec = round_trip(&b);
    check(g == b && g.len() == b.len() && g.occupied_len() == b.occupied_len() && g.bit_count() == b.bit_count(), 6);
    for i in 0..p(1) { check(g.get(i) == b.get(i), 7); }
    reach(1);
}
/// C27: equality of two Bloom filters after any insertions is equality of their contents
pub fn h_c27_eq() {
    merge(64);
    let mk = || BloomFilter::<It, Id>::from_item_count_with_hashers(p(0), p(1), HB);
    let (mut a, mut b) = (mk(), mk());
    for _ in 0..p(2) { a.insert(&item()); }
    for _ in 0..p(3) { b.insert(&item()); }
    let c = a.clone();
    check(a == c && c == a, 1);
    check((a == b) == eq(&to_words(&a), &to_words(&b)), 2);
    let x = item(); let had = a.contains(&x);
    a.insert(&x);
    check((a == c) == had, 3);
    a.clear();
    check(a == mk(), 4);
    reach(1);
}
/// C27: the same for cuckoo filters (compared with the default hash builder only: a few fixed items, every choice of them)
pub fn h_c27_eq_cuckoo() {
    merge(0); rng_split(true);
    let hb = [SipHasherBuilder::from_seed(0, 0), SipHasherBuilder::from_seed(1, 1)];
    let mk = || CuckooFilter::<u64>::from_parameters_with_hashers(p(0), p(1), p(2), hb);
    let (mut a, mut b) = (mk(), mk());
    for _ in 0..p(3) { let x = split(below(5)); let w = split(below(3)); if w != 1 { a.insert(&x); } if w != 0 { b.insert(&x); } }
    let c = a.clone();
    check(a == c && c == a, 1);
    check((a == b) == eq(&to_words(&a), &to_words(&b)), 2);
    let x = split(below(5)); let had = a.contains(&x);
    a.insert(&x);
    check((a == c) == had, 3);
    a.remove(&x);
    if had { check(a != c, 4); }
    a.clear();
    check(a == mk(), 5);
    let d = CuckooFilter::<u64>::from_parameters_with_hashers(p(0), p(1), p(2), [hb[0], hb[0]]);
    check(d != mk(), 6);
    if a.extra_items_len() == 0 && c.extra_items_len() > 0 { reach(2); }
    reach(1);
}
