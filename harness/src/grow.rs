//! C35: what every level of a scalable filter is sized for, and the compound error. C36: constructors that draw their own hash keys.
use crate::flat::to_words;
use crate::sx::*;
use probabilistic_collections::bloom::*;
use probabilistic_collections::count_min_sketch::{CountMinSketch, CountMinStrategy};
use probabilistic_collections::cuckoo::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::similarity::{MinHash, SimHash};
use probabilistic_collections::verif_hooks::DoubleHasher;
use probabilistic_collections::SipHasherBuilder;
use serde::Serialize;

const HB: [Id; 2] = [Id(0), Id(1)];
fn p(i: u32) -> usize { param(i) as usize }
fn ft(i: u32) -> f64 { param(i) as f64 / 1000.0 }
fn rl(a: u32, b: u32) -> f64 { if param(a) == param(b) { ft(a) } else { real(ft(a), ft(b)) } }
/// p * t^level
fn pw(p: f64, t: f64, level: u64) -> f64 { if level == 0 { p } else { p * t.powi(level as i32) } }
/// different positions among the first k of x in a filter of m bits
fn distinct(x: &It, k: u64, m: u64) -> u64 { let mut c = 0; for i in 0..k { let mut new = true; for j in 0..i { new &= probe(x, i) % m != probe(x, j) % m; } c += new as u64; } c }

/// C35: parameters initial bits, growth ratio * 1000, range of fpp * 1000 (2), range of the tightening ratio * 1000 (2), levels
pub fn h_c35_bloom() {
    merge(0);
    let (p0, g, t) = (rl(2, 3), ft(1), rl(4, 5));
    let mut f = ScalableBloomFilter::<It, Id>::with_hashers(p(0), p0, g, t, HB);
    let mut len = param(0);
    let (mut below, mut lens, mut prod, mut i) = (0u64, 0u64, 1.0f64, 0u64);
    let mut k0 = 0;
    for level in 0..param(6) {
        check(f.filter_count() as u64 == level + 1, 1);
        lens += len;
        check(f.len() as u64 == lens, 2);
        // a filter of this length for fpp * t^level
        let k = split(BloomFilter::<It, Id>::from_fpp_with_hashers(len as usize, pw(p0, t, level), HB).hasher_count() as u64);
        if level == 0 { k0 = k; }
        let mut first = true;
        let mut ones = 0u64;
        while f.filter_count() as u64 == level + 1 {
            let x = It { h: [i * 37, 1] }; i += 1;
            if f.contains(&x) { continue; }
            f.insert(&x);
            ones = f.count_ones() as u64 - below;
            if first { check(ones == distinct(&x, k, len), 3); first = false; }
            if f.filter_count() as u64 == level + 1 {
                let e = f.estimated_fpp();
                check(close(1.0 - e, prod * (1.0 - (ones as f64 / len as f64).powi(k as i32))), 4);
            }
            check(i < 4096, 5);
        }
        prod *= 1.0 - (ones as f64 / len as f64).powi(k as i32);
        below += ones;
        check(close(1.0 - f.estimated_fpp(), prod), 6);
        len = (len as f64 * g).ceil() as u64;
    }
    f.clear();
    check(f.estimated_fpp() == 0.0 && f.count_ones() == 0 && f.len() as u64 == param(0), 7);
    let x = It { h: [5, 1] };
    f.insert(&x);
    check(f.count_ones() as u64 == distinct(&x, k0, param(0)), 8);
    note(i); note(below); reach(1);
}
/// C35: parameters entries per bucket, range of fpp * 1000 (2), range of the tightening ratio * 1000 (2), levels. One bucket per level.
pub fn h_c35_cuckoo() {
    merge(0); rng_split(true); uf_bits(1, 1);
    let e = param(0);
    let (p0, t) = (rl(1, 2), rl(3, 4));
    let mut f = ScalableCuckooFilter::<It, Id>::from_entries_per_index_with_hashers(p(0), p0, p(0), 1.0, t, HB);
    let (mut prod, mut i) = (1.0f64, 0u64);
    let mut b0 = 0;
    for level in 0..param(5) {
        check(f.filter_count() as u64 == level + 1 && f.capacity() as u64 == e * (level + 1), 1);
        let bits = split(CuckooFilter::<It, Id>::from_entries_per_index_with_hashers(p(0), pw(p0, t, level), p(0), HB).fingerprint_bit_count() as u64);
        if level == 0 { b0 = bits; }
        let c = (1u64 << bits) as f64;
        let s = (c - 2.0) / (c - 1.0);
        for n in 1..=e {
            // few distinct fingerprints: nonzero and different at every size used
            i += 1;
            let x = It { h: [i, 0] };
            check(!f.contains(&x), 2);
            f.insert(&x);
            check(f.contains(&x) && f.len() as u64 == i, 3);
            check(close(1.0 - f.estimated_fpp(), prod * s.powi(2 * n as i32)), 4);
        }
        // the fingerprint of this level has exactly `bits` bits: an item that differs above them is the same entry
        if bits < 62 { check(f.contains(&It { h: [i | 1 << bits, 0] }), 5); }
        prod *= s.powi(2 * e as i32);
    }
    f.clear();
    check(f.is_empty() && f.estimated_fpp() == 0.0 && f.filter_count() == 1 && f.capacity() as u64 == e, 6);
    f.insert(&It { h: [1, 0] });
    let c = (1u64 << b0) as f64;
    check(close(1.0 - f.estimated_fpp(), ((c - 2.0) / (c - 1.0)).powi(2)), 7);
    note(i); reach(1);
}

type S = SipHasherBuilder;
/// keys that a constructor drew: 64-bit draws, different from each other
fn fresh2(h: &[S; 2], t: &[u64]) {
    let n = t.len();
    for i in 0..n { for j in 0..i { assume(t[i] != t[j]); } }
    let from = |b: &S| { let mut ok = false; for i in 0..n { for j in 0..n { if i != j { ok |= *b == S::from_seed(t[i], t[j]); } } } ok };
    check(from(&h[0]) & from(&h[1]), 20);
    check(h[0] != h[1], 21);
}
fn fresh1(h: &S, t: &[u64]) { let n = t.len(); let mut ok = false; for i in 0..n { for j in 0..n { if i != j { ok |= *h == S::from_seed(t[i], t[j]); } } } check(ok, 20); }
fn drawn<F, G: FnOnce() -> F>(mk: G) -> (F, Vec<u64>) { rand::nd::record(); let f = mk(); let t = rand::nd::tape(); rand::nd::off(); (f, t) }
macro_rules! two { ($new:expr, $with:expr, [$($n:ident),*]) => {{
    let (f, t) = drawn(|| $new);
    fresh2(f.hashers(), &t);
    let g = $with(*f.hashers());
    check(f.hashers() == g.hashers(), 22);
    $(check(f.$n() == g.$n(), 23);)*
} } }
/// the same, and again after clear(), which rebuilds the first level from what the constructor stored
macro_rules! two_cleared { ($new:expr, $with:expr, [$($n:ident),*]) => {{
    let (mut f, t) = drawn(|| $new);
    fresh2(f.hashers(), &t);
    let mut g = $with(*f.hashers());
    $(check(f.$n() == g.$n(), 23);)*
    f.clear(); g.clear();
    check(f.hashers() == g.hashers(), 22);
    $(check(f.$n() == g.$n(), 23);)*
} } }
macro_rules! one { ($new:expr, $with:expr, [$($n:ident),*]) => {{
    let (f, t) = drawn(|| $new);
    fresh1(f.hasher(), &t);
    let g = $with(*f.hasher());
    check(f.hasher() == g.hasher(), 22);
    $(check(f.$n() == g.$n(), 23);)*
} } }
/// C36: sizes, over every argument. parameters kind, log2 of the largest count, range of fpp * 1000 (2), a fixed size
pub fn h_c36() {
    merge(0);
    let (n, q) = (int(1, 1 << param(1)) as usize, rl(2, 3));
    let z = p(4);
    type U = u64;
    match param(0) {
        0 => two!(BloomFilter::<U>::new(n, q), |h| BloomFilter::<U>::with_hashers(n, q, h), [len, hasher_count, count_ones]),
        1 => { let b = int(1, 1 << param(1)) as usize; two!(BloomFilter::<U>::from_item_count(b, n), |h| BloomFilter::<U>::from_item_count_with_hashers(b, n, h), [len, hasher_count, count_ones]) }
        2 => two!(BloomFilter::<U>::from_fpp(n, q), |h| BloomFilter::<U>::from_fpp_with_hashers(n, q, h), [len, hasher_count, count_ones]),
        3 => two!(PartitionedBloomFilter::<U>::from_item_count(n, q), |h| PartitionedBloomFilter::<U>::from_item_count_with_hashers(n, q, h), [len, bit_count, hasher_count, count_ones]),
        4 => two!(PartitionedBloomFilter::<U>::from_bit_count(n, q), |h| PartitionedBloomFilter::<U>::from_bit_count_with_hashers(n, q, h), [len, bit_count, hasher_count, count_ones]),
        5 => two!(BSBloomFilter::<U>::new(n, q), |h| BSBloomFilter::<U>::with_hashers(n, q, h), [len, bit_count, hasher_count, count_ones]),
        6 => two!(BSSDBloomFilter::<U>::new(n, q), |h| BSSDBloomFilter::<U>::with_hashers(n, q, h), [len, bit_count, hasher_count, count_ones]),
        7 => two!(RLBSBloomFilter::<U>::new(n, q), |h| RLBSBloomFilter::<U>::with_hashers(n, q, h), [len, bit_count, hasher_count, count_ones]),
        8 => two_cleared!(ScalableBloomFilter::<U>::new(n, q, 2.0, 0.5), |h| ScalableBloomFilter::<U>::with_hashers(n, q, 2.0, 0.5, h), [len, filter_count, count_ones]),
        9 => two!(CuckooFilter::<U>::new(n), |h| CuckooFilter::<U>::with_hashers(n, h), [capacity, bucket_len, entries_per_index, fingerprint_bit_count, len]),
        10 => two!(CuckooFilter::<U>::from_parameters(n, z, 3), |h| CuckooFilter::<U>::from_parameters_with_hashers(n, z, 3, h), [capacity, bucket_len, entries_per_index, fingerprint_bit_count, len]),
        11 => two!(CuckooFilter::<U>::from_entries_per_index(z, q, 3), |h| CuckooFilter::<U>::from_entries_per_index_with_hashers(z, q, 3, h), [capacity, bucket_len, entries_per_index, fingerprint_bit_count, len]),
        12 => two!(CuckooFilter::<U>::from_fingerprint_bit_count(z, q, z), |h| CuckooFilter::<U>::from_fingerprint_bit_count_with_hashers(z, q, z, h), [capacity, bucket_len, entries_per_index, fingerprint_bit_count, len]),
        13 => two_cleared!(ScalableCuckooFilter::<U>::new(z, q, 2.0, 0.5), |h| ScalableCuckooFilter::<U>::with_hashers(z, q, 2.0, 0.5, h), [capacity, entries_per_index, filter_count, len]),
        14 => two_cleared!(ScalableCuckooFilter::<U>::from_entries_per_index(z, q, 3, 2.0, 0.5), |h| ScalableCuckooFilter::<U>::from_entries_per_index_with_hashers(z, q, 3, 2.0, 0.5, h), [capacity, entries_per_index, filter_count, len]),
        15 => one!(QuotientFilter::<U>::from_fpp(z, q), |h| QuotientFilter::<U>::from_fpp_with_hasher(z, q, h), [capacity, quotient_bits, remainder_bits, len]),
        16 => two!(CountMinSketch::<CountMinStrategy, U>::from_error(q, 0.2), |h| CountMinSketch::<CountMinStrategy, U>::from_error_with_hashers(q, 0.2, h), [rows, cols]),
        _ => two!(CountMinSketch::<CountMinStrategy, U>::from_error(0.5, q), |h| CountMinSketch::<CountMinStrategy, U>::from_error_with_hashers(0.5, q, h), [rows, cols]),
    }
    reach(1);
}
macro_rules! same { ($new:expr, $with:expr) => {{ let (f, t) = drawn(|| $new); fresh2(f.hashers(), &t); let g = $with(*f.hashers()); words(&f, &g); } } }
macro_rules! same1 { ($new:expr, $with:expr) => {{ let (f, t) = drawn(|| $new); fresh1(f.hasher(), &t); let g = $with(*f.hasher()); words(&f, &g); } } }
fn words<A: Serialize, B: Serialize>(a: &A, b: &B) { let (v, w) = (to_words(a), to_words(b)); check(v.len() == w.len(), 24); for i in 0..v.len() { check(v[i] == w[i], 25); } }
/// C36: the whole state, for fixed arguments and arbitrary keys. parameters kind, sizes
pub fn h_c36_state() {
    merge(64);
    let (n, q, z) = (p(1), ft(2), p(3));
    type U = u64;
    match param(0) {
        0 => same!(BloomFilter::<U>::new(n, q), |h| BloomFilter::<U>::with_hashers(n, q, h)),
        1 => same!(BloomFilter::<U>::from_item_count(n, z), |h| BloomFilter::<U>::from_item_count_with_hashers(n, z, h)),
        2 => same!(BloomFilter::<U>::from_fpp(n, q), |h| BloomFilter::<U>::from_fpp_with_hashers(n, q, h)),
        3 => same!(PartitionedBloomFilter::<U>::from_item_count(n, q), |h| PartitionedBloomFilter::<U>::from_item_count_with_hashers(n, q, h)),
        4 => same!(PartitionedBloomFilter::<U>::from_bit_count(n, q), |h| PartitionedBloomFilter::<U>::from_bit_count_with_hashers(n, q, h)),
        5 => same!(BSBloomFilter::<U>::new(n, q), |h| BSBloomFilter::<U>::with_hashers(n, q, h)),
        6 => same!(BSSDBloomFilter::<U>::new(n, q), |h| BSSDBloomFilter::<U>::with_hashers(n, q, h)),
        7 => same!(RLBSBloomFilter::<U>::new(n, q), |h| RLBSBloomFilter::<U>::with_hashers(n, q, h)),
        8 => same!(ScalableBloomFilter::<U>::new(n, q, 3.0, 0.7), |h| ScalableBloomFilter::<U>::with_hashers(n, q, 3.0, 0.7, h)),
        9 => same!(CuckooFilter::<U>::new(n), |h| CuckooFilter::<U>::with_hashers(n, h)),
        10 => same!(CuckooFilter::<U>::from_parameters(n, z, 3), |h| CuckooFilter::<U>::from_parameters_with_hashers(n, z, 3, h)),
        11 => same!(CuckooFilter::<U>::from_entries_per_index(n, q, z), |h| CuckooFilter::<U>::from_entries_per_index_with_hashers(n, q, z, h)),
        12 => same!(CuckooFilter::<U>::from_fingerprint_bit_count(n, q, z), |h| CuckooFilter::<U>::from_fingerprint_bit_count_with_hashers(n, q, z, h)),
        13 => same!(ScalableCuckooFilter::<U>::new(n, q, 3.0, 0.7), |h| ScalableCuckooFilter::<U>::with_hashers(n, q, 3.0, 0.7, h)),
        14 => same!(ScalableCuckooFilter::<U>::from_entries_per_index(n, q, z, 3.0, 0.7), |h| ScalableCuckooFilter::<U>::from_entries_per_index_with_hashers(n, q, z, 3.0, 0.7, h)),
        15 => same1!(QuotientFilter::<U>::from_fpp(n, q), |h| QuotientFilter::<U>::from_fpp_with_hasher(n, q, h)),
        16 => same1!(QuotientFilter::<U>::new(n as u8, z as u8), |h| QuotientFilter::<U>::with_hasher(n as u8, z as u8, h)),
        17 => same!(CountMinSketch::<CountMinStrategy, U>::from_error(q, 0.2), |h| CountMinSketch::<CountMinStrategy, U>::from_error_with_hashers(q, 0.2, h)),
        18 => same!(CountMinSketch::<CountMinStrategy, U>::new(n, z), |h| CountMinSketch::<CountMinStrategy, U>::with_hashers(n, z, h)),
        19 => same1!(HyperLogLog::<U>::new(q), |h| HyperLogLog::<U>::with_hasher(q, h)),
        20 => same!(MinHash::<std::vec::IntoIter<U>, U>::new(n), |h| MinHash::<std::vec::IntoIter<U>, U>::with_hashers(n, h)),
        21 => { same1!(SimHash::<std::vec::IntoIter<U>, U>::new(), |h| SimHash::<std::vec::IntoIter<U>, U>::with_hasher(h)); same1!(SimHash::<std::vec::IntoIter<U>, U>::default(), |h| SimHash::<std::vec::IntoIter<U>, U>::with_hasher(h)); }
        _ => same!(DoubleHasher::<U>::new(), |h| DoubleHasher::<U>::with_hashers(h)),
    }
    reach(1);
}
