//! Sizing formulas over every real error bound in a range (engine in --real mode). TOL absorbs the rounding of double arithmetic.
use crate::flat::longest_len;
use crate::sx::*;
use probabilistic_collections::bloom::*;
use probabilistic_collections::count_min_sketch::{CountMinSketch, CountMinStrategy};
use probabilistic_collections::cuckoo::CuckooFilter;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;

const HB: [Id; 2] = [Id(0), Id(1)];
const LO: f64 = 1.0 - 1e-9;
const HI: f64 = 1.0 + 1e-9;
const LN2: f64 = std::f64::consts::LN_2;
/// an error bound in [10^-a, 1 - 10^-b]
fn fpp(a: u64, b: u64) -> f64 { real(10f64.powi(-(a as i32)), 1.0 - 10f64.powi(-(b as i32))) }

/// C30: BloomFilter. parameters kind, log2 of the largest count, range of fpp (two digits counts)
pub fn h_c30() {
    merge(0);
    let max = 1u64 << param(1);
    let (bits, n, p) = match param(0) {
        0 => { let (n, p) = (int(1, max), fpp(param(2), param(3))); let f = BloomFilter::<u64, Id>::with_hashers(n as usize, p, HB);
            let (b, k) = (f.len() as f64, f.hasher_count() as f64);
            let t = -p.ln() * (n as f64) / (LN2 * LN2);
            check(b >= t * LO, 1); check(b - 1.0 <= t * HI, 2);
            (b, n as f64, k) }
        1 => { let (b, n) = (int(1, max), int(1, max)); let f = BloomFilter::<u64, Id>::from_item_count_with_hashers(b as usize, n as usize, HB); check(f.len() as u64 == b, 3); (b as f64, n as f64, f.hasher_count() as f64) }
        _ => { let (b, p) = (int(1, max), fpp(param(2), param(3))); let f = BloomFilter::<u64, Id>::from_fpp_with_hashers(b as usize, p, HB); check(f.len() as u64 == b, 3);
            // the number of items b bits can hold at p, rounded up; the optimal number of hash functions for it is at most log2(1/p)
            let k = f.hasher_count() as f64; let l = -p.ln() / LN2; check(k - 1.0 <= l * HI, 4); check(k >= 1.0, 5);
            let items = b as f64 * (LN2 * LN2) / -p.ln();
            check((items + 1.0) * k * HI >= b as f64 * LN2, 6);
            note(f.hasher_count() as u64); reach(1); return; }
    };
    let x = bits / n * LN2;
    check(p >= x * LO, 7); check(p - 1.0 <= x * HI, 8); check(p >= 1.0, 9);
    note(p as u64); reach(1);
}
/// C30: PartitionedBloomFilter
pub fn h_c30_part() {
    merge(0);
    let max = 1u64 << param(1);
    let (n, p) = (int(1, max), fpp(param(2), param(3)));
    let l = -p.ln() / LN2;
    if param(0) == 0 {
        let f = PartitionedBloomFilter::<u64, Id>::from_item_count_with_hashers(n as usize, p, HB);
        let k = split(f.hasher_count() as u64);
        check(k as f64 >= l * LO, 1); check(k as f64 - 1.0 <= l * HI, 2); check(k >= 1, 3);
        let b = f.bit_count() as f64;
        let t = -p.ln() * (n as f64) / (LN2 * LN2);
        check(b * k as f64 >= t * LO, 4); check((b - 1.0) * (k as f64) <= t * HI, 5);
        check(f.len() as f64 == b * k as f64, 6);
        note(k);
    } else {
        let f = PartitionedBloomFilter::<u64, Id>::from_bit_count_with_hashers(n as usize, p, HB);
        let k = split(f.hasher_count() as u64);
        check(k as f64 >= l * LO, 1); check(k as f64 - 1.0 <= l * HI, 2); check(k >= 1, 3);
        check(f.bit_count() as u64 == n, 7); check(f.len() as f64 == n as f64 * k as f64, 6);
        note(k);
    }
    reach(1);
}
/// C30: BSBloomFilter, BSSDBloomFilter, RLBSBloomFilter: hasher_count is the rounded-up mean of 1 and 1 + ln(fpp)/ln(1-1/e)
pub fn h_c30_dd() {
    merge(0);
    let (n, p) = (int(1, 1 << param(1)), fpp(param(2), param(3)));
    let (len, bits, k) = match param(0) {
        0 => { let f = BSBloomFilter::<u64, Id>::with_hashers(n as usize, p, HB); (f.len(), f.bit_count(), split(f.hasher_count() as u64)) }
        1 => { let f = BSSDBloomFilter::<u64, Id>::with_hashers(n as usize, p, HB); (f.len(), f.bit_count(), split(f.hasher_count() as u64)) }
        _ => { let f = RLBSBloomFilter::<u64, Id>::with_hashers(n as usize, p, HB); (f.len(), f.bit_count(), split(f.hasher_count() as u64)) }
    };
    let x = 1.0 + p.ln() / (1.0 - 1.0 / std::f64::consts::E).ln() / 2.0;
    check(k as f64 >= x * LO, 1); check(k as f64 - 1.0 <= x * HI, 2);
    check(bits as u64 == n, 3); check(len as f64 == n as f64 * k as f64, 4);
    note(k); reach(1);
}
/// C31: entries per index given: a completely full filter stays within the requested probability. parameters entries, fpp range
pub fn h_c31_entries() {
    merge(0);
    let (e, p) = (param(0), fpp(param(1), param(2)));
    let mut f = CuckooFilter::<It, Id>::from_entries_per_index_with_hashers(e as usize, p, e as usize, HB);
    let bits = split(f.fingerprint_bit_count() as u64);
    check(bits > 1 && f.capacity() as u64 == e && f.entries_per_index() as u64 == e, 1);
    let d = (1u64 << bits) - 1; // only d different fingerprints exist
    for i in 0..e { f.insert(&It { h: [1 + i % d, i * 7 + 1] }); }
    let full = split(f.len() as u64);
    check(full == if e < d { e } else { d }, 2);
    let q = f.estimated_fpp();
    check(q > 0.0 && q <= p * (1.0 + 1e-6), 3);
    // two bits fewer would not do: the formula spends at most one bit over the least sufficient size
    if bits > 3 { let c = (1u64 << (bits - 2)) as f64; let least = 1.0 - ((c - 2.0) / (c - 1.0)).powi(2 * e as i32); check(least >= p * (1.0 - 1e-6), 4); }
    note(bits); reach(1);
}
/// C31: fingerprint size given: the largest number of entries per index within the requested probability
pub fn h_c31_bits() {
    merge(0);
    let (bits, p) = (param(0), real(param(1) as f64 * 1e-9, param(2) as f64 * 1e-9));
    let c = 2f64.powi(bits as i32); let ls = -((c - 2.0) / (c - 1.0)).ln(); let l = -(1.0 - p).ln();
    panic_ok(l <= 2.0 * ls * HI);
    let f = CuckooFilter::<It, Id>::from_fingerprint_bit_count_with_hashers(1, p, bits as usize, HB);
    panic_ok(false);
    let e = f.entries_per_index() as f64;
    check(e >= 1.0 && f.fingerprint_bit_count() as u64 == bits, 1);
    check(2.0 * e * ls <= l * HI, 2);
    check(2.0 * (e + 1.0) * ls >= l * LO, 3);
    check(l >= 2.0 * ls * LO, 4);
    note(f.entries_per_index() as u64); reach(1);
}
/// C31: the number of buckets for a symbolic item count: the least power of two of buckets that holds the items.
/// parameters constructor (0 entries per index, 1 fingerprint bits), log2 of the largest count, entries or bits
pub fn h_c31_cap() {
    merge(0);
    let n = int(1, 1 << param(1));
    let (b, e, cap) = if param(0) == 0 { let f = CuckooFilter::<It, Id>::from_entries_per_index_with_hashers(n as usize, 0.01, param(2) as usize, HB); check(f.entries_per_index() as u64 == param(2), 1); (f.bucket_len() as u64, f.entries_per_index() as u64, f.capacity() as u64) }
        else { let f = CuckooFilter::<It, Id>::from_fingerprint_bit_count_with_hashers(n as usize, 0.01, param(2) as usize, HB); check(f.fingerprint_bit_count() as u64 == param(2), 1); (f.bucket_len() as u64, f.entries_per_index() as u64, f.capacity() as u64) };
    let b = split(b);
    check(b > 0 && b & (b - 1) == 0, 2);
    check(cap == b * e, 3);
    check(b * e >= n, 4);
    check(b == 1 || b / 2 * e < n, 5);
    note(b); reach(1);
}
/// C32: capacity and fpp symbolic. parameters log2 of the largest capacity, fpp range
pub fn h_c32() {
    merge(0);
    let (n, p) = (int(1 << param(3), 1 << param(0)), fpp(param(1), param(2)));
    let f = QuotientFilter::<u64, Id>::from_fpp_with_hasher(n as usize, p, Id(0));
    let (q, r) = (split(f.quotient_bits() as u64), split(f.remainder_bits() as u64));
    let slots = (1u64 << q) as f64; let cap = 1.33 * n as f64;
    check(f.capacity() as f64 == slots, 1);
    check(slots >= cap * LO, 2); check(slots <= 2.0 * cap * HI, 3);
    let l = -(-p).ln_1p();
    // estimated_fpp with n items is 1 - exp(-(n / slots) / 2^r)
    check(n as f64 / slots / (1u64 << r) as f64 <= l * HI, 4);
    // one bit less does not suffice at the design load of 1 / 1.33
    check(r == 1 || 1.0 / 1.33 / (1u64 << (r - 1)) as f64 >= l * LO, 5);
    note(q); note(r); reach(1);
}
/// C32: estimated_fpp of a filter holding capacity items is within the request. parameters capacity, fpp range
pub fn h_c32_est() {
    merge(0);
    let (n, p) = (param(0), fpp(param(1), param(2)));
    let mut f = QuotientFilter::<It, Id>::from_fpp_with_hasher(n as usize, p, Id(0));
    let (q, r) = (split(f.quotient_bits() as u64), split(f.remainder_bits() as u64));
    for i in 0..n { f.insert(&It { h: [i << r | 1, 0] }); }
    check(split(f.len() as u64) == n, 1);
    let e = f.estimated_fpp();
    check(e > 0.0 && e <= p * HI, 2);
    note(q); note(r); reach(1);
}
/// C32: rejected exactly outside (0, 1). parameter 0: below, 1: above
pub fn h_c32_domain() {
    merge(0);
    let p = if param(0) == 0 { -real(1e-6, 10.0) } else { real(1.0, 10.0) };
    panic_ok(true);
    let f = QuotientFilter::<u64, Id>::from_fpp_with_hasher(4, p, Id(0));
    let _ = f.len();
    check(false, 1);
}
/// C33: error bounds symbolic. parameters ranges of epsilon and delta (powers of ten)
pub fn h_c33() {
    merge(0);
    let (e, d) = (fpp(param(0), 3), fpp(param(1), 3));
    let f = CountMinSketch::<CountMinStrategy, It, Id>::from_error_with_hashers(e, d, HB);
    let rows = split(f.rows() as u64);
    check(rows >= 1, 1);
    check(f.error() <= d * HI, 2);
    check(f.confidence() <= e * HI, 3);
    check((-((rows - 1) as f64)).exp() >= d * LO, 4);
    let c = f.cols() as f64;
    check(c >= 1.0, 5); check(std::f64::consts::E >= (c - 1.0) * e * LO, 6);
    note(rows); reach(1);
}
/// C34: error probability symbolic in [10^-a.., 1 - 10^-b]
pub fn h_c34() {
    merge(0);
    let e = real(param(0) as f64 / 1e6, param(1) as f64 / 1e6);
    let f = HyperLogLog::<It, Id>::with_hasher(e, Id(0));
    let m = longest_len(&f);
    let m = split(m);
    check(m > 0 && m & (m - 1) == 0, 1);
    check(1.04 * 1.04 <= e * e * m as f64 * HI, 2);
    check(1.04 * 1.04 >= e * e * (m / 2) as f64 * LO, 3);
    note(m); reach(1);
}
/// C34: rejected exactly outside (0, 1)
pub fn h_c34_domain() {
    merge(0);
    let e = if param(0) == 0 { -real(1e-6, 10.0) } else { real(1.0, 10.0) };
    panic_ok(true);
    let f = HyperLogLog::<It, Id>::with_hasher(e, Id(0));
    let _ = f.is_empty();
    check(false, 1);
}
