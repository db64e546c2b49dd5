//! Cuckoo filters against the set of (fingerprint, bucket pair) entries.
use crate::sx::*;
use probabilistic_collections::cuckoo::*;

const HB: [Id; 2] = [Id(0), Id(1)];
type F = CuckooFilter<It, Id>;
/// parameters: item count, fingerprint bits, entries per index, items, operations after them, rehash allowed
fn mk() -> F { F::from_parameters_with_hashers(param(0) as usize, param(1) as usize, param(2) as usize, HB) }
#[derive(Clone, Copy, PartialEq)]
pub struct E { fp: u64, lo: u64, hi: u64 }
static mut SEEN: Vec<u64> = Vec::new();
fn mask(b: u64) -> u64 { if b >= 64 { !0 } else { (1 << b) - 1 } }
/// documented mapping of an item to its fingerprint and pair of buckets; bucket indices are case-split
fn entry(x: &It, bits: u64, buckets: u64) -> E { entry_with(x, bits, buckets, param(5) > 0) }
pub fn entry_with(x: &It, bits: u64, buckets: u64, rehash: bool) -> E {
    let mut fp = x.h[0] & mask(bits);
    if split((fp == 0) as u64) == 1 {
        assume(rehash);
        fp = uf(0, x.h[0].wrapping_add(1)) & mask(bits);
        assume(fp != 0); // bound: at most one rehash
    }
    // which fingerprints coincide is case-split (every partition is explored)
    unsafe {
        let seen = &mut *std::ptr::addr_of_mut!(SEEN);
        let mut new = true;
        for &y in seen.iter() { if split((y == fp) as u64) == 1 { new = false; break; } }
        if new { seen.push(fp); }
    }
    let a = split(x.h[1] % buckets);
    let b = split((a ^ uf(1, fp)) % buckets);
    E { fp, lo: a.min(b), hi: a.max(b) }
}
fn find(v: &[E], e: &E) -> Option<usize> {
    let mut p = v.len() as u64;
    for (i, x) in v.iter().enumerate() { p = sel((x.fp == e.fp) & (x.lo == e.lo) & (x.hi == e.hi), i as u64, p); }
    let p = split(p) as usize;
    if p == v.len() { None } else { Some(p) }
}
fn stored(f: &F) -> u64 { (f.len() + f.extra_items_len()) as u64 }

/// C07: everything inserted stays, through kicks and overflow
pub fn h_c07() {
    merge(0); rng_split(true);
    let mut f = mk();
    let (bits, buckets) = (param(1), f.bucket_len() as u64);
    let cap = f.capacity();
    let n = param(3) as usize;
    let (mut v, mut es): (Vec<It>, Vec<E>) = (vec![], vec![]);
    for _ in 0..n {
        let x = item(); es.push(entry(&x, bits, buckets));
        f.insert(&x); v.push(x);
        for y in &v { check(f.contains(y), 1); }
        check(f.len() <= cap, 2);
    }
    if f.extra_items_len() > 0 { reach(2); }
    // removal takes nothing but its own entry
    for _ in 0..param(4) {
        let k = split(below(n as u64)) as usize;
        f.remove(&v[k]);
        for i in 0..n { check(f.contains(&v[i]) | (es[i] == es[k]), 3); }
        f.insert(&v[k]); // the same entry again
        for i in 0..n { check(f.contains(&v[i]), 4); }
    }
    note(f.len() as u64); note(f.extra_items_len() as u64);
    reach(1);
}
/// C08: exact set of entries under insert, remove, clear
pub fn h_c08() {
    merge(0); rng_split(true);
    let mut f = mk();
    let (bits, buckets) = (param(1), f.bucket_len() as u64);
    let mut m: Vec<E> = vec![];
    let mut all: Vec<It> = vec![];
    for step in 0..param(3) + param(4) {
        let x = item(); let e = entry(&x, bits, buckets);
        let had = find(&m, &e);
        check(f.contains(&x) == had.is_some(), 1);
        let remove = if step < param(3) { false } else { split(sym(1)) == 1 };
        if remove { f.remove(&x); if let Some(i) = had { m.swap_remove(i); reach(3); } }
        else { f.insert(&x); if had.is_none() { m.push(e); } }
        all.push(x);
        check(stored(&f) == m.len() as u64, 2);
        check(f.contains(&x) == !remove, 3);
        check(f.is_nearly_full() == (f.extra_items_len() > 0), 4);
        check(f.len() <= f.capacity(), 5);
        if f.extra_items_len() > 0 { reach(2); }
    }
    for x in &all { let e = entry(x, bits, buckets); check(f.contains(x) == find(&m, &e).is_some(), 6); }
    let y = item(); let e = entry(&y, bits, buckets);
    check(f.contains(&y) == find(&m, &e).is_some(), 7);
    note(f.len() as u64); note(f.extra_items_len() as u64);
    f.clear();
    check(stored(&f) == 0 && f.is_empty() && !f.is_nearly_full(), 8);
    for x in &all { check(!f.contains(x), 9); }
    reach(1);
}

// ---- scalable: item count, fpp/1000, entries per index, growth/100, tightening/100, insertions, removals
type S = ScalableCuckooFilter<It, Id>;
fn bits_for(fpp: f64, e: f64) -> u64 { (2.0 / (1.0 - (1.0 - fpp).powf(1.0 / (2.0 * e)))).log2().ceil() as u64 }
pub fn h_c10() {
    merge(0); rng_split(true);
    let (n0, fpp, e, g, t) = (param(0), param(1) as f64 / 1000.0, param(2), param(3) as f64 / 100.0, param(4) as f64 / 100.0);
    let mut f = S::from_entries_per_index_with_hashers(n0 as usize, fpp, e as usize, g, t, HB);
    let cap0 = ((n0 + e - 1) / e).next_power_of_two() * e;
    check(f.capacity() as u64 == cap0 && f.len() == 0 && f.is_empty() && f.filter_count() == 1 && f.entries_per_index() as u64 == e, 1);
    let mut caps = vec![cap0]; let mut bits = vec![bits_for(fpp, e as f64)];
    let mut frozen = 0u64; // entries in the filters before the newest
    let mut v: Vec<(It, bool)> = vec![];
    // (fingerprint, pair) of x in every filter so far; distinctness is case-split
    let mut seen: Vec<Vec<u64>> = vec![vec![]; 4];
    let mut map = |x: &It, k: usize, bits: u64, b: u64| { let fp = x.h[0] & mask(bits); assume(fp != 0);
        let mut new = true; for &y in seen[k].iter() { if split((y == fp) as u64) == 1 { new = false; break; } }
        if new { seen[k].push(fp); }
        let r = split(x.h[1] % b); let q = split(uf(1, fp) % b); (fp, r, q) };
    let pair = |m: (u64, u64, u64), b: u64| { let a = m.1 % b; let c = (m.1 ^ m.2) % b; (m.0, a.min(c), a.max(c)) };
    for _ in 0..param(5) {
        let x = item(); for k in 0..bits.len() { map(&x, k, bits[k], caps[k] / e); }
        let had = split(f.contains(&x) as u64) == 1;
        let len0 = f.len() as u64;
        f.insert(&x);
        check(f.len() as u64 == len0 + !had as u64, 2);
        let newest = f.len() as u64 - frozen;
        let last = caps[caps.len() - 1];
        let grown = f.filter_count() == caps.len() + 1;
        check(grown || f.filter_count() == caps.len(), 3);
        if newest >= last { check(grown, 4); }          // full or more than full
        if newest < e.min(last) { check(!grown, 5); }   // no bucket can be full
        if grown {
            frozen = f.len() as u64;
            let c = ((last as f64 * g).ceil() as u64 + e - 1) / e;
            caps.push(c.next_power_of_two() * e);
            let mut p = 1.0; for _ in 0..bits.len() { p *= t; } bits.push(bits_for(fpp * p, e as f64));
            assume(bits.len() <= 4);
            let k = bits.len() - 1; for y in &v { map(&y.0, k, bits[k], caps[k] / e); } map(&x, k, bits[k], caps[k] / e);
        }
        let total: u64 = caps.iter().sum();
        check(f.capacity() as u64 == total, 6);
        v.push((x, true));
        for y in &v { check(f.contains(&y.0), 7); }
        check(!f.is_empty(), 8);
    }
    if caps.len() > 1 { reach(2); } if caps.len() > 2 { reach(3); }
    note(f.len() as u64); note(f.capacity() as u64);
    for _ in 0..param(6) {
        let k = split(below(param(5))) as usize;
        let len0 = f.len();
        let was = f.contains(&v[k].0);
        f.remove(&v[k].0);
        check(!f.contains(&v[k].0), 9);
        check(f.len() <= len0 && (!was || f.len() < len0), 10);
        v[k].1 = false;
        for i in 0..v.len() { if v[i].1 {
            let mut hit = false; // removed together with x when indistinguishable in some filter
            for j in 0..bits.len() { let b = caps[j] / e; hit |= pair(map(&v[i].0, j, bits[j], b), b) == pair(map(&v[k].0, j, bits[j], b), b); }
            if hit { v[i].1 = f.contains(&v[i].0); } else { check(f.contains(&v[i].0), 11); }
        } }
        check(f.filter_count() == caps.len(), 12);
    }
    f.clear();
    check(f.capacity() as u64 == cap0 && f.len() == 0 && f.is_empty() && f.filter_count() == 1 && f.entries_per_index() as u64 == e, 13);
    for y in &v { check(!f.contains(&y.0), 14); }
    f.insert(&v[0].0); check(f.contains(&v[0].0) && f.len() == 1, 15);
    reach(1);
}

/// C09: capacity is the number of slots; parameters: bits of the item count, entries per index, constructor, fpp/1000 or fingerprint bits
pub fn h_c09() {
    merge(64);
    let n = sym(param(0) as u32); let e = param(1) as usize;
    let valid = n > 0;
    panic_ok(!valid);
    let f = match param(2) {
        0 => F::with_hashers(n as usize, HB),
        1 => F::from_parameters_with_hashers(n as usize, param(3) as usize, e, HB),
        2 => F::from_entries_per_index_with_hashers(n as usize, param(3) as f64 / 1000.0, e, HB),
        _ => F::from_fingerprint_bit_count_with_hashers(n as usize, param(4) as f64 / 1000.0, param(3) as usize, HB),
    };
    panic_ok(false);
    check(valid, 1);
    let e = f.entries_per_index() as u64;
    if param(2) != 3 { check(e == param(1), 2); }
    if param(2) == 1 || param(2) == 3 { check(f.fingerprint_bit_count() as u64 == param(3), 3); }
    let b = f.bucket_len() as u64;
    check(f.capacity() as u64 == b * e, 4);
    check(b > 0 && b & (b - 1) == 0, 5);
    check(b * e >= n, 6);
    check(b == 1 || (b / 2) * e < n, 7);
    check(f.len() == 0 && f.is_empty() && f.extra_items_len() == 0 && !f.is_nearly_full(), 8);
    note(b); note(e);
    reach(1);
}
/// C09: capacity never changes, len never exceeds it, estimated_fpp follows the load
pub fn h_c09_ops() {
    merge(0); rng_split(true);
    let mut f = mk();
    let (bits, e) = (param(1), param(2) as f64);
    let (cap, buckets) = (f.capacity(), f.bucket_len());
    let mut last = f.estimated_fpp();
    check(last == 0.0, 11);
    let fc = 2.0f64.powi(bits as i32); let single = (fc - 2.0) / (fc - 1.0);
    for _ in 0..param(3) {
        let x = item(); entry(&x, bits, buckets as u64);
        f.insert(&x);
        let l = split(f.len() as u64) as usize;
        check(f.capacity() == cap && f.bucket_len() == buckets && f.entries_per_index() == param(2) as usize && f.fingerprint_bit_count() as u64 == bits, 12);
        check(l <= cap, 13);
        let p = f.estimated_fpp();
        check(p >= 0.0 && p <= 1.0 && p >= last, 14);
        check((p - (1.0 - single.powf(2.0 * e * (l as f64 / cap as f64)))).abs() < 1e-9, 15);
        last = p;
    }
    let g = f.clone();
    check(g.capacity() == cap && g.bucket_len() == buckets && g.len() == f.len(), 16);
    let g: F = crate::flat::round_trip(&f);
    check(g.capacity() == cap && g.bucket_len() == buckets && g.len() == f.len(), 17);
    f.clear();
    check(f.capacity() == cap && f.bucket_len() == buckets && f.estimated_fpp() == 0.0 && f.len() == 0, 18);
    note(f.capacity() as u64);
    reach(1);
}
