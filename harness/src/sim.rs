//! Double hashing, MinHash, SimHash, shingles and Jaccard similarity.
use crate::sx::*;
use probabilistic_collections::similarity::*;
use probabilistic_collections::verif_hooks::DoubleHasher;
use probabilistic_collections::SipHasherBuilder;
use std::hash::{BuildHasher, Hash, Hasher};
use std::vec::IntoIter;

const HB: [Id; 2] = [Id(0), Id(1)];
type M = MinHash<IntoIter<It>, It, Id>;
type S = SimHash<IntoIter<It>, It, Id>;

/// C25: the first param(0) elements of every item's hash sequence
pub fn h_c25() {
    merge(64);
    let x = item();
    let d = DoubleHasher::<It, Id>::with_hashers(HB);
    let (mut i, mut j) = (d.hash(&x), d.hash(&x));
    let (mut a, mut b) = (x.h[0], x.h[1]);
    for k in 0..param(0) {
        let v = i.next();
        check(v == Some(a), 1);
        if k < 64 { check(a == probe(&x, k), 2); check(j.next() == Some(a), 3); }
        a = a.wrapping_add(b); b = b.wrapping_add(k);
    }
    // a copy of the iterator continues the same sequence
    let mut c = i; let (u, v) = (i.next(), c.next());
    check(u == v && u == Some(a), 4);
    reach(1);
}
/// C25: MinHash of one item is the sequence itself
pub fn h_c25_min() {
    merge(64);
    let x = item();
    let n = param(0);
    let v = M::with_hashers(n as usize, HB).get_min_hashes(vec![x].into_iter());
    check(v.len() == n as usize, 1);
    for k in 0..n { check(v[k as usize] == probe(&x, k), 2); }
    reach(1);
}
/// SipHash-2-4, written from its definition
fn sip(k0: u64, k1: u64, msg: &[u64], tail: u64, len: u64) -> u64 {
    let mut v = [k0 ^ 0x736f6d6570736575, k1 ^ 0x646f72616e646f6d, k0 ^ 0x6c7967656e657261, k1 ^ 0x7465646279746573];
    fn rnd(v: &mut [u64; 4]) {
        v[0] = v[0].wrapping_add(v[1]); v[2] = v[2].wrapping_add(v[3]); v[1] = v[1].rotate_left(13); v[3] = v[3].rotate_left(16);
        v[1] ^= v[0]; v[3] ^= v[2]; v[0] = v[0].rotate_left(32);
        v[2] = v[2].wrapping_add(v[1]); v[0] = v[0].wrapping_add(v[3]); v[1] = v[1].rotate_left(17); v[3] = v[3].rotate_left(21);
        v[1] ^= v[2]; v[3] ^= v[0]; v[2] = v[2].rotate_left(32);
    }
    for m in msg.iter().chain([tail | len << 56].iter()) { v[3] ^= *m; rnd(&mut v); rnd(&mut v); v[0] ^= *m; }
    v[2] ^= 0xff;
    for _ in 0..4 { rnd(&mut v); }
    v[0] ^ v[1] ^ v[2] ^ v[3]
}
struct W8(u64);
impl Hash for W8 { fn hash<H: Hasher>(&self, s: &mut H) { s.write_u64(self.0) } }
/// C25: builders made from seeds are SipHash-2-4 under these keys, whatever was hashed before; equality is equality of seeds
pub fn h_c25_sip() {
    merge(64);
    let (k0, k1, k2, k3) = (sym(64), sym(64), sym(64), sym(64));
    let (a, b) = (SipHasherBuilder::from_seed(k0, k1), SipHasherBuilder::from_seed(k2, k3));
    let (x, y) = (sym(64), sym(64));
    let one = |s: &SipHasherBuilder, v: &[u64]| { let mut h = s.build_hasher(); for w in v { h.write_u64(*w); } h.finish() };
    check(one(&a, &[x]) == sip(k0, k1, &[x], 0, 8), 1);
    check(one(&b, &[x, y]) == sip(k2, k3, &[x, y], 0, 16), 2);
    check(one(&a, &[x]) == sip(k0, k1, &[x], 0, 8), 3);
    let d = DoubleHasher::<W8, SipHasherBuilder>::with_hashers([a, b]);
    let (p, q) = (sip(k0, k1, &[x], 0, 8), sip(k2, k3, &[x], 0, 8));
    let mut i = d.hash(&W8(x));
    check(i.next() == Some(p) && i.next() == Some(p.wrapping_add(q)), 4);
    check((a == b) == (k0 == k2 && k1 == k3), 5);
    let c = a.clone();
    check(c == a && one(&c, &[y]) == sip(k0, k1, &[y], 0, 8), 6);
    reach(1);
}

/// C20: hash functions, items in a, items in b
pub fn h_c20() {
    merge(64);
    let k = param(0);
    let a: Vec<It> = (0..param(1)).map(|_| item()).collect();
    let b: Vec<It> = (0..param(2)).map(|_| item()).collect();
    let mh = M::with_hashers(k as usize, HB);
    let min = |v: &[It], i: u64| { let mut m = probe(&v[0], i); for x in &v[1..] { let p = probe(x, i); m = sel(p < m, p, m); } m };
    let (sa, sb) = (mh.get_min_hashes(a.clone().into_iter()), mh.get_min_hashes(b.clone().into_iter()));
    check(sa.len() == k as usize && sb.len() == k as usize, 1);
    let mut same = 0;
    for i in 0..k { check(sa[i as usize] == min(&a, i), 2); check(sb[i as usize] == min(&b, i), 2); same += (sa[i as usize] == sb[i as usize]) as u64; }
    let mut rev: Vec<It> = a.iter().rev().copied().collect(); rev.push(a[0]);
    let sr = mh.get_min_hashes(rev.clone().into_iter());
    let u: Vec<It> = b.iter().chain(a.iter()).copied().collect();
    let su = mh.get_min_hashes(u.into_iter());
    for i in 0..k as usize { check(sr[i] == sa[i], 3); check(su[i] == sel(sa[i] < sb[i], sa[i], sb[i]), 4); }
    check(mh.get_similarity(a.clone().into_iter(), rev.into_iter()) == 1.0, 5);
    let s = mh.get_similarity_from_hashes(&sa, &sb);
    check(s == split(same) as f64 / k as f64, 6);
    check(s >= 0.0 && s <= 1.0 && s == mh.get_similarity_from_hashes(&sb, &sa), 7);
    check(mh.get_similarity(a.into_iter(), b.into_iter()) == s, 8);
    check(mh.hasher_count() == k as usize && mh.hashers()[0] == Id(0) && mh.hashers()[1] == Id(1), 9);
    reach(1);
}
/// C20: similarity of arbitrary signatures; different lengths panic
pub fn h_c20_cmp() {
    merge(64);
    let (n, m) = (split(below(param(0) + 1)), split(below(param(0) + 1)));
    if n == 0 && m == 0 { return; }
    let mh = M::with_hashers(n.max(1) as usize, HB);
    let a: Vec<u64> = (0..n).map(|_| sym(64)).collect();
    let b: Vec<u64> = (0..m).map(|_| sym(64)).collect();
    panic_ok(n != m);
    let s = mh.get_similarity_from_hashes(&a, &b);
    panic_ok(false);
    check(n == m, 1);
    let mut same = 0;
    for i in 0..n as usize { same += (a[i] == b[i]) as u64; }
    check(s == split(same) as f64 / n as f64, 2);
    reach(1);
}

/// C21: items
pub fn h_c21() {
    merge(64);
    let n = param(0);
    let v: Vec<It> = (0..n).map(|_| item()).collect();
    let h = S::with_hasher(Id(0)).get_sim_hash(v.clone().into_iter());
    for i in 0..64 {
        let mut zeros = 0;
        for x in &v { zeros += 1 - (x.h[0] >> i & 1); }
        check((h >> (63 - i) & 1 == 1) == (2 * zeros >= n), 1);
    }
    let r = S::with_hasher(Id(0)).get_sim_hash(v.into_iter().rev().collect::<Vec<_>>().into_iter());
    check(r == h, 2);
    reach(1);
}
/// C21: many votes: param(1) copies of an item, then its complement as often, and param(0) arbitrary items (before, between or after)
pub fn h_c21_many() {
    merge(64);
    let (n, k) = (param(0) as usize, param(1) as usize);
    let x = [0, !0, 0x5555_5555_5555_5555, 0x0123_4567_89ab_cdef][split(sym(2)) as usize];
    let v: Vec<It> = (0..n).map(|_| item()).collect();
    let at = split(below(3));
    let mut w: Vec<It> = vec![];
    if at == 0 { w.extend(&v); }
    for _ in 0..k { w.push(It { h: [x, 0] }); }
    if at == 1 { w.extend(&v); }
    for _ in 0..k { w.push(It { h: [!x, 0] }); }
    if at == 2 { w.extend(&v); }
    let h = S::with_hasher(Id(0)).get_sim_hash(w.into_iter());
    for i in 0..64 {
        let mut zeros = 0;
        for x in &v { zeros += 1 - (x.h[0] >> i & 1); }
        check((h >> (63 - i) & 1 == 1) == (2 * zeros >= n as u64), 1);
    }
    reach(1);
}
/// the inverse of SimHash of a single item
fn of(h: u64) -> It { It { h: [!h.reverse_bits(), 0] } }
/// C22: inputs, window (0: arbitrary), symbolic bits per hash, where they start, and their spacing
pub fn h_c22() {
    merge(0);
    let n = param(0) as usize;
    let w = if param(1) == 0 { let w = sym(64); assume(w > 1); if w < n as u64 + 2 { split(w) } else { w } } else { param(1) } as usize;
    let start = param(3) + split(below(param(5).max(1)));
    let hs: Vec<u64> = (0..n).map(|_| { let v = split(sym(param(2) as u32)); let mut h = 0; for b in 0..param(2) { h |= (v >> b & 1) << ((start + b * param(4)) % 64); } h }).collect();
    let out = S::with_hasher(Id(0)).report_similarities(w, hs.iter().map(|h| vec![of(*h)].into_iter()).collect());
    for (k, p) in out.iter().enumerate() {
        check(p.0 < p.1 && p.1 < n, 1);
        for q in &out[..k] { check(p.0 != q.0 || p.1 != q.1, 2); }
    }
    for i in 0..n { for j in i + 1..n {
        let got = out.iter().any(|p| p.0 == i && p.1 == j);
        let (mut near, mut far) = (false, true);
        for r in 0..64 {
            let (a, b) = (hs[i].rotate_left(r), hs[j].rotate_left(r));
            let (lo, hi) = (sel(a < b, a, b), sel(a < b, b, a));
            let (mut strict, mut all) = (0, 0);
            for k in 0..n { if k != i && k != j { let c = hs[k].rotate_left(r); strict += ((c > lo) & (c < hi)) as usize; all += ((c >= lo) & (c <= hi)) as usize; } }
            near |= all + 1 < w; far &= strict + 1 >= w;
        }
        // adjacent in some rotation under every / under some order of equal hashes
        if got { check(!far, 3); } else { check(!near, 4); }
        if got { reach(2); } else { reach(3); }
    } }
    reach(1);
}
/// C22: window sizes up to one panic, larger ones never do (any inputs, possibly none or empty ones)
pub fn h_c22_window() {
    merge(0);
    let w = sym(64) as usize;
    let n = split(below(3));
    let v: Vec<_> = (0..n).map(|_| (0..split(below(3))).map(|_| of(sym(1))).collect::<Vec<_>>().into_iter()).collect();
    panic_ok(w <= 1);
    let out = S::with_hasher(Id(0)).report_similarities(w, v);
    panic_ok(false);
    check(w > 1, 1);
    check(out.len() == (n == 2) as usize, 2);
    if n == 2 { check(out[0] == (0, 1), 3); }
    reach(1);
}

/// C23: number of tokens
pub fn h_c23() {
    merge(64);
    let n = param(0);
    let t: Vec<u64> = (0..n).map(|_| sym(64)).collect();
    let w = sym(64);
    assume(w >= 1);
    let w = if w <= n + 1 { split(w) } else { w };
    let mut it = ShingleIterator::new(w as usize, t.iter().collect());
    let m = if w <= n { n - w + 1 } else { 0 };
    for i in 0..m {
        match it.next() {
            Some(s) => { check(s.len() == w as usize, 1); for j in 0..w { check(std::ptr::eq(s[j as usize], &t[(i + j) as usize]) && *s[j as usize] == t[(i + j) as usize], 2); } }
            None => check(false, 3),
        }
    }
    check(it.next().is_none() && it.next().is_none(), 4);
    check(ShingleIterator::new(w as usize, t.iter().collect()).count() == m as usize, 5);
    reach(1);
}

/// an item known only by equality
#[derive(Clone, Copy, PartialEq, Eq)]
struct Q(u64);
impl Hash for Q { fn hash<H: Hasher>(&self, s: &mut H) { s.write_u64(0) } }
/// C24: items in a, items in b
pub fn h_c24() {
    merge(0);
    let a: Vec<Q> = (0..param(0)).map(|_| Q(sym(64))).collect();
    let b: Vec<Q> = (0..param(1)).map(|_| Q(sym(64))).collect();
    let s = get_jaccard_similarity(a.clone().into_iter(), b.clone().into_iter());
    let has = |v: &[Q], x: Q| v.iter().any(|y| *y == x);
    let (mut i, mut u) = (0u64, 0u64);
    for (k, x) in a.iter().enumerate() { if !has(&a[..k], *x) { u += 1; i += has(&b, *x) as u64; } }
    for (k, x) in b.iter().enumerate() { if !has(&b[..k], *x) && !has(&a, *x) { u += 1; } }
    check(close(s, i as f64 / u as f64), 1);
    check(s >= 0.0 && s <= 1.0, 2);
    let r = get_jaccard_similarity(b.iter().rev().copied().collect::<Vec<_>>().into_iter(), a.iter().rev().chain(a.iter()).copied().collect::<Vec<_>>().into_iter());
    check(r == s, 3);
    check((s == 1.0) == (i == u), 4);
    reach(1); if i == u { reach(2); } if i == 0 { reach(3); }
}
