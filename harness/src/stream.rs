//! Stream Bloom filters (BS, BSSD, RLBS): one insertion from any state a short history reaches, any random outcome.
use crate::sx::*;
use probabilistic_collections::bloom::*;

const HB: [Id; 2] = [Id(0), Id(1)];
pub trait SF { fn mk(m: usize, fpp: f64) -> Self; fn ins(&mut self, x: &It); fn has(&self, x: &It) -> bool; fn k(&self) -> usize; fn m(&self) -> usize; fn n(&self) -> usize; fn c1(&self) -> usize; fn c0(&self) -> usize; fn clr(&mut self); const PER_PARTITION: bool; }
macro_rules! sf { ($t:ident, $p:expr) => { impl SF for $t<It, Id> { fn mk(m: usize, fpp: f64) -> Self { $t::with_hashers(m, fpp, HB) } fn ins(&mut self, x: &It) { self.insert(x) } fn has(&self, x: &It) -> bool { self.contains(x) } fn k(&self) -> usize { self.hasher_count() } fn m(&self) -> usize { self.bit_count() } fn n(&self) -> usize { self.len() } fn c1(&self) -> usize { self.count_ones() } fn c0(&self) -> usize { self.count_zeros() } fn clr(&mut self) { self.clear() } const PER_PARTITION: bool = $p; } } }
sf!(BSBloomFilter, true); sf!(BSSDBloomFilter, false); sf!(RLBSBloomFilter, true);

/// parameters: kind, bits per partition, fpp/1000, hash bits, insertions
fn it() -> It { item_bits(param(3) as u32) }
macro_rules! by_kind { ($f:ident) => { match param(0) { 0 => $f::<BSBloomFilter<It, Id>>(), 1 => $f::<BSSDBloomFilter<It, Id>>(), _ => $f::<RLBSBloomFilter<It, Id>>() } } }

/// C05: the item just inserted is present; inserting a present item changes nothing
fn c05<F: SF>() {
    merge(64);
    let mut f = F::mk(param(1) as usize, param(2) as f64 / 1000.0);
    let y = it();
    for _ in 0..param(4) {
        let x = it();
        let (hx, hy, c) = (f.has(&x), f.has(&y), f.c1());
        f.ins(&x);
        check(f.has(&x), 1);
        check(!hx | ((f.has(&y) == hy) & (f.c1() == c)), 2);
        let (hy, c) = (f.has(&y), f.c1());
        f.ins(&x);
        check(f.has(&x) & (f.has(&y) == hy) & (f.c1() == c), 3);
    }
    note(f.c1() as u64);
    reach(1);
}
pub fn h_c05() { by_kind!(c05) }

/// the filter's bits, read through contains with concrete probes anchored at an item known to be present (k = 1 or 2)
fn bits<F: SF>(f: &F, anchor: [u64; 2]) -> u64 {
    let (m, k) = (f.m() as u64, f.k());
    let mut r = 0;
    for a in 0..m {
        if k == 1 { r |= (f.has(&It { h: [a, 0] }) as u64) << a; continue; }
        let p = It { h: [a, (m + anchor[1] - a) % m] };
        r |= (f.has(&p) as u64) << a;
        let p = It { h: [anchor[0], (m + a - anchor[0]) % m] };
        r |= (f.has(&p) as u64) << (m + a);
    }
    r
}
/// C06: what one insertion may change
fn c06<F: SF>() {
    merge(64);
    let mut f = F::mk(param(1) as usize, param(2) as f64 / 1000.0);
    let (m, k) = (f.m() as u64, f.k() as u64);
    assume(k == 1 || k == 2);
    check(m == param(1) && f.n() as u64 == m * k && f.c1() == 0 && f.c0() as u64 == m * k, 11);
    let part = (1u64 << m) - 1;
    let mut p = 0u64;
    for round in 0..2 {
        for _ in 0..param(4) {
            let x = it();
            let pos = [probe(&x, 0) % m, probe(&x, 1) % m];
            let mut mx = 1u64 << pos[0]; if k == 2 { mx |= 1u64 << (m + pos[1]); }
            let had = f.has(&x);
            check(had == (p & mx == mx), 12);
            f.ins(&x);
            check(f.has(&x), 13);
            let q = bits(&f, pos);
            check(f.c1() as u64 == ones(q), 14);
            check((f.c1() + f.c0()) as u64 == m * k, 15);
            check(!had | (p == q), 16);
            check(q & !p & !mx == 0, 17); // nothing else is set
            let gone = p & !q;
            if F::PER_PARTITION { check(ones(gone & part) <= 1 && ones(gone >> m) <= 1, 18); } else { check(ones(gone) <= 1, 18); }
            check(q & mx == mx, 19);
            p = q;
        }
        note(f.c1() as u64);
        if round == 1 || param(5) == 0 { break; }
        f.clr(); p = 0;
        check(f.c1() == 0 && f.c0() as u64 == m * k && f.n() as u64 == m * k && f.m() as u64 == m && f.k() as u64 == k, 20);
        let y = it(); check(!f.has(&y), 21);
    }
    reach(1);
}
pub fn h_c06() { by_kind!(c06) }

/// C37: the chance with which one insertion evicts each bit, by going through all outcomes of its draws
fn c37<F: SF + Clone>() {
    merge(64);
    let mut f = F::mk(param(1) as usize, param(2) as f64 / 1000.0);
    let (m, k) = (f.m() as u64, f.k() as u64);
    assume(k == 1 || k == 2);
    let mut pos = [0, 0];
    for _ in 0..param(4) { let x = it(); f.ins(&x); pos = [probe(&x, 0) % m, probe(&x, 1) % m]; }
    let p = bits(&f, pos);
    let x = it();
    let pos = [probe(&x, 0) % m, probe(&x, 1) % m];
    let mut mx = 1u64 << pos[0]; if k == 2 { mx |= 1u64 << (m + pos[1]); }
    assume(p & mx != mx);
    let part = (1u64 << m) - 1;
    let ones_of = |j: u64| ones(p >> (j * m) & part);
    // outcomes of total weight `total`; those of weight gone[b] evict bit b
    let total = (m * m * k).pow(k as u32);
    let (mut d, mut gone, mut all, mut runs): (Vec<u64>, Vec<u64>, u64, u64) = (Vec::new(), vec![0; (m * k) as usize], 0, 0);
    let mut joint = vec![0u64; (m * m) as usize];
    loop {
        let mut g = f.clone();
        rand::nd::digits(&d, m);
        g.ins(&x);
        let r = rand::nd::radices();
        rand::nd::off();
        let q = bits(&g, pos);
        let out = p & !q;
        let mut w = total;
        for n in &r { assume(w % n == 0); w /= n; }
        for b in 0..m * k { gone[b as usize] += w * (out >> b & 1); }
        if k == 2 { for a in 0..m { for b in 0..m { joint[(a * m + b) as usize] += w * ((out >> a & 1) & (out >> (m + b) & 1)); } } }
        all += w; runs += 1;
        // next outcome
        while d.len() < r.len() { d.push(0); }
        let mut i = d.len();
        while i > 0 { i -= 1; d[i] += 1; if d[i] < r[i] { break; } d[i] = 0; if i == 0 { i = usize::MAX; break; } }
        if i == usize::MAX || d.is_empty() { break; }
        d.truncate(i + 1);
        check(runs < 5000, 1);
    }
    for b in 0..m * k {
        let live = (p & !mx) >> b & 1;
        let want = match param(0) { 0 => all * live, 1 => all * live, _ => all * live * ones_of(b / m) };
        let den = match param(0) { 0 => m, 1 => m * k, _ => m * m };
        check(gone[b as usize] * den == want, 2);
    }
    // the partitions are drawn independently (one of them only, for BSSD)
    if k == 2 { for a in 0..m { for b in 0..m { let j = joint[(a * m + b) as usize]; check(if param(0) == 1 { j == 0 } else { j * all == gone[a as usize] * gone[(m + b) as usize] }, 3); } } }
    check(all == total, 4);
    note(runs); note(ones(p)); reach(1);
}
pub fn h_c37() { match param(0) { 0 => c37::<BSBloomFilter<It, Id>>(), 1 => c37::<BSSDBloomFilter<It, Id>>(), _ => c37::<RLBSBloomFilter<It, Id>>() } }
