use crate::sx::*;
use probabilistic_collections::bloom::*;

pub const HB: [Id; 2] = [Id(0), Id(1)];
type F = BloomFilter<It, Id>;
type P = PartitionedBloomFilter<It, Id>;

/// parameters: m bits, n items (hasher_count = ceil(m/n ln 2)), hash bits, then per harness
fn mk() -> F { F::from_item_count_with_hashers(param(0) as usize, param(1) as usize, HB) }
fn it() -> It { item_bits(param(2) as u32) }
fn mask(x: &It, k: u64, m: u64) -> u64 { let mut r = 0; for i in 0..k { r |= 1u64 << (probe(x, i) % m); } r }

/// C01: k insertions, everything inserted so far is contained; positive answers persist; order and repetition do not matter
pub fn h_c01() {
    merge(64);
    let (mut f, mut g) = (mk(), mk());
    let n = param(3) as usize;
    let v: Vec<It> = (0..n).map(|_| it()).collect();
    let y = it();
    let mut before = f.contains(&y);
    for i in 0..n {
        f.insert(&v[i]);
        for x in &v[..=i] { check(f.contains(x), 1); }
        let now = f.contains(&y);
        check(!before | now, 2);
        check(f.contains(&y) == now, 3);
        before = now;
    }
    // reverse order, first item inserted twice
    for x in v.iter().rev() { g.insert(x); }
    g.insert(&v[0]);
    check(g.contains(&y) == f.contains(&y), 4);
    check(g.count_ones() == f.count_ones(), 5);
    note(f.count_ones() as u64); note(before as u64);
    f.clear();
    for x in &v { check(!f.contains(x), 6); }
    for x in &v { f.insert(x); }
    for x in &v { check(f.contains(x), 7); }
    check(g.contains(&y) == f.contains(&y), 8);
    reach(1);
}
/// C02: against the set of bit positions
pub fn h_c02() {
    merge(64);
    let mut f = mk();
    let (m, n) = (param(0), param(3) as usize);
    check(f.len() as u64 == m, 1);
    let k = f.hasher_count() as u64;
    let mut st = 0u64;
    for round in 0..2 {
        for _ in 0..n {
            let x = it(); let mx = mask(&x, k, m);
            check(f.contains(&x) == (mx & !st == 0), 2);
            f.insert(&x);
            st |= mx;
            check(f.count_ones() as u64 == ones(st), 3);
            check((f.count_ones() + f.count_zeros()) as u64 == m, 4);
        }
        let y = it();
        check(f.contains(&y) == (mask(&y, k, m) & !st == 0), 5);
        note(f.count_ones() as u64);
        if round == 1 { break; }
        f.clear(); st = 0;
        check(f.count_ones() == 0, 6);
        check(!f.contains(&y), 7);
        check(f.len() as u64 == m && f.hasher_count() as u64 == k && f.hashers() == &HB && f.count_zeros() as u64 == m, 8);
    }
    reach(1);
}
/// C02: the estimate is (ones/len)^k
pub fn h_c02_fpp() {
    merge(64);
    let mut f = mk();
    let (m, n) = (param(0), param(3) as usize);
    check(f.estimated_fpp() == 0.0, 11);
    for _ in 0..n { f.insert(&it()); }
    merge(0);
    let c = split(f.count_ones() as u64);
    let mut e = 1.0; for _ in 0..f.hasher_count() { e *= c as f64 / m as f64; }
    let est = f.estimated_fpp();
    check(close(est, e), 12);
    check(est >= 0.0 && est <= 1.0, 13);
    reach(1);
}

// ---- partitioned: parameters: bit_count, fpp in 1/1000, hash bits, insertions
fn mkp() -> P { P::from_bit_count_with_hashers(param(0) as usize, param(1) as f64 / 1000.0, HB) }
fn pmask(x: &It, k: u64, m: u64) -> u64 { let mut r = 0; for i in 0..k { r |= 1u64 << (i * m + probe(x, i) % m); } r }
pub fn h_c03() {
    merge(64);
    let mut f = mkp();
    let (m, n) = (param(0), param(3) as usize);
    let k = f.hasher_count() as u64;
    check(f.bit_count() as u64 == m && f.len() as u64 == m * k && f.count_ones() == 0, 1);
    let mut st = 0u64;
    let mut v: Vec<It> = vec![];
    for round in 0..2 {
        for i in 0..n {
            let x = it(); let mx = pmask(&x, k, m);
            check(f.contains(&x) == (mx & !st == 0), 2);
            f.insert(&x);
            st |= mx; v.push(x);
            check(f.count_ones() as u64 == ones(st), 3);
            if i == 0 { check(f.count_ones() as u64 == k, 4); }
            check((f.count_ones() + f.count_zeros()) as u64 == m * k, 5);
            for x in &v { check(f.contains(x), 6); }
        }
        let y = it();
        check(f.contains(&y) == (pmask(&y, k, m) & !st == 0), 7);
        note(f.count_ones() as u64);
        if round == 1 { break; }
        f.clear(); st = 0; v.clear();
        check(f.count_ones() == 0 && !f.contains(&y), 8);
        check(f.len() as u64 == m * k && f.hasher_count() as u64 == k && f.bit_count() as u64 == m && f.hashers() == &HB, 9);
    }
    reach(1);
}
pub fn h_c03_fpp() {
    merge(64);
    let mut f = mkp();
    for _ in 0..param(3) { f.insert(&it()); }
    merge(0);
    let c = split(f.count_ones() as u64);
    let mut e = 1.0; for _ in 0..f.hasher_count() { e *= c as f64 / f.len() as f64; }
    check(close(f.estimated_fpp(), e), 11);
    reach(1);
}

// ---- scalable: parameters: initial bits, fpp/1000, growth/100, tightening/100, hash bits, insertions
type S = ScalableBloomFilter<It, Id>;
fn mks() -> S { S::with_hashers(param(0) as usize, param(1) as f64 / 1000.0, param(2) as f64 / 100.0, param(3) as f64 / 100.0, HB) }
fn ceil_mul(l: u64, g: u64) -> u64 { (l * g + 99) / 100 }
fn its() -> It { item_bits(param(4) as u32) }
pub fn h_c04() {
    merge(64);
    let mut f = mks();
    let (m0, g, n) = (param(0), param(2), param(5) as usize);
    check(f.len() as u64 == m0 && f.filter_count() == 1 && f.count_ones() == 0, 1);
    let mut v: Vec<It> = vec![];
    let mut lens = vec![m0];
    let mut done = 0u64; // ones of the filters before the newest
    for _ in 0..n {
        let x = its();
        let had = f.contains(&x);
        let ones0 = f.count_ones() as u64;
        merge(64);
        f.insert(&x);
        merge(0);
        let fc = split(f.filter_count() as u64) as usize;
        let grown = fc == lens.len() + 1;
        check(grown || fc == lens.len(), 2);
        let ones1 = f.count_ones() as u64;
        let last = lens[lens.len() - 1];
        let newest = ones1 - done; // ones in the filter that was newest before this insert
        check(!had | (ones1 == ones0), 3);
        // a filter is added exactly when the newest one is at least half full
        check(grown == (newest * 2 >= last), 4);
        if grown { done = ones1; lens.push(ceil_mul(last, g)); }
        let total: u64 = lens.iter().sum();
        check(f.len() as u64 == total, 5);
        check(f.count_zeros() as u64 + ones1 == total, 6);
        v.push(x);
        merge(64);
        for x in &v { check(f.contains(x), 7); }
    }
    if lens.len() > 1 { reach(2); }
    if lens.len() > 2 { reach(3); }
    note(f.filter_count() as u64);
    f.clear();
    check(f.len() as u64 == m0 && f.filter_count() == 1 && f.count_ones() == 0, 8);
    for x in &v { check(!f.contains(x), 9); }
    // as new: first growth happens by the same rule
    f.insert(&v[0]); check(f.contains(&v[0]), 10);
    merge(0);
    let fc = split(f.filter_count() as u64);
    check((fc == 2) == (f.count_ones() as u64 * 2 >= m0), 11);
    if fc == 2 { check(f.len() as u64 == m0 + ceil_mul(m0, g), 12); }
    reach(1);
}

/// a set of positions as a list with validity flags: for filters of any length
struct Pos(Vec<u64>);
impl Pos {
    fn has(&self, x: u64) -> bool { let mut r = false; for y in &self.0 { r |= *y == x; } r }
    fn count(&self) -> u64 { let mut c = 0; for i in 0..self.0.len() { let mut new = true; for j in 0..i { new &= self.0[i] != self.0[j]; } c += new as u64; } c }
}
fn wide<C>(f: &mut C, len: u64, k: u64, pos: impl Fn(&It, u64) -> u64, ins: impl Fn(&mut C, &It), has: impl Fn(&C, &It) -> bool, ones: impl Fn(&C) -> u64) {
    let mut st = Pos(vec![]);
    for _ in 0..param(3) {
        let x = it();
        let mut all = true; for i in 0..k { all &= st.has(pos(&x, i)); }
        check(has(f, &x) == all, 1);
        ins(f, &x);
        for i in 0..k { st.0.push(pos(&x, i)); }
        check(has(f, &x), 2);
        check(ones(f) == st.count(), 3);
    }
    let y = it();
    let mut all = true; for i in 0..k { all &= st.has(pos(&y, i)); }
    check(has(f, &y) == all, 4);
    note(ones(f)); note(len);
    reach(1);
}
/// C01, C02: filters of any length (param(0)), hashes of few bits
pub fn h_c02_wide() {
    merge(64);
    let mut f = mk(); let (m, k) = (param(0), f.hasher_count() as u64);
    check(f.len() as u64 == m, 5);
    wide(&mut f, m, k, |x, i| probe(x, i) % m, |f, x| f.insert(x), |f, x| f.contains(x), |f| f.count_ones() as u64);
    f.clear(); check(f.count_ones() == 0 && f.count_zeros() as u64 == m, 6);
    check(!f.contains(&it()), 7);
}
/// C03: partitions of any length
pub fn h_c03_wide() {
    merge(64);
    let mut f = mkp(); let (m, k) = (param(0), f.hasher_count() as u64);
    check(f.len() as u64 == m * k && f.bit_count() as u64 == m, 5);
    wide(&mut f, m * k, k, |x, i| i * m + probe(x, i) % m, |f, x| f.insert(x), |f, x| f.contains(x), |f| f.count_ones() as u64);
    f.clear(); check(f.count_ones() == 0 && f.count_zeros() as u64 == m * k, 6);
    check(!f.contains(&it()), 7);
}
