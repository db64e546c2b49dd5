//! Count-min sketch against sums over colliding items.
use crate::sx::*;
use probabilistic_collections::count_min_sketch::*;

const HB: [Id; 2] = [Id(0), Id(1)];
type M<S> = CountMinSketch<S, It, Id>;
/// parameters: rows, cols, hash bits (0: 64), insertions, value bits, split values (1) or nothing (2)
fn mk<S: CountStrategy>() -> M<S> { M::<S>::with_hashers(param(0) as usize, param(1) as usize, HB) }
/// an item with its column in every row (case-split)
#[derive(Clone)]
struct C { x: It, c: Vec<u64> }
fn it() -> C {
    let x = item_bits(param(2) as u32);
    let c = (0..param(0)).map(|i| { let c = probe(&x, i) % param(1); if param(5) < 2 { split(c) } else { c } }).collect();
    C { x, c }
}
/// param(5) = 1: case-split on the value (small widths)
fn val() -> i64 { let v = sym(param(4) as u32); if param(5) == 1 { split(v) as i64 } else { v as i64 } }
fn sval() -> i64 { val() - (1i64 << (param(4) - 1)) }
/// cell of y in row i: the sum of the counts of the items that share it
fn cell(h: &[(C, i64)], y: &C, i: usize) -> i64 { let mut s = 0; for (x, v) in h { s += sel(x.c[i] == y.c[i], *v as u64, 0) as i64; } s }
fn min(a: i64, b: i64) -> i64 { sel(a < b, a as u64, b as u64) as i64 }
fn minimum(h: &[(C, i64)], y: &C) -> i64 { let mut m = cell(h, y, 0); for i in 1..y.c.len() { m = min(m, cell(h, y, i)); } m }

/// C14
pub fn h_c14() {
    merge(64);
    let mut s = mk::<CountMinStrategy>();
    let mut h: Vec<(C, i64)> = vec![];
    let mut total = 0;
    for _ in 0..param(3) { let (x, v) = (it(), val()); s.insert(&x.x, v); total += v; h.push((x, v)); }
    for (x, _) in &h {
        let c = s.count(&x.x);
        let mut t = 0; for (y, v) in &h { t += *v * (y.x == x.x) as i64; }
        check(c >= t, 1); check(c <= total, 2); check(c == minimum(&h, x), 3);
    }
    let y = it();
    let c = s.count(&y.x);
    check(c >= 0, 1); check(c <= total, 2); check(c == minimum(&h, &y), 3);
    check(s.rows() as u64 == param(0) && s.cols() as u64 == param(1), 4);
    check(s.count(&y.x) == c, 5);
    note(c as u64);
    reach(1);
}
fn lin<S: CountStrategy>(exact: bool) {
    merge(64);
    let (mut a, mut b, mut one) = (mk::<S>(), mk::<S>(), mk::<S>());
    let n = param(3) as usize;
    let v: Vec<(C, i64)> = (0..n).map(|_| (it(), sval())).collect();
    for (x, c) in &v { a.insert(&x.x, *c); }
    // b: reversed order, the first item's count in two parts, another item inserted and removed again
    let (z, zv, part) = (v[n - 1].0.clone(), sval(), sval());
    b.insert(&v[0].0.x, part);
    b.insert(&z.x, zv);
    for (x, c) in v.iter().skip(1).rev() { b.insert(&x.x, *c); }
    b.insert(&v[0].0.x, v[0].1 - part);
    b.remove(&z.x, zv);
    let y = it();
    let ca = a.count(&y.x);
    check(ca == b.count(&y.x), 1);
    for (x, _) in &v { check(a.count(&x.x) == b.count(&x.x), 2); }
    // removing everything cancels
    for (x, c) in &v { b.remove(&x.x, *c); }
    let zero = mk::<S>().count(&y.x);
    check(b.count(&y.x) == zero && zero == 0, 3);
    // one distinct item
    if exact {
        one.insert(&y.x, v[0].1); one.insert(&y.x, part);
        check(one.count(&y.x) == v[0].1 + part, 4);
    }
    note(ca as u64);
    a.clear();
    check(a.count(&y.x) == 0, 5);
    for (x, _) in &v { check(a.count(&x.x) == 0, 6); }
    a.insert(&y.x, part);
    check(!exact || a.count(&y.x) == part, 7);
    // a cleared sketch is a new one
    let mut f = mk::<S>();
    f.insert(&y.x, part);
    check(a.count(&y.x) == f.count(&y.x), 8);
    check(a.count(&z.x) == f.count(&z.x), 9);
    reach(1);
}
/// C15
pub fn h_c15_min() { lin::<CountMinStrategy>(true) }
pub fn h_c15_mean() { lin::<CountMeanStrategy>(true) }
pub fn h_c15_median() { lin::<CountMedianBiasStrategy>(false) }
/// C16: mean
pub fn h_c16_mean() {
    merge(64);
    let mut s = mk::<CountMeanStrategy>();
    let y = it();
    let mut h: Vec<(C, i64)> = vec![];
    for _ in 0..param(3) { let (x, v) = (it(), sval()); s.insert(&x.x, v); h.push((x, v)); }
    let rows = param(0) as i64;
    let mut sum = 0; for i in 0..rows as usize { sum += cell(&h, &y, i); }
    let c = s.count(&y.x);
    let d = 2 * (c * rows - sum);
    check((d <= rows) & (d >= -rows), 1);
    check((d != rows) | (sum > 0), 2); // halves away from zero
    check((d != -rows) | (sum < 0), 3);
    note(c as u64);
    reach(1);
}
/// C16: median-bias
pub fn h_c16_median() {
    merge(64);
    let mut s = mk::<CountMedianBiasStrategy>();
    let mut m = mk::<CountMinStrategy>();
    let y = it();
    let mut h: Vec<(C, i64)> = vec![];
    let mut total = 0;
    for _ in 0..param(3) { let (x, v) = (it(), sval()); s.insert(&x.x, v); m.insert(&x.x, v); total += v; h.push((x, v)); }
    let c = s.count(&y.x);
    let d = param(1) as i64 - 1;
    let n = y.c.len();
    let mut b = vec![];
    for i in 0..n {
        let v = cell(&h, &y, i);
        // k = ceil((total - v) / d), by d * (k - 1) < total - v <= d * k
        let x = total - v;
        let big = 1i64 << 20; // x + d * big is positive
        let k = (x + d * big + d - 1) / d - big;
        b.push(v - k);
    }
    // the lower median: at least (n - 1) / 2 + 1 values are <= it, and at most (n - 1) / 2 are below
    let r = (n - 1) / 2;
    let mut med = 0u64;
    for i in 0..n {
        let (mut lt, mut le) = (0, 0);
        for j in 0..n { lt += (b[j] < b[i]) as usize; le += (b[j] <= b[i]) as usize; }
        med = sel((lt <= r) & (le > r), b[i] as u64, med);
    }
    check(c == min(minimum(&h, &y), med as i64), 1);
    check(c <= m.count(&y.x), 2);
    note(c as u64);
    reach(1);
}
