//! Quotient filter: the canonical table of a set of fingerprints is built by inserting it in sorted order; every
//! operation from every such table must lead to the canonical table of the updated set (one inductive step).
use crate::flat::to_words;
use crate::sx::*;
use probabilistic_collections::quotient::QuotientFilter;

type F = QuotientFilter<It, Id>;
fn q() -> u32 { param(0) as u32 }
fn r() -> u32 { param(1) as u32 }
fn mk() -> F { F::with_hasher(q() as u8, r() as u8, Id(0)) }
/// the item whose fingerprint is (quotient, remainder); `hi` are the hash bits above the fingerprint
fn fp(qu: u64, re: u64, hi: u64) -> It {
    let b = q() + r();
    let top = if b >= 64 { 0 } else { hi << b };
    It { h: [top | qu << r() | re, 0] }
}
/// a strictly increasing list of n fingerprints: quotients concrete (all choices explored), remainders symbolic
fn set(n: usize) -> Vec<(u64, u64)> {
    let mut v: Vec<(u64, u64)> = Vec::with_capacity(n + 1);
    for i in 0..n {
        let qu = split(sym(q()));
        let re = sym(r());
        if i > 0 { let (p, s) = v[i - 1]; assume(p <= qu); if p == qu { assume(s < re); } }
        v.push((qu, re));
    }
    v
}
fn build(v: &[(u64, u64)]) -> F { let mut f = mk(); for x in v { f.insert(&fp(x.0, x.1, 0)); } f }
fn same(a: &F, b: &F) -> bool {
    let (x, y) = (to_words(a), to_words(b));
    if x.len() != y.len() { return false; }
    let mut ok = true;
    for i in 0..x.len() { ok &= x[i] == y[i]; }
    ok
}
fn member(v: &[(u64, u64)], x: (u64, u64)) -> bool { let mut m = false; for y in v { m |= *y == x; } m }

/// f holds exactly the set w: its table is the canonical one of w (about which h_c11_* decide membership and the next
/// step), or else membership and one further operation are decided directly on this table
fn exact(f: &mut F, w: &[(u64, u64)], id: u32) {
    if split(same(f, &build(w)) as u64) == 1 { return; }
    let z = (split(sym(q())), sym(r()));
    check(f.contains(&fp(z.0, z.1, 0)) == member(w, z), id);
    let y = (split(sym(q())), sym(r()));
    if split(sym(1)) == 1 {
        if split((w.len() == 1 << q()) as u64) == 1 { panic_ok(!member(w, y)); }
        f.insert(&fp(y.0, y.1, 0));
        panic_ok(false);
        check(f.contains(&fp(z.0, z.1, 0)) == (member(w, z) | (z == y)), id);
    } else {
        f.remove(&fp(y.0, y.1, 0));
        check(f.contains(&fp(z.0, z.1, 0)) == (member(w, z) & (z != y)), id);
    }
}

/// contains is exact on the canonical table of every set of n fingerprints
pub fn h_c11_contains() {
    merge(64);
    let n = param(2) as usize;
    let v = set(n);
    let f = build(&v);
    check(f.len() == n, 1);
    for x in &v { check(f.contains(&fp(x.0, x.1, 1)), 2); }
    let y = (split(sym(q())), sym(r()));
    let c = f.contains(&fp(y.0, y.1, sym(2)));
    check(c == member(&v, y), 3);
    note(c as u64);
    reach(1);
}
/// insertion of any item leads to the canonical table of the extended set
pub fn h_c11_insert() {
    merge(64);
    let n = param(2) as usize;
    let v = set(n);
    let mut f = build(&v);
    let y = (split(sym(q())), sym(r()));
    let pos = { let mut p = 0; for x in &v { p += ((x.0 < y.0) | ((x.0 == y.0) & (x.1 < y.1))) as u64; } split(p) as usize };
    let had = split(member(&v, y) as u64) == 1;
    let mut w = v.clone();
    if !had { w.insert(pos, y); }
    if !had && n == 1 << q() { panic_ok(true); }
    f.insert(&fp(y.0, y.1, sym(2)));
    panic_ok(false);
    if n == 1 << q() { check(had, 9); }
    check(f.len() == w.len(), 4);
    exact(&mut f, &w, 5);
    note(f.len() as u64);
    if had { reach(2); }
    reach(1);
}
/// removal of any item, present or not
pub fn h_c11_remove() {
    merge(64);
    let n = param(2) as usize;
    let v = set(n);
    let mut f = build(&v);
    let y = (split(sym(q())), sym(r()));
    let pos = { let mut p = 0; for x in &v { p += ((x.0 < y.0) | ((x.0 == y.0) & (x.1 < y.1))) as u64; } split(p) as usize };
    let had = split(member(&v, y) as u64) == 1;
    let mut w = v.clone();
    if had { w.remove(pos); }
    f.remove(&fp(y.0, y.1, sym(2)));
    check(f.len() == w.len(), 6);
    exact(&mut f, &w, 7);
    note(f.len() as u64);
    if had { reach(2); }
    reach(1);
}

/// C12: everything observable is a function of the set: one step from a canonical table; params as h_c11, op 0 insert 1 remove 2 clear
pub fn h_c12_step() {
    merge(64);
    let n = param(2) as usize;
    let v = set(n);
    let mut f = build(&v);
    observe(&f, &v);
    let y = (split(sym(q())), sym(r()));
    let pos = { let mut p = 0; for x in &v { p += ((x.0 < y.0) | ((x.0 == y.0) & (x.1 < y.1))) as u64; } split(p) as usize };
    let had = split(member(&v, y) as u64) == 1;
    let mut w = v.clone();
    let it = fp(y.0, y.1, sym(2));
    match param(3) {
        0 => { if !had { assume(n < 1 << q()); w.insert(pos, y); } f.insert(&it); }
        1 => { if had { w.remove(pos); } f.remove(&it); }
        _ => { w.clear(); f.clear(); }
    }
    observe(&f, &w);
    let g = build(&w);
    check(same(&f, &g), 5);
    if had { reach(2); }
    reach(1);
}
fn observe(f: &F, v: &[(u64, u64)]) {
    let cap = 1usize << q();
    check(f.len() == v.len(), 1);
    check(f.is_empty() == v.is_empty(), 2);
    check(f.capacity() == cap && f.quotient_bits() as u32 == q() && f.remainder_bits() as u32 == r(), 3);
    let p = 1.0 - (-(v.len() as f64 / cap as f64) / 2f64.powi(r() as i32)).exp();
    check((f.estimated_fpp() - p).abs() <= 1e-9 * p, 4);
    note(f.len() as u64);
}
/// C12: n arbitrary inserts (in any order, duplicates included) then m inserts or removes, against a set
pub fn h_c12_hist() {
    merge(64);
    let mut f = mk();
    let mut w: Vec<(u64, u64)> = vec![];
    for step in 0..param(2) + param(3) {
        let y = (split(sym(q())), sym(r()));
        let pos = { let mut p = 0; for x in &w { p += ((x.0 < y.0) | ((x.0 == y.0) & (x.1 < y.1))) as u64; } split(p) as usize };
        let had = split(member(&w, y) as u64) == 1;
        let remove = step >= param(2) && split(sym(1)) == 1;
        if remove { f.remove(&fp(y.0, y.1, 0)); if had { w.remove(pos); reach(3); } }
        else { f.insert(&fp(y.0, y.1, 0)); if !had { w.insert(pos, y); } else { reach(2); } }
        check(f.contains(&fp(y.0, y.1, 1)) == !remove, 6);
        observe(&f, &w);
    }
    check(same(&f, &build(&w)), 7);
    f.clear();
    observe(&f, &[]);
    check(same(&f, &mk()), 8);
    reach(1);
}
/// C13: acceptance of every (quotient_bits, remainder_bits) pair
pub fn h_c13() {
    merge(64);
    let (q, r) = (sym(8), sym(8));
    let valid = q > 0 && r > 0 && q + r <= 64 && r <= 61;
    assume(!valid | (q <= 28)); // larger tables do not fit in memory
    panic_ok(!valid);
    let f = F::with_hasher(q as u8, r as u8, Id(0));
    panic_ok(false);
    check(valid, 1);
    check(f.capacity() as u64 == 1 << q, 2);
    check(f.quotient_bits() as u64 == q && f.remainder_bits() as u64 == r, 3);
    check(f.len() == 0 && f.is_empty(), 4);
    reach(1);
}
/// C13: every remainder size (symbolic) with `param(0)` quotient bits, between param(1) and param(2): what is inserted is found, a different fingerprint is not, removal undoes
pub fn h_c13_width() {
    merge(0);
    let qb = param(0);
    let r = sym(6);
    assume(r >= param(1) && r <= param(2));
    let r = split(r);
    let mut f = F::with_hasher(qb as u8, r as u8, Id(0));
    let mk = || { let (q, re, hi) = (split(sym(qb as u32)), sym(r as u32), if qb + r < 64 { sym(1) } else { 0 });
        ((q, re), It { h: [if qb + r < 64 { hi << (qb + r) } else { 0 } | q << r | re, 0] }) };
    let ((fx, x), (fy, y), (fz, z)) = (mk(), mk(), mk());
    let (xy, xz, yz) = (split((fx == fy) as u64) == 1, split((fx == fz) as u64) == 1, split((fy == fz) as u64) == 1);
    check(!f.contains(&x), 5);
    f.insert(&x);
    check(f.contains(&x) && f.contains(&y) == xy, 6);
    f.insert(&y);
    check(f.contains(&x) && f.contains(&y) && f.contains(&z) == (xz | yz), 7);
    check(f.len() as u64 == 2 - xy as u64, 8);
    f.remove(&x);
    check(!f.contains(&x) && f.contains(&y) == !xy, 9);
    check(f.contains(&z) == (yz & !xy), 10);
    note(f.len() as u64);
    reach(1);
}
