//! The bit vector and the packed vector against plain sequences.
use crate::sx::*;
use probabilistic_collections::verif_hooks::{BitVec, BitstringVec};

fn mask(n: u64) -> u64 { if n == 0 { 0 } else { !0 >> (64 - n) } }
/// v holds exactly the low n bits of m
fn same(v: &BitVec, m: u64, n: u64) {
    check(v.len() as u64 == n && v.is_empty() == (n == 0), 1);
    check(v.count_ones() as u64 == ones(m), 2); check(v.count_zeros() as u64 == n - ones(m), 3);
    let b = v.to_bytes();
    check(b.len() as u64 == (n + 7) / 8, 4);
    for i in 0..n {
        check(v.get(i as usize) == Some(m >> i & 1 == 1), 5);
        check(v[i as usize] == (m >> i & 1 == 1), 6);
    }
    for i in 0..b.len() as u64 * 8 { check((b[(i / 8) as usize] >> (7 - i % 8) & 1) as u64 == (m >> i & 1), 7); }
    check(v.get(n as usize).is_none() && v.get(n as usize + 7).is_none() && v.get(usize::MAX).is_none(), 8);
    let (mut i, mut ok) = (0, true);
    for x in v { ok &= x == (m >> i & 1 == 1); i += 1; }
    check(ok && i == n, 9);
}
fn pushed(m: u64, n: u64) -> BitVec { let mut v = BitVec::with_capacity(0); for i in 0..n { v.push(m >> i & 1 == 1); } v }
/// arbitrary contents of n bits, built in one of several ways
fn build(n: u64, way: u64) -> (BitVec, u64) {
    let m = sym(64) & mask(n);
    let v = match way {
        0 => pushed(m, n),
        1 => { let mut v = BitVec::new(n as usize); for i in 0..n { v.set(i as usize, m >> i & 1 == 1); } v }
        2 => { let b: Vec<u8> = (0..(n + 7) / 8).map(|k| { let mut x = 0; for i in 0..8 { x |= ((m >> (8 * k + i) & 1) as u8) << (7 - i); } x }).collect(); let mut v = BitVec::from_bytes(&b); v.truncate(n as usize); v }
        _ => { let mut v = BitVec::from_elem(n as usize, true); for i in 0..n { if m >> i & 1 == 0 { v.set(i as usize, false); } } v }
    };
    (v, m)
}
/// C28: length, way of construction, operations, first operation (99: any)
pub fn h_c28() {
    merge(64);
    let (mut n, cap) = (param(0), param(0) + param(2));
    let (mut v, mut m) = build(n, param(1));
    same(&v, m, n);
    for k in 0..param(2) {
        let b = symb();
        let op = if k == 0 && param(3) != 99 { param(3) } else { split(below(14)) };
        match op {
            0 if n > 0 => { let i = split(below(n)); v.set(i as usize, b); m = m & !(1 << i) | (b as u64) << i; }
            1 if n > 0 => { let i = split(below(n)); v.flip(i as usize); m ^= 1 << i; }
            2 => { v.push(b); m |= (b as u64) << n; n += 1; }
            3 => { let r = v.pop(); if n == 0 { check(r.is_none(), 10); } else { n -= 1; check(r == Some(m >> n & 1 == 1), 11); m &= mask(n); } }
            4 => { let t = split(below(cap + 2)); v.truncate(t as usize); if t < n { n = t; m &= mask(n); } }
            5 => { v.set_all(b); m = if b { mask(n) } else { 0 }; }
            6 => { v.flip_all(); m ^= mask(n); }
            7 | 8 | 9 | 10 => {
                let (o, w) = build(n, (op + k) & 3);
                match op { 7 => { v.union(&o); m |= w } 8 => { v.intersection(&o); m &= w } 9 => { v.difference(&o); m &= !w } _ => { v.symmetric_difference(&o); m ^= w } }
                same(&o, w, n);
            }
            11 => { let a = split(below(40)); if b { v.reserve(a as usize) } else { v.reserve_exact(a as usize) } check(v.capacity() as u64 >= n + a, 12); }
            12 => { let l = split(below(cap + 1)); let (o, w) = build(l, 0); v.clone_from(&o); m = w; n = l; same(&o, m, n); }
            13 => { let c = v.clone(); check(c == v, 13); if n > 0 { v.flip(0); same(&c, m, n); check(c != v, 14); m ^= 1; } }
            _ => {}
        }
        same(&v, m, n);
        check(v == pushed(m, n), 15);
    }
    let (mut i, mut ok) = (0, true);
    for x in v { ok &= x == (m >> i & 1 == 1); i += 1; }
    check(ok && i == n, 16);
    reach(1);
}
/// C28: equality is equality of length and bits
pub fn h_c28_eq() {
    merge(64);
    let (n, l) = (split(below(param(0) + 1)), split(below(param(0) + 1)));
    let ((a, x), (b, y)) = (build(n, param(1)), build(l, param(2)));
    check((a == b) == (n == l && x == y), 1);
    check(a == a.clone(), 2);
    reach(1);
}
/// C28: constructors
pub fn h_c28_new() {
    merge(64);
    let n = split(below(param(0) + 1)); let b = symb();
    same(&BitVec::new(n as usize), 0, n);
    same(&BitVec::from_elem(n as usize, b), if b { mask(n) } else { 0 }, n);
    let v = BitVec::with_capacity(n as usize); same(&v, 0, 0); check(v.capacity() as u64 >= n, 10);
    reach(1);
}
/// C28: out-of-range and mismatched lengths panic, nothing else does
pub fn h_c28_panic() {
    merge(64);
    let n = split(below(12));
    let (mut v, _) = build(n, 0);
    let i = sym(64);
    let l = split(below(12)); let o = BitVec::new(l as usize);
    let op = split(below(7));
    let bad = if op < 3 { i >= n } else { l != n };
    panic_ok(bad);
    match op { 0 => v.set(i as usize, true), 1 => v.flip(i as usize), 2 => { let _ = v[i as usize]; } 3 => v.union(&o), 4 => v.intersection(&o), 5 => v.difference(&o), _ => v.symmetric_difference(&o) }
    panic_ok(false);
    check(!bad, 1);
    reach(1);
}

/// n bits of which those at the ends and next to word boundaries are arbitrary
fn wbits(n: usize) -> Vec<bool> { (0..n).map(|i| if i < 1 || i + 2 > n || i % 64 == 0 || i % 128 == 31 { symb() } else { i % 3 == 1 || i % 7 == 2 }).collect() }
fn wsame(v: &BitVec, m: &[bool]) {
    let n = m.len();
    check(v.len() == n && v.is_empty() == (n == 0), 1);
    let mut c = 0; for b in m { c += *b as usize; }
    check(v.count_ones() == c && v.count_zeros() == n - c, 2);
    let by = v.to_bytes();
    check(by.len() == (n + 7) / 8, 4);
    let (mut ok, mut okb) = (true, true);
    for i in 0..n { ok &= v.get(i) == Some(m[i]); okb &= (by[i / 8] >> (7 - i % 8) & 1 == 1) == m[i]; }
    for i in n..by.len() * 8 { okb &= by[i / 8] >> (7 - i % 8) & 1 == 0; }
    check(ok, 5); check(okb, 7);
    check(v.get(n).is_none(), 8);
    let (mut i, mut ok) = (0, true);
    for x in v { ok &= x == m[i]; i += 1; }
    check(ok && i == n, 9);
}
fn wbuild(m: &[bool], way: u64) -> BitVec {
    if way == 0 { let mut v = BitVec::with_capacity(0); for b in m { v.push(*b); } v } else { let mut v = BitVec::new(m.len()); for i in 0..m.len() { v.set(i, m[i]); } v }
}
/// C28: long bit vectors: length, way of construction, operations
pub fn h_c28_wide() {
    merge(64);
    let n = param(0) as usize;
    let mut m = wbits(n);
    let mut v = wbuild(&m, param(1));
    wsame(&v, &m);
    for k in 0..param(2) {
        let b = symb();
        let at = [0, 1, 31, 32, 63, 64, 255, 256, n / 2, n.max(1) - 1];
        let at = at[split(below(at.len() as u64)) as usize].min(m.len().max(1) - 1);
        match split(below(11)) {
            0 if m.len() > 0 => { v.set(at, b); m[at] = b; }
            1 if m.len() > 0 => { v.flip(at); m[at] = !m[at]; }
            2 => { for i in 0..at + 1 { v.push(b ^ (i % 2 == 1)); m.push(b ^ (i % 2 == 1)); } }
            3 if m.len() > 0 => { for _ in 0..at { check(v.pop() == m.pop(), 10); } }
            4 => { v.truncate(at); m.truncate(at); }
            5 => { v.set_all(b); for x in &mut m { *x = b; } }
            6 => { v.flip_all(); for x in &mut m { *x = !*x; } }
            7 => {
                let w = wbits(m.len()); let o = wbuild(&w, 1 - (param(1) + k) % 2);
                match split(below(4)) { 0 => { v.union(&o); for i in 0..w.len() { m[i] |= w[i]; } } 1 => { v.intersection(&o); for i in 0..w.len() { m[i] &= w[i]; } } 2 => { v.difference(&o); for i in 0..w.len() { m[i] &= !w[i]; } } _ => { v.symmetric_difference(&o); for i in 0..w.len() { m[i] ^= w[i]; } } }
                wsame(&o, &w);
            }
            8 => { let w = wbits(at + 1); let o = wbuild(&w, 0); if k % 2 == 0 { v.clone_from(&o); } else { v = o.clone(); } m = w; wsame(&o, &m); }
            9 => { let c = v.clone(); check(c == v, 13); if m.len() > 0 { v.flip(at); wsame(&c, &m); check(c != v, 14); m[at] = !m[at]; } }
            10 => { v.reserve(at); check(v.capacity() >= m.len() + at, 12); }
            _ => {}
        }
        wsame(&v, &m);
    }
    reach(1);
}

fn same_bs(v: &BitstringVec, m: &[u64], w: u64) {
    check(v.len() == m.len() && v.is_empty() == m.is_empty() && v.bit_count() as u64 == w, 1);
    let mut occ = 0;
    for i in 0..m.len() { check(v.get(i) == m[i], 2); occ += (m[i] != 0) as usize; }
    check(v.occupied_len() == occ, 3);
    let (mut i, mut ok) = (0, true);
    for x in v { ok &= i < m.len() && x == m[i]; i += 1; }
    check(ok && i == m.len(), 4);
}
/// C29: smallest and largest width, length beyond the first word boundary, construction (0 pushes, 1 sets), operations, first operation (99: any)
pub fn h_c29() {
    merge(64);
    let w = param(0) + split(below(param(1) - param(0) + 1));
    let n = (64 / w + param(2)) as usize;
    // beyond six elements only the first and those around the last word boundary are arbitrary
    let mut m: Vec<u64> = (0..n).map(|i| if n <= 6 || i == 0 || i + 5 > n { sym(w as u32) } else { [mask(w), 0, 1][i % 3] }).collect();
    let mut v = if param(3) == 0 { BitstringVec::with_capacity(w as usize, 0) } else { BitstringVec::new(w as usize, n) };
    if param(3) == 0 { for x in &m { v.push(*x); } } else { for i in (0..n).rev() { v.set(i, m[i]); } }
    same_bs(&v, &m, w);
    for k in 0..param(4) {
        let x = sym(w as u32);
        let op = if k == 0 && param(5) != 99 { param(5) } else { split(below(8)) };
        match op {
            0 if m.len() > 0 => { let i = split(below(m.len() as u64)) as usize; v.set(i, x); m[i] = x; }
            1 => { v.push(x); m.push(x); }
            2 if m.len() > 0 => { let r = v.pop(); check(Some(r) == m.pop(), 5); }
            3 => { let t = split(below(m.len() as u64 + 2)) as usize; v.truncate(t); m.truncate(t); }
            4 => { v.clear(); for y in &mut m { *y = 0; } }
            5 => { let c = v.clone(); check(c == v, 6); if m.len() > 0 { let y = m[0] ^ 1; v.set(0, y); same_bs(&c, &m, w); check(c != v, 7); m[0] = y; } }
            6 => { let a = split(below(3)) * 7; if x & 1 == 0 { v.reserve(a as usize) } else { v.reserve_exact(a as usize) } check(v.capacity() >= m.len() + a as usize, 8); }
            7 => { v = BitstringVec::from_elem(w as usize, 3, x); m = vec![x; 3]; }
            _ => {}
        }
        same_bs(&v, &m, w);
    }
    let (mut i, mut ok) = (0, true);
    for x in v { ok &= i < m.len() && x == m[i]; i += 1; }
    check(ok && i == m.len(), 9);
    reach(1);
}
/// C29: indices beyond the length panic, and so does pop from an empty vector
pub fn h_c29_panic() {
    merge(64);
    let n = split(below(4));
    let mut v = BitstringVec::new(7, n as usize);
    let i = sym(64);
    let op = split(below(3));
    let bad = if op < 2 { i >= n } else { n == 0 };
    panic_ok(bad);
    match op { 0 => v.set(i as usize, 5), 1 => { v.get(i as usize); } _ => { v.pop(); } }
    panic_ok(false);
    check(!bad, 1);
    reach(1);
}
/// C29: long packed vectors: width, length, construction (0 pushes, 1 sets), operations
pub fn h_c29_wide() {
    merge(64);
    let (w, n) = (param(0), param(1) as usize);
    let mut m: Vec<u64> = (0..n).map(|i| if i < 1 || i + 1 >= n || i == 256 || i == n / 2 { sym(w as u32) } else { [mask(w), 0, 1, (i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) & mask(w)][i % 4] }).collect();
    let mut v = if param(2) == 0 { BitstringVec::with_capacity(w as usize, 0) } else { BitstringVec::new(w as usize, n) };
    if param(2) == 0 { for x in &m { v.push(*x); } } else { for i in (0..n).rev() { v.set(i, m[i]); } }
    same_bs(&v, &m, w);
    for _ in 0..param(3) {
        let x = sym(w as u32);
        let at = [0, 1, 31, 63, 127, 255, 256, n / 2, n - 1];
        let at = at[split(below(at.len() as u64)) as usize].min(m.len() - 1);
        match split(below(6)) {
            0 => { v.set(at, x); m[at] = x; }
            1 => { v.push(x); m.push(x); }
            2 => { for _ in 0..at { check(Some(v.pop()) == m.pop(), 5); } }
            3 => { v.truncate(at + 1); m.truncate(at + 1); }
            4 => { v.clear(); for y in &mut m { *y = 0; } }
            _ => { let c = v.clone(); check(c == v, 6); let y = m[at] ^ 1; v.set(at, y); same_bs(&c, &m, w); check(c != v, 7); m[at] = y; }
        }
        same_bs(&v, &m, w);
    }
    reach(1);
}
