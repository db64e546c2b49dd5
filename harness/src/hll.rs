//! HyperLogLog against per-bucket maximum ranks.
use crate::flat::{longest_seq, to_words};
use crate::sx::*;
use probabilistic_collections::hyperloglog::HyperLogLog;

type F = HyperLogLog<It, Id>;
fn err(p: u64) -> f64 { 1.04 / (2f64.powi(p as i32).sqrt()) * 1.0001 }
fn mk(p: u64) -> F { F::with_hasher(err(p), Id(0)) }
/// an item with its register (case-split); `bits` hash bits above the register index are arbitrary (0: all), the others zero
fn it(p: u64, bits: u64) -> (It, u64) {
    let h = if bits == 0 { sym(64) } else { sym((p + bits) as u32) };
    let i = split(h & ((1 << p) - 1));
    (It { h: [h, 0] }, i)
}
/// an item with its register and rank, both case-split; every item with at most `bits` nonzero hash bits above the index
fn its(p: u64, bits: u64) -> (It, u64, u64) {
    let i = split(sym(p as u32));
    let r = 1 + split(below(bits + 1));
    let up = if r < bits { sym((bits - r) as u32) << p << r } else { 0 };
    (It { h: [up | ((1u64 << (r - 1)) - 1) << p | i, 0] }, i, r)
}
/// one plus the number of consecutive ones directly above the p index bits
fn rank(h: u64, p: u64) -> u64 { let (mut run, mut n) = (1, 1); for j in p..64 { run &= h >> j & 1; n += run; } n }
fn same(a: &F, b: &F) -> bool { let (x, y) = (to_words(a), to_words(b)); if x.len() != y.len() { return false; } let mut ok = true; for i in 0..x.len() { ok &= x[i] == y[i]; } ok }

/// C18: parameters p, insertions, hash bits above the index (0: all), case-split on ranks
pub fn h_c18() {
    merge(64);
    let (p, n) = (param(0), param(1));
    let mut f = mk(p);
    let mut m = vec![0u64; 1 << p];
    let z = longest_seq(&f);
    check(z.len() == m.len(), 1);
    for _ in 0..n {
        let (x, i, r) = if param(3) == 1 { its(p, param(2)) } else { let (x, i) = it(p, param(2)); let r = rank(x.h[0], p); (x, i, r) };
        let before = longest_seq(&f);
        f.insert(&x);
        let after = longest_seq(&f);
        for j in 0..m.len() { check(after[j] >= before[j], 2); if j as u64 != i { check(after[j] == before[j], 3); } }
        let i = i as usize;
        m[i] = sel(r > m[i], r, m[i]);
        // every remaining bit is one: the rank is past the end of the hash
        let full = r == 64 - p + 1;
        check((after[i] == m[i]) | (full & (after[i] >= m[i]) & (after[i] <= 65)), 4);
        m[i] = after[i];
        note(after[i]);
    }
    f.clear();
    for v in longest_seq(&f) { check(v == 0, 5); }
    reach(1);
}
/// C17: parameters p, items in a, items in b, hash bits above the index (0: all; otherwise len is compared too)
pub fn h_c17() {
    merge(64);
    let (p, bits) = (param(0), param(3));
    let a: Vec<(It, u64)> = (0..param(1)).map(|_| it(p, bits)).collect();
    let b: Vec<(It, u64)> = (0..param(2)).map(|_| it(p, bits)).collect();
    let fill = |v: &[&(It, u64)]| { let mut f = mk(p); for x in v { f.insert(&x.0); } f };
    let (ra, rb): (Vec<_>, Vec<_>) = (a.iter().collect(), b.iter().collect());
    let (fa, fb) = (fill(&ra), fill(&rb));
    let all: Vec<_> = ra.iter().chain(rb.iter()).copied().collect();
    let rev: Vec<_> = all.iter().rev().copied().collect();
    let dup: Vec<_> = all.iter().chain(ra.iter()).copied().collect();
    let u = fill(&all);
    check(same(&u, &fill(&rev)), 1);
    check(same(&u, &fill(&dup)), 2);
    let mut ab = fa.clone(); ab.merge(&fb);
    let mut ba = fb.clone(); ba.merge(&fa);
    check(same(&ab, &u), 3); check(same(&ba, &u), 4);
    check(same(&fa, &fill(&ra)) & same(&fb, &fill(&rb)), 5); // arguments unchanged
    let mut aa = ab.clone(); aa.merge(&fa); aa.merge(&ab);
    check(same(&aa, &u), 6);
    let mut e = mk(p); e.merge(&ab);
    check(same(&e, &u), 7);
    let mut ae = ab.clone(); ae.merge(&mk(p));
    check(same(&ae, &u), 8);
    if bits > 0 {
        let l = u.len();
        check(ab.len() == l && ba.len() == l && fill(&rev).len() == l && fill(&dup).len() == l && u.is_empty() == ab.is_empty(), 9);
    }
    ab.clear();
    check(same(&ab, &mk(p)) && ab.is_empty() && ab.len() == 0.0, 10);
    for x in &all { ab.insert(&x.0); }
    check(same(&ab, &u), 11);
    reach(1);
}
/// C17: three counters: merging is associative
pub fn h_c17_assoc() {
    merge(64);
    let (p, bits) = (param(0), param(3));
    let f: Vec<F> = (0..3).map(|_| { let mut f = mk(p); f.insert(&it(p, bits).0); f }).collect();
    let mut l = f[0].clone(); l.merge(&f[1]); l.merge(&f[2]);
    let mut r = f[1].clone(); r.merge(&f[2]); let mut s = f[0].clone(); s.merge(&r);
    check(same(&l, &s), 1);
    reach(1);
}
/// C17: merge accepts exactly equal precision and equal hashers
pub fn h_c17_mismatch() {
    merge(64);
    let (p, q) = (1 + split(below(3)), 1 + split(below(3)));
    let h = split(sym(1)) as usize;
    let mut a = mk(p); let mut b = F::with_hasher(err(q), Id(h));
    if split(sym(1)) == 1 { a.insert(&it(p, 0).0); }
    if split(sym(1)) == 1 { b.insert(&It { h: [sym(64), sym(64)] }); }
    let ok = p == q && h == 0;
    panic_ok(!ok);
    a.merge(&b);
    panic_ok(false);
    check(ok, 1);
    reach(1);
}
fn alpha(p: u64) -> f64 { match p { 4 => 0.673, 5 => 0.697, 6 => 0.709, _ => 0.7213 / (1.0 + 1.079 / (1u64 << p) as f64) } }
/// C19: p, registers 0..param(1) filled with rank param(2), then param(3) items of param(4) bits above the index; param(5): each in its own register
pub fn h_c19() {
    merge(0);
    let (p, nb) = (param(0), param(1));
    let mut f = mk(p);
    check(f.len() == 0.0 && f.is_empty(), 1);
    let m = 1u64 << p;
    let mut reg = vec![0u64; m as usize];
    for i in 0..nb { let h = i | ((1 << (param(2) - 1)) - 1) << p; f.insert(&It { h: [h, 0] }); reg[i as usize] = param(2); }
    let mut last: Option<(bool, f64)> = None;
    for k in 0..=param(3) {
        if k > 0 {
            let (mut x, mut idx, r) = its(p, param(4));
            if param(5) == 1 { assume(idx == 0); idx = (nb + k - 1) & (m - 1); x.h[0] |= idx; }
            f.insert(&x);
            let r = if r == 64 - p + 1 { r.max(longest_seq(&f)[idx as usize].min(65)) } else { r };
            let i = idx as usize; reg[i] = reg[i].max(r);
        }
        if nb + k == 0 { continue; }
        let zeros = reg.iter().filter(|x| **x == 0).count();
        let mut s = 0.0; for x in &reg { s += 0.5f64.powi(*x as i32); }
        let raw = alpha(p) * (m * m) as f64 / s;
        let lin = raw <= 2.5 * m as f64 && zeros > 0;
        let want = if lin { m as f64 * (m as f64 / zeros as f64).ln() } else { raw };
        let l = f.len();
        check(l.is_finite() && l > 0.0, 2);
        check(!f.is_empty(), 3);
        check(close(l, want) || (close(raw, 2.5 * m as f64) && (close(l, raw) || close(l, m as f64 * (m as f64 / zeros as f64).ln()))), 4);
        if let Some((b, v)) = last { if b == lin { check(l >= v * (1.0 - 1e-12), 5); } }
        last = Some((lin, l));
        if lin { reach(2); } else { reach(3); }
    }
    f.clear();
    check(f.len() == 0.0 && f.is_empty(), 6);
    reach(1);
}
