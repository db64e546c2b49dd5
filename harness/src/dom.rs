//! C38: constructors reject exactly the arguments their documentation excludes.
use crate::sx::*;
use probabilistic_collections::cuckoo::CuckooFilter;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::SipHasherBuilder;

const HB: [Id; 2] = [Id(0), Id(1)];
type C = CuckooFilter<It, Id>;
type D = CuckooFilter<u64, SipHasherBuilder>;
fn fpp(i: u32) -> f64 { param(i) as f64 / 1000.0 }
fn ok(valid: bool) { panic_ok(false); check(valid, 1); reach(1) }
/// parameters kind, fpp * 1000, smallest and largest possible fingerprint size. One bit is documented as allowed and rejected by the code: left open.
pub fn h_c38() {
    merge(0);
    let n = split(below(6)) as usize;
    match param(0) {
        0 => { panic_ok(n == 0); let f = C::with_hashers(n, HB); ok(n > 0); check(f.is_empty() && f.capacity() >= n, 2) }
        1 => { panic_ok(n == 0); let f = CuckooFilter::<u64>::new(n); ok(n > 0); check(f.is_empty() && f.capacity() >= n, 2) }
        2 | 3 => {
            let (e, b) = (split(below(6)) as usize, sym(8)); assume(b != 1);
            let valid = (n > 0) & (e > 0) & (b >= 1) & (b <= 64);
            panic_ok(!valid);
            let b = split(b) as usize;
            if param(0) == 2 { let f = C::from_parameters_with_hashers(n, b, e, HB); ok(valid); check(f.capacity() >= n && f.fingerprint_bit_count() == b && f.entries_per_index() == e, 2) }
            else { let f = D::from_parameters(n, b, e); ok(valid); check(f.capacity() >= n && f.fingerprint_bit_count() == b && f.entries_per_index() == e, 2) }
        }
        4 | 5 => {
            let e = split(below(6)) as usize;
            let valid = n > 0 && e > 0;
            panic_ok(!valid);
            if param(0) == 4 { let f = C::from_entries_per_index_with_hashers(n, fpp(1), e, HB); ok(valid); check(f.capacity() >= n && f.entries_per_index() == e, 2) }
            else { let f = D::from_entries_per_index(n, fpp(1), e); ok(valid); check(f.capacity() >= n && f.entries_per_index() == e, 2) }
        }
        6 | 7 => {
            let b = sym(8); assume(b != 1);
            let valid = (n > 0) & (b >= param(2)) & (b <= 64);
            assume(!valid | (b <= param(3))); // larger ones: entries by the million
            panic_ok(!valid);
            let b = split(b) as usize;
            if param(0) == 6 { let f = C::from_fingerprint_bit_count_with_hashers(n, fpp(1), b, HB); ok(valid); check(f.capacity() >= n && f.fingerprint_bit_count() == b, 2) }
            else { let f = D::from_fingerprint_bit_count(n, fpp(1), b); ok(valid); check(f.capacity() >= n && f.fingerprint_bit_count() == b, 2) }
        }
        8 => { panic_ok(n == 0); let f = QuotientFilter::<It, Id>::from_fpp_with_hasher(n, fpp(1), Id(0)); ok(n > 0); check(f.capacity() >= n, 2) }
        9 => { panic_ok(n == 0); let f = QuotientFilter::<u64>::from_fpp(n, fpp(1)); ok(n > 0); check(f.capacity() >= n, 2) }
        _ => {
            let (q, r) = (sym(8), sym(8));
            let valid = (q >= 1) & (r >= 1) & (q + r <= 64) & (r <= 61);
            assume(!valid | (q <= 6));
            panic_ok(!valid);
            let (q, r) = if split(valid as u64) == 1 { (split(q), split(r)) } else { (q, r) };
            let f = QuotientFilter::<u64>::new(q as u8, r as u8); ok(valid); check(f.capacity() == 1 << q && f.quotient_bits() as u64 == q && f.remainder_bits() as u64 == r, 2)
        }
    }
}
/// every double outside (0, 1), NaN and the infinities included. parameter: constructor
pub fn h_c38_fp() {
    merge(0);
    let e = f64::from_bits(sym(64));
    assume(!(e > 0.0 && e < 1.0));
    panic_ok(true);
    match param(0) {
        0 => { let f = HyperLogLog::<It, Id>::with_hasher(e, Id(0)); note(f.is_empty() as u64) }
        1 => { let f = HyperLogLog::<u64>::new(e); note(f.is_empty() as u64) }
        2 => { let f = QuotientFilter::<It, Id>::from_fpp_with_hasher(3, e, Id(0)); note(f.len() as u64) }
        _ => { let f = QuotientFilter::<u64>::from_fpp(3, e); note(f.len() as u64) }
    }
    check(false, 1);
}
