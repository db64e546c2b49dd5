#![no_main]
#![allow(static_mut_refs)]
mod sx;
mod bloom;
mod flat;
mod quotient;
mod stream;
mod cuckoo;
mod dom;
mod cms;
mod hll;
mod sim;
mod bits;
mod persist;
mod siz;
mod grow;
use std::ffi::{c_char, CStr};

macro_rules! table { ($($m:ident :: $f:ident),* $(,)?) => {
    $(#[no_mangle] #[inline(never)] pub extern "C" fn $f() { $m::$f() })*
    pub static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($f), $f)),*];
} }
table! { grow::h_c35_bloom, grow::h_c35_cuckoo, grow::h_c36, grow::h_c36_state, siz::h_c30, siz::h_c30_part, siz::h_c30_dd, siz::h_c31_cap, siz::h_c31_entries, siz::h_c31_bits, siz::h_c32, siz::h_c32_est, siz::h_c32_domain, siz::h_c33, siz::h_c34, siz::h_c34_domain,
    bits::h_c28_wide, bits::h_c29_wide, sim::h_c21_many, bloom::h_c02_wide, bloom::h_c03_wide, bloom::h_c01, bloom::h_c02, bloom::h_c02_fpp, bloom::h_c03, bloom::h_c03_fpp, bloom::h_c04,
    cuckoo::h_c07, cuckoo::h_c08, cuckoo::h_c10, cuckoo::h_c09, cuckoo::h_c09_ops,
    stream::h_c05, stream::h_c06, stream::h_c37, dom::h_c38, dom::h_c38_fp,
    quotient::h_c11_contains, quotient::h_c11_insert, quotient::h_c11_remove,
    cms::h_c14, cms::h_c15_min, cms::h_c15_mean, cms::h_c15_median, cms::h_c16_mean, cms::h_c16_median,
    hll::h_c17, hll::h_c17_assoc, hll::h_c17_mismatch, hll::h_c18, hll::h_c19,
    sim::h_c20, sim::h_c20_cmp, sim::h_c21, sim::h_c22, sim::h_c22_window, sim::h_c23, sim::h_c24, sim::h_c25, sim::h_c25_min, sim::h_c25_sip,
    bits::h_c28, bits::h_c28_eq, bits::h_c28_new, bits::h_c28_panic, bits::h_c29, bits::h_c29_panic,
    persist::h_c26, persist::h_c27, persist::h_c26_misc, persist::h_c27_eq, persist::h_c27_eq_cuckoo,
    quotient::h_c12_step, quotient::h_c12_hist, quotient::h_c13, quotient::h_c13_width }

#[no_mangle]
pub extern "C" fn main(argc: i32, argv: *const *const c_char) -> i32 {
    let a: Vec<String> = (0..argc as usize).map(|i| unsafe { CStr::from_ptr(*argv.add(i)).to_string_lossy().into_owned() }).collect();
    let name = a.get(1).cloned().unwrap_or_default();
    let Some(e) = TABLE.iter().find(|e| e.0 == name) else { for e in TABLE { println!("{}", e.0); } return 2; };
    #[cfg(feature = "native")]
    {
        let p = |s: &str| -> Vec<u128> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
        { let mut s = sx::native::ST.lock().unwrap(); s.params = p(&a[2]).into_iter().map(|x| x as u64).collect(); s.vals = p(&a[3]); }
        std::panic::set_hook(Box::new(|i| { eprintln!("{}", i); let ok = sx::native::ST.try_lock().map(|s| s.ok).unwrap_or(false); if ok { sx::native::end(12, "expected panic") } else { sx::native::end(11, "panic") } }));
        (e.1)();
        sx::native::end(0, "completed");
    }
    #[cfg(not(feature = "native"))]
    { (e.1)(); 0 }
}
