//! Stand-in for `rand_xorshift`: a generator without state whose every draw is arbitrary.
use rand::{RngCore, SeedableRng};
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct XorShiftRng { _p: () }
impl RngCore for XorShiftRng {
    fn next_u32(&mut self) -> u32 { rand::nd::bits(32) as u32 }
    fn next_u64(&mut self) -> u64 { rand::nd::bits(64) }
}
impl SeedableRng for XorShiftRng { type Seed = [u8; 16]; fn from_seed(_: [u8; 16]) -> Self { XorShiftRng { _p: () } } }
