pub use rand_real::*;
use std::cell::Cell;

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0x5EED) };
    // (how many draws are extreme, their value)
    static EXTREME: Cell<(u32, u64)> = const { Cell::new((0, 0)) };
}
/// Seeds this thread's generator.
pub fn verif_seed(s: u64) { STATE.with(|c| c.set(s)); EXTREME.with(|c| c.set((0, 0))) }
/// The next n draws have all bits 0 or all bits 1; then they are pseudo-random again
/// (so that code that rejects such a draw goes on).
pub fn verif_extreme(n: u32, ones: bool) { EXTREME.with(|c| c.set((n, if ones { u64::MAX } else { 0 }))) }

#[derive(Clone, Debug, Default)]
pub struct ThreadRng(());
pub fn thread_rng() -> ThreadRng { ThreadRng(()) }
pub fn random<T>() -> T where distributions::Standard: distributions::Distribution<T> { thread_rng().gen() }

fn next() -> u64 {
    let (n, v) = EXTREME.with(|c| c.get());
    if n > 0 { EXTREME.with(|c| c.set((n - 1, v))); return v }
    STATE.with(|c| {
        let s = c.get().wrapping_add(0x9E37_79B9_7F4A_7C15);
        c.set(s);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    })
}
impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 { (next() >> 32) as u32 }
    fn next_u64(&mut self) -> u64 { next() }
    fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(8) { let b = next().to_le_bytes(); let n = c.len(); c.copy_from_slice(&b[..n]) } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { self.fill_bytes(d); Ok(()) }
}
impl CryptoRng for ThreadRng {}
pub mod rngs { pub use rand_real::rngs::*; pub use super::ThreadRng; }
pub mod prelude { pub use rand_real::prelude::*; pub use super::{random, thread_rng, ThreadRng}; }
