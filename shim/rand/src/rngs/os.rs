//! The simulator's stand-in for rand 0.5.5's `OsRng`.

use rand_core::{CryptoRng, RngCore, Error, impls};

/// See rand 0.5.5.
#[derive(Clone, Debug)]
pub struct OsRng;

impl OsRng {
    /// See rand 0.5.5.
    pub fn new() -> Result<OsRng, Error> {
        Ok(OsRng)
    }
}

impl CryptoRng for OsRng {}

impl RngCore for OsRng {
    fn next_u32(&mut self) -> u32 {
        impls::next_u32_via_fill(self)
    }

    fn next_u64(&mut self) -> u64 {
        impls::next_u64_via_fill(self)
    }

    fn fill_bytes(&mut self, dest: &mut [u8]) {
        ::simhook::fill(dest)
    }

    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        ::simhook::fill(dest);
        Ok(())
    }
}
