//! The simulator's stand-in for rand 0.5.5's thread-local generator: the same
//! type and trait implementations, but every byte comes from `::simhook`.

use {RngCore, CryptoRng, Error};
use rand_core::impls;
use std::rc::Rc;

/// See rand 0.5.5.  `!Send` and `!Sync` like the original.
#[derive(Clone, Debug)]
pub struct ThreadRng {
    _not_send: Rc<()>,
}

/// See rand 0.5.5.
pub fn thread_rng() -> ThreadRng {
    ThreadRng { _not_send: Rc::new(()) }
}

impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        impls::next_u32_via_fill(self)
    }

    fn next_u64(&mut self) -> u64 {
        impls::next_u64_via_fill(self)
    }

    fn fill_bytes(&mut self, dest: &mut [u8]) {
        ::simhook::fill(dest)
    }

    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        ::simhook::fill(dest);
        Ok(())
    }
}

impl CryptoRng for ThreadRng {}
