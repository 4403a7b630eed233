//! Where the operating system's entropy comes from under the simulator.

use std::sync::atomic::{AtomicUsize, ATOMIC_USIZE_INIT, Ordering};

static HOOK: AtomicUsize = ATOMIC_USIZE_INIT;

/// Install the simulator's entropy source.
pub fn install(f: fn(&mut [u8])) {
    HOOK.store(f as usize, Ordering::SeqCst);
}

pub(crate) fn fill(dest: &mut [u8]) {
    let p = HOOK.load(Ordering::SeqCst);

    if p == 0 {
        panic!("system entropy was used outside of the simulation");
    }
    let f: fn(&mut [u8]) = unsafe { ::std::mem::transmute(p) };

    f(dest)
}
