//! The two entropy sources, both owned by the simulator.
//!
//! *Caller*: what is passed as `R: RngCore + CryptoRng`.
//! *System*: what `rand::thread_rng()`/`OsRng` deliver (see `shim/rand`).
use crate::util::Prng;
use rand::{ChaChaRng, RngCore, SeedableRng};
use std::cell::RefCell;

/// Payload of a panic the simulator injected.
pub struct Injected;
/// Payload of a panic because an operation drew entropy without end.
pub struct Runaway;

#[derive(Clone)]
pub enum Mode {
    /// A healthy stream.
    ChaCha(ChaChaRng),
    /// Always this byte.
    Stuck(u8),
    /// The same block over and over, each draw restarting it.
    Repeat(Vec<u8>),
    /// These chunks first (one per draw, padded by repetition), then healthy.
    Prefix(Vec<Vec<u8>>, ChaChaRng),
}

#[derive(Clone)]
pub struct Source {
    pub mode: Mode,
    /// Panic at this draw (counting from 0).
    pub fail_at: Option<u64>,
    pub draws: u64,
    pub bytes: u64,
    /// What was drawn, if wanted.
    pub record: Option<Vec<Vec<u8>>>,
}

pub const RUNAWAY: u64 = 200_000;

impl Source {
    pub fn new(mode: Mode) -> Source { Source { mode, fail_at: None, draws: 0, bytes: 0, record: None } }
    pub fn seeded(seed: [u8; 32]) -> Source { Source::new(Mode::ChaCha(ChaChaRng::from_seed(seed))) }
    pub fn healthy(seed: u64) -> Source { Source::seeded(Prng::new(seed).seed32()) }
    pub fn stuck(b: u8) -> Source { Source::new(Mode::Stuck(b)) }
    pub fn failing(mut self, at: u64) -> Source { self.fail_at = Some(at); self }

    fn tick(&mut self, n: usize) {
        let d = self.draws;
        self.draws += 1;
        self.bytes += n as u64;
        if self.fail_at == Some(d) {
            std::panic::resume_unwind(Box::new(Injected));
        }
        if self.draws > RUNAWAY {
            std::panic::resume_unwind(Box::new(Runaway));
        }
        crate::baton::yield_point(crate::baton::Point::Entropy);
    }
    pub fn fill(&mut self, dest: &mut [u8]) {
        self.produce(dest);
        if let Some(ref mut r) = self.record { r.push(dest.to_vec()); }
    }
    fn produce(&mut self, dest: &mut [u8]) {
        self.tick(dest.len());
        match self.mode {
            Mode::ChaCha(ref mut r) => r.fill_bytes(dest),
            Mode::Stuck(b) => for x in dest.iter_mut() { *x = b },
            Mode::Repeat(ref v) => for (i, x) in dest.iter_mut().enumerate() { *x = v[i % v.len()] },
            Mode::Prefix(ref mut cs, ref mut r) => {
                if cs.is_empty() {
                    r.fill_bytes(dest)
                } else {
                    let v = cs.remove(0);
                    for (i, x) in dest.iter_mut().enumerate() { *x = v[i % v.len()] }
                }
            }
        }
    }
    fn u32(&mut self) -> u32 {
        if let Mode::ChaCha(_) = self.mode {
            self.tick(4);
            if let Mode::ChaCha(ref mut r) = self.mode { return r.next_u32(); }
        }
        let mut b = [0; 4];
        self.fill(&mut b);
        u32::from_le_bytes(b)
    }
    fn u64(&mut self) -> u64 {
        if let Mode::ChaCha(_) = self.mode {
            self.tick(8);
            if let Mode::ChaCha(ref mut r) = self.mode { return r.next_u64(); }
        }
        let mut b = [0; 8];
        self.fill(&mut b);
        u64::from_le_bytes(b)
    }
}

/// The generator handed to the library by callers.
pub struct SimRng(pub Source);

impl rand_core::RngCore for SimRng {
    fn next_u32(&mut self) -> u32 { self.0.u32() }
    fn next_u64(&mut self) -> u64 { self.0.u64() }
    fn fill_bytes(&mut self, d: &mut [u8]) { self.0.fill(d) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.0.fill(d); Ok(()) }
}
impl rand_core::CryptoRng for SimRng {}

thread_local! {
    static SYSTEM: RefCell<Option<Source>> = RefCell::new(None);
}

fn system_fill(dest: &mut [u8]) {
    // Taken out while in use: a panic or a hand-over inside must not hold the borrow.
    let mut s = SYSTEM.with(|s| s.borrow_mut().take()).unwrap_or_else(|| Source::stuck(0x5a));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.fill(dest)));
    SYSTEM.with(|x| *x.borrow_mut() = Some(s));
    if let Err(e) = r {
        std::panic::resume_unwind(e);
    }
}

pub fn install() { rand::simhook::install(system_fill); }

pub fn set_system(s: Source) { SYSTEM.with(|x| *x.borrow_mut() = Some(s)); }
pub fn system_draws() -> u64 { SYSTEM.with(|x| x.borrow().as_ref().map(|s| s.draws).unwrap_or(0)) }
