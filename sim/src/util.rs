//! Small deterministic tools: the simulator's own PRNG, hashing, hex.
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;

/// The simulator's generator (splitmix64): every choice of a run comes from one of these.
#[derive(Clone, Debug)]
pub struct Prng(pub u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// Hash of a list of numbers.
pub fn mixes(xs: &[u64]) -> u64 {
    xs.iter().fold(0x5157_2d2e_01d5_77a9, |h, x| mix(h ^ mix(*x)))
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for x in b {
        h = (h ^ u64::from(*x)).wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h ^ (b.len() as u64))
}

impl Prng {
    pub fn new(seed: u64) -> Prng { Prng(mix(seed)) }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.u64() % n } }
    pub fn idx(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, pct: u64) -> bool { self.below(100) < pct }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.idx(xs.len()); &xs[i] }
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let t: u64 = ws.iter().sum();
        let mut x = self.below(t.max(1));
        for (i, w) in ws.iter().enumerate() {
            if x < *w { return i; }
            x -= *w;
        }
        0
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let x = self.u64().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&x[..n]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { let mut v = vec![0; n]; self.fill(&mut v); v }
    pub fn seed32(&mut self) -> [u8; 32] { let mut b = [0; 32]; self.fill(&mut b); b }
    pub fn scalar(&mut self) -> Scalar {
        let mut b = [0; 64];
        self.fill(&mut b);
        Scalar::from_bytes_mod_order_wide(&b)
    }
    pub fn point(&mut self) -> RistrettoPoint {
        let mut b = [0; 64];
        self.fill(&mut b);
        RistrettoPoint::from_uniform_bytes(&b)
    }
    pub fn fork(&mut self) -> Prng { Prng::new(self.u64()) }
}

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let s = s.as_bytes();
    if s.len() % 2 != 0 { return None; }
    let d = |c: u8| (c as char).to_digit(16).map(|x| x as u8);
    s.chunks(2).map(|c| Some(d(c[0])? << 4 | d(c[1])?)).collect()
}

pub fn a32(b: &[u8]) -> [u8; 32] { let mut x = [0; 32]; x.copy_from_slice(&b[..32]); x }
pub fn pt(b: &[u8]) -> Option<RistrettoPoint> {
    if b.len() != 32 { return None; }
    CompressedRistretto(a32(b)).decompress()
}
pub fn sc(b: &[u8]) -> Option<Scalar> {
    if b.len() != 32 { return None; }
    Scalar::from_canonical_bytes(a32(b))
}
pub fn pb(p: &RistrettoPoint) -> [u8; 32] { p.compress().to_bytes() }

pub fn secs(d: std::time::Duration) -> f64 { d.as_secs() as f64 + f64::from(d.subsec_nanos()) / 1e9 }

/// The eight-byte parts of a scalar.
pub fn words(x: &Scalar) -> Vec<u64> {
    x.as_bytes().chunks(8).map(|c| { let mut b = [0; 8]; b.copy_from_slice(c); u64::from_le_bytes(b) }).collect()
}

/// Independent draws that should be uniform: every bit below the order's has to come up
/// both ways (by chance one stays put in less than 2^-80 of the cases).
pub fn unvaried(draws: &[[u8; 32]]) -> Option<String> {
    assert!(draws.len() >= 96);
    for i in 0..252 {
        let n = draws.iter().filter(|d| d[i / 8] >> (i % 8) & 1 == 1).count();
        if n == 0 || n == draws.len() { return Some(format!("bit {} is always {} in {} draws", i, n.min(1), draws.len())); }
    }
    let mut seen = std::collections::HashSet::new();
    for d in draws { if !seen.insert(d) { return Some(format!("{} comes up twice in {} draws", hex(d), draws.len())); } }
    None
}
