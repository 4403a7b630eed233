//! Setting up: parameters and keys from seeds, on every interface, in any order and
//! after any failures; and from entropy sources that misbehave before they recover.
use crate::ctx::*;
use crate::entropy::*;
use crate::golden;
use crate::guard::*;
use crate::lab::*;
use crate::refimpl::{self as rf, Key, Params};
use crate::surface::{self as sf, Kind};
use crate::util::*;
use aeonflux::{amacs, elgamal};
use curve25519_dalek::constants::{RISTRETTO_BASEPOINT_COMPRESSED, RISTRETTO_BASEPOINT_POINT};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::IsIdentity;
use rand::ChaChaRng;
use rand::SeedableRng;
use signal_credential::issuer::SignalIssuer;
use signal_credential::parameters::SystemParameters;

pub fn generate(seed: u64, thorough: bool) -> Vec<Step> {
    let ops = [("agree", 30), ("keys", 25), ("differ", 25), ("bad-params", 30), ("bad-keys", 30), ("aborted", 15), ("several", 10), ("golden", 4), ("crowd", 6), ("widths", 2)];
    super::cases(&ops, if thorough { 80 } else { 40 }, seed)
}

fn odd_seed(rng: &mut Prng) -> [u8; 32] {
    let mut s = rng.seed32();
    match rng.below(8) {
        0 => s = [0; 32],
        1 => s = [0xff; 32],
        2 => { s = [0; 32]; s[rng.idx(32)] = 1 << rng.below(8); }
        3 => { for (i, x) in s.iter_mut().enumerate() { *x = i as u8; } }
        _ => {}
    }
    s
}

fn ref_params(seed: &[u8; 32]) -> Params { Params::generate(&mut ChaChaRng::from_seed(*seed)) }

/// The Rust interface, with entropy from `src`.
fn params_from(src: Source) -> (Result<Vec<u8>, Fail>, u64) {
    let mut r = SimRng(src);
    let x = guarded(|| SystemParameters::hunt_and_peck(&mut r).to_bytes());
    (x, r.0.draws)
}

fn sound_params(ctx: &mut Ctx, b: &[u8], what: &str) -> Option<Params> {
    let p = match Params::parse(b) { Some(p) => p, None => { ctx.bad(&["C12"], "parameters-undecodable", format!("{}: {}", what, hex(b))); return None; } };
    if p.g != RISTRETTO_BASEPOINT_POINT { ctx.bad(&["C12"], "other-base-point", format!("{}: {}", what, hex(b))); }
    if p.h.is_identity() || p.g.is_identity() || p.g == p.h { ctx.bad(&["C12"], "degenerate-parameters", format!("{}: {}", what, hex(b))); return None; }
    if SystemParameters::from_bytes(b).is_err() { ctx.bad(&["C12"], "parameters-not-restorable", format!("{}: {}", what, hex(b))); return None; }
    Some(p)
}

/// A key pair that is what it should be, and works.
fn sound_key(ctx: &mut Ctx, p: &Params, kp: &[u8], rng: &mut Prng, what: &str, served: bool) {
    let k = match Key::parse(&rf::cat(&[&p.bytes(), kp])) { Some(k) => k, None => { ctx.bad(&["C12"], "key-undecodable", format!("{}: {}", what, hex(kp))); return; } };
    if k.big != p.h * k.x1 { ctx.bad(&["C12"], "public-does-not-match-secret", format!("{}: {}", what, hex(kp))); return; }
    if k.x0 == Scalar::zero() || k.x1 == Scalar::zero() || k.x0 == k.x1 && what.starts_with("seed") { ctx.bad(&["C12"], "degenerate-key", format!("{}: {}", what, hex(kp))); return; }
    if !served { return; }
    match Lab::with(k) {
        Ok(l) => {
            if l.iparams().to_bytes() != kp[..32].to_vec() { ctx.bad(&["C12"], "published-parameters-differ", format!("{}: {}", what, hex(kp))); }
            if let Err(e) = l.serves(rng.u64()) { ctx.bad(&["C12"], "key-does-not-work", format!("{}: {}: {}", what, hex(kp), e)); }
        }
        Err(e) => ctx.bad(&["C12"], "key-not-restorable", format!("{}: {}: {:?}", what, hex(kp), e)),
    }
}

pub fn execute(run: &Run, ctx: &mut Ctx) {
    for (i, s) in run.steps.iter().enumerate() {
        ctx.step = i;
        ctx.report.sim_ms += 10;
        ctx.op();
        let mut rng = Prng::new(s.seed);
        // Setup must not depend on anything but the seed: the system's entropy is another each time.
        set_system(match rng.below(4) { 0 => Source::stuck(rng.below(256) as u8), _ => Source::healthy(rng.u64()) });
        step(ctx, s, &mut rng);
    }
}

fn get(ctx: &mut Ctx, what: &str, r: Result<Vec<u8>, Fail>) -> Option<Vec<u8>> {
    match r { Ok(b) => Some(b), Err(e) => { ctx.bad(&["C12"], "setup-fails", format!("{}: {:?}", what, e)); None } }
}

fn step(ctx: &mut Ctx, s: &Step, rng: &mut Prng) {
    match &s.op[..] {
        "agree" | "keys" => {
            let seed = odd_seed(rng);
            let want = ref_params(&seed);
            let ks = sf::kinds();
            let k = *rng.pick(&ks);
            let what = format!("seed {} ({:?})", hex(&seed), k);
            let b = match get(ctx, &what, sf::params_create(k, &seed)) { Some(b) => b, None => return };
            ctx.ev(&[hash_bytes(&b)], || format!("{}: {}", what, hex(&b)));
            ctx.state(mixes(&[1, k as u64, seed[0] as u64]));
            sound_params(ctx, &b, &what);
            if b != want.bytes() { ctx.bad(&["C12", "C11"], "parameters-differ", format!("{}: {} instead of {}", what, hex(&b), hex(&want.bytes()))); return; }
            if s.op == "agree" {
                for k in &ks { if let Some(c) = get(ctx, &what, sf::params_create(*k, &seed)) { if c != b { ctx.bad(&["C12", "C11"], "interfaces-disagree", format!("{} and {:?}", what, k)); } } }
                return;
            }
            let pr = if rng.chance(70) { want } else { random_params(rng) };
            let seed2 = odd_seed(rng);
            let what = format!("seed {} ({:?}, key)", hex(&seed2), k);
            let kp = match get(ctx, &what, sf::issuer_create(k, &pr.bytes(), &seed2)) { Some(b) => b, None => return };
            let want = Key::generate(pr, &mut ChaChaRng::from_seed(seed2));
            if kp != want.keypair() { ctx.bad(&["C12", "C11"], "keys-differ", format!("{}: {} instead of {}", what, hex(&kp), hex(&want.keypair()))); }
            let full = rng.chance(30);
            sound_key(ctx, &pr, &kp, rng, &what, full);
            let j = *rng.pick(&ks);
            if let Some(i) = get(ctx, &what, sf::issuer_new(j, &pr.bytes(), &kp)) {
                if i != want.bytes() { ctx.bad(&["C12", "C11"], "issuer-differs", what.clone()); }
                for j in &ks { if let Some(p) = get(ctx, &what, sf::issuer_params(*j, &i)) { if p[..] != kp[..32] { ctx.bad(&["C12", "C11"], "published-parameters-differ", format!("{} ({:?})", what, j)); } } }
            }
        }
        "widths" => {
            // Every bit of a key depends on its seed.
            let p = ref_params(&rng.seed32());
            let k = *rng.pick(&sf::kinds());
            let (mut x0, mut x1, mut eg, mut own) = (vec![], vec![], vec![], vec![]);
            let mut one = SimRng(Source::healthy(rng.u64()));
            for _ in 0..96 {
                match sf::issuer_create(k, &p.bytes(), &rng.seed32()) {
                    Ok(ref b) if b.len() == 96 => { x0.push(a32(&b[32..])); x1.push(a32(&b[64..])); }
                    e => { ctx.bad(&["C12"], "not-set-up", format!("{:?}", e)); return; }
                }
                match guarded(|| elgamal::Keypair::generate(&mut one).to_bytes()) { Ok(b) => eg.push(a32(&b)), Err(e) => { ctx.bad(&["C12"], "not-set-up", format!("{:?}", e)); return; } }
                match guarded(|| amacs::SecretKey::new(1, &mut one).to_bytes()) { Ok(b) => own.push(a32(&b[32..])), Err(e) => { ctx.bad(&["C12"], "not-set-up", format!("{:?}", e)); return; } }
            }
            for (d, what) in &[(x0, "x0 of an issuer"), (x1, "x1 of an issuer"), (eg, "an elGamal secret key"), (own, "x1 of a MAC key")] {
                if let Some(e) = unvaried(d) { ctx.bad(&["C12"], "key-not-uniform", format!("{} ({:?}): {}", what, k, e)); }
            }
        }
        "differ" => {
            // Seeds that differ little.
            let a = odd_seed(rng);
            let mut b = a;
            let bit = rng.idx(256);
            b[bit / 8] ^= 1 << (bit % 8);
            let k = *rng.pick(&sf::kinds());
            let (x, y) = match (sf::params_create(k, &a), sf::params_create(k, &b)) { (Ok(x), Ok(y)) => (x, y), _ => { ctx.bad(&["C12"], "setup-fails", hex(&a)); return; } };
            if x[32..] == y[32..] { ctx.bad(&["C12"], "same-parameters-from-different-seeds", format!("{} bit {} ({:?})", hex(&a), bit, k)); }
            let (p, q) = match (sf::issuer_create(k, &x, &a), sf::issuer_create(k, &x, &b)) { (Ok(x), Ok(y)) => (x, y), _ => { ctx.bad(&["C12"], "setup-fails", hex(&a)); return; } };
            for o in &[0usize, 32, 64] { if p[*o..o + 32] == q[*o..o + 32] { ctx.bad(&["C12"], "same-key-from-different-seeds", format!("{} bit {} ({:?}) at {}", hex(&a), bit, k, o)); } }
            ctx.ev(&[hash_bytes(&x), hash_bytes(&p)], || format!("seeds differing in bit {}", bit));
            ctx.state(mixes(&[2, bit as u64, k as u64]));
        }
        "bad-params" => {
            // The source returns rubbish for a while, then recovers.
            let n = match rng.below(24) { 0 => rng.range(100, 1200), 1 => rng.range(12, 100), _ => rng.range(1, 12) };
            let mut chunks = Vec::new();
            for _ in 0..n {
                chunks.push(match rng.below(7) {
                    0 => { ctx.count("fault.entropy: zeros"); vec![0; 32] }
                    1 => { ctx.count("fault.entropy: ones"); vec![0xff; 32] }
                    2 | 3 => { ctx.count("fault.entropy: base point"); RISTRETTO_BASEPOINT_COMPRESSED.to_bytes().to_vec() }
                    4 => { ctx.count("fault.entropy: undecodable"); let mut b = pb(&rng.point()); b[0] |= 1; b.to_vec() }
                    5 => { ctx.count("fault.entropy: non-canonical"); let mut b = rng.seed32(); b[31] |= 0x80; b.to_vec() }
                    _ => { ctx.count("fault.entropy: stuck byte"); vec![rng.below(256) as u8; 32] }
                });
            }
            let src = Source::new(Mode::Prefix(chunks.clone(), ChaChaRng::from_seed(rng.seed32())));
            let (r, draws) = params_from(src);
            let what = format!("after {} draws: {}", n, chunks.iter().take(12).map(|c| hex(c)).collect::<Vec<_>>().join(" "));
            ctx.ev(&[draws, r.is_ok() as u64], || format!("parameters {}: {} draws", what, draws));
            ctx.state(mixes(&[3, n, draws]));
            let b = match get(ctx, &what, r) { Some(b) => b, None => return };
            if let Some(p) = sound_params(ctx, &b, &what) {
                if rng.chance(20) { if let Some(kp) = get(ctx, &what, sf::issuer_create(Kind::Raw, &b, &rng.seed32())) { sound_key(ctx, &p, &kp, rng, &what, true); } }
            }
        }
        "bad-keys" => {
            let p = random_params(rng);
            let n = match rng.below(24) { 0 => rng.range(100, 1200), 1 => rng.range(12, 100), _ => rng.range(1, 6) };
            let long = n > 6;
            let mut chunks = Vec::new();
            for _ in 0..n {
                chunks.push(match rng.below(if long { 3 } else { 5 }) {
                    0 | 1 => { ctx.count("fault.entropy: zeros"); vec![0; 64] }
                    // A multiple of the group order, which is zero too.
                    2 => { ctx.count("fault.entropy: group order"); let mut v = (-Scalar::one()).to_bytes().to_vec(); v[0] += 1; v.extend(vec![0; 32]); v }
                    3 => { ctx.count("fault.entropy: ones"); vec![0xff; 64] }
                    _ => rng.bytes(64),
                });
            }
            let what = format!("after {} draws: {}", n, chunks.iter().take(12).map(|c| hex(c)).collect::<Vec<_>>().join(" "));
            let src = Source::new(Mode::Prefix(chunks, ChaChaRng::from_seed(rng.seed32())));
            let sp = SystemParameters::from_bytes(&p.bytes()).unwrap();
            let r = guarded(|| SignalIssuer::create(sp, &mut SimRng(src)));
            ctx.ev(&[n, r.is_ok() as u64], || format!("key {}", what));
            ctx.state(mixes(&[4, n]));
            match r {
                Ok(i) => {
                    let kp = i.issuer.keypair.to_bytes();
                    if i.issuer.system_parameters.to_bytes() != p.bytes() { ctx.bad(&["C12"], "issuer-under-other-parameters", what.clone()); }
                    sound_key(ctx, &p, &kp, rng, &what, true);
                }
                Err(e) => ctx.bad(&["C12"], "setup-fails", format!("{}: {:?}", what, e)),
            }
        }
        "aborted" => {
            // Attempts cut short leave nothing behind which later setups would notice.
            let seed = odd_seed(rng);
            for at in 0..3 {
                let mut r = SimRng(Source::healthy(rng.u64()).failing(at));
                let _ = guarded(|| SystemParameters::hunt_and_peck(&mut r));
                let h = rng.point();
                let mut r = SimRng(Source::healthy(rng.u64()).failing(at));
                let _ = guarded(|| amacs::Keypair::new(&h, &mut r));
                ctx.count("fault.setup aborted");
            }
            let what = format!("seed {} after aborted setups", hex(&seed));
            let b = match get(ctx, &what, sf::params_create(Kind::Raw, &seed)) { Some(b) => b, None => return };
            if b != ref_params(&seed).bytes() { ctx.bad(&["C12"], "parameters-differ", what.clone()); }
            let kp = match get(ctx, &what, sf::issuer_create(Kind::Raw, &b, &seed)) { Some(b) => b, None => return };
            if kp != Key::generate(ref_params(&seed), &mut ChaChaRng::from_seed(seed)).keypair() { ctx.bad(&["C12"], "keys-differ", what.clone()); }
            ctx.ev(&[hash_bytes(&b)], || what.clone());
        }
        "several" => {
            // Keys for several attributes.
            let n = rng.below(5) as usize;
            let h = rng.point();
            let mut chunks = Vec::new();
            for _ in 0..rng.below(4) { chunks.push(if rng.chance(60) { ctx.count("fault.entropy: zeros"); vec![0; 64] } else { rng.bytes(64) }); }
            let src = Source::new(Mode::Prefix(chunks, ChaChaRng::from_seed(rng.seed32())));
            let r = guarded(|| { let k = amacs::SecretKey::new(n, &mut SimRng(src)); let p = k.get_public_key(&h); (k, p) });
            let (k, p) = match r { Ok(x) => x, Err(e) => { ctx.bad(&["C12"], "setup-fails", format!("{} attributes: {:?}", n, e)); return; } };
            let (kb, qb) = (k.to_bytes(), p.to_bytes());
            ctx.ev(&[n as u64, hash_bytes(&kb)], || format!("key for {} attributes", n));
            ctx.state(mixes(&[5, n as u64]));
            if kb.len() != 32 * (n + 1) || qb.len() != 32 * n { ctx.bad(&["C12"], "wrong-number-of-attributes", format!("{}: {} and {} bytes", n, kb.len(), qb.len())); return; }
            let mut seen = Vec::new();
            for (i, c) in kb.chunks(32).enumerate() {
                let x = sc(c).unwrap_or_else(Scalar::zero);
                if x == Scalar::zero() { ctx.bad(&["C12"], "degenerate-key", format!("part {} of a key for {} attributes is zero", i, n)); }
                if i > 0 && pt(&qb[32 * (i - 1)..32 * i]) != Some(h * x) { ctx.bad(&["C12"], "public-does-not-match-secret", format!("attribute {} of {}", i, n)); }
                if seen.contains(&x) { ctx.bad(&["C12"], "degenerate-key", format!("part {} of a key for {} attributes is not its own", i, n)); }
                seen.push(x);
            }
            if amacs::SecretKey::from_bytes(&kb).is_err() { ctx.bad(&["C12"], "key-not-restorable", format!("for {} attributes", n)); }
        }
        "golden" => {
            let mut seed = [0; 32];
            for (i, x) in seed.iter_mut().enumerate() { *x = i as u8; }
            for k in &sf::kinds() {
                if let Some(b) = get(ctx, "earlier release's seed", sf::params_create(*k, &seed)) { if hex(&b) != golden::SYSTEM_PARAMETERS { ctx.bad(&["C12", "C11"], "parameters-differ", format!("from an earlier release's ({:?}): {}", k, hex(&b))); } }
                if let Some(b) = get(ctx, "earlier release's seed", sf::issuer_create(*k, &unhex(golden::SYSTEM_PARAMETERS).unwrap(), &seed)) {
                    if hex(&b) != golden::ISSUER_KEYPAIR { ctx.bad(&["C12", "C11"], "keys-differ", format!("from an earlier release's ({:?}): {}", k, hex(&b))); }
                }
            }
            ctx.ev(&[9], || "golden".into());
        }
        _ => {
            // Many nodes set up independently, in any order, some of them in other threads.
            let seed = odd_seed(rng);
            let seed2 = odd_seed(rng);
            let want = Key::generate(ref_params(&seed), &mut ChaChaRng::from_seed(seed2)).bytes();
            let n = rng.range(2, 5);
            for _ in 0..n {
                let ks = sf::kinds();
                let (k1, k2, k3) = (*rng.pick(&ks), *rng.pick(&ks), *rng.pick(&ks));
                let other = rng.seed32();
                let busy = rng.chance(50);
                let sys = rng.u64();
                let node = move || -> Result<Vec<u8>, Fail> {
                    set_system(Source::healthy(sys));
                    if busy { let _ = sf::params_create(k2, &other); let _ = sf::entry_create(Kind::Raw, &[1, 2], &sf::params_create(Kind::Raw, &other)?, &other); }
                    let p = sf::params_create(k1, &seed)?;
                    if busy { let _ = sf::issuer_create(k3, &p, &other); }
                    let kp = sf::issuer_create(k2, &p, &seed2)?;
                    sf::issuer_new(k3, &p, &kp)
                };
                let r = if rng.chance(30) { ctx.count("fault.node in another thread"); std::thread::spawn(node).join().unwrap_or_else(|_| Err(Fail::Panic("thread died".into()))) } else { node() };
                match r {
                    Ok(b) => if b != want { ctx.bad(&["C12", "C11"], "nodes-disagree", format!("seeds {} {} ({:?} {:?} {:?})", hex(&seed), hex(&seed2), k1, k2, k3)); },
                    Err(e) => ctx.bad(&["C12"], "setup-fails", format!("{:?}", e)),
                }
            }
            ctx.ev(&[n, hash_bytes(&want)], || format!("{} nodes", n));
            ctx.state(mixes(&[6, n]));
        }
    }
}
