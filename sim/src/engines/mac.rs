//! The message authentication code below the credentials: keys over any number
//! of attributes, and presentations with revealed attributes.
use crate::ctx::*;
use crate::entropy::*;
use crate::guard::*;
use crate::lab::*;
use crate::make;
use crate::refimpl::{self as rf, Proof, Pub};
use crate::util::*;
use aeonflux::amacs;
use aeonflux::credential::CredentialPresentation;
use aeonflux::issuer::Issuer;
use aeonflux::parameters::SystemParameters;
use aeonflux::pedersen;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::IsIdentity;
use std::collections::HashMap;

pub fn generate(seed: u64, thorough: bool) -> Vec<Step> {
    let ops = [("honest", 8), ("message", 20), ("length", 10), ("tag", 16), ("trivial", 8), ("key", 10), ("rerandomise", 8), ("revealed", 24), ("words", 3), ("storm", 4)];
    super::cases(&ops, if thorough { 200 } else { 90 }, seed)
}

fn attribute(rng: &mut Prng) -> Scalar {
    match rng.below(8) {
        0 => Scalar::zero(), 1 => Scalar::one(), 2 => -Scalar::one(), 3 => Scalar::from(rng.u64()),
        4 => m_of(&random_phone(rng)), _ => rng.scalar(),
    }
}
fn msg(m: &[Scalar]) -> amacs::Message { m.to_vec().into() }

struct KeyN { sk: amacs::SecretKey, x: Vec<Scalar> }

fn key(rng: &mut Prng) -> Result<KeyN, Fail> {
    let n = rng.range(1, 6) as usize;
    let sd = rng.u64();
    let sk = guarded(|| amacs::SecretKey::new(n, &mut sim(sd)))?;
    let b = guarded(|| sk.to_bytes())?;
    let x: Option<Vec<Scalar>> = b.chunks(32).map(sc).collect();
    let x = x.ok_or(Fail::Rejected("key encoding".into()))?;
    // Sometimes as restored from its bytes.
    if rng.chance(40) { let s2 = attempt(|| amacs::SecretKey::from_bytes(&b))?; return Ok(KeyN { sk: s2, x }); }
    Ok(KeyN { sk, x })
}
impl KeyN {
    fn exponent(&self, m: &[Scalar]) -> Scalar { self.x[1..].iter().zip(m).fold(self.x[0], |a, (x, m)| a + x * m) }
    fn genuine(&self, t: &amacs::Tag, m: &[Scalar]) -> bool { m.len() + 1 == self.x.len() && !t.nonce.is_identity() && t.mac == t.nonce * self.exponent(m) }
}

fn verify(ctx: &mut Ctx, k: &KeyN, t: &amacs::Tag, m: &[Scalar], what: &str) {
    ctx.op();
    let want = k.genuine(t, m);
    let r = attempt(|| k.sk.verify(t, &msg(m)));
    ctx.count(&format!("{}{}", if want { "case." } else { "attack." }, what));
    ctx.ev(&[hash_bytes(what.as_bytes()), r.is_ok() as u64], || format!("{}: {:?}", what, r));
    match r {
        Ok(()) if !want => ctx.bad(&["C02"], "mac-accepted", format!("{}: a tag on {} attributes under a key for {}", what, m.len(), k.x.len() - 1)),
        Err(ref e) if e.is_bad() => ctx.bad(&["C07"], "mac-panics", format!("{}: {:?}", what, e)),
        Err(ref e) if want => ctx.bad(&["C01"], "mac-refused", format!("{}: {:?}", what, e)),
        _ => {}
    }
}

pub fn execute(run: &Run, ctx: &mut Ctx) {
    for (i, s) in run.steps.iter().enumerate() {
        ctx.step = i;
        ctx.report.sim_ms += 5;
        let mut rng = Prng::new(s.seed);
        if let Err(e) = step(ctx, s, &mut rng) { ctx.count("event.setup-failed"); ctx.bad(&["C01"], "mac-refused", format!("{}: an honest operation failed: {:?}", s.op, e)); }
        ctx.state(mixes(&[hash_bytes(s.op.as_bytes()), s.a % 6, s.b % 8]));
    }
}

fn step(ctx: &mut Ctx, s: &Step, rng: &mut Prng) -> Result<(), Fail> {
    let k = key(rng)?;
    let n = k.x.len() - 1;
    if k.sk.len() != n + 1 || guarded(|| k.sk.get_public_key(&rng.point()).len())? != n { ctx.bad(&["C12"], "key-length-wrong", format!("of a key for {} attributes", n)); }
    let m: Vec<Scalar> = (0..n).map(|_| attribute(rng)).collect();
    let t = attempt(|| k.sk.mac(&msg(&m), &mut sim(rng.u64())))?;
    match &s.op[..] {
        "honest" => verify(ctx, &k, &t, &m, "genuine tag"),
        "message" => {
            for _ in 0..3 {
                let mut m2 = m.clone();
                let i = rng.idx(n);
                match rng.below(6) {
                    0 => m2[i] = attribute(rng),
                    1 => m2[i] += Scalar::one(),
                    2 => m2[i] = Scalar::zero(),
                    3 => m2[i] = -m2[i],
                    4 => { let j = rng.idx(n); m2.swap(i, j); }
                    _ => { let mut b = m2[i].to_bytes(); let j = rng.idx(252); b[j / 8] ^= 1 << (j % 8); m2[i] = sc(&b).unwrap_or_default(); }
                }
                verify(ctx, &k, &t, &m2, "altered attribute");
            }
        }
        "length" => {
            let mut m2 = m.clone(); m2.push(Scalar::zero()); verify(ctx, &k, &t, &m2, "attribute added");
            let mut m2 = m.clone(); m2.push(attribute(rng)); verify(ctx, &k, &t, &m2, "attribute added");
            let mut m2 = m.clone(); m2.pop(); verify(ctx, &k, &t, &m2, "attribute removed");
            verify(ctx, &k, &t, &[], "no attributes");
            let r = attempt(|| { let mut x = m.clone(); if s.b % 2 == 0 { x.push(Scalar::zero()) } else { x.pop(); } k.sk.mac(&msg(&x), &mut sim(3)) });
            match r {
                Ok(_) => ctx.bad(&["C02"], "mac-of-wrong-length", format!("a key for {} attributes authenticated a message of another length", n)),
                Err(ref e) if e.is_bad() => ctx.bad(&["C07"], "mac-panics", format!("{:?}", e)),
                _ => {}
            }
        }
        "tag" => {
            for _ in 0..3 {
                let mut t2 = t.clone();
                match rng.below(7) {
                    0 => t2.nonce = -t2.nonce,
                    1 => t2.mac = -t2.mac,
                    2 => std::mem::swap(&mut t2.nonce, &mut t2.mac),
                    3 => t2.mac += rng.point(),
                    4 => t2.nonce = rng.point(),
                    5 => { let r = rng.scalar(); t2.nonce = t2.nonce * r; }
                    _ => { let o = attempt(|| k.sk.mac(&msg(&(0..n).map(|_| rng.scalar()).collect::<Vec<_>>()), &mut sim(4)))?; t2.mac = o.mac; }
                }
                verify(ctx, &k, &t2, &m, "altered tag");
            }
        }
        "trivial" => {
            let id = rf::identity();
            verify(ctx, &k, &make::tag(id, id), &m, "identity tag");
            verify(ctx, &k, &make::tag(t.nonce, id), &m, "identity MAC");
            verify(ctx, &k, &make::tag(id, t.mac), &m, "identity nonce");
            verify(ctx, &k, &make::tag(t.nonce, t.nonce), &m, "MAC equal to its nonce");
            verify(ctx, &k, &make::tag(id, id), &[], "identity tag on nothing");
        }
        "key" => {
            // A key that shares all parts but one.
            let mut x = k.x.clone();
            let i = rng.idx(x.len());
            x[i] = rng.scalar();
            let b: Vec<u8> = x.iter().flat_map(|x| x.to_bytes().to_vec()).collect();
            let k2 = KeyN { sk: attempt(|| amacs::SecretKey::from_bytes(&b))?, x };
            // (Attributes that are zero do not depend on their part of the key.)
            verify(ctx, &k2, &t, &m, "under another key");
            let mut k3 = k.x.clone(); k3.push(rng.scalar());
            let b: Vec<u8> = k3.iter().flat_map(|x| x.to_bytes().to_vec()).collect();
            let k3 = KeyN { sk: attempt(|| amacs::SecretKey::from_bytes(&b))?, x: k3 };
            verify(ctx, &k3, &t, &m, "under a longer key");
        }
        "rerandomise" => {
            let t2 = guarded(|| amacs::Rerandomization::new(&mut sim(rng.u64())).apply_to_tag(&t))?;
            if t2.nonce == t.nonce || t2.mac == t.mac { ctx.bad(&["C08"], "not-rerandomised", "a rerandomised tag shares a part with the original".into()); }
            verify(ctx, &k, &t2, &m, "rerandomised tag");
            let mut m2 = m.clone(); let i = rng.idx(n); m2[i] += rng.scalar();
            verify(ctx, &k, &t2, &m2, "rerandomised tag on another message");
            let t3 = make::tag(t2.nonce, t.mac);
            verify(ctx, &k, &t3, &m, "half rerandomised tag");
        }
        "words" => {
            // Messages made of text, of bare scalars and of lists of them.
            let words: Vec<String> = (0..3).map(|i| { let l = rng.below(24); (0..l).map(|_| *rng.pick(&['a', 'b', 'Z', '0', ' ', '\u{e9}', '\0'])).chain(std::iter::once((b'a' + i) as char)).collect() }).collect();
            let (x, k1) = { let sd = rng.u64(); (rng.scalar(), guarded(|| amacs::SecretKey::new(1, &mut sim(sd)))?) };
            let ms: Vec<(amacs::Message, Scalar)> = words.iter().map(|w| (amacs::Message::from(w.clone()), Scalar::hash_from_bytes::<sha2::Sha512>(w.as_bytes())))
                .chain(std::iter::once((amacs::Message::from(x), x))).chain(std::iter::once((amacs::Message::from(vec![x + x]), x + x))).collect();
            for (i, (a, v)) in ms.iter().enumerate() {
                if a.0[..] != [*v][..] { ctx.bad(&["C11"], "message-differs", format!("a message from {}", ["text", "text", "text", "a scalar", "scalars"][i])); }
                let t = attempt(|| k1.mac(a, &mut sim(rng.u64())))?;
                for (j, (b, _)) in ms.iter().enumerate() {
                    ctx.op();
                    let r = attempt(|| k1.verify(&t, b));
                    if r.is_ok() != (i == j) { ctx.bad(if i == j { &["C01"] } else { &["C02"] }, if i == j { "mac-refused" } else { "mac-accepted" }, format!("a tag on {:?} for {:?}", words.get(i), words.get(j))); }
                }
            }
        }
        "revealed" => revealed(ctx, &k, &m, &t, rng)?,
        _ => {
            for _ in 0..40 {
                let t2 = make::tag(t.nonce, rng.point());
                ctx.op();
                if attempt(|| k.sk.verify(&t2, &msg(&m))).is_ok() { ctx.bad(&["C02"], "mac-accepted", "a random tag".into()); }
            }
            ctx.add("attack.random tags", 40);
        }
    }
    Ok(())
}

/// A presentation that reveals all attributes but the last, honest or lying about some.
fn revealed(ctx: &mut Ctx, k: &KeyN, m: &[Scalar], t: &amacs::Tag, rng: &mut Prng) -> Result<(), Fail> {
    let n = m.len();
    let pr = random_params(rng);
    let sys = attempt(|| SystemParameters::from_bytes(&pr.bytes()))?;
    let public = guarded(|| k.sk.get_public_key(&pr.h))?;
    for (i, x) in public.Xn.iter().enumerate() {
        if *x != pr.h * k.x[i + 1] { ctx.bad(&["C12", "C11"], "public-key-wrong", format!("attribute {}", i)); }
    }
    let issuer = Issuer::new(sys, make::keypair(public, k.sk.clone()));
    let lie = rng.below(8);
    let mut claims = m[..n - 1].to_vec();
    let mut hidden = m[n - 1];
    let mut q = t.mac;
    let mut kb = n - 1;
    let mut what = "revealed attributes";
    match lie {
        0 => {}
        1 => { what = "a revealed attribute changed"; if n > 1 { let i = rng.idx(n - 1); claims[i] += rng.scalar(); } else { return Ok(()); } }
        2 => { what = "revealed and hidden attribute traded"; if n > 1 { let i = rng.idx(n - 1); let d = rng.scalar(); claims[i] += d; hidden -= d; kb = i; } else { return Ok(()); } }
        3 => { what = "the hidden attribute changed"; hidden += rng.scalar(); }
        4 => { what = "an extra attribute revealed"; claims.push(rng.scalar()); }
        5 => { what = "an attribute not revealed"; if claims.pop().is_none() { return Ok(()); } }
        6 => { what = "a made-up MAC"; q = rng.point(); }
        _ => { what = "revealed attributes exchanged"; if n > 2 { claims.swap(0, n - 2); kb = n - 2; } else { return Ok(()); } }
    }
    if lie == 2 && rng.chance(50) { kb = n - 1; }
    // As a dishonest holder: V is whatever the attacker needs it to be.
    let r = rng.scalar();
    let (p, q) = (t.nonce * r, q * r);
    let (z0, zq) = (rng.scalar(), rng.scalar());
    let (a, b) = (pr.h, pr.g);
    let cm0 = p * hidden + a * z0;
    let x = a * k.x[kb.min(n - 1) + 1];
    let mut pubs: Pub = HashMap::new();
    pubs.insert("B", b); pubs.insert("A", a); pubs.insert("X0", x); pubs.insert("P", p); pubs.insert("V", x * z0 - a * zq); pubs.insert("Cm0", cm0);
    let proof: Proof = rf::VALID.prove(rf::VALID.outer, &pubs, &[hidden, z0, -zq], rng, &[]);
    let cq: RistrettoPoint = q + a * zq;
    let pres = attempt(|| {
        let com = |p: &RistrettoPoint| dbg(pedersen::Commitment::from_bytes(&pb(p)));
        Ok::<_, String>(CredentialPresentation {
            rerandomized_mac_commitment: com(&cq)?, rerandomized_nonce: p,
            attributes_revealed: claims.clone(), attributes_blinded: vec![com(&cm0)?],
            proof: dbg(bincode::deserialize(&proof.to_bytes()))?,
        })
    })?;
    ctx.op();
    // Is there a tag on what is claimed, with anything hidden that the prover knows?
    let mut all = claims.clone(); all.push(hidden);
    let genuine = k.genuine(&make::tag(p, q), &all);
    let res = attempt(|| issuer.verify(&pres));
    ctx.count(&format!("{}{}", if genuine { "case." } else { "attack." }, what));
    ctx.ev(&[lie, res.is_ok() as u64], || format!("{} of {}: {:?}", what, n, res.is_ok()));
    match res {
        Ok(v) => {
            if !genuine { ctx.bad(&["C02"], "presentation-accepted", format!("{} ({} attributes) was accepted", what, n)); }
            if v.0 != pres { ctx.bad(&["C02"], "verified-differs", "what was verified is not what was presented".into()); }
        }
        Err(ref e) if e.is_bad() => ctx.bad(&["C07"], "verify-panics", format!("{}: {:?}", what, e)),
        Err(_) if genuine && lie == 0 => ctx.bad(&["C01"], "presentation-refused", "an honest presentation".into()),
        _ => {}
    }
    let _ = set_system;
    Ok(())
}
