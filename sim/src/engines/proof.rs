//! The zero-knowledge proofs under an adversary who owns the wire: sessions of
//! true statements are proved by the library and by the reference, delivered
//! intact, altered, recombined, out of context, or fabricated.
use crate::ctx::*;
use crate::entropy::*;
use crate::guard::*;
use crate::lab::*;
use crate::make;
use crate::prove;
use crate::refimpl::{self as rf, Proof, Pub, Rel};
use crate::util::*;
use aeonflux::elgamal;
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::IsIdentity;
use signal_credential::phone_number::PhoneNumber;
use std::collections::HashMap;

pub struct Session { pub rel: &'static Rel, pub outer: &'static [u8], pub pubs: Pub, pub w: Vec<Scalar>, pub proof: Vec<u8> }

static OUTERS: [&[u8]; 3] = [b"SIGNAL BLIND ISSUANCE", b"SIGNAL BLIND ISSUE", b"another context"];

fn soundness(rel: &Rel) -> &'static [&'static str] {
    match rel.name {
        "issuance_revealed" => &["C04"],
        "valid_credential" => &["C02"],
        "committed_values_equal" => &["C03"],
        _ => &["C15"],
    }
}
fn completeness(rel: &Rel) -> &'static [&'static str] {
    match rel.name { "attributes_blinded" | "issuance_blinded" => &["C15", "C11"], _ => &["C01", "C11"] }
}
/// Responses that no equation constrains can be altered without consequence.
fn constrained(rel: &Rel, j: usize) -> bool { rel.eqs.iter().any(|(_, t)| t.iter().any(|(_, w)| rel.wit(w) == j)) }

fn odd_scalar(rng: &mut Prng) -> Scalar {
    match rng.below(12) {
        0 => Scalar::one(),
        1 => -Scalar::one(),
        2 => Scalar::from(rng.below(300)),
        3 => m_of(&random_phone(rng)),
        4 => { let mut b = [0u8; 32]; let i = rng.idx(252); b[i / 8] |= 1 << (i % 8); Scalar::from_bits(b) }
        5 => -m_of(&random_phone(rng)),
        _ => rng.scalar(),
    }
}

fn get(p: &Pub, n: &str) -> RistrettoPoint { p[n] }

/// A true statement.
pub fn statement(rel: &'static Rel, rng: &mut Prng) -> (Pub, Vec<Scalar>) {
    let pr = random_params(rng);
    let (g, h) = (pr.g, pr.h);
    let mut p: Pub = HashMap::new();
    p.insert("B", g);
    p.insert("A", h);
    let phone = random_phone(rng);
    let m = if rng.chance(70) { m_of(&phone) } else { odd_scalar(rng) };
    match rel.name {
        "issuance_revealed" => {
            let (x0, x1, xt) = (odd_scalar(rng), odd_scalar(rng), odd_scalar(rng));
            let pp = rng.point();
            p.insert("P", pp);
            p.insert("Q", pp * (x0 + x1 * m));
            p.insert("Cx0", g * x0 + h * xt);
            p.insert("X1", h * x1);
            (p, vec![x0, x1, xt, m * x1])
        }
        "valid_credential" => {
            let (x1, z0, zq) = (rng.scalar(), odd_scalar(rng), odd_scalar(rng));
            let pp = rng.point();
            let x = h * x1;
            p.insert("P", pp);
            p.insert("X0", x);
            p.insert("Cm0", pp * m + h * z0);
            p.insert("V", x * z0 - h * zq);
            (p, vec![m, z0, -zq])
        }
        "committed_values_equal" => {
            let (z0, z1) = (odd_scalar(rng), odd_scalar(rng));
            let pp = rng.point();
            p.insert("P", pp);
            p.insert("Cm0", pp * m + h * z0);
            p.insert("Cm1", h * m + g * z1);
            (p, vec![m, z0, z1])
        }
        "attributes_blinded" => {
            let (d, e) = (odd_scalar(rng), odd_scalar(rng));
            p.insert("D", g * d);
            p.insert("encrypted_attribute_0_0", g * e);
            p.insert("encrypted_attribute_0_1", g * m + g * d * e);
            (p, vec![d, e, m, odd_scalar(rng)])
        }
        _ => {
            let (d, e) = (odd_scalar(rng), odd_scalar(rng));
            let dd = g * d;
            let (e0, e1) = (g * e, g * m + dd * e);
            let (x0, x1, xt, s, b) = (odd_scalar(rng), odd_scalar(rng), odd_scalar(rng), odd_scalar(rng), odd_scalar(rng));
            let t0 = b * x1;
            let x = g * x0 + h * xt;
            p.insert("X0", x);
            p.insert("X1", h * x1);
            p.insert("D", dd);
            p.insert("P", g * b);
            p.insert("T0_0", x * b);
            p.insert("T0_1", h * t0);
            p.insert("EQ_commitment", g * s + e0 * t0);
            p.insert("EQ_encryption", dd * s + e1 * t0);
            p.insert("encrypted_attribute_0_0", e0);
            p.insert("encrypted_attribute_0_1", e1);
            (p, vec![xt, x0, x1, s, b, t0])
        }
    }
}

pub fn rels(profile: &str) -> Vec<&'static Rel> {
    match profile {
        "issuance" => vec![&rf::ISSUANCE],
        "valid" => vec![&rf::VALID],
        "equal" => vec![&rf::EQUAL],
        "blind" => vec![&rf::ATTRS, &rf::BLINDED],
        _ => rf::ALL.to_vec(),
    }
}

pub fn generate(profile: &str, seed: u64, thorough: bool) -> Vec<Step> {
    let mut ops = vec![("honest", 10), ("twin", 10), ("proof-altered", 12), ("public-altered", 14), ("exchanged", 10), ("context", 5), ("false-witness", 10),
                       ("shifted", 12), ("weak-equation", 12), ("weak-statement", 10), ("weak-base", 10), ("weak-label", 6), ("trivial", 5), ("storm", 5)];
    if profile == "blind" || profile == "all" { ops.push(("encrypt", 12)); ops.push(("blind-protocol", 12)); }
    let mut v = super::cases(&ops, if thorough { 120 } else { 60 }, seed);
    v.insert(0, Step::new("honest", 0, 0, 0, mix(seed)));
    v.insert(1, Step::new("honest", 1, 0, 0, mix(seed ^ 1)));
    v
}

struct P<'c> { ctx: &'c mut Ctx, pool: Vec<Session>, rels: Vec<&'static Rel>, storm: u64 }

fn system(rng: &mut Prng) -> Source {
    match rng.below(6) { 0 => Source::stuck(0), 1 => Source::stuck(rng.u64() as u8), 2 => Source::new(Mode::Repeat(rng.bytes(7))), _ => Source::healthy(rng.u64()) }
}

impl<'c> P<'c> {
    /// Deliver to the library and compare with the reference.
    fn deliver(&mut self, rel: &'static Rel, outer: &'static [u8], pubs: &Pub, proof: &[u8], what: &str, attack: bool) -> bool {
        self.ctx.op();
        let r = prove::verify(rel, outer, pubs, proof);
        let parsed = Proof::from_bytes(proof, rel.witnesses.len());
        let want = parsed.as_ref().map(|p| rel.verify(outer, pubs, p)).unwrap_or(false);
        let ok = r.is_ok();
        self.ctx.ev(&[hash_bytes(what.as_bytes()), ok as u64], || format!("{} {}: {:?}", rel.name, what, r));
        if let Err(ref e) = r { if e.is_bad() { self.ctx.bad(&["C07"], "verify-panics", format!("{} {}: {:?}", rel.name, what, e)); } }
        if attack {
            self.ctx.count(&format!("attack.{}", what));
            if ok && !want { self.ctx.bad(soundness(rel), "proof-accepted", format!("{}: {} was accepted: proof {}", rel.name, what, hex(proof))); }
            if ok && !want { self.ctx.bad(&["C11"], "verdicts-differ", format!("{}: {} accepted, but not by the documented protocol", rel.name, what)); }
        }
        if !ok && want { self.ctx.bad(completeness(rel), "proof-refused", format!("{}: {} was refused: {:?}", rel.name, what, r)); }
        ok
    }

    fn honest(&mut self, rng: &mut Prng) {
        let rel = *rng.pick(&self.rels);
        let outer: &'static [u8] = if rel.outer.is_empty() { *rng.pick(&OUTERS) } else { rel.outer };
        let (pubs, w) = statement(rel, rng);
        if pubs.values().any(|p| p.is_identity()) { return; }
        set_system(system(rng));
        let by_ref = rng.chance(25);
        let proof = if by_ref { rel.prove(outer, &pubs, &w, rng, &[]).to_bytes() } else {
            match prove::create(rel, outer, &pubs, &w) {
                Ok(p) => p,
                Err(e) => { self.ctx.bad(completeness(rel), "prove-fails", format!("{}: {:?}", rel.name, e)); return; }
            }
        };
        self.ctx.count(if by_ref { "case.reference proof" } else { "case.library proof" });
        match Proof::from_bytes(&proof, rel.witnesses.len()) {
            Some(ref p) if proof.len() == 40 * (rel.witnesses.len() + 1) => {
                if p.c.as_bytes()[12..].iter().all(|x| *x == 0) { self.ctx.bad(soundness(rel), "short-challenge", format!("{}: {}", rel.name, hex(p.c.as_bytes()))); }
                if !rel.verify(outer, &pubs, p) { self.ctx.bad(&["C11"], "proof-not-understood", format!("{}: an honest proof is not what the documented protocol makes", rel.name)); }
            }
            _ => self.ctx.bad(&["C11"], "proof-encoding", format!("{}: {} bytes", rel.name, proof.len())),
        }
        let r = prove::verify(rel, outer, &pubs, &proof);
        self.ctx.op();
        if let Err(e) = r { self.ctx.bad(completeness(rel), "proof-refused", format!("{}: an honest proof, intact: {:?}", rel.name, e)); return; }
        if self.pool.len() < 24 { self.pool.push(Session { rel, outer, pubs, w, proof }); }
        else { let i = rng.idx(24); self.pool[i] = Session { rel, outer, pubs, w, proof }; }
    }

    fn pick(&self, a: u64) -> Option<(&'static Rel, &'static [u8], Pub, Vec<Scalar>, Vec<u8>, Proof)> {
        if self.pool.is_empty() { return None; }
        let s = &self.pool[a as usize % self.pool.len()];
        let p = Proof::from_bytes(&s.proof, s.rel.witnesses.len())?;
        Some((s.rel, s.outer, s.pubs.clone(), s.w.clone(), s.proof.clone(), p))
    }

    fn step(&mut self, s: &Step, rng: &mut Prng) {
        if s.op == "honest" { return self.honest(rng); }
        if s.op == "encrypt" { self.encrypt(rng); for _ in 0..6 { self.encrypt_related(rng); } return; }
        if s.op == "blind-protocol" { return self.blind_protocol(rng); }
        let (rel, outer, pubs, w, bytes, proof) = match self.pick(s.a) { Some(x) => x, None => return };
        match &s.op[..] {
            "twin" => {
                // Someone who knows the witness answers another challenge than the transcript's.
                for _ in 0..6 {
                    let mut b = proof.c.to_bytes();
                    let i = match s.b % 3 { 0 => rng.idx(32), 1 => 31, _ => rng.idx(31) };
                    if i == 31 { b[31] ^= 1 + (rng.below(15) as u8); } else { b[i] ^= 1 << rng.below(8); }
                    let c = match Scalar::from_canonical_bytes(b) { Some(c) => c, None => continue };
                    let r = proof.r.iter().zip(w.iter()).map(|(r, w)| r + (c - proof.c) * w).collect();
                    self.deliver(rel, outer, &pubs, &Proof { c, r }.to_bytes(), "another challenge", true);
                }
            }
            "proof-altered" => {
                for _ in 0..4 {
                    let mut b = bytes.clone();
                    let k = rng.idx(proof.r.len() + 1);
                    if k > 0 && !constrained(rel, k - 1) { continue; }
                    let o = 40 * k + 8;
                    match rng.below(7) {
                        0 => { let i = rng.idx(256); b[o + i / 8] ^= 1 << (i % 8); }
                        1 => { b[o..o + 32].copy_from_slice(&[0; 32]); }
                        2 => { let x = -sc(&b[o..o + 32]).unwrap(); b[o..o + 32].copy_from_slice(x.as_bytes()); }
                        3 => { let x = rng.scalar(); b[o..o + 32].copy_from_slice(x.as_bytes()); }
                        4 => { let j = rng.idx(proof.r.len()); if !constrained(rel, j) { continue; } let t = b[40 * (j + 1) + 8..40 * (j + 2)].to_vec(); b[o..o + 32].copy_from_slice(&t); }
                        5 => { if let Some((r2, _, _, _, b2, _)) = self.pick(rng.u64()) { if r2.name == rel.name { b[o..o + 32].copy_from_slice(&b2[o..o + 32]); } } }
                        _ => { let x = sc(&b[o..o + 32]).unwrap() + Scalar::one(); b[o..o + 32].copy_from_slice(x.as_bytes()); }
                    }
                    if b == bytes { continue; }
                    self.deliver(rel, outer, &pubs, &b, "altered proof", true);
                }
            }
            "public-altered" => {
                for n in rel.publics {
                    let mut q = pubs.clone();
                    let p = get(&pubs, n);
                    let v = match rng.below(6) {
                        0 => -p,
                        1 => p + { let n: &'static str = *rng.pick(rel.publics); get(&pubs, n) },
                        2 => rng.point(),
                        3 => rf::identity(),
                        4 => p + RISTRETTO_BASEPOINT_POINT,
                        _ => { let n: &'static str = *rng.pick(rel.publics); get(&pubs, n) },
                    };
                    if v == p { continue; }
                    q.insert(n, v);
                    self.deliver(rel, outer, &q, &bytes, "altered public value", true);
                }
            }
            "exchanged" => {
                // Parts of another session.
                let others: Vec<usize> = (0..self.pool.len()).filter(|i| self.pool[*i].rel.name == rel.name && self.pool[*i].proof != bytes).collect();
                if others.is_empty() { return; }
                let o = *rng.pick(&others);
                let (oo, op, ob) = (self.pool[o].outer, self.pool[o].pubs.clone(), self.pool[o].proof.clone());
                self.deliver(rel, outer, &pubs, &ob, "another session's proof", true);
                self.deliver(rel, oo, &op, &bytes, "another session's proof", true);
                for _ in 0..4 {
                    let mut q = pubs.clone();
                    let mut any = false;
                    for n in rel.publics { if rng.chance(35) && q[n] != op[n] { q.insert(n, op[n]); any = true; } }
                    if !any { continue; }
                    let b = if rng.chance(70) { &bytes } else { &ob };
                    if rel.publics.iter().all(|n| q[n] == op[n]) { continue; }
                    self.deliver(rel, outer, &q, b, "another session's public values", true);
                }
            }
            "context" => {
                let o2: &'static [u8] = *rng.pick(&[&b"AEONFLUX ISSUANCE"[..], b"AEONFLUX SHOW", b"SIGNAL GROUP MEMBERSHIP", b"SIGNAL BLIND ISSUANCE", b"", b"another context"]);
                if o2 != outer { self.deliver(rel, o2, &pubs, &bytes, "another context", true); }
            }
            "false-witness" => {
                // The honest prover run on a false statement.
                let mut w2 = w.clone();
                let mut q = pubs.clone();
                if rng.chance(50) { let j = rng.idx(w2.len()); w2[j] = if rng.chance(50) { rng.scalar() } else { w2[j] + Scalar::one() }; }
                else { let e = rng.idx(rel.eqs.len()); let v = rng.point(); q.insert(rel.eqs[e].0, v); }
                if rel.holds(&q, &w2) { return; }
                set_system(Source::healthy(rng.u64()));
                if let Ok(b) = prove::create(rel, outer, &q, &w2) { self.deliver(rel, outer, &q, &b, "proof of a false statement", true); }
            }
            "shifted" => {
                // Statement and responses moved together, the challenge kept.
                for j in 0..w.len() {
                    let d = if rng.chance(50) { Scalar::one() } else { rng.scalar() };
                    let mut q = pubs.clone();
                    for (lhs, terms) in rel.eqs {
                        for (base, wn) in *terms { if rel.wit(wn) == j { let v = q[lhs] + get(&pubs, base) * d; q.insert(lhs, v); } }
                    }
                    if !constrained(rel, j) { continue; }
                    let mut p = proof.clone();
                    p.r[j] += p.c * d;
                    self.deliver(rel, outer, &q, &p.to_bytes(), "shifted statement", true);
                }
            }
            "weak-equation" => {
                // An equation that the verifier would not check.
                let e = rng.idx(rel.eqs.len());
                let mut q = pubs.clone();
                let v = rng.point();
                q.insert(rel.eqs[e].0, v);
                let mut omit = vec![format!("com {}", rel.eqs[e].0)];
                if rng.chance(20) { omit.push(rel.eqs[e].0.to_string()); }
                let b = rel.prove(outer, &q, &w, rng, &omit).to_bytes();
                self.deliver(rel, outer, &q, &b, "equation left out of the hash", true);
            }
            "weak-statement" => {
                // A value chosen after the challenge.
                let e = rng.idx(rel.eqs.len());
                let name = rel.eqs[e].0;
                // It must not be a base of another equation.
                if rel.eqs.iter().any(|(_, t)| t.iter().any(|(b, _)| *b == name)) { return; }
                let mut q = pubs.clone();
                let b = rel.forge_free(outer, &mut q, e, &w, rng, &[name.to_string()]);
                self.deliver(rel, outer, &q, &b.to_bytes(), "statement chosen after the challenge", true);
            }
            "weak-base" => {
                let bases: Vec<&'static str> = rel.publics.iter().cloned().filter(|n| rel.eqs.iter().filter(|(_, t)| t.iter().any(|(b, _)| b == n)).count() == 1).collect();
                if bases.is_empty() { return; }
                let base = *rng.pick(&bases);
                let mut omit = vec![base.to_string()];
                // If it is itself a statement, its own equation must not be checked either.
                if rel.eqs.iter().any(|(l, _)| *l == base) { omit.push(format!("com {}", base)); }
                let mut q = pubs.clone();
                let b = rel.forge_base(outer, &mut q, base, &w, rng, &omit);
                self.deliver(rel, outer, &q, &b.to_bytes(), "base chosen after the challenge", true);
            }
            "weak-label" => {
                let l = rng.pick(&rel.labels()).clone();
                let b = rel.prove(outer, &pubs, &w, rng, &[l.clone()]).to_bytes();
                let r = prove::verify(rel, outer, &pubs, &b);
                self.ctx.op();
                self.ctx.count("attack.transcript entry left out");
                if r.is_ok() { self.ctx.bad(&["C11"], "verdicts-differ", format!("{}: a proof that leaves {} out of the hash is accepted", rel.name, l)); }
            }
            "trivial" => {
                let z = Proof { c: Scalar::zero(), r: vec![Scalar::zero(); w.len()] };
                self.deliver(rel, outer, &pubs, &z.to_bytes(), "trivial proof", true);
                let z = Proof { c: Scalar::one(), r: w.clone() };
                self.deliver(rel, outer, &pubs, &z.to_bytes(), "trivial proof", true);
                let mut q = pubs.clone();
                for n in rel.publics { q.insert(n, rf::identity()); }
                let z = Proof { c: rng.scalar(), r: (0..w.len()).map(|_| rng.scalar()).collect() };
                self.deliver(rel, outer, &q, &z.to_bytes(), "trivial proof", true);
                self.deliver(rel, outer, &q, &bytes, "trivial proof", true);
            }
            _ /* storm */ => {
                for _ in 0..self.storm {
                    let c = rng.scalar();
                    let p = Proof { c, r: (0..w.len()).map(|_| rng.scalar()).collect() };
                    self.ctx.op();
                    if prove::verify(rel, outer, &pubs, &p.to_bytes()).is_ok() {
                        self.ctx.bad(soundness(rel), "proof-accepted", format!("{}: a random proof was accepted: {}", rel.name, hex(&p.to_bytes())));
                    }
                }
                self.ctx.add("attack.random proofs", self.storm);
            }
        }
    }

    /// Encrypting a number: the holder of the key, and nobody else, recovers it.
    fn encrypt(&mut self, rng: &mut Prng) {
        self.ctx.op();
        self.ctx.count("case.encrypted number");
        let phone = random_phone(rng);
        let m = m_of(&phone);
        let kp = elgamal::Keypair::generate(&mut sim(rng.u64()));
        let kb = kp.to_bytes();
        let d = match sc(&kb[..32]) { Some(d) => d, None => { self.ctx.bad(&["C15"], "key-encoding", hex(&kb)); return; } };
        let e = odd_scalar(rng);
        let g = RISTRETTO_BASEPOINT_POINT;
        let r = attempt(|| { let n = dbg(PhoneNumber::try_from_bytes(&phone))?; let x = n.encrypt(&kp, &e.into()); Ok::<_, String>((x.0.commitment, x.0.encryption, kp.secret.decrypt(&x.0))) });
        let (c, x, back) = match r { Ok(x) => x, Err(e) => { self.ctx.bad(&["C15"], "encrypt-fails", format!("{:?}", e)); return; } };
        if back != g * m { self.ctx.bad(&["C15"], "decrypts-wrong", format!("number {:?} encrypted with {} under {}", phone, hex(e.as_bytes()), hex(&kb))); }
        if x - c * d != g * m { self.ctx.bad(&["C15", "C11"], "encryption-wrong", format!("number {:?}: not an encryption under the documented scheme", phone)); }
        // With the key restored from its bytes, encryption alone under the public key, and sums.
        let k2 = attempt(|| elgamal::Keypair::from_bytes(&kb));
        if let Ok(k2) = k2 {
            let y = guarded(|| k2.secret.decrypt(&make::encryption(c, x)));
            if y != Ok(g * m) { self.ctx.bad(&["C15", "C06"], "decrypts-wrong", "with a restored key".into()); }
            let (m2, e2) = (rng.scalar(), rng.scalar());
            let sum = guarded(|| {
                let a = k2.public.encrypt(&(&m).into(), &e.into());
                let b = kp.public.encrypt(&(&m2).into(), &e2.into());
                let s = &a + &b;
                k2.secret.decrypt(&s)
            });
            if sum != Ok(g * (m + m2)) { self.ctx.bad(&["C15"], "sum-wrong", "the sum of two encryptions does not decrypt to the sum".into()); }
        }
        // Another key does not decrypt it.
        let other = elgamal::Keypair::generate(&mut sim(rng.u64()));
        if guarded(|| other.secret.decrypt(&make::encryption(c, x))) == Ok(g * m) && c != rf::identity() {
            self.ctx.bad(&["C15"], "decrypts-with-other-key", format!("number {:?}", phone));
        }
        // The same number under another nonce looks different.
        let e3 = rng.scalar();
        if let Ok(z) = attempt(|| { let n = dbg(PhoneNumber::try_from_bytes(&phone))?; Ok::<_, String>(n.encrypt(&kp, &e3.into())) }) {
            if z.0.commitment == c || z.0.encryption == x { self.ctx.bad(&["C15"], "nonce-ignored", "two encryptions with different nonces share a part".into()); }
        }
    }

    /// Keys, nonces and messages that are special, or related to one another, and
    /// ciphertexts nobody encrypted: the scheme is the documented one for all of them.
    fn encrypt_related(&mut self, rng: &mut Prng) {
        self.ctx.op();
        self.ctx.count("case.encryption of related values");
        let g = RISTRETTO_BASEPOINT_POINT;
        let d = match rng.below(6) { 0 => Scalar::zero(), 1 => Scalar::one(), 2 => -Scalar::one(), _ => rng.scalar() };
        let e = match rng.below(7) { 0 => Scalar::zero(), 1 => Scalar::one(), 2 => -Scalar::one(), 3 => d, 4 => -d, _ => rng.scalar() };
        let m = match rng.below(12) {
            0 => Scalar::zero(), 1 => Scalar::one(), 2 => -Scalar::one(), 3 => d, 4 => e, 5 => -e,
            // The commitment is the encryption, or its inverse; the encryption is the identity,
            // the base point, the public key, or twice the shared secret.
            6 => e - d * e, 7 => -e - d * e, 8 => -(d * e), 9 => Scalar::one() - d * e, 10 => d - d * e, _ => d * e,
        };
        let mut kb = d.to_bytes().to_vec();
        kb.extend_from_slice(&pb(&(g * d)));
        let who = || format!("key {}, nonce {}, message {}", hex(d.as_bytes()), hex(e.as_bytes()), hex(m.as_bytes()));
        let kp = match attempt(|| elgamal::Keypair::from_bytes(&kb)) { Ok(k) => k, Err(x) => { self.ctx.bad(&["C15", "C06"], "key-encoding", format!("{}: {:?}", who(), x)); return; } };
        match guarded(|| { let x = kp.public.encrypt(&(&m).into(), &e.into()); let y = kp.encrypt(&(&m).into(), &e.into()); (x.commitment, x.encryption, x == y, kp.secret.decrypt(&x)) }) {
            Ok((c, x, same, back)) => {
                if c != g * e || x != g * (m + d * e) { self.ctx.bad(&["C15", "C11"], "encryption-wrong", who()); }
                if !same { self.ctx.bad(&["C15"], "encryption-differs", who()); }
                if back != g * m { self.ctx.bad(&["C15"], "decrypts-wrong", who()); }
            }
            Err(x) => self.ctx.bad(&["C15"], "encrypt-fails", format!("{}: {:?}", who(), x)),
        }
        let c = match rng.below(6) { 0 => rf::identity(), 1 => g, 2 => -g, 3 => g * d, _ => rng.point() };
        let x = match rng.below(8) { 0 => rf::identity(), 1 => g, 2 => c, 3 => -c, 4 => g * d, 5 => c * d, _ => rng.point() };
        let z = make::encryption(c, x);
        let said = || format!("key {}, commitment {}, encryption {}", hex(d.as_bytes()), hex(&pb(&c)), hex(&pb(&x)));
        if guarded(|| kp.secret.decrypt(&z)) != Ok(x - c * d) { self.ctx.bad(&["C15"], "decrypts-wrong", said()); }
        let w = match rng.below(4) { 0 => make::encryption(-c, -x), 1 => z, 2 => make::encryption(x, c), _ => make::encryption(rng.point(), rng.point()) };
        if guarded(|| kp.secret.decrypt(&(&z + &w))) != Ok((x + w.encryption) - (c + w.commitment) * d) { self.ctx.bad(&["C15"], "sum-wrong", said()); }
    }

    /// The whole blinded exchange, with an adversary between user and issuer.
    fn blind_protocol(&mut self, rng: &mut Prng) {
        self.ctx.count("case.blind issuance");
        let pr = random_params(rng);
        let (g, h) = (pr.g, pr.h);
        let phone = random_phone(rng);
        let m = m_of(&phone);
        let kp = elgamal::Keypair::generate(&mut sim(rng.u64()));
        let d = sc(&kp.to_bytes()[..32]).unwrap_or_default();
        let e = rng.scalar();
        let enc = match attempt(|| { let n = dbg(PhoneNumber::try_from_bytes(&phone))?; Ok::<_, String>(n.encrypt(&kp, &e.into())) }) { Ok(x) => x.0, Err(_) => return };
        let dd: RistrettoPoint = kp.public.into();
        let mut up: Pub = HashMap::new();
        up.insert("B", g); up.insert("A", h); up.insert("D", dd);
        up.insert("encrypted_attribute_0_0", enc.commitment);
        up.insert("encrypted_attribute_0_1", enc.encryption);
        set_system(system(rng));
        let outer = OUTERS[0];
        let proof = match prove::create(&rf::ATTRS, outer, &up, &[d, e, m, rng.scalar()]) { Ok(p) => p, Err(e) => { self.ctx.bad(&["C15"], "prove-fails", format!("{:?}", e)); return; } };
        let mut sent = up.clone();
        let mut sproof = proof.clone();
        let tampered = rng.chance(60);
        if tampered {
            match rng.below(4) {
                0 => { let v = enc.encryption + g; sent.insert("encrypted_attribute_0_1", v); }
                1 => { let v = rng.point(); sent.insert("D", v); }
                2 => { let v = enc.commitment + g; sent.insert("encrypted_attribute_0_0", v); let w = enc.encryption + dd; sent.insert("encrypted_attribute_0_1", w); }
                _ => { let k = rng.idx(4); let i = rng.idx(255); sproof[40 * k + 8 + i / 8] ^= 1 << (i % 8); }
            }
        }
        let ok = self.deliver(&rf::ATTRS, outer, &sent, &sproof, "request in transit", tampered);
        if !tampered && !ok { self.ctx.bad(&["C15"], "proof-refused", "an intact blind request".into()); }
        if !ok { return; }
        let (x0, x1, xt, s, b) = (rng.scalar(), rng.scalar(), rng.scalar(), rng.scalar(), rng.scalar());
        let t0 = b * x1;
        let x = g * x0 + h * xt;
        let mut ip = up.clone();
        let eq = make::encryption(g * s + enc.commitment * t0, dd * s + enc.encryption * t0);
        ip.insert("X0", x); ip.insert("X1", h * x1); ip.insert("P", g * b); ip.insert("T0_0", x * b); ip.insert("T0_1", h * t0);
        ip.insert("EQ_commitment", eq.commitment); ip.insert("EQ_encryption", eq.encryption);
        let w = [xt, x0, x1, s, b, t0];
        set_system(system(rng));
        let outer = OUTERS[1];
        let proof = match prove::create(&rf::BLINDED, outer, &ip, &w) { Ok(p) => p, Err(e) => { self.ctx.bad(&["C15"], "prove-fails", format!("{:?}", e)); return; } };
        let mut sent = ip.clone();
        let mut sproof = proof.clone();
        let tampered = rng.chance(60);
        if tampered {
            match rng.below(5) {
                0 => { let v = eq.encryption + g; sent.insert("EQ_encryption", v); }
                1 => { let v = eq.commitment + g; sent.insert("EQ_commitment", v); let y = eq.encryption + dd; sent.insert("EQ_encryption", y); }
                2 => { let n = *rng.pick(rf::BLINDED.publics); let v = rng.point(); sent.insert(n, v); }
                3 => { let k = rng.idx(7); let i = rng.idx(255); sproof[40 * k + 8 + i / 8] ^= 1 << (i % 8); }
                _ => { sent.insert("T0_1", h * rng.scalar()); }
            }
        }
        let ok = self.deliver(&rf::BLINDED, outer, &sent, &sproof, "response in transit", tampered);
        if !tampered {
            if !ok { self.ctx.bad(&["C15"], "proof-refused", "an intact blind issuance".into()); }
            if guarded(|| kp.secret.decrypt(&eq)) != Ok(g * (t0 * m)) { self.ctx.bad(&["C15"], "decrypts-wrong", "the encrypted MAC".into()); }
        }
    }
}

pub fn execute(run: &Run, ctx: &mut Ctx) {
    let storm = if ctx.thorough { 400 } else { 60 };
    let mut p = P { ctx, pool: vec![], rels: rels(&run.profile), storm };
    for (k, s) in run.steps.iter().enumerate() {
        p.ctx.step = k;
        p.ctx.report.sim_ms += 20;
        let mut rng = Prng::new(s.seed);
        p.step(s, &mut rng);
        let n = p.pool.len() as u64;
        p.ctx.state(mixes(&[hash_bytes(s.op.as_bytes()), s.a % 24, s.b % 3, n.min(6)]));
    }
}
