//! An independent implementation of the documented protocol, written from the
//! paper's equations and the encodings, sharing only the curve and the
//! transcript crates with the code under test.
use crate::util::*;
use curve25519_dalek::constants::{RISTRETTO_BASEPOINT_COMPRESSED, RISTRETTO_BASEPOINT_POINT};
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::{Identity, IsIdentity, VartimeMultiscalarMul};
use merlin::Transcript;
use std::collections::HashMap;

/// A linear relation proved in zero knowledge: `lhs = sum base * witness` for each equation.
pub struct Rel {
    pub name: &'static str,
    pub outer: &'static [u8],
    pub publics: &'static [&'static str],
    pub witnesses: &'static [&'static str],
    pub eqs: &'static [(&'static str, &'static [(&'static str, &'static str)])],
}

pub static ISSUANCE: Rel = Rel {
    name: "issuance_revealed",
    outer: b"AEONFLUX ISSUANCE",
    publics: &["P", "Q", "Cx0", "B", "A", "X1"],
    witnesses: &["x0", "x1", "x0_tilde", "m1x1"],
    eqs: &[
        ("Q", &[("P", "x0"), ("P", "m1x1")]),
        ("Cx0", &[("B", "x0"), ("A", "x0_tilde")]),
        ("X1", &[("A", "x1")]),
    ],
};
pub static VALID: Rel = Rel {
    name: "valid_credential",
    outer: b"AEONFLUX SHOW",
    publics: &["B", "A", "X0", "P", "V", "Cm0"],
    witnesses: &["m0", "z0", "minus_zQ"],
    eqs: &[
        ("Cm0", &[("P", "m0"), ("A", "z0")]),
        ("V", &[("X0", "z0"), ("A", "minus_zQ")]),
    ],
};
pub static EQUAL: Rel = Rel {
    name: "committed_values_equal",
    outer: b"SIGNAL GROUP MEMBERSHIP",
    publics: &["B", "A", "P", "Cm0", "Cm1"],
    witnesses: &["m0", "z0", "z1"],
    eqs: &[
        ("Cm0", &[("P", "m0"), ("A", "z0")]),
        ("Cm1", &[("A", "m0"), ("B", "z1")]),
    ],
};
pub static ATTRS: Rel = Rel {
    name: "attributes_blinded",
    outer: b"",
    publics: &["B", "A", "D", "encrypted_attribute_0_0", "encrypted_attribute_0_1"],
    witnesses: &["d", "e0", "m0", "nonce"],
    eqs: &[
        ("D", &[("B", "d")]),
        ("encrypted_attribute_0_0", &[("B", "e0")]),
        ("encrypted_attribute_0_1", &[("B", "m0"), ("D", "e0")]),
    ],
};
pub static BLINDED: Rel = Rel {
    name: "issuance_blinded",
    outer: b"",
    publics: &["B", "A", "X0", "X1", "D", "P", "T0_0", "T0_1", "EQ_commitment", "EQ_encryption",
               "encrypted_attribute_0_0", "encrypted_attribute_0_1"],
    witnesses: &["x0_tilde", "x0", "x1", "s", "b", "t0"],
    eqs: &[
        ("X0", &[("B", "x0"), ("A", "x0_tilde")]),
        ("X1", &[("A", "x1")]),
        ("P", &[("B", "b")]),
        ("T0_0", &[("X0", "b")]),
        ("T0_1", &[("A", "t0")]),
        ("EQ_commitment", &[("B", "s"), ("encrypted_attribute_0_0", "t0")]),
        ("EQ_encryption", &[("D", "s"), ("encrypted_attribute_0_1", "t0")]),
    ],
};
pub static ALL: [&Rel; 5] = [&ISSUANCE, &VALID, &EQUAL, &ATTRS, &BLINDED];

pub type Pub = HashMap<&'static str, RistrettoPoint>;

#[derive(Clone, Debug, PartialEq)]
pub struct Proof {
    pub c: Scalar,
    pub r: Vec<Scalar>,
}

impl Proof {
    /// Each scalar is a bincode byte string: 8 bytes of length (32), then the scalar.
    pub fn from_bytes(b: &[u8], n: usize) -> Option<Proof> {
        if b.len() < 40 * (n + 1) { return None; }
        let mut v = Vec::new();
        for ch in b.chunks(40).take(n + 1) {
            if ch[..8] != [32, 0, 0, 0, 0, 0, 0, 0] { return None; }
            v.push(sc(&ch[8..40])?);
        }
        let c = v.remove(0);
        Some(Proof { c, r: v })
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut v = Vec::new();
        for s in std::iter::once(&self.c).chain(self.r.iter()) {
            v.extend(&[32, 0, 0, 0, 0, 0, 0, 0]);
            v.extend(s.as_bytes());
        }
        v
    }
}

impl Rel {
    pub fn wit(&self, name: &str) -> usize { self.witnesses.iter().position(|w| *w == name).unwrap() }

    /// The challenge, with the transcript entries in `omit` left out (an attacker's weak variant).
    pub fn challenge(&self, outer: &[u8], pubs: &Pub, coms: &HashMap<&'static str, RistrettoPoint>, omit: &[String]) -> Scalar {
        // Transcript::new wants a static label; labels here come from a fixed set.
        let mut t = Transcript::new(leak(outer));
        if !omit.iter().any(|o| o == "domain-sep") {
            t.commit_bytes(b"domain-sep", self.name.as_bytes());
        }
        for p in self.publics {
            if !omit.iter().any(|o| o == p) {
                t.commit_bytes(p.as_bytes(), &pb(&pubs[p]));
            }
        }
        for (lhs, _) in self.eqs {
            let l = format!("com {}", lhs);
            if !omit.contains(&l) {
                t.commit_bytes(leak(l.as_bytes()), &pb(&coms[lhs]));
            }
        }
        let mut b = [0u8; 64];
        t.challenge_bytes(b"chal", &mut b);
        Scalar::from_bytes_mod_order_wide(&b)
    }

    fn combo(&self, eq: usize, pubs: &Pub, s: &[Scalar]) -> RistrettoPoint {
        let mut ss = Vec::new();
        let mut bs = Vec::new();
        for (base, w) in self.eqs[eq].1 {
            ss.push(s[self.wit(w)]);
            bs.push(pubs[base]);
        }
        RistrettoPoint::vartime_multiscalar_mul(&ss, &bs)
    }

    /// Does the statement hold with these witnesses?
    pub fn holds(&self, pubs: &Pub, w: &[Scalar]) -> bool {
        (0..self.eqs.len()).all(|i| self.combo(i, pubs, w) == pubs[self.eqs[i].0])
    }

    pub fn prove(&self, outer: &[u8], pubs: &Pub, w: &[Scalar], rng: &mut Prng, omit: &[String]) -> Proof {
        let k: Vec<Scalar> = w.iter().map(|_| rng.scalar()).collect();
        let coms = (0..self.eqs.len()).map(|i| (self.eqs[i].0, self.combo(i, pubs, &k))).collect();
        let c = self.challenge(outer, pubs, &coms, omit);
        Proof { c, r: w.iter().zip(k.iter()).map(|(w, k)| c * w + k).collect() }
    }

    /// The commitments a verifier recomputes.
    pub fn recompute(&self, pubs: &Pub, p: &Proof) -> HashMap<&'static str, RistrettoPoint> {
        (0..self.eqs.len()).map(|i| (self.eqs[i].0, self.combo(i, pubs, &p.r) - p.c * pubs[self.eqs[i].0])).collect()
    }

    pub fn verify(&self, outer: &[u8], pubs: &Pub, p: &Proof) -> bool {
        if p.r.len() != self.witnesses.len() { return false; }
        self.challenge(outer, pubs, &self.recompute(pubs, p), &[]) == p.c
    }

    /// Attack on a verifier that leaves the statement `free` out of its hash: pick responses
    /// and commitments at will, then solve for the statement.  Returns the solved statement.
    pub fn forge_free(&self, outer: &[u8], pubs: &mut Pub, free: usize, w: &[Scalar], rng: &mut Prng, omit: &[String]) -> Proof {
        let k: Vec<Scalar> = w.iter().map(|_| rng.scalar()).collect();
        let mut coms: HashMap<&'static str, RistrettoPoint> =
            (0..self.eqs.len()).map(|i| (self.eqs[i].0, self.combo(i, pubs, &k))).collect();
        let name = self.eqs[free].0;
        let com = rng.point();
        coms.insert(name, com);
        let c = self.challenge(outer, pubs, &coms, omit);
        let r: Vec<Scalar> = w.iter().zip(k.iter()).map(|(w, k)| c * w + k).collect();
        let s = (self.combo(free, pubs, &r) - com) * c.invert();
        pubs.insert(name, s);
        Proof { c, r }
    }
    /// Attack on a verifier that leaves the base out of its hash: everything is chosen first,
    /// and the base solved for.  The base must occur in one equation only.
    pub fn forge_base(&self, outer: &[u8], pubs: &mut Pub, base: &'static str, w: &[Scalar], rng: &mut Prng, omit: &[String]) -> Proof {
        let k: Vec<Scalar> = w.iter().map(|_| rng.scalar()).collect();
        let e = (0..self.eqs.len()).find(|i| self.eqs[*i].1.iter().any(|(b, _)| *b == base)).unwrap();
        let mut coms: HashMap<&'static str, RistrettoPoint> =
            (0..self.eqs.len()).map(|i| (self.eqs[i].0, self.combo(i, pubs, &k))).collect();
        let com = rng.point();
        coms.insert(self.eqs[e].0, com);
        let c = self.challenge(outer, pubs, &coms, omit);
        let r: Vec<Scalar> = w.iter().zip(k.iter()).map(|(w, k)| c * w + k).collect();
        let mut rest = com + pubs[self.eqs[e].0] * c;
        let mut coef = Scalar::zero();
        for (b, wn) in self.eqs[e].1 {
            if *b == base { coef += r[self.wit(wn)]; } else { rest -= pubs[b] * r[self.wit(wn)]; }
        }
        let v = rest * coef.invert();
        pubs.insert(base, v);
        Proof { c, r }
    }
    /// Every label a weak verifier might leave out.
    pub fn labels(&self) -> Vec<String> {
        let mut v: Vec<String> = self.publics.iter().map(|s| s.to_string()).collect();
        v.extend(self.eqs.iter().map(|e| format!("com {}", e.0)));
        v.push("domain-sep".into());
        v
    }
}

fn leak(b: &[u8]) -> &'static [u8] {
    thread_local! { static T: std::cell::RefCell<HashMap<Vec<u8>, &'static [u8]>> = Default::default(); }
    T.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(x) = t.get(b) { return *x; }
        let s: &'static [u8] = Box::leak(b.to_vec().into_boxed_slice());
        t.insert(b.to_vec(), s);
        s
    })
}

// ---------------------------------------------------------------- protocol

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Params { pub g: RistrettoPoint, pub h: RistrettoPoint }

impl Params {
    pub fn parse(b: &[u8]) -> Option<Params> {
        if b.len() != 64 { return None; }
        Some(Params { g: pt(&b[..32])?, h: pt(&b[32..])? })
    }
    pub fn bytes(&self) -> Vec<u8> { cat(&[&pb(&self.g), &pb(&self.h)]) }
    /// The documented setup: first decodable 32-byte draw that is neither trivial nor the base point.
    pub fn generate<R: rand::RngCore>(rng: &mut R) -> Params {
        let mut b = [0u8; 32];
        loop {
            rng.fill_bytes(&mut b);
            if b == RISTRETTO_BASEPOINT_COMPRESSED.to_bytes() { continue; }
            if let Some(h) = CompressedRistretto(b).decompress() {
                if !h.is_identity() {
                    return Params { g: RISTRETTO_BASEPOINT_POINT, h };
                }
            }
        }
    }
}

pub fn cat(xs: &[&[u8]]) -> Vec<u8> { xs.iter().flat_map(|x| x.iter().cloned()).collect() }

pub fn wide<R: rand::RngCore>(rng: &mut R) -> Scalar {
    let mut b = [0u8; 64];
    rng.fill_bytes(&mut b);
    Scalar::from_bytes_mod_order_wide(&b)
}

/// The attribute a phone number stands for.
pub fn phone(d: &[u8]) -> Option<Scalar> {
    if d.len() > 27 { return None; }
    let mut b = [0u8; 32];
    b[0] = 15;
    b[1] = 15;
    b[2..2 + d.len()].copy_from_slice(d);
    b[2 + d.len()] = 15;
    b[3 + d.len()] = 15;
    b[4 + d.len()] = d.len() as u8;
    Some(Scalar::from_bytes_mod_order(b))
}

#[derive(Clone, Debug)]
pub struct Key { pub params: Params, pub x0: Scalar, pub x1: Scalar, pub big: RistrettoPoint }

impl Key {
    /// From the 160 bytes of an issuer.
    pub fn parse(b: &[u8]) -> Option<Key> {
        if b.len() != 160 { return None; }
        Some(Key { params: Params::parse(&b[..64])?, big: pt(&b[64..96])?, x0: sc(&b[96..128])?, x1: sc(&b[128..160])? })
    }
    pub fn from_secrets(params: Params, x0: Scalar, x1: Scalar) -> Key { Key { params, x0, x1, big: params.h * x1 } }
    pub fn keypair(&self) -> Vec<u8> { cat(&[&pb(&self.big), self.x0.as_bytes(), self.x1.as_bytes()]) }
    pub fn bytes(&self) -> Vec<u8> { cat(&[&self.params.bytes(), &self.keypair()]) }
    /// x0, then x1, 64 bytes each.
    pub fn generate<R: rand::RngCore>(params: Params, rng: &mut R) -> Key {
        let x0 = wide(rng);
        let x1 = wide(rng);
        Key::from_secrets(params, x0, x1)
    }

    pub fn mac(&self, m: &Scalar, b: &Scalar) -> (RistrettoPoint, RistrettoPoint) {
        let p = RISTRETTO_BASEPOINT_POINT * b;
        (p, p * (self.x0 + self.x1 * m))
    }
    pub fn issue(&self, m: &Scalar, rng: &mut Prng) -> Vec<u8> {
        let b = rng.scalar();
        let (p, q) = self.mac(m, &b);
        issuance_bytes(&self.params, &self.big, &p, &q, m, &[self.x0, self.x1, rng.scalar(), self.x1 * m], rng, &[])
    }

    /// V as the issuer recomputes it.
    pub fn v_prime(&self, s: &Shown) -> RistrettoPoint { s.p * self.x0 + s.cm0 * self.x1 - s.cq }

    pub fn verify(&self, s: &Shown) -> bool {
        if s.p.is_identity() { return false; }
        let mut pubs: Pub = HashMap::new();
        pubs.insert("B", self.params.g);
        pubs.insert("A", self.params.h);
        pubs.insert("X0", self.big);
        pubs.insert("P", s.p);
        pubs.insert("V", self.v_prime(s));
        pubs.insert("Cm0", s.cm0);
        VALID.verify(VALID.outer, &pubs, &s.proof)
    }
    pub fn verify_roster(&self, s: &SignalShown) -> bool {
        EQUAL.verify(EQUAL.outer, &roster_pubs(&self.params, &s.shown.p, &s.shown.cm0, &s.entry), &s.proof)
    }
}

pub fn roster_pubs(p: &Params, nonce: &RistrettoPoint, cm0: &RistrettoPoint, cm1: &RistrettoPoint) -> Pub {
    let mut m = HashMap::new();
    m.insert("B", p.g);
    m.insert("A", p.h);
    m.insert("P", *nonce);
    m.insert("Cm0", *cm0);
    m.insert("Cm1", *cm1);
    m
}

pub fn issuance_pubs(pr: &Params, big: &RistrettoPoint, p: &RistrettoPoint, q: &RistrettoPoint, cx0: &RistrettoPoint) -> Pub {
    let mut m = HashMap::new();
    m.insert("P", *p);
    m.insert("Q", *q);
    m.insert("Cx0", *cx0);
    m.insert("B", pr.g);
    m.insert("A", pr.h);
    m.insert("X1", *big);
    m
}

/// An issuance proved with witnesses (x0, x1, x0~, m1x1).
pub fn issuance_bytes(pr: &Params, big: &RistrettoPoint, p: &RistrettoPoint, q: &RistrettoPoint, m: &Scalar,
                      w: &[Scalar; 4], rng: &mut Prng, omit: &[String]) -> Vec<u8> {
    let cx0 = pr.g * w[0] + pr.h * w[2];
    let proof = ISSUANCE.prove(ISSUANCE.outer, &issuance_pubs(pr, big, p, q, &cx0), w, rng, omit);
    cat(&[&pb(&cx0), &pb(p), &pb(q), m.as_bytes(), &proof.to_bytes()])
}

#[derive(Clone, Debug, PartialEq)]
pub struct Issued { pub cx0: RistrettoPoint, pub p: RistrettoPoint, pub q: RistrettoPoint, pub m: Scalar, pub proof: Proof }

impl Issued {
    pub fn parse(b: &[u8]) -> Option<Issued> {
        if b.len() < 328 { return None; }
        Some(Issued { cx0: pt(&b[..32])?, p: pt(&b[32..64])?, q: pt(&b[64..96])?, m: sc(&b[96..128])?, proof: Proof::from_bytes(&b[128..], 4)? })
    }
    pub fn accept(&self, pr: &Params, big: &RistrettoPoint, m: &Scalar) -> bool {
        !self.p.is_identity() && self.m == *m
            && ISSUANCE.verify(ISSUANCE.outer, &issuance_pubs(pr, big, &self.p, &self.q, &self.cx0), &self.proof)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Shown { pub cq: RistrettoPoint, pub p: RistrettoPoint, pub cm0: RistrettoPoint, pub proof: Proof }

impl Shown {
    pub fn parse(b: &[u8]) -> Option<Shown> {
        if b.len() < 256 { return None; }
        Some(Shown { cq: pt(&b[..32])?, p: pt(&b[32..64])?, cm0: pt(&b[64..96])?, proof: Proof::from_bytes(&b[96..], 3)? })
    }
    pub fn bytes(&self) -> Vec<u8> { cat(&[&pb(&self.cq), &pb(&self.p), &pb(&self.cm0), &self.proof.to_bytes()]) }
}

#[derive(Clone, Debug, PartialEq)]
pub struct SignalShown { pub entry: RistrettoPoint, pub shown: Shown, pub proof: Proof }

impl SignalShown {
    pub fn parse(b: &[u8]) -> Option<SignalShown> {
        if b.len() < 448 { return None; }
        Some(SignalShown { entry: pt(&b[..32])?, shown: Shown::parse(&b[32..288])?, proof: Proof::from_bytes(&b[288..], 3)? })
    }
    pub fn bytes(&self) -> Vec<u8> { cat(&[&pb(&self.entry), &self.shown.bytes(), &self.proof.to_bytes()]) }
}

/// What someone who knows `m` and (P, Q) can show; every value can be chosen by an attacker.
pub struct Shower {
    pub params: Params,
    pub big: RistrettoPoint,
    pub m: Scalar,
    pub p: RistrettoPoint,
    pub q: RistrettoPoint,
}

pub struct ShowOpts<'a> {
    /// Roster commitment and (m', z1) claimed for it.
    pub entry: RistrettoPoint,
    pub entry_m: Scalar,
    pub entry_z: Scalar,
    /// Transcript entries left out of each proof.
    pub omit: &'a [String],
    pub omit_roster: &'a [String],
    pub rerandomize: bool,
}

impl Shower {
    pub fn from_user(user: &[u8]) -> Option<Shower> {
        if user.len() != 288 { return None; }
        Some(Shower {
            params: Params::parse(&user[32..96])?, big: pt(&user[96..128])?,
            p: pt(&user[192..224])?, q: pt(&user[224..256])?, m: sc(&user[256..288])?,
        })
    }
    pub fn show(&self, o: &ShowOpts, rng: &mut Prng) -> SignalShown {
        let k = if o.rerandomize { rng.scalar() } else { Scalar::one() };
        let (p, q) = (self.p * k, self.q * k);
        let (z0, zq) = (rng.scalar(), rng.scalar());
        let (a, b) = (self.params.h, self.params.g);
        let cm0 = p * self.m + a * z0;
        let cq = q + a * zq;
        let mut pubs: Pub = HashMap::new();
        pubs.insert("B", b);
        pubs.insert("A", a);
        pubs.insert("X0", self.big);
        pubs.insert("P", p);
        pubs.insert("V", self.big * z0 - a * zq);
        pubs.insert("Cm0", cm0);
        let proof = VALID.prove(VALID.outer, &pubs, &[self.m, z0, -zq], rng, o.omit);
        let rp = roster_pubs(&self.params, &p, &cm0, &o.entry);
        let rproof = EQUAL.prove(EQUAL.outer, &rp, &[o.entry_m, z0, o.entry_z], rng, o.omit_roster);
        SignalShown { entry: o.entry, shown: Shown { cq, p, cm0, proof }, proof: rproof }
    }
}

pub fn entry(pr: &Params, m: &Scalar, z: &Scalar) -> RistrettoPoint { pr.h * m + pr.g * z }
pub fn identity() -> RistrettoPoint { RistrettoPoint::identity() }
