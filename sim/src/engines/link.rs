//! Unlinkability: every value a presentation hides is recovered with the keys
//! (all secrets of the world are known to the simulator, including the discrete
//! logarithm between the generators), and compared with everything else that
//! was ever shown.
use crate::ctx::*;
use crate::entropy::*;
use crate::guard::*;
use crate::lab::*;
use crate::refimpl::{self as rf, Key, Params, SignalShown};
use crate::surface::{self, Kind};
use crate::util::*;
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::IsIdentity;
use signal_credential::credential::SignalCredentialPresentation;
use signal_credential::user::SignalUser;
use merlin::Transcript;
use rand_core::RngCore;
use std::collections::HashMap;

pub fn generate(seed: u64, thorough: bool) -> Vec<Step> {
    let ops = [("repeat", 20), ("close-seeds", 16), ("restart", 12), ("users", 10), ("renewed", 10), ("aborted", 10), ("stream", 8), ("entries", 8), ("low-level", 8), ("draws", 4)];
    super::cases(&ops, if thorough { 14 } else { 7 }, seed)
}

/// A hidden value, as a multiple of the base point.
struct Val { name: String, point: RistrettoPoint }

struct World {
    key: Key, t: Scalar, lab: Lab,
    /// Everything seen so far, by what it would be confused with.
    seen: HashMap<[u8; 32], String>,
    /// The eight-byte parts of the blindings whose value is known, too: what is only partly shared,
    /// or only partly there, hides no more than the rest of it.
    words: HashMap<(usize, u64), ([u8; 32], String)>,
    vals: u64,
}

struct Holder { phone: Vec<u8>, m: Scalar, bytes: Vec<u8>, p: RistrettoPoint, q: RistrettoPoint, b: Option<Scalar> }
struct Entry { bytes: Vec<u8>, commitment: RistrettoPoint, z: Scalar }

impl World {
    /// Record hidden values, all of which must be unrelated to each other and to what is recorded.
    fn record(&mut self, ctx: &mut Ctx, vals: &[Val]) {
        let one = RISTRETTO_BASEPOINT_POINT;
        for v in vals {
            ctx.count("values");
            self.vals += 1;
            if v.point.is_identity() {
                ctx.bad(&["C08"], "blinding-missing", format!("{} is zero", v.name));
                continue;
            }
            // Up to a sign, a factor of two, and small differences.
            let mut keys: Vec<(RistrettoPoint, &str)> = vec![(v.point, ""), (-v.point, "minus "), (v.point + v.point, "twice ")];
            for d in 1u64..2 {
                keys.push((v.point + one * Scalar::from(d), "just below "));
                keys.push((v.point - one * Scalar::from(d), "just above "));
            }
            let mut fresh = Vec::new();
            for (p, how) in keys {
                let k = pb(&p);
                if let Some(o) = self.seen.get(&k) {
                    let o = o.clone();
                    ctx.bad(&["C08"], "values-related", format!("{} is {}{}", v.name, how, o));
                }
                fresh.push((k, how));
            }
            // Only the value itself and its double and negation go on record: relations are symmetric.
            for (k, how) in fresh.into_iter().take(3) { self.seen.entry(k).or_insert_with(|| format!("{}{}", how, v.name)); }
        }
    }

    fn record_parts(&mut self, ctx: &mut Ctx, name: &str, x: &Scalar) {
        let b = *x.as_bytes();
        for (i, w) in words(x).iter().enumerate() {
            ctx.count("parts");
            if *w == 0 { ctx.bad(&["C08"], "blinding-short", format!("{} is partly zero", name)); continue; }
            match self.words.get(&(i, *w)) {
                // The very same value is the other comparison's business.
                Some((o, n)) => if *o != b { let n = n.clone(); ctx.bad(&["C08"], "values-related", format!("{} is partly {}", name, n)); },
                None => { self.words.insert((i, *w), (b, name.into())); }
            }
        }
    }

    fn inspect(&mut self, ctx: &mut Ctx, name: &str, raw: &[u8], h: &Holder, e: &Entry) {
        let s = match SignalShown::parse(raw) { Some(s) => s, None => { ctx.count("event.unparsable"); return; } };
        let t = s.shown.clone();
        let (x0, x1) = (self.key.x0, self.key.x1);
        let it = self.t.invert();
        if t.p == h.p { ctx.bad(&["C08"], "not-rerandomised", format!("{}: the tag's nonce is shown as issued", name)); }
        let q2 = t.p * (x0 + x1 * h.m);
        if t.cq == h.q || t.cq == q2 { ctx.bad(&["C08"], "blinding-missing", format!("{}: the MAC is shown uncommitted", name)); }
        let mut v = Vec::new();
        let mut add = |n: &str, p: RistrettoPoint| v.push(Val { name: format!("{} of {}", n, name), point: p });
        add("P", t.p);
        if let Some(b) = h.b { add("the rerandomisation", t.p * b.invert()); }
        add("CQ", t.cq);
        add("Cm0", t.cm0);
        add("z0", (t.cm0 - t.p * h.m) * it);
        add("zQ", (t.cq - q2) * it);
        // The proofs' blindings.
        let vp = self.key.v_prime(&t);
        let mut pubs = rf::Pub::new();
        for (n, p) in &[("B", self.key.params.g), ("A", self.key.params.h), ("X0", self.key.big), ("P", t.p), ("V", vp), ("Cm0", t.cm0)] { pubs.insert(n, *p); }
        let coms = rf::VALID.recompute(&pubs, &t.proof);
        let rm = t.proof.r[0] - t.proof.c * h.m;
        let rz = (coms["Cm0"] - t.p * rm) * it;
        let rq = coms["V"] * it - rz * x1;
        let g = RISTRETTO_BASEPOINT_POINT;
        add("the first proof's blinding of m", g * rm);
        add("the first proof's blinding of z0", rz);
        add("the first proof's blinding of zQ", rq);
        let rp = rf::roster_pubs(&self.key.params, &t.p, &t.cm0, &s.entry);
        let coms = rf::EQUAL.recompute(&rp, &s.proof);
        let rm2 = s.proof.r[0] - s.proof.c * h.m;
        let rz2 = (coms["Cm0"] - t.p * rm2) * it;
        let rz1 = s.proof.r[2] - s.proof.c * e.z;
        add("the second proof's blinding of m", g * rm2);
        add("the second proof's blinding of z0", rz2);
        add("the second proof's blinding of the opening", g * rz1);
        add("the first proof's challenge", g * t.proof.c);
        add("the second proof's challenge", g * s.proof.c);
        for (i, r) in t.proof.r.iter().enumerate() { add(["response m", "response z0", "response zQ"][i], g * r); }
        for (i, r) in s.proof.r.iter().enumerate() { add(["second response m", "second response z0", "response z1"][i], g * r); }
        for (n, x) in &[("m", rm), ("m (2)", rm2), ("z1", rz1)] {
            if words(&-x).contains(&0) { ctx.bad(&["C08"], "blinding-short", format!("the blinding of {} in {}", n, name)); }
            self.record_parts(ctx, &format!("the blinding of {} in {}", n, name), x);
        }
        self.record(ctx, &v);
        // No secret, and nothing from the issuance, in the clear, in any encoding.
        let mut secrets: Vec<(&str, Vec<u8>)> = vec![("the attribute", h.m.as_bytes().to_vec()), ("the opening", e.z.as_bytes().to_vec()),
            ("P as issued", pb(&h.p).to_vec()), ("Q as issued", pb(&h.q).to_vec()), ("the MAC", pb(&q2).to_vec()),
            ("m·B", pb(&(g * h.m)).to_vec()), ("m·A", pb(&(self.key.params.h * h.m)).to_vec()), ("m·P", pb(&(t.p * h.m)).to_vec())];
        if h.phone.len() >= 8 { secrets.push(("the digits", h.phone.clone())); }
        let mut encodings = vec![raw.to_vec()];
        if let Ok(p) = SignalCredentialPresentation::from_bytes(raw) {
            if let Ok(b) = bincode::serialize(&p) { encodings.push(b); }
            if let Ok(j) = serde_json::to_value(&p) { let mut b = Vec::new(); numbers(&j, &mut b); encodings.push(b); }
        }
        for b in &encodings {
            for (n, x) in &secrets {
                let x = if x.len() > 16 { &x[..16] } else { &x[..] };
                if b.windows(x.len()).any(|w| w == x) { ctx.bad(&["C08"], "shown-in-the-clear", format!("{} in {}", n, name)); }
            }
        }
        if s.entry != e.commitment { ctx.bad(&["C08", "C03"], "other-entry", name.into()); }
    }
}

/// The only draws short enough to be told apart are those that start, after whole or truncated
/// draws before them, at a few places of the streams a presentation is made from.
fn short_draws(sd: &[u8; 32], fork: bool) -> Vec<Scalar> {
    let mut skips: Vec<Vec<usize>> = vec![vec![]];
    let lens = [8usize, 16, 32, 64];
    for a in &lens { skips.push(vec![*a]); for b in &lens { skips.push(vec![*a, *b]); } }
    let mut v = Vec::new();
    for s in &skips {
        for n in &[1usize, 2, 4, 8, 12, 16, 20, 24] {
            // (How much is asked for is part of what a transcript answers.)
            let mut r = SimRng(Source::seeded(*sd));
            let mut b = [0u8; 32];
            if fork {
                let mut t = Transcript::new(b"AEONFLUX SHOW").fork_transcript().reseed_from_rng(&mut r);
                for k in s { t.fill_bytes(&mut vec![0u8; *k]); }
                t.fill_bytes(&mut b[..*n]);
            } else {
                for k in s { r.fill_bytes(&mut vec![0u8; *k]); }
                r.fill_bytes(&mut b[..*n]);
            }
            v.push(Scalar::from_bytes_mod_order(b));
        }
    }
    v
}

fn numbers(j: &serde_json::Value, out: &mut Vec<u8>) {
    match j {
        serde_json::Value::Number(n) => out.push(n.as_u64().unwrap_or(0) as u8),
        serde_json::Value::Array(v) => for x in v { numbers(x, out) },
        serde_json::Value::Object(m) => for (_, x) in m { numbers(x, out) },
        serde_json::Value::String(s) => out.extend(s.as_bytes()),
        _ => {}
    }
}

fn holder(w: &World, rng: &mut Prng, phone: Vec<u8>, ours: bool) -> Result<Holder, Fail> {
    let m = m_of(&phone);
    let (raw, b) = if ours {
        let b = rng.scalar();
        let (p, q) = w.key.mac(&m, &b);
        let xt = rng.scalar();
        (rf::issuance_bytes(&w.key.params, &w.key.big, &p, &q, &m, &[w.key.x0, w.key.x1, xt, w.key.x1 * m], rng, &[]), Some(b))
    } else {
        (w.lab.issue(&phone, Source::healthy(rng.u64()), Source::healthy(rng.u64()))?.to_bytes(), None)
    };
    let i = rf::Issued::parse(&raw).ok_or_else(|| Fail::Rejected("issuance encoding".into()))?;
    let bytes = surface::obtain(Kind::Raw, &phone, &w.key.params.bytes(), &pb(&w.key.big), &raw)?;
    Ok(Holder { phone, m, bytes, p: i.p, q: i.q, b })
}
fn entry(w: &World, rng: &mut Prng, phone: &[u8]) -> Result<Entry, Fail> {
    let bytes = surface::entry_create(Kind::Raw, phone, &w.key.params.bytes(), &rng.seed32())?;
    let (c, z) = (pt(&bytes[..32]), sc(&bytes[32..64]));
    match (c, z) { (Some(commitment), Some(z)) => Ok(Entry { bytes, commitment, z }), _ => Err(Fail::Rejected("entry encoding".into())) }
}

fn system(ctx: &mut Ctx, rng: &mut Prng) {
    match rng.below(4) {
        0 => { ctx.count("fault.system entropy stuck"); set_system(Source::stuck(0)) }
        1 => { ctx.count("fault.system entropy stuck"); set_system(Source::stuck(rng.u64() as u8)) }
        2 => { ctx.count("fault.system entropy repeats"); set_system(Source::new(Mode::Repeat(rng.bytes(16)))) }
        _ => set_system(Source::healthy(rng.u64())),
    }
}

/// One presentation with the given seed, over a randomly chosen interface.
fn show(ctx: &mut Ctx, w: &mut World, rng: &mut Prng, h: &Holder, e: &Entry, seed: &[u8; 32], name: &str) {
    let k = *rng.pick(&surface::kinds());
    let k = if k == Kind::C && h.phone.is_empty() { Kind::Raw } else { k };
    system(ctx, rng);
    ctx.op();
    let r = surface::show(k, &h.bytes, &e.bytes, seed);
    ctx.ev(&[k as u64, r.is_ok() as u64, r.as_ref().map(|b| hash_bytes(b)).unwrap_or(0)], || format!("show {} over {:?}: {}", name, k, r.is_ok()));
    match r {
        Ok(raw) => { ctx.count("shows"); w.inspect(ctx, &format!("{} ({:?})", name, k), &raw, h, e) }
        Err(x) => { ctx.count("event.show-failed"); ctx.ev(&[], || format!("{:?}", x)) }
    }
}

pub fn execute(run: &Run, ctx: &mut Ctx) {
    let mut rng = Prng::new(run.seed);
    let t = rng.scalar();
    let params = Params { g: RISTRETTO_BASEPOINT_POINT, h: RISTRETTO_BASEPOINT_POINT * t };
    let key = Key::from_secrets(params, rng.scalar(), rng.scalar());
    let lab = match Lab::with(key.clone()) { Ok(l) => l, Err(_) => { ctx.count("event.setup-failed"); return; } };
    let mut w = World { key, t, lab, seen: HashMap::new(), words: HashMap::new(), vals: 0 };
    for (i, s) in run.steps.iter().enumerate() {
        ctx.step = i;
        ctx.report.sim_ms += 1000;
        let mut rng = Prng::new(s.seed);
        // The wire is the same to all: what one step saw, the next may link to.
        if let Err(e) = step(ctx, &mut w, s, &mut rng, i) { ctx.count("event.setup-failed"); ctx.ev(&[], || format!("setup failed: {:?}", e)); }
        ctx.state(mixes(&[hash_bytes(s.op.as_bytes()), s.a % 4, s.b % 4]));
    }
    ctx.add("compared", w.vals * w.vals.saturating_sub(1) / 2);
}

fn step(ctx: &mut Ctx, w: &mut World, s: &Step, rng: &mut Prng, i: usize) -> Result<(), Fail> {
    let phone = random_phone(rng);
    let ours = s.a % 3 != 0;
    let h = holder(w, rng, phone.clone(), ours)?;
    let e = entry(w, rng, &phone)?;
    // What the issuer knows from the issuance and the roster.
    let g = RISTRETTO_BASEPOINT_POINT;
    w.record(ctx, &[Val { name: format!("P issued in step {}", i), point: h.p }, Val { name: format!("the opening in step {}", i), point: g * e.z }]);
    w.seen.insert(pb(&(g * h.m)), "the attribute".into());
    w.record_parts(ctx, &format!("the opening in step {}", i), &e.z);
    let n = |k: u64| format!("presentation {}.{}", i, k);
    match &s.op[..] {
        "repeat" => for k in 0..3 { let sd = rng.seed32(); show(ctx, w, rng, &h, &e, &sd, &n(k)); },
        "close-seeds" => {
            let base = rng.seed32();
            show(ctx, w, rng, &h, &e, &base, &n(0));
            let bit = match s.b % 4 { 0 => rng.idx(256), 1 => 248 + rng.idx(8), 2 => rng.idx(8), _ => 64 + rng.idx(192) };
            let mut o = base; o[bit / 8] ^= 1 << (bit % 8);
            show(ctx, w, rng, &h, &e, &o, &n(1));
            let mut z = [0u8; 32]; z[rng.idx(32)] = 1 + rng.below(255) as u8;
            // Nearly-zero seeds occur once per run and position at most.
            if s.c % 4 == 0 { z[0] ^= i as u8; z[31] ^= s.seed as u8; z[15] ^= (s.seed >> 8) as u8; show(ctx, w, rng, &h, &e, &z, &n(2)); }
        }
        "restart" => {
            let mut h2 = Holder { phone: h.phone.clone(), m: h.m, bytes: h.bytes.clone(), p: h.p, q: h.q, b: h.b };
            for k in 0..3 {
                let sd = rng.seed32();
                show(ctx, w, rng, &h2, &e, &sd, &n(k));
                let kd = *rng.pick(&surface::RUST_KINDS);
                ctx.count("fault.crash and restart");
                let u: SignalUser = match SignalUser::from_bytes(&h.bytes) { Ok(u) => u, Err(_) => return Ok(()) };
                if let Ok(b) = surface::encode(kd, &u) { if let Ok(u) = surface::decode::<SignalUser>(kd, &b) { h2.bytes = u.to_bytes(); } }
            }
        }
        "users" => {
            for k in 0..2 {
                let sd = rng.seed32();
                show(ctx, w, rng, &h, &e, &sd, &n(2 * k));
                let p2 = if rng.chance(40) { phone.clone() } else { random_phone(rng) };
                let h2 = holder(w, rng, p2.clone(), ours)?;
                let e2 = entry(w, rng, &p2)?;
                let sd = rng.seed32();
                show(ctx, w, rng, &h2, &e2, &sd, &n(2 * k + 1));
            }
        }
        "renewed" => {
            for k in 0..3 {
                let h2 = holder(w, rng, phone.clone(), ours)?;
                let sd = rng.seed32();
                ctx.count("case.renewed");
                show(ctx, w, rng, &h2, &e, &sd, &n(k));
            }
        }
        "entries" => for k in 0..3 {
            let e2 = entry(w, rng, &phone)?;
            let sd = rng.seed32();
            show(ctx, w, rng, &h, &e2, &sd, &n(k));
        },
        "aborted" => {
            let u = attempt(|| SignalUser::from_bytes(&h.bytes))?;
            let re = attempt(|| signal_credential::phone_number::RosterEntryCommitment::from_bytes(&e.bytes))?;
            for k in 0..4 {
                let at = rng.below(4);
                let (sys, cal) = if rng.chance(50) { (Source::healthy(rng.u64()), Source::healthy(rng.u64()).failing(at)) } else { (Source::stuck(7).failing(at % 2), Source::healthy(rng.u64())) };
                ctx.count("fault.entropy fails mid-operation");
                if let Ok(p) = w.lab.show(&u, &re, cal, sys) { let raw = p.to_bytes(); w.inspect(ctx, &n(10 + k), &raw, &h, &e); }
                let p = w.lab.show(&u, &re, Source::healthy(rng.u64()), Source::stuck(7))?;
                let raw = p.to_bytes();
                ctx.count("shows");
                w.inspect(ctx, &n(k), &raw, &h, &e);
            }
        }
        "stream" => {
            // One long-lived generator, used over and over.
            let u = attempt(|| SignalUser::from_bytes(&h.bytes))?;
            let re = attempt(|| signal_credential::phone_number::RosterEntryCommitment::from_bytes(&e.bytes))?;
            let mut r = SimRng(Source::healthy(rng.u64()));
            for k in 0..4 {
                system(ctx, rng);
                let p = attempt(|| u.show(&mut r, &re))?;
                let raw = p.to_bytes();
                ctx.count("shows");
                w.inspect(ctx, &n(k), &raw, &h, &e);
            }
        }
        "draws" => {
            // What is drawn to blind with is as wide as what it blinds.
            let (mut single, mut several, mut openings) = (vec![], vec![], vec![]);
            let bytes = |x: &aeonflux::nonces::Ephemeral| a32(&x.to_bytes());
            let mut one = SimRng(Source::healthy(rng.u64()));
            let same = rng.chance(50);
            for _ in 0..48 {
                if !same { one = SimRng(Source::healthy(rng.u64())); }
                single.push(guarded(|| bytes(&aeonflux::nonces::Ephemeral::new(&mut one)))?);
                single.push(guarded(|| bytes(&aeonflux::nonces::Ephemeral::new(&mut one)))?);
                let v = guarded(|| aeonflux::nonces::Nonces::new(&mut one, 3))?;
                several.extend(v.iter().map(bytes));
                if v.iter().count() != 3 { ctx.bad(&["C08"], "nonces-miscounted", format!("{} for 3", v.iter().count())); }
            }
            let k = *rng.pick(&surface::kinds());
            let k = if phone.is_empty() && k == Kind::C { Kind::Raw } else { k };
            for _ in 0..96 { openings.push(a32(&surface::entry_create(k, &phone, &w.key.params.bytes(), &rng.seed32())?[32..64])); }
            ctx.add("ops", 48 * 3 + 96);
            for (d, what) in &[(single, "a blinding factor"), (several, "a set of nonces"), (openings, "a roster opening")] {
                if let Some(e) = unvaried(d) { ctx.bad(&["C08"], "draws-not-uniform", format!("{}: {}", what, e)); }
            }
        }
        _ => {
            // The generic layer, with nonces of the caller's.
            let u = attempt(|| SignalUser::from_bytes(&h.bytes))?;
            let it = w.t.invert();
            for k in 0..3 {
                system(ctx, rng);
                let mut r = SimRng(Source::healthy(rng.u64()));
                let nonces = guarded(|| aeonflux::nonces::Nonces::new(&mut r, 1))?;
                let sd = rng.seed32();
                let mut r = SimRng(Source::seeded(sd));
                let p = attempt(|| u.user.show(&nonces, &mut r))?.to_bytes();
                ctx.op();
                if let Some(s) = rf::Shown::parse(&p) {
                    let zq = (s.cq - s.p * (w.key.x0 + w.key.x1 * h.m)) * it;
                    if k == 0 { for fork in &[false, true] {
                        for x in short_draws(&sd, *fork) {
                            ctx.count("attack.short draw");
                            if h.p * x == s.p { ctx.bad(&["C08"], "blinding-short", format!("the rerandomisation of {}", n(k))); }
                            if g * x == zq || g * x == -zq { ctx.bad(&["C08"], "blinding-short", format!("the blinding of the MAC of {}", n(k))); }
                        }
                    } }
                    let q2 = s.p * (w.key.x0 + w.key.x1 * h.m);
                    let nm = n(k);
                    w.record_parts(ctx, &format!("the blinding of m in {}", nm), &(s.proof.r[0] - s.proof.c * h.m));
                    let mut v = vec![Val { name: format!("P of {}", nm), point: s.p }, Val { name: format!("z0 of {}", nm), point: (s.cm0 - s.p * h.m) * it },
                                 Val { name: format!("zQ of {}", nm), point: (s.cq - q2) * it },
                                 Val { name: format!("the blinding of m of {}", nm), point: g * (s.proof.r[0] - s.proof.c * h.m) }];
                    if let Some(b) = h.b { v.push(Val { name: format!("the rerandomisation of {}", nm), point: s.p * b.invert() }); }
                    w.record(ctx, &v);
                }
            }
        }
    }
    Ok(())
}
