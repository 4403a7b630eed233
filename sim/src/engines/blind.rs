//! Proof randomness under failing entropy: the blinding of every proof is
//! recovered with the secrets, and compared within the proof, with every other
//! proof made under the same (stuck, repeating, rolled back) entropy, and with
//! what an observer who knows that entropy would predict.
use crate::ctx::*;
use crate::entropy::*;
use crate::guard::*;
use crate::lab::*;
use crate::prove;
use crate::refimpl::{self as rf, Key, Params, Proof, Pub, Rel};
use crate::surface::{self, Kind};
use crate::util::*;
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as G;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use merlin::Transcript;
use std::collections::HashMap;

pub fn generate(seed: u64, thorough: bool) -> Vec<Step> {
    let ops = [("same-publics", 16), ("same-witnesses", 20), ("fresh", 10), ("predict", 12), ("issue", 18), ("show", 18), ("fresh-api", 10)];
    super::cases(&ops, if thorough { 24 } else { 10 }, seed)
}

/// All blindings recovered under one state of the entropy.
struct Book { seen: HashMap<[u8; 32], (String, u64)>, small: Vec<[u8; 32]>, words: HashMap<(usize, u64), ([u8; 32], String)> }

impl Book {
    fn new() -> Book { Book { seen: HashMap::new(), small: Vec::new(), words: HashMap::new() } }
    /// The blindings whose value is known: no part of one may be missing, or known, or that of another.
    fn parts(&mut self, ctx: &mut Ctx, what: &str, rs: &[(&str, Scalar)], known: &[(&str, Scalar)]) {
        for (n, x) in rs {
            let b = *x.as_bytes();
            let name = format!("{} of {}", n, what);
            for (i, w) in words(x).iter().enumerate() {
                ctx.count("parts");
                if *w == 0 { ctx.bad(&["C09"], "blinding-short", format!("{} is partly zero", name)); continue; }
                if let Some((k, _)) = known.iter().find(|(_, k)| words(k)[i] == *w) { ctx.bad(&["C09"], "blinding-is-known", format!("{} is partly {}", name, k)); continue; }
                match self.words.get(&(i, *w)) {
                    // The very same value is the other comparison's business.
                    Some((o, n)) => if *o != b { let n = n.clone(); ctx.bad(&["C09"], "blinding-shared", format!("{} is partly {}", name, n)); },
                    None => { self.words.insert((i, *w), (b, name.clone())); }
                }
            }
            if words(&-x).contains(&0) { ctx.bad(&["C09"], "blinding-short", name); }
        }
    }
    /// The blindings of one proof, as multiples of the base point; `id` identifies the proof itself.
    fn add(&mut self, ctx: &mut Ctx, what: &str, id: u64, r: &[(String, RistrettoPoint)], known: &[(&str, Scalar)]) {
        if self.small.is_empty() {
            for d in 0..17u64 { let p = G * Scalar::from(d); self.small.push(pb(&p)); self.small.push(pb(&-p)); }
        }
        ctx.add("blindings", r.len() as u64);
        let ks: Vec<(String, [u8; 32])> = known.iter().flat_map(|(n, k)| vec![(n.to_string(), pb(&(G * k))), (format!("minus {}", n), pb(&-(G * k)))]).collect();
        for (i, (n, p)) in r.iter().enumerate() {
            let b = pb(p);
            if self.small.contains(&b) { ctx.bad(&["C09"], "blinding-constant", format!("{} of {}", n, what)); continue; }
            if let Some((k, _)) = ks.iter().find(|(_, k)| *k == b) { ctx.bad(&["C09"], "blinding-is-known", format!("{} of {} is {}", n, what, k)); }
            for (n2, p2) in &r[..i] {
                if p == p2 || *p == -p2 { ctx.bad(&["C09"], "blinding-reused", format!("{} and {} of {}", n, n2, what)); }
            }
            match self.seen.get(&b) {
                // The very same proof again says nothing new.
                Some((o, oid)) if *oid != id => { let o = o.clone(); ctx.bad(&["C09"], "blinding-shared", format!("{} of {} is {}", n, what, o)) }
                _ => { self.seen.insert(b, (format!("{} of {}", n, what), id)); }
            }
        }
    }
}

/// Publics with these bases (those not on the left of an equation) and witnesses.
fn publics(rel: &Rel, bases: &Pub, w: &[Scalar]) -> Pub {
    let mut p = bases.clone();
    for (lhs, terms) in rel.eqs {
        let v = terms.iter().fold(rf::identity(), |a, (b, x)| a + p[b] * w[rel.wit(x)]);
        p.insert(lhs, v);
    }
    p
}
fn base_names(rel: &Rel) -> Vec<&'static str> { rel.publics.iter().filter(|p| !rel.eqs.iter().any(|e| e.0 == **p)).cloned().collect() }

struct Case { rel: &'static Rel, logs: HashMap<&'static str, Scalar>, bases: Pub, w: Vec<Scalar> }
fn case(rng: &mut Prng) -> Case {
    let rel = *rng.pick(&rf::ALL);
    let mut logs = HashMap::new();
    let mut bases = HashMap::new();
    for b in base_names(rel) {
        let x = if b == "B" { Scalar::one() } else { rng.scalar() };
        logs.insert(b, x);
        bases.insert(b, G * x);
    }
    let w = rel.witnesses.iter().map(|n| if n.starts_with('m') { m_of(&random_phone(rng)) } else { rng.scalar() }).collect();
    Case { rel, logs, bases, w }
}
/// Different secrets of the same public values.
fn other_witnesses(c: &Case, rng: &mut Prng) -> Vec<Scalar> {
    let mut w = c.w.clone();
    let d = rng.scalar();
    let t = c.logs["A"];
    match c.rel.name {
        "issuance_revealed" => { w[0] += d; w[3] -= d; w[2] -= d * t.invert(); }
        "valid_credential" => { let x = c.logs["X0"]; let dz = d * c.logs["P"] * t.invert(); w[0] += d; w[1] -= dz; w[2] += x * dz * t.invert(); }
        "committed_values_equal" => { w[0] += d; w[1] -= d * c.logs["P"] * t.invert(); w[2] -= d * t; }
        "attributes_blinded" => { w[3] += d; }
        _ => { w[1] += d; w[0] -= d * t.invert(); }
    }
    w
}
fn blindings(rel: &Rel, raw: &[u8], w: &[Scalar]) -> Option<(u64, Vec<(String, RistrettoPoint)>, Vec<Scalar>, Scalar)> {
    let p = Proof::from_bytes(raw, w.len())?;
    let r: Vec<Scalar> = p.r.iter().zip(w).map(|(r, w)| r - p.c * w).collect();
    Some((hash_bytes(raw), r.iter().enumerate().map(|(i, r)| (rel.witnesses[i].to_string(), G * r)).collect(), r, p.c))
}
fn bad_system(ctx: &mut Ctx, rng: &mut Prng) -> Source {
    match rng.below(4) {
        0 => { ctx.count("fault.system entropy stuck"); Source::stuck(0) }
        1 => { ctx.count("fault.system entropy stuck"); Source::stuck(0xff) }
        2 => { ctx.count("fault.system entropy repeats"); Source::new(Mode::Repeat(rng.bytes(32))) }
        _ => { ctx.count("fault.system entropy rolled back"); Source::healthy(rng.u64()) }
    }
}
fn prove_case(ctx: &mut Ctx, book: &mut Book, rel: &'static Rel, outer: &'static [u8], pubs: &Pub, w: &[Scalar], sys: &Source, what: &str) -> Option<Vec<Scalar>> {
    set_system(sys.clone());
    ctx.op();
    match prove::create(rel, outer, pubs, w) {
        Ok(raw) => {
            ctx.ev(&[hash_bytes(what.as_bytes())], || format!("{} {}", rel.name, what));
            let (id, r, rs, c) = blindings(rel, &raw, w)?;
            let mut known: Vec<(&str, Scalar)> = rel.witnesses.iter().cloned().zip(w.iter().cloned()).collect();
            known.push(("the challenge", c));
            book.add(ctx, &format!("{} ({})", rel.name, what), id, &r, &known);
            let named: Vec<(&str, Scalar)> = rel.witnesses.iter().cloned().zip(rs.iter().cloned()).collect();
            book.parts(ctx, &format!("{} ({})", rel.name, what), &named, &known);
            Some(rs)
        }
        Err(e) => { ctx.count("event.prove-failed"); ctx.ev(&[], || format!("{:?}", e)); None }
    }
}

pub fn execute(run: &Run, ctx: &mut Ctx) {
    for (i, s) in run.steps.iter().enumerate() {
        ctx.step = i;
        ctx.report.sim_ms += 500;
        let mut rng = Prng::new(s.seed);
        if let Err(e) = step(ctx, s, &mut rng) { ctx.count("event.setup-failed"); ctx.ev(&[], || format!("setup failed: {:?}", e)); }
        ctx.state(mixes(&[hash_bytes(s.op.as_bytes()), s.a % 8, s.b % 8]));
    }
}

fn step(ctx: &mut Ctx, s: &Step, rng: &mut Prng) -> Result<(), Fail> {
    let mut book = Book::new();
    match &s.op[..] {
        "same-publics" => {
            let c = case(rng);
            let p = publics(c.rel, &c.bases, &c.w);
            let sys = bad_system(ctx, rng);
            prove_case(ctx, &mut book, c.rel, c.rel.outer, &p, &c.w, &sys, "first");
            for _ in 0..3 {
                let w = other_witnesses(&c, rng);
                if !c.rel.holds(&p, &w) { ctx.count("event.not-a-witness"); continue; }
                prove_case(ctx, &mut book, c.rel, c.rel.outer, &p, &w, &sys, "with other secrets");
            }
            // Every secret by itself has to matter to the blindings (the prover does not check its statement).
            for (j, n) in c.rel.witnesses.iter().enumerate() {
                let mut w = c.w.clone();
                w[j] += if rng.chance(50) { Scalar::one() } else { rng.scalar() };
                prove_case(ctx, &mut book, c.rel, c.rel.outer, &p, &w, &sys, &format!("only {} other", n));
            }
        }
        "same-witnesses" => {
            let c = case(rng);
            let sys = bad_system(ctx, rng);
            let p = publics(c.rel, &c.bases, &c.w);
            prove_case(ctx, &mut book, c.rel, c.rel.outer, &p, &c.w, &sys, "first");
            for b in base_names(c.rel) {
                let mut bases = c.bases.clone();
                bases.insert(b, rng.point());
                prove_case(ctx, &mut book, c.rel, c.rel.outer, &publics(c.rel, &bases, &c.w), &c.w, &sys, &format!("other {}", b));
            }
            for (j, n) in c.rel.witnesses.iter().enumerate() {
                let mut w = c.w.clone();
                w[j] += if rng.chance(50) { Scalar::one() } else { rng.scalar() };
                prove_case(ctx, &mut book, c.rel, c.rel.outer, &publics(c.rel, &c.bases, &w), &w, &sys, &format!("other {}", n));
            }
            prove_case(ctx, &mut book, c.rel, b"another transcript", &p, &c.w, &sys, "another transcript");
        }
        "fresh" => {
            let c = case(rng);
            let p = publics(c.rel, &c.bases, &c.w);
            let base = rng.seed32();
            for k in 0..4 {
                let mut sd = base;
                if k > 0 { let b = rng.idx(256); sd[b / 8] ^= 1 << (b % 8); if sd == base { sd[0] ^= 1; } sd[16] ^= k as u8 * 16; }
                prove_case(ctx, &mut book, c.rel, c.rel.outer, &p, &c.w, &Source::seeded(sd), &format!("draw {}", k));
            }
        }
        "predict" => {
            let c = case(rng);
            let p = publics(c.rel, &c.bases, &c.w);
            let stuck = *rng.pick(&[0u8, 0xff, 1, 0x55]);
            ctx.count("fault.system entropy stuck");
            if let Some(r) = prove_case(ctx, &mut book, c.rel, c.rel.outer, &p, &c.w, &Source::stuck(stuck), "observed") { predict(ctx, &c, &p, &r, stuck); }
        }
        "issue" | "show" | "fresh-api" => api(ctx, s, rng)?,
        _ => {}
    }
    Ok(())
}

/// What someone who knows the system's entropy, the public values and some of the secrets can compute.
fn predict(ctx: &mut Ctx, c: &Case, p: &Pub, r: &[Scalar], stuck: u8) {
    let rel = c.rel;
    let guess = |with: &[usize], reseed: bool, publics: usize| -> Vec<Scalar> {
        let mut t = Transcript::new(if publics == 0 { b"" } else { rel.outer });
        if publics == 2 {
            t.commit_bytes(b"domain-sep", rel.name.as_bytes());
            for n in rel.publics { t.commit_bytes(n.as_bytes(), &pb(&p[n])); }
        }
        let mut f = t.fork_transcript();
        for j in with { f = f.commit_witness_bytes(rel.witnesses[*j].as_bytes(), c.w[*j].as_bytes()); }
        // (Not reseeding is reseeding with nothing but zeros, as far as an observer goes.)
        let mut g = f.reseed_from_rng(&mut SimRng(Source::stuck(if reseed { stuck } else { 0 })));
        rel.witnesses.iter().map(|_| rf::wide(&mut g)).collect()
    };
    let low: Vec<usize> = rel.witnesses.iter().enumerate().filter(|(_, n)| n.starts_with('m')).map(|(j, _)| j).collect();
    let mut sets = vec![vec![]];
    if !low.is_empty() && rel.name != "issuance_revealed" { sets.push(low); }
    let n = rel.witnesses.len();
    for j in 0..n { sets.push((0..n).filter(|k| *k != j).collect()); }
    for with in &sets {
        for publics in 0..3 {
            for reseed in &[true, false] {
                ctx.count("attack.predict blinding");
                let g = guess(with, *reseed, publics);
                if g.iter().any(|x| r.contains(x)) {
                    ctx.bad(&["C09"], "blinding-predictable", format!("{}: the blinding follows from public values{} and the stuck entropy", rel.name, if with.is_empty() { String::new() } else { format!(" and {:?}", with.iter().map(|j| rel.witnesses[*j]).collect::<Vec<_>>()) }));
                    return;
                }
            }
        }
    }
    let k = Scalar::from_bytes_mod_order_wide(&[stuck; 64]);
    if r.contains(&k) { ctx.bad(&["C09"], "blinding-predictable", format!("{}: the blinding is the system's entropy alone", rel.name)); }
}

/// Blindings of an issuance, as multiples of the base point.
fn issued(ctx: &mut Ctx, book: &mut Book, key: &Key, t: &Scalar, raw: &[u8], what: &str) {
    let i = match rf::Issued::parse(raw) { Some(i) => i, None => return };
    let c = i.proof.c;
    let coms = rf::ISSUANCE.recompute(&rf::issuance_pubs(&key.params, &key.big, &i.p, &i.q, &i.cx0), &i.proof);
    let r0 = i.proof.r[0] - c * key.x0;
    let rt = (coms["Cx0"] - G * r0) * t.invert();
    let (r1, r3) = (i.proof.r[1] - c * key.x1, i.proof.r[3] - c * key.x1 * i.m);
    book.parts(ctx, what, &[("x0", r0), ("x1", r1), ("m1x1", r3)], &[("x0", key.x0), ("x1", key.x1), ("m", i.m), ("c", c)]);
    let r: Vec<(String, RistrettoPoint)> = vec![("x0".into(), G * r0), ("x1".into(), G * r1), ("x0_tilde".into(), rt),
        ("m1x1".into(), G * r3)];
    book.add(ctx, what, hash_bytes(&i.proof.to_bytes()), &r, &[("x0", key.x0), ("x1", key.x1), ("m", i.m), ("c", c)]);
}
/// Blindings of both proofs of a presentation.
fn shown(ctx: &mut Ctx, book: &mut Book, key: &Key, t: &Scalar, m: &Scalar, z1: &Scalar, raw: &[u8], what: &str) {
    let s = match rf::SignalShown::parse(raw) { Some(s) => s, None => return };
    let it = t.invert();
    let v = s.shown.clone();
    let mut pubs = Pub::new();
    for (n, p) in &[("B", key.params.g), ("A", key.params.h), ("X0", key.big), ("P", v.p), ("V", key.v_prime(&v)), ("Cm0", v.cm0)] { pubs.insert(n, *p); }
    let coms = rf::VALID.recompute(&pubs, &v.proof);
    let rm = v.proof.r[0] - v.proof.c * m;
    let rz = (coms["Cm0"] - v.p * rm) * it;
    let rq = coms["V"] * it - rz * key.x1;
    book.add(ctx, &format!("the credential proof of {}", what), hash_bytes(&v.proof.to_bytes()),
             &[("m".into(), G * rm), ("z0".into(), rz), ("zQ".into(), rq)], &[("m", *m), ("c", v.proof.c)]);
    book.parts(ctx, &format!("the credential proof of {}", what), &[("m", rm)], &[("m", *m), ("c", v.proof.c)]);
    let coms = rf::EQUAL.recompute(&rf::roster_pubs(&key.params, &v.p, &v.cm0, &s.entry), &s.proof);
    let rm = s.proof.r[0] - s.proof.c * m;
    let rz1 = s.proof.r[2] - s.proof.c * z1;
    book.parts(ctx, &format!("the roster proof of {}", what), &[("m", rm), ("z1", rz1)], &[("m", *m), ("z1", *z1), ("c", s.proof.c)]);
    book.add(ctx, &format!("the roster proof of {}", what), hash_bytes(&s.proof.to_bytes()),
             &[("m".into(), G * rm), ("z0".into(), (coms["Cm0"] - v.p * rm) * it), ("z1".into(), G * rz1)], &[("m", *m), ("z1", *z1), ("c", s.proof.c)]);
}

fn key(rng: &mut Prng, x: Option<(Scalar, Scalar)>) -> (Key, Scalar) {
    let t = rng.scalar();
    let (x0, x1) = x.unwrap_or_else(|| (rng.scalar(), rng.scalar()));
    (Key::from_secrets(Params { g: G, h: G * t }, x0, x1), t)
}

fn api(ctx: &mut Ctx, s: &Step, rng: &mut Prng) -> Result<(), Fail> {
    let mut book = Book::new();
    let (k1, t1) = key(rng, None);
    // The same secrets under other parameters, half the same secrets, another key.
    let (k2, t2) = match rng.below(3) { 0 => key(rng, Some((k1.x0, k1.x1))), 1 => { let x = rng.scalar(); key(rng, Some((k1.x0, x))) } _ => key(rng, None) };
    let seed = match rng.below(3) { 0 => [0; 32], 1 => [0xff; 32], _ => rng.seed32() };
    let sys = bad_system(ctx, rng);
    let mut phones = vec![random_phone(rng), random_phone(rng)];
    let mut p = phones[0].clone(); if p.is_empty() { p.push(1) } else { let n = p.len(); p[n - 1] = (p[n - 1] + 1) % 10; }
    phones.push(p);
    let kinds = surface::kinds();
    let pick = |rng: &mut Prng, ph: &[u8]| { let k = *rng.pick(&kinds); if ph.is_empty() && k == Kind::C { Kind::Raw } else { k } };
    match &s.op[..] {
        "issue" => {
            ctx.count("fault.caller entropy rolled back");
            for (key, t) in &[(&k1, t1), (&k2, t2)] {
                for ph in &phones {
                    let kd = pick(rng, ph);
                    set_system(sys.clone());
                    ctx.op();
                    let raw = surface::issue(kd, &key.bytes(), ph, &seed)?;
                    issued(ctx, &mut book, key, t, &raw, &format!("an issuance for {:?} over {:?}", ph, kd));
                }
                // The same stuck generator, straight from Rust.
                let lab = Lab::with((*key).clone())?;
                for ph in &phones {
                    ctx.count("fault.caller entropy stuck");
                    let raw = lab.issue(ph, Source::stuck(seed[0]), sys.clone())?.to_bytes();
                    issued(ctx, &mut book, key, t, &raw, "an issuance with a stuck generator");
                }
            }
        }
        "show" => {
            ctx.count("fault.caller entropy rolled back");
            for (key, t) in &[(&k1, t1), (&k2, t2)] {
                for ph in phones.iter().take(2) {
                    let m = m_of(ph);
                    let pb_ = key.params.bytes();
                    for renewal in 0..2 {
                        let raw = key.issue(&m, rng);
                        let user = surface::obtain(Kind::Raw, ph, &pb_, &pb(&key.big), &raw)?;
                        for e in 0..2 {
                            let entry = surface::entry_create(Kind::Raw, ph, &pb_, &rng.seed32())?;
                            let z1 = sc(&entry[32..64]).ok_or_else(|| Fail::Rejected("entry".into()))?;
                            let kd = pick(rng, ph);
                            set_system(sys.clone());
                            ctx.op();
                            let raw = surface::show(kd, &user, &entry, &seed)?;
                            shown(ctx, &mut book, key, t, &m, &z1, &raw, &format!("presentation {}/{} of {:?} over {:?}", renewal, e, ph, kd));
                        }
                    }
                }
            }
        }
        _ => {
            // One source works: everything is fresh, even about the same thing.
            let ph = &phones[0];
            let m = m_of(ph);
            let lab = Lab::with(k1.clone())?;
            let caller_fails = s.a % 2 == 0;
            let u = lab.holder(ph, rng.u64())?;
            let e = lab.entry(ph, rng.u64())?;
            let z1 = sc(&e.to_bytes()[32..64]).ok_or_else(|| Fail::Rejected("entry".into()))?;
            for k in 0..3 {
                let (cal, sy) = if caller_fails { ctx.count("fault.caller entropy stuck"); (Source::seeded(seed), Source::healthy(rng.u64())) } else { (Source::healthy(rng.u64()), sys.clone()) };
                let raw = lab.issue(ph, cal.clone(), sy.clone())?.to_bytes();
                issued(ctx, &mut book, &k1, &t1, &raw, &format!("issuance {}", k));
                let raw = lab.show(&u, &e, cal, sy)?.to_bytes();
                ctx.add("ops", 2);
                shown(ctx, &mut book, &k1, &t1, &m, &z1, &raw, &format!("presentation {}", k));
                // A repeated proof is a repeated blinding here.
                let n = book.seen.len();
                if n != (k as usize + 1) * 10 { ctx.bad(&["C09"], "not-fresh", format!("{} blindings after {} exchanges with one good source", n, k + 1)); break; }
            }
        }
    }
    Ok(())
}
