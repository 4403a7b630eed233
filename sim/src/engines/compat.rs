//! Other implementations and other releases: the reference implementation takes every
//! role against the library through every interface, and verdicts on the same bytes agree.
use crate::ctx::*;
use crate::entropy::*;
use crate::golden;
use crate::guard::*;
use crate::lab::*;
use crate::make;
use crate::refimpl::{self as rf, Issued, Key, ShowOpts, Shower, SignalShown};
use crate::surface::{self as sf, Kind, Wire};
use crate::util::*;
use aeonflux::{amacs, elgamal};
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
use signal_credential::credential::*;
use signal_credential::issuer::SignalIssuer;
use signal_credential::parameters::SystemParameters;
use signal_credential::phone_number::*;
use signal_credential::user::SignalUser;
use super::world::{mutate, otherwise_written};

pub fn generate(seed: u64, thorough: bool) -> Vec<Step> {
    let ops = [("foreign-issuer", 20), ("foreign-user", 20), ("foreign-verifier", 20), ("entries", 12), ("verdict-issuance", 25), ("verdict-presentation", 25), ("verdict-roster", 20),
               ("forms", 15), ("text", 10), ("mac", 10), ("encryption", 10), ("golden", 6), ("chain", 12)];
    super::cases(&ops, if thorough { 70 } else { 36 }, seed)
}

fn some_phone(rng: &mut Prng) -> Vec<u8> {
    let mut d = random_phone(rng);
    if d.is_empty() { d.push(3); }
    // Callers hand over whatever bytes they have.
    match rng.below(12) {
        0 => for x in d.iter_mut() { *x += b'0'; },
        1 => { let i = rng.idx(d.len()); d[i] = rng.below(256) as u8; }
        2 => { d[0] = *rng.pick(&[15, 10, 43, 48, 255]); }
        3 => { let i = d.len() - 1; d[i] = *rng.pick(&[15, 10, 0, 32, 255]); }
        _ => {}
    }
    d
}

struct W { key: Key, phone: Vec<u8>, params: Vec<u8>, iparams: Vec<u8>, issuer: Vec<u8>, cache: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> }

impl W {
    /// Genuine (issuance, holder, presentation) by the reference implementation.
    fn genuine(&mut self, rng: &mut Prng) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
        if self.cache.len() > 2 || (!self.cache.is_empty() && rng.chance(60)) { let i = rng.idx(self.cache.len()); return self.cache[i].clone(); }
        let m = m_of(&self.phone);
        let iss = self.key.issue(&m, rng);
        let user = user_bytes(&self.key, &m, Some(&iss));
        let pres = show(&user, rng);
        self.cache.push((iss.clone(), user.clone(), pres.clone()));
        (iss, user, pres)
    }
}

/// The saved form of a user, as documented.
fn user_bytes(key: &Key, m: &curve25519_dalek::scalar::Scalar, iss: Option<&[u8]>) -> Vec<u8> {
    let mut v = rf::cat(&[m.as_bytes(), &key.params.bytes(), &pb(&key.big), &[0; 64]]);
    match iss { Some(i) => v.extend(&i[32..128]), None => v.extend(&[0u8; 96][..]) }
    v
}

fn show(user: &[u8], rng: &mut Prng) -> Vec<u8> {
    let s = Shower::from_user(user).unwrap();
    let z = rng.scalar();
    s.show(&ShowOpts { entry: rf::entry(&s.params, &s.m, &z), entry_m: s.m, entry_z: z, omit: &[], omit_roster: &[], rerandomize: true }, rng).bytes()
}

fn need(ctx: &mut Ctx, what: &str, r: Result<Vec<u8>, Fail>) -> Option<Vec<u8>> {
    match r { Ok(b) => Some(b), Err(e) => { ctx.bad(&["C11"], "not-understood", format!("{}: {:?}", what, e)); None } }
}

pub fn execute(run: &Run, ctx: &mut Ctx) {
    let mut rng = Prng::new(run.seed);
    set_system(Source::healthy(rng.u64()));
    let key = random_key(&mut rng);
    let mut w = W { phone: some_phone(&mut rng), params: key.params.bytes(), iparams: pb(&key.big).to_vec(), issuer: key.bytes(), key, cache: vec![] };
    for (i, s) in run.steps.iter().enumerate() {
        ctx.step = i;
        ctx.report.sim_ms += 10;
        ctx.op();
        let mut rng = Prng::new(s.seed);
        set_system(Source::healthy(rng.u64()));
        let ks = sf::kinds();
        let k = ks[s.a as usize % ks.len()];
        ctx.count(&format!("event.{} with {:?}", s.op, k));
        step(ctx, &mut w, s, k, &mut rng);
    }
}

fn confirm(ctx: &mut Ctx, w: &W, k: Kind, pres: &[u8], what: &str) {
    let v = match need(ctx, &format!("{}: presentation at a {:?} issuer", what, k), sf::verify(k, &w.issuer, pres)) { Some(v) => v, None => return };
    if v != pres { ctx.bad(&["C11"], "verified-differs", format!("{} ({:?})", what, k)); }
    if let Some(c) = need(ctx, &format!("{}: membership at a {:?} issuer", what, k), sf::roster(k, &w.issuer, &v)) {
        if c[..] != pres[..32] { ctx.bad(&["C11", "C03"], "confirmed-differs", format!("{} ({:?})", what, k)); }
    }
}

fn foreign_check(ctx: &mut Ctx, w: &W, pres: &[u8], what: &str) {
    match SignalShown::parse(pres) {
        Some(ref s) if pres.len() == 448 => {
            if !w.key.verify(&s.shown) { ctx.bad(&["C11"], "not-understood", format!("{}: another implementation refuses the presentation {}", what, hex(pres))); }
            else if !w.key.verify_roster(s) { ctx.bad(&["C11"], "not-understood", format!("{}: another implementation refuses the membership proof {}", what, hex(pres))); }
        }
        _ => ctx.bad(&["C11"], "not-understood", format!("{}: another implementation cannot read the presentation {}", what, hex(pres))),
    }
}

fn step(ctx: &mut Ctx, w: &mut W, s: &Step, k: Kind, rng: &mut Prng) {
    let ks = sf::kinds();
    let m = m_of(&w.phone);
    ctx.state(mixes(&[hash_bytes(s.op.as_bytes()), k as u64, w.phone.len() as u64]));
    ctx.ev(&[hash_bytes(s.op.as_bytes()), k as u64], || format!("{} with {:?}", s.op, k));
    match &s.op[..] {
        "foreign-issuer" => {
            let iss = w.key.issue(&m, rng);
            let u = match need(ctx, &format!("an issuance by another implementation ({:?})", k), sf::obtain(k, &w.phone, &w.params, &w.iparams, &iss)) { Some(u) => u, None => return };
            if u != user_bytes(&w.key, &m, Some(&iss)) { ctx.bad(&["C11", "C06"], "saved-user-differs", format!("({:?}) {}", k, hex(&u))); return; }
            // It presents it, and another implementation checks.
            let z = rng.scalar();
            let e = rf::cat(&[&pb(&rf::entry(&w.key.params, &m, &z)), z.as_bytes()]);
            if let Some(p) = need(ctx, &format!("another implementation's roster entry ({:?})", k), sf::show(k, &u, &e, &rng.seed32())) {
                foreign_check(ctx, w, &p, &format!("shown by {:?}", k));
                if p.len() == 448 && p[..32] != e[..32] { ctx.bad(&["C11", "C03"], "shown-entry-differs", format!("{:?}", k)); }
            }
        }
        "foreign-user" => {
            // Issued by the library, held and shown by another implementation, verified by the library.
            let iss = match need(ctx, &format!("issuing ({:?}) with another implementation's key", k), sf::issue(k, &w.issuer, &w.phone, &rng.seed32())) { Some(i) => i, None => return };
            match Issued::parse(&iss) {
                Some(ref i) if iss.len() == 328 => if !i.accept(&w.key.params, &w.key.big, &m) { ctx.bad(&["C11"], "not-understood", format!("another implementation refuses the issuance ({:?}) {}", k, hex(&iss))); return; },
                _ => { ctx.bad(&["C11"], "not-understood", format!("another implementation cannot read the issuance ({:?}) {}", k, hex(&iss))); return; }
            }
            let p = show(&user_bytes(&w.key, &m, Some(&iss)), rng);
            let j = *rng.pick(&ks);
            confirm(ctx, w, j, &p, &format!("issued by {:?}, shown by another implementation", k));
        }
        "foreign-verifier" => {
            let (_, u, _) = w.genuine(rng);
            let j = *rng.pick(&ks);
            let e = match need(ctx, &format!("an entry ({:?})", j), sf::entry_create(j, &w.phone, &w.params, &rng.seed32())) { Some(e) => e, None => return };
            if let Some(p) = need(ctx, &format!("a user saved by another implementation ({:?})", k), sf::show(k, &u, &e, &rng.seed32())) {
                foreign_check(ctx, w, &p, &format!("shown by {:?}", k));
                let i = *rng.pick(&ks);
                confirm(ctx, w, i, &p, &format!("shown by {:?}", k));
            }
        }
        "entries" => {
            let e = match need(ctx, &format!("an entry ({:?})", k), sf::entry_create(k, &w.phone, &w.params, &rng.seed32())) { Some(e) => e, None => return };
            let z = if e.len() == 64 { sc(&e[32..]) } else { None };
            match z { Some(z) => if e[..32] != pb(&rf::entry(&w.key.params, &m, &z)) { ctx.bad(&["C11"], "entry-differs", format!("({:?}) {}", k, hex(&e))); }, None => { ctx.bad(&["C11"], "not-understood", format!("another implementation cannot read the entry ({:?}) {}", k, hex(&e))); return; } }
            let z = rng.scalar();
            let f = rf::cat(&[&pb(&rf::entry(&w.key.params, &m, &z)), z.as_bytes()]);
            for j in &ks {
                for (x, n) in &[(&e, "a library's"), (&f, "another implementation's")] {
                    if sf::entry_open(*j, x, &w.phone, &w.params) != Ok(true) { ctx.bad(&["C11"], "not-understood", format!("{:?} does not open {} entry", j, n)); }
                    match sf::entry_remove_opening(*j, x) { Ok(c) => if c[..] != x[..32] { ctx.bad(&["C11"], "entry-differs", format!("without opening ({:?})", j)); }, Err(e) => ctx.bad(&["C11"], "not-understood", format!("{:?} does not read {} entry: {:?}", j, n, e)) }
                }
            }
        }
        "verdict-issuance" | "verdict-presentation" | "verdict-roster" => {
            let issuance = s.op == "verdict-issuance";
            let (iss, u, pres) = w.genuine(rng);
            let others: Vec<Vec<u8>> = w.cache.iter().map(|c| if issuance { c.0.clone() } else { c.2.clone() }).collect();
            let specials: Vec<[u8; 32]> = vec![[0; 32], pb(&RISTRETTO_BASEPOINT_POINT), pb(&w.key.params.h), pb(&w.key.big)];
            let mut b = if issuance { iss } else if rng.chance(50) { pres } else { show(&u, rng) };
            let full = b.len();
            let mut how = String::from("intact");
            for _ in 0..rng.below(3) { how = mutate(&mut b, issuance, rng.u64() % 13, rng, &others, &specials); ctx.count(&format!("fault.message {}", how)); }
            // Another implementation's verdict, for messages of the right length.
            let want = if b.len() != full { None } else if issuance { Some(Issued::parse(&b).map(|i| i.accept(&w.key.params, &w.key.big, &m)).unwrap_or(false)) }
                else if s.op == "verdict-roster" { Some(SignalShown::parse(&b).map(|s| w.key.verify_roster(&s)).unwrap_or(false)) }
                else { Some(SignalShown::parse(&b).map(|s| w.key.verify(&s.shown)).unwrap_or(false)) };
            let got: Vec<(Kind, Result<Vec<u8>, Fail>)> = ks.iter().map(|k| (*k, match &s.op[..] {
                "verdict-issuance" => sf::obtain(*k, &w.phone, &w.params, &w.iparams, &b),
                "verdict-roster" => sf::roster(*k, &w.issuer, &b),
                _ => sf::verify(*k, &w.issuer, &b),
            })).collect();
            ctx.state(mixes(&[hash_bytes(how.as_bytes()), got[0].1.is_ok() as u64]));
            for (k, r) in &got {
                if let Some(x) = want { if r.is_ok() != x { ctx.bad(&["C11"], "verdicts-differ", format!("{} ({}): {:?} {}, another implementation {}: {}", s.op, how, k, if r.is_ok() { "accepts" } else { "refuses" }, if x { "accepts" } else { "refuses" }, hex(&b))); } }
                if r.is_ok() != got[0].1.is_ok() { ctx.bad(&["C11"], "verdicts-differ", format!("{} ({}): {:?} {}, {:?} does not: {}", s.op, how, k, if r.is_ok() { "accepts" } else { "refuses" }, got[0].0, hex(&b))); }
                if let (Ok(x), Ok(y)) = (r, &got[0].1) { if x != y { ctx.bad(&["C11"], "results-differ", format!("{}: {:?} and {:?}", s.op, k, got[0].0)); } }
            }
        }
        "forms" => {
            // The encodings as other programs read and write them.
            let (iss, u, pres) = w.genuine(rng);
            let z = rng.scalar();
            let e = rf::cat(&[&pb(&rf::entry(&w.key.params, &m, &z)), z.as_bytes()]);
            let d = rng.scalar();
            let eg = rf::cat(&[d.as_bytes(), &pb(&(RISTRETTO_BASEPOINT_POINT * d))]);
            let mut u2 = u.clone();
            u2[128..192].copy_from_slice(&eg);
            form::<SystemParameters>(ctx, &w.params);
            form::<amacs::Keypair>(ctx, &w.issuer[64..]);
            form::<amacs::PublicKey>(ctx, &w.iparams);
            form::<amacs::SecretKey>(ctx, &w.issuer[96..]);
            form::<amacs::Tag>(ctx, &iss[32..96]);
            form::<SignalIssuer>(ctx, &w.issuer);
            form::<aeonflux::issuer::Issuer>(ctx, &w.issuer);
            form::<aeonflux::user::User>(ctx, &u[32..]);
            form::<SignalUser>(ctx, &u);
            form::<SignalUser>(ctx, &u2);
            form::<SignalUser>(ctx, &user_bytes(&w.key, &m, None));
            form::<aeonflux::credential::Credential>(ctx, &iss[32..128]);
            form::<aeonflux::credential::CredentialRequest>(ctx, &iss[96..128]);
            form::<SignalCredentialIssuance>(ctx, &iss);
            form::<aeonflux::credential::CredentialPresentation>(ctx, &pres[32..288]);
            form::<aeonflux::credential::VerifiedCredential>(ctx, &pres[32..288]);
            form::<SignalCredentialPresentation>(ctx, &pres);
            form::<VerifiedSignalCredential>(ctx, &pres);
            form::<PhoneNumber>(ctx, m.as_bytes());
            form::<CommittedPhoneNumber>(ctx, &pres[..32]);
            form::<RosterEntryCommitment>(ctx, &e);
            form::<aeonflux::pedersen::Commitment>(ctx, &pres[..32]);
            form::<elgamal::PublicKey>(ctx, &eg[32..]);
            form::<elgamal::SecretKey>(ctx, &eg[..32]);
            form::<elgamal::Keypair>(ctx, &eg);
            strict::<amacs::Keypair>(ctx, &w.issuer[64..], &[32, 64], &[0], rng);
            strict::<amacs::SecretKey>(ctx, &w.issuer[96..], &[0, 32], &[], rng);
            strict::<amacs::PublicKey>(ctx, &w.iparams, &[], &[0], rng);
            strict::<amacs::Tag>(ctx, &iss[32..96], &[], &[0, 32], rng);
            strict::<SystemParameters>(ctx, &w.params, &[], &[0, 32], rng);
            strict::<SignalIssuer>(ctx, &w.issuer, &[96, 128], &[0, 32, 64], rng);
            strict::<SignalUser>(ctx, &u2, &[128, 256], &[32, 64, 96, 160, 192, 224], rng);
            strict::<aeonflux::credential::Credential>(ctx, &iss[32..128], &[64], &[0, 32], rng);
            strict::<aeonflux::credential::CredentialRequest>(ctx, &iss[96..128], &[0], &[], rng);
            strict::<elgamal::SecretKey>(ctx, &eg[..32], &[0], &[], rng);
            strict::<elgamal::Keypair>(ctx, &eg, &[0], &[32], rng);
            strict::<aeonflux::pedersen::Commitment>(ctx, &pres[..32], &[], &[0], rng);
        }
        "text" => {
            // As people write numbers, and as other programs have taken them so far.
            let d = random_phone(rng);
            let mut t: String = d.iter().map(|x| (b'0' + x) as char).collect();
            for _ in 0..rng.below(4) {
                let c = *rng.pick(&['+', ' ', '-', '(', ')', '.', '/', 'x', '\u{e9}', '\0', ':', 'O', '\u{1F4DE}']);
                let i = rng.idx(t.len() + 1);
                if t.is_char_boundary(i) { t.insert(i, c); }
            }
            let want = if t.len() > 27 { None } else { Some(m_of(&t.bytes().map(|b| if b >= b'0' && b <= b'9' { b - b'0' } else { 15 }).collect::<Vec<u8>>())) };
            let got = attempt(|| PhoneNumber::try_from_string(&t));
            match (&got, want) {
                (Ok(n), Some(x)) if n.to_bytes()[..] != x.as_bytes()[..] => ctx.bad(&["C11"], "text-differs", format!("{:?}: another implementation has {}", t, hex(x.as_bytes()))),
                (Err(e), Some(_)) => ctx.bad(&["C11"], "text-differs", format!("{:?}: {:?}, another implementation takes it", t, e)),
                (Ok(_), None) => ctx.bad(&["C11", "C14"], "text-differs", format!("{:?} is too long", t)),
                _ => {}
            }
        }
        "mac" => {
            let kp = match amacs::Keypair::from_bytes(&w.issuer[64..]) { Ok(k) => k, Err(e) => { ctx.bad(&["C11"], "not-understood", format!("{:?}", e)); return; } };
            let x = rng.scalar();
            let (p, q) = w.key.mac(&x, &rng.scalar());
            if attempt(|| kp.secret.verify(&make::tag(p, q), &amacs::Message(vec![x]))).is_err() { ctx.bad(&["C11"], "not-understood", "a MAC by another implementation".into()); }
            if let Ok(t) = attempt(|| kp.secret.mac(&amacs::Message(vec![x]), &mut sim(rng.u64()))) {
                if t.mac != t.nonce * (w.key.x0 + w.key.x1 * x) { ctx.bad(&["C11"], "not-understood", "another implementation refuses a MAC".into()); }
            } else { ctx.bad(&["C11"], "not-understood", "no MAC".into()); }
            match guarded(|| kp.secret.get_public_key(&w.key.params.h)) { Ok(p) => if p.to_bytes() != w.iparams { ctx.bad(&["C11", "C12"], "public-key-differs", String::new()); }, Err(e) => ctx.bad(&["C11", "C07"], "panic", format!("{:?}", e)) }
        }
        "encryption" => {
            let (d, z) = (rng.scalar(), rng.scalar());
            let big = RISTRETTO_BASEPOINT_POINT * d;
            let eg = rf::cat(&[d.as_bytes(), &pb(&big)]);
            let kp = match elgamal::Keypair::from_bytes(&eg) { Ok(k) => k, Err(e) => { ctx.bad(&["C11"], "not-understood", format!("an encryption key: {:?}", e)); return; } };
            let e = match guarded(|| PhoneNumber(m).encrypt(&kp, &z.into())) { Ok(e) => e, Err(e) => { ctx.bad(&["C11", "C07"], "panic", format!("{:?}", e)); return; } };
            let want = RISTRETTO_BASEPOINT_POINT * m;
            if e.0.commitment != RISTRETTO_BASEPOINT_POINT * z || e.0.encryption != want + big * z { ctx.bad(&["C11", "C15"], "encryption-differs", String::new()); }
            let y = rng.scalar();
            let f = make::encryption(RISTRETTO_BASEPOINT_POINT * y, want + big * y);
            match guarded(|| kp.secret.decrypt(&f)) { Ok(x) => if x != want { ctx.bad(&["C11", "C15"], "not-understood", "an encryption by another implementation".into()); }, Err(e) => ctx.bad(&["C11", "C07"], "panic", format!("{:?}", e)) }
        }
        "golden" => golden_run(ctx, k, rng),
        _ => {
            // A whole life with every step by another party.
            let mut pick = || *rng.pick(&ks);
            let (k1, k2, k3, k4, k5) = (pick(), pick(), pick(), pick(), pick());
            let (s1, s2, s3, s4, s5) = (rng.seed32(), rng.seed32(), rng.seed32(), rng.seed32(), rng.seed32());
            let phone = w.phone.clone();
            let r = || -> Result<(Vec<u8>, Vec<u8>, Vec<u8>), Fail> {
                let params = sf::params_create(k1, &s1)?;
                let kp = sf::issuer_create(k2, &params, &s2)?;
                let issuer = sf::issuer_new(k3, &params, &kp)?;
                let ip = sf::issuer_params(k4, &issuer)?;
                let iss = sf::issue(k5, &issuer, &phone, &s3)?;
                let u = sf::obtain(k1, &phone, &params, &ip, &iss)?;
                let e = sf::entry_create(k2, &phone, &params, &s4)?;
                let p = sf::show(k3, &u, &e, &s5)?;
                let v = sf::verify(k4, &issuer, &p)?;
                let c = sf::roster(k5, &issuer, &v)?;
                Ok((c, e, issuer))
            };
            match r() {
                Ok((c, e, issuer)) => {
                    if c[..] != e[..32] { ctx.bad(&["C11", "C03"], "confirmed-differs", format!("{:?}", (k1, k2, k3, k4, k5))); }
                    if Key::parse(&issuer).is_none() { ctx.bad(&["C11"], "not-understood", "another implementation cannot read the issuer".into()); }
                }
                Err(e) => ctx.bad(&["C11", "C01"], "not-understood", format!("{:?}: {:?}", (k1, k2, k3, k4, k5), e)),
            }
        }
    }
}

fn form<T: Wire>(ctx: &mut Ctx, raw: &[u8]) {
    for k in &sf::RUST_KINDS {
        let b = sf::raw_to_kind(*k, raw);
        match attempt(|| sf::decode::<T>(*k, &b)) {
            Ok(t) => match attempt(|| sf::encode(*k, &t)) {
                Ok(c) => if c != b { ctx.bad(&["C11", "C06"], "encoding-differs", format!("{} ({:?})", T::NAME, k)); },
                Err(e) => ctx.bad(&["C11", "C06"], "encoding-differs", format!("{} ({:?}): {:?}", T::NAME, k, e)),
            },
            Err(e) => ctx.bad(&["C11"], "not-understood", format!("{} ({:?}) by another implementation: {:?}: {}", T::NAME, k, e, hex(raw))),
        }
    }
}

/// What is not the documented encoding of anything is refused, as others refuse it.
fn strict<T: Wire>(ctx: &mut Ctx, raw: &[u8], scalars: &[usize], points: &[usize], rng: &mut Prng) {
    let all: Vec<usize> = scalars.iter().chain(points).cloned().collect();
    let p = *rng.pick(&all);
    let mut x = raw.to_vec();
    otherwise_written(&mut x[p..p + 32], scalars.contains(&p), rng);
    ctx.count("fault.state otherwise written");
    for k in &sf::RUST_KINDS {
        let b = sf::raw_to_kind(*k, &x);
        if attempt(|| sf::decode::<T>(*k, &b)).is_ok() { ctx.bad(&["C11"], "verdicts-differ", format!("{} ({:?}) with another writing at {}: another implementation refuses {}", T::NAME, k, p, hex(&x))); }
    }
}

/// What an earlier release left behind.
fn golden_run(ctx: &mut Ctx, k: Kind, rng: &mut Prng) {
    let phone = [1u8, 4, 1, 5, 5, 5, 5, 1, 2, 3, 4];
    let params = unhex(golden::SYSTEM_PARAMETERS).unwrap();
    let kp = unhex(golden::ISSUER_KEYPAIR).unwrap();
    let ip = unhex(golden::ISSUER_PARAMETERS).unwrap();
    let user = unhex(golden::USER_WITH_CREDENTIAL).unwrap();
    let iss = unhex(golden::ISSUANCE).unwrap();
    let pres = unhex(golden::PRESENTATION).unwrap();
    let issuer = match need(ctx, "an earlier release's issuer", sf::issuer_new(k, &params, &kp)) { Some(i) => i, None => return };
    if need(ctx, "an earlier release's issuer", sf::issuer_params(k, &issuer)).map(|x| x != ip).unwrap_or(true) { ctx.bad(&["C11"], "earlier-release", format!("issuer parameters ({:?})", k)); }
    match sf::obtain(k, &phone, &params, &ip, &iss) { Ok(u) => if u != user { ctx.bad(&["C11"], "earlier-release", format!("the user differs ({:?})", k)); }, Err(e) => ctx.bad(&["C11"], "earlier-release", format!("its issuance is refused ({:?}): {:?}", k, e)) }
    match sf::verify(k, &issuer, &pres) {
        Ok(v) => match sf::roster(k, &issuer, &v) { Ok(c) => if c[..] != pres[..32] { ctx.bad(&["C11"], "earlier-release", "another commitment".into()); }, Err(e) => ctx.bad(&["C11"], "earlier-release", format!("its membership proof is refused ({:?}): {:?}", k, e)) },
        Err(e) => ctx.bad(&["C11"], "earlier-release", format!("its presentation is refused ({:?}): {:?}", k, e)),
    }
    let e = match need(ctx, "an entry", sf::entry_create(k, &phone, &params, &rng.seed32())) { Some(e) => e, None => return };
    match sf::show(k, &user, &e, &rng.seed32()) {
        Ok(p) => if sf::verify(k, &issuer, &p).and_then(|v| sf::roster(k, &issuer, &v)).is_err() { ctx.bad(&["C11"], "earlier-release", format!("its user is not accepted ({:?})", k)); },
        Err(e) => ctx.bad(&["C11"], "earlier-release", format!("its user does not load ({:?}): {:?}", k, e)),
    }
    form::<SignalUser>(ctx, &user);
    form::<SignalCredentialIssuance>(ctx, &iss);
    form::<SignalCredentialPresentation>(ctx, &pres);
    form::<amacs::Keypair>(ctx, &kp);
    form::<SystemParameters>(ctx, &params);
}
