//! Memory: every operation's allocations are counted, and when its results have
//! been let go of nothing of it may remain, whatever became of the operation.
use crate::ctx::*;
use crate::entropy::*;
use crate::guard::*;
use crate::heap;
use crate::lab::*;
use crate::make;
use crate::surface::{self as sf, Kind, Wire};
use crate::util::*;
use super::bytes::{form, hostile, pool, Pool};
use aeonflux::{amacs, credential as ac, elgamal};
use signal_credential::credential::*;
use signal_credential::issuer::*;
use signal_credential::parameters::SystemParameters;
use signal_credential::phone_number::*;
use signal_credential::user::SignalUser;
use std::collections::HashMap;

pub fn generate(seed: u64, thorough: bool) -> Vec<Step> {
    let ops = [("service", 14), ("call", 40), ("decode", 30), ("abort", 16), ("renew", 8), ("text", 6), ("keys", 10), ("crypt", 6), ("refuse", 12), ("marathon", 1)];
    super::cases(&ops, if thorough { 120 } else { 60 }, seed)
}

/// More than this beyond the arguments (which count `TIMES` fold) no operation needs.
const SPARE: i64 = 1 << 16;
const TIMES: i64 = 32;
/// So many operations of one kind may leave something behind in a run (tables that fill up).
const GROWTH: u32 = 6;

/// One operation on these bytes, its results let go of.
struct Done { meter: heap::Meter, given: usize, how: &'static str, ok: bool, what: String }

fn done<T, F: FnOnce() -> Result<T, Fail>>(what: String, given: usize, f: F) -> Done {
    let (r, meter) = heap::metered(|| match f() { Ok(_) => (true, "accepted"), Err(Fail::Rejected(_)) => (false, "refused"), Err(Fail::Injected) => (false, "cut short"), Err(_) => (false, "failed") });
    Done { meter, given, how: r.1, ok: r.0, what }
}

struct Town { lab: Lab, p: Pool, u: SignalUser, big: SignalIssuer, foreign: SignalIssuer, starved: u64 }

pub fn execute(run: &Run, ctx: &mut Ctx) {
    let mut rng = Prng::new(run.seed);
    set_system(Source::healthy(rng.u64()));
    let mut t = match town(&mut rng) { Ok(t) => t, Err(_) => { ctx.count("event.setup-failed"); return; } };
    // Whatever is set up at first use.
    let _ = t.lab.serves(1);
    for i in 0..9 { let s = Step::new("call", i, i, i, i); act(&mut t, &s, i); }
    let mut grown: HashMap<String, (u32, i64)> = HashMap::new();
    for (i, s) in run.steps.iter().enumerate() {
        ctx.step = i;
        ctx.report.sim_ms += 10;
        ctx.op();
        if s.op == "marathon" {
            // One thing, over and over: what fills up at first is full at some time.
            let mut m = Step::new(["service", "call", "call", "call", "decode", "abort", "renew", "text", "crypt", "refuse", "refuse", "refuse"][(s.a % 12) as usize], s.b, s.c, s.a, s.seed);
            let mut kept = vec![];
            for k in 0..5 { kept.push((0..12 << k).map(|n| {
                m.seed = if s.c % 4 == 0 { s.seed } else { mixes(&[s.seed, k, n]) };
                let x = act(&mut t, &m, m.seed);
                if n == 0 { ctx.ev(&[hash_bytes(x.what.as_bytes())], || format!("over and over: {} ({})", x.what, x.how)); }
                x.meter.net
            }).sum::<i64>()); }
            ctx.add("event.over and over", 12 * 31);
            if kept[2..].iter().all(|n| *n > 0) { ctx.bad(&["C18"], "memory-grows", format!("{} times and more, {} kept {:?} bytes", 12 << 4, m.op, kept)); return; }
            continue;
        }
        let d = act(&mut t, s, s.seed);
        ctx.count(&format!("event.{}", d.how));
        if d.how == "cut short" { ctx.count("fault.entropy fails mid-operation"); }
        ctx.add("bytes at most", d.meter.peak.max(0) as u64);
        ctx.ev(&[hash_bytes(d.what.as_bytes()), d.ok as u64], || format!("{} ({} bytes given): {}, {} kept, {} at most", d.what, d.given, d.how, d.meter.net, d.meter.peak));
        ctx.state(mixes(&[hash_bytes(d.what.as_bytes()), hash_bytes(d.how.as_bytes()), (d.given / 256) as u64]));
        if d.meter.peak > SPARE + TIMES * d.given as i64 {
            ctx.bad(&["C18"], "too-much-memory", format!("{} of {} bytes took {} bytes ({})", d.what, d.given, d.meter.peak, d.how));
        }
        if d.meter.net > 0 {
            // The same again and again: what was set up once is not set up again.
            let mut kept = vec![d.meter.net];
            for _ in 0..3 { kept.push(act(&mut t, s, s.seed).meter.net); }
            if kept.iter().all(|n| *n > 0) { ctx.bad(&["C18"], "memory-kept", format!("{} ({}) kept {:?} bytes, each time it was done", d.what, d.how, kept)); return; }
            let e = grown.entry(s.op.clone()).or_insert((0, 0));
            e.0 += 1; e.1 += d.meter.net;
            ctx.count("event.something set up");
            if e.0 > GROWTH { let (n, b) = *e; ctx.bad(&["C18"], "memory-kept", format!("{} times an operation like {} left something behind, {} bytes in all", n, d.what, b)); return; }
        }
    }
    if t.starved > 0 { ctx.add("fault.allocation fails", t.starved); }
}

fn town(rng: &mut Prng) -> Result<Town, Fail> {
    let lab = Lab::new(rng)?;
    let p = pool(&lab, rng)?;
    let u = lab.holder(&p.phone, rng.u64())?;
    let n = rng.range(2, 6) as usize;
    let sk = guarded(|| amacs::SecretKey::new(n, &mut sim(rng.u64())))?;
    let big = SignalIssuer::new(lab.params(), make::keypair(sk.get_public_key(&lab.params().h), sk));
    let foreign = guarded(|| SignalIssuer::create(lab.params(), &mut sim(rng.u64())))?;
    Ok(Town { lab, p, u, big, foreign, starved: 0 })
}

fn c_too<T, F: FnOnce() -> T>(k: Kind, fail: usize, f: F) -> T { if k == Kind::C { heap::c_call(fail, f) } else { f() } }

fn act(t: &mut Town, s: &Step, seed: u64) -> Done {
    let mut rng = Prng::new(seed);
    let rng = &mut rng;
    set_system(Source::healthy(rng.u64()));
    let all: Vec<&Vec<u8>> = t.p.all.iter().collect();
    match &s.op[..] {
        "service" => { let x = rng.u64(); let lab = &t.lab; done("a whole service".into(), 1000, || lab.serves(x).map_err(Fail::Rejected)) }
        "call" => {
            let k = *rng.pick(&sf::kinds());
            let p = &t.p;
            let own = |ok: &Vec<u8>, rng: &mut Prng| if rng.chance(60) { ok.clone() } else if rng.chance(80) { hostile(&[ok], rng).0 } else { hostile(&all, rng).0 };
            let d = rng.seed32();
            let fail = if rng.chance(20) { rng.range(1, 3) as usize } else { 0 };
            let mut phone = if rng.chance(70) { p.phone.clone() } else { let n = rng.below(40) as usize; rng.bytes(n) };
            if phone.is_empty() { phone.push(1); }
            let f = s.a % 11;
            let a: Vec<Vec<u8>> = match f {
                0 => vec![], 1 => vec![own(&p.params, rng)], 2 => vec![own(&p.params, rng), own(&p.keypair, rng)], 3 => vec![own(&p.issuers[0], rng)],
                4 => vec![own(&p.issuers[0], rng)], 5 => vec![own(&p.issuers[0], rng), own(&p.pres[0], rng)], 6 => vec![own(&p.issuers[0], rng), own(&p.pres[0], rng)],
                7 => vec![own(&p.params, rng), own(&p.iparams, rng), own(&p.iss[0], rng)], 8 => vec![own(&p.users[1], rng), own(&p.entries[0], rng)],
                9 => vec![own(&p.params, rng)], _ => vec![own(&p.entries[0], rng), own(&p.params, rng)],
            };
            if k == Kind::C && a.iter().any(|x| x.is_empty()) { return done("nothing".into(), 0, || Ok(())); }
            let n = a.iter().map(|x| x.len()).sum::<usize>() + phone.len();
            let name = ["system_parameters_create", "issuer_create", "issuer_new", "issuer_get_issuer_parameters", "issuer_issue", "issuer_verify", "issuer_verify_roster_membership", "user_obtain_finish", "user_show", "roster_entry_commitment_create", "roster_entry_commitment_open"][f as usize];
            if k == Kind::C && fail > 0 { t.starved += 1; }
            done(format!("{} ({:?}{})", name, k, if fail > 0 && k == Kind::C { ", memory running out" } else { "" }), n * if k == Kind::Json || k == Kind::Js { 4 } else { 1 }, || c_too(k, fail, || match f {
                0 => sf::params_create(k, &d), 1 => sf::issuer_create(k, &a[0], &d), 2 => sf::issuer_new(k, &a[0], &a[1]), 3 => sf::issuer_params(k, &a[0]),
                4 => sf::issue(k, &a[0], &phone, &d), 5 => sf::verify(k, &a[0], &a[1]), 6 => sf::roster(k, &a[0], &a[1]), 7 => sf::obtain(k, &phone, &a[0], &a[1], &a[2]),
                8 => sf::show(k, &a[0], &a[1], &d), 9 => sf::entry_create(k, &phone, &a[0], &d),
                _ => { let r = sf::entry_open(k, &a[0], &phone, &a[1]).map(|x| vec![x as u8]); let _ = sf::entry_remove_opening(k, &a[0]); r }
            }))
        }
        "decode" => {
            let w = s.a % 19;
            let k = *rng.pick(&sf::RUST_KINDS);
            macro_rules! d { ($t:ty, $like:expr) => { decode::<$t>(k, $like, &all, rng) } }
            let p = &t.p;
            match w {
                0 => d!(SystemParameters, &p.params), 1 => d!(amacs::Keypair, &p.keypair), 2 => d!(amacs::PublicKey, &p.iparams), 3 => d!(amacs::SecretKey, &p.all[14]),
                4 => d!(amacs::Tag, &p.all[13]), 5 => d!(SignalIssuer, &p.issuers[0]), 6 => d!(aeonflux::issuer::Issuer, &p.issuers[0]), 7 => d!(aeonflux::user::User, &p.all[8]),
                8 => d!(SignalUser, &p.users[(rng.below(3)) as usize]), 9 => d!(SignalCredentialIssuance, &p.iss[0]), 10 => d!(SignalCredentialPresentation, &p.pres[0]),
                11 => d!(VerifiedSignalCredential, &p.pres[0]), 12 => d!(ac::CredentialPresentation, &p.all[11]), 13 => d!(ac::Credential, &p.all[12]), 14 => d!(RosterEntryCommitment, &p.entries[0]),
                15 => d!(elgamal::Keypair, &p.all[15]), 16 => d!(elgamal::SecretKey, &p.all[16]), 17 => d!(ac::CredentialRequest, &p.params), _ => d!(PhoneNumber, &p.all[16]),
            }
        }
        "abort" => {
            // Long-lived parties, entropy failing somewhere in the middle.
            let (a, b) = (rng.u64(), rng.u64());
            let at = s.b % 4;
            let (cal, sy) = if s.c % 2 == 0 { (Source::healthy(a).failing(at), Source::healthy(b)) } else { (Source::healthy(a), Source::healthy(b).failing(at)) };
            set_system(sy);
            let mut r = SimRng(cal);
            let (lab, p, u) = (&t.lab, &t.p, &t.u);
            let params = lab.params();
            let e = RosterEntryCommitment::from_bytes(&p.entries[0]).unwrap();
            match s.a % 5 {
                0 => done("issuing without entropy".into(), 200, || attempt(|| lab.issuer.issue(&p.phone, &mut r)).map(drop)),
                1 => done("showing without entropy".into(), 400, || attempt(|| u.show(&mut r, &e)).map(drop)),
                2 => done("an entry without entropy".into(), 100, || attempt(|| RosterEntryCommitment::create(&p.phone, &params, &mut r)).map(drop)),
                3 => done("an issuer without entropy".into(), 100, || guarded(|| SignalIssuer::create(params, &mut r)).map(drop)),
                _ => done("parameters without entropy".into(), 32, || guarded(|| SystemParameters::hunt_and_peck(&mut r)).map(drop)),
            }
        }
        "renew" => {
            let x = match t.lab.issue(&t.p.phone, Source::healthy(rng.u64()), Source::healthy(rng.u64())) { Ok(x) => x, Err(_) => return done("nothing".into(), 0, || Ok(())) };
            let mut raw = x.to_bytes();
            if s.b % 2 == 0 { let i = rng.idx(raw.len()); raw[i] ^= 1 << rng.below(8); }
            let u = &mut t.u;
            done("a renewal".into(), raw.len(), || { let x = attempt(|| SignalCredentialIssuance::from_bytes(&raw))?; attempt(|| u.obtain_finish(Some(&x))) })
        }
        "text" => {
            let n = if s.a % 4 == 0 { rng.below(3000) } else { rng.below(40) } as usize;
            let x: String = (0..n).map(|_| *rng.pick(&['0', '1', '5', '9', '+', ' ', 'x', 'é'])).collect();
            done("a number from text and back".into(), x.len(), || { let n = attempt(|| PhoneNumber::try_from_string(&x))?; guarded(|| String::from(n)) })
        }
        "keys" => {
            let n = rng.range(1, 12) as usize;
            let (h, sd) = (t.lab.params().h, rng.u64());
            let at = s.b % 16;
            done("keys".into(), 64 * n, || guarded(|| {
                let mut r = SimRng(if s.c % 2 == 0 { Source::healthy(sd).failing(at) } else { Source::healthy(sd) });
                let k = amacs::SecretKey::new(n, &mut r);
                let q = k.get_public_key(&h);
                let k2 = k.clone();
                let _ = (amacs::SecretKey::from_bytes(&k.to_bytes()), q.to_bytes(), k2.to_bytes());
                let m = amacs::Message::from(vec![curve25519_dalek::scalar::Scalar::one(); n]);
                if let Ok(tag) = k.mac(&m, &mut r) { let _ = k.verify(&tag, &m); }
                let _ = aeonflux::nonces::Nonces::new(&mut r, n);
            }))
        }
        "crypt" => {
            let (sd, p) = (rng.u64(), &t.p);
            let z = rng.scalar();
            done("an encryption".into(), 100, || attempt(|| {
                let kp = elgamal::Keypair::generate(&mut sim(sd));
                let n = dbg(PhoneNumber::try_from_bytes(&p.phone))?;
                let e = n.encrypt(&kp, &z.into());
                let _ = kp.secret.decrypt(&e.0);
                let _ = Vec::<ac::EncryptedAttribute>::from(e);
                Ok::<_, String>(())
            }))
        }
        _ => {
            // What is wrong for this party, though well formed.
            let (lab, p, u, big, foreign) = (&t.lab, &t.p, &mut t.u, &t.big, &t.foreign);
            let mut phone = p.phone.clone();
            phone.push(rng.below(10) as u8);
            let sd = rng.u64();
            match s.a % 10 {
                0 => done("issuing for too long a number".into(), 200, || { let long = vec![1u8; 28 + (sd % 900) as usize]; attempt(|| lab.issuer.issue(&long, &mut sim(sd))).map(drop) }),
                1 => done("an issuance for another number".into(), 400, || { let i = attempt(|| lab.issuer.issue(&phone, &mut sim(sd)))?; attempt(|| u.obtain_finish(Some(&i))) }),
                2 => done("an entry for another number".into(), 400, || { let e = attempt(|| RosterEntryCommitment::create(&phone, &lab.params(), &mut sim(sd)))?; let x = attempt(|| u.show(&mut sim(sd), &e))?; let v = attempt(|| lab.issuer.verify(x))?; attempt(|| lab.issuer.verify_roster_membership(&v)).map(drop) }),
                3 => done("an issuer with a longer key".into(), 400, || { let _ = attempt(|| big.issue(&p.phone, &mut sim(sd))); attempt(|| big.verify(SignalCredentialPresentation::from_bytes(&p.pres[0]).unwrap())).map(drop) }),
                6 => done("another issuer's presentation".into(), 448, || { let e = RosterEntryCommitment::from_bytes(&p.entries[0]).unwrap(); let x = attempt(|| u.show(&mut sim(sd), &e))?; attempt(|| foreign.verify(x)).map(drop) }),
                7 => done("another issuer's issuance".into(), 328, || { let i = attempt(|| foreign.issue(&p.phone, &mut sim(sd)))?; attempt(|| u.obtain_finish(Some(&i))) }),
                8 => done("an entry opened as another's".into(), 100, || { let e = attempt(|| RosterEntryCommitment::create(&phone, &lab.params(), &mut sim(sd)))?; attempt(|| e.open(&p.phone, &lab.params())).map(drop) }),
                9 => done("a MAC under another key".into(), 100, || attempt(|| { let m = || amacs::Message::from(vec![curve25519_dalek::scalar::Scalar::from(sd)]); let tag = dbg(lab.issuer.issuer.keypair.secret.mac(&m(), &mut sim(sd)))?; dbg(foreign.issuer.keypair.secret.verify(&tag, &m())) }).map(drop)),
                4 => done("no issuance".into(), 0, || attempt(|| u.obtain_finish(None))),
                _ => done("showing without a credential".into(), 400, || { let n = attempt(|| SignalUser::new(lab.params(), lab.iparams(), None, &phone))?; let e = RosterEntryCommitment::from_bytes(&p.entries[0]).unwrap(); attempt(|| n.show(&mut sim(sd), &e)).map(drop) }),
            }
        }
    }
}

fn decode<T: Wire>(k: Kind, like: &Vec<u8>, all: &[&Vec<u8>], rng: &mut Prng) -> Done {
    let b = match rng.below(10) { 0..=2 => like.clone(), 3..=7 => hostile(&[like], rng).0, _ => hostile(all, rng).0 };
    let b = form(k, &b, rng);
    done(format!("decoding {} ({:?})", T::NAME, k), b.len(), || { let x = attempt(|| sf::decode::<T>(k, &b))?; guarded(|| { let _ = x.tb(); }) })
}
