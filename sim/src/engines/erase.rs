//! Erasure: every heap block given back and every slot released is searched for
//! the secrets that were in it, in the normal course and when entropy fails
//! part way.
use crate::ctx::*;
use crate::entropy::*;
use crate::guard::*;
use crate::heap;
use crate::lab::*;
use crate::refimpl as rf;
use crate::util::*;
use aeonflux::nonces::{Ephemeral, Nonces};
use aeonflux::{amacs, elgamal};
use curve25519_dalek::scalar::Scalar;
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::RosterEntryCommitment;
use signal_credential::user::SignalUser;
use std::mem::ManuallyDrop;

pub fn generate(seed: u64, thorough: bool) -> Vec<Step> {
    let ops = [("issuer", 12), ("mac-key", 14), ("mac-keypair", 8), ("elgamal", 12), ("user", 12), ("entry", 12), ("ephemeral", 10), ("nonces", 12), ("rerandomization", 8), ("show", 16), ("issue", 10), ("verify", 6), ("c", 8), ("crypt", 6)];
    super::cases(&ops, if thorough { 160 } else { 80 }, seed)
}

fn found(ctx: &mut Ctx, what: &str, names: &[&str], blocks: usize, hits: Vec<usize>) {
    ctx.add("blocks searched", blocks as u64);
    ctx.count("releases");
    for h in hits { ctx.bad(&["C16"], "secret-left", format!("{}: {} left in freed memory", what, names.get(h).unwrap_or(&"a secret"))); }
}

/// How the owner lets go of it.
fn release<T>(how: u64, x: T, y: T) -> &'static str {
    match how % 5 {
        0 => { drop(Box::new(x)); drop(y); "dropped" }
        1 => { let mut b = Box::new(x); *b = y; drop(b); "replaced" }
        2 => { let v = vec![x, y]; drop(v); "in a list" }
        3 => { let r = guarded(move || { let _b = Box::new(x); let _c = Some(y); std::panic::resume_unwind(Box::new(Injected)); }); let _: Result<(), Fail> = r; "unwound" }
        _ => { let mut o = vec![x]; o.clear(); o.push(y); drop(o); "cleared" }
    }
}
/// The slot itself, which is not heap.
fn slot<T>(x: T, secrets: &[[u8; 32]]) -> Vec<usize> {
    let mut s = ManuallyDrop::new(x);
    let n = std::mem::size_of::<T>();
    unsafe {
        ManuallyDrop::drop(&mut s);
        let b: Vec<u8> = (0..n).map(|i| std::ptr::read_volatile((&s as *const _ as *const u8).add(i))).collect();
        secrets.iter().enumerate().filter(|(_, p)| b.windows(16).any(|w| w == &p[..16] || w == &p[16..])).map(|(i, _)| i).collect()
    }
}
fn slot_found(ctx: &mut Ctx, what: &str, names: &[&str], hits: Vec<usize>) {
    ctx.count("slots searched");
    for h in hits { ctx.bad(&["C16"], "secret-left", format!("{}: {} left in its place", what, names.get(h).unwrap_or(&"a secret"))); }
}

pub fn execute(run: &Run, ctx: &mut Ctx) {
    heap::ZERO.store(true, std::sync::atomic::Ordering::SeqCst);
    all(run, ctx);
    heap::ZERO.store(false, std::sync::atomic::Ordering::SeqCst);
}

fn all(run: &Run, ctx: &mut Ctx) {
    for (i, s) in run.steps.iter().enumerate() {
        ctx.step = i;
        ctx.report.sim_ms += 5;
        let mut rng = Prng::new(s.seed);
        if let Err(e) = step(ctx, s, &mut rng) { ctx.count("event.setup-failed"); ctx.ev(&[], || format!("setup failed: {:?}", e)); }
        ctx.ev(&[hash_bytes(s.op.as_bytes())], || s.op.clone());
        ctx.state(mixes(&[hash_bytes(s.op.as_bytes()), s.a % 5, s.b % 4]));
    }
}

fn step(ctx: &mut Ctx, s: &Step, rng: &mut Prng) -> Result<(), Fail> {
    ctx.op();
    let how = s.a;
    if how % 5 == 3 { ctx.count("fault.unwinding"); }
    match &s.op[..] {
        "issuer" => {
            let (k1, k2) = (random_key(rng), random_key(rng));
            let (a, b) = (attempt(|| SignalIssuer::from_bytes(&k1.bytes()))?, attempt(|| SignalIssuer::from_bytes(&k2.bytes()))?);
            let sec = [k1.x0.to_bytes(), k1.x1.to_bytes(), k2.x0.to_bytes(), k2.x1.to_bytes()];
            let names = ["x0", "x1", "the other x0", "the other x1"];
            if s.b % 4 == 0 { let h = slot(a, &sec); slot_found(ctx, "an issuer", &names, h); return Ok(()); }
            let (w, n, h) = heap::scanning(&sec, || release(how, a, b));
            found(ctx, &format!("an issuer {}", w), &names, n, h);
        }
        "mac-key" => {
            let n = if s.b % 3 == 0 { 1 } else { rng.range(1, 9) as usize };
            let sd = rng.u64();
            // The same seed twice: once to learn the secrets, once to look for them.
            let probe = guarded(|| amacs::SecretKey::new(n, &mut sim(sd)))?;
            let bytes = probe.to_bytes();
            let sec: Vec<[u8; 32]> = bytes.chunks(32).map(a32).collect();
            let names = ["x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9"];
            let make = |k: u64| guarded(|| match k % 4 { 0 => amacs::SecretKey::new(n, &mut sim(sd)), 1 => amacs::SecretKey::from_bytes(&bytes).unwrap_or_default(), 2 => probe.clone(), _ => { let mut x = amacs::SecretKey::default(); x.clone_from(&probe); x } });
            if how % 6 == 5 { let k = make(s.b)?; let h = slot(k, &sec[..1]); slot_found(ctx, "a MAC key", &names, h); return Ok(()); }
            let (w, b, h) = heap::scanning(&sec, || { let x = make(s.b)?; let y = make(s.b + 1)?; Ok::<_, Fail>(release(how, x, y)) });
            found(ctx, &format!("a MAC key for {} attributes {}", n, w?), &names, b, h);
        }
        "mac-keypair" => {
            let pr = random_params(rng);
            let sd = rng.u64();
            let probe = guarded(|| amacs::Keypair::new(&pr.h, &mut sim(sd)))?;
            let bytes = probe.to_bytes();
            let sec = [a32(&bytes[32..64]), a32(&bytes[64..96])];
            let (w, n, h) = heap::scanning(&sec, || {
                let x = guarded(|| amacs::Keypair::new(&pr.h, &mut sim(sd)))?;
                let y = if s.b % 2 == 0 { attempt(|| amacs::Keypair::from_bytes(&bytes))? } else { probe.clone() };
                Ok::<_, Fail>(release(how, x, y))
            });
            found(ctx, &format!("a MAC keypair {}", w?), &["x0", "x1"], n, h);
        }
        "elgamal" => {
            let sd = rng.u64();
            let kp = guarded(|| elgamal::Keypair::generate(&mut sim(sd)))?;
            let sec = [a32(&kp.to_bytes()[..32])];
            let names = ["the secret key"];
            match s.b % 4 {
                0 => { let h = slot(kp, &sec); slot_found(ctx, "an elGamal keypair", &names, h); }
                1 => { let k = kp.secret.clone(); let h = slot(k, &sec); slot_found(ctx, "an elGamal secret key", &names, h); }
                2 => {
                    let (w, n, h) = heap::scanning(&sec, || { let a = kp.secret.clone(); let b = kp.secret.clone(); release(how, a, b) });
                    found(ctx, &format!("an elGamal secret key {}", w), &names, n, h);
                }
                _ => {
                    let (w, n, h) = heap::scanning(&sec, || { let a = guarded(|| elgamal::Keypair::generate(&mut sim(sd)))?; let b = kp.clone(); Ok::<_, Fail>(release(how, a, b)) });
                    found(ctx, &format!("an elGamal keypair {}", w?), &names, n, h);
                }
            }
        }
        "user" => {
            let lab = Lab::new(rng)?;
            let phone = random_phone(rng);
            let kp = guarded(|| elgamal::Keypair::generate(&mut sim(rng.u64())))?;
            let kb = kp.to_bytes();
            let sec = [a32(&kb[..32])];
            let mk = || -> Result<SignalUser, Fail> {
                let mut u = lab.user(&phone, Some(attempt(|| elgamal::Keypair::from_bytes(&kb))?))?;
                if s.c % 2 == 0 { let i = lab.issue(&phone, Source::healthy(1), Source::healthy(2))?; attempt(|| u.obtain_finish(Some(&i)))?; }
                Ok(u)
            };
            let (a, b) = (mk()?, mk()?);
            let names = ["the elGamal secret key"];
            match s.b % 3 {
                0 => { let h = slot(a, &sec); slot_found(ctx, "a user", &names, h); }
                1 => {
                    // Only the key is let go.
                    let mut u = Box::new(a);
                    let (_, n, h) = heap::scanning(&sec, || { u.user.key = None; });
                    found(ctx, "a user's key replaced", &names, n, h);
                }
                _ => {
                    let (w, n, h) = heap::scanning(&sec, || release(how, a, b));
                    found(ctx, &format!("a user {}", w), &names, n, h);
                }
            }
        }
        "entry" => {
            let pr = random_params(rng);
            let params = attempt(|| aeonflux::parameters::SystemParameters::from_bytes(&pr.bytes()))?;
            let phone = random_phone(rng);
            let sd = rng.u64();
            let probe = attempt(|| RosterEntryCommitment::create(&phone, &params, &mut sim(sd)))?;
            let bytes = probe.to_bytes();
            let sec = [a32(&bytes[32..64])];
            let names = ["the opening"];
            match s.b % 4 {
                0 => { let h = slot(probe, &sec); slot_found(ctx, "a roster entry", &names, h); }
                1 => {
                    let (r, n, h) = heap::scanning(&sec, || { let e = attempt(|| RosterEntryCommitment::create(&phone, &params, &mut sim(sd)))?; let _ = attempt(|| e.open(&phone, &params)); Ok::<_, Fail>(release(how, e, probe)) });
                    found(ctx, &format!("a roster entry {}", r?), &names, n, h);
                }
                2 => {
                    let (_, n, h) = heap::scanning(&sec, || { let _ = attempt(|| RosterEntryCommitment::create(&phone, &params, &mut SimRng(Source::healthy(sd).failing(s.c % 3)))); });
                    ctx.count("fault.entropy fails mid-operation");
                    found(ctx, "a roster entry being made", &names, n, h);
                }
                _ => {
                    let (r, n, h) = heap::scanning(&sec, || { let e = attempt(|| RosterEntryCommitment::from_bytes(&bytes))?; Ok::<_, Fail>(release(how, e, probe)) });
                    found(ctx, &format!("a restored roster entry {}", r?), &names, n, h);
                }
            }
        }
        "ephemeral" => {
            let x = rng.scalar();
            let sec = [x.to_bytes(), (-x).to_bytes()];
            let names = ["the nonce", "the nonce negated"];
            if s.b % 2 == 0 {
                let e: Ephemeral = x.into();
                let e = match s.c % 3 { 0 => e, 1 => e.clone(), _ => -e };
                let h = slot(e, &sec);
                slot_found(ctx, "a nonce", &names, h);
            } else {
                let (w, n, h) = heap::scanning(&sec, || { let a: Ephemeral = x.into(); let b = a.clone(); release(how, a, b) });
                found(ctx, &format!("a nonce {}", w), &names, n, h);
            }
        }
        "nonces" => {
            let n = rng.range(1, 12) as usize;
            let sd = rng.u64();
            let probe = guarded(|| Nonces::new(&mut sim(sd), n))?;
            let sec: Vec<[u8; 32]> = (0..n).map(|i| a32(&probe[i].to_bytes())).collect();
            let names = ["nonce 0", "nonce 1", "nonce 2", "nonce 3"];
            let (w, b, h) = heap::scanning(&sec, || {
                let x = guarded(|| Nonces::new(&mut sim(sd), n))?;
                let y = if s.b % 2 == 0 { x.clone() } else { guarded(|| Nonces::new(&mut sim(sd), n))? };
                Ok::<_, Fail>(release(how, x, y))
            });
            found(ctx, &format!("{} nonces {}", n, w?), &names, b, h);
            if s.b % 3 == 0 {
                ctx.count("fault.entropy fails mid-operation");
                let at = rng.below(n as u64);
                let (_, b, h) = heap::scanning(&sec, || { let _ = guarded(|| Nonces::new(&mut SimRng(Source::healthy(sd).failing(at)), n)); });
                found(ctx, &format!("{} nonces, entropy failing at {}", n, at), &names, b, h);
            }
        }
        "rerandomization" => {
            let r = guarded(|| amacs::Rerandomization::new(&mut sim(rng.u64())))?;
            // Nothing but the scalar.
            let raw = unsafe { std::slice::from_raw_parts(&r as *const _ as *const u8, std::mem::size_of::<amacs::Rerandomization>()) };
            if raw.len() != 32 { ctx.count("event.other layout"); return Ok(()); }
            let sec = [a32(raw)];
            if s.b % 3 == 0 { let h = slot(r, &sec); slot_found(ctx, "a rerandomisation", &["the scalar"], h); }
            else if s.b % 3 == 1 {
                let mut t = pb(&rng.point()).to_vec();
                t.extend_from_slice(&pb(&rng.point()));
                let t = attempt(|| amacs::Tag::from_bytes(&t))?;
                let (_, n, h) = heap::scanning(&sec, || { let a = guarded(|| r.apply_to_tag(&t)); let b = guarded(|| &t * &r); let c = guarded(|| &r * &t); let _ = (a, b, c); release(how, r.clone(), r) });
                found(ctx, "a rerandomisation applied", &["the scalar"], n, h);
            } else { let r2 = r.clone(); let (w, n, h) = heap::scanning(&sec, || release(how, r, r2)); found(ctx, &format!("a rerandomisation {}", w), &["the scalar"], n, h); }
        }
        "show" => {
            let lab = Lab::new(rng)?;
            let phone = random_phone(rng);
            let u = lab.holder(&phone, rng.u64())?;
            let e = lab.entry(&phone, rng.u64())?;
            let (c, y) = (rng.u64(), rng.u64());
            let mut rec = SimRng(Source::healthy(c));
            rec.0.record = Some(Vec::new());
            set_system(Source::healthy(y));
            let p = attempt(|| u.show(&mut rec, &e))?;
            let sh = match rf::SignalShown::parse(&p.to_bytes()) { Some(s) => s.shown, None => return Ok(()) };
            // Which draw became the attribute's blinding?
            let m = m_of(&phone);
            // The rerandomisation and the MAC's blinding, likewise.
            let record = rec.0.record.take().unwrap();
            let wide = |d: &[u8]| { let mut b = [0; 64]; b.copy_from_slice(d); Scalar::from_bytes_mod_order_wide(&b) };
            let mut drawn: Vec<Scalar> = record.iter().filter(|d| d.len() == 64).map(|d| wide(d)).collect();
            // The presentation's own generator, as far as it can be followed from here.
            for d in record.iter().filter(|d| d.len() == 32) {
                let mut r = merlin::Transcript::new(b"AEONFLUX SHOW").fork_transcript().reseed_from_rng(&mut SimRng(Source::new(Mode::Repeat(d.clone()))));
                for _ in 0..3 { let mut b = [0; 64]; rand_core::RngCore::fill_bytes(&mut r, &mut b); drawn.push(wide(&b)); }
            }
            let mut sec = vec![a32(&e.to_bytes()[32..64])];
            let mut names = vec!["the opening"];
            if let Some(z) = drawn.iter().find(|z| lab.key.params.h * **z == sh.cm0 - sh.p * m) { sec.push(z.to_bytes()); names.push("the blinding nonce"); ctx.count("case.blinding known"); }
            let q = sh.p * (lab.key.x0 + lab.key.x1 * m);
            if let Some(z) = drawn.iter().find(|z| lab.key.params.h * **z == sh.cq - q || lab.key.params.g * **z == sh.cq - q) {
                sec.push(z.to_bytes()); sec.push((-z).to_bytes()); names.push("the MAC's blinding nonce"); names.push("the MAC's blinding nonce negated"); ctx.count("case.MAC blinding known");
            }
            if let Some(t) = u.user.credential.as_ref().and_then(|c| pt(&c.mac.to_bytes()[..32])) {
                if let Some(z) = drawn.iter().find(|z| t * **z == sh.p) { sec.push(z.to_bytes()); names.push("the rerandomisation"); ctx.count("case.rerandomisation known"); }
            }
            let draws = rec.0.draws;
            let at = if s.b % 2 == 0 { None } else { Some(rng.below(draws + 3)) };
            let (_, n, h) = heap::scanning(&sec, || {
                let (mut cal, mut sy) = (Source::healthy(c), Source::healthy(y));
                if let Some(k) = at { if k < draws { cal = cal.failing(k) } else { sy = sy.failing(k - draws) } }
                let _ = lab.show(&u, &e, cal, sy);
            });
            if at.is_some() { ctx.count("fault.entropy fails mid-operation"); }
            found(ctx, &format!("a presentation{}", if at.is_some() { " cut short" } else { "" }), &names, n, h);
        }
        "issue" => {
            let lab = Lab::new(rng)?;
            let phone = random_phone(rng);
            let sec = [lab.key.x0.to_bytes(), lab.key.x1.to_bytes()];
            let at = if s.b % 2 == 0 { None } else { Some(rng.below(4)) };
            let (c, y) = (rng.u64(), rng.u64());
            let (_, n, h) = heap::scanning(&sec, || {
                let (mut cal, mut sy) = (Source::healthy(c), Source::healthy(y));
                if let Some(k) = at { if k < 2 { cal = cal.failing(k) } else { sy = sy.failing(k - 2) } }
                let _ = lab.issue(&phone, cal, sy);
            });
            if at.is_some() { ctx.count("fault.entropy fails mid-operation"); }
            found(ctx, "an issuance", &["x0", "x1"], n, h);
        }
        "verify" => {
            let lab = Lab::new(rng)?;
            let phone = random_phone(rng);
            let u = lab.holder(&phone, rng.u64())?;
            let e = lab.entry(&phone, rng.u64())?;
            let p = lab.show_seeded(&u, &e, rng.u64())?;
            let mut raw = p.to_bytes();
            if s.b % 2 == 0 { raw[300] ^= 1; }
            let sec = [lab.key.x0.to_bytes(), lab.key.x1.to_bytes()];
            let (_, n, h) = heap::scanning(&sec, || {
                if let Ok(p) = attempt(|| signal_credential::credential::SignalCredentialPresentation::from_bytes(&raw)) {
                    if let Ok(v) = attempt(|| lab.issuer.verify(p)) { let _ = attempt(|| lab.issuer.verify_roster_membership(&v)); }
                }
            });
            found(ctx, "a verification", &["x0", "x1"], n, h);
        }
        "c" => c(ctx, s, rng)?,
        _ => {
            let kp = guarded(|| elgamal::Keypair::generate(&mut sim(rng.u64())))?;
            let (e, m) = (rng.scalar(), rng.scalar());
            let sec = [a32(&kp.to_bytes()[..32]), e.to_bytes()];
            let (_, n, h) = heap::scanning(&sec, || {
                let eph: Ephemeral = e.into();
                let enc = guarded(|| kp.public.encrypt(&elgamal::Message::from(&m), &eph));
                if let Ok(enc) = enc { let _ = guarded(|| kp.secret.decrypt(&enc)); }
            });
            found(ctx, "an encryption", &["the elGamal secret key", "the nonce"], n, h);
        }
    }
    Ok(())
}

/// A key that C hands in for one call lives in our memory only for that call.
#[cfg(feature = "c")]
fn c(ctx: &mut Ctx, s: &Step, rng: &mut Prng) -> Result<(), Fail> {
    use crate::surface::{self, Kind};
    let key = random_key(rng);
    let raw = key.bytes();
    let mut phone = random_phone(rng);
    if phone.is_empty() { phone.push(3); }
    set_system(Source::healthy(rng.u64()));
    let seed = rng.seed32();
    let sec = [key.x0.to_bytes(), key.x1.to_bytes()];
    let (f, (_, n, h)) = match s.b % 3 {
        0 => ("issuer_issue", heap::scanning(&sec, || { let _ = surface::issue(Kind::C, &raw, &phone, &seed); })),
        1 => ("issuer_verify", heap::scanning(&sec, || { let _ = surface::verify(Kind::C, &raw, &phone); })),
        _ => ("issuer_get_issuer_parameters", heap::scanning(&sec, || { let _ = surface::issuer_params(Kind::C, &raw); })),
    };
    found(ctx, f, &["x0", "x1"], n, h);
    Ok(())
}
#[cfg(not(feature = "c"))]
fn c(_: &mut Ctx, _: &Step, _: &mut Prng) -> Result<(), Fail> { Ok(()) }
