//! Saving and restoring: exactness for every type and form, behaviour after
//! restoring, and damaged state under attack.
use crate::ctx::*;
use crate::entropy::*;
use crate::guard::*;
use crate::lab::*;
use crate::make;
use crate::refimpl::{self as rf, Key, Params, Shower, ShowOpts};
use crate::surface::{self as sf, Kind, Wire};
use crate::util::*;
use aeonflux::{amacs, credential as ac, elgamal, pedersen};
use curve25519_dalek::scalar::Scalar;
use super::world::{damage, mutate};
use signal_credential::credential::*;
use signal_credential::issuer::SignalIssuer;
use signal_credential::parameters::SystemParameters;
use signal_credential::phone_number::*;
use signal_credential::user::SignalUser;

// ------------------------------------------------------------------ attacks on damaged parties

/// What someone without the issuer's key can make for this (damaged) user.
pub fn attack_user(ctx: &mut Ctx, o: &mut SignalUser, key: &Key, rng: &mut Prng, what: &str) {
    let b = match guarded(|| o.to_bytes()) { Ok(b) => b, Err(e) => { ctx.bad(&["C06", "C07"], "damaged-state-panics", format!("{:?}", e)); return; } };
    if b.len() != 288 { return; }
    let (pr, big, m) = match (Params::parse(&b[32..96]), pt(&b[96..128])) {
        (Some(p), Some(x)) => (p, x, Scalar::from_bits(a32(&b[..32]))),
        _ => return,
    };
    let m = sc(&(m * Scalar::one()).to_bytes()).unwrap();
    for how in 0..4 {
        let (x0, xt) = (rng.scalar(), rng.scalar());
        let mut x1 = rng.scalar();
        let mut p = rng.point();
        let name;
        match how {
            0 => { name = "key zero"; x1 = Scalar::zero(); }
            1 => { name = "identity nonce"; p = rf::identity(); }
            2 => { name = "other key"; }
            _ => { name = "everything zero"; x1 = Scalar::zero(); p = rf::identity(); }
        }
        let q = p * (x0 + x1 * m);
        let bytes = rf::issuance_bytes(&pr, &big, &p, &q, &m, &[x0, x1, xt, x1 * m], rng, &[]);
        ctx.count(&format!("attack.damaged-user: {}", name));
        let r = attempt(|| {
            let i = dbg(SignalCredentialIssuance::from_bytes(&bytes))?;
            dbg(o.obtain_finish(Some(&i)))
        });
        match r {
            Ok(()) => {
                let props: &[&str] = if big == key.big && pr == key.params { &["C06", "C04"] } else { &["C06"] };
                ctx.bad(props, "damaged-user-accepts", format!("a user restored from damaged state ({}) accepted an issuance made without the key ({}): user {} issuance {}", what, name, hex(&b), hex(&bytes)));
            }
            Err(ref e) if e.is_bad() => ctx.bad(&["C06", "C07"], "damaged-state-panics", format!("obtain_finish of a user restored from damaged state: {:?}", e)),
            _ => {}
        }
    }
    // Using the damaged state must be safe too.
    let e = make::entry(rng.point() + pr.g * rng.scalar(), rng.scalar());
    match guarded(|| o.show(&mut sim(rng.u64()), &e)) {
        Err(ref e) if e.is_bad() => ctx.bad(&["C06", "C07"], "damaged-state-panics", format!("show of a user restored from damaged state: {:?}", e)),
        _ => {}
    }
}

fn present(ctx: &mut Ctx, o: &SignalIssuer, bytes: &[u8]) -> Option<VerifiedSignalCredential> {
    let r = attempt(|| {
        let p = dbg(SignalCredentialPresentation::from_bytes(bytes))?;
        dbg(o.verify(p))
    });
    match r {
        Ok(v) => Some(v),
        Err(e) => {
            if e.is_bad() { ctx.bad(&["C06", "C07"], "damaged-state-panics", format!("verify at an issuer restored from damaged state: {:?}", e)); }
            None
        }
    }
}

/// What someone without a credential (or with one, about another number) can show this (damaged) issuer.
pub fn attack_issuer(ctx: &mut Ctx, o: &SignalIssuer, key: &Key, holder: Option<Vec<u8>>, shows: &[Vec<u8>], rng: &mut Prng, what: &str) {
    let b = match guarded(|| o.to_bytes()) { Ok(b) => b, Err(e) => { ctx.bad(&["C06", "C07"], "damaged-state-panics", format!("{:?}", e)); return; } };
    let same = b == key.bytes();
    let props: &[&str] = if same { &["C06", "C02"] } else { &["C06"] };
    if b.len() < 160 { return; }
    let pr = match Params::parse(&b[..64]) { Some(p) => p, None => return };
    // The issuer's public key as published before, or as the damaged issuer has it.
    let mut bigs = vec![key.big];
    if let Some(x) = pt(&b[64..96]) { if x != key.big { bigs.push(x); } }
    for big in &bigs {
        for how in 0..5 {
            let mut s = Shower { params: pr, big: *big, m: rng.scalar(), p: rng.point(), q: rng.point() };
            let name;
            match how {
                0 => { name = "identity nonce"; s.p = rf::identity(); s.q = rf::identity(); }
                1 => { name = "zero MAC of zero"; s.m = Scalar::zero(); s.q = rf::identity(); }
                2 => { name = "zero MAC of any number"; s.q = rf::identity(); }
                3 => { name = "made-up MAC"; }
                _ => {
                    name = "own MAC for another number";
                    match holder.as_ref().and_then(|h| Shower::from_user(h)) {
                        Some(h) => { s.p = h.p; s.q = h.q; }
                        None => continue,
                    }
                }
            }
            let z = rng.scalar();
            let opt = ShowOpts { entry: rf::entry(&pr, &s.m, &z), entry_m: s.m, entry_z: z, omit: &[], omit_roster: &[], rerandomize: true };
            let x = s.show(&opt, rng).bytes();
            ctx.count(&format!("attack.damaged-issuer: {}", name));
            if present(ctx, o, &x).is_some() {
                ctx.bad(props, "damaged-issuer-accepts", format!("an issuer restored from damaged state ({}) accepted a presentation nobody could make ({}): issuer {} presentation {}", what, name, hex(&b), hex(&x)));
            }
        }
    }
    // Equivocation about the roster entry by a credential holder.
    if let Some(h) = holder.as_ref().and_then(|h| Shower::from_user(h)) {
        let s = Shower { params: pr, big: key.big, m: h.m, p: h.p, q: h.q };
        for how in 0..2 {
            let (vm, vz) = (rng.scalar(), rng.scalar());
            let opt = ShowOpts {
                entry: rf::entry(&pr, &vm, &vz), entry_m: s.m,
                // With equal generators an entry opens to every number.
                entry_z: if how == 0 { vz + vm - s.m } else { vz }, omit: &[], omit_roster: &[], rerandomize: true,
            };
            let x = s.show(&opt, rng).bytes();
            if let Some(v) = present(ctx, o, &x) {
                ctx.count("attack.damaged-issuer: roster equivocation");
                match attempt(|| o.verify_roster_membership(&v)) {
                    Ok(_) => {
                        let props: &[&str] = if same { &["C06", "C03"] } else { &["C06"] };
                        ctx.bad(props, "damaged-issuer-accepts", format!("an issuer restored from damaged state ({}) confirmed another number's roster entry: issuer {}", what, hex(&b)));
                    }
                    Err(ref e) if e.is_bad() => ctx.bad(&["C06", "C07"], "damaged-state-panics", format!("verify_roster_membership: {:?}", e)),
                    _ => {}
                }
            }
        }
    }
    // Altered recordings.
    for k in 0..3 {
        if shows.is_empty() { break; }
        let orig = rng.pick(shows).clone();
        let mut x = orig.clone();
        let sp = vec![pb(&rf::identity()), pb(&pr.g), pb(&pr.h), pb(&key.big), pb(&-pr.h)];
        let how = rng.u64();
        let name = mutate(&mut x, false, how + k, rng, shows, &sp);
        if x.len() < 448 || shows.iter().any(|s| s[32..288] == x[32..288]) { continue; }
        ctx.count("attack.damaged-issuer: altered recording");
        if present(ctx, o, &x).is_some() {
            ctx.bad(props, "damaged-issuer-accepts", format!("an issuer restored from damaged state ({}) accepted an altered recording ({}): issuer {}", what, name, hex(&b)));
        }
    }
    // Signing with damaged state must be safe for the process.
    let phone = random_phone(rng);
    match guarded(|| o.issue(&phone, &mut sim(rng.u64()))) {
        Err(ref e) if e.is_bad() => ctx.bad(&["C06", "C07"], "damaged-state-panics", format!("issue by an issuer restored from damaged state: {:?}", e)),
        _ => {}
    }
}

// ------------------------------------------------------------------ exactness

/// Save and restore in every form; every restored object must save to the same bytes again, in every form.
fn exact<T: Wire>(ctx: &mut Ctx, t: &T, rng: &mut Prng, eq: Option<fn(&T, &T) -> bool>) -> Option<T> {
    ctx.op();
    ctx.count(&format!("case.restored {}", T::NAME));
    let raw = match guarded(|| t.tb()) { Ok(b) => b, Err(e) => { ctx.bad(&["C06"], "unsaveable", format!("{}: {:?}", T::NAME, e)); return None; } };
    let mut last = None;
    let mut forms = sf::RUST_KINDS.to_vec();
    // Chains of different forms, in any order.
    for i in (1..forms.len()).rev() { let j = rng.idx(i + 1); forms.swap(i, j); }
    for k in forms {
        let enc = {
            let cur: &T = last.as_ref().unwrap_or(t);
            match attempt(|| sf::encode(k, cur)) { Ok(b) => b, Err(e) => { ctx.bad(&["C06"], "unsaveable", format!("{} as {:?}: {:?}", T::NAME, k, e)); return None; } }
        };
        ctx.ev(&[hash_bytes(&enc)], || format!("{} saved as {:?}: {} bytes", T::NAME, k, enc.len()));
        if k == Kind::Json {
            // As a text file and as a tree.
            let v = attempt(|| { let v: serde_json::Value = dbg(serde_json::from_slice(&enc))?; let t: T = dbg(serde_json::from_value(v))?; Ok::<T, String>(t) });
            match v {
                Ok(ref x) if x.tb() == raw => {}
                Ok(_) => ctx.bad(&["C06"], "restored-differently", format!("{} through a JSON tree", T::NAME)),
                Err(e) => ctx.bad(&["C06", "C11"], "unrestorable", format!("{} through a JSON tree: {:?}", T::NAME, e)),
            }
        }
        if k == Kind::Bincode {
            // As one field of a larger record, and through a reader.
            let two = attempt(|| { let b = dbg(bincode::serialize(&(7u32, t, 9u32)))?; let (a, x, c): (u32, T, u32) = dbg(bincode::deserialize(&b))?; Ok::<_, String>((a, x.tb(), c)) });
            match two {
                Ok((7, ref x, 9)) if *x == raw => {}
                Ok(_) => ctx.bad(&["C06"], "restored-differently", format!("{} inside a record", T::NAME)),
                Err(e) => ctx.bad(&["C06"], "unrestorable", format!("{} inside a record: {:?}", T::NAME, e)),
            }
            let rd = attempt(|| { let b = dbg(bincode::serialize(t))?; let x: T = dbg(bincode::deserialize_from(&b[..]))?; Ok::<_, String>(x.tb()) });
            match rd {
                Ok(ref x) if *x == raw => {}
                Ok(_) => ctx.bad(&["C06"], "restored-differently", format!("{} through a reader", T::NAME)),
                Err(e) => ctx.bad(&["C06"], "unrestorable", format!("{} through a reader: {:?}", T::NAME, e)),
            }
        }
        match attempt(|| sf::decode::<T>(k, &enc)) {
            Ok(x) => {
                if let Some(f) = eq {
                    if !f(t, &x) { ctx.bad(&["C06"], "restored-unequal", format!("{} through {:?} does not compare equal", T::NAME, k)); }
                }
                match guarded(|| x.tb()) {
                    Ok(ref b) if *b == raw => {}
                    r => ctx.bad(&["C06"], "restored-differently", format!("{} through {:?}: {} became {:?}", T::NAME, k, hex(&raw), r.map(|b| hex(&b)))),
                }
                last = Some(x);
            }
            Err(e) => { ctx.bad(&["C06", "C11"], "unrestorable", format!("{} from {:?}: {:?}", T::NAME, k, e)); return None; }
        }
    }
    last
}

fn eqf<T: PartialEq>(a: &T, b: &T) -> bool { a == b }

pub fn generate(seed: u64, thorough: bool) -> Vec<Step> {
    let ops = [("types", 6), ("user-behaviour", 10), ("issuer-behaviour", 10), ("user-history", 8), ("issuer-history", 5), ("key-behaviour", 6), ("entry-behaviour", 6), ("wide-keys", 6), ("any-keys", 4),
               ("damaged-message", 10), ("damaged-user", 14), ("damaged-issuer", 14), ("zero-fields", 12)];
    super::cases(&ops, if thorough { 60 } else { 24 }, seed)
}

pub fn execute(run: &Run, ctx: &mut Ctx) {
    let mut rng = Prng::new(run.seed ^ 0x7e57);
    let lab = match Lab::new(&mut rng) { Ok(l) => l, Err(e) => { ctx.bad(&["C06", "C01"], "issuer-unloadable", format!("{:?}", e)); return; } };
    for (k, s) in run.steps.iter().enumerate() {
        ctx.step = k;
        ctx.report.sim_ms += 50;
        let mut rng = Prng::new(s.seed);
        ctx.ev(&[hash_bytes(s.op.as_bytes()), s.seed], || format!("{} ({})", s.op, s.a));
        let r = step(ctx, &lab, s, &mut rng);
        if let Err(e) = r { ctx.count("event.setup-failed"); ctx.ev(&[9], || format!("honest operation failed: {:?}", e)); }
        ctx.state(mixes(&[hash_bytes(s.op.as_bytes()), s.a % 12, s.b % 8]));
    }
}

fn same_out<T: PartialEq + std::fmt::Debug>(ctx: &mut Ctx, what: &str, a: Result<T, Fail>, b: Result<T, Fail>) {
    ctx.op();
    if a != b { ctx.bad(&["C06"], "behaves-differently", format!("{}: {:?} before, {:?} after being restored", what, a, b)); }
}

/// Saved in some form and restored from it.
fn reborn<T: Wire>(ctx: &mut Ctx, t: &T, rng: &mut Prng) -> Result<T, Fail> {
    let k = some_form(rng);
    let r = attempt(|| sf::encode(k, t)).and_then(|b| attempt(|| sf::decode::<T>(k, &b)));
    if let Err(ref e) = r { ctx.bad(&["C06", "C11"], "unrestorable", format!("{} from {:?}: {:?}", T::NAME, k, e)); }
    r
}

fn some_form(rng: &mut Prng) -> Kind { *rng.pick(&sf::RUST_KINDS) }

fn step(ctx: &mut Ctx, lab: &Lab, s: &Step, rng: &mut Prng) -> Result<(), Fail> {
    let phone = random_phone(rng);
    let sd = rng.u64();
    match &s.op[..] {
        "types" => {
            let iss = lab.issue(&phone, Source::healthy(sd), Source::healthy(sd ^ 1))?;
            let entry = lab.entry(&phone, sd)?;
            let mut user = lab.user(&phone, if rng.chance(50) { Some(elgamal::Keypair::generate(&mut sim(sd ^ 3))) } else { None })?;
            exact(ctx, &user, rng, Some(eqf));
            exact(ctx, &user.user, rng, Some(eqf));
            attempt(|| user.obtain_finish(Some(&iss)))?;
            let pres = lab.show_seeded(&user, &entry, sd)?;
            let p2 = pres.clone();
            let ver = attempt(|| lab.issuer.verify(p2))?;
            let aver = attempt(|| lab.issuer.issuer.verify(&pres.presentation))?;
            exact(ctx, &lab.params(), rng, Some(eqf));
            exact(ctx, &lab.iparams(), rng, Some(eqf));
            exact(ctx, &lab.issuer.issuer.keypair.secret, rng, None);
            exact(ctx, &lab.issuer.issuer.keypair, rng, None);
            exact(ctx, &lab.issuer.issuer, rng, None);
            exact(ctx, &lab.issuer, rng, None);
            exact(ctx, &user, rng, Some(eqf));
            exact(ctx, &user.user, rng, Some(eqf));
            exact(ctx, &iss, rng, Some(eqf));
            exact(ctx, &iss.credential, rng, Some(eqf));
            exact(ctx, &iss.credential.mac, rng, Some(eqf));
            exact(ctx, &iss.secret_key_commitment, rng, Some(eqf));
            exact(ctx, &pres, rng, Some(eqf));
            exact(ctx, &pres.presentation, rng, Some(eqf));
            exact(ctx, &ver, rng, Some(eqf));
            exact(ctx, &aver, rng, Some(eqf));
            exact(ctx, &entry, rng, None);
            exact(ctx, &entry.commitment, rng, Some(eqf));
            exact(ctx, &user.phone_number, rng, Some(eqf));
            exact(ctx, &make::request(vec![m_of(&phone)]), rng, Some(eqf));
            let kp = elgamal::Keypair::generate(&mut sim(sd ^ 9));
            exact(ctx, &kp, rng, Some(eqf));
            exact(ctx, &kp.secret, rng, Some(eqf));
            exact(ctx, &kp.public, rng, Some(eqf));
        }
        "user-behaviour" => {
            // The user before and after: identical reactions to everything.
            let kp = if rng.chance(40) { Some(elgamal::Keypair::generate(&mut sim(sd ^ 3))) } else { None };
            let mut user = lab.user(&phone, kp)?;
            let iss = lab.issue(&phone, Source::healthy(sd), Source::healthy(sd ^ 1))?;
            let bad_phone = random_phone(rng);
            let bad = lab.issue(&bad_phone, Source::healthy(sd ^ 5), Source::healthy(sd ^ 6))?;
            let entry = lab.entry(&phone, sd)?;
            let early = rng.chance(50);
            let mut other = None;
            if early {
                match exact(ctx, &user, rng, Some(eqf)) { Some(o) => other = Some(o), None => return Ok(()) }
            }
            if !early { attempt(|| user.obtain_finish(Some(&iss)))?; }
            let mut other = match other { Some(o) => o, None => match exact(ctx, &user, rng, Some(eqf)) { Some(o) => o, None => return Ok(()) } };
            if early {
                let a = attempt(|| user.obtain_finish(Some(&bad)));
                let b = attempt(|| other.obtain_finish(Some(&bad)));
                same_out(ctx, "obtain_finish of another's issuance", a, b);
                let a = attempt(|| user.obtain_finish(Some(&iss)));
                let b = attempt(|| other.obtain_finish(Some(&iss)));
                same_out(ctx, "obtain_finish", a, b);
            }
            for j in 0..2 {
                let a = lab.show_seeded(&user, &entry, sd ^ j).map(|x| x.to_bytes());
                let b = lab.show_seeded(&other, &entry, sd ^ j).map(|x| x.to_bytes());
                if let Ok(ref x) = b {
                    let r = attempt(|| { let p = dbg(SignalCredentialPresentation::from_bytes(x))?; let v = dbg(lab.issuer.verify(p))?; dbg(lab.issuer.verify_roster_membership(&v)) });
                    if let Err(e) = r { ctx.bad(&["C06", "C01"], "restored-not-accepted", format!("a restored user's presentation: {:?}", e)); }
                }
                same_out(ctx, "show", a.map(|b| hex(&b)), b.map(|b| hex(&b)));
            }
            // Renewal after the restart.
            let iss2 = lab.issue(&phone, Source::healthy(sd ^ 11), Source::healthy(sd ^ 12))?;
            let a = attempt(|| user.obtain_finish(Some(&iss2))).map(|_| user.to_bytes());
            let b = attempt(|| other.obtain_finish(Some(&iss2))).map(|_| other.to_bytes());
            same_out(ctx, "renewal", a.map(|b| hex(&b)), b.map(|b| hex(&b)));
        }
        "user-history" => {
            // One user that keeps running, and one that is restarted along the way, live through the same things.
            let kp = if rng.chance(30) { Some(elgamal::Keypair::generate(&mut sim(sd ^ 3))) } else { None };
            let mut user = lab.user(&phone, kp)?;
            let mut other = reborn(ctx, &user, rng)?;
            let wrong = random_phone(rng);
            let entry = lab.entry(&phone, sd)?;
            let elsewhere = lab.entry(&wrong, sd ^ 1)?;
            let often = rng.range(1, 3);
            let n = rng.range(5, 16);
            let renewals = rng.chance(50);
            for j in 0..n {
                if rng.range(0, often) == 0 || j + 1 == n { other = reborn(ctx, &other, rng)?; ctx.count("fault.restart"); }
                let js = sd ^ (j << 8);
                let what = rng.range(0, 9);
                match if renewals && j > 0 && what > 3 { 0 } else { what } {
                    0 | 1 | 2 | 3 => {
                        let iss = lab.issue(&phone, Source::healthy(js), Source::healthy(js ^ 1))?;
                        let a = attempt(|| user.obtain_finish(Some(&iss)));
                        let b = attempt(|| other.obtain_finish(Some(&iss)));
                        same_out(ctx, "taking an issuance", a, b);
                    }
                    4 => {
                        let iss = lab.issue(&wrong, Source::healthy(js), Source::healthy(js ^ 1))?;
                        let a = attempt(|| user.obtain_finish(Some(&iss)));
                        let b = attempt(|| other.obtain_finish(Some(&iss)));
                        same_out(ctx, "taking another's issuance", a, b);
                    }
                    5 => {
                        let a = attempt(|| user.obtain_finish(None));
                        let b = attempt(|| other.obtain_finish(None));
                        same_out(ctx, "taking no issuance", a, b);
                    }
                    6 => {
                        let m = rng.scalar();
                        let a = guarded(|| user.user.obtain(vec![m]).to_bytes());
                        let b = guarded(|| other.user.obtain(vec![m]).to_bytes());
                        same_out(ctx, "asking", a, b);
                    }
                    w => {
                        let e = if w == 7 { &elsewhere } else { &entry };
                        let a = lab.show_seeded(&user, e, js).map(|x| hex(&x.to_bytes()));
                        let b = lab.show_seeded(&other, e, js).map(|x| hex(&x.to_bytes()));
                        same_out(ctx, "show", a, b);
                    }
                }
                same_out(ctx, "what is saved", guarded(|| hex(&user.to_bytes())), guarded(|| hex(&other.to_bytes())));
            }
        }
        "issuer-history" => {
            // The same for an issuer.
            let one = reborn(ctx, &lab.issuer, rng)?;
            let mut other = reborn(ctx, &lab.issuer, rng)?;
            let user = lab.holder(&phone, sd)?;
            let wrong = random_phone(rng);
            let entries = [lab.entry(&phone, sd)?, lab.entry(&wrong, sd ^ 1)?];
            let shows: Vec<Vec<u8>> = (0..4).filter_map(|j| lab.show_seeded(&user, &entries[j as usize % 2], sd ^ j).ok()).map(|p| p.to_bytes()).collect();
            if shows.is_empty() { return Ok(()); }
            let n = rng.range(5, 16);
            for j in 0..n {
                if rng.chance(40) || j + 1 == n { other = reborn(ctx, &other, rng)?; ctx.count("fault.restart"); }
                let js = sd ^ (j << 8);
                let what = rng.range(0, 5);
                if what == 0 {
                    let f = |o: &SignalIssuer| { set_system(Source::healthy(js ^ 2)); attempt(|| o.issue(&phone, &mut sim(js))).map(|x| hex(&x.to_bytes())) };
                    let (a, b) = (f(&one), f(&other));
                    same_out(ctx, "issue", a, b);
                    continue;
                }
                let mut x = rng.pick(&shows).clone();
                if what > 3 {
                    let sp = vec![pb(&rf::identity()), pb(&lab.key.params.h)];
                    let how = rng.u64();
                    mutate(&mut x, false, how, rng, &shows, &sp);
                }
                let f = |o: &SignalIssuer| attempt(|| { let p = dbg(SignalCredentialPresentation::from_bytes(&x))?; dbg(o.verify(p).map(|v| hex(&v.to_bytes()))) });
                let g = |o: &SignalIssuer| attempt(|| { let v = dbg(VerifiedSignalCredential::from_bytes(&x))?; dbg(o.verify_roster_membership(&v).map(|c| hex(&c.to_bytes()))) });
                if what % 2 == 0 { let (a, b) = (f(&one), f(&other)); same_out(ctx, "verify", a, b); }
                else { let (a, b) = (g(&one), g(&other)); same_out(ctx, "verify_roster_membership", a, b); }
            }
            same_out(ctx, "what is saved", guarded(|| hex(&one.to_bytes())), guarded(|| hex(&other.to_bytes())));
        }
        "issuer-behaviour" => {
            let other = match exact(ctx, &lab.issuer, rng, None) { Some(o) => o, None => return Ok(()) };
            let user = lab.holder(&phone, sd)?;
            let entry = lab.entry(&phone, sd)?;
            set_system(Source::healthy(sd ^ 2));
            let a = attempt(|| lab.issuer.issue(&phone, &mut sim(sd))).map(|x| hex(&x.to_bytes()));
            set_system(Source::healthy(sd ^ 2));
            let b = attempt(|| other.issue(&phone, &mut sim(sd))).map(|x| hex(&x.to_bytes()));
            same_out(ctx, "issue", a, b);
            same_out(ctx, "get_issuer_parameters", guarded(|| lab.issuer.get_issuer_parameters().to_bytes()), guarded(|| other.get_issuer_parameters().to_bytes()));
            let pres = lab.show_seeded(&user, &entry, sd)?.to_bytes();
            for j in 0..6 {
                let mut x = pres.clone();
                if j > 0 {
                    let sp = vec![pb(&rf::identity()), pb(&lab.key.params.h)];
                    let how = rng.u64();
                    mutate(&mut x, false, how, rng, &[], &sp);
                }
                let f = |o: &SignalIssuer| attempt(|| { let p = dbg(SignalCredentialPresentation::from_bytes(&x))?; dbg(o.verify(p).map(|v| hex(&v.to_bytes()))) });
                let g = |o: &SignalIssuer| attempt(|| { let v = dbg(VerifiedSignalCredential::from_bytes(&x))?; dbg(o.verify_roster_membership(&v).map(|c| hex(&c.to_bytes()))) });
                let (a, b) = (f(&lab.issuer), f(&other));
                if j == 0 && b.is_err() { ctx.bad(&["C06", "C01"], "restored-not-accepted", format!("a restored issuer refuses a genuine presentation: {:?}", b)); }
                same_out(ctx, "verify", a, b);
                let (a, b) = (g(&lab.issuer), g(&other));
                same_out(ctx, "verify_roster_membership", a, b);
            }
        }
        "key-behaviour" => {
            let kp = elgamal::Keypair::generate(&mut sim(sd));
            let k2 = match exact(ctx, &kp, rng, Some(eqf)) { Some(k) => k, None => return Ok(()) };
            let m = rng.scalar();
            let n = rng.scalar();
            let msg: elgamal::Message = (&m).into();
            let a = guarded(|| kp.encrypt(&msg, &n.into()));
            let b = guarded(|| k2.encrypt(&msg, &n.into()));
            if let (Ok(x), Ok(_)) = (&a, &b) {
                let da = guarded(|| kp.secret.decrypt(x));
                let db = guarded(|| k2.secret.decrypt(x));
                same_out(ctx, "decrypt", da, db);
            }
            same_out(ctx, "encrypt", a, b);
            let sk = &lab.issuer.issuer.keypair.secret;
            let s2 = match exact(ctx, sk, rng, None) { Some(k) => k, None => return Ok(()) };
            let msg: amacs::Message = m.into();
            let a = attempt(|| sk.mac(&msg, &mut sim(sd)));
            let b = attempt(|| s2.mac(&msg, &mut sim(sd)));
            if let Ok(ref t) = a {
                let t2 = exact(ctx, t, rng, Some(eqf));
                if let Some(t2) = t2 {
                    if attempt(|| s2.verify(&t2, &msg)).is_err() { ctx.bad(&["C06"], "restored-not-accepted", "a restored tag under a restored key".into()); }
                }
            }
            same_out(ctx, "mac", a, b);
        }
        "entry-behaviour" => {
            let user = lab.holder(&phone, sd)?;
            let entry = lab.entry(&phone, sd)?;
            let e2 = match exact(ctx, &entry, rng, None) { Some(e) => e, None => return Ok(()) };
            let wrong = random_phone(rng);
            for ph in &[&phone, &wrong] {
                let a = attempt(|| entry.open(ph, &lab.params()));
                let b = attempt(|| e2.open(ph, &lab.params()));
                same_out(ctx, "open", a.map_err(|e| format!("{:?}", e)).map_err(Fail::Rejected), b.map_err(|e| format!("{:?}", e)).map_err(Fail::Rejected));
            }
            let a = lab.show_seeded(&user, &entry, sd).map(|x| hex(&x.to_bytes()));
            let b = lab.show_seeded(&user, &e2, sd).map(|x| hex(&x.to_bytes()));
            same_out(ctx, "show with a restored entry", a, b);
        }
        "wide-keys" => {
            // MAC keys over several attributes are saved too.
            let n = rng.range(1, 6) as usize;
            let sk = guarded(|| amacs::SecretKey::new(n, &mut sim(sd)))?;
            let public = guarded(|| sk.get_public_key(&lab.key.params.h))?;
            exact(ctx, &public, rng, Some(eqf));
            let kp = make::keypair(public, sk.clone());
            let s2 = match exact(ctx, &sk, rng, None) { Some(k) => k, None => return Ok(()) };
            let k2 = exact(ctx, &kp, rng, None);
            let ms: Vec<Scalar> = (0..n).map(|_| rng.scalar()).collect();
            let msg: amacs::Message = ms.clone().into();
            let t = attempt(|| sk.mac(&msg, &mut sim(sd)))?;
            let a = attempt(|| sk.verify(&t, &msg));
            same_out(ctx, "verify over several attributes", a.clone(), attempt(|| s2.verify(&t, &msg)));
            if let Some(k2) = k2 { same_out(ctx, "verify over several attributes", a, attempt(|| k2.secret.verify(&t, &msg))); }
            exact(ctx, &make::request(ms.clone()), rng, Some(eqf));
            exact(ctx, &make::credential(t, vec![rng.scalar()]), rng, Some(eqf));
        }
        "any-keys" => {
            // Whatever party can be made of keys from elsewhere can be restored.
            let n = rng.range(0, 5) as usize;
            let x: Vec<Scalar> = (0..n + 1).map(|_| rng.scalar()).collect();
            let mut b: Vec<u8> = (0..n).flat_map(|i| pb(&(lab.key.params.h * x[i + 1])).to_vec()).collect();
            let public = b.clone();
            for x in &x { b.extend(x.as_bytes()); }
            let k = match attempt(|| sf::load::<amacs::Keypair>(some_form(rng), &b)) { Ok(k) => k, Err(_) => return Ok(()) };
            exact(ctx, &SignalIssuer::new(lab.params(), k), rng, None);
            let k = attempt(|| sf::load::<amacs::Keypair>(some_form(rng), &b))?;
            exact(ctx, &aeonflux::issuer::Issuer::new(lab.params(), k), rng, None);
            if let Ok(ip) = attempt(|| sf::load::<amacs::PublicKey>(some_form(rng), &public)) {
                if let Ok(u) = attempt(|| SignalUser::new(lab.params(), ip, None, &phone)) { exact(ctx, &u, rng, None); }
            }
        }
        "damaged-message" => {
            // A message that was stored and damaged: refused, or as good as before.
            let iss = lab.issue(&phone, Source::healthy(sd), Source::healthy(sd ^ 1))?;
            let user0 = lab.holder(&phone, sd)?;
            let entry = lab.entry(&phone, sd)?;
            let pres = lab.show_seeded(&user0, &entry, sd)?;
            let form = some_form(rng);
            if rng.chance(50) {
                let orig = iss.to_bytes();
                let mut x = attempt(|| sf::encode(form, &iss))?;
                let what = damage(&mut x, s.b, rng);
                ctx.count(&format!("fault.disk-{}", what));
                ctx.op();
                let mut u = lab.user(&phone, None)?;
                let r = attempt(|| { let i: SignalCredentialIssuance = sf::decode(form, &x)?; dbg(u.obtain_finish(Some(&i)))?; Ok::<_, String>(i.to_bytes()) });
                match r {
                    Ok(ref b) if *b != orig => ctx.bad(&["C06", "C04"], "damaged-message-accepted", format!("an issuance damaged on disk ({}) was accepted: {}", what, hex(b))),
                    Err(ref e) if e.is_bad() => ctx.bad(&["C06", "C07"], "damaged-state-panics", format!("{:?}", e)),
                    _ => {}
                }
            } else {
                let orig = pres.to_bytes();
                let mut x = attempt(|| sf::encode(form, &pres))?;
                let what = damage(&mut x, s.b, rng);
                ctx.count(&format!("fault.disk-{}", what));
                ctx.op();
                let r = attempt(|| { let p: SignalCredentialPresentation = sf::decode(form, &x)?; let b = p.to_bytes(); dbg(lab.issuer.verify(p))?; Ok::<_, String>(b) });
                match r {
                    Ok(ref b) if b[32..288] != orig[32..288] => ctx.bad(&["C06", "C02"], "damaged-message-accepted", format!("a presentation damaged on disk ({}) was accepted: {}", what, hex(b))),
                    Err(ref e) if e.is_bad() => ctx.bad(&["C06", "C07"], "damaged-state-panics", format!("{:?}", e)),
                    _ => {}
                }
                let r = attempt(|| { let p: VerifiedSignalCredential = sf::decode(form, &x)?; let b = p.to_bytes(); dbg(lab.issuer.verify_roster_membership(&p))?; Ok::<_, String>(b) });
                match r {
                    Ok(ref b) if b[..32] != orig[..32] || b[64..128] != orig[64..128] || b[288..] != orig[288..] =>
                        ctx.bad(&["C06", "C03"], "damaged-message-accepted", format!("a verified credential damaged on disk ({}) was confirmed: {}", what, hex(b))),
                    Err(ref e) if e.is_bad() => ctx.bad(&["C06", "C07"], "damaged-state-panics", format!("{:?}", e)),
                    _ => {}
                }
            }
        }
        "damaged-user" | "zero-fields" if s.op == "damaged-user" || s.c % 2 == 0 => {
            let user = if rng.chance(60) { lab.holder(&phone, sd)? } else { lab.user(&phone, Some(elgamal::Keypair::generate(&mut sim(sd))))? };
            let form = if s.op == "zero-fields" { Kind::Raw } else { some_form(rng) };
            let mut x = attempt(|| sf::encode(form, &user))?;
            let what = if s.op == "zero-fields" { zero_fields(&mut x, rng) } else { damage(&mut x, s.b, rng) };
            ctx.count(&format!("fault.disk-{}", what));
            ctx.op();
            match attempt(|| sf::decode::<SignalUser>(form, &x)) {
                Ok(mut o) => { ctx.count("event.damaged-state-loaded"); attack_user(ctx, &mut o, &lab.key, rng, what); }
                Err(ref e) if e.is_bad() => ctx.bad(&["C06", "C07"], "damaged-state-panics", format!("{:?}", e)),
                _ => {}
            }
        }
        _ /* damaged-issuer, zero-fields */ => {
            let holder = lab.holder(&phone, sd)?;
            let entry = lab.entry(&phone, sd)?;
            let shows: Vec<Vec<u8>> = (0..2).filter_map(|j| lab.show_seeded(&holder, &entry, sd ^ j).ok()).map(|p| p.to_bytes()).collect();
            let form = if s.op == "zero-fields" { Kind::Raw } else { some_form(rng) };
            let mut x = attempt(|| sf::encode(form, &lab.issuer))?;
            let what = if s.op == "zero-fields" { zero_fields(&mut x, rng) } else { damage(&mut x, s.b, rng) };
            ctx.count(&format!("fault.disk-{}", what));
            ctx.op();
            match attempt(|| sf::decode::<SignalIssuer>(form, &x)) {
                Ok(o) => { ctx.count("event.damaged-state-loaded"); attack_issuer(ctx, &o, &lab.key, Some(holder.to_bytes()), &shows, rng, what); }
                Err(ref e) if e.is_bad() => ctx.bad(&["C06", "C07"], "damaged-state-panics", format!("{:?}", e)),
                _ => {}
            }
            // The separately stored key pair and parameters, put together again.
            let mut kp = lab.issuer.issuer.keypair.to_bytes();
            let mut pr = lab.params().to_bytes();
            let what = if rng.chance(50) { zero_fields(&mut kp, rng) } else { zero_fields(&mut pr, rng) };
            let r = attempt(|| {
                let p = dbg(SystemParameters::from_bytes(&pr))?;
                let k = dbg(amacs::Keypair::from_bytes(&kp))?;
                Ok::<_, String>(SignalIssuer::new(p, k))
            });
            ctx.op();
            match r {
                Ok(o) => { ctx.count("event.damaged-state-loaded"); attack_issuer(ctx, &o, &lab.key, Some(holder.to_bytes()), &shows, rng, what); }
                Err(ref e) if e.is_bad() => ctx.bad(&["C06", "C07"], "damaged-state-panics", format!("{:?}", e)),
                _ => {}
            }
        }
    }
    Ok(())
}

/// Whole 32-byte fields lost (zero), or one field overwritten by its neighbour.
fn zero_fields(b: &mut Vec<u8>, rng: &mut Prng) -> &'static str {
    let n = b.len() / 32;
    if n == 0 { return "nothing"; }
    if rng.chance(25) {
        // Parameters: both generators the same, the classic misplaced write.
        if n >= 2 && rng.chance(60) { let i = rng.idx(n - 1); let t = b[i * 32..i * 32 + 32].to_vec(); b[i * 32 + 32..i * 32 + 64].copy_from_slice(&t); return "repeated-field"; }
    }
    let k = rng.range(1, 2);
    for _ in 0..k { let i = rng.idx(n); for x in &mut b[i * 32..i * 32 + 32] { *x = 0; } }
    "zero-field"
}

