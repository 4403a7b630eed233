//! The credential system below the telephone numbers: users and issuers of
//! any attribute, over histories of requests, presentations, restarts and aborts.
use crate::ctx::*;
use crate::entropy::*;
use crate::guard::*;
use crate::lab::*;
use crate::refimpl::{self as rf, Issued, Key, Proof, Shown};
use crate::surface as sf;
use crate::util::*;
use aeonflux::credential::*;
use aeonflux::issuer::Issuer;
use aeonflux::nonces::*;
use aeonflux::user::User;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::IsIdentity;

pub fn generate(seed: u64, thorough: bool) -> Vec<Step> {
    let ops = [("ask", 30), ("show", 40), ("restart", 8), ("swap", 10), ("late", 10)];
    super::cases(&ops, if thorough { 160 } else { 70 }, seed)
}

fn attribute(rng: &mut Prng) -> Scalar {
    match rng.below(10) {
        0 => Scalar::zero(), 1 => Scalar::one(), 2 => -Scalar::one(), 3 => Scalar::from(rng.u64()), 4 => Scalar::from(rng.below(256)),
        5 => m_of(&random_phone(rng)), _ => rng.scalar(),
    }
}

struct Iss { key: Key, obj: Issuer }
struct Usr { obj: User, issuer: usize, bytes: Vec<u8>, m: Option<Scalar> }
#[derive(Clone)]
struct Sent { b: Vec<u8>, issuer: usize, m: Scalar }

struct Town { iss: Vec<Iss>, usr: Vec<Usr>, issued: Vec<Sent>, shown: Vec<Sent> }

pub fn execute(run: &Run, ctx: &mut Ctx) {
    let mut rng = Prng::new(run.seed);
    set_system(Source::healthy(rng.u64()));
    let mut t = match town(&mut rng) { Ok(t) => t, Err(_) => { ctx.count("event.setup-failed"); return; } };
    for (i, s) in run.steps.iter().enumerate() {
        ctx.step = i;
        ctx.report.sim_ms += 10;
        step(ctx, &mut t, s, &mut Prng::new(s.seed));
    }
    // Once all is quiet everybody is served, whatever happened before.
    ctx.step = run.steps.len();
    for u in 0..t.usr.len() {
        let mut r = Prng::new(mixes(&[run.seed, u as u64]));
        let m = attribute(&mut r);
        ask(ctx, &mut t, u, m, &Step::new("ask", 9, 9, 0, 0), &mut r);
        show(ctx, &mut t, u, &Step::new("show", 9, 9, 0, 0), &mut r);
    }
}

fn town(rng: &mut Prng) -> Result<Town, Fail> {
    let mut iss: Vec<Iss> = vec![];
    for i in 0..2 {
        let mut key = random_key(rng);
        // Two issuers in one system, or in two.
        if i == 1 && rng.chance(50) { key = Key::from_secrets(iss[0].key.params, key.x0, key.x1); }
        let b = key.bytes();
        iss.push(Iss { obj: attempt(|| sf::load(*rng.pick(&sf::RUST_KINDS), &b))?, key });
    }
    let mut usr = vec![];
    for _ in 0..rng.range(1, 3) {
        let i = rng.idx(2);
        let o = guarded(|| User::new(iss[i].obj.system_parameters, iss[i].obj.get_issuer_parameters(), None))?;
        let bytes = guarded(|| o.to_bytes())?;
        usr.push(Usr { obj: o, issuer: i, bytes, m: None });
    }
    Ok(Town { iss, usr, issued: vec![], shown: vec![] })
}

/// Entropy, possibly failing at some draw.
fn entropy(ctx: &mut Ctx, s: &Step, rng: &mut Prng) -> (SimRng, bool) {
    let (a, b) = (Source::healthy(rng.u64()), Source::healthy(rng.u64()));
    match s.c % 12 {
        1 => { ctx.count("fault.caller-entropy-fails"); set_system(b); (SimRng(a.failing(s.b % 5)), true) }
        2 => { ctx.count("fault.system-entropy-fails"); set_system(b.failing(s.b % 5)); (SimRng(a), true) }
        _ => { set_system(b); (SimRng(a), false) }
    }
}

/// The issuer is as it was.
fn steady(ctx: &mut Ctx, t: &Town, i: usize, what: &str) {
    let now = guarded(|| t.iss[i].obj.to_bytes());
    if now != Ok(t.iss[i].key.bytes()) { ctx.bad(&["C05"], "issuer-changed", format!("by {}: {:?}", what, now.map(|b| hex(&b)))); }
}

/// The user is as it was, or as `want` says.
fn user_is(ctx: &mut Ctx, u: &mut Usr, want: Vec<u8>, what: &str, ok: bool) {
    let now = guarded(|| u.obj.to_bytes());
    if now.as_ref().ok() != Some(&want) {
        ctx.bad(if ok { &["C05", "C04"] } else { &["C05"] }, if ok { "user-state-wrong" } else { "user-changed-by-failure" }, format!("{}: {:?}", what, now.as_ref().map(|b| hex(b))));
    }
    if let Ok(b) = now { u.bytes = b; }
}

/// Ask for a credential on `m`.
fn ask(ctx: &mut Ctx, t: &mut Town, u: usize, m: Scalar, s: &Step, rng: &mut Prng) {
    let i = t.usr[u].issuer;
    ctx.op();
    let q = match guarded(|| t.usr[u].obj.obtain(vec![m])) { Ok(q) => q, Err(e) => { ctx.bad(&["C01", "C07"], "ask-panics", format!("{:?}", e)); return; } };
    let before = t.usr[u].bytes.clone();
    user_is(ctx, &mut t.usr[u], before, "asking", true);
    let raw = guarded(|| q.to_bytes());
    if raw != Ok(m.as_bytes().to_vec()) { ctx.bad(&["C01", "C11"], "request-wrong", format!("for {}: {:?}", hex(m.as_bytes()), raw)); return; }
    let q: CredentialRequest = match attempt(|| sf::load(*rng.pick(&sf::RUST_KINDS), m.as_bytes())) { Ok(q) => q, Err(e) => { ctx.bad(&["C01", "C11"], "request-refused", format!("{:?}", e)); return; } };
    let (mut r, faulty) = entropy(ctx, s, rng);
    let x = attempt(|| t.iss[i].obj.issue(&q, &mut r));
    steady(ctx, t, i, "issuing");
    let x = match x {
        Ok(x) => x,
        Err(ref e) if faulty && !e.is_bad() => return,
        Err(e) => { ctx.bad(&["C01", "C05"], "issue-refused", format!("on {}: {:?}", hex(m.as_bytes()), e)); return; }
    };
    let b = match guarded(|| x.to_bytes()) { Ok(b) => b, Err(e) => { ctx.bad(&["C01"], "issuance-unsaveable", format!("{:?}", e)); return; } };
    ctx.ev(&[1, u as u64, hash_bytes(&b)], || format!("user {} asks issuer {} for {}", u, i, hex(m.as_bytes())));
    let k = &t.iss[i].key;
    match Issued::parse(&b) {
        Some(ref y) if b.len() == 328 && y.m == m && y.q == y.p * (k.x0 + k.x1 * m) && y.accept(&k.params, &k.big, &m) => {}
        _ => ctx.bad(&["C01", "C04"], "issuance-wrong", format!("for {}: {}", hex(m.as_bytes()), hex(&b))),
    }
    t.issued.push(Sent { b: b.clone(), issuer: i, m });
    deliver_issuance(ctx, t, u, &b, "as sent", rng);
}

fn deliver_issuance(ctx: &mut Ctx, t: &mut Town, u: usize, b: &[u8], how: &str, rng: &mut Prng) {
    ctx.op();
    let me = &t.iss[t.usr[u].issuer].key;
    let same = |i: usize| { let k = &t.iss[i].key; k.big == me.big && k.params == me.params };
    // What the issuer proved does not include the attribute (see the findings); the rest must be its own.
    let genuine = t.issued.iter().find(|x| same(x.issuer) && x.b[..96] == b[..96] && x.b[128..] == b[128..]).cloned();
    let exact = genuine.as_ref().map_or(false, |x| x.b[..] == *b);
    let x: Result<CredentialIssuance, Fail> = attempt(|| sf::load(*rng.pick(&sf::RUST_KINDS), b));
    let usr = &mut t.usr[u];
    let before = usr.bytes.clone();
    let r = x.and_then(|x| attempt(|| usr.obj.obtain_finish(Some(&x))));
    ctx.ev(&[2, u as u64, hash_bytes(b), r.is_ok() as u64], || format!("user {} gets an issuance ({}): {:?}", u, how, r));
    ctx.count(&format!("{}{}", if exact { "case.issuance " } else { "attack.issuance " }, how));
    let mut want = before;
    if r.is_ok() { want[160..].copy_from_slice(&b[32..128]); usr.m = sc(&b[96..128]); }
    user_is(ctx, usr, want, "an issuance", r.is_ok());
    match r {
        Ok(()) if genuine.is_none() => ctx.bad(&["C04"], "plain-issuance-accepted", format!("{}: {}", how, hex(b))),
        Err(ref e) if e.is_bad() => ctx.bad(&["C07"], "obtain-panics", format!("{}: {:?}", how, e)),
        Err(ref e) if exact => ctx.bad(&["C01", "C05"], "issuance-refused", format!("{}: {:?}", how, e)),
        _ => {}
    }
}

/// A presentation, by the user and to its issuer.
fn show(ctx: &mut Ctx, t: &mut Town, u: usize, s: &Step, rng: &mut Prng) {
    ctx.op();
    let i = t.usr[u].issuer;
    let z = rng.scalar();
    let nonces = match guarded(|| Nonces::new(&mut sim(rng.u64()), 1)) { Ok(n) => n, Err(_) => return };
    let z = nonces.iter().next().and_then(|e| sc(&e.to_bytes())).unwrap_or(z);
    let (mut r, faulty) = entropy(ctx, s, rng);
    let x = attempt(|| t.usr[u].obj.show(&nonces, &mut r));
    let before = t.usr[u].bytes.clone();
    user_is(ctx, &mut t.usr[u], before, "showing", x.is_ok());
    let m = match t.usr[u].m { Some(m) => m, None => { if x.is_ok() { ctx.bad(&["C02", "C05"], "shown-without-credential", "a user without a credential presents one".into()); } return; } };
    let k = t.iss[i].key.clone();
    let x = match x {
        Ok(x) => x,
        Err(ref e) if faulty && !e.is_bad() => return,
        Err(e) => { ctx.bad(&["C01", "C05"], "show-refused", format!("a credential on {}: {:?}", hex(m.as_bytes()), e)); return; }
    };
    let b = match guarded(|| x.to_bytes()) { Ok(b) => b, Err(e) => { ctx.bad(&["C01"], "presentation-unsaveable", format!("{:?}", e)); return; } };
    ctx.ev(&[3, u as u64, hash_bytes(&b)], || format!("user {} presents a credential on {}", u, hex(m.as_bytes())));
    // Other proofs about the attribute build on the nonce it was given.
    match Shown::parse(&b) {
        Some(ref y) if b.len() == 256 => if y.cm0 != y.p * m + k.params.h * z { ctx.bad(&["C03", "C01"], "commitment-wrong", format!("not to {} with the nonce given", hex(m.as_bytes()))); },
        _ => { ctx.bad(&["C11", "C01"], "presentation-wrong", hex(&b)); return; }
    }
    t.shown.push(Sent { b: b.clone(), issuer: i, m });
    deliver_presentation(ctx, t, i, &b, "as sent", rng);
}

fn deliver_presentation(ctx: &mut Ctx, t: &mut Town, i: usize, b: &[u8], how: &str, rng: &mut Prng) {
    ctx.op();
    let want = b.len() == 256 && Shown::parse(b).map_or(false, |y| t.iss[i].key.verify(&y));
    let x: Result<CredentialPresentation, Fail> = attempt(|| sf::load(*rng.pick(&sf::RUST_KINDS), b));
    let r = x.and_then(|x| attempt(|| t.iss[i].obj.verify(&x)).and_then(|v| guarded(|| v.to_bytes())));
    steady(ctx, t, i, "verifying");
    verdict(ctx, t, i, b, want, r, how);
}

fn verdict(ctx: &mut Ctx, t: &Town, i: usize, b: &[u8], want: bool, r: Result<Vec<u8>, Fail>, how: &str) {
    let mine = |j: usize| { let (a, b) = (&t.iss[j].key, &t.iss[i].key); a.x0 == b.x0 && a.x1 == b.x1 && a.params == b.params };
    ctx.ev(&[4, i as u64, hash_bytes(b), r.is_ok() as u64], || format!("issuer {} gets a presentation ({}): {}", i, how, r.is_ok()));
    ctx.count(&format!("{}{}", if want { "case.presentation " } else { "attack.presentation " }, how));
    match r {
        Ok(ref v) => {
            if !want { ctx.bad(&["C02"], "plain-presentation-accepted", format!("{}: {}", how, hex(b))); }
            else if !t.shown.iter().any(|x| x.b[..] == *b && mine(x.issuer)) { ctx.bad(&["C02"], "presentation-nobody-made", format!("{}: {}", how, hex(b))); }
            if v[..] != *b { ctx.bad(&["C02", "C11"], "verified-something-else", format!("{}: {} instead of {}", how, hex(v), hex(b))); }
        }
        Err(ref e) if e.is_bad() => ctx.bad(&["C07"], "verify-panics", format!("{}: {:?}", how, e)),
        // (The credential may have been relabelled on its way, see the findings: then the reference refuses too.)
        Err(ref e) if want => ctx.bad(&["C01", "C05"], "presentation-refused", format!("{}: {:?}", how, e)),
        _ => {}
    }
}

fn step(ctx: &mut Ctx, t: &mut Town, s: &Step, rng: &mut Prng) {
    let u = s.a as usize % t.usr.len();
    ctx.state(mixes(&[hash_bytes(s.op.as_bytes()), s.b % 16, s.c % 12, t.usr[u].m.is_some() as u64]));
    match &s.op[..] {
        "ask" => { let m = attribute(rng); ask(ctx, t, u, m, s, rng) }
        "show" => {
            show(ctx, t, u, s, rng);
            if let (true, Some(x)) = (s.c % 3 == 0, t.shown.last().cloned()) { alter(ctx, t, x, rng); }
        }
        "restart" => {
            let k = *rng.pick(&sf::RUST_KINDS);
            let usr = &mut t.usr[u];
            let r = attempt(|| sf::encode(k, &usr.obj)).and_then(|b| attempt(|| sf::decode::<User>(k, &b)));
            match r { Ok(o) => { usr.obj = o; let b = usr.bytes.clone(); user_is(ctx, usr, b, "a restart", false); } Err(e) => ctx.bad(&["C06"], "unrestorable", format!("a user: {:?}", e)) }
            let i = rng.idx(2);
            let r = attempt(|| sf::encode(k, &t.iss[i].obj)).and_then(|b| attempt(|| sf::decode::<Issuer>(k, &b)));
            match r { Ok(o) => t.iss[i].obj = o, Err(e) => ctx.bad(&["C06"], "unrestorable", format!("an issuer: {:?}", e)) }
            steady(ctx, t, i, "a restart");
        }
        "swap" => {
            // Issuances that are not what the issuer sent.
            if t.issued.is_empty() { return; }
            let x = rng.pick(&t.issued).b.clone();
            let y = rng.pick(&t.issued).b.clone();
            let mut z = x.clone();
            let how = match rng.below(9) {
                0 => "somebody's",
                1 => { let j = *rng.pick(&[0usize, 32, 64]); z[j..j + 32].copy_from_slice(&y[j..j + 32]); "a point exchanged" }
                2 => { let j = *rng.pick(&[0usize, 32, 64]); let p = pt(&z[j..j + 32]).unwrap(); z[j..j + 32].copy_from_slice(&pb(&-p)); "a point negated" }
                3 => { let k = rng.scalar(); for j in &[32usize, 64] { let p = pt(&z[*j..j + 32]).unwrap(); z[*j..j + 32].copy_from_slice(&pb(&(p * k))); } "rerandomised" }
                4 => { for j in 32..96 { z[j] = 0; } "of nothing" }
                5 => { let j = 128 + 8 + 40 * rng.idx(5); for n in 0..32 { z[j + n] = 0; } "a scalar cleared" }
                6 => { let k = 128 + *rng.pick(&[0usize, 40, 80, 120, 160]) + 8; let k = k.min(z.len() - 32); z[k] ^= 1 << rng.below(8); "a bit flipped" }
                7 => { z[128..].copy_from_slice(&y[128..]); "a proof exchanged" }
                _ => { let n = rng.idx(z.len()); z.truncate(n); "cut" }
            };
            if let Some(b) = canonical(&z) { deliver_issuance(ctx, t, u, &b, how, rng); } else {
                // Not a message at all.
                let before = t.usr[u].bytes.clone();
                let usr = &mut t.usr[u];
                let r = attempt(|| sf::load::<CredentialIssuance>(*rng.pick(&sf::RUST_KINDS), &z)).and_then(|x| attempt(|| usr.obj.obtain_finish(Some(&x))));
                if r.is_ok() { ctx.bad(&["C04"], "plain-issuance-accepted", format!("{}: {}", how, hex(&z))); }
                if let Err(ref e) = r { if e.is_bad() { ctx.bad(&["C07"], "obtain-panics", format!("{}: {:?}", how, e)); } }
                user_is(ctx, usr, before, how, false);
            }
            let before = t.usr[u].bytes.clone();
            let r = attempt(|| t.usr[u].obj.obtain_finish(None));
            if r.is_ok() { ctx.bad(&["C04", "C05"], "nothing-accepted", "no issuance".into()); }
            user_is(ctx, &mut t.usr[u], before, "no issuance", false);
        }
        _ => {
            // What was sent before comes again, or elsewhere.
            if rng.chance(50) && !t.shown.is_empty() { let x = rng.pick(&t.shown).b.clone(); let i = rng.idx(2); deliver_presentation(ctx, t, i, &x, "again", rng); }
            else if !t.issued.is_empty() { let x = rng.pick(&t.issued).b.clone(); deliver_issuance(ctx, t, u, &x, "again", rng); }
        }
    }
}

/// An issuance all of whose parts are valid encodings.
fn canonical(b: &[u8]) -> Option<Vec<u8>> {
    if b.len() != 328 { return None; }
    let i = Issued::parse(b)?;
    Some(rf::cat(&[&pb(&i.cx0), &pb(&i.p), &pb(&i.q), i.m.as_bytes(), &i.proof.to_bytes()]))
}

/// Presentations that nobody made.
fn alter(ctx: &mut Ctx, t: &mut Town, x: Sent, rng: &mut Prng) {
    let y = match Shown::parse(&x.b) { Some(y) => y, None => return };
    let o = Shown::parse(&rng.pick(&t.shown).b.clone()).unwrap();
    let k = t.iss[x.issuer].key.clone();
    let i = if rng.chance(80) { x.issuer } else { 1 - x.issuer };
    let mut z = y.clone();
    let how = match rng.below(14) {
        12 | 13 => {
            // A holder who would rather not prove anything, at values which might be thought to need no proof.
            let u = match t.usr.iter().find(|u| u.m.is_some() && u.issuer == x.issuer) { Some(u) => u, None => return };
            let (p, q, m) = match (pt(&u.bytes[160..192]), pt(&u.bytes[192..224]), u.m) { (Some(p), Some(q), Some(m)) => (p, q, m), _ => return };
            let (s, a) = (rng.scalar(), rng.scalar());
            z.p = p * s;
            let (zm, zq) = *rng.pick(&[(a, Scalar::zero()), (Scalar::zero(), Scalar::zero()), (Scalar::zero(), a), (a, a), (Scalar::one(), Scalar::zero())]);
            z.cm0 = z.p * m + k.params.h * zm;
            // The issuer's V is then what zq makes it: nothing at all, h, or X1 times something.
            z.cq = q * s + *rng.pick(&[k.big, rf::identity()]) * zm + k.params.h * zq;
            if rng.chance(50) { z.proof = Proof { c: Scalar::zero(), r: vec![Scalar::zero(); z.proof.r.len()] }; }
            "of a credential, unproven"
        }
        0 => { z.cq = -z.cq; "tag commitment negated" }
        1 => { z.p = o.p; "nonce exchanged" }
        2 => { z.cm0 = z.cm0 + k.params.h; "commitment shifted" }
        3 => { z.p = rf::identity(); "no nonce" }
        4 => { let s = rng.scalar(); z.p *= s; z.cq *= s; z.cm0 *= s; "all scaled" }
        5 => { z.proof = o.proof.clone(); "proof exchanged" }
        6 => { let n = z.proof.r.len(); let j = rng.idx(n); z.proof.r[j] = -z.proof.r[j]; "a response negated" }
        7 => { z.proof.c = rng.scalar(); "another challenge" }
        8 => { z.proof = Proof { c: Scalar::zero(), r: vec![Scalar::zero(); z.proof.r.len()] }; "no proof" }
        9 => { z.cm0 = o.cm0; z.cq = o.cq; "commitments exchanged" }
        10 => {
            // More or fewer attributes than the one.
            let r = attempt(|| { let mut p: CredentialPresentation = dbg(CredentialPresentation::from_bytes(&x.b))?;
                match rng.below(5) { 0 => { p.attributes_blinded.clear(); } 1 => { let c = p.attributes_blinded[0].clone(); p.attributes_blinded.push(c); } 2 => p.attributes_revealed.push(x.m), 3 => { p.attributes_blinded.clear(); p.attributes_revealed.push(x.m); } _ => { p.attributes_revealed.push(Scalar::zero()); } }
                dbg(t.iss[i].obj.verify(&p)) }).and_then(|v| guarded(|| v.to_bytes()));
            verdict(ctx, t, i, &x.b, false, r, "other attributes");
            return;
        }
        _ => { z.proof.c = z.proof.c + Scalar::one(); "challenge shifted" }
    };
    if z.p.is_identity() && z == y { return; }
    let b = z.bytes();
    deliver_presentation(ctx, t, i, &b, how, rng);
}
