//! Hostile bytes: everything that decodes bytes, and every operation on what was
//! decoded, through every interface. Nothing may panic, die, hang or read beyond
//! its arguments, and the parties must go on serving.
use crate::ctx::*;
use crate::entropy::*;
use crate::guard::*;
use crate::lab::*;
use crate::make;
use crate::surface::{self as sf, Kind, Wire};
use crate::util::*;
use aeonflux::{amacs, credential as ac, elgamal, pedersen};
use curve25519_dalek::scalar::Scalar;
use signal_credential::credential::*;
use signal_credential::issuer::SignalIssuer;
use signal_credential::parameters::SystemParameters;
use signal_credential::phone_number::*;
use signal_credential::user::SignalUser;

pub fn generate(seed: u64, thorough: bool) -> Vec<Step> {
    let ops = [("decode", 40), ("text", 8), ("issue", 10), ("verify", 22), ("roster", 12), ("obtain", 18), ("show", 16), ("entry", 8), ("phone", 12), ("structs", 10), ("json", 12), ("many", 6)];
    super::cases(&ops, if thorough { 90 } else { 45 }, seed)
}

const L: [u8; 32] = [0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10];

/// Valid encodings of everything.
pub struct Pool { pub all: Vec<Vec<u8>>, pub issuers: Vec<Vec<u8>>, pub pres: Vec<Vec<u8>>, pub iss: Vec<Vec<u8>>, pub users: Vec<Vec<u8>>, pub entries: Vec<Vec<u8>>, pub phone: Vec<u8>, pub params: Vec<u8>, pub iparams: Vec<u8>, pub keypair: Vec<u8> }

pub fn pool(lab: &Lab, rng: &mut Prng) -> Result<Pool, Fail> {
    let phone = random_phone(rng);
    let iss = lab.issue(&phone, Source::healthy(rng.u64()), Source::healthy(rng.u64()))?;
    let u0 = lab.user(&phone, None)?;
    let u1 = lab.holder(&phone, rng.u64())?;
    let mut u2 = lab.user(&phone, Some(elgamal::Keypair::generate(&mut sim(rng.u64()))))?;
    attempt(|| u2.obtain_finish(Some(&iss)))?;
    let e = lab.entry(&phone, rng.u64())?;
    let p = lab.show_seeded(&u1, &e, rng.u64())?;
    let kp = lab.issuer.issuer.keypair.to_bytes();
    let mut r = sim(rng.u64());
    let big = amacs::Keypair::new(&lab.params().h, &mut r);
    let p = p.to_bytes();
    let all = vec![lab.params().to_bytes(), lab.key.bytes(), kp.clone(), lab.iparams().to_bytes(), iss.to_bytes(), u0.to_bytes(), u1.to_bytes(), u2.to_bytes(),
                   u1.to_bytes()[32..].to_vec(), e.to_bytes(), p.clone(), p[32..288].to_vec(), iss.credential.to_bytes(), iss.credential.mac.to_bytes(),
                   big.secret.to_bytes(), elgamal::Keypair::generate(&mut r).to_bytes(), m_of(&phone).to_bytes().to_vec()];
    Ok(Pool { all, issuers: vec![lab.key.bytes()], pres: vec![p], iss: vec![iss.to_bytes()], users: vec![u0.to_bytes(), u1.to_bytes(), u2.to_bytes()],
              entries: vec![e.to_bytes()], phone, params: lab.params().to_bytes(), iparams: lab.iparams().to_bytes(), keypair: kp })
}

fn special(rng: &mut Prng) -> Vec<u8> {
    match rng.below(9) {
        0 => vec![0; 32],
        1 => vec![0xff; 32],
        2 => L.to_vec(),
        3 => { let mut l = L; l[0] = l[0].wrapping_add(rng.below(4) as u8).wrapping_sub(2); l.to_vec() }
        4 => { let mut x = rng.seed32(); x[31] = 0xff; x.to_vec() }
        5 => { let mut x = [0; 32]; x[rng.idx(32)] = rng.below(256) as u8; x.to_vec() }
        6 => pb(&rng.point()).to_vec(),
        7 => rng.scalar().to_bytes().to_vec(),
        _ => curve25519_dalek::constants::RISTRETTO_BASEPOINT_COMPRESSED.to_bytes().to_vec(),
    }
}

/// Bytes like `like`, or not.
pub fn hostile(like: &[&Vec<u8>], rng: &mut Prng) -> (Vec<u8>, &'static str) {
    let mut b = if like.is_empty() { vec![] } else { (*rng.pick(like)).clone() };
    let what = match rng.below(13) {
        0 => { let most = if rng.chance(20) { 5000 } else { 600 }; let n = rng.below(most) as usize; b = rng.bytes(n); "random" }
        1 => { let n = b.len(); b = rng.bytes(n); "random of the right length" }
        2 => { let n = *rng.pick(&[0usize, 1, 8, 31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 160, 192, 255, 256, 257, 288, 289, 328, 448, 449, 512]); b = vec![*rng.pick(&[0u8, 0xff, 1, 15, 0x80]); n]; "constant" }
        3 => { let n = rng.idx(b.len() + 1); b.truncate(n); "truncated" }
        4 => { let n = if rng.chance(2) { 66_000 } else { *rng.pick(&[1usize, 8, 31, 32, 33, 64, 96, 200, 400, 1000, 4200]) }; let t = if rng.chance(50) { rng.bytes(n) } else { vec![0; n] }; b.extend(t); "extended" }
        5 => { let n = rng.below(4) + 1; for _ in 0..n { if b.is_empty() { break; } let i = rng.idx(b.len() * 8); b[i / 8] ^= 1 << (i % 8); } "bits flipped" }
        6 | 7 => { let s = special(rng); let k = rng.idx(b.len() / 32 + 1) * 32; for (i, x) in s.iter().enumerate() { if k + i < b.len() { b[k + i] = *x; } } "special value" }
        // Counts inside the bytes.
        8 => { let k = if b.len() > 8 { rng.idx(b.len() - 7) / 8 * 8 } else { 0 }; let v = length(rng).to_le_bytes(); for i in 0..8 { if k + i < b.len() { b[k + i] = v[i]; } } "count" }
        9 => { let k = if b.len() > 8 { rng.idx(b.len() - 7) } else { 0 }; for i in 0..8 { if k + i < b.len() { b[k + i] = 0; } } "zero count" }
        10 => { let n = b.len() / 32; if n > 0 { let (x, y) = (rng.idx(n) * 32, rng.idx(n) * 32); let t = b[x..x + 32].to_vec(); b[y..y + 32].copy_from_slice(&t); } "block copied" }
        11 => { if !b.is_empty() { let k = rng.idx(b.len()); b.drain(..k); } "front lost" }
        _ => { if !b.is_empty() { let k = rng.idx(b.len()); let n = rng.idx(b.len() - k) + 1; b.drain(k..k + n.min(40)); } "middle lost" }
    };
    (b, what)
}

fn length(rng: &mut Prng) -> u64 {
    *rng.pick(&[0, 1, 2, 3, 5, 6, 7, 31, 32, 33, 64, 255, 256, 65535, 1 << 20, 1 << 31, (1 << 32) - 1, 1 << 40, 1 << 62, 1 << 63, u64::max_value() - 31, u64::max_value() / 32, u64::max_value()])
}

/// Bytes in the form a decoder of this kind takes, possibly not even that.
pub fn form(k: Kind, b: &[u8], rng: &mut Prng) -> Vec<u8> {
    match k {
        Kind::Raw | Kind::C => b.to_vec(),
        Kind::Bincode => {
            let mut v = sf::raw_to_kind(k, b);
            if rng.chance(30) { v[..8].copy_from_slice(&length(rng).to_le_bytes()); }
            if rng.chance(10) { let n = rng.idx(v.len() + 1); v.truncate(n); }
            v
        }
        Kind::Json | Kind::Js => if rng.chance(40) { json(b, rng).into_bytes() } else { sf::raw_to_kind(k, b) },
    }
}

fn json(b: &[u8], rng: &mut Prng) -> String {
    let list = |f: &mut dyn FnMut(u8) -> String| format!("[{}]", b.iter().map(|x| f(*x)).collect::<Vec<_>>().join(","));
    let odd = b.get(0).cloned().unwrap_or(7);
    match rng.below(16) {
        0 => "null".into(),
        1 => "0".into(),
        2 => "{}".into(),
        3 => "\"\"".into(),
        4 => format!("\"{}\"", hex(b)),
        5 => list(&mut |x| format!("-{}", x)),
        6 => list(&mut |x| format!("{}.5", x)),
        7 => list(&mut |x| format!("{}", x as u64 + 256)),
        8 => list(&mut |x| if x == odd { "99999999999999999999999".into() } else { x.to_string() }),
        9 => list(&mut |x| if x == odd { "\"x\"".into() } else { x.to_string() }),
        10 => list(&mut |x| if x == odd { "null".into() } else { x.to_string() }),
        11 => format!("[{}", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
        12 => { let n = rng.range(1, 200) as usize; format!("{}{}", "[".repeat(n), "]".repeat(n)) }
        13 => format!("{{\"a\":{}}}", list(&mut |x| x.to_string())),
        14 => { let n = rng.below(3000) as usize; format!("[{}]", vec!["0"; n].join(",")) }
        _ => { let mut s = serde_json::to_string(b).unwrap(); if s.len() > 2 { let i = rng.idx(s.len()); s.replace_range(i..i + 1, *rng.pick(&["x", "\u{0}", "\u{fc}", "-", "e", "\"", "[", "{"])); } s }
    }
}

fn watch<T>(ctx: &mut Ctx, what: &str, input: &[&[u8]], r: Result<T, Fail>) -> Option<T> {
    ctx.op();
    match r {
        Ok(x) => Some(x),
        Err(e) => {
            if e.is_bad() { ctx.bad(&["C07"], "panic", format!("{}: {:?} on {}", what, e, input.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" / "))); }
            None
        }
    }
}

fn dec<T: Wire>(ctx: &mut Ctx, rng: &mut Prng, like: &[&Vec<u8>], used: &mut dyn FnMut(&mut Ctx, T, &[u8])) {
    let (b, how) = hostile(like, rng);
    ctx.count(&format!("fault.bytes: {}", how));
    let k = *rng.pick(&sf::RUST_KINDS);
    let b = form(k, &b, rng);
    let what = format!("decoding {} ({:?})", T::NAME, k);
    let r = watch(ctx, &what, &[&b], attempt(|| sf::decode::<T>(k, &b)));
    ctx.ev(&[hash_bytes(T::NAME.as_bytes()), r.is_some() as u64], || format!("{}: {} {}", what, how, if r.is_some() { "decoded" } else { "refused" }));
    ctx.state(mixes(&[hash_bytes(T::NAME.as_bytes()), hash_bytes(how.as_bytes()), k as u64, r.is_some() as u64]));
    if let Some(t) = r {
        ctx.count("event.hostile bytes decoded");
        let e = watch(ctx, &format!("encoding {} again", T::NAME), &[&b], guarded(|| t.tb()));
        for k in &sf::RUST_KINDS { watch(ctx, &format!("encoding {} again ({:?})", T::NAME, k), &[&b], attempt(|| sf::encode(*k, &t))); }
        if let Some(e) = e { watch(ctx, &format!("decoding {} once more", T::NAME), &[&e], attempt(|| T::fb(&e))); }
        used(ctx, t, &b);
    }
}

pub fn execute(run: &Run, ctx: &mut Ctx) {
    let mut rng = Prng::new(run.seed);
    set_system(Source::healthy(rng.u64()));
    let lab = match Lab::new(&mut rng) { Ok(l) => l, Err(_) => { ctx.count("event.setup-failed"); return; } };
    let mut p = match pool(&lab, &mut rng) { Ok(p) => p, Err(_) => { ctx.count("event.setup-failed"); return; } };
    for (i, s) in run.steps.iter().enumerate() {
        ctx.step = i;
        ctx.report.sim_ms += 10;
        let mut rng = Prng::new(s.seed);
        set_system(Source::healthy(rng.u64()));
        step(ctx, &lab, &mut p, s, &mut rng);
        // In between honest customers are served.
        if rng.chance(8) {
            if let Err(e) = lab.serves(rng.u64()) { ctx.bad(&["C07"], "no-longer-serves", format!("after {}: {}", s.op, e)); }
        }
    }
    if let Err(e) = lab.serves(rng.u64()) { ctx.bad(&["C07"], "no-longer-serves", e); }
}

fn step(ctx: &mut Ctx, lab: &Lab, p: &mut Pool, s: &Step, rng: &mut Prng) {
    let all: Vec<&Vec<u8>> = p.all.iter().collect();
    match &s.op[..] {
        "decode" => decode_any(ctx, lab, p, s.c, rng),
        // The operations on bytes, as every interface offers them.
        "issue" | "verify" | "roster" | "obtain" | "show" | "entry" => {
            let k = *rng.pick(&sf::kinds());
            let own = |ok: &Vec<u8>, like: &[&Vec<u8>], rng: &mut Prng| if rng.chance(55) { (ok.clone(), "valid") } else if rng.chance(80) { hostile(like, rng) } else { hostile(&all, rng) };
            let seed = rng.seed32();
            let name = format!("{} ({:?})", s.op, k);
            let mut a: Vec<(Vec<u8>, &str)> = Vec::new();
            match &s.op[..] {
                "issue" => { a.push(own(&p.issuers[0], &[&p.issuers[0]], rng)); a.push((odd_phone(p, rng), "phone")); }
                "verify" | "roster" => { a.push(own(&p.issuers[0], &[&p.issuers[0]], rng)); a.push(hostile(&[&p.pres[0]], rng)); }
                "obtain" => { a.push((odd_phone(p, rng), "phone")); a.push(own(&p.params, &[&p.params], rng)); a.push(own(&p.iparams, &[&p.iparams, &p.params, &p.keypair], rng)); a.push(own(&p.iss[0], &[&p.iss[0]], rng)); }
                "show" => { let us: Vec<&Vec<u8>> = p.users.iter().collect(); a.push(own(&p.users[1], &us, rng)); a.push(own(&p.entries[0], &[&p.entries[0]], rng)); }
                _ => { a.push((odd_phone(p, rng), "phone")); a.push(own(&p.params, &[&p.params], rng)); a.push(own(&p.entries[0], &[&p.entries[0]], rng)); }
            }
            // C takes nothing empty, and everything as close to the edge of its memory as can be.
            let hs: Vec<&str> = a.iter().map(|x| x.1).collect();
            for h in &hs { if *h != "valid" { ctx.count(&format!("fault.bytes: {}", h)); } }
            #[cfg(feature = "c")]
            let maps: Vec<crate::heap::Guarded> = if k == Kind::C { a.iter().map(|x| { let g = crate::heap::Guarded::placed(&x.0, false); g.read_only(); g }).collect() } else { vec![] };
            #[cfg(feature = "c")]
            let v: Vec<&[u8]> = a.iter().enumerate().map(|(i, x)| if k == Kind::C && !x.0.is_empty() { unsafe { std::slice::from_raw_parts(maps[i].ptr, x.0.len()) } } else { &x.0[..] }).collect();
            #[cfg(not(feature = "c"))]
            let v: Vec<&[u8]> = a.iter().map(|x| &x.0[..]).collect();
            let r = match &s.op[..] {
                "issue" => sf::issue(k, v[0], v[1], &seed),
                "verify" => sf::verify(k, v[0], v[1]),
                "roster" => sf::roster(k, v[0], v[1]),
                "obtain" => sf::obtain(k, v[0], v[1], v[2], v[3]),
                "show" => sf::show(k, v[0], v[1], &seed),
                _ => {
                    let r = sf::entry_open(k, v[2], v[0], v[1]);
                    watch(ctx, "opening an entry", &v, r);
                    watch(ctx, "removing an opening", &v, sf::entry_remove_opening(k, v[2]));
                    watch(ctx, "issuer from parts", &v, sf::issuer_new(k, v[1], &p.keypair));
                    watch(ctx, "issuer creation", &v, sf::issuer_create(k, v[1], &seed));
                    watch(ctx, "issuer parameters", &v, sf::issuer_params(k, v[2]));
                    sf::entry_create(k, v[0], v[1], &seed)
                }
            };
            let r = watch(ctx, &name, &v, r);
            ctx.state(mixes(&[hash_bytes(name.as_bytes()), r.is_some() as u64, hash_bytes(hs.join(",").as_bytes())]));
            ctx.ev(&[hash_bytes(name.as_bytes()), r.is_some() as u64], || format!("{}: {} -> {}", name, hs.join(", "), r.is_some()));
            if let Some(b) = r { if s.op == "show" && b.len() == 448 && rng.chance(50) { p.pres[0] = b; } else if s.op == "issue" && b.len() == 328 && rng.chance(50) { p.iss[0] = b; } }
        }
        "text" => {
            let t = odd_text(rng);
            ctx.count("fault.odd text");
            let r = watch(ctx, "a number from text", &[t.as_bytes()], attempt(|| PhoneNumber::try_from_string(&t)));
            ctx.ev(&[r.is_some() as u64], || format!("text {:?}: {}", t, r.is_some()));
            if let Some(n) = r { let b = n.to_bytes(); watch(ctx, "a number to text", &[&b], guarded(|| String::from(n))); }
        }
        "phone" => {
            // Any scalar in place of a number.
            let b = if rng.chance(40) { let mut x = m_of(&p.phone).to_bytes(); for _ in 0..rng.below(4) { x[rng.idx(32)] = rng.below(256) as u8; } x } else { a32(&special(rng)) };
            ctx.count("fault.odd number");
            if let Some(n) = watch(ctx, "a number from bytes", &[&b], attempt(|| PhoneNumber::from_bytes(&b))) {
                watch(ctx, "a number to text", &[&b], guarded(|| String::from(n.clone())));
                let kp = elgamal::Keypair::generate(&mut sim(rng.u64()));
                let z = rng.scalar();
                if let Some(e) = watch(ctx, "encrypting a number", &[&b], guarded(|| n.encrypt(&kp, &z.into()))) {
                    watch(ctx, "decrypting a number", &[&b], guarded(|| kp.secret.decrypt(&e.0)));
                    watch(ctx, "an encrypted number as attributes", &[&b], guarded(|| Vec::<ac::EncryptedAttribute>::from(e.clone())));
                }
                watch(ctx, "a number as message", &[&b], guarded(|| amacs::Message::from(n.clone())));
            }
            ctx.ev(&[hash_bytes(&b)], || format!("number {}", hex(&b)));
        }
        "structs" => structs(ctx, lab, p, rng),
        "json" => js_values(ctx, p, &all, rng),
        _ => {
            // A flood of broken messages at one party, and it still serves.
            let n = rng.range(5, 25);
            ctx.count("fault.flood");
            for _ in 0..n {
                let (b, _) = hostile(&[&p.pres[0]], rng);
                let r = attempt(|| { let x = dbg(SignalCredentialPresentation::from_bytes(&b))?; let v = dbg(lab.issuer.verify(x))?; dbg(lab.issuer.verify_roster_membership(&v)) });
                watch(ctx, "presentation", &[&b], r);
            }
            if let Err(e) = lab.serves(rng.u64()) { ctx.bad(&["C07"], "no-longer-serves", format!("after {} broken presentations: {}", n, e)); }
            ctx.ev(&[n], || format!("flood of {}", n));
        }
    }
}

fn odd_phone(p: &Pool, rng: &mut Prng) -> Vec<u8> {
    match rng.below(7) {
        0 | 1 => p.phone.clone(),
        2 => { let n = rng.below(28) as usize; rng.bytes(n) }
        3 => { let n = *rng.pick(&[26usize, 27, 28, 29, 30, 31, 32, 33, 64, 255, 256, 257, 1000]); rng.bytes(n) }
        4 => { let n = *rng.pick(&[1usize, 27, 28, 32]); vec![*rng.pick(&[0u8, 255, 9, 10, 15]); n] }
        5 => vec![],
        _ => { let mut x = p.phone.clone(); x.push(rng.below(256) as u8); x }
    }
}

fn odd_text(rng: &mut Prng) -> String {
    let n = match rng.below(4) { 0 => rng.below(28), 1 => rng.range(24, 34), 2 => rng.below(300), _ => rng.below(12) };
    (0..n).map(|_| match rng.below(8) {
        0 => std::char::from_u32(rng.below(0xd800) as u32).unwrap(),
        1 => *rng.pick(&['\u{0}', '+', '-', ' ', '\u{661}', '\u{1f4de}', 'x', '/', ':']),
        _ => (b'0' + rng.below(10) as u8) as char,
    }).collect()
}

fn decode_any(ctx: &mut Ctx, lab: &Lab, p: &Pool, which: u64, rng: &mut Prng) {
    let all: Vec<&Vec<u8>> = p.all.iter().collect();
    let mut r2 = rng.fork();
    let r2 = &mut r2;
    let entry = || RosterEntryCommitment::from_bytes(&p.entries[0]).unwrap();
    match which % 24 {
        0 => dec::<SystemParameters>(ctx, rng, &[&p.params], &mut |c, t, b| {
            let kp = watch(c, "a key under decoded parameters", &[b], guarded(|| amacs::Keypair::new(&t.h, &mut sim(r2.u64()))));
            if let Some(kp) = kp { let i = SignalIssuer::new(t, kp); watch(c, "issuing under decoded parameters", &[b], attempt(|| i.issue(&p.phone, &mut sim(r2.u64())))); }
        }),
        1 => dec::<amacs::Keypair>(ctx, rng, &[&p.keypair], &mut |c, t, b| {
            let i = SignalIssuer::new(lab.params(), t);
            watch(c, "issuing with a decoded key", &[b], attempt(|| i.issue(&p.phone, &mut sim(r2.u64()))));
            watch(c, "verifying with a decoded key", &[b], attempt(|| i.verify(SignalCredentialPresentation::from_bytes(&p.pres[0]).unwrap())));
        }),
        2 => dec::<amacs::PublicKey>(ctx, rng, &[&p.iparams, &p.keypair, &p.params], &mut |c, t, b| {
            let u = watch(c, "a user of decoded issuer parameters", &[b], attempt(|| SignalUser::new(lab.params(), t.clone(), None, &p.phone)));
            if let Some(mut u) = u {
                let x = SignalCredentialIssuance::from_bytes(&p.iss[0]).unwrap();
                watch(c, "obtaining with decoded issuer parameters", &[b], attempt(|| u.obtain_finish(Some(&x))));
                watch(c, "showing with decoded issuer parameters", &[b], attempt(|| u.show(&mut sim(r2.u64()), &entry())));
                watch(c, "saving a user of decoded issuer parameters", &[b], guarded(|| u.to_bytes()));
            }
            let mut u = aeonflux::user::User::new(lab.params(), t, None);
            let x = SignalCredentialIssuance::from_bytes(&p.iss[0]).unwrap();
            watch(c, "obtaining (aeonflux) with decoded issuer parameters", &[b], attempt(|| u.obtain_finish(Some(&x))));
        }),
        3 => dec::<amacs::SecretKey>(ctx, rng, &[&p.all[14], &p.keypair], &mut |c, t, b| {
            let m = amacs::Message::from(rng_scalar(r2));
            let h = lab.params().h;
            watch(c, "the public half of a decoded key", &[b], guarded(|| t.get_public_key(&h)));
            if let Some(tag) = watch(c, "a MAC with a decoded key", &[b], attempt(|| t.mac(&m, &mut sim(r2.u64())))) { watch(c, "checking a MAC with a decoded key", &[b], attempt(|| t.verify(&tag, &m))); }
        }),
        4 => dec::<amacs::Tag>(ctx, rng, &[&p.all[13]], &mut |c, t, b| {
            let m = amacs::Message::from(rng_scalar(r2));
            watch(c, "checking a decoded tag", &[b], attempt(|| lab.issuer.issuer.keypair.secret.verify(&t, &m)));
            watch(c, "rerandomising a decoded tag", &[b], guarded(|| amacs::Rerandomization::new(&mut sim(r2.u64())).apply_to_tag(&t)));
        }),
        5 => dec::<SignalIssuer>(ctx, rng, &[&p.issuers[0]], &mut |c, t, b| {
            watch(c, "issuer parameters of a decoded issuer", &[b], guarded(|| t.get_issuer_parameters()));
            watch(c, "issuing by a decoded issuer", &[b], attempt(|| t.issue(&p.phone, &mut sim(r2.u64()))));
            let v = watch(c, "verifying by a decoded issuer", &[b], attempt(|| t.verify(SignalCredentialPresentation::from_bytes(&p.pres[0]).unwrap())));
            if let Some(v) = v { watch(c, "membership at a decoded issuer", &[b], attempt(|| t.verify_roster_membership(&v))); }
        }),
        6 => dec::<aeonflux::issuer::Issuer>(ctx, rng, &[&p.issuers[0]], &mut |c, t, b| {
            let q = make::request(vec![rng_scalar(r2)]);
            watch(c, "issuing by a decoded issuer", &[b], attempt(|| t.issue(&q, &mut sim(r2.u64()))));
        }),
        7 => dec::<aeonflux::user::User>(ctx, rng, &[&p.all[8]], &mut |c, mut t, b| {
            let x = SignalCredentialIssuance::from_bytes(&p.iss[0]).unwrap();
            watch(c, "obtaining by a decoded user", &[b], attempt(|| t.obtain_finish(Some(&x))));
            watch(c, "showing by a decoded user", &[b], attempt(|| { let n = aeonflux::nonces::Nonces::new(&mut sim(r2.u64()), 1); t.show(&n, &mut sim(r2.u64())) }));
        }),
        8 | 9 => { let us: Vec<&Vec<u8>> = p.users.iter().collect(); dec::<SignalUser>(ctx, rng, &us, &mut |c, mut t, b| {
            watch(c, "showing by a decoded user", &[b], attempt(|| t.show(&mut sim(r2.u64()), &entry())));
            let x = SignalCredentialIssuance::from_bytes(&p.iss[0]).unwrap();
            watch(c, "obtaining by a decoded user", &[b], attempt(|| t.obtain_finish(Some(&x))));
            watch(c, "obtaining nothing", &[b], attempt(|| t.obtain_finish(None)));
            let n = t.phone_number.clone();
            watch(c, "the number of a decoded user", &[b], guarded(|| String::from(n)));
        }) }
        10 => dec::<ac::Credential>(ctx, rng, &[&p.all[12]], &mut |c, t, b| {
            let mut u = SignalUser::from_bytes(&p.users[1]).unwrap();
            u.user.credential = Some(t);
            if u.user.credential.as_ref().unwrap().attributes.len() == 1 {
                watch(c, "showing a decoded credential", &[b], attempt(|| u.show(&mut sim(r2.u64()), &entry())));
            }
            watch(c, "saving a user with a decoded credential", &[b], guarded(|| u.to_bytes()));
        }),
        11 => dec::<ac::CredentialRequest>(ctx, rng, &[&p.all[16], &p.params], &mut |c, t, b| {
            watch(c, "issuing on a decoded request", &[b], attempt(|| lab.issuer.issuer.issue(&t, &mut sim(r2.u64()))));
        }),
        12 | 13 => dec::<SignalCredentialIssuance>(ctx, rng, &[&p.iss[0]], &mut |c, t, b| {
            for i in 0..3 {
                let mut u = SignalUser::from_bytes(&p.users[i]).unwrap();
                if watch(c, "obtaining with a decoded issuance", &[b], attempt(|| u.obtain_finish(Some(&t)))).is_some() {
                    watch(c, "showing after a decoded issuance", &[b], attempt(|| u.show(&mut sim(r2.u64()), &entry())));
                }
                watch(c, "obtaining (aeonflux) with a decoded issuance", &[b], attempt(|| u.user.obtain_finish(Some(&t))));
                watch(c, "saving after a decoded issuance", &[b], guarded(|| u.to_bytes()));
            }
        }),
        14 => dec::<ac::CredentialPresentation>(ctx, rng, &[&p.all[11]], &mut |c, t, b| {
            watch(c, "verifying a decoded presentation", &[b], attempt(|| lab.issuer.issuer.verify(&t)));
        }),
        15 => dec::<ac::VerifiedCredential>(ctx, rng, &[&p.all[11]], &mut |_, _, _| {}),
        16 | 17 => dec::<SignalCredentialPresentation>(ctx, rng, &[&p.pres[0]], &mut |c, t, b| {
            if let Some(v) = watch(c, "verifying a decoded presentation", &[b], attempt(|| lab.issuer.verify(t))) { watch(c, "membership of a decoded presentation", &[b], attempt(|| lab.issuer.verify_roster_membership(&v))); }
        }),
        18 => dec::<VerifiedSignalCredential>(ctx, rng, &[&p.pres[0]], &mut |c, t, b| { watch(c, "membership of decoded bytes", &[b], attempt(|| lab.issuer.verify_roster_membership(&t))); }),
        19 => dec::<PhoneNumber>(ctx, rng, &[&p.all[16]], &mut |c, t, b| { watch(c, "a decoded number to text", &[b], guarded(|| String::from(t))); }),
        20 => dec::<CommittedPhoneNumber>(ctx, rng, &[&p.all[3]], &mut |c, t, b| { let (g, h) = (lab.params().g, lab.params().h); watch(c, "opening a decoded commitment", &[b], guarded(|| t.open(&PhoneNumber(rng_scalar(r2)), &rng_scalar(r2).into(), &g, &h))); }),
        21 => dec::<RosterEntryCommitment>(ctx, rng, &[&p.entries[0]], &mut |c, t, b| {
            let pr = lab.params();
            watch(c, "opening a decoded entry", &[b], attempt(|| t.open(&p.phone, &pr)));
            let ph = odd_phone(p, r2);
            watch(c, "opening a decoded entry", &[b, &ph], attempt(|| t.open(&ph, &pr)));
            let u = SignalUser::from_bytes(&p.users[1]).unwrap();
            watch(c, "showing with a decoded entry", &[b], attempt(|| u.show(&mut sim(r2.u64()), &t)));
        }),
        22 => dec::<pedersen::Commitment>(ctx, rng, &all, &mut |_, _, _| {}),
        _ => match rng.below(3) {
            0 => dec::<elgamal::PublicKey>(ctx, rng, &[&p.all[3]], &mut |c, t, b| { watch(c, "encrypting to a decoded key", &[b], guarded(|| t.encrypt(&(&rng_scalar(r2)).into(), &rng_scalar(r2).into()))); }),
            1 => dec::<elgamal::SecretKey>(ctx, rng, &[&p.all[16]], &mut |c, t, b| { let e = make::encryption(r2.point(), r2.point()); watch(c, "decrypting with a decoded key", &[b], guarded(|| t.decrypt(&e))); }),
            _ => dec::<elgamal::Keypair>(ctx, rng, &[&p.all[15]], &mut |c, t, b| { watch(c, "encrypting with a decoded key", &[b], guarded(|| t.encrypt(&(&rng_scalar(r2)).into(), &rng_scalar(r2).into()))); }),
        },
    }
}

fn rng_scalar(r: &mut Prng) -> Scalar { r.scalar() }

/// Messages with other numbers of attributes than usual, as decoders of other formats might give.
fn structs(ctx: &mut Ctx, lab: &Lab, p: &Pool, rng: &mut Prng) {
    let n = rng.below(4) as usize;
    ctx.count(&format!("fault.{} attributes", n));
    let what = rng.below(5);
    match what {
        0 => {
            let q = make::request((0..n).map(|_| rng.scalar()).collect());
            watch(ctx, "issuing on a request for several attributes", &[&[n as u8]], attempt(|| lab.issuer.issuer.issue(&q, &mut sim(rng.u64()))));
            let b = watch(ctx, "encoding a request", &[&[n as u8]], guarded(|| q.to_bytes()));
            if let Some(b) = b { watch(ctx, "decoding a request", &[&b], attempt(|| ac::CredentialRequest::from_bytes(&b))); }
        }
        1 => {
            let mut x = SignalCredentialPresentation::from_bytes(&p.pres[0]).unwrap();
            let c = x.presentation.attributes_blinded[0].clone();
            x.presentation.attributes_blinded = vec![c; n];
            if rng.chance(30) { x.presentation.attributes_revealed = (0..rng.below(3)).map(|_| rng.scalar()).collect(); }
            if let Some(v) = watch(ctx, "verifying a presentation of several attributes", &[&[n as u8]], attempt(|| lab.issuer.verify(x))) { watch(ctx, "membership of several attributes", &[&[n as u8]], attempt(|| lab.issuer.verify_roster_membership(&v))); }
        }
        2 => {
            let mut x = SignalCredentialPresentation::from_bytes(&p.pres[0]).unwrap();
            let c = x.presentation.attributes_blinded[0].clone();
            x.presentation.attributes_blinded = vec![c; n];
            if let Some(b) = watch(ctx, "encoding several attributes", &[&[n as u8]], guarded(|| x.to_bytes())) {
                watch(ctx, "decoding several attributes", &[&b], attempt(|| SignalCredentialPresentation::from_bytes(&b)));
                watch(ctx, "decoding several attributes", &[&b], attempt(|| VerifiedSignalCredential::from_bytes(&b)));
            }
            watch(ctx, "verifying (aeonflux) several attributes", &[&[n as u8]], attempt(|| lab.issuer.issuer.verify(&x.presentation)));
        }
        3 => {
            let mut x = SignalCredentialIssuance::from_bytes(&p.iss[0]).unwrap();
            x.credential.attributes = (0..n).map(|_| rng.scalar()).collect();
            let mut u = SignalUser::from_bytes(&p.users[0]).unwrap();
            watch(ctx, "obtaining several attributes", &[&[n as u8]], attempt(|| u.obtain_finish(Some(&x))));
            watch(ctx, "encoding an issuance of several attributes", &[&[n as u8]], guarded(|| x.to_bytes()));
        }
        _ => {
            // An issuer whose key has another number of attributes.
            let sk = amacs::SecretKey::new(n, &mut sim(rng.u64()));
            let kp = make::keypair(sk.get_public_key(&lab.params().h), sk);
            let ip = kp.public.clone();
            let is = SignalIssuer::new(lab.params(), kp);
            let x = watch(ctx, "issuing with a key for several attributes", &[&[n as u8]], attempt(|| is.issue(&p.phone, &mut sim(rng.u64()))));
            watch(ctx, "verifying with a key for several attributes", &[&[n as u8]], attempt(|| is.verify(SignalCredentialPresentation::from_bytes(&p.pres[0]).unwrap())));
            let b = watch(ctx, "saving an issuer for several attributes", &[&[n as u8]], guarded(|| is.to_bytes()));
            if let Some(b) = b { watch(ctx, "restoring an issuer for several attributes", &[&b], attempt(|| SignalIssuer::from_bytes(&b))); }
            if let Some(mut u) = watch(ctx, "a user of several attributes", &[&[n as u8]], attempt(|| SignalUser::new(lab.params(), ip, None, &p.phone))) {
                if let Some(x) = x { watch(ctx, "obtaining several attributes", &[&[n as u8]], attempt(|| u.obtain_finish(Some(&x)))); }
                watch(ctx, "showing with a key for several attributes", &[&[n as u8]], attempt(|| u.show(&mut sim(rng.u64()), &RosterEntryCommitment::from_bytes(&p.entries[0]).unwrap())));
                // Whatever user there is can be saved and restored.
                let b = watch(ctx, "saving a user of several attributes", &[&[n as u8]], guarded(|| u.to_bytes()));
                if let Some(b) = b { if SignalUser::from_bytes(&b).ok().as_ref() != Some(&u) { ctx.bad(&["C06"], "user-not-restorable", format!("a user of issuer parameters for {} attributes is not restored from {}", n, hex(&b))); } }
            }
        }
    }
    ctx.ev(&[what, n as u64], || format!("structs {} with {} attributes", what, n));
}

#[cfg(not(feature = "js"))]
fn js_values(ctx: &mut Ctx, _: &Pool, _: &[&Vec<u8>], _: &mut Prng) { ctx.count("event.no JS interface"); }

/// Any JavaScript value whatever, and seeds of any length.
#[cfg(feature = "js")]
fn js_values(ctx: &mut Ctx, p: &Pool, all: &[&Vec<u8>], rng: &mut Prng) {
    use crate::surface::js::{self, JsValue};
    let f = rng.idx(8);
    let good: [Vec<&Vec<u8>>; 8] = [vec![], vec![&p.params], vec![&p.issuers[0]], vec![&p.params, &p.keypair], vec![&p.issuers[0], &p.pres[0]], vec![&p.issuers[0], &p.pres[0]], vec![&p.params, &p.iparams, &p.iss[0]], vec![&p.users[1], &p.entries[0]]];
    let seed: Vec<u8> = if rng.chance(60) { rng.bytes(32) } else { let n = *rng.pick(&[0usize, 1, 16, 31, 33, 64, 1000]); rng.bytes(n) };
    let phone = odd_phone(p, rng);
    let texts: Vec<String> = good[f].iter().map(|b| if rng.chance(50) { serde_json::to_string(b).unwrap() } else {
        let (x, _) = if rng.chance(70) { hostile(&[*b], rng) } else { hostile(all, rng) };
        json(&x, rng)
    }).collect();
    ctx.count("fault.odd JavaScript value");
    let t2: Vec<&[u8]> = texts.iter().map(|t| t.as_bytes()).collect();
    let v = |i: usize| JsValue::from_json(texts[i].clone());
    let name = ["system_parameters_create", "issuer_create", "issuer_get_issuer_parameters", "issuer_new", "issuer_verify", "issuer_verify_roster_membership", "user_obtain_finish", "user_show"][f];
    let r = guarded(|| match f {
        0 => js::system_parameters_create(&seed),
        1 => js::issuer_create(v(0), &seed),
        2 => js::issuer_get_issuer_parameters(v(0)),
        3 => js::issuer_new(v(0), v(1)),
        4 => js::issuer_verify(v(0), v(1)),
        5 => js::issuer_verify_roster_membership(v(0), v(1)),
        6 => js::user_obtain_finish(&phone, v(0), v(1), v(2)),
        _ => js::user_show(v(0), v(1), &seed),
    });
    let ok = r.as_ref().ok().map(|v| v.as_json() != "0");
    watch(ctx, name, &t2, r);
    let r = guarded(|| js::issuer_issue(JsValue::from_json(texts.get(0).cloned().unwrap_or("[]".into())), &phone, &seed));
    watch(ctx, "issuer_issue", &t2, r);
    ctx.ev(&[f as u64, ok.unwrap_or(false) as u64], || format!("{}: {:?}", name, ok));
}
