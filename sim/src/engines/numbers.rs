//! Phone numbers that are easily confused, through every part of the protocol.
use curve25519_dalek::scalar::Scalar;
use crate::ctx::*;
use crate::entropy::*;
use crate::guard::*;
use crate::lab::*;
use crate::refimpl as rf;
use crate::surface::{self as sf, Kind};
use crate::util::*;
use aeonflux::nonces::Ephemeral;
use signal_credential::phone_number::*;

pub fn generate(seed: u64, thorough: bool) -> Vec<Step> {
    let ops = [("distinct", 40), ("text", 25), ("open", 30), ("issue", 20), ("present", 14), ("long", 15), ("commit", 20), ("family", 12)];
    super::cases(&ops, if thorough { 90 } else { 45 }, seed)
}

/// Another number, as similar as can be.
pub fn similar(a: &[u8], rng: &mut Prng) -> (Vec<u8>, &'static str) {
    let mut b = a.to_vec();
    let what = match rng.below(12) {
        0 => { b.insert(0, 0); "leading zero" }
        1 => { b.push(0); "trailing zero" }
        2 => { b.pop(); "last digit lost" }
        3 => { if !b.is_empty() { b.remove(0); } "first digit lost" }
        4 => { if b.len() > 1 { let i = rng.idx(b.len() - 1); b.swap(i, i + 1); } "digits swapped" }
        5 => { if !b.is_empty() { let i = rng.idx(b.len()); b[i] = (b[i] + 1 + rng.below(9) as u8) % 10; } "digit changed" }
        6 => { let n = rng.below(5) + 1; for _ in 0..n { b.insert(0, 0); } "leading zeros" }
        7 => { let n = rng.below(5) + 1; for _ in 0..n { b.push(0); } "trailing zeros" }
        8 => { b.reverse(); "reversed" }
        9 => { if !b.is_empty() { let i = rng.idx(b.len()); let d = b[i]; b.insert(i, d); } "digit doubled" }
        10 => { for x in b.iter_mut() { *x = 0; } "all zero" }
        // The digits stay, the length shows up among them.
        _ => { let n = (b.len() % 10) as u8; b.push(n); "length appended" }
    };
    b.truncate(27);
    (b, what)
}

fn number(ctx: &mut Ctx, d: &[u8]) -> Option<[u8; 32]> {
    match attempt(|| PhoneNumber::try_from_bytes(d)) {
        Ok(n) => Some(a32(&n.to_bytes())),
        Err(e) => { ctx.bad(&["C14", "C01"], "number-refused", format!("{:?}: {:?}", d, e)); None }
    }
}

fn text(d: &[u8]) -> String { if d.iter().all(|x| *x < 10) { d.iter().map(|x| (b'0' + x) as char).collect() } else { hex(d) } }

pub fn execute(run: &Run, ctx: &mut Ctx) {
    let mut rng = Prng::new(run.seed);
    set_system(Source::healthy(rng.u64()));
    let lab = match Lab::new(&mut rng) { Ok(l) => l, Err(_) => { ctx.count("event.setup-failed"); return; } };
    for (i, s) in run.steps.iter().enumerate() {
        ctx.step = i;
        ctx.report.sim_ms += 10;
        ctx.op();
        let mut rng = Prng::new(s.seed);
        set_system(Source::healthy(rng.u64()));
        let a = random_phone(&mut rng);
        let (mut b, mut how) = similar(&a, &mut rng);
        let mut a = a;
        if s.op != "text" && s.op != "long" && rng.chance(15) {
            // In other bytes than digits: as characters, or whatever.
            let k = *rng.pick(&[48u8, 48, 16, 128, 246]);
            if rng.chance(70) { for x in a.iter_mut() { *x += k; } how = "other bytes"; }
            for x in b.iter_mut() { *x += k; }
        }
        ctx.state(mixes(&[hash_bytes(s.op.as_bytes()), a.len() as u64, b.len() as u64, hash_bytes(how.as_bytes())]));
        ctx.ev(&[hash_bytes(&a), hash_bytes(&b)], || format!("{} {} and {} ({})", s.op, text(&a), text(&b), how));
        if a != b { ctx.count(&format!("fault.similar: {}", how)); }
        step(ctx, &lab, s, &a, &b, how, &mut rng);
    }
}

fn step(ctx: &mut Ctx, lab: &Lab, s: &Step, a: &[u8], b: &[u8], how: &str, rng: &mut Prng) {
    let k = *rng.pick(&sf::kinds());
    // C refuses empty numbers by itself.
    let k = if k == Kind::C && (a.is_empty() || b.is_empty()) { Kind::Raw } else { k };
    match &s.op[..] {
        "distinct" => {
            let (x, y) = match (number(ctx, a), number(ctx, b)) { (Some(x), Some(y)) => (x, y), _ => return };
            if (x == y) != (a == b) { ctx.bad(&["C14"], "numbers-confused", format!("{} and {} ({}) are both {}", text(a), text(b), how, hex(&x))); }
            // The same again is the same.
            if number(ctx, a) != Some(x) { ctx.bad(&["C14"], "number-not-itself", text(a)); }
        }
        "family" => {
            // Everything with these digits, padded in all ways that fit.
            let core: Vec<u8> = a.iter().cloned().take(rng.range(0, 4) as usize).collect();
            let mut seen: std::collections::HashMap<[u8; 32], Vec<u8>> = Default::default();
            for l in 0..10 { for t in 0..10 {
                let mut d = vec![0; l];
                d.extend(&core);
                d.extend(vec![0; t]);
                if d.len() > 27 { continue; }
                if let Some(x) = number(ctx, &d) {
                    if let Some(o) = seen.get(&x) { if *o != d { ctx.bad(&["C14"], "numbers-confused", format!("{} and {}", text(o), text(&d))); return; } }
                    seen.insert(x, d);
                }
            } }
        }
        "text" => {
            let t = text(a);
            let x = match attempt(|| PhoneNumber::try_from_string(&t)) { Ok(n) => n, Err(e) => { ctx.bad(&["C14"], "text-refused", format!("{}: {:?}", t, e)); return; } };
            let y = match number(ctx, a) { Some(y) => y, None => return };
            if x.to_bytes()[..] != y[..] { ctx.bad(&["C14", "C11"], "text-and-digits-differ", t.clone()); }
            // And it reads back as it was (27 digits take the whole scalar, and do not).
            if !a.is_empty() && a.len() <= 26 {
                let again = if rng.chance(50) { guarded(|| String::from(x)) } else { attempt(|| PhoneNumber::from_bytes(&y)).and_then(|n| guarded(|| String::from(n))) };
                if again != Ok(t.clone()) { ctx.bad(&["C14"], "reads-back-otherwise", format!("{}: {:?}", t, again)); }
            }
            let z = text(b);
            if let Ok(n) = attempt(|| PhoneNumber::try_from_string(&z)) { if (n.to_bytes()[..] == y[..]) != (a == b) { ctx.bad(&["C14"], "numbers-confused", format!("text {} and {} ({})", t, z, how)); } }
        }
        "open" => {
            let params = lab.params().to_bytes();
            let e = match sf::entry_create(k, a, &params, &rng.seed32()) { Ok(e) => e, Err(e) => { ctx.bad(&["C14", "C01"], "entry-refused", format!("{} ({:?}): {:?}", text(a), k, e)); return; } };
            if e.len() != 64 { ctx.bad(&["C14"], "entry-malformed", hex(&e)); return; }
            for j in &sf::kinds() {
                if *j == Kind::C && (a.is_empty() || b.is_empty()) { continue; }
                if sf::entry_open(*j, &e, a, &params) != Ok(true) { ctx.bad(&["C14", "C11"], "own-entry-does-not-open", format!("{} ({:?})", text(a), j)); }
                if a != b && sf::entry_open(*j, &e, b, &params) == Ok(true) { ctx.bad(&["C14"], "opens-for-another-number", format!("{} opens as {} ({}, {:?})", text(a), text(b), how, j)); }
                // Another opening, another commitment, other parameters.
                let mut f = e.clone();
                match rng.below(3) {
                    0 => { f[32..].copy_from_slice(rng.scalar().as_bytes()); }
                    1 => { let c = pt(&e[..32]).unwrap() + rng.point(); f[..32].copy_from_slice(&pb(&c)); }
                    _ => { let g = sf::entry_create(Kind::Raw, a, &params, &rng.seed32()).unwrap_or(vec![0; 64]); f[..32].copy_from_slice(&g[..32]); }
                }
                if sf::entry_open(*j, &f, a, &params) == Ok(true) { ctx.bad(&["C14"], "opens-wrongly", format!("{} ({:?})", text(a), j)); }
                // Something related to the entry: it opens exactly if it is a commitment to the number.
                let (g, h) = (lab.params().g, lab.params().h);
                let (c, z, v) = (pt(&e[..32]).unwrap(), sc(&e[32..]).unwrap(), h * m_of(a));
                let t = g * z;
                let x = match rng.below(10) { 0 => -c, 1 => t - v, 2 => v - t, 3 => t, 4 => v, 5 => t + v + v, 6 => t + t + v, 7 => c, 8 => t + g * m_of(a), _ => h * z + g * m_of(a) };
                let y = match rng.below(6) { 0 => -z, 1 => Scalar::zero(), 2 => Scalar::one(), 3 => m_of(a), _ => z };
                f[..32].copy_from_slice(&pb(&x));
                f[32..].copy_from_slice(y.as_bytes());
                let want = x == g * y + v;
                ctx.count("fault.entry related to a genuine one");
                if (sf::entry_open(*j, &f, a, &params) == Ok(true)) != want { ctx.bad(&["C14"], "opens-wrongly", format!("{} ({:?}): {} {}", text(a), j, hex(&f), want)); }
                let other = random_params(rng).bytes();
                if sf::entry_open(*j, &e, a, &other) == Ok(true) { ctx.bad(&["C14"], "opens-under-other-parameters", format!("{} ({:?})", text(a), j)); }
            }
        }
        "commit" => {
            // The commitments themselves.
            let (g, h) = (lab.params().g, lab.params().h);
            let z = rng.scalar();
            let n = PhoneNumber(m_of(a));
            let c = match guarded(|| CommittedPhoneNumber::from_phone_number(&n, &Ephemeral::from(z), &g, &h)) { Ok(c) => c, Err(e) => { ctx.bad(&["C14", "C07"], "commit-panics", format!("{:?}", e)); return; } };
            let open = |m: &PhoneNumber, z: curve25519_dalek::scalar::Scalar, g: &_, h: &_| guarded(|| c.open(m, &Ephemeral::from(z), g, h)).map(|r| r.is_ok()).unwrap_or(false);
            if !open(&n, z, &g, &h) { ctx.bad(&["C14"], "own-commitment-does-not-open", text(a)); }
            if a != b && open(&PhoneNumber(m_of(b)), z, &g, &h) { ctx.bad(&["C14"], "opens-for-another-number", format!("{} opens as {} ({})", text(a), text(b), how)); }
            if open(&n, rng.scalar(), &g, &h) { ctx.bad(&["C14"], "opens-wrongly", text(a)); }
            if open(&n, -z, &g, &h) { ctx.bad(&["C14"], "opens-wrongly", text(a)); }
            if open(&n, z, &h, &g) || open(&n, z, &g, &rng.point()) || open(&n, z, &rng.point(), &h) { ctx.bad(&["C14"], "opens-under-other-parameters", text(a)); }
            // With the number and opening exchanged, or their sum kept.
            if open(&PhoneNumber(z), m_of(a), &g, &h) && z != m_of(a) { ctx.bad(&["C14"], "opens-wrongly", text(a)); }
            let d = m_of(b) - m_of(a);
            if a != b && open(&PhoneNumber(m_of(b)), z - d, &g, &h) { ctx.bad(&["C14"], "opens-for-another-number", format!("{} as {} with another opening", text(a), text(b))); }
        }
        "issue" => {
            if a == b { return; }
            // An issuance for one is refused by the other.
            let (ib, pb_, ip) = (lab.key.bytes(), lab.params().to_bytes(), lab.iparams().to_bytes());
            let x = match sf::issue(k, &ib, a, &rng.seed32()) { Ok(x) => x, Err(e) => { ctx.bad(&["C14", "C01"], "not-issued", format!("{} ({:?}): {:?}", text(a), k, e)); return; } };
            if x.len() != 328 || x[96..128] != m_of(a).to_bytes()[..] { ctx.bad(&["C14"], "issued-for-another-number", format!("{} ({:?}): {}", text(a), k, hex(&x))); return; }
            let own = sf::obtain(k, a, &pb_, &ip, &x);
            match own {
                Ok(ref u) if u.len() == 288 => {
                    if u[..32] != m_of(a).to_bytes()[..] { ctx.bad(&["C14"], "user-of-another-number", text(a)); }
                    if u[256..288] != m_of(a).to_bytes()[..] { ctx.bad(&["C14"], "credential-for-another-number", text(a)); }
                }
                ref e => ctx.bad(&["C14", "C01"], "own-issuance-refused", format!("{} ({:?}): {:?}", text(a), k, e)),
            }
            if sf::obtain(k, b, &pb_, &ip, &x).is_ok() { ctx.bad(&["C14", "C04"], "issuance-for-another-number-accepted", format!("{} accepted the issuance for {} ({}, {:?})", text(b), text(a), how, k)); }
            // And what the issuer makes for it is a MAC on this number and no other.
            let i = match rf::Issued::parse(&x) { Some(i) => i, None => return };
            if i.q != i.p * (lab.key.x0 + lab.key.x1 * m_of(a)) { ctx.bad(&["C14", "C04"], "issued-for-another-number", format!("{}: the MAC is on something else", text(a))); }
        }
        "present" => {
            if a == b { return; }
            // A holder of one cannot be confirmed for the other's entry, nor the reverse.
            let u = match lab.holder(a, rng.u64()) { Ok(u) => u, Err(e) => { ctx.bad(&["C14", "C01"], "not-served", format!("{}: {:?}", text(a), e)); return; } };
            let (ea, eb) = match (lab.entry(a, rng.u64()), lab.entry(b, rng.u64())) { (Ok(x), Ok(y)) => (x, y), _ => { ctx.bad(&["C14", "C01"], "entry-refused", text(b)); return; } };
            let confirm = |e: &RosterEntryCommitment, rng: &mut Prng| -> bool {
                lab.show_seeded(&u, e, rng.u64()).and_then(|p| attempt(|| lab.issuer.verify(p))).and_then(|v| attempt(|| lab.issuer.verify_roster_membership(&v))).is_ok()
            };
            if !confirm(&ea, rng) { ctx.bad(&["C14", "C01"], "own-entry-refused", text(a)); }
            if confirm(&eb, rng) { ctx.bad(&["C14", "C03"], "confirmed-for-another-number", format!("{} for {} ({})", text(a), text(b), how)); }
        }
        _ => {
            // Too long for anything.
            let n = *rng.pick(&[28usize, 29, 30, 31, 32, 33, 40, 59, 64, 100, 255, 256, 283, 300]);
            let d: Vec<u8> = if rng.chance(50) { let mut d = a.to_vec(); d.resize(n, 0); d } else { (0..n).map(|_| rng.below(10) as u8).collect() };
            ctx.count("fault.too many digits");
            let t = text(&d);
            let p = lab.params().to_bytes();
            let e = lab.entry(a, 7).map(|e| e.to_bytes()).unwrap_or(vec![0; 64]);
            let iss = lab.issue(a, Source::healthy(1), Source::healthy(2)).map(|i| i.to_bytes()).unwrap_or(vec![]);
            let rs = [
                ("try_from_bytes", attempt(|| PhoneNumber::try_from_bytes(&d)).is_ok()),
                ("try_from_string", attempt(|| PhoneNumber::try_from_string(&t)).is_ok()),
                ("a user", lab.user(&d, None).is_ok()),
                ("issuing", sf::issue(k, &lab.key.bytes(), &d, &rng.seed32()).is_ok()),
                ("an entry", sf::entry_create(k, &d, &p, &rng.seed32()).is_ok()),
                ("opening", sf::entry_open(k, &e, &d, &p) == Ok(true)),
                ("obtaining", sf::obtain(k, &d, &p, &lab.iparams().to_bytes(), &iss).is_ok()),
            ];
            for (w, ok) in rs.iter() { if *ok { ctx.bad(&["C14"], "too-long-number-accepted", format!("{} of {} digits ({:?})", w, n, k)); } }
        }
    }
}
