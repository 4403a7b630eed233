//! Threads sharing one issuer, users and parameters, under the simulator's
//! scheduler: every operation must give what it gives alone.
use crate::baton;
use crate::step;
use crate::ctx::*;
use crate::entropy::*;
use crate::guard::*;
use crate::lab::*;
use crate::refimpl::{self as rf, Issued, Key, ShowOpts, Shower, SignalShown};
use crate::surface::{self, Kind};
use crate::util::*;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use signal_credential::credential::{SignalCredentialIssuance, SignalCredentialPresentation};
use signal_credential::issuer::SignalIssuer;
use signal_credential::parameters::SystemParameters;
use signal_credential::phone_number::RosterEntryCommitment;
use signal_credential::user::SignalUser;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};

pub fn generate(seed: u64, thorough: bool) -> Vec<Step> {
    let ops = [("issue", 20), ("show", 20), ("verify", 16), ("roster", 14), ("obtain", 10), ("entry", 10), ("open", 6), ("save", 8), ("setup", 6), ("proof", 8)];
    let mut r = Prng::new(mix(seed));
    let n = if thorough { r.range(6, 28) } else { r.range(4, 16) } as usize;
    super::cases(&ops, n, seed)
}

struct Person { phone: Vec<u8>, m: Scalar, user: SignalUser, entry: RosterEntryCommitment, entry_raw: Vec<u8>, commitment: RistrettoPoint, issuance: Vec<u8>, pres: Vec<u8>, bad: Vec<u8> }
struct Shared { key: Key, raw: Vec<u8>, issuer: SignalIssuer, params: SystemParameters, people: Vec<Person> }
/// Whether the parties may be shared is what is being tested.
struct Any<T>(T);
unsafe impl<T> Send for Any<T> {}
unsafe impl<T> Sync for Any<T> {}

/// Everything is made by the reference, so that the library meets the threads cold.
fn shared(rng: &mut Prng) -> Result<Shared, Fail> {
    let key = random_key(rng);
    let raw = key.bytes();
    let issuer = attempt(|| SignalIssuer::from_bytes(&raw))?;
    let params = attempt(|| SystemParameters::from_bytes(&key.params.bytes()))?;
    let mut people = Vec::new();
    for i in 0..3 {
        let mut phone = random_phone(rng);
        if phone.is_empty() { phone.push(i); }
        // Sometimes nearly the same number.
        if i > 0 && rng.chance(30) { let p: &Person = &people[0]; phone = p.phone.clone(); let n = phone.len(); phone[n - 1] = (phone[n - 1] + i) % 10; }
        while people.iter().any(|p: &Person| p.phone == phone) { phone = random_phone(rng); phone.push(i); phone.truncate(27); }
        let m = m_of(&phone);
        let issuance = key.issue(&m, rng);
        let is = Issued::parse(&issuance).unwrap();
        let ub = rf::cat(&[m.as_bytes(), &key.params.bytes(), &pb(&key.big), &[0; 64], &pb(&is.p), &pb(&is.q), m.as_bytes()]);
        let user = attempt(|| SignalUser::from_bytes(&ub))?;
        let z = rng.scalar();
        let commitment = rf::entry(&key.params, &m, &z);
        let entry_raw = rf::cat(&[&pb(&commitment), z.as_bytes()]);
        let entry = attempt(|| RosterEntryCommitment::from_bytes(&entry_raw))?;
        let sh = Shower { params: key.params, big: key.big, m, p: is.p, q: is.q };
        let pres = sh.show(&ShowOpts { entry: commitment, entry_m: m, entry_z: z, omit: &[], omit_roster: &[], rerandomize: true }, rng).bytes();
        let mut bad = pres.clone();
        match rng.below(3) { 0 => bad[104 + 40 * rng.idx(4)] ^= 1, 1 => bad[296 + 40 * rng.idx(4)] ^= 1, _ => { let q = rng.point(); bad[32..64].copy_from_slice(&pb(&q)); } }
        people.push(Person { phone, m, user, entry, entry_raw, commitment, issuance, pres, bad });
    }
    Ok(Shared { key, raw, issuer, params, people })
}

type Res = Result<Vec<u8>, Fail>;

/// One operation: a function of the shared parties and the step alone.
fn perform(w: &Shared, s: &Step) -> Res {
    let mut rng = Prng::new(s.seed);
    let p = &w.people[(s.b % 3) as usize];
    let kd = match s.c % 8 { 0 => Kind::C, 1 => Kind::Js, 2 => Kind::Bincode, 3 => Kind::Json, _ => Kind::Raw };
    let kd = if surface::kinds().contains(&kd) { kd } else { Kind::Raw };
    let foreign = kd != Kind::Raw;
    let abort = if !foreign && s.a % 7 == 0 { Some(rng.below(4)) } else { None };
    let sys = Source::healthy(rng.u64());
    set_system(match abort { Some(k) if k % 2 == 1 => sys.failing(k / 2), _ => sys });
    let seed = rng.seed32();
    let mut caller = Source::seeded(seed);
    if let Some(k) = abort { if k % 2 == 0 { caller = caller.failing(k / 2); } }
    let mut cr = SimRng(caller);
    match &s.op[..] {
        "issue" => if foreign { surface::issue(kd, &w.raw, &p.phone, &seed) } else { attempt(|| credential_rust::issue(&w.issuer, &p.phone, &mut cr)).map(|i| i.to_bytes()) },
        "show" => if foreign { surface::show(kd, &p.user.to_bytes(), &p.entry_raw, &seed) } else { attempt(|| credential_rust::show(&p.user, &p.entry, &mut cr)).map(|i| i.to_bytes()) },
        "verify" | "roster" => {
            let raw = if s.a % 3 == 1 { &p.bad } else { &p.pres };
            if foreign {
                return if s.op == "verify" { surface::verify(kd, &w.raw, raw) } else { surface::roster(kd, &w.raw, raw) };
            }
            let pr = attempt(|| SignalCredentialPresentation::from_bytes(raw))?;
            if s.op == "verify" { attempt(|| w.issuer.verify(pr)).map(|v| v.to_bytes()) }
            else { attempt(|| { let v = w.issuer.verify(pr).map_err(|e| format!("{:?}", e))?; w.issuer.verify_roster_membership(&v).map_err(|e| format!("{:?}", e)) }).map(|c| c.to_bytes()) }
        }
        "obtain" => {
            // A third of them get somebody else's issuance.
            let i = if s.a % 3 == 1 { &w.people[((s.b + 1) % 3) as usize].issuance } else { &p.issuance };
            if foreign { return surface::obtain(kd, &p.phone, &w.key.params.bytes(), &pb(&w.key.big), i); }
            let mut u = attempt(|| SignalUser::new(w.params, w.issuer.get_issuer_parameters(), None, &p.phone))?;
            let i = attempt(|| SignalCredentialIssuance::from_bytes(i))?;
            attempt(|| u.obtain_finish(Some(&i)))?;
            Ok(u.to_bytes())
        }
        "entry" => if foreign { surface::entry_create(kd, &p.phone, &w.key.params.bytes(), &seed) } else { attempt(|| credential_rust::entry(&p.phone, &w.params, &mut cr)).map(|e| e.to_bytes()) },
        "open" => {
            let q = &w.people[((s.b + s.a % 2) % 3) as usize];
            attempt(|| Ok::<_, ()>(p.entry.open(&q.phone, &w.params).is_ok())).map(|b| vec![b as u8])
        }
        "save" => guarded(|| match s.a % 6 {
            0 => w.issuer.to_bytes(), 1 => p.user.to_bytes(), 2 => p.entry.to_bytes(), 3 => bincode::serialize(&p.user).unwrap_or_default(),
            4 => serde_json::to_vec(&w.issuer).unwrap_or_default(), _ => serde_json::to_vec(&p.user).unwrap_or_default(),
        }),
        "setup" => if !foreign { guarded(|| { let p = credential_rust::parameters(&mut cr); let mut v = p.to_bytes(); v.extend(credential_rust::issuer(p, &mut cr).0.to_bytes()); v }) } else { surface::params_create(kd, &seed).and_then(|p| surface::issuer_create(kd, &p, &seed)) },
        _ => {
            let rel = rf::ALL[(s.a % 5) as usize];
            let (pubs, wi) = super::proof::statement(rel, &mut rng);
            let b = crate::prove::create(rel, rel.outer, &pubs, &wi)?;
            crate::prove::verify(rel, rel.outer, &pubs, &b)?;
            Ok(b)
        }
    }
}

/// Is this what the operation is about?
fn sensible(w: &Shared, s: &Step, r: &Res) -> Result<(), String> {
    let p = &w.people[(s.b % 3) as usize];
    let b = match r {
        Ok(b) => b,
        Err(Fail::Injected) => return Ok(()),
        Err(e) if e.is_bad() => return Err(format!("{:?}", e)),
        Err(e) => {
            let expected = match &s.op[..] { "verify" | "roster" | "obtain" => s.a % 3 == 1, _ => false };
            return if expected { Ok(()) } else { Err(format!("refused: {:?}", e)) };
        }
    };
    let ok = match &s.op[..] {
        "issue" => Issued::parse(b).map(|i| i.accept(&w.key.params, &w.key.big, &p.m) && i.q == i.p * (w.key.x0 + w.key.x1 * p.m)).unwrap_or(false),
        "show" => SignalShown::parse(b).map(|x| x.entry == p.commitment && w.key.verify(&x.shown) && w.key.verify_roster(&x)).unwrap_or(false),
        "verify" => if s.a % 3 == 1 { SignalShown::parse(&p.bad).map(|x| w.key.verify(&x.shown)).unwrap_or(false) && b == &p.bad } else { b == &p.pres },
        // (C and JavaScript take what was verified on trust.)
        "roster" => (s.a % 3 != 1 || SignalShown::parse(&p.bad).map(|x| w.key.verify_roster(&x)).unwrap_or(false)) && b[..] == pb(&p.commitment)[..],
        "obtain" => s.a % 3 != 1 && b.len() == 288 && b[..32] == p.m.as_bytes()[..] && b[192..256] == p.issuance[32..96],
        "entry" => b.len() == 64 && pt(&b[..32]).and_then(|c| sc(&b[32..]).map(|z| c == rf::entry(&w.key.params, &p.m, &z))).unwrap_or(false),
        "open" => b[..] == [(s.a % 2 == 0) as u8][..] || w.people[((s.b + s.a % 2) % 3) as usize].m == p.m,
        _ => true,
    };
    if ok { Ok(()) } else { Err("the result is not about its own inputs".into()) }
}

pub fn execute(run: &Run, ctx: &mut Ctx) {
    let mut rng = Prng::new(run.seed);
    let w = match shared(&mut rng) { Ok(w) => Arc::new(Any(w)), Err(_) => { ctx.count("event.setup-failed"); return; } };
    let t = rng.range(2, 5) as usize;
    let pct = match rng.below(5) { 0 => [50, 10, 50, 5], 1 => [100, 0, 100, 0], 2 => [20, 5, 80, 20], 3 => [60, 40, 60, 40], _ => [5, 2, 20, 2] };
    let results: Arc<Mutex<Vec<(usize, Res)>>> = Arc::new(Mutex::new(Vec::new()));
    // In half of the runs, threads are also stopped between any two instructions.
    let traps = if rng.chance(50) { *rng.pick(&[4_000, 12_000, 40_000]) } else { 0 };
    let often = *rng.pick(&[2, 5, 12]);
    baton::start(t, rng.u64(), pct, traps, often);
    step::watch(&w.0);
    for p in &w.0.people { step::watch(p); }
    let mut hs = Vec::new();
    for i in 0..t {
        let mine: Vec<(usize, Step)> = run.steps.iter().cloned().enumerate().filter(|(_, s)| (s.seed % t as u64) as usize == i).collect();
        let (w, results) = (w.clone(), results.clone());
        hs.push(std::thread::spawn(move || {
            // Results are collected before and after, never under the scheduler.
            let mut out = Vec::with_capacity(mine.len());
            baton::enroll(i);
            for (k, s) in mine {
                let r = guarded(|| perform(&w.0, &s)).and_then(|r| r);
                unsafe { step::reset(); }
                out.push((k, r));
            }
            baton::leave();
            results.lock().unwrap().extend(out);
        }));
    }
    baton::go();
    for h in hs { let _ = h.join(); }
    let trace = baton::stop();
    ctx.add("fault.thread switch", baton::SWITCHES.load(SeqCst));
    ctx.add("fault.thread stopped mid-function", step::MIDWAY.load(SeqCst));
    ctx.add("changes of shared state", step::CHANGES.load(SeqCst));
    ctx.add("traps", step::TRAPS.load(SeqCst));
    ctx.add("points", baton::POINTS.load(SeqCst));
    ctx.state(trace);
    let mut rs = results.lock().unwrap().clone();
    rs.sort_by_key(|r| r.0);
    if rs.len() != run.steps.len() { ctx.bad(&["C13"], "operation-lost", format!("{} of {} operations ended", rs.len(), run.steps.len())); }
    for (k, r) in rs {
        let s = &run.steps[k];
        ctx.step = k;
        ctx.op();
        ctx.report.sim_ms += 20;
        let alone = guarded(|| perform(&w.0, s)).and_then(|r| r);
        ctx.ev(&[hash_bytes(s.op.as_bytes()), r.is_ok() as u64, r.as_ref().map(|b| hash_bytes(b)).unwrap_or(0)], || format!("{} (thread {}): {}", s.op, s.seed % t as u64, match &r { Ok(b) => format!("{} bytes", b.len()), Err(e) => format!("{:?}", e) }));
        if let Err(Fail::Injected) = r { ctx.count("fault.entropy fails mid-operation"); }
        let same = match (&r, &alone) { (Ok(a), Ok(b)) => a == b, (Err(a), Err(b)) => std::mem::discriminant(a) == std::mem::discriminant(b), _ => false };
        if !same {
            let d = |r: &Res| match r { Ok(b) => format!("{} bytes (hash {:x})", b.len(), hash_bytes(b)), Err(e) => format!("{:?}", e) };
            ctx.bad(&["C13"], "differs-from-alone", format!("{}: {} among {} threads, {} alone", s.op, d(&r), t, d(&alone)));
        }
        if let Err(e) = sensible(&w.0, s, &r) { ctx.bad(&["C13"], "wrong-result", format!("{} among {} threads: {}", s.op, t, e)); }
    }
    ctx.ev(&[trace], || format!("{} threads, schedule {:x}", t, trace));
}
