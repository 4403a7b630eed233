//! The whole system on an unreliable network: issuers, users, a roster, disks
//! and an adversary, in one process.
use crate::ctx::*;
use crate::entropy::*;
use crate::guard::*;
use crate::refimpl::{self as rf, cat, Key, Params, Proof, Shower, ShowOpts};
use crate::surface::{self as sf, Kind};
use crate::util::*;
use aeonflux::elgamal;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use signal_credential::credential::{SignalCredentialIssuance, SignalCredentialPresentation, VerifiedSignalCredential};
use signal_credential::issuer::{IssuerParameters, SignalIssuer};
use signal_credential::parameters::SystemParameters;
use signal_credential::phone_number::RosterEntryCommitment;
use signal_credential::user::SignalUser;

/// What a node runs.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Node { Live, Surface(Kind), Ref }

pub struct IssuerNode {
    pub node: Node,
    pub key: Key,
    pub bytes: Vec<u8>,
    pub params: Vec<u8>,
    pub live: Option<SignalIssuer>,
    pub durable: (Kind, Vec<u8>),
    pub group: u64,
}

pub struct UserNode {
    pub node: Node,
    pub phone: Vec<u8>,
    pub m: Scalar,
    pub issuer: usize,
    /// What the state must be: 288 bytes.
    pub bytes: Vec<u8>,
    pub live: Option<SignalUser>,
    pub durable: (Kind, Vec<u8>, Vec<u8>),
    pub group: u64,
}

impl UserNode { pub fn has_cred(&self) -> bool { self.bytes[192..288].iter().any(|b| *b != 0) } }

#[derive(Clone)]
pub struct Entry { pub bytes: Vec<u8>, pub m: Scalar, pub params: Vec<u8>, pub owner: usize }

#[derive(Clone, Debug, PartialEq)]
pub enum Body { Request, Issuance, Presentation }

#[derive(Clone)]
pub struct Msg { pub body: Body, pub user: usize, pub issuer: usize, pub bytes: Vec<u8>, pub genuine: bool }

pub struct IssRec { pub bytes: Vec<u8>, pub issuer: usize, pub m: Scalar }
pub struct ShowRec { pub bytes: Vec<u8>, pub issuer: usize, pub m: Scalar, pub entry_m: Scalar, pub entry_params: Vec<u8>, pub entry_c: Vec<u8> }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault { None, CallerFails(u64), SystemFails(u64), SystemStuck(u8), CallerRepeats, BothRolledBack }

pub struct World<'c> {
    pub ctx: &'c mut Ctx,
    pub rng: Prng,
    pub issuers: Vec<IssuerNode>,
    pub users: Vec<UserNode>,
    pub entries: Vec<Entry>,
    pub pool: Vec<Msg>,
    pub verified: Vec<(usize, Vec<u8>)>,
    pub iss: Vec<IssRec>,
    pub shows: Vec<ShowRec>,
    pub fault: Fault,
    pub last_seed: u64,
    pub confirmed: Vec<u64>,
    pub differential: bool,
    /// Something was refused or cut short before.
    pub interrupted: bool,
}

pub const ISS_POINTS: [usize; 3] = [0, 32, 64];
pub const ISS_SCALARS: [usize; 6] = [96, 136, 176, 216, 256, 296];
pub const PRES_POINTS: [usize; 4] = [0, 32, 64, 96];
pub const PRES_SCALARS: [usize; 8] = [136, 176, 216, 256, 296, 336, 376, 416];

/// Telephone numbers that look alike.
pub fn family(rng: &mut Prng) -> Vec<Vec<u8>> {
    let n = *rng.pick(&[0usize, 1, 3, 7, 10, 11, 12, 15, 20, 26, 27]);
    let base: Vec<u8> = (0..n).map(|_| rng.below(10) as u8).collect();
    let mut v = vec![base.clone()];
    let mut push = |x: Vec<u8>| if x.len() <= 27 && !v.contains(&x) { v.push(x) };
    let mut x = vec![0]; x.extend(&base); push(x);
    let mut x = base.clone(); x.push(0); push(x);
    let mut x = base.clone(); x.push(9); push(x);
    if n > 0 {
        push(base[1..].to_vec());
        push(base[..n - 1].to_vec());
        let mut x = base.clone(); let i = rng.idx(n); x[i] = (x[i] + 1) % 10; push(x);
        let mut x = base.clone(); x.reverse(); push(x);
    }
    push(vec![0; n]);
    push(vec![]);
    push(vec![0]);
    push((0..27).map(|_| rng.below(10) as u8).collect());
    push((0..11).map(|_| rng.below(10) as u8).collect());
    v
}

pub struct Shape { pub issuers: usize, pub users: usize }

fn node_kind(rng: &mut Prng, mix: u64) -> Node {
    // mix: 0 live objects mostly; 1 any interface; 2 everything, the reference included.
    let r = rng.below(100);
    match mix {
        0 => if r < 70 { Node::Live } else { Node::Surface(*rng.pick(&sf::RUST_KINDS)) },
        1 => if r < 40 { Node::Live } else { Node::Surface(*rng.pick(&sf::kinds())) },
        _ => if r < 20 { Node::Live } else if r < 40 { Node::Ref } else { Node::Surface(*rng.pick(&sf::kinds())) },
    }
}

impl<'c> World<'c> {
    pub fn new(ctx: &'c mut Ctx, seed: u64, profile: &str) -> World<'c> {
        let mut rng = Prng::new(seed ^ 0x00c0_ffee);
        let mix = match profile { "interop" => 2, "net" | "issuance" | "roster" | "present" | "similar" => if rng.chance(40) { 1 } else { 0 }, _ => 0 };
        let ni = match profile { "net" => rng.range(1, 2), "durable" | "aborts" => 1, _ => rng.range(1, 3) } as usize;
        let nu = match profile { "similar" => rng.range(2, 5), "durable" | "aborts" => rng.range(1, 2), _ => rng.range(1, 4) } as usize;
        let fam = family(&mut rng);
        let mut w = World {
            ctx, rng: rng.fork(), issuers: vec![], users: vec![], entries: vec![], pool: vec![], verified: vec![], iss: vec![], shows: vec![],
            fault: Fault::None, last_seed: seed, confirmed: vec![0; nu], interrupted: false, differential: profile == "interop",
        };
        let params: Vec<Params> = (0..2).map(|_| Params { g: curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT, h: rng.point() }).collect();
        for i in 0..ni {
            // Issuers may share parameters, or the secret key.
            let mut p = params[if rng.chance(50) { 0 } else { 1 }];
            let key = if i > 0 && rng.chance(25) {
                let k = &w.issuers[0].key;
                Key::from_secrets(p, k.x0, k.x1)
            } else if i > 0 && rng.chance(20) {
                // Half of the key shared. (With the same h, sharing x1 would make the public keys equal.)
                p = params[if pb(&w.issuers[0].key.params.h) == pb(&params[0].h) { 1 } else { 0 }];
                let (x0, x1) = (rng.scalar(), w.issuers[0].key.x1);
                Key::from_secrets(p, x0, x1)
            } else if i > 0 && rng.chance(20) {
                let (x0, x1) = (w.issuers[0].key.x0, rng.scalar());
                Key::from_secrets(p, x0, x1)
            } else {
                let (x0, x1) = (rng.scalar(), rng.scalar());
                Key::from_secrets(p, x0, x1)
            };
            let key = if w.issuers.iter().any(|o| pb(&o.key.big) == pb(&key.big) && o.key.x0 != key.x0) {
                let (x0, x1) = (rng.scalar(), rng.scalar());
                Key::from_secrets(p, x0, x1)
            } else { key };
            let node = node_kind(&mut rng, mix);
            let bytes = key.bytes();
            let form = *rng.pick(&sf::RUST_KINDS);
            let mut n = IssuerNode { node, params: p.bytes(), key, bytes: bytes.clone(), live: None, durable: (form, vec![]), group: 0 };
            match attempt(|| SignalIssuer::from_bytes(&bytes)) {
                Ok(o) => {
                    n.durable.1 = sf::encode(form, &o).unwrap_or_default();
                    if node == Node::Live { n.live = Some(o); }
                }
                Err(e) => {
                    w.ctx.bad(&["C01", "C06", "C11"], "issuer-unloadable", format!("a genuine issuer's 160 bytes were not loaded: {:?}", e));
                }
            }
            w.issuers.push(n);
        }
        for u in 0..nu {
            let issuer = rng.idx(ni);
            let phone = if u == 0 && rng.chance(50) { fam[0].clone() } else { rng.pick(&fam).clone() };
            let m = rf::phone(&phone).unwrap();
            let node = node_kind(&mut rng, mix);
            let key = match node { Node::Live | Node::Surface(Kind::Raw) | Node::Surface(Kind::Bincode) | Node::Surface(Kind::Json) => rng.chance(25), _ => false };
            let kp = if key { attempt::<_, (), _>(|| Ok(elgamal::Keypair::generate(&mut SimRng(Source::healthy(seed ^ 77))))).ok() } else { None };
            let kb = kp.as_ref().map(|k| k.to_bytes()).unwrap_or_else(|| vec![0; 64]);
            let is = &w.issuers[issuer];
            let bytes = cat(&[m.as_bytes(), &is.params, &pb(&is.key.big), &kb, &[0u8; 96]]);
            let form = *rng.pick(&sf::RUST_KINDS);
            let mut n = UserNode { node, phone: phone.clone(), m, issuer, bytes: bytes.clone(), live: None, durable: (form, vec![], bytes.clone()), group: 0 };
            let r = attempt(|| {
                let p = SystemParameters::from_bytes(&is.params).map_err(|e| format!("{:?}", e))?;
                let ip = IssuerParameters::from_bytes(&pb(&is.key.big)).map_err(|e| format!("{:?}", e))?;
                SignalUser::new(p, ip, kp, &phone).map_err(|e| format!("{:?}", e))
            });
            match r {
                Ok(o) => {
                    match guarded(|| o.to_bytes()) {
                        Ok(ref b) if *b == bytes => {}
                        x => w.ctx.bad(&["C06", "C11"], "user-encoding", format!("a new user encodes as {:?}", x.map(|b| hex(&b)))),
                    }
                    n.durable.1 = sf::encode(form, &o).unwrap_or_default();
                    if node == Node::Live { n.live = Some(o); }
                }
                Err(e) => w.ctx.bad(&["C01", "C14"], "user-not-created", format!("no user for a {} digit number: {:?}", phone.len(), e)),
            }
            w.users.push(n);
        }
        w
    }

    /// What ought to have worked did not: whose fault may that be?
    fn failed(&mut self, props: &[&str], kind: &str, detail: String) {
        let mut p = props.to_vec();
        if self.interrupted && !p.contains(&"C05") { p.push("C05"); }
        self.ctx.bad(&p, kind, detail);
    }

    // ---------------------------------------------------------------- entropy

    fn entropy(&mut self, seed: u64, node: Node) -> (Source, Source) {
        let mut f = std::mem::replace(&mut self.fault, Fault::None);
        // A panic must not be sent through `extern "C"`.
        if node == Node::Surface(Kind::C) { match f { Fault::CallerFails(_) | Fault::SystemFails(_) => f = Fault::SystemStuck(0), _ => {} } }
        let mut s = seed;
        if f == Fault::CallerRepeats || f == Fault::BothRolledBack { s = self.last_seed; }
        let sys_seed = if f == Fault::BothRolledBack { self.last_seed } else { seed };
        self.last_seed = s;
        let mut c = Source::seeded(Prng::new(mixes(&[s, 1])).seed32());
        let mut y = Source::healthy(mixes(&[sys_seed, 2]));
        match f {
            Fault::CallerFails(k) => { self.interrupted = true; c.fail_at = Some(k); self.ctx.count("fault.caller-entropy-fails"); }
            Fault::SystemFails(k) => { self.interrupted = true; y.fail_at = Some(k); self.ctx.count("fault.system-entropy-fails"); }
            Fault::SystemStuck(b) => { y = Source::stuck(b); self.ctx.count("fault.system-entropy-stuck"); }
            Fault::CallerRepeats => self.ctx.count("fault.caller-entropy-repeats"),
            Fault::BothRolledBack => self.ctx.count("fault.entropy-rolled-back"),
            Fault::None => {}
        }
        (c, y)
    }
    fn seed32(&self, s: u64) -> [u8; 32] { Prng::new(mixes(&[s, 1])).seed32() }

    // ---------------------------------------------------------------- objects

    /// Run `f` on issuer `i` as an object; its bytes must be the same afterwards.
    fn with_issuer<T, F: FnOnce(&SignalIssuer) -> Result<T, String>>(&mut self, i: usize, what: &str, f: F) -> Result<T, Fail> {
        let kind = match self.issuers[i].node { Node::Surface(k) => k, _ => Kind::Raw };
        let live = self.issuers[i].live.take();
        let obj = match live {
            Some(o) => o,
            None => { let b = self.issuers[i].bytes.clone(); attempt(|| sf::load::<SignalIssuer>(kind, &b))? }
        };
        let r = attempt(|| f(&obj));
        let after = guarded(|| obj.to_bytes());
        if after != Ok(self.issuers[i].bytes.clone()) {
            self.ctx.bad(&["C05"], "issuer-changed", format!("issuer {} changed during {} ({}): {:?}", i, what, outcome(&r), after.map(|b| hex(&b))));
        }
        if self.issuers[i].node == Node::Live { self.issuers[i].live = Some(obj); }
        r
    }

    /// Run `f` on user `u` as an object; `expect` is what its bytes must be afterwards if `f` succeeds.
    fn with_user<T, F: FnOnce(&mut SignalUser) -> Result<T, String>>(&mut self, u: usize, what: &str, expect: Option<Vec<u8>>, f: F) -> Result<T, Fail> {
        let kind = match self.users[u].node { Node::Surface(k) => k, _ => Kind::Raw };
        let before = self.users[u].bytes.clone();
        let live = self.users[u].live.take();
        let mut obj = match live {
            Some(o) => o,
            None => attempt(|| sf::load::<SignalUser>(kind, &before))?,
        };
        let r = attempt(|| f(&mut obj));
        let after = guarded(|| obj.to_bytes());
        let want = if r.is_ok() { expect.unwrap_or_else(|| before.clone()) } else { before };
        if after.as_ref().ok() != Some(&want) {
            let kind = if r.is_ok() { "user-state-wrong" } else { "user-changed-by-failure" };
            let props: &[&str] = if r.is_ok() { &["C05", "C04"] } else { &["C05"] };
            self.ctx.bad(props, kind, format!("user {} after {} ({}): {:?}", u, what, outcome(&r), after.as_ref().map(|b| hex(b))));
        }
        if let Ok(b) = after { if b.len() == 288 { self.users[u].bytes = b; } }
        if self.users[u].node == Node::Live { self.users[u].live = Some(obj); }
        r
    }

    // ---------------------------------------------------------------- protocol steps

    fn issue(&mut self, i: usize, phone: &[u8], seed: u64) -> Result<Vec<u8>, Fail> {
        let (c, y) = self.entropy(seed, self.issuers[i].node);
        set_system(y);
        self.ctx.op();
        match self.issuers[i].node {
            Node::Ref => {
                let m = rf::phone(phone).ok_or_else(|| Fail::Rejected("too long".into()))?;
                Ok(self.issuers[i].key.issue(&m, &mut Prng::new(seed)))
            }
            Node::Surface(k @ Kind::C) | Node::Surface(k @ Kind::Js) if !(k == Kind::C && phone.is_empty()) => {
                let s = self.seed32(seed);
                sf::issue(k, &self.issuers[i].bytes, phone, &s)
            }
            _ => self.with_issuer(i, "issue", |o| o.issue(phone, &mut SimRng(c)).map(|x| x.to_bytes()).map_err(|e| format!("{:?}", e))),
        }
    }

    fn deliver_request(&mut self, i: usize, user: usize, phone: &[u8], seed: u64) {
        let r = self.issue(i, phone, seed);
        self.ctx.ev(&[1, i as u64, hash_bytes(phone), rh(&r)], || format!("issuer {} is asked for a credential for {:?}: {}", i, phone, outcome(&r)));
        match r {
            Ok(b) => {
                if phone.len() > 27 {
                    self.ctx.bad(&["C14"], "long-number-issued", format!("a {} digit number was issued", phone.len()));
                    return;
                }
                let m = rf::phone(phone).unwrap();
                let key = self.issuers[i].key.clone();
                // The issuance must be what the protocol says: the MAC of exactly this number under this key.
                match rf::Issued::parse(&b) {
                    Some(ref x) if b.len() == 328 && x.m == m && x.accept(&key.params, &key.big, &m) && x.q == x.p * (key.x0 + key.x1 * m) => {}
                    Some(ref x) if b.len() == 328 => {
                        let mac = x.q == x.p * (key.x0 + key.x1 * m);
                        let props: &[&str] = if x.m != m || !mac { &["C14", "C11", "C01"] } else { &["C11", "C01"] };
                        self.ctx.bad(props, "issuance-wrong", format!("issuance for {:?} by {:?}: right number {}, MAC valid {}, reference accepts {}: {}",
                            phone, self.issuers[i].node, x.m == m, mac, x.accept(&key.params, &key.big, &m), hex(&b)));
                    }
                    _ => self.ctx.bad(&["C11", "C01"], "issuance-undecodable", format!("issuance of {} bytes: {}", b.len(), hex(&b))),
                }
                self.challenge_size(&b, 136, &["C04"]);
                self.iss.push(IssRec { bytes: b.clone(), issuer: i, m });
                self.pool.push(Msg { body: Body::Issuance, user, issuer: i, bytes: b, genuine: true });
            }
            Err(ref e) if e.is_bad() => self.failed(&["C07", "C01"], "issue-panics", format!("issue for {:?}: {:?}", phone, e)),
            Err(Fail::Rejected(ref e)) if phone.len() <= 27 => self.failed(&["C01", "C14"], "issue-refused", format!("issue for {:?} by {:?}: {}", phone, self.issuers[i].node, e)),
            _ => {}
        }
    }

    fn challenge_size(&mut self, b: &[u8], off: usize, props: &[&str]) {
        if b.len() >= off + 32 && b[off + 12..off + 32].iter().all(|x| *x == 0) {
            self.ctx.bad(props, "short-challenge", format!("a proof's challenge has at most 96 bits: {}", hex(&b[off..off + 32])));
        }
    }

    /// Deliver issuance bytes to a user.
    fn deliver_issuance(&mut self, u: usize, b: &[u8], how: &str) {
        let (is, m) = (self.users[u].issuer, self.users[u].m);
        let (big, params) = (pb(&self.issuers[is].key.big), self.issuers[is].params.clone());
        let same = |r: &&IssRec| b.len() >= 328 && r.bytes[..] == b[..328];
        let legit = self.iss.iter().filter(same).any(|r| pb(&self.issuers[r.issuer].key.big) == big && self.issuers[r.issuer].params == params && r.m == m);
        let other_number = self.iss.iter().filter(same).any(|r| r.m != m);
        let exact = legit && b.len() == 328;
        // The finding recorded for C04: the proof of issuance does not say which number the MAC is on.
        let relabelled = !legit && b.len() >= 328 && b[96..128] == m.to_bytes()
            && self.iss.iter().any(|r| r.bytes[..96] == b[..96] && r.bytes[128..] == b[128..328] && pb(&self.issuers[r.issuer].key.big) == big && self.issuers[r.issuer].params == params);
        let reference = if b.len() == 328 {
            rf::Issued::parse(b).map(|x| x.accept(&self.issuers[is].key.params, &self.issuers[is].key.big, &m)).unwrap_or(false)
        } else { legit };
        let (_, y) = self.entropy(mix(u as u64), self.users[u].node);
        set_system(y);
        self.ctx.op();
        let mut want = self.users[u].bytes.clone();
        if b.len() >= 128 { want[192..288].copy_from_slice(&b[32..128]); }
        let node = self.users[u].node;
        let before = self.users[u].bytes.clone();
        let r: Result<(), Fail> = match node {
            Node::Ref => if reference { self.users[u].bytes = want; Ok(()) } else { Err(Fail::Rejected("reference".into())) },
            Node::Surface(k @ Kind::C) | Node::Surface(k @ Kind::Js) if !(k == Kind::C && self.users[u].phone.is_empty()) => {
                // These interfaces make the user anew, without the encryption keys it may have had.
                for x in want[128..192].iter_mut() { *x = 0; }
                match sf::obtain(k, &self.users[u].phone, &params, &big, b) {
                    Ok(n) => {
                        if n != want { self.ctx.bad(&["C05", "C04", "C10", "C11"], "user-state-wrong", format!("user from {:?}: {}", k, hex(&n))); }
                        self.users[u].bytes = want;
                        Ok(())
                    }
                    Err(e) => Err(e),
                }
            }
            _ => {
                let k = match node { Node::Surface(k) => k, _ => Kind::Raw };
                self.with_user(u, "obtain_finish", Some(want), |o| {
                    let i: SignalCredentialIssuance = sf::load(k, b)?;
                    o.obtain_finish(Some(&i)).map_err(|e| format!("{:?}", e))
                })
            }
        };
        self.ctx.ev(&[2, u as u64, hash_bytes(b), rh(&r.clone().map(|_| vec![]))], || format!("user {} ({:?}) gets an issuance ({}): {}", u, node, how, outcome(&r)));
        match r {
            Ok(()) => {
                self.ctx.count("event.credential-installed");
                if !legit {
                    let props: &[&str] = if other_number { &["C04", "C14"] } else { &["C04"] };
                    self.ctx.bad(props, if relabelled && (reference || b.len() != 328) { "number-not-bound" } else if how.starts_with("key holder") && reference { "mac-not-proven" } else { "issuance-accepted" }, format!("{:?} user accepted an issuance that is not a genuine one of its own ({}): {}", node, how, hex(b)));
                    // Go on from the state before, so that later steps are about something else.
                    self.reset_user(u, before);
                } else if b.len() == 328 && !reference {
                    self.ctx.bad(&["C11"], "verdict-differs", "the user accepted what the reference refuses".into());
                }
            }
            Err(ref e) => {
                if e.is_bad() {
                    let props: &[&str] = if exact { &["C07", "C01"] } else { &["C07"] };
                    self.failed(props, "obtain-panics", format!("{:?} on {}", e, hex(b)));
                } else if exact && e.is_reject() {
                    self.failed(&["C01", "C11"], "issuance-refused", format!("{:?} user {} refused a genuine issuance ({:?} issuer, {}): {:?}", node, u, self.issuers[is].node, how, e));
                }
                self.interrupted = true;
            }
        }
    }

    fn reset_user(&mut self, u: usize, bytes: Vec<u8>) {
        self.users[u].live = None;
        if self.users[u].node == Node::Live { self.users[u].live = attempt(|| SignalUser::from_bytes(&bytes)).ok(); }
        self.users[u].bytes = bytes;
    }

    fn make_entry(&mut self, u: usize, seed: u64) -> Option<usize> {
        let is = self.users[u].issuer;
        let (phone, m, params) = (self.users[u].phone.clone(), self.users[u].m, self.issuers[is].params.clone());
        let k = match self.users[u].node { Node::Surface(Kind::C) if !phone.is_empty() => Kind::C, Node::Surface(Kind::Js) | Node::Surface(Kind::C) => Kind::Raw, Node::Surface(k) => k, _ => Kind::Raw };
        let s = self.seed32(seed);
        self.ctx.op();
        let r = sf::entry_create(k, &phone, &params, &s);
        self.ctx.ev(&[3, u as u64, rh(&r)], || format!("user {} makes a roster entry: {}", u, outcome(&r)));
        match r {
            Ok(b) => {
                let good = b.len() == 64 && {
                    let p = Params::parse(&params).unwrap();
                    pb(&rf::entry(&p, &m, &Scalar::from_bits(a32(&b[32..64])))) == b[..32]
                };
                if !good { self.ctx.bad(&["C03", "C11", "C14"], "entry-wrong", format!("roster entry for {:?}: {}", phone, hex(&b))); return None; }
                self.entries.push(Entry { bytes: b, m, params, owner: u });
                Some(self.entries.len() - 1)
            }
            Err(e) => {
                self.failed(&["C01"], "entry-refused", format!("no roster entry for {:?}: {:?}", phone, e));
                None
            }
        }
    }

    fn show(&mut self, u: usize, e: usize, seed: u64) -> Option<Vec<u8>> {
        let entry = self.entries[e].clone();
        let has = self.users[u].has_cred();
        let (c, y) = self.entropy(seed, self.users[u].node);
        let sys_or_caller_faulty = c.fail_at.is_some() || y.fail_at.is_some();
        set_system(y);
        self.ctx.op();
        let node = self.users[u].node;
        let r: Result<Vec<u8>, Fail> = match node {
            Node::Ref => {
                if !has { Err(Fail::Rejected("no credential".into())) } else {
                    let s = Shower::from_user(&self.users[u].bytes).unwrap();
                    let o = ShowOpts { entry: pt(&entry.bytes[..32]).unwrap(), entry_m: s.m, entry_z: Scalar::from_bits(a32(&entry.bytes[32..])),
                                       omit: &[], omit_roster: &[], rerandomize: true };
                    Ok(s.show(&o, &mut Prng::new(seed)).bytes())
                }
            }
            Node::Surface(k @ Kind::C) | Node::Surface(k @ Kind::Js) => {
                let s = self.seed32(seed);
                let before = self.users[u].bytes.clone();
                sf::show(k, &before, &entry.bytes, &s)
            }
            _ => {
                let k = match node { Node::Surface(k) => k, _ => Kind::Raw };
                self.with_user(u, "show", None, |o| {
                    let e: RosterEntryCommitment = sf::load(k, &entry.bytes)?;
                    o.show(&mut SimRng(c), &e).map(|x| x.to_bytes()).map_err(|e| format!("{:?}", e))
                })
            }
        };
        let is = self.users[u].issuer;
        let own = entry.m == self.users[u].m && entry.params == self.issuers[is].params;
        self.ctx.ev(&[4, u as u64, e as u64, rh(&r)], || format!("user {} ({:?}) presents with entry {} ({}): {}", u, node, e, if own { "its own" } else { "another's" }, outcome(&r)));
        match r {
            Ok(b) => {
                if b.len() != 448 {
                    self.ctx.bad(&["C11", "C01"], "presentation-length", format!("{} bytes", b.len()));
                    return None;
                }
                if !has { return Some(b); }
                if b[..32] != entry.bytes[..32] {
                    self.ctx.bad(&["C03", "C11"], "presentation-entry", "the presentation carries another commitment than the entry's".into());
                }
                self.challenge_size(&b, 136, &["C02"]);
                self.challenge_size(&b, 296, &["C03"]);
                self.shows.push(ShowRec { bytes: b.clone(), issuer: is, m: self.users[u].m, entry_m: entry.m, entry_params: entry.params.clone(), entry_c: entry.bytes[..32].to_vec() });
                Some(b)
            }
            Err(ref x) if x.is_bad() => { self.failed(&["C07", "C01"], "show-panics", format!("{:?}", x)); None }
            Err(ref x) if has && own && x.is_reject() && !sys_or_caller_faulty => {
                self.failed(&["C01", "C11"], "show-refused", format!("{:?} user {} with a credential and its own entry: {:?}", node, u, x));
                None
            }
            _ => None,
        }
    }

    fn deliver_presentation(&mut self, i: usize, b: &[u8], how: &str) -> bool {
        let key = self.issuers[i].key.clone();
        let params = self.issuers[i].params.clone();
        let mine = |w: &World, r: &ShowRec| { let k = &w.issuers[r.issuer].key; k.x0 == key.x0 && k.x1 == key.x1 && w.issuers[r.issuer].params == params };
        let legit = b.len() >= 288 && self.shows.iter().any(|r| r.bytes[32..288] == b[32..288] && mine(self, r));
        let exact = self.shows.iter().any(|r| r.bytes[..] == *b && mine(self, r));
        let reference = b.len() == 448 && rf::SignalShown::parse(b).map(|s| key.verify(&s.shown)).unwrap_or(false);
        self.ctx.op();
        let node = self.issuers[i].node;
        let r: Result<Vec<u8>, Fail> = match node {
            Node::Ref => if reference { Ok(b.to_vec()) } else { Err(Fail::Rejected("reference".into())) },
            Node::Surface(k @ Kind::C) | Node::Surface(k @ Kind::Js) => { let ib = self.issuers[i].bytes.clone(); sf::verify(k, &ib, b) }
            _ => {
                let k = match node { Node::Surface(k) => k, _ => Kind::Raw };
                self.with_issuer(i, "verify", |o| {
                    let p: SignalCredentialPresentation = sf::load(k, b)?;
                    o.verify(p).map(|v| v.to_bytes()).map_err(|e| format!("{:?}", e))
                })
            }
        };
        self.ctx.ev(&[5, i as u64, hash_bytes(b), rh(&r)], || format!("issuer {} ({:?}) gets a presentation ({}): {}", i, node, how, outcome(&r)));
        if self.differential && b.len() == 448 {
            let ib = self.issuers[i].bytes.clone();
            for k in sf::kinds() {
                let x = sf::verify(k, &ib, b);
                if x.is_ok() != r.is_ok() && !r.as_ref().err().map(|e| e.is_bad()).unwrap_or(false) {
                    self.ctx.bad(&["C11"], "verdict-differs", format!("{:?} {} but {:?} {} ({})", node, outcome(&r), k, outcome(&x), how));
                }
            }
        }
        match r {
            Ok(v) => {
                self.ctx.count("event.presentation-accepted");
                if !legit {
                    self.ctx.bad(&["C02"], "presentation-accepted", format!("{:?} issuer accepted a presentation no credential holder made ({}): {}", node, how, hex(b)));
                    return false;
                }
                if b.len() == 448 && v != b { self.ctx.bad(&["C02", "C03", "C06", "C11"], "verified-differs", format!("the verified credential is not the presentation: {}", hex(&v))); }
                if b.len() == 448 && !reference { self.ctx.bad(&["C11"], "verdict-differs", "the issuer accepted what the reference refuses".into()); }
                self.verified.push((i, v));
                true
            }
            Err(ref e) => {
                if e.is_bad() {
                    let props: &[&str] = if exact { &["C07", "C01"] } else { &["C07"] };
                    self.failed(props, "verify-panics", format!("{:?} on {}", e, hex(b)));
                } else if exact && e.is_reject() {
                    self.failed(&["C01", "C11"], "presentation-refused", format!("{:?} issuer refused a genuine presentation ({}): {:?}", node, how, e));
                }
                self.interrupted = true;
                false
            }
        }
    }

    fn deliver_verified(&mut self, i: usize, b: &[u8], how: &str) -> bool {
        let params = self.issuers[i].params.clone();
        // Commitment, nonce, blinded attribute and roster proof all from one honest presentation.
        let same = |r: &ShowRec| b.len() >= 448 && r.bytes[..32] == b[..32] && r.bytes[64..128] == b[64..128] && r.bytes[288..448] == b[288..448];
        let right = |w: &World, r: &ShowRec| w.issuers[r.issuer].params == params && r.entry_params == params && r.entry_m == r.m;
        let legit = self.shows.iter().any(|r| same(r) && right(self, r));
        let number = self.shows.iter().any(|r| same(r) && r.entry_m != r.m);
        let exact = b.len() == 448 && self.shows.iter().any(|r| r.bytes[..] == *b && right(self, r));
        let reference = b.len() == 448 && rf::SignalShown::parse(b).map(|s| self.issuers[i].key.verify_roster(&s)).unwrap_or(false);
        self.ctx.op();
        let node = self.issuers[i].node;
        let r: Result<Vec<u8>, Fail> = match node {
            Node::Ref => if reference { Ok(b[..32].to_vec()) } else { Err(Fail::Rejected("reference".into())) },
            Node::Surface(k @ Kind::C) | Node::Surface(k @ Kind::Js) => { let ib = self.issuers[i].bytes.clone(); sf::roster(k, &ib, b) }
            _ => {
                let k = match node { Node::Surface(k) => k, _ => Kind::Raw };
                self.with_issuer(i, "verify_roster_membership", |o| {
                    let v: VerifiedSignalCredential = sf::load(k, b)?;
                    o.verify_roster_membership(&v).map(|c| c.to_bytes()).map_err(|e| format!("{:?}", e))
                })
            }
        };
        self.ctx.ev(&[6, i as u64, hash_bytes(b), rh(&r)], || format!("issuer {} ({:?}) checks roster membership ({}): {}", i, node, how, outcome(&r)));
        if self.differential && b.len() == 448 {
            let ib = self.issuers[i].bytes.clone();
            for k in sf::kinds() {
                let x = sf::roster(k, &ib, b);
                if x.is_ok() != r.is_ok() && !r.as_ref().err().map(|e| e.is_bad()).unwrap_or(false) {
                    self.ctx.bad(&["C11"], "verdict-differs", format!("roster: {:?} {} but {:?} {} ({})", node, outcome(&r), k, outcome(&x), how));
                }
            }
        }
        match r {
            Ok(c) => {
                self.ctx.count("event.membership-confirmed");
                if !legit {
                    let props: &[&str] = if number { &["C03", "C14"] } else { &["C03"] };
                    self.ctx.bad(props, "membership-accepted", format!("{:?} issuer confirmed a membership that is not the credential's ({}): {}", node, how, hex(b)));
                    return false;
                }
                if c[..] != b[..32] { self.ctx.bad(&["C03"], "membership-wrong-entry", format!("confirmed {} instead of {}", hex(&c), hex(&b[..32]))); }
                if b.len() == 448 && !reference { self.ctx.bad(&["C11"], "verdict-differs", "the issuer confirmed what the reference refuses".into()); }
                if let Some(e) = self.entries.iter().find(|e| e.bytes[..32] == c[..]) { self.confirmed[e.owner] += 1; }
                true
            }
            Err(ref e) => {
                if e.is_bad() {
                    let props: &[&str] = if exact { &["C07", "C01"] } else { &["C07"] };
                    self.failed(props, "roster-panics", format!("{:?} on {}", e, hex(b)));
                } else if exact && e.is_reject() {
                    self.failed(&["C01", "C03", "C11"], "membership-refused", format!("{:?} issuer refused a genuine roster proof ({}): {:?}", node, how, e));
                }
                self.interrupted = true;
                false
            }
        }
    }

    // ---------------------------------------------------------------- disks

    fn save_user(&mut self, u: usize, form: Kind) {
        let b = self.users[u].bytes.clone();
        let r = self.with_user_obj_bytes(u, form);
        self.ctx.op();
        match r {
            Ok(v) => { self.users[u].durable = (form, v, b); }
            Err(e) => self.ctx.bad(&["C06", "C01"], "user-unsaveable", format!("{:?} saving as {:?}", e, form)),
        }
        self.ctx.ev(&[7, u as u64], || format!("user {} is saved as {:?}", u, form));
    }
    fn with_user_obj_bytes(&mut self, u: usize, form: Kind) -> Result<Vec<u8>, Fail> {
        match self.users[u].live {
            Some(ref o) => attempt(|| sf::encode(form, o)),
            None => { let b = self.users[u].bytes.clone(); attempt(|| { let o: SignalUser = sf::load(Kind::Raw, &b)?; sf::encode(form, &o) }) }
        }
    }

    fn crash_user(&mut self, u: usize) {
        let (form, stored, truth) = self.users[u].durable.clone();
        self.ctx.count("fault.crash-user");
        self.ctx.op();
        let r = attempt(|| sf::decode::<SignalUser>(form, &stored));
        self.ctx.ev(&[8, u as u64], || format!("user {} crashes and is restored from {:?}: {}", u, form, outcome(&r)));
        match r {
            Ok(o) => {
                let b = guarded(|| o.to_bytes());
                if b.as_ref().ok() != Some(&truth) {
                    self.ctx.bad(&["C06"], "user-restored-differently", format!("{:?} gave {:?}", form, b.map(|b| hex(&b))));
                }
                self.users[u].bytes = truth;
                self.users[u].live = if self.users[u].node == Node::Live { Some(o) } else { None };
            }
            Err(e) => { self.ctx.bad(&["C06", "C01"], "user-unrestorable", format!("{:?} from {:?}", e, form)); self.reset_user(u, truth); }
        }
    }
    fn crash_issuer(&mut self, i: usize) {
        let (form, stored) = self.issuers[i].durable.clone();
        self.ctx.count("fault.crash-issuer");
        self.ctx.op();
        let r = attempt(|| sf::decode::<SignalIssuer>(form, &stored));
        self.ctx.ev(&[9, i as u64], || format!("issuer {} crashes and is restored from {:?}: {}", i, form, outcome(&r)));
        match r {
            Ok(o) => {
                let b = guarded(|| o.to_bytes());
                if b.as_ref().ok() != Some(&self.issuers[i].bytes) {
                    self.ctx.bad(&["C06"], "issuer-restored-differently", format!("{:?} gave {:?}", form, b.map(|b| hex(&b))));
                }
                self.issuers[i].live = if self.issuers[i].node == Node::Live { Some(o) } else { None };
            }
            Err(e) => self.ctx.bad(&["C06", "C01"], "issuer-unrestorable", format!("{:?} from {:?}", e, form)),
        }
    }

    // ---------------------------------------------------------------- adversary

    fn tamper(&mut self, k: usize, how: u64, rng: &mut Prng) -> Option<(Msg, String)> {
        let mut m = self.pool[k].clone();
        m.genuine = false;
        if m.body == Body::Request {
            let p = &mut m.bytes;
            match how % 6 {
                0 => p.push(0),
                1 => { p.pop(); }
                2 => p.insert(0, 0),
                3 => if let Some(x) = p.last_mut() { *x = (*x + 1) % 10 },
                4 => *p = (0..rng.range(28, 64)).map(|_| rng.below(10) as u8).collect(),
                _ => { let n = rng.idx(self.users.len()); *p = self.users[n].phone.clone(); }
            }
            return Some((m, "altered request".into()));
        }
        let others: Vec<Vec<u8>> = self.pool.iter().filter(|x| x.body == m.body && x.bytes.len() == m.bytes.len() && x.bytes != m.bytes).map(|x| x.bytes.clone()).collect();
        let s = mutate(&mut m.bytes, m.body == Body::Issuance, how, rng, &others, &self.specials(m.issuer));
        Some((m, s))
    }
    fn specials(&self, i: usize) -> Vec<[u8; 32]> {
        let k = &self.issuers[i].key;
        vec![pb(&rf::identity()), pb(&k.params.g), pb(&k.params.h), pb(&k.big), pb(&(-k.params.h))]
    }

    /// Something an adversary without the issuer's key makes; it may control user `u`.
    fn attack_presentation(&mut self, i: usize, u: usize, how: u64, rng: &mut Prng) {
        if rng.chance(40) { return self.odd_presentation(i, u, rng); }
        let key = self.issuers[i].key.clone();
        let (params, big) = (key.params, key.big);
        let has = self.users[u].has_cred() && self.users[u].issuer == i;
        let mut holder = if has { Shower::from_user(&self.users[u].bytes).unwrap() } else {
            let p = rng.point();
            Shower { params, big, m: rng.scalar(), p, q: rng.point() }
        };
        let z = rng.scalar();
        let mut o = ShowOpts { entry: rf::entry(&params, &holder.m, &z), entry_m: holder.m, entry_z: z, omit: &[], omit_roster: &[], rerandomize: true };
        let labels = rf::VALID.labels();
        let mut omit: Vec<String> = Vec::new();
        for _ in 0..rng.range(1, 3) { omit.push(rng.pick(&labels).clone()); }
        let name;
        match how % 7 {
            0 => { name = "identity nonce"; holder.p = rf::identity(); holder.q = rf::identity(); holder.m = rng.scalar(); }
            1 => { name = "zero MAC of zero"; holder.p = rng.point(); holder.q = rf::identity(); holder.m = Scalar::zero(); }
            2 => { name = "another number under one's own MAC"; holder.m = if rng.chance(50) { rng.scalar() } else { holder.m + Scalar::one() }; }
            3 => { name = "made-up MAC"; holder.p = rng.point(); holder.q = rng.point(); }
            4 => { name = "made-up MAC, weak hash"; holder.p = rng.point(); holder.q = rng.point(); o.omit = &omit; }
            5 => { name = "another number, weak hash"; holder.m = rng.scalar(); o.omit = &omit; }
            _ => { name = "MAC equal to its nonce"; holder.p = params.g; holder.q = params.g; holder.m = Scalar::zero(); o.rerandomize = false; }
        }
        o.entry_m = holder.m;
        o.entry = rf::entry(&params, &holder.m, &z);
        let mut s = holder.show(&o, rng);
        if how % 7 == 0 && rng.chance(50) {
            // The other trivial variant: nothing but the blinding.
            s.shown.cq = rf::identity();
        }
        self.ctx.count(&format!("attack.presentation: {}", name));
        self.deliver_presentation(i, &s.bytes(), name);
    }

    /// Points worth trying in the fields of a message.
    fn odd_points(&self, i: usize, u: usize, rng: &mut Prng) -> Vec<RistrettoPoint> {
        let k = &self.issuers[i].key;
        let mut v = vec![rf::identity(), k.params.g, k.params.h, k.big, rng.point(), k.params.h * rng.scalar(), k.big * rng.scalar()];
        if self.users[u].has_cred() {
            let h = Shower::from_user(&self.users[u].bytes).unwrap();
            v.extend(&[h.p, h.q, h.p * Scalar::from(2u64), h.q - h.p]);
        }
        if !self.shows.is_empty() {
            let r = rng.pick(&self.shows).bytes.clone();
            for j in 0..4 { v.extend(pt(&r[32 * j..32 * j + 32])); }
        }
        let n = rng.idx(v.len());
        v.push(-v[n]);
        v
    }
    /// A proof that goes with odd values: made for some witnesses, all zero, of the wrong statement or random.
    fn odd_proof(&self, rel: &'static rf::Rel, pubs: &rf::Pub, w: &[Scalar], copied: Option<Proof>, rng: &mut Prng) -> Proof {
        let n = w.len();
        match rng.below(8) {
            0 => Proof { c: Scalar::zero(), r: vec![Scalar::zero(); n] },
            1 => Proof { c: rng.scalar(), r: (0..n).map(|_| rng.scalar()).collect() },
            2 => Proof { c: Scalar::zero(), r: (0..n).map(|_| rng.scalar()).collect() },
            3 => copied.unwrap_or_else(|| rel.prove(rel.outer, pubs, w, rng, &[])),
            _ => rel.prove(rel.outer, pubs, w, rng, &[]),
        }
    }
    fn odd_scalar(&self, m: &Scalar, rng: &mut Prng) -> Scalar {
        match rng.below(6) { 0 | 1 => Scalar::zero(), 2 => Scalar::one(), 3 => -Scalar::one(), 4 => *m, _ => rng.scalar() }
    }

    /// Fields that are trivial or equal to one another, with a proof for what the issuer might then recompute.
    fn odd_presentation(&mut self, i: usize, u: usize, rng: &mut Prng) {
        let key = self.issuers[i].key.clone();
        let pool = self.odd_points(i, u, rng);
        let own = self.users[u].m;
        let p = *rng.pick(&pool);
        let w = [self.odd_scalar(&own, rng), self.odd_scalar(&own, rng), self.odd_scalar(&own, rng)];
        let mut cm0 = p * w[0] + key.params.h * w[1];
        let v = key.big * w[1] + key.params.h * w[2];
        if rng.chance(30) { cm0 = *rng.pick(&pool); }
        let cq = match rng.below(8) { 0 => v, 1 => -v, 2 => cm0, 3 => p, 4 => cm0 - v, 5 => -(key.params.h * w[2]), _ => *rng.pick(&pool) };
        let mut pubs = rf::Pub::new();
        for (n, x) in &[("B", key.params.g), ("A", key.params.h), ("X0", key.big), ("P", p), ("V", v), ("Cm0", cm0)] { pubs.insert(n, *x); }
        let copied = if self.shows.is_empty() { None } else { rf::SignalShown::parse(&rng.pick(&self.shows).bytes).map(|s| s.shown.proof) };
        let proof = self.odd_proof(&rf::VALID, &pubs, &w, copied, rng);
        let z = rng.scalar();
        let entry = rf::entry(&key.params, &w[0], &z);
        let roster = rf::EQUAL.prove(rf::EQUAL.outer, &rf::roster_pubs(&key.params, &p, &cm0, &entry), &[w[0], w[1], z], rng, &[]);
        let s = rf::SignalShown { entry, shown: rf::Shown { cq, p, cm0, proof }, proof: roster };
        // (Points that were all taken from one genuine presentation may be one.)
        if key.verify(&s.shown) { return; }
        self.ctx.count("attack.presentation: odd values");
        self.deliver_presentation(i, &s.bytes(), "odd values");
    }
    fn odd_roster(&mut self, i: usize, u: usize, rng: &mut Prng) {
        let key = self.issuers[i].key.clone();
        let own = self.users[u].m;
        let base = if self.shows.is_empty() { None } else { rf::SignalShown::parse(&rng.pick(&self.shows).bytes.clone()) };
        let mut pool = self.odd_points(i, u, rng);
        let whole = rng.chance(70);
        let (p, cm0, cq, vp) = match base {
            Some(ref s) if whole => (s.shown.p, s.shown.cm0, s.shown.cq, s.shown.proof.clone()),
            _ => {
                let p = *rng.pick(&pool);
                let cm0 = if rng.chance(50) { p * self.odd_scalar(&own, rng) + key.params.h * self.odd_scalar(&own, rng) } else { *rng.pick(&pool) };
                (p, cm0, *rng.pick(&pool), Proof { c: Scalar::zero(), r: vec![Scalar::zero(); 3] })
            }
        };
        pool.extend(&[p, cm0, cq, -cm0, cm0 - cq, cm0 + key.params.h, cm0 + key.params.g]);
        let w = [self.odd_scalar(&own, rng), self.odd_scalar(&own, rng), self.odd_scalar(&own, rng)];
        let entry = if rng.chance(25) { rf::entry(&key.params, &w[0], &w[2]) } else if rng.chance(40) { pool[pool.len() - 1 - rng.idx(7)] } else { *rng.pick(&pool) };
        let pubs = rf::roster_pubs(&key.params, &p, &cm0, &entry);
        let proof = self.odd_proof(&rf::EQUAL, &pubs, &w, base.map(|s| s.proof), rng);
        let s = rf::SignalShown { entry, shown: rf::Shown { cq, p, cm0, proof: vp }, proof };
        if key.verify_roster(&s) { return; }
        self.ctx.count("attack.roster: odd values");
        self.deliver_verified(i, &s.bytes(), "odd values");
    }
    fn odd_issuance(&mut self, u: usize, rng: &mut Prng) {
        let is = self.users[u].issuer;
        let key = self.issuers[is].key.clone();
        let m = self.users[u].m;
        let mut pool = self.odd_points(is, u, rng);
        let base = if self.iss.is_empty() { None } else { rf::Issued::parse(&rng.pick(&self.iss).bytes.clone()) };
        if let Some(ref b) = base { pool.extend(&[b.p, b.q, b.cx0, -b.q]); }
        let (x0, x1, xt) = (self.odd_scalar(&m, rng), self.odd_scalar(&m, rng), self.odd_scalar(&m, rng));
        let p = *rng.pick(&pool);
        let w = [x0, x1, xt, if rng.chance(60) { x1 * m } else { self.odd_scalar(&m, rng) }];
        let q = match rng.below(5) { 0 => p, 1 => *rng.pick(&pool), _ => p * (w[0] + w[3]) };
        let cx0 = match rng.below(5) { 0 => p, 1 => q, 2 => *rng.pick(&pool), _ => key.params.g * x0 + key.params.h * xt };
        let pubs = rf::issuance_pubs(&key.params, &key.big, &p, &q, &cx0);
        let proof = self.odd_proof(&rf::ISSUANCE, &pubs, &w, base.map(|b| b.proof), rng);
        let b = cat(&[&pb(&cx0), &pb(&p), &pb(&q), m.as_bytes(), &proof.to_bytes()]);
        match rf::Issued::parse(&b) { Some(ref x) if !x.accept(&key.params, &key.big, &m) => {} _ => return }
        self.ctx.count("attack.issuance: odd values");
        self.deliver_issuance(u, &b, "odd values");
    }

    /// A credential holder claims another roster entry.
    fn attack_roster(&mut self, i: usize, u: usize, how: u64, rng: &mut Prng) {
        if rng.chance(40) { return self.odd_roster(i, u, rng); }
        let key = self.issuers[i].key.clone();
        let params = key.params;
        let has = self.users[u].has_cred() && self.users[u].issuer == i;
        if !has { return; }
        let holder = Shower::from_user(&self.users[u].bytes).unwrap();
        // A victim's entry, its opening known to the attacker.
        let victims: Vec<Entry> = self.entries.iter().filter(|e| e.params == self.issuers[i].params && e.m != holder.m).cloned().collect();
        let (vm, vz) = if !victims.is_empty() && rng.chance(70) {
            let e = rng.pick(&victims);
            (e.m, Scalar::from_bits(a32(&e.bytes[32..])))
        } else { (rng.scalar(), rng.scalar()) };
        let ventry = rf::entry(&params, &vm, &vz);
        let labels = rf::EQUAL.labels();
        let mut omit: Vec<String> = Vec::new();
        let mut o = ShowOpts { entry: ventry, entry_m: vm, entry_z: vz, omit: &[], omit_roster: &[], rerandomize: true };
        let name;
        match how % 6 {
            0 => { name = "own number claimed for another's entry"; o.entry_m = holder.m; }
            1 => { name = "other number claimed"; }
            2 => { name = "weak hash, other's number"; for _ in 0..rng.range(1, 2) { omit.push(rng.pick(&labels).clone()); } }
            3 => { name = "weak hash, own number"; o.entry_m = holder.m; for _ in 0..rng.range(1, 2) { omit.push(rng.pick(&labels).clone()); } }
            4 => { name = "negated entry"; o.entry = -ventry; o.entry_m = -vm; o.entry_z = -vz; }
            _ => { name = "entry solved for"; omit.push("Cm1".into()); }
        }
        o.omit_roster = &omit;
        let mut s = holder.show(&o, rng);
        if how % 6 == 5 {
            // The entry is whatever makes the equation hold if it is not hashed.
            let mut pubs = rf::roster_pubs(&params, &s.shown.p, &s.shown.cm0, &ventry);
            // Only the m0/z0 witnesses of Cm0 are true here, as in `show`; redo with known z0.
            let z0 = rng.scalar();
            let cm0 = s.shown.p * holder.m + params.h * z0;
            pubs.insert("Cm0", cm0);
            let free = rf::EQUAL.eqs.iter().position(|e| e.0 == "Cm1").unwrap();
            let p = rf::EQUAL.forge_free(rf::EQUAL.outer, &mut pubs, free, &[holder.m, z0, rng.scalar()], rng, &omit);
            s.entry = pubs["Cm1"];
            s.shown.cm0 = cm0;
            s.proof = p;
        }
        let b = s.bytes();
        self.ctx.count(&format!("attack.roster: {}", name));
        if how % 6 != 5 {
            // The presentation itself is a genuine one by a holder.
            self.shows.push(ShowRec { bytes: b.clone(), issuer: i, m: holder.m, entry_m: vm + Scalar::one(), entry_params: vec![], entry_c: b[..32].to_vec() });
            self.deliver_presentation(i, &b, name);
        }
        self.deliver_verified(i, &b, name);
    }

    /// An issuance made without the issuer's key, for user `u`.
    fn attack_issuance(&mut self, u: usize, how: u64, rng: &mut Prng) {
        if rng.chance(30) { return self.odd_issuance(u, rng); }
        let is = self.users[u].issuer;
        let key = self.issuers[is].key.clone();
        let m = self.users[u].m;
        let labels = rf::ISSUANCE.labels();
        let mut omit: Vec<String> = Vec::new();
        let (x0, x1, xt) = (rng.scalar(), rng.scalar(), rng.scalar());
        let mut p = rng.point();
        let mut m1x1 = x1 * m;
        let mut w = [x0, x1, xt, m1x1];
        let mut big = key.big;
        let name;
        if how % 9 >= 6 {
            // The recorded finding: what the proof of issuance leaves open.
            if how % 9 == 6 {
                let theirs = self.iss.iter().filter(|r| r.issuer == is && r.m != m).map(|r| r.bytes.clone()).last();
                let mut b = match theirs {
                    Some(b) => b,
                    None => { let other = m + Scalar::one(); let b = key.issue(&other, rng); self.iss.push(IssRec { bytes: b.clone(), issuer: is, m: other }); b }
                };
                b[96..128].copy_from_slice(m.as_bytes());
                self.ctx.count("attack.issuance: another number's, relabelled");
                self.deliver_issuance(u, &b, "relabelled");
            } else {
                let (y0, mx, name) = if how % 9 == 7 { (rng.scalar(), key.x1 * m, "key holder uses another x0") } else { (key.x0, rng.scalar(), "key holder uses a wrong product") };
                let (y0, mx, p, name) = if rng.chance(33) { (key.x0, key.x1 * m, rf::identity(), "key holder uses the identity nonce") } else { (y0, mx, rng.point(), name) };
                let b = rf::issuance_bytes(&key.params, &key.big, &p, &(p * (y0 + mx)), &m, &[y0, key.x1, xt, mx], rng, &[]);
                self.ctx.count(&format!("attack.issuance: {}", name));
                self.deliver_issuance(u, &b, name);
            }
            return;
        }
        match how % 9 {
            0 => { name = "someone else's key"; }
            1 => { name = "identity nonce"; p = rf::identity(); }
            2 => { name = "weak hash"; for _ in 0..rng.range(1, 2) { omit.push(rng.pick(&labels).clone()); } }
            3 => { name = "weak hash of the key"; omit.push("com X1".into()); if rng.chance(50) { omit.push("X1".into()); } }
            4 => { name = "zero key"; w = [Scalar::zero(), Scalar::zero(), xt, Scalar::zero()]; m1x1 = Scalar::zero(); }
            _ => { name = "issued under another key's public part"; big = key.params.h * x1; }
        }
        let q = p * (w[0] + m1x1);
        let b = rf::issuance_bytes(&key.params, &big, &p, &q, &m, &w, rng, &omit);
        self.ctx.count(&format!("attack.issuance: {}", name));
        self.deliver_issuance(u, &b, name);
    }

    // ---------------------------------------------------------------- steps

    pub fn step(&mut self, s: &Step) {
        let mut rng = Prng::new(s.seed ^ 0xabcd);
        let nu = self.users.len();
        let ni = self.issuers.len();
        let (u, i) = (s.a as usize % nu, s.a as usize % ni);
        self.ctx.report.sim_ms += 5 + s.seed % 200;
        match &s.op[..] {
            "request" => {
                let is = self.users[u].issuer;
                let b = self.users[u].phone.clone();
                self.ctx.ev(&[20, u as u64], || format!("user {} asks issuer {}", u, is));
                self.pool.push(Msg { body: Body::Request, user: u, issuer: is, bytes: b, genuine: true });
            }
            "deliver" | "dup" | "misdeliver" => {
                if self.pool.is_empty() { return; }
                // b: 0 oldest, 1 newest, else any.
                let k = match s.b % 4 { 0 => 0, 1 => self.pool.len() - 1, _ => s.a as usize % self.pool.len() };
                if s.b % 4 >= 2 { self.ctx.count("fault.reorder"); }
                let m = self.pool[k].clone();
                if s.op == "deliver" && self.cut(m.user, m.issuer) { self.ctx.count("fault.partitioned"); return; }
                if s.op == "deliver" { self.pool.remove(k); } else { self.ctx.count(if s.op == "dup" { "fault.duplicate" } else { "fault.misdeliver" }); }
                let (user, issuer) = if s.op == "misdeliver" { (s.c as usize % nu, (s.c as usize / 7) % ni) } else { (m.user, m.issuer) };
                self.deliver(&m, user, issuer, s.seed, if s.op == "misdeliver" { "misdelivered" } else if m.genuine { "as sent" } else { "altered" });
            }
            "drop" => {
                if self.pool.is_empty() { return; }
                let k = s.a as usize % self.pool.len();
                self.pool.remove(k);
                self.ctx.count("fault.drop");
                self.ctx.ev(&[21], || format!("message {} is lost", k));
            }
            "tamper" => {
                if self.pool.is_empty() { return; }
                let k = if s.c % 2 == 0 { self.pool.len() - 1 } else { s.a as usize % self.pool.len() };
                if let Some((m, what)) = self.tamper(k, s.b, &mut rng) {
                    self.ctx.count(&format!("fault.tamper: {}", what));
                    let (us, iss) = (m.user, m.issuer);
                    self.deliver(&m, us, iss, s.seed, &what);
                }
            }
            "entry" => { self.make_entry(u, s.seed); }
            "show" => {
                if self.entries.is_empty() { self.make_entry(u, s.seed ^ 1); }
                if self.entries.is_empty() { return; }
                // Mostly its own entry.
                let own: Vec<usize> = (0..self.entries.len()).filter(|e| self.entries[*e].owner == u).collect();
                let e = if s.b % 4 != 0 && !own.is_empty() { own[s.c as usize % own.len()] } else { s.c as usize % self.entries.len() };
                if let Some(b) = self.show(u, e, s.seed) {
                    let issuer = self.users[u].issuer;
                    self.pool.push(Msg { body: Body::Presentation, user: u, issuer, bytes: b, genuine: true });
                }
            }
            "roster" => {
                if self.verified.is_empty() { return; }
                let (i, v) = self.verified[s.a as usize % self.verified.len()].clone();
                let issuer = if s.b % 5 == 0 { s.c as usize % ni } else { i };
                self.deliver_verified(issuer, &v, if issuer == i { "as verified" } else { "another issuer's" });
            }
            "roster-tamper" => {
                if self.verified.is_empty() { return; }
                let (i, mut v) = self.verified[s.a as usize % self.verified.len()].clone();
                let others: Vec<Vec<u8>> = self.shows.iter().map(|r| r.bytes.clone()).filter(|b| *b != v).collect();
                let sp = self.specials(i);
                let what = mutate(&mut v, false, s.b, &mut rng, &others, &sp);
                self.ctx.count(&format!("fault.tamper: {}", what));
                self.deliver_verified(i, &v, &what);
            }
            "open" => {
                if self.entries.is_empty() { return; }
                let e = self.entries[s.a as usize % self.entries.len()].clone();
                let phone = self.users[s.b as usize % nu].phone.clone();
                let pi = s.c as usize % ni;
                let params = self.issuers[pi].params.clone();
                let k = *rng.pick(&sf::kinds());
                if k == Kind::C && phone.is_empty() { return; }
                let want = rf::phone(&phone) == Some(e.m) && params == e.params;
                self.ctx.op();
                let r = sf::entry_open(k, &e.bytes, &phone, &params);
                self.ctx.ev(&[22, r.is_ok() as u64], || format!("entry {} is opened as {:?} via {:?}: {:?}", s.a, phone, k, r));
                if r != Ok(want) { self.ctx.bad(&["C14", "C11"], "opening-wrong", format!("opening an entry as {:?} via {:?} gave {:?}, not {}", phone, k, r, want)); }
            }
            "save" => { let f = *rng.pick(&sf::RUST_KINDS); self.save_user(u, f); }
            "crash-user" => self.crash_user(u),
            "crash-issuer" => self.crash_issuer(i),
            "damage-user" => {
                let (form, mut stored, _) = self.users[u].durable.clone();
                let what = damage(&mut stored, s.b, &mut rng);
                self.ctx.count(&format!("fault.disk-{}", what));
                let iss = self.users[u].issuer;
                let key = self.issuers[iss].key.clone();
                let r = attempt(|| sf::decode::<SignalUser>(form, &stored));
                self.ctx.op();
                self.ctx.ev(&[23, u as u64, r.is_ok() as u64], || format!("user {} is restored from damaged {:?} ({}): {}", u, form, what, outcome(&r)));
                match r {
                    Ok(mut o) => { self.ctx.count("event.damaged-state-loaded"); super::restore::attack_user(self.ctx, &mut o, &key, &mut rng, what); }
                    Err(ref e) if e.is_bad() => self.ctx.bad(&["C07"], "decode-panics", format!("{:?} on {}", e, hex(&stored))),
                    _ => {}
                }
                self.crash_user(u);
            }
            "damage-issuer" => {
                let (form, mut stored) = self.issuers[i].durable.clone();
                let what = damage(&mut stored, s.b, &mut rng);
                self.ctx.count(&format!("fault.disk-{}", what));
                let r = attempt(|| sf::decode::<SignalIssuer>(form, &stored));
                self.ctx.op();
                self.ctx.ev(&[24, i as u64, r.is_ok() as u64], || format!("issuer {} is restored from damaged {:?} ({}): {}", i, form, what, outcome(&r)));
                match r {
                    Ok(o) => {
                        self.ctx.count("event.damaged-state-loaded");
                        let holder = self.users.iter().find(|x| x.issuer == i && x.has_cred()).map(|x| x.bytes.clone());
                        let shows: Vec<Vec<u8>> = self.shows.iter().map(|r| r.bytes.clone()).collect();
                        let key = self.issuers[i].key.clone();
                        super::restore::attack_issuer(self.ctx, &o, &key, holder, &shows, &mut rng, what);
                    }
                    Err(ref e) if e.is_bad() => self.ctx.bad(&["C07"], "decode-panics", format!("{:?} on {}", e, hex(&stored))),
                    _ => {}
                }
                self.crash_issuer(i);
            }
            "partition" => {
                for (k, x) in self.users.iter_mut().enumerate() { x.group = (s.b >> k) & 1; }
                for (k, x) in self.issuers.iter_mut().enumerate() { x.group = (s.c >> k) & 1; }
                self.ctx.count("fault.partition");
            }
            "heal" => self.heal(),
            "fault" => {
                self.fault = match s.a % 5 {
                    0 => Fault::CallerFails(s.b % 4),
                    1 => Fault::SystemFails(s.b % 3),
                    2 => Fault::SystemStuck(s.b as u8),
                    3 => Fault::CallerRepeats,
                    _ => Fault::BothRolledBack,
                };
            }
            "switch" => {
                // The node is restarted with another interface.
                let k = *rng.pick(&sf::kinds());
                self.ctx.count("fault.interface-switch");
                if s.b % 2 == 0 { self.users[u].live = None; self.users[u].node = Node::Surface(k); }
                else { self.issuers[i].live = None; self.issuers[i].node = Node::Surface(k); }
            }
            "attack-presentation" => self.attack_presentation(i, s.c as usize % nu, s.b, &mut rng),
            "attack-roster" => self.attack_roster(self.users[u].issuer, u, s.b, &mut rng),
            "attack-issuance" => self.attack_issuance(u, s.b, &mut rng),
            "no-answer" => {
                // The application gives up on a request and says so.
                if let Node::Surface(Kind::C) | Node::Surface(Kind::Js) | Node::Ref = self.users[u].node { return; }
                self.ctx.op();
                self.ctx.count("fault.no answer");
                let r = self.with_user(u, "obtain_finish(nothing)", None, |o| o.obtain_finish(None).map_err(|e| format!("{:?}", e)));
                self.ctx.ev(&[25, u as u64, r.is_ok() as u64], || format!("user {} gets no answer: {}", u, outcome(&r)));
                match r {
                    Ok(()) => self.ctx.bad(&["C05"], "nothing-obtained", format!("user {} was told it obtained a credential from no issuance at all", u)),
                    Err(ref e) if e.is_bad() => self.ctx.bad(&["C07"], "obtain-panics", format!("{:?} on nothing", e)),
                    _ => {}
                }
            }
            "bad-request" => {
                let n = rng.range(28, 70) as usize;
                let p: Vec<u8> = (0..n).map(|_| rng.below(10) as u8).collect();
                self.ctx.count("fault.request for a number that is too long");
                self.deliver_request(i, u, &p, s.seed);
            }
            "quiesce" => self.quiesce(s.seed),
            _ => {}
        }
        self.state_hash();
    }

    fn cut(&self, u: usize, i: usize) -> bool { self.users[u].group != self.issuers[i].group }
    fn heal(&mut self) {
        for x in self.users.iter_mut() { x.group = 0; }
        for x in self.issuers.iter_mut() { x.group = 0; }
    }

    fn deliver(&mut self, m: &Msg, user: usize, issuer: usize, seed: u64, how: &str) {
        match m.body {
            Body::Request => self.deliver_request(issuer, m.user, &m.bytes, seed),
            Body::Issuance => self.deliver_issuance(user, &m.bytes, how),
            Body::Presentation => {
                if self.deliver_presentation(issuer, &m.bytes, how) && seed % 3 != 0 {
                    let (i, v) = self.verified.last().unwrap().clone();
                    self.deliver_verified(i, &v, "just verified");
                }
            }
        }
    }

    /// Faults stop: every user must now get what it wants in a bounded number of exchanges.
    fn quiesce(&mut self, seed: u64) {
        self.heal();
        self.fault = Fault::None;
        self.pool.clear();
        for u in 0..self.users.len() {
            let is = self.users[u].issuer;
            let phone = self.users[u].phone.clone();
            let before = self.confirmed[u];
            let s = mixes(&[seed, u as u64]);
            self.deliver_request(is, u, &phone, s);
            self.ctx.report.sim_ms += 100;
            match self.pool.pop() { Some(ref m) if m.body == Body::Issuance => self.deliver_issuance(u, &m.bytes.clone(), "after faults stopped"), _ => {} }
            if let Some(e) = self.make_entry(u, mix(s)) {
                if let Some(b) = self.show(u, e, mix(s ^ 3)) {
                    if self.deliver_presentation(is, &b, "after faults stopped") {
                        let (i, v) = self.verified.last().unwrap().clone();
                        self.deliver_verified(i, &v, "after faults stopped");
                    }
                }
            }
            if self.confirmed[u] <= before {
                self.ctx.bad(&["C01"], "no-progress", format!("user {} ({:?}, {} digits) was not confirmed after faults stopped", u, self.users[u].node, phone.len()));
            } else {
                self.ctx.count("event.user-served");
            }
        }
    }

    fn state_hash(&mut self) {
        let mut h = vec![self.fault != Fault::None, false].iter().map(|b| *b as u64).collect::<Vec<_>>();
        for u in &self.users { h.push(u.has_cred() as u64 | u.group << 1 | ((u.durable.2 == u.bytes) as u64) << 2 | (nk(u.node)) << 3); }
        for i in &self.issuers { h.push(i.group | nk(i.node) << 1); }
        for b in &[Body::Request, Body::Issuance, Body::Presentation] { h.push(self.pool.iter().filter(|m| m.body == *b).count().min(4) as u64); }
        h.push(self.entries.len().min(4) as u64);
        h.push(self.verified.len().min(4) as u64);
        for c in &self.confirmed { h.push((*c).min(2)); }
        self.ctx.state(mixes(&h));
    }
}

fn nk(n: Node) -> u64 { match n { Node::Live => 0, Node::Ref => 1, Node::Surface(k) => 2 + k as u64 } }

pub fn outcome<T>(r: &Result<T, Fail>) -> String {
    match r { Ok(_) => "ok".into(), Err(Fail::Rejected(e)) => format!("refused ({})", e), Err(e) => format!("{:?}", e) }
}
pub fn rh(r: &Result<Vec<u8>, Fail>) -> u64 {
    match r { Ok(b) => hash_bytes(b), Err(Fail::Rejected(_)) => 2, Err(Fail::Injected) => 3, Err(_) => 4 }
}

/// The same scalar (or point, with its unused bit set) in 32 bytes which are not its encoding.
pub fn otherwise_written(b: &mut [u8], scalar: bool, rng: &mut Prng) {
    if !scalar { b[31] |= 0x80; return; }
    const L: [u8; 32] = [0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10];
    match rng.below(4) {
        0 => b[31] |= 0x80,
        1 => b[31] |= 0x40,
        _ => for _ in 0..*rng.pick(&[1, 1, 2, 7, 8, 14]) {
            let mut c = 0u16;
            for i in 0..32 { c += b[i] as u16 + L[i] as u16; b[i] = c as u8; c >>= 8; }
        },
    }
}

/// Alter a message; says how.
pub fn mutate(b: &mut Vec<u8>, issuance: bool, how: u64, rng: &mut Prng, others: &[Vec<u8>], specials: &[[u8; 32]]) -> String {
    let (points, scalars): (Vec<usize>, Vec<usize>) = if issuance { (ISS_POINTS.to_vec(), ISS_SCALARS.to_vec()) } else { (PRES_POINTS.to_vec(), PRES_SCALARS.to_vec()) };
    let full = if issuance { 328 } else { 448 };
    if b.len() < full { b.push(0); return "extended".into(); }
    match how % 13 {
        0 => { let i = rng.idx(b.len() * 8); b[i / 8] ^= 1 << (i % 8); "bit flip".into() }
        1 => { let i = rng.idx(b.len()); b[i] = b[i].wrapping_add(1 + rng.below(255) as u8); "byte change".into() }
        2 => { let n = rng.idx(b.len()); b.truncate(n); "truncated".into() }
        3 => { let n = rng.range(1, 40) as usize; let x = rng.bytes(n); b.extend(x); "extended".into() }
        4 | 5 => {
            // A field of another recorded message.
            if others.is_empty() { return mutate(b, issuance, 7, rng, others, specials); }
            let o = rng.pick(others).clone();
            if o.len() < full { return mutate(b, issuance, 7, rng, others, specials); }
            let mut off: Vec<(usize, usize)> = points.iter().map(|p| (*p, 32)).chain(scalars.iter().map(|p| (*p, 32))).collect();
            if issuance { off.extend(&[(0, 128), (32, 96), (32, 64), (128, 200)]); }
            else { off.extend(&[(32, 256), (64, 64), (288, 160), (128, 160), (0, 32), (32, 96), (64, 384)]); }
            let (p, n) = *rng.pick(&off);
            b[p..p + n].copy_from_slice(&o[p..p + n]);
            "spliced".into()
        }
        6 => {
            let v = if rng.chance(50) { &points } else { &scalars };
            let (x, y) = (*rng.pick(v), *rng.pick(v));
            let t = b[x..x + 32].to_vec();
            let q = b[y..y + 32].to_vec();
            b[x..x + 32].copy_from_slice(&q);
            b[y..y + 32].copy_from_slice(&t);
            "fields swapped".into()
        }
        7 => { let p = *rng.pick(&points); b[p..p + 32].copy_from_slice(&specials[rng.idx(specials.len())]); "special point".into() }
        8 => {
            let p = *rng.pick(&points);
            if let Some(x) = pt(&b[p..p + 32]) {
                let y: RistrettoPoint = match rng.below(4) { 0 => -x, 1 => x + x, 2 => x + rng.point(), _ => x + pt(&specials[rng.idx(specials.len())]).unwrap() };
                b[p..p + 32].copy_from_slice(&pb(&y));
            }
            "point arithmetic".into()
        }
        9 => {
            let p = *rng.pick(&scalars);
            let s: Scalar = match rng.below(3) { 0 => Scalar::zero(), 1 => Scalar::one(), _ => -Scalar::one() };
            b[p..p + 32].copy_from_slice(s.as_bytes());
            "special scalar".into()
        }
        10 => {
            let p = *rng.pick(&scalars);
            if let Some(x) = sc(&b[p..p + 32]) {
                let y = match rng.below(4) { 0 => -x, 1 => x + Scalar::one(), 2 => x - Scalar::one(), _ => rng.scalar() };
                b[p..p + 32].copy_from_slice(y.as_bytes());
            }
            "scalar arithmetic".into()
        }
        11 => {
            // The same values in another writing, which is not the documented one.
            let v = if rng.chance(80) { &scalars } else { &points };
            let p = *rng.pick(v);
            otherwise_written(&mut b[p..p + 32], scalars.contains(&p), rng);
            "otherwise written".into()
        }
        _ => {
            // Several at once, consistently scaled: P, Q (or CQ, P, Cm0) by one factor.
            let k = rng.scalar();
            let ps: &[usize] = if issuance { &[32, 64] } else { &[32, 64, 96] };
            for p in ps { if let Some(x) = pt(&b[*p..*p + 32]) { b[*p..*p + 32].copy_from_slice(&pb(&(x * k))); } }
            "rescaled".into()
        }
    }
}

/// What a bad disk does to stored bytes.
pub fn damage(b: &mut Vec<u8>, how: u64, rng: &mut Prng) -> &'static str {
    if b.is_empty() { return "nothing"; }
    let n = b.len();
    match how % 7 {
        0 => { let k = rng.idx(n); b.truncate(k); "truncated" }
        1 => { let k = rng.idx(n); for x in &mut b[k..] { *x = 0; } "zero-tail" }
        2 => {
            // One sector-like field of zeros.
            let w = *rng.pick(&[32usize, 64, 96]);
            let k = rng.idx(n / 32 + 1) * 32;
            for i in k..(k + w).min(n) { b[i] = 0; }
            "zero-block"
        }
        3 => { let i = rng.idx(n * 8); b[i / 8] ^= 1 << (i % 8); "bit-flip" }
        4 => {
            // A block ended up where another belongs.
            let (x, y) = (rng.idx(n / 32 + 1) * 32, rng.idx(n / 32 + 1) * 32);
            if x + 32 <= n && y + 32 <= n { let t = b[x..x + 32].to_vec(); b[y..y + 32].copy_from_slice(&t); }
            "misplaced-block"
        }
        5 => { for x in b.iter_mut() { *x = 0; } "all-zero" }
        _ => { let k = rng.idx(n); let r = rng.bytes(n - k); b[k..].copy_from_slice(&r); "torn" }
    }
}

// ------------------------------------------------------------------ generation

pub fn generate(profile: &str, seed: u64, thorough: bool) -> Vec<Step> {
    let mut r = Prng::new(seed);
    // Swarm: each run has its own mix.
    let ops: &[(&str, u64)] = match profile {
        "net" => &[("request", 20), ("deliver", 45), ("dup", 6), ("drop", 6), ("entry", 6), ("show", 18), ("roster", 10), ("save", 8), ("crash-user", 6),
                   ("crash-issuer", 5), ("partition", 3), ("heal", 4), ("fault", 6), ("switch", 3), ("misdeliver", 2), ("no-answer", 2)],
        "present" => &[("request", 10), ("deliver", 30), ("dup", 6), ("misdeliver", 8), ("tamper", 45), ("entry", 4), ("show", 20), ("attack-presentation", 30), ("crash-issuer", 2), ("fault", 3)],
        "roster" => &[("request", 10), ("deliver", 30), ("dup", 4), ("misdeliver", 4), ("tamper", 10), ("entry", 8), ("show", 20), ("roster", 14), ("roster-tamper", 40), ("attack-roster", 30), ("open", 6)],
        "issuance" => &[("request", 25), ("deliver", 30), ("dup", 8), ("misdeliver", 15), ("tamper", 45), ("attack-issuance", 30), ("crash-user", 3), ("save", 3), ("show", 3), ("fault", 2)],
        "aborts" => &[("request", 20), ("deliver", 40), ("fault", 40), ("show", 25), ("tamper", 20), ("misdeliver", 8), ("entry", 4), ("save", 4), ("crash-user", 3), ("attack-issuance", 6), ("roster", 4), ("no-answer", 12), ("bad-request", 4), ("roster-tamper", 6), ("crash-issuer", 2)],
        "durable" => &[("request", 15), ("deliver", 35), ("show", 15), ("save", 14), ("crash-user", 12), ("crash-issuer", 10), ("damage-user", 25), ("damage-issuer", 25), ("entry", 4), ("switch", 3)],
        "interop" => &[("request", 20), ("deliver", 40), ("dup", 5), ("show", 20), ("entry", 8), ("roster", 10), ("switch", 10), ("tamper", 15), ("roster-tamper", 8), ("open", 8), ("save", 4), ("crash-user", 4), ("crash-issuer", 4), ("misdeliver", 4)],
        _ /* similar */ => &[("request", 25), ("deliver", 40), ("misdeliver", 25), ("tamper", 15), ("entry", 12), ("show", 25), ("open", 25), ("roster", 10), ("attack-roster", 10), ("dup", 4)],
    };
    let ws: Vec<u64> = ops.iter().map(|(o, w)| {
        let keep = *o == "deliver" || *o == "request" || *o == "show";
        if !keep && r.chance(15) { 0 } else { 1 + w * r.range(50, 150) / 100 }
    }).collect();
    let n = if r.chance(2) { r.range(250, 500) } else if thorough { r.range(40, 160) } else { r.range(25, 70) };
    let mut v: Vec<Step> = Vec::new();
    // Most runs start with something to work on.
    if r.chance(80) {
        for u in 0..4 {
            v.push(Step::new("request", u, 0, 0, r.u64()));
            v.push(Step::new("deliver", 0, 0, 0, r.u64()));
            v.push(Step::new("deliver", 0, 0, 0, r.u64()));
            v.push(Step::new("entry", u, 0, 0, r.u64()));
        }
    }
    for _ in 0..n {
        let o = ops[r.weighted(&ws)].0;
        v.push(Step::new(o, r.below(64), r.below(64), r.below(256), r.u64()));
        // Faults belong right before an operation that draws entropy.
        if o == "fault" {
            let o = *r.pick(&["show", "request"]);
            v.push(Step::new(o, r.below(64), 1, r.below(256), r.u64()));
            if o == "request" { v.push(Step::new("deliver", 0, 1, 0, r.u64())); }
        }
    }
    v.push(Step::new("quiesce", 0, 0, 0, r.u64()));
    v
}

pub fn execute(run: &Run, ctx: &mut Ctx) {
    let mut w = World::new(ctx, run.seed, &run.profile);
    for (k, s) in run.steps.iter().enumerate() {
        w.ctx.step = k;
        w.step(s);
    }
}
