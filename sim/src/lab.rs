//! Honest parties made with the library, for engines that need some.
use crate::entropy::*;
use crate::guard::*;
use crate::refimpl::{self as rf, Key, Params};
use crate::util::*;
use aeonflux::elgamal;
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
use signal_credential::credential::{SignalCredentialIssuance, SignalCredentialPresentation};
use signal_credential::issuer::{IssuerParameters, SignalIssuer};
use signal_credential::parameters::SystemParameters;
use signal_credential::phone_number::RosterEntryCommitment;
use signal_credential::user::SignalUser;

pub fn dbg<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> { r.map_err(|e| format!("{:?}", e)) }
pub fn sim(seed: u64) -> SimRng { SimRng(Source::healthy(seed)) }

pub fn random_phone(rng: &mut Prng) -> Vec<u8> {
    let n = match rng.below(10) { 0 => 0, 1 => 1, 2 => 27, 3 => 26, 4 => 11, _ => rng.below(28) };
    (0..n).map(|_| rng.below(10) as u8).collect()
}

pub fn random_params(rng: &mut Prng) -> Params { Params { g: RISTRETTO_BASEPOINT_POINT, h: rng.point() } }
pub fn random_key(rng: &mut Prng) -> Key {
    let p = random_params(rng);
    let (x0, x1) = (rng.scalar(), rng.scalar());
    Key::from_secrets(p, x0, x1)
}

pub struct Lab { pub key: Key, pub issuer: SignalIssuer }

impl Lab {
    pub fn new(rng: &mut Prng) -> Result<Lab, Fail> { Lab::with(random_key(rng)) }
    pub fn with(key: Key) -> Result<Lab, Fail> {
        let b = key.bytes();
        let issuer = attempt(|| SignalIssuer::from_bytes(&b))?;
        Ok(Lab { key, issuer })
    }
    pub fn params(&self) -> SystemParameters { self.issuer.issuer.system_parameters }
    pub fn iparams(&self) -> IssuerParameters { self.issuer.get_issuer_parameters() }
    pub fn user(&self, phone: &[u8], kp: Option<elgamal::Keypair>) -> Result<SignalUser, Fail> {
        attempt(|| SignalUser::new(self.params(), self.iparams(), kp, phone))
    }
    /// Caller and system entropy are set by the caller of this.
    pub fn issue(&self, phone: &[u8], caller: Source, sys: Source) -> Result<SignalCredentialIssuance, Fail> {
        set_system(sys);
        attempt(|| self.issuer.issue(phone, &mut SimRng(caller)))
    }
    pub fn holder(&self, phone: &[u8], seed: u64) -> Result<SignalUser, Fail> {
        let mut u = self.user(phone, None)?;
        let i = self.issue(phone, Source::healthy(mixes(&[seed, 1])), Source::healthy(mixes(&[seed, 2])))?;
        attempt(|| u.obtain_finish(Some(&i)))?;
        Ok(u)
    }
    pub fn entry(&self, phone: &[u8], seed: u64) -> Result<RosterEntryCommitment, Fail> {
        let p = self.params();
        attempt(|| RosterEntryCommitment::create(phone, &p, &mut sim(seed)))
    }
    pub fn show(&self, u: &SignalUser, e: &RosterEntryCommitment, caller: Source, sys: Source) -> Result<SignalCredentialPresentation, Fail> {
        set_system(sys);
        attempt(|| u.show(&mut SimRng(caller), e))
    }
    pub fn show_seeded(&self, u: &SignalUser, e: &RosterEntryCommitment, seed: u64) -> Result<SignalCredentialPresentation, Fail> {
        self.show(u, e, Source::healthy(mixes(&[seed, 3])), Source::healthy(mixes(&[seed, 4])))
    }
    /// Does honest service work (used after abuse)?
    pub fn serves(&self, seed: u64) -> Result<(), String> {
        let mut rng = Prng::new(seed);
        let phone = random_phone(&mut rng);
        let r = || -> Result<(), Fail> {
            let u = self.holder(&phone, seed)?;
            let e = self.entry(&phone, seed)?;
            let p = self.show_seeded(&u, &e, seed)?;
            let v = attempt(|| self.issuer.verify(p))?;
            attempt(|| self.issuer.verify_roster_membership(&v))?;
            Ok(())
        };
        r().map_err(|e| format!("{:?}", e))
    }
}

pub fn m_of(phone: &[u8]) -> curve25519_dalek::scalar::Scalar { rf::phone(phone).unwrap() }
