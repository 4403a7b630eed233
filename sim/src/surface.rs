//! The interfaces of the system, all reduced to raw bytes in and out.
use crate::entropy::{SimRng, Source};
use crate::guard::{attempt, guarded, Fail};
use aeonflux::amacs;
use serde::{de::DeserializeOwned, Serialize};
use signal_credential::credential::{SignalCredentialIssuance, SignalCredentialPresentation, VerifiedSignalCredential};
use signal_credential::issuer::{IssuerParameters, SignalIssuer};
use signal_credential::parameters::SystemParameters;
use signal_credential::phone_number::{CommittedPhoneNumber, RosterEntryCommitment};
use signal_credential::user::SignalUser;

pub type Out = Result<Vec<u8>, Fail>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind { Raw, Bincode, Json, C, Js }

pub const RUST_KINDS: [Kind; 3] = [Kind::Raw, Kind::Bincode, Kind::Json];

pub fn kinds() -> Vec<Kind> {
    let mut v = RUST_KINDS.to_vec();
    if cfg!(feature = "c") { v.push(Kind::C); }
    if cfg!(feature = "js") { v.push(Kind::Js); }
    v
}

/// A type that travels or is stored.
pub trait Wire: Serialize + DeserializeOwned {
    const NAME: &'static str;
    fn tb(&self) -> Vec<u8>;
    fn fb(b: &[u8]) -> Result<Self, String>;
}

macro_rules! wire {
    ($($t:ty),*) => { $( impl Wire for $t {
        const NAME: &'static str = stringify!($t);
        fn tb(&self) -> Vec<u8> { self.to_bytes() }
        fn fb(b: &[u8]) -> Result<Self, String> { <$t>::from_bytes(b).map_err(|e| format!("{:?}", e)) }
    } )* }
}
wire!(SystemParameters, amacs::Keypair, amacs::PublicKey, amacs::SecretKey, amacs::Tag, SignalIssuer,
      aeonflux::issuer::Issuer, aeonflux::user::User, SignalUser,
      aeonflux::credential::Credential, aeonflux::credential::CredentialRequest, SignalCredentialIssuance,
      aeonflux::credential::CredentialPresentation, aeonflux::credential::VerifiedCredential,
      SignalCredentialPresentation, VerifiedSignalCredential,
      signal_credential::phone_number::PhoneNumber, CommittedPhoneNumber, RosterEntryCommitment,
      aeonflux::pedersen::Commitment,
      aeonflux::elgamal::PublicKey, aeonflux::elgamal::SecretKey, aeonflux::elgamal::Keypair);

/// Encode as this kind's caller would store or send it.
pub fn encode<T: Wire>(k: Kind, t: &T) -> Result<Vec<u8>, String> {
    match k {
        Kind::Raw | Kind::C => Ok(t.tb()),
        Kind::Bincode => bincode::serialize(t).map_err(|e| format!("{:?}", e)),
        Kind::Json | Kind::Js => serde_json::to_vec(t).map_err(|e| format!("{:?}", e)),
    }
}
pub fn decode<T: Wire>(k: Kind, b: &[u8]) -> Result<T, String> {
    match k {
        Kind::Raw | Kind::C => T::fb(b),
        Kind::Bincode => bincode::deserialize(b).map_err(|e| format!("{:?}", e)),
        Kind::Json | Kind::Js => serde_json::from_slice(b).map_err(|e| format!("{:?}", e)),
    }
}

/// Raw bytes as seen by a decoder of kind `k`, for bytes that need not decode.
pub fn raw_to_kind(k: Kind, raw: &[u8]) -> Vec<u8> {
    match k {
        Kind::Raw | Kind::C => raw.to_vec(),
        Kind::Bincode => {
            let mut v = (raw.len() as u64).to_le_bytes().to_vec();
            v.extend(raw);
            v
        }
        Kind::Json | Kind::Js => serde_json::to_vec(raw).unwrap(),
    }
}

/// Bring raw bytes into an object the way this kind of node does.
pub fn load<T: Wire>(k: Kind, raw: &[u8]) -> Result<T, String> {
    match k {
        Kind::Raw | Kind::C => T::fb(raw),
        // If the bytes are good, go through the encoding the library itself produces.
        _ => match T::fb(raw) {
            Ok(t) => decode(k, &encode(k, &t)?),
            Err(_) => decode(k, &raw_to_kind(k, raw)),
        },
    }
}

fn rust<T, F: FnOnce() -> Result<T, String>>(f: F) -> Result<T, Fail> {
    attempt(f).map_err(|e| e)
}
fn dbg<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> { r.map_err(|e| format!("{:?}", e)) }

// ------------------------------------------------------------------ C

#[cfg(feature = "c")]
pub mod c {
    use super::{Fail, Out};
    pub use credential_c::c::*;

    pub fn take(b: buf_t) -> Out {
        if b.len == 0 && b.ptr.is_null() {
            return Err(Fail::Rejected("C error".into()));
        }
        if b.ptr.is_null() || b.len == 0 || b.len > 1 << 20 {
            return Err(Fail::Panic(format!("C call returned length {} with {}null pointer", b.len,
                                           if b.ptr.is_null() { "" } else { "non-" })));
        }
        let v = unsafe { std::slice::from_raw_parts(b.ptr, b.len as usize) }.to_vec();
        crate::heap::release_if_tracked(b.ptr as *mut u8);
        Ok(v)
    }
    pub fn p(b: &[u8]) -> (*const u8, u64) { (b.as_ptr(), b.len() as u64) }
}

// ------------------------------------------------------------------ JS

#[cfg(feature = "js")]
pub mod js {
    use super::{Fail, Out, Wire};
    pub use credential_js::js::*;
    pub use wasm_bindgen::JsValue;

    pub fn value<T: Wire>(raw: &[u8]) -> JsValue {
        let j = match T::fb(raw) {
            Ok(t) => serde_json::to_string(&t).unwrap_or_else(|_| "null".into()),
            Err(_) => serde_json::to_string(raw).unwrap(),
        };
        JsValue::from_json(j)
    }
    pub fn take<T: Wire>(v: JsValue) -> Out {
        if v.as_json() == "0" || v.as_json() == "false" {
            return Err(Fail::Rejected("JS error".into()));
        }
        match serde_json::from_str::<T>(v.as_json()) {
            Ok(t) => Ok(t.tb()),
            Err(e) => Err(Fail::Panic(format!("JS result is not a {}: {}", T::NAME, e))),
        }
    }
}

#[cfg(feature = "js")]
macro_rules! js_or { ($e:expr) => { guarded(|| $e).and_then(|x| x) } }
#[cfg(not(feature = "js"))]
macro_rules! js_or { ($e:expr) => { Err(Fail::Rejected("no JS".into())) } }
#[cfg(feature = "c")]
macro_rules! c_or { ($e:expr) => { guarded(|| $e).and_then(|x| x) } }
#[cfg(not(feature = "c"))]
macro_rules! c_or { ($e:expr) => { Err(Fail::Rejected("no C".into())) } }

// ------------------------------------------------------------------ operations on bytes

pub fn params_create(k: Kind, seed: &[u8; 32]) -> Out {
    match k {
        Kind::C => c_or!(c::take(c::system_parameters_create(seed.as_ptr()))),
        Kind::Js => js_or!(js::take::<SystemParameters>(js::system_parameters_create(seed))),
        _ => rust(|| Ok(SystemParameters::hunt_and_peck(&mut SimRng(Source::seeded(*seed))).to_bytes())),
    }
}

pub fn issuer_create(k: Kind, params: &[u8], seed: &[u8; 32]) -> Out {
    match k {
        Kind::C => c_or!({ let (a, b) = c::p(params); c::take(c::issuer_create(a, b, seed.as_ptr())) }),
        Kind::Js => js_or!(js::take::<amacs::Keypair>(js::issuer_create(js::value::<SystemParameters>(params), seed))),
        _ => rust(|| {
            let p: SystemParameters = load(k, params)?;
            Ok(SignalIssuer::create(p, &mut SimRng(Source::seeded(*seed))).issuer.keypair.to_bytes())
        }),
    }
}

pub fn issuer_new(k: Kind, params: &[u8], keypair: &[u8]) -> Out {
    match k {
        Kind::C => c_or!({ let (a, b) = c::p(params); let (x, y) = c::p(keypair); c::take(c::issuer_new(a, b, x, y)) }),
        Kind::Js => js_or!(js::take::<SignalIssuer>(js::issuer_new(js::value::<SystemParameters>(params), js::value::<amacs::Keypair>(keypair)))),
        _ => rust(|| {
            let p: SystemParameters = load(k, params)?;
            let kp: amacs::Keypair = load(k, keypair)?;
            Ok(SignalIssuer::new(p, kp).to_bytes())
        }),
    }
}

pub fn issuer_params(k: Kind, issuer: &[u8]) -> Out {
    match k {
        Kind::C => c_or!({ let (a, b) = c::p(issuer); c::take(c::issuer_get_issuer_parameters(a, b)) }),
        Kind::Js => js_or!(js::take::<IssuerParameters>(js::issuer_get_issuer_parameters(js::value::<SignalIssuer>(issuer)))),
        _ => rust(|| { let i: SignalIssuer = load(k, issuer)?; Ok(i.get_issuer_parameters().to_bytes()) }),
    }
}

pub fn issue(k: Kind, issuer: &[u8], phone: &[u8], seed: &[u8; 32]) -> Out {
    match k {
        Kind::C => c_or!({ let (a, b) = c::p(issuer); let (x, y) = c::p(phone); c::take(c::issuer_issue(a, b, x, y, seed.as_ptr())) }),
        Kind::Js => js_or!(js::take::<SignalCredentialIssuance>(js::issuer_issue(js::value::<SignalIssuer>(issuer), phone, seed))),
        _ => rust(|| {
            let i: SignalIssuer = load(k, issuer)?;
            Ok(dbg(i.issue(phone, &mut SimRng(Source::seeded(*seed))))?.to_bytes())
        }),
    }
}

pub fn verify(k: Kind, issuer: &[u8], pres: &[u8]) -> Out {
    match k {
        Kind::C => c_or!({ let (a, b) = c::p(issuer); let (x, y) = c::p(pres); c::take(c::issuer_verify(a, b, x, y)) }),
        Kind::Js => js_or!(js::take::<VerifiedSignalCredential>(js::issuer_verify(js::value::<SignalIssuer>(issuer), js::value::<SignalCredentialPresentation>(pres)))),
        _ => rust(|| {
            let i: SignalIssuer = load(k, issuer)?;
            let p: SignalCredentialPresentation = load(k, pres)?;
            Ok(dbg(i.verify(p))?.to_bytes())
        }),
    }
}

pub fn roster(k: Kind, issuer: &[u8], verified: &[u8]) -> Out {
    match k {
        Kind::C => c_or!({ let (a, b) = c::p(issuer); let (x, y) = c::p(verified); c::take(c::issuer_verify_roster_membership(a, b, x, y)) }),
        Kind::Js => js_or!(js::take::<CommittedPhoneNumber>(js::issuer_verify_roster_membership(js::value::<SignalIssuer>(issuer), js::value::<VerifiedSignalCredential>(verified)))),
        _ => rust(|| {
            let i: SignalIssuer = load(k, issuer)?;
            let v: VerifiedSignalCredential = load(k, verified)?;
            Ok(dbg(i.verify_roster_membership(&v))?.to_bytes())
        }),
    }
}

/// A new user from an issuance: the 288 bytes of a `SignalUser` holding the credential.
pub fn obtain(k: Kind, phone: &[u8], params: &[u8], iparams: &[u8], issuance: &[u8]) -> Out {
    match k {
        Kind::C => c_or!({
            let (a, b) = c::p(phone); let (e, f) = c::p(params); let (g, h) = c::p(iparams); let (x, y) = c::p(issuance);
            c::take(c::user_obtain_finish(a, b, e, f, g, h, x, y))
        }),
        Kind::Js => js_or!(js::take::<SignalUser>(js::user_obtain_finish(phone, js::value::<SystemParameters>(params),
                js::value::<IssuerParameters>(iparams), js::value::<SignalCredentialIssuance>(issuance)))),
        _ => rust(|| {
            let p: SystemParameters = load(k, params)?;
            let ip: IssuerParameters = load(k, iparams)?;
            let mut u = dbg(SignalUser::new(p, ip, None, phone))?;
            let i: SignalCredentialIssuance = load(k, issuance)?;
            dbg(u.obtain_finish(Some(&i)))?;
            Ok(u.to_bytes())
        }),
    }
}

pub fn show(k: Kind, user: &[u8], entry: &[u8], seed: &[u8; 32]) -> Out {
    match k {
        Kind::C => c_or!({ let (a, b) = c::p(user); let (x, y) = c::p(entry); c::take(c::user_show(a, b, x, y, seed.as_ptr())) }),
        Kind::Js => js_or!(js::take::<SignalCredentialPresentation>(js::user_show(js::value::<SignalUser>(user), js::value::<RosterEntryCommitment>(entry), seed))),
        _ => rust(|| {
            let u: SignalUser = load(k, user)?;
            let e: RosterEntryCommitment = load(k, entry)?;
            Ok(dbg(u.show(&mut SimRng(Source::seeded(*seed)), &e))?.to_bytes())
        }),
    }
}

pub fn entry_create(k: Kind, phone: &[u8], params: &[u8], seed: &[u8; 32]) -> Out {
    match k {
        Kind::C => c_or!({ let (a, b) = c::p(phone); let (x, y) = c::p(params); c::take(c::roster_entry_commitment_create(a, b, x, y, seed.as_ptr())) }),
        // The JavaScript interface has no such call: its users' entries are made by Rust.
        _ => rust(|| {
            let p: SystemParameters = load(k, params)?;
            Ok(dbg(RosterEntryCommitment::create(phone, &p, &mut SimRng(Source::seeded(*seed))))?.to_bytes())
        }),
    }
}

pub fn entry_open(k: Kind, entry: &[u8], phone: &[u8], params: &[u8]) -> Result<bool, Fail> {
    match k {
        Kind::C => {
            #[cfg(feature = "c")]
            {
                let (a, b) = c::p(entry); let (e, f) = c::p(phone); let (x, y) = c::p(params);
                let r = guarded(|| c::roster_entry_commitment_open(a, b, e, f, x, y))?;
                Ok(r.len != 0)
            }
            #[cfg(not(feature = "c"))]
            Err(Fail::Rejected("no C".into()))
        }
        _ => rust(|| {
            let p: SystemParameters = load(k, params)?;
            let e: RosterEntryCommitment = load(k, entry)?;
            Ok(e.open(phone, &p).is_ok())
        }),
    }
}

pub fn entry_remove_opening(k: Kind, entry: &[u8]) -> Out {
    match k {
        Kind::C => c_or!({ let (a, b) = c::p(entry); c::take(c::roster_entry_commitment_remove_opening(a, b)) }),
        _ => rust(|| { let e: RosterEntryCommitment = load(k, entry)?; Ok(e.commitment.to_bytes()) }),
    }
}
