//! What a Rust program compiles of the library's generic functions for its own
//! generator, in a crate of its own so that it is instrumented like the rest.
extern crate aeonflux;
extern crate rand_core;
extern crate signal_credential;

use aeonflux::issuer::IssuerParameters;
use rand_core::{CryptoRng, Error, RngCore};
use signal_credential::credential::*;
use signal_credential::issuer::SignalIssuer;
use signal_credential::parameters::SystemParameters;
use signal_credential::phone_number::RosterEntryCommitment;
use signal_credential::user::SignalUser;
use std::fmt::Debug;

pub struct Any<'a>(pub &'a mut RngCore);

impl<'a> RngCore for Any<'a> {
    fn next_u32(&mut self) -> u32 { self.0.next_u32() }
    fn next_u64(&mut self) -> u64 { self.0.next_u64() }
    fn fill_bytes(&mut self, d: &mut [u8]) { self.0.fill_bytes(d) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { self.0.try_fill_bytes(d) }
}
impl<'a> CryptoRng for Any<'a> {}

fn text<E: Debug>(e: E) -> String { format!("{:?}", e) }

pub fn parameters(r: &mut RngCore) -> SystemParameters { SystemParameters::hunt_and_peck(&mut Any(r)) }
pub fn issuer(p: SystemParameters, r: &mut RngCore) -> (SignalIssuer, IssuerParameters) {
    let i = SignalIssuer::create(p, &mut Any(r));
    let p = i.get_issuer_parameters();
    (i, p)
}
pub fn issue(i: &SignalIssuer, phone: &[u8], r: &mut RngCore) -> Result<SignalCredentialIssuance, String> {
    i.issue(phone, &mut Any(r)).map_err(text)
}
pub fn show(u: &SignalUser, e: &RosterEntryCommitment, r: &mut RngCore) -> Result<SignalCredentialPresentation, String> {
    u.show(&mut Any(r), e).map_err(text)
}
pub fn entry(phone: &[u8], p: &SystemParameters, r: &mut RngCore) -> Result<RosterEntryCommitment, String> {
    RosterEntryCommitment::create(phone, p, &mut Any(r)).map_err(text)
}
