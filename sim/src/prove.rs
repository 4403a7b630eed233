//! The library's five zero-knowledge proofs, behind one interface.
use crate::guard::*;
use crate::refimpl::{Pub, Rel};
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use merlin::Transcript;

macro_rules! proof_api {
    ($m:ident, [$($p:ident),*], [$($w:ident = $i:expr),*]) => {
        pub mod $m {
            use super::*;
            pub fn create(outer: &'static [u8], pubs: &Pub, w: &[Scalar]) -> Result<Vec<u8>, Fail> {
                attempt(|| {
                    $( #[allow(non_snake_case)] let $p: RistrettoPoint = pubs[stringify!($p)]; )*
                    let mut t = Transcript::new(outer);
                    let p = aeonflux::proofs::$m::Proof::create(&mut t,
                        aeonflux::proofs::$m::Publics { $( $p: &$p ),* },
                        aeonflux::proofs::$m::Secrets { $( $w: &w[$i] ),* });
                    bincode::serialize(&p).map_err(|e| format!("{:?}", e))
                })
            }
            pub fn verify(outer: &'static [u8], pubs: &Pub, proof: &[u8]) -> Result<(), Fail> {
                attempt(|| {
                    $( #[allow(non_snake_case)] let $p: RistrettoPoint = pubs[stringify!($p)]; )*
                    let p: aeonflux::proofs::$m::Proof = bincode::deserialize(proof).map_err(|e| format!("{:?}", e))?;
                    let mut t = Transcript::new(outer);
                    p.verify(&mut t, aeonflux::proofs::$m::Publics { $( $p: &$p ),* }).map_err(|_| "proof refused".to_string())
                })
            }
        }
    }
}

proof_api!(issuance_revealed, [P, Q, Cx0, B, A, X1], [x0 = 0, x1 = 1, x0_tilde = 2, m1x1 = 3]);
proof_api!(valid_credential, [B, A, X0, P, V, Cm0], [m0 = 0, z0 = 1, minus_zQ = 2]);
proof_api!(committed_values_equal, [B, A, P, Cm0, Cm1], [m0 = 0, z0 = 1, z1 = 2]);
proof_api!(attributes_blinded, [B, A, D, encrypted_attribute_0_0, encrypted_attribute_0_1], [d = 0, e0 = 1, m0 = 2, nonce = 3]);
proof_api!(issuance_blinded,
           [B, A, X0, X1, D, P, T0_0, T0_1, EQ_commitment, EQ_encryption, encrypted_attribute_0_0, encrypted_attribute_0_1],
           [x0_tilde = 0, x0 = 1, x1 = 2, s = 3, b = 4, t0 = 5]);

pub fn create(rel: &Rel, outer: &'static [u8], pubs: &Pub, w: &[Scalar]) -> Result<Vec<u8>, Fail> {
    match rel.name {
        "issuance_revealed" => issuance_revealed::create(outer, pubs, w),
        "valid_credential" => valid_credential::create(outer, pubs, w),
        "committed_values_equal" => committed_values_equal::create(outer, pubs, w),
        "attributes_blinded" => attributes_blinded::create(outer, pubs, w),
        _ => issuance_blinded::create(outer, pubs, w),
    }
}
pub fn verify(rel: &Rel, outer: &'static [u8], pubs: &Pub, proof: &[u8]) -> Result<(), Fail> {
    match rel.name {
        "issuance_revealed" => issuance_revealed::verify(outer, pubs, proof),
        "valid_credential" => valid_credential::verify(outer, pubs, proof),
        "committed_values_equal" => committed_values_equal::verify(outer, pubs, proof),
        "attributes_blinded" => attributes_blinded::verify(outer, pubs, proof),
        _ => issuance_blinded::verify(outer, pubs, proof),
    }
}
