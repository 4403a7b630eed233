//! Values of the code's own types from their parts, without naming all of a type's fields
//! (it may keep more in them than what they are about).
use crate::entropy::*;
use crate::util::*;
use aeonflux::{amacs, credential as ac, elgamal};
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as G;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use signal_credential::phone_number::RosterEntryCommitment;

fn fixed() -> SimRng { SimRng(Source::healthy(7)) }

pub fn tag(nonce: RistrettoPoint, mac: RistrettoPoint) -> amacs::Tag {
    let mut b = pb(&G).to_vec();
    b.extend_from_slice(&pb(&(G + G)));
    let mut t = amacs::Tag::from_bytes(&b).unwrap_or_else(|_| amacs::SecretKey::new(0, &mut fixed()).mac(&amacs::Message(vec![]), &mut fixed()).expect("a tag"));
    t.nonce = nonce;
    t.mac = mac;
    t
}

pub fn keypair(public: amacs::PublicKey, secret: amacs::SecretKey) -> amacs::Keypair {
    let mut k = amacs::Keypair::new(&G, &mut fixed());
    k.public = public;
    k.secret = secret;
    k
}

pub fn encryption(commitment: RistrettoPoint, encryption: RistrettoPoint) -> elgamal::Encryption {
    let mut e = elgamal::Keypair::generate(&mut fixed()).encrypt(&elgamal::Message::from(&Scalar::one()), &Scalar::one().into());
    e.commitment = commitment;
    e.encryption = encryption;
    e
}

pub fn request(attributes: Vec<Scalar>) -> ac::CredentialRequest {
    let mut q = ac::CredentialRequest::from_bytes(&[0; 32]).expect("a request");
    q.attributes_revealed = attributes;
    q
}

pub fn credential(mac: amacs::Tag, attributes: Vec<Scalar>) -> ac::Credential {
    let mut b = tag(G, G + G).to_bytes();
    b.extend_from_slice(Scalar::one().as_bytes());
    let mut c = ac::Credential::from_bytes(&b).expect("a credential");
    c.mac = mac;
    c.attributes = attributes;
    c
}

pub fn entry(commitment: RistrettoPoint, opening: Scalar) -> RosterEntryCommitment {
    let mut b = pb(&commitment).to_vec();
    b.extend_from_slice(opening.as_bytes());
    RosterEntryCommitment::from_bytes(&b).expect("an entry")
}
