From e83370fb1d50ba6f39a40977304fcd6df732bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:29 +0000
Subject: [PATCH 01/16] fix: make aeonflux's user module compile

blind_request() named CredentialBlindRequest without importing it and assigned
a bare elgamal::Keypair to an Option, so neither aeonflux nor any crate built
on top of it (signal-credential, ffi, wasm) could be compiled.
---
 aeonflux/src/user.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeonflux/src/user.rs b/aeonflux/src/user.rs
index 4cd8647..4ea9b6e 100644
--- a/aeonflux/src/user.rs
+++ b/aeonflux/src/user.rs
@@ -28,6 +28,7 @@ use serde::de::Visitor;
 
 use amacs;
 use credential::Credential;
+use credential::CredentialBlindRequest;
 use credential::CredentialIssuance;
 use credential::CredentialPresentation;
 use credential::CredentialRequest;
@@ -260,7 +261,7 @@ impl User {
         C: CryptoRng + RngCore,
     {
         if self.key.is_none() {
-            self.key = elgamal::Keypair::generate::<C>(&mut csprng);
+            self.key = Some(elgamal::Keypair::generate(csprng));
         }
 
         unimplemented!();
-- 
2.43.0


From bd49cb5ba3ca5647a68485884f474d4dbffe4242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:29 +0000
Subject: [PATCH 02/16] fix: reject presentations whose MAC nonce is the
 identity

Issuer::verify() accepted a presentation with an identity rerandomised nonce.
The MAC over any message is then the identity too, so anyone could produce a
valid presentation (and a valid roster membership proof, for any phone number)
without having been issued a credential.
---
 aeonflux/src/issuer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aeonflux/src/issuer.rs b/aeonflux/src/issuer.rs
index 95b9af9..e360024 100644
--- a/aeonflux/src/issuer.rs
+++ b/aeonflux/src/issuer.rs
@@ -18,6 +18,7 @@ pub use amacs::SecretKey as IssuerSecretKey;
 
 use curve25519_dalek::ristretto::RistrettoPoint;
 use curve25519_dalek::scalar::Scalar;
+use curve25519_dalek::traits::IsIdentity;
 
 use merlin::Transcript;
 
@@ -199,6 +200,13 @@ impl Issuer {
     {
         let P = presentation.rerandomized_nonce;
 
+        // The MAC on any message w.r.t. the identity nonce is the identity, so
+        // anyone would be able to present it without ever having been issued a
+        // credential.
+        if P.is_identity() {
+            return Err(CredentialError::MacVerification);
+        }
+
         // Recompute the MAC
         let mut V_prime: RistrettoPoint = &self.keypair.secret.x0 * &P;
 
-- 
2.43.0


From 338da34983606f0c07965fc1c1d92c93aa9710a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:29 +0000
Subject: [PATCH 03/16] fix: amacs::SecretKey::verify() must not accept trivial
 tags

The MAC_GGM verification condition is that the nonce is not the identity, but
verify() compared it with the basepoint: the all-identity tag verified for every
message.  It also ignored message attributes beyond the length of the key, and
key elements beyond the length of the message, rather than requiring (as mac()
does) that the lengths agree.
---
 aeonflux/src/amacs.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aeonflux/src/amacs.rs b/aeonflux/src/amacs.rs
index dcc65c7..be18775 100644
--- a/aeonflux/src/amacs.rs
+++ b/aeonflux/src/amacs.rs
@@ -39,11 +39,11 @@ use core::ops::{Index, Mul};
 
 use clear_on_drop::clear::Clear;
 
-use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
 use curve25519_dalek::constants::RISTRETTO_BASEPOINT_TABLE;
 use curve25519_dalek::scalar::Scalar;
 use curve25519_dalek::ristretto::CompressedRistretto;
 use curve25519_dalek::ristretto::RistrettoPoint;
+use curve25519_dalek::traits::IsIdentity;
 
 use rand_core::RngCore;
 use rand_core::CryptoRng;
@@ -321,7 +321,12 @@ impl SecretKey {
     }
 
     pub fn verify(&self, mac: &Tag, message: &Message) -> Result<(), MacError> {
-        if mac.nonce == RISTRETTO_BASEPOINT_POINT {
+        if self.xn.len() != message.0.len() {
+            return Err(MacError::MessageLengthError{ length: self.xn.len() });
+        }
+
+        // The MAC on any message w.r.t. the identity nonce is the identity.
+        if mac.nonce.is_identity() {
             return Err(MacError::AuthenticationError);
         }
         let mut exponent = self.x0;
-- 
2.43.0


From db986a54e0133454945382896f47eae0c560092f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:45 +0000
Subject: [PATCH 04/16] fix: users must only accept credentials for their own
 phone number

The proof of correct issuance doesn't cover the credential's attributes, so
SignalUser::obtain_finish() would install (and overwrite a working credential
with) an issuance meant for someone else, or one whose attribute had been
altered in transit.
---
 signal-credential/src/user.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/signal-credential/src/user.rs b/signal-credential/src/user.rs
index 2093e1e..968e15c 100644
--- a/signal-credential/src/user.rs
+++ b/signal-credential/src/user.rs
@@ -89,6 +89,16 @@ impl SignalUser {
         issuance: Option<&SignalCredentialIssuance>,
     ) -> Result<(), CredentialError>
     {
+        // The issuer's proof doesn't cover the revealed attributes, so we have to
+        // check for ourselves that the credential is for our phone number.
+        if let Some(issue) = issuance {
+            let attributes = &issue.credential.attributes;
+
+            if attributes.len() != NUMBER_OF_ATTRIBUTES || attributes[0] != self.phone_number.0 {
+                return Err(CredentialError::BadAttribute);
+            }
+        }
+
         self.user.obtain_finish(issuance)
     }
 
-- 
2.43.0


From c8696d71db95491b1d6fd78209d48d6c5bf9edfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:45 +0000
Subject: [PATCH 05/16] fix: users must not accept credentials whose MAC nonce
 is the identity

Such a credential is trivial and can never be presented successfully, but it
satisfies the proof of correct issuance and would replace a working one.
---
 aeonflux/src/user.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aeonflux/src/user.rs b/aeonflux/src/user.rs
index 4ea9b6e..65fe518 100644
--- a/aeonflux/src/user.rs
+++ b/aeonflux/src/user.rs
@@ -17,6 +17,7 @@ use std::vec::Vec;
 
 use curve25519_dalek::ristretto::RistrettoPoint;
 use curve25519_dalek::traits::Identity;
+use curve25519_dalek::traits::IsIdentity;
 
 use merlin::Transcript;
 
@@ -154,6 +155,11 @@ impl User {
             Some(x) => *x,
         };
 
+        // A MAC w.r.t. the identity nonce is trivial, and never verifies.
+        if issue.credential.mac.nonce.is_identity() {
+            return Err(CredentialError::CredentialIssuance);
+        }
+
         let publics = issuance_revealed::Publics {
             P: &issue.credential.mac.nonce,
             Q: &issue.credential.mac.mac,
-- 
2.43.0


From fdfb13f11da75c90ef31f15aaad4746189250e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:43 +0000
Subject: [PATCH 06/16] fix: return errors, rather than panic, for inputs of
 the wrong length

Commitments, issuances, presentations, keypairs, elGamal keys, users, and roster
entries are all decoded from bytes taken off the wire or out of storage, yet
their from_bytes() sliced, asserted, or subtracted before checking the length.
Across the C API these panics abort the process.
---
 aeonflux/src/amacs.rs                 |  8 ++++++--
 aeonflux/src/credential.rs            | 11 ++++++++++-
 aeonflux/src/elgamal.rs               | 12 +++++++++---
 aeonflux/src/pedersen.rs              |  4 ++++
 signal-credential/src/phone_number.rs |  4 ++++
 signal-credential/src/user.rs         |  5 +++++
 6 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/aeonflux/src/amacs.rs b/aeonflux/src/amacs.rs
index be18775..59681d4 100644
--- a/aeonflux/src/amacs.rs
+++ b/aeonflux/src/amacs.rs
@@ -240,8 +240,8 @@ impl SecretKey {
     pub fn from_bytes(bytes: &[u8]) -> Result<SecretKey, MacError> {
         let length: usize = bytes.len();
 
-        // The bytes must be a multiple of 32.
-        if length % 32 != 0 {
+        // The bytes must be a multiple of 32, and contain x0 at the very least.
+        if length % 32 != 0 || length < 32 {
             return Err(MacError::MessageLengthError{ length });
         }
         let mut x0: Option<Scalar> = None;
@@ -357,6 +357,10 @@ impl Keypair {
     pub fn from_bytes(bytes: &[u8]) -> Result<Keypair, MacError> {
         let length: usize = bytes.len();
 
+        if length < 32 {
+            return Err(MacError::KeypairDeserialisation);
+        }
+
         // The public key must always be 32 bytes shorter since the secret key has the extra x0 element.
         let public_key_length: usize = (length - 32) / 2;
         let secret_key_length: usize = length - public_key_length;
diff --git a/aeonflux/src/credential.rs b/aeonflux/src/credential.rs
index d249b44..0bb3175 100644
--- a/aeonflux/src/credential.rs
+++ b/aeonflux/src/credential.rs
@@ -209,6 +209,10 @@ pub struct CredentialIssuance {
 
 impl CredentialIssuance {
     pub fn from_bytes(bytes: &[u8]) -> Result<CredentialIssuance, CredentialError> {
+        if bytes.len() < 32 + SIZEOF_CREDENTIAL {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
+
         let secret_key_commitment = pedersen::Commitment::from_bytes(&bytes[00..32])?;
         let credential = Credential::from_bytes(&bytes[32..32+SIZEOF_CREDENTIAL])?;
         
@@ -272,13 +276,18 @@ impl CredentialPresentation {
             return Err(CredentialError::WrongNumberOfBytes);
         }
 
+        let attributes_offset: usize = 32 * (PRESENTATION_NUMBER_OF_REVEALED_ATTRIBUTES + PRESENTATION_NUMBER_OF_BLINDED_ATTRIBUTES);
+
+        if length < 64 + attributes_offset {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
+
         let rerandomized_mac_commitment = pedersen::Commitment::from_bytes(&bytes[00..32])?;
 
         let mut tmp: [u8; 32] = [0u8; 32];
         tmp.copy_from_slice(&bytes[32..64]);
         let rerandomized_nonce = CompressedRistretto(tmp).decompress()?;
 
-        let attributes_offset: usize = 32 * (PRESENTATION_NUMBER_OF_REVEALED_ATTRIBUTES + PRESENTATION_NUMBER_OF_BLINDED_ATTRIBUTES);
         let mut attributes_revealed: Vec<RevealedAttribute> = Vec::with_capacity(PRESENTATION_NUMBER_OF_REVEALED_ATTRIBUTES);
         let mut attributes_blinded: Vec<pedersen::Commitment> = Vec::with_capacity(PRESENTATION_NUMBER_OF_BLINDED_ATTRIBUTES);
         let mut attributes_processed: usize = 0;
diff --git a/aeonflux/src/elgamal.rs b/aeonflux/src/elgamal.rs
index d440d2b..68f001c 100644
--- a/aeonflux/src/elgamal.rs
+++ b/aeonflux/src/elgamal.rs
@@ -96,7 +96,9 @@ impl<'a, 'b> Add<&'b Encryption> for &'a Encryption {
 
 impl PublicKey {
     pub fn from_bytes(bytes: &[u8]) -> Result<PublicKey, CredentialError> {
-        assert!(bytes.len() == 32);
+        if bytes.len() != 32 {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
 
         let mut tmp = [0u8; 32];
 
@@ -144,7 +146,9 @@ impl<'a> From<&'a SecretKey> for PublicKey {
 
 impl SecretKey {
     pub fn from_bytes(bytes: &[u8]) -> Result<SecretKey, CredentialError> {
-        assert!(bytes.len() == 32);
+        if bytes.len() != 32 {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
 
         let mut tmp = [0u8; 32];
 
@@ -196,7 +200,9 @@ impl Drop for SecretKey {
 
 impl Keypair {
     pub fn from_bytes(bytes: &[u8]) -> Result<Keypair, CredentialError> {
-        assert!(bytes.len() == 64);
+        if bytes.len() != 64 {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
 
         let secret = SecretKey::from_bytes(&bytes[00..32])?;
         let public = PublicKey::from_bytes(&bytes[32..64])?;
diff --git a/aeonflux/src/pedersen.rs b/aeonflux/src/pedersen.rs
index e3c5378..30fc96e 100644
--- a/aeonflux/src/pedersen.rs
+++ b/aeonflux/src/pedersen.rs
@@ -65,6 +65,10 @@ impl SubAssign<Commitment> for RistrettoPoint {
 
 impl Commitment {
     pub fn from_bytes(bytes: &[u8]) -> Result<Commitment, CredentialError> {
+        if bytes.len() != SIZEOF_COMMITMENT {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
+
         let mut tmp: [u8; 32] = [0u8; 32];
 
         tmp.copy_from_slice(&bytes[0..32]);
diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index 902e55d..ba40610 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -323,6 +323,10 @@ pub struct RosterEntryCommitment {
 
 impl RosterEntryCommitment {
     pub fn from_bytes(bytes: &[u8]) -> Result<RosterEntryCommitment, PhoneNumberError> {
+        if bytes.len() != SIZEOF_COMMITTED_PHONE_NUMBER + 32 {
+            return Err(PhoneNumberError::LengthExceeded);
+        }
+
         let commitment = CommittedPhoneNumber::from_bytes(&bytes[..SIZEOF_COMMITTED_PHONE_NUMBER])?;
 
         let mut tmp = [0u8; 32];
diff --git a/signal-credential/src/user.rs b/signal-credential/src/user.rs
index 968e15c..64d8484 100644
--- a/signal-credential/src/user.rs
+++ b/signal-credential/src/user.rs
@@ -34,6 +34,7 @@ use credential::SignalCredentialPresentation;
 use credential::SignalCredential;
 use phone_number::PhoneNumber;
 use phone_number::RosterEntryCommitment;
+use phone_number::SIZEOF_PHONE_NUMBER;
 
 /// DOCDOC
 #[derive(Debug, Eq, PartialEq)]
@@ -44,6 +45,10 @@ pub struct SignalUser {
 
 impl SignalUser {
     pub fn from_bytes(bytes: &[u8]) -> Result<SignalUser, CredentialError> {
+        if bytes.len() < SIZEOF_PHONE_NUMBER {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
+
         let phone_number = PhoneNumber::from_bytes(&bytes[00..32])?;
         let user = User::from_bytes(&bytes[32..])?;
 
-- 
2.43.0


From c67dd92d8f9b3b44aa5e8d05597e7dd34d80daea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:43 +0000
Subject: [PATCH 07/16] fix: phone numbers too long to be encoded must be
 rejected

A phone number of 28 to 32 digits passed the length check but then overran the
32 byte buffer, since another 5 bytes are needed for the prefix, suffix and
length.  Likewise, converting a PhoneNumber which was decoded from arbitrary
bytes back to a String trusted the length byte.
---
 signal-credential/src/errors.rs       |  2 +-
 signal-credential/src/phone_number.rs | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/signal-credential/src/errors.rs b/signal-credential/src/errors.rs
index 67aae14..81eae0e 100644
--- a/signal-credential/src/errors.rs
+++ b/signal-credential/src/errors.rs
@@ -31,7 +31,7 @@ impl fmt::Display for PhoneNumberError {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match *self {
             PhoneNumberError::LengthExceeded
-                => write!(f, "A canonicalised phone number cannot be more than 32 bytes"),
+                => write!(f, "A canonicalised phone number cannot be more than 27 bytes"),
             PhoneNumberError::InvalidPhoneNumber
                 => write!(f, "The user's proof of roster membership could not be verified"),
         }
diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index ba40610..b1093ab 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -40,6 +40,9 @@ use rand_core::CryptoRng;
 use errors::PhoneNumberError;
 
 pub const SIZEOF_PHONE_NUMBER: usize = 32;
+/// The maximum length of a phone number: the rest of its 32 bytes is taken up by
+/// two digits of prefix, two digits of suffix, and the length.
+pub const MAX_PHONE_NUMBER_LENGTH: usize = SIZEOF_PHONE_NUMBER - 5;
 pub const SIZEOF_COMMITTED_PHONE_NUMBER: usize = pedersen::SIZEOF_COMMITMENT;
 pub const SIZEOF_ENCRYPTED_PHONE_NUMBER: usize = elgamal::SIZEOF_ENCRYPTION;
 
@@ -135,7 +138,7 @@ impl PhoneNumber {
         let bytes: &[u8] = source.as_bytes();
         let length: usize = bytes.len();
 
-        if length > 32 {
+        if length > MAX_PHONE_NUMBER_LENGTH {
             return Err(PhoneNumberError::LengthExceeded);
         }
         let mut bits: [u8; 32] = [0u8; 32];
@@ -175,7 +178,7 @@ impl PhoneNumber {
     pub fn try_from_bytes(bytes: &[u8]) -> Result<Self, PhoneNumberError> {
         let length: usize = bytes.len();
 
-        if length > 32 {
+        if length > MAX_PHONE_NUMBER_LENGTH {
             return Err(PhoneNumberError::LengthExceeded);
         }
         let mut bits: [u8; 32] = [0u8; 32];
@@ -209,7 +212,10 @@ impl From<PhoneNumber> for String {
             if source.0[i] == 0 {
                 continue;
             } else {
-                length = source[i] as usize;
+                // The length is the last non-zero byte, right after the suffix.
+                if source[i] as usize + 4 == i {
+                    length = source[i] as usize;
+                }
                 break;
             }
         }
-- 
2.43.0


From 6f46571fa136e9dddc6dd5c65e2a181b0dd82952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:17 +0000
Subject: [PATCH 08/16] fix: Issuer::verify() must not index out of bounds

A presentation (or a keypair) with an unexpected number of attributes made the
issuer panic rather than reject the presentation.
---
 aeonflux/src/issuer.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/aeonflux/src/issuer.rs b/aeonflux/src/issuer.rs
index e360024..21e6889 100644
--- a/aeonflux/src/issuer.rs
+++ b/aeonflux/src/issuer.rs
@@ -207,6 +207,19 @@ impl Issuer {
             return Err(CredentialError::MacVerification);
         }
 
+        // The MAC is over all of the attributes, revealed ones first, and the
+        // proof is over a single blinded one.
+        let n_revealed = presentation.attributes_revealed.len();
+        let n_blinded = presentation.attributes_blinded.len();
+
+        if n_blinded != 1 || n_revealed + n_blinded != self.keypair.secret.xn.len() {
+            return Err(CredentialError::WrongNumberOfAttributes);
+        }
+        let X0: RistrettoPoint = match self.keypair.public.Xn.get(0) {
+            Some(x) => *x,
+            None    => return Err(CredentialError::NoIssuerParameters),
+        };
+
         // Recompute the MAC
         let mut V_prime: RistrettoPoint = &self.keypair.secret.x0 * &P;
 
@@ -223,7 +236,7 @@ impl Issuer {
         let publics = valid_credential::Publics {
             B: &self.system_parameters.g,
             A: &self.system_parameters.h,
-            X0: &self.keypair.public.Xn[0],
+            X0: &X0,
             P: &P,
             V: &V_prime,
             Cm0: &presentation.attributes_blinded[0].into(),
-- 
2.43.0


From 84dea7325a81c515122231739e6f2a30b107be27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:47 +0000
Subject: [PATCH 09/16] fix: the C API must return memory which outlives the
 call

Every function returned a pointer into a Vec that was dropped before the caller
could read it.  Copy the bytes into malloc()ed memory, which the caller owns,
and return a NULL pointer upon errors, as the header has always documented.
---
 ffi/src/c.rs                 | 26 ++++++++++++++++++++++++++
 ffi/src/include/credential.h |  3 +++
 ffi/src/macros.rs            |  7 ++-----
 3 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/ffi/src/c.rs b/ffi/src/c.rs
index 2ad78da..a910cfc 100644
--- a/ffi/src/c.rs
+++ b/ffi/src/c.rs
@@ -30,10 +30,16 @@ cfg_if! {
         #[allow(non_camel_case_types)] pub type size_t = usize;
         #[allow(non_camel_case_types)] pub type uint8_t = u8;
         #[allow(non_camel_case_types)] pub type uint64_t = u64;
+
+        extern "C" {
+            fn malloc(size: size_t) -> *mut uint8_t;
+        }
     } else {
         pub use libc::size_t;
         pub use libc::uint8_t;
         pub use libc::uint64_t;
+
+        use libc::malloc;
     }
 }
 
@@ -68,6 +74,26 @@ pub struct buf_t {
     pub ptr: *const uint8_t,
 }
 
+/// Copy some `bytes` into memory which outlives the call, and which the caller
+/// may `free()`.
+///
+/// # Returns
+///
+/// A `buf_t` with a length of `0` and a `NULL` pointer if there is no memory.
+fn copy_to_buf(bytes: &[u8]) -> buf_t {
+    let dest: *mut uint8_t = unsafe { malloc(bytes.len() as size_t) as *mut uint8_t };
+
+    if dest.is_null() {
+        return zero_len_and_ptr!();
+    }
+
+    unsafe {
+        ptr::copy_nonoverlapping(bytes.as_ptr(), dest, bytes.len());
+    }
+
+    buf_t { len: bytes.len() as uint64_t, ptr: dest }
+}
+
 #[no_mangle]
 pub extern "C" fn system_parameters_create(
     seed: *const uint8_t,  // should be 32 bytes exactly
diff --git a/ffi/src/include/credential.h b/ffi/src/include/credential.h
index fd73cca..928a3e7 100644
--- a/ffi/src/include/credential.h
+++ b/ffi/src/include/credential.h
@@ -21,6 +21,9 @@ const uint LENGTH_ROSTER_ENTRY_COMMITMENT_SANS_OPENING = 32;
 
 /**
  * Contains a pointer to some data and a length.
+ *
+ * The data is allocated with `malloc()` and is owned by the caller, who should
+ * `free()` it when it is no longer needed.
  */
 // RUST_C_COUPLED: ffi/src/c.rs buf_t
 typedef struct buf_s {
diff --git a/ffi/src/macros.rs b/ffi/src/macros.rs
index 5ed979e..1ed7820 100644
--- a/ffi/src/macros.rs
+++ b/ffi/src/macros.rs
@@ -12,17 +12,14 @@ macro_rules! slice_to_len_and_ptr {
     ($x:expr) => {{
         let x: &[u8] = $x;
 
-        buf_t {
-            len: x.len() as uint64_t,
-            ptr: x.as_ptr() as *const uint8_t,
-        }
+        copy_to_buf(x)
     }}
 }
 
 #[macro_export]
 macro_rules! zero_len_and_ptr {
     () => {
-        slice_to_len_and_ptr!(&[])
+        buf_t { len: 0, ptr: ptr::null() }
     }
 }
 
-- 
2.43.0


From 0fe4eb6b185287dbf37bae70d3e05d3cb6a53127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:11 +0000
Subject: [PATCH 10/16] fix: deserialise from human-readable formats too

JSON (and hence JsValue) represents bytes as a sequence of numbers, which none of
our types could be deserialised from: every function of the JS API which takes
one of them as an input always failed.
---
 aeonflux/src/macros.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/aeonflux/src/macros.rs b/aeonflux/src/macros.rs
index a5f42e2..3516076 100644
--- a/aeonflux/src/macros.rs
+++ b/aeonflux/src/macros.rs
@@ -43,6 +43,20 @@ macro_rules! impl_serde_with_to_bytes_and_from_bytes {
                             },
                         }
                     }
+
+                    // Human-readable formats, e.g. JSON, don't have a type for bytes
+                    // and instead serialise them as a sequence.
+                    fn visit_seq<A>(self, mut seq: A) -> Result<$t, A::Error>
+                        where A: serde::de::SeqAccess<'de>
+                    {
+                        let mut v: Vec<u8> = Vec::new();
+
+                        while let Some(byte) = seq.next_element::<u8>()? {
+                            v.push(byte);
+                        }
+
+                        self.visit_bytes(&v)
+                    }
                 }
                 deserializer.deserialize_bytes(AeonfluxVisitor)
             }
-- 
2.43.0


From 1bf472f7166bbc82a8e9142ca611c59541ef3ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:29 +0000
Subject: [PATCH 11/16] fix: degenerate parameters and keys must be rejected

All zeroes, e.g. as left behind by a torn write, decode to the identity and to
the scalar zero.  An issuer restored from such storage would accept forgeries
from anyone, and commitments under such parameters aren't hiding or binding.
hunt_and_peck() could also settle on the identity for h if handed zeroes.
---
 aeonflux/src/amacs.rs      | 10 ++++++++++
 aeonflux/src/parameters.rs |  9 ++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/aeonflux/src/amacs.rs b/aeonflux/src/amacs.rs
index 59681d4..dbcabce 100644
--- a/aeonflux/src/amacs.rs
+++ b/aeonflux/src/amacs.rs
@@ -178,6 +178,11 @@ impl PublicKey {
                 None    => return Err(MacError::PointDecompressionError),
                 Some(x) => x,
             };
+
+            // All zeroes decode to the identity, which isn't a valid public key.
+            if X.is_identity() {
+                return Err(MacError::PointDecompressionError);
+            }
             Xn.push(X);
         }
 
@@ -258,6 +263,11 @@ impl SecretKey {
                 Some(x) => x,
             };
 
+            // Anyone can create (or alter) a MAC w.r.t. a key that is zero.
+            if x == Scalar::zero() {
+                return Err(MacError::ScalarFormatError);
+            }
+
             match x0 {
                 None    => x0 = Some(x),
                 Some(_) => xn.push(x),
diff --git a/aeonflux/src/parameters.rs b/aeonflux/src/parameters.rs
index 4fbe670..1cd5773 100644
--- a/aeonflux/src/parameters.rs
+++ b/aeonflux/src/parameters.rs
@@ -16,6 +16,7 @@ use curve25519_dalek::constants::RISTRETTO_BASEPOINT_COMPRESSED;
 use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
 use curve25519_dalek::ristretto::CompressedRistretto;
 use curve25519_dalek::ristretto::RistrettoPoint;
+use curve25519_dalek::traits::IsIdentity;
 
 use serde::{self, Serialize, Deserialize, Serializer, Deserializer};
 use serde::de::Visitor;
@@ -77,6 +78,12 @@ impl SystemParameters {
             },
         };
 
+        // Neither may be the identity (which all zeroes decode to), nor can h be
+        // orthogonal to g if they're the same.
+        if g.is_identity() || h.is_identity() || g == h {
+            return Err(CredentialError::NoSystemParameters);
+        }
+
         Ok(SystemParameters { g, h })
     }
 
@@ -113,7 +120,7 @@ impl SystemParameters {
 
             // Extremely unlikely but we may as well be careful.
             if CompressedRistretto(tmp) != RISTRETTO_BASEPOINT_COMPRESSED {
-                H = CompressedRistretto(tmp).decompress();
+                H = CompressedRistretto(tmp).decompress().filter(|h| !h.is_identity());
             }
         }
 
-- 
2.43.0


From ac5e828f717f8689f5cce472cc26cad2a16b52ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:51 +0000
Subject: [PATCH 12/16] fix: Issuer::verify() must use the blinded attribute's
 own key

With keys for several attributes the first secret exponent was applied both
to the first revealed and to the blinded attribute, so a holder could trade
the values of the two.
---
 aeonflux/src/issuer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeonflux/src/issuer.rs b/aeonflux/src/issuer.rs
index 21e6889..d9d365e 100644
--- a/aeonflux/src/issuer.rs
+++ b/aeonflux/src/issuer.rs
@@ -215,7 +215,7 @@ impl Issuer {
         if n_blinded != 1 || n_revealed + n_blinded != self.keypair.secret.xn.len() {
             return Err(CredentialError::WrongNumberOfAttributes);
         }
-        let X0: RistrettoPoint = match self.keypair.public.Xn.get(0) {
+        let X0: RistrettoPoint = match self.keypair.public.Xn.get(n_revealed) {
             Some(x) => *x,
             None    => return Err(CredentialError::NoIssuerParameters),
         };
@@ -228,7 +228,7 @@ impl Issuer {
         }
 
         for (index, attribute) in presentation.attributes_blinded.iter().enumerate() {
-            V_prime += &self.keypair.secret.xn[index] * attribute;
+            V_prime += &self.keypair.secret.xn[n_revealed + index] * attribute;
         }
         V_prime -= presentation.rerandomized_mac_commitment;
 
-- 
2.43.0


From 84068a1466590f6e3ca2e973d8425f0fbb2d232e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:28 +0000
Subject: [PATCH 13/16] fix: a user of issuer parameters for several attributes
 can't be restored

SignalUsers save to a fixed number of bytes, which only leaves room for one
public key.
---
 signal-credential/src/user.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signal-credential/src/user.rs b/signal-credential/src/user.rs
index 64d8484..97efddf 100644
--- a/signal-credential/src/user.rs
+++ b/signal-credential/src/user.rs
@@ -77,6 +77,10 @@ impl SignalUser {
         phone_number: &[u8],
     ) -> Result<SignalUser, CredentialError>
     {
+        // With any other number of attributes we couldn't be restored from our bytes.
+        if issuer_parameters.len() != NUMBER_OF_ATTRIBUTES {
+            return Err(CredentialError::WrongNumberOfAttributes);
+        }
         let user = User::new(system_parameters, issuer_parameters, key);
 
         // Map our phone number to a scalar mod ell.
-- 
2.43.0


From 7a3d1e39c11c894f6c3de7d1aa6012a5dd6cc86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:51 +0000
Subject: [PATCH 14/16] fix: issuer keys must never be zero

---
 aeonflux/src/amacs.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/aeonflux/src/amacs.rs b/aeonflux/src/amacs.rs
index dbcabce..40ac9b2 100644
--- a/aeonflux/src/amacs.rs
+++ b/aeonflux/src/amacs.rs
@@ -225,6 +225,21 @@ impl Drop for SecretKey {
     }
 }
 
+/// Choose a random `Scalar` which isn't zero, since a key that is zero is no key
+/// (and couldn't be deserialised).
+fn nonzero_scalar<R>(csprng: &mut R) -> Scalar
+where
+    R: RngCore + CryptoRng,
+{
+    loop {
+        let x: Scalar = Scalar::random(csprng);
+
+        if x != Scalar::zero() {
+            return x;
+        }
+    }
+}
+
 impl SecretKey {
     /// Create a new `SecretKey` for authenticating a message of `n` `Scalar`s.
     pub fn new<R>(n: usize, csprng: &mut R) -> SecretKey
@@ -232,10 +247,10 @@ impl SecretKey {
         R: RngCore + CryptoRng,
     {
         let mut xn: Vec<Scalar> = Vec::with_capacity(n);
-        let x0: Scalar = Scalar::random(csprng);
+        let x0: Scalar = nonzero_scalar(csprng);
 
         for _ in 0..n {
-            xn.push(Scalar::random(csprng));
+            xn.push(nonzero_scalar(csprng));
         }
 
         SecretKey{ x0, xn }
-- 
2.43.0


From 4838560e4c5d68814c471170c1bfb820e9b5b3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 15/16] fix: document the length
 issuer_verify_roster_membership really returns

---
 ffi/src/include/credential.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ffi/src/include/credential.h b/ffi/src/include/credential.h
index 928a3e7..c766daf 100644
--- a/ffi/src/include/credential.h
+++ b/ffi/src/include/credential.h
@@ -210,7 +210,7 @@ buf_t issuer_verify(const uint8_t* issuer,
  * If the verified credential has a committed phone number which matches the
  * phone number in the credential, then the committed phone number will be
  * returned inside a `buf_t` with its length (which should be
- * `LENGTH_ROSTER_ENTRY_COMMITMENT`).  This returned commitment can be used to
+ * `LENGTH_ROSTER_ENTRY_COMMITMENT_SANS_OPENING`).  This returned commitment can be used to
  * look up whether the user is in the specified group with the permissions they
  * are claiming to possess.
  *
-- 
2.43.0


From 005d4c86700f736360ed04de9c08f71687e87735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:04 +0000
Subject: [PATCH 16/16] fix: keypairs without attributes must be rejected

An issuer could be made from one, but not be restored from its bytes.
---
 aeonflux/src/amacs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeonflux/src/amacs.rs b/aeonflux/src/amacs.rs
index 40ac9b2..a6fb6ea 100644
--- a/aeonflux/src/amacs.rs
+++ b/aeonflux/src/amacs.rs
@@ -382,7 +382,8 @@ impl Keypair {
     pub fn from_bytes(bytes: &[u8]) -> Result<Keypair, MacError> {
         let length: usize = bytes.len();
 
-        if length < 32 {
+        // At least one attribute, i.e. X1, x0, and x1.
+        if length < 96 {
             return Err(MacError::KeypairDeserialisation);
         }
 
-- 
2.43.0

