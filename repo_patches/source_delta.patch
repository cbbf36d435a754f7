From 2819724a7ffbf529f3fe7c530a10b424485d42ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:20 +0000
Subject: [PATCH 1/9] verif hook: re-export internals under cfg(verif_hooks)

---
 src/extended_point.rs |  5 +++++
 src/lib.rs            | 20 ++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/extended_point.rs b/src/extended_point.rs
index 72b1d08..20a1812 100644
--- a/src/extended_point.rs
+++ b/src/extended_point.rs
@@ -25,6 +25,11 @@ impl SmvtControl {
             addend: 0,
         }
     }
+
+    #[cfg(verif_hooks)]
+    pub fn verif_parts(&self) -> (i64, i64) {
+        (self.power, self.addend)
+    }
 }
 
 #[derive(Debug, PartialEq, Clone)]
diff --git a/src/lib.rs b/src/lib.rs
index 70536b6..f064c95 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)]
 #![allow(clippy::should_implement_trait)]
 mod bignumber;
 mod constants32;
@@ -11,6 +12,25 @@ mod karatsuba_32;
 mod karatsuba_square_32;
 mod scalar;
 
+/// Re-exports of the internal modules for the verification harness. Compiled only with
+/// `RUSTFLAGS="--cfg verif_hooks"`; not part of the public API.
+#[cfg(verif_hooks)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub mod bignumber {
+        pub use crate::bignumber::*;
+    }
+    pub mod eddsa {
+        pub use crate::eddsa::*;
+    }
+    pub mod extended_point {
+        pub use crate::extended_point::*;
+    }
+    pub mod scalar {
+        pub use crate::scalar::*;
+    }
+}
+
 use crate::errors::LibgoldilockErrors;
 use goldilocks::{ed448_derive_public, ed448_sign, hex_to_private_key};
 use rand::{CryptoRng, Rng};
-- 
2.43.0


From 1e3c0752f496acf44f702c1246a04981eb8e6bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:26 +0000
Subject: [PATCH 2/9] fix: compare all 16 limbs in decaf_equal

The most significant limb was left out of the comparison, so two field elements
differing only there compared equal (and the on-curve test accepted them).
---
 src/bignumber.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bignumber.rs b/src/bignumber.rs
index e2b1d23..2bbc34d 100644
--- a/src/bignumber.rs
+++ b/src/bignumber.rs
@@ -536,6 +536,7 @@ pub fn decaf_equal(n: &BigNumber, x: &BigNumber) -> Word {
     ret |= y[12];
     ret |= y[13];
     ret |= y[14];
+    ret |= y[15];
 
     is_zero_mask(ret)
 }
-- 
2.43.0


From 716564d1710d283be64a97d9e4bab3f4e225d2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:26 +0000
Subject: [PATCH 3/9] fix: reject non-canonical field elements (y >= p) when
 decoding

MODULUS was not the 28-bit-limb form of p and the borrow was computed with
unrelated shifts, so encodings of y >= p were accepted.
---
 src/bignumber.rs   | 4 +---
 src/constants32.rs | 4 ++--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/bignumber.rs b/src/bignumber.rs
index 2bbc34d..a9e509b 100644
--- a/src/bignumber.rs
+++ b/src/bignumber.rs
@@ -628,9 +628,7 @@ pub fn dsa_like_deserialize(input: &[u8], mask: usize) -> (BigNumber, Word) {
         }
         fill -= RADIX;
         buffer >>= RADIX;
-        // TODO CHECK SCARRY NOT SURE IF CORRECT
-        scarry = ((u32::wrapping_sub(u32::wrapping_add(scarry as Word, n[i]), MODULUS[i]) >> 8) * 4)
-            as Sdword;
+        scarry = (scarry + n[i] as Sdword - MODULUS[i] as Sdword) >> RADIX;
     }
 
     (
diff --git a/src/constants32.rs b/src/constants32.rs
index b1fbaa3..29e753e 100644
--- a/src/constants32.rs
+++ b/src/constants32.rs
@@ -63,6 +63,6 @@ pub const SCALAR_ZERO: [Word; SCALAR_WORDS] = [
     0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
 ];
 pub const MODULUS: BigNumber = [
-    0xffffff, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff,
-    0xfffffe, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff,
+    0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff,
+    0xffffffe, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff,
 ];
-- 
2.43.0


From c70e89b9ff1ce4dbff6cd60b1a5e4aaf9891e5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:04 +0000
Subject: [PATCH 4/9] fix: return InvalidSignatureLengthError for a short
 signature instead of panicking

---
 src/eddsa.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eddsa.rs b/src/eddsa.rs
index 0580513..7c4d030 100644
--- a/src/eddsa.rs
+++ b/src/eddsa.rs
@@ -64,6 +64,10 @@ pub fn dsa_verify(pubkey: &[u8], sig: &[u8], message: &[u8]) -> Result<bool, Lib
     //     sig2[i] = sig[i + 57];
     // }
 
+    if sig.len() < 57 + 57 {
+        return Err(LibgoldilockErrors::InvalidSignatureLengthError);
+    }
+
     sig1[..57].copy_from_slice(&sig[..57]);
     sig2[..57].copy_from_slice(&sig[57..(57 + 57)]);
 
-- 
2.43.0


From 1dec555709d9fe4645b9e411fcb1ddcf734993fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:04 +0000
Subject: [PATCH 5/9] fix: bind the given public key bytes into the
 verification challenge

The challenge hashed a re-encoding of the decoded point, which has lost its
torsion component, so a signature made for a key A verified under A+T too.
---
 src/eddsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eddsa.rs b/src/eddsa.rs
index 7c4d030..d4dfec7 100644
--- a/src/eddsa.rs
+++ b/src/eddsa.rs
@@ -91,7 +91,7 @@ pub fn dsa_verify(pubkey: &[u8], sig: &[u8], message: &[u8]) -> Result<bool, Lib
 
     let mut challenge: [u8; 114] = [0; 114];
     let mut h = sig1.to_vec();
-    h.append(&mut p.eddsa_like_encode().to_vec());
+    h.append(&mut pubkey.to_vec());
     h.append(&mut message.to_vec());
     hash_with_dom(&mut h, &mut challenge);
 
-- 
2.43.0


From e8815b1eb95455e8201239b33dc7fdc75e8eb896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:04 +0000
Subject: [PATCH 6/9] fix: reject signatures whose S is not reduced modulo the
 group order

S + q verified as well as S (signature malleability).
---
 src/eddsa.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eddsa.rs b/src/eddsa.rs
index d4dfec7..1ad5d05 100644
--- a/src/eddsa.rs
+++ b/src/eddsa.rs
@@ -5,7 +5,7 @@ use sha3::{
 
 use crate::{
     extended_point::{eddsa_like_decode, TwistedExtendedPoint},
-    scalar::{decode_long, sub, Scalar},
+    scalar::{decode_long, encode, sub, Scalar},
 };
 
 use crate::errors::LibgoldilockErrors;
@@ -99,6 +99,9 @@ pub fn dsa_verify(pubkey: &[u8], sig: &[u8], message: &[u8]) -> Result<bool, Lib
     challenge_scalar = sub(&scalar_zero, &challenge_scalar);
 
     let responce_scalar = decode_long(&sig2);
+    if encode(&responce_scalar) != sig2 {
+        return Err(LibgoldilockErrors::DecodeSignatureError);
+    }
 
     let pk = p2.point_double_scalamul_non_secret(&responce_scalar, &challenge_scalar);
 
-- 
2.43.0


From 2f69e6bdd44aff6b4f56f4aecbdbc4f158c18333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:04 +0000
Subject: [PATCH 7/9] fix: reject point encodings of x = 0 with the sign bit
 set

---
 src/extended_point.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/extended_point.rs b/src/extended_point.rs
index 20a1812..1dcf302 100644
--- a/src/extended_point.rs
+++ b/src/extended_point.rs
@@ -540,6 +540,8 @@ pub fn eddsa_like_decode(src_org: &[u8]) -> Result<TwistedExtendedPoint, Libgold
     p.x = mul(&p.z, &p.t);
     p.t = isr(&p.x);
     p.x = mul(&p.t, &p.z);
+    // x = 0 has no odd representative
+    succ &= !(low & decaf_equal(&p.x, &BIG_ZERO));
     p.x = decaf_cond_negate(&p.x, &(!(low_bit(&p.x)) ^ low));
     p.z = BIG_ONE;
 
-- 
2.43.0


From b3883cf036ed02c24f4431c461c8e711a3764508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:04 +0000
Subject: [PATCH 8/9] fix: report malformed hex as a deserialization error
 instead of panicking

---
 src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f064c95..50f8274 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -204,7 +204,9 @@ impl<'de> Deserialize<'de> for SigningKey {
     {
         if deserializer.is_human_readable() {
             let s = String::deserialize(deserializer)?;
-            Ok(SigningKey::from_str(&s))
+            let mut key: [u8; 57] = [0; 57];
+            hex::decode_to_slice(&s, &mut key).map_err(de::Error::custom)?;
+            Ok(SigningKey::from_slice(&key))
         } else {
             Err(de::Error::custom("Expected a string"))
         }
@@ -228,7 +230,9 @@ impl<'de> Deserialize<'de> for SecretKey {
     {
         if deserializer.is_human_readable() {
             let s = String::deserialize(deserializer)?;
-            Ok(SecretKey::from_str(&s))
+            let mut key: [u8; 57] = [0; 57];
+            hex::decode_to_slice(&s, &mut key).map_err(de::Error::custom)?;
+            Ok(SecretKey { key })
         } else {
             Err(de::Error::custom("Expected a string"))
         }
@@ -252,7 +256,9 @@ impl<'de> Deserialize<'de> for VerifyingKey {
     {
         if deserializer.is_human_readable() {
             let s = String::deserialize(deserializer)?;
-            Ok(VerifyingKey::from_str(&s))
+            let mut key: [u8; 57] = [0; 57];
+            hex::decode_to_slice(&s, &mut key).map_err(de::Error::custom)?;
+            Ok(VerifyingKey { key })
         } else {
             Err(de::Error::custom("Expected a string"))
         }
-- 
2.43.0


From 9133efba5e49747080bd5be3dd88bf0b4f54d799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:03 +0000
Subject: [PATCH 9/9] fix: draw generated keys from the operating system's
 source

thread_rng keeps a buffer of output that a forked process inherits, so parent and child
returned the same private keys from ed448_generate_key.
---
 src/goldilocks.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goldilocks.rs b/src/goldilocks.rs
index 80a0c9b..bbcaa87 100644
--- a/src/goldilocks.rs
+++ b/src/goldilocks.rs
@@ -1,4 +1,4 @@
-use rand::RngCore;
+use rand::{rngs::OsRng, RngCore};
 
 use crate::errors::LibgoldilockErrors;
 use crate::{
@@ -180,7 +180,7 @@ pub fn ed448_verify_with_error(
 
 pub fn ed448_generate_key() -> PrivateKey {
     let mut random_key: PrivateKey = [0; 57];
-    rand::thread_rng().fill_bytes(&mut random_key);
+    OsRng.fill_bytes(&mut random_key);
     random_key
 }
 
-- 
2.43.0

