From e9070b1475b3125bed700df039182896bd882d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 01/21] verif: guarded hook for the external verification
 harness

---
 src/lib.rs       | 8 ++++++++
 src/protocols.rs | 9 +++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 83ff5c3..1815425 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,6 +2,7 @@
 #![cfg_attr(docsrs, feature(doc_auto_cfg))]
 #![doc = include_str!("../README.md")]
 #![deny(unsafe_code)]
+#![allow(unexpected_cfgs)] // for `synedrion_verif`, see below
 #![warn(
     clippy::mod_module_files,
     missing_docs,
@@ -63,6 +64,13 @@ pub use uint::{BoxedEncoding, Extendable, MulWide};
 #[cfg(feature = "bip32")]
 pub use curve::{DeriveChildKey, PublicTweakable, SecretTweakable};
 
+// Hook for the external verification harness; never active in a regular build.
+#[cfg(synedrion_verif)]
+extern crate std;
+#[cfg(synedrion_verif)]
+#[doc(hidden)]
+pub use protocols::verif;
+
 #[cfg(feature = "private-benches")]
 #[allow(missing_docs)]
 #[doc(hidden)]
diff --git a/src/protocols.rs b/src/protocols.rs
index 92c5664..8fa8066 100644
--- a/src/protocols.rs
+++ b/src/protocols.rs
@@ -16,6 +16,15 @@ mod key_resharing;
 #[cfg(test)]
 mod misbehavior_tests;
 
+// Hook for the external verification harness; never active in a regular build.
+// It is here, and not in the root, to have access to the internals of the protocol rounds.
+#[cfg(synedrion_verif)]
+#[allow(missing_docs, clippy::all)]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("SYNEDRION_VERIF_DIR"), "/driver.rs"));
+}
+
 pub use aux_gen::{AuxGen, AuxGenAssociatedData, AuxGenProtocol};
 pub use interactive_signing::{
     InteractiveSigning, InteractiveSigningAssociatedData, InteractiveSigningProtocol, PrehashedMessage,
-- 
2.43.0


From b725792c8e141b9cff02abdb2e38fbf9cd3ffdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 02/21] fix: SecretSigned::new_positive checks the value
 against the bound

---
 src/uint/secret_signed.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uint/secret_signed.rs b/src/uint/secret_signed.rs
index 5334729..bff6735 100644
--- a/src/uint/secret_signed.rs
+++ b/src/uint/secret_signed.rs
@@ -33,10 +33,12 @@ where
 
     /// Creates a signed value from an unsigned one in constant time, assuming that it encodes a
     /// positive value treated as two's complement.
+    ///
+    /// Returns `None` if the requested bound is too large, or if `value` is actually larger than the bound.
     pub fn new_positive(value: Secret<T>, bound: u32) -> CtOption<Self> {
         let in_bound = {
             let c1 = Choice::from((bound < T::BITS) as u8);
-            let c2 = Choice::from((value.expose_secret().bits() < T::BITS) as u8);
+            let c2 = Choice::from((value.expose_secret().bits() <= bound) as u8);
             c1 & c2
         };
         let new_positive = Self::new_from_unsigned_unchecked(value, bound);
-- 
2.43.0


From 56319f2c2475d3e5fe0fc7e72e1c7212699bca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 03/21] fix: invertible_residue_from_xof_reader returns a
 residue below the modulus

---
 src/paillier/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paillier/rsa.rs b/src/paillier/rsa.rs
index ef0e5be..3d34220 100644
--- a/src/paillier/rsa.rs
+++ b/src/paillier/rsa.rs
@@ -309,7 +309,7 @@ impl<P: PaillierParams> PublicModulus<P> {
         let modulus_bits = self.modulus().bits_vartime();
         loop {
             let r = P::Uint::from_xof_reader(reader, modulus_bits);
-            if r.is_invertible(&self.modulus.0) {
+            if &r < self.modulus() && r.is_invertible(&self.modulus.0) {
                 return r;
             }
         }
-- 
2.43.0


From 6708f5c4d035aac2bff7f8c105e6083d2de6fd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:29 +0000
Subject: [PATCH 04/21] fix: reject mod and prm proofs with a wrong number of
 elements

The verifiers zipped the challenges with the received elements, so a proof
with missing elements (even none at all) was accepted.
---
 src/zk/mod_.rs | 5 +++++
 src/zk/prm.rs  | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/zk/mod_.rs b/src/zk/mod_.rs
index 3b7d597..d48f495 100644
--- a/src/zk/mod_.rs
+++ b/src/zk/mod_.rs
@@ -142,6 +142,11 @@ impl<P: SchemeParams> ModProof<P> {
             return false;
         }
 
+        // An answer is needed for every challenge
+        if self.proof.len() != challenge.0.len() {
+            return false;
+        }
+
         let mut reader = Hasher::<P::Digest>::new_with_dst(b"P_mod RNG")
             // commitments
             .chain(&self.commitment)
diff --git a/src/zk/prm.rs b/src/zk/prm.rs
index 31e907b..c5d0240 100644
--- a/src/zk/prm.rs
+++ b/src/zk/prm.rs
@@ -110,6 +110,12 @@ impl<P: SchemeParams> PrmProof<P> {
             return false;
         }
 
+        // An answer and a commitment are needed for every challenge bit
+        let length = challenge.0.bits().len();
+        if self.proof.len() != length || self.commitment.0.len() != length {
+            return false;
+        }
+
         for ((e, z), a) in challenge
             .0
             .bits()
-- 
2.43.0


From 8cdee139be8788885cdf631b4655f18806087d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:56 +0000
Subject: [PATCH 05/21] fix: serialize the identity point instead of panicking

The identity is accepted when deserializing a point, but serializing or hashing
it afterwards panicked: its encoding does not have the length of other points.
---
 src/curve/arithmetic.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/curve/arithmetic.rs b/src/curve/arithmetic.rs
index ac8d77c..1a60d8a 100644
--- a/src/curve/arithmetic.rs
+++ b/src/curve/arithmetic.rs
@@ -274,12 +274,9 @@ where
             .ok_or_else(|| "Invalid curve point representation".into())
     }
 
-    pub(crate) fn to_compressed_array(
-        self,
-    ) -> GenericArray<u8, <FieldBytesSize<P::Curve> as ModulusSize>::CompressedPointSize> {
-        GenericArray::from_exact_iter(
-            self.0.to_affine().to_encoded_point(true).as_bytes().iter().cloned(),
-        ).expect("An AffinePoint is composed of elements of the correct size and their slice repr fits in the `CompressedPointSize`-sized array.")
+    /// The compressed SEC1 encoding (a single zero byte for the identity).
+    pub(crate) fn to_compressed_point(self) -> EncodedPoint<P::Curve> {
+        self.0.to_affine().to_encoded_point(true)
     }
 
     pub(crate) fn to_backend(self) -> <P::Curve as CurveArithmetic>::ProjectivePoint {
@@ -302,7 +299,7 @@ where
     P: SchemeParams,
 {
     fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        SliceLike::<Hex>::serialize(&self.to_compressed_array(), serializer)
+        SliceLike::<Hex>::serialize(&self.to_compressed_point(), serializer)
     }
 }
 
-- 
2.43.0


From 36f1bee13d097bf1d5177e698e2ed343abbb14ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 06/21] fix: chain the curve order independently of the limb
 size

---
 src/curve/arithmetic.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/curve/arithmetic.rs b/src/curve/arithmetic.rs
index 1a60d8a..b28506e 100644
--- a/src/curve/arithmetic.rs
+++ b/src/curve/arithmetic.rs
@@ -35,17 +35,11 @@ where
     <Crv as CurveArithmetic>::AffinePoint: ToEncodedPoint<Crv>,
     <Crv as Curve>::FieldBytesSize: ModulusSize,
 {
-    let mut digest = digest;
-
     // TODO: `elliptic-curve 0.14` depends on `crypto-bigint` that supports `Serialize` for `Uint`'s,
     // so we can just chain `ORDER`. For now we have to do it manually.
-    // Note that since only `as_ref` (yielding `&[Limb]`) is available, we need to chain it
-    // so that the result is the same on 32- and 64-bit targets - that is, in low-endian order.
-    let order = Crv::ORDER;
-    let limbs = order.as_ref();
-    for limb in limbs {
-        digest = digest.chain(&limb.0.to_le_bytes());
-    }
+    // Note that the bytes have to be chained as a whole and not limb by limb,
+    // since the limb size (and the number of limbs) is different on 32- and 64-bit targets.
+    let digest = digest.chain_bytes(&Crv::ORDER.to_be_byte_array());
 
     let generator_bytes = <Crv as CurveArithmetic>::ProjectivePoint::generator()
         .to_affine()
-- 
2.43.0


From 2fa4a3895770862e2ff3e23eec4c9b6074bc1f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 07/21] fix: keep the primes out of the debug output of
 SecretKeyPaillier

---
 src/paillier/keys.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/paillier/keys.rs b/src/paillier/keys.rs
index e7b2c70..5d2a820 100644
--- a/src/paillier/keys.rs
+++ b/src/paillier/keys.rs
@@ -47,7 +47,8 @@ impl<P: PaillierParams> SecretKeyPaillierWire<P> {
     }
 }
 
-#[derive(Debug, Clone)]
+#[derive(Clone)]
+#[derive_where::derive_where(Debug)]
 pub(crate) struct SecretKeyPaillier<P: PaillierParams> {
     /// The secret primes with some precomputed constants,
     primes: SecretPrimes<P>,
@@ -60,9 +61,12 @@ pub(crate) struct SecretKeyPaillier<P: PaillierParams> {
     // $u$ such that $u = -1 \mod p$ and $u = 1 \mod q$. Used for sampling of non-square residues.
     nonsquare_sampling_constant: Secret<<P::Uint as Integer>::Monty>,
     // TODO (#162): these should be secret, but they are not zeroizable.
+    // They contain the primes, so they are left out of the debug output.
     /// Montgomery parameters for operations modulo $p$.
+    #[derive_where(skip(Debug))]
     monty_params_mod_p: <<P::HalfUint as Integer>::Monty as Monty>::Params,
     /// Montgomery parameters for operations modulo $q$.
+    #[derive_where(skip(Debug))]
     monty_params_mod_q: <<P::HalfUint as Integer>::Monty as Monty>::Params,
     /// The precomputed public key
     public_key: PublicKeyPaillier<P>,
-- 
2.43.0


From fd9cc5b9ad4b7dd5a02c5148f824521db56e927f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 08/21] fix: evaluate public polynomials with one coefficient

---
 src/tools/sss.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/sss.rs b/src/tools/sss.rs
index 62dc040..c3e8783 100644
--- a/src/tools/sss.rs
+++ b/src/tools/sss.rs
@@ -39,7 +39,7 @@ where
     Coef: Copy + Add<Coef, Output = Coef> + for<'a> Mul<&'a Scalar<P>, Output = Coef> + Clone,
     P: SchemeParams,
 {
-    assert!(coeffs.len() > 1, "Expected coefficients to be non-empty");
+    assert!(!coeffs.is_empty(), "Expected coefficients to be non-empty");
     // Evaluate in reverse to save on multiplications.
     // Basically: a0 + a1 x + a2 x^2 + a3 x^3 == (((a3 x) + a2) x + a1) x + a0
 
-- 
2.43.0


From 926debcbb55a6f5ccf41e069c6248098951baec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 09/21] fix: refuse a threshold of zero

---
 src/entities/threshold.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entities/threshold.rs b/src/entities/threshold.rs
index bf49165..f3e70c5 100644
--- a/src/entities/threshold.rs
+++ b/src/entities/threshold.rs
@@ -67,9 +67,9 @@ where
         threshold: usize,
         signing_key: Option<&SigningKey<P::Curve>>,
     ) -> Result<BTreeMap<I, Self>, LocalError> {
-        if threshold > ids.len() {
+        if threshold == 0 || threshold > ids.len() {
             return Err(LocalError::new(format!(
-                "Invalid threshold ({threshold}). Must be smaller than {}",
+                "Invalid threshold ({threshold}). Must be between 1 and {}",
                 ids.len()
             )));
         }
-- 
2.43.0


From ea826e3cd6ef59db665ac8ca032bc9b2a8c9e267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 10/21] fix: ThresholdKeyShare::to_key_share checks its
 arguments in all builds

---
 src/entities/threshold.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/entities/threshold.rs b/src/entities/threshold.rs
index f3e70c5..bb4544f 100644
--- a/src/entities/threshold.rs
+++ b/src/entities/threshold.rs
@@ -139,12 +139,23 @@ where
             .ok_or_else(|| LocalError::new("The combined verifying key is an identity"))
     }
 
-    /// Converts a t-of-n key share into a t-of-t key share
-    /// (for the `t` share indices supplied as `share_ids`)
+    /// Converts a t-of-n key share into a k-of-k key share
+    /// (for the `k >= t` parties supplied as `ids`, which must include the owner of this share)
     /// that can be used in the presigning/signing protocols.
     pub fn to_key_share(&self, ids: &BTreeSet<I>) -> Result<KeyShare<P, I>, LocalError> {
-        debug_assert!(ids.len() == self.threshold as usize);
-        debug_assert!(ids.iter().any(|id| id == &self.owner));
+        if ids.len() < self.threshold as usize {
+            return Err(LocalError::new(format!(
+                "Not enough shares ({}) to reach the threshold ({})",
+                ids.len(),
+                self.threshold
+            )));
+        }
+        if !ids.contains(&self.owner) {
+            return Err(LocalError::new(format!(
+                "The given set of shares must include the owner={:?}",
+                self.owner
+            )));
+        }
 
         let owner_share_id = self
             .share_ids
-- 
2.43.0


From e259d6e0b255db0752bed589db2f3f755c05e058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 11/21] fix: refuse a key share update that leads to the zero
 key

---
 src/entities/full.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/entities/full.rs b/src/entities/full.rs
index 7f010ee..6102dec 100644
--- a/src/entities/full.rs
+++ b/src/entities/full.rs
@@ -207,11 +207,7 @@ where
             })
             .collect::<Result<BTreeMap<_, _>, LocalError>>()?;
 
-        Ok(Self {
-            owner: self.owner,
-            secret,
-            public: PublicKeyShares(public_shares.into()),
-        })
+        Self::new(self.owner, secret, public_shares)
     }
 
     /// Creates a set of random self-consistent key shares
-- 
2.43.0


From e3642599c27fa1e9c327204b0851e1fa6bf81cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:17 +0000
Subject: [PATCH 12/21] fix: refuse an even RSA modulus on deserialization

A remote party could crash others by sending an even modulus, for which no Montgomery parameters exist.
---
 src/paillier/rsa.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/paillier/rsa.rs b/src/paillier/rsa.rs
index 3d34220..7ace0f4 100644
--- a/src/paillier/rsa.rs
+++ b/src/paillier/rsa.rs
@@ -227,8 +227,27 @@ impl<P: PaillierParams> SecretPrimes<P> {
 ///
 /// Suitable for serialization or transmission.
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
+#[serde(try_from = "UncheckedModulus<P>")]
 pub(crate) struct PublicModulusWire<P: PaillierParams>(PublicUint<P::Uint>);
 
+/// The deserialized modulus before validation.
+#[derive(Deserialize)]
+#[serde(rename = "PublicModulusWire")]
+struct UncheckedModulus<P: PaillierParams>(PublicUint<P::Uint>);
+
+impl<P: PaillierParams> TryFrom<UncheckedModulus<P>> for PublicModulusWire<P> {
+    type Error = &'static str;
+
+    fn try_from(source: UncheckedModulus<P>) -> Result<Self, Self::Error> {
+        // The precomputed parameters only exist for odd moduli.
+        if bool::from(source.0.is_odd()) {
+            Ok(Self(source.0))
+        } else {
+            Err("The RSA modulus must be odd")
+        }
+    }
+}
+
 impl<P: PaillierParams> PublicModulusWire<P> {
     fn new(primes: &SecretPrimesWire<P>) -> Self {
         Self(primes.p.expose_secret().mul_wide(primes.q.expose_secret()).into())
-- 
2.43.0


From d854cd9119febfb11d702e65d497125579aa4840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:30 +0000
Subject: [PATCH 13/21] fix: reject proofs about non-invertible values instead
 of panicking

Verification raises values chosen by another node to negative powers, which panicked if they were not invertible.
---
 src/paillier/encryption.rs    |  7 +++++++
 src/paillier/ring_pedersen.rs | 14 +++++++++++++-
 src/zk/aff_g.rs               |  5 +++++
 src/zk/aff_g_star.rs          |  5 +++++
 src/zk/dec.rs                 |  5 +++++
 src/zk/fac.rs                 | 10 ++++++++--
 src/zk/prm.rs                 |  5 +++++
 7 files changed, 48 insertions(+), 3 deletions(-)

diff --git a/src/paillier/encryption.rs b/src/paillier/encryption.rs
index 70b88f9..0ddf18d 100644
--- a/src/paillier/encryption.rs
+++ b/src/paillier/encryption.rs
@@ -260,6 +260,13 @@ impl<P: PaillierParams> Ciphertext<P> {
         Randomizer::new_mod(randomizer_mod)
     }
 
+    /// Returns `true` if the ciphertext is invertible modulo $N^2$, as a result of encryption always is.
+    ///
+    /// Has to be checked for ciphertexts received from other nodes before using them with negative exponents.
+    pub fn is_invertible(&self) -> bool {
+        self.ciphertext.invert().is_some().into()
+    }
+
     fn homomorphic_neg_ref(&self) -> Self {
         Self {
             pk: self.pk.clone(),
diff --git a/src/paillier/ring_pedersen.rs b/src/paillier/ring_pedersen.rs
index 66b2a78..5fb6702 100644
--- a/src/paillier/ring_pedersen.rs
+++ b/src/paillier/ring_pedersen.rs
@@ -1,7 +1,7 @@
 /// Implements the Definition 3.3 from the CGGMP'21 paper and related operations.
 use core::ops::Mul;
 
-use crypto_bigint::{modular::Retrieve, Integer, Monty, NonZero, RandomMod, ShrVartime};
+use crypto_bigint::{modular::Retrieve, Integer, Invert, Monty, NonZero, RandomMod, ShrVartime};
 use rand_core::CryptoRngCore;
 use serde::{Deserialize, Serialize};
 
@@ -124,6 +124,11 @@ impl<P: PaillierParams> RPParams<P> {
         self.modulus.monty_params_mod_n()
     }
 
+    /// Returns `true` if both bases are invertible modulo $\hat{N}$.
+    pub fn has_invertible_bases(&self) -> bool {
+        (self.base_randomizer.invert().is_some() & self.base_value.invert().is_some()).into()
+    }
+
     /// Creates a commitment for a secret `value` with a secret `randomizer`.
     pub fn commit<V, R>(&self, value: &V, randomizer: &R) -> RPCommitment<P>
     where
@@ -195,6 +200,13 @@ impl<P: PaillierParams> RPCommitment<P> {
         RPCommitmentWire(self.0.retrieve().into())
     }
 
+    /// Returns `true` if the commitment is invertible modulo $\hat{N}$, as a result of committing always is.
+    ///
+    /// Has to be checked for commitments received from other nodes before using them with negative exponents.
+    pub fn is_invertible(&self) -> bool {
+        self.0.invert().is_some().into()
+    }
+
     /// Raise to the power of `exponent`.
     pub fn pow<V>(&self, exponent: &V) -> Self
     where
diff --git a/src/zk/aff_g.rs b/src/zk/aff_g.rs
index 5c1c246..ede999e 100644
--- a/src/zk/aff_g.rs
+++ b/src/zk/aff_g.rs
@@ -211,6 +211,11 @@ impl<P: SchemeParams> AffGProof<P> {
             return false;
         }
 
+        // Those may come from another node, and can be raised to negative powers below
+        if !public.cap_c.is_invertible() || !public.cap_y.is_invertible() {
+            return false;
+        }
+
         // C (*) z_1 (+) enc_0(z_2, w) == A (+) D (*) e
         if public.cap_c * &self.z1 + Ciphertext::new_public_with_randomizer(public.pk0, &self.z2, &self.w)
             != public.cap_d * &e + self.cap_a.to_precomputed(public.pk0)
diff --git a/src/zk/aff_g_star.rs b/src/zk/aff_g_star.rs
index 697c616..c0720b3 100644
--- a/src/zk/aff_g_star.rs
+++ b/src/zk/aff_g_star.rs
@@ -201,6 +201,11 @@ impl<P: SchemeParams> AffGStarProof<P> {
             return false;
         }
 
+        // Those may come from another node, and can be raised to negative powers below
+        if !public.cap_c.is_invertible() || !public.cap_y.is_invertible() {
+            return false;
+        }
+
         for ((e_bit, commitment), element) in e
             .bits()
             .iter()
diff --git a/src/zk/dec.rs b/src/zk/dec.rs
index cb92ac8..ff13392 100644
--- a/src/zk/dec.rs
+++ b/src/zk/dec.rs
@@ -206,6 +206,11 @@ impl<P: SchemeParams> DecProof<P> {
             return false;
         }
 
+        // It may come from another node, and can be raised to negative powers below
+        if !public.cap_k.is_invertible() {
+            return false;
+        }
+
         for ((e_bit, commitment), element) in e
             .bits()
             .iter()
diff --git a/src/zk/fac.rs b/src/zk/fac.rs
index f755b11..fc86f68 100644
--- a/src/zk/fac.rs
+++ b/src/zk/fac.rs
@@ -180,19 +180,25 @@ impl<P: SchemeParams> FacProof<P> {
             return false;
         }
 
+        let cap_p = self.cap_p.to_precomputed(setup);
+        let cap_q = self.cap_q.to_precomputed(setup);
+
+        // Those come from another node, and can be raised to negative powers below
+        if !cap_p.is_invertible() || !cap_q.is_invertible() {
+            return false;
+        }
+
         // R = s^{N_0}
         let cap_r = &setup.commit_zero_randomizer(&pk0.modulus_signed());
 
         // s^{z_1} t^{w_1} == A P^e \mod \hat{N}
         let cap_a = self.cap_a.to_precomputed(setup);
-        let cap_p = self.cap_p.to_precomputed(setup);
         if setup.commit(&self.z1, &self.w1) != &cap_a * &cap_p.pow(&e) {
             return false;
         }
 
         // s^{z_2} t^{w_2} == B Q^e \mod \hat{N}
         let cap_b = self.cap_b.to_precomputed(setup);
-        let cap_q = self.cap_q.to_precomputed(setup);
         if setup.commit(&self.z2, &self.w2) != &cap_b * &cap_q.pow(&e) {
             return false;
         }
diff --git a/src/zk/prm.rs b/src/zk/prm.rs
index c5d0240..fd9498d 100644
--- a/src/zk/prm.rs
+++ b/src/zk/prm.rs
@@ -116,6 +116,11 @@ impl<P: SchemeParams> PrmProof<P> {
             return false;
         }
 
+        // The bases are going to be raised to negative powers
+        if !setup.has_invertible_bases() {
+            return false;
+        }
+
         for ((e, z), a) in challenge
             .0
             .bits()
-- 
2.43.0


From 8bbfc7e64baa8d8011148133170ac2196807750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:47 +0000
Subject: [PATCH 14/21] fix: combine bit vectors of different lengths instead
 of panicking

The rid and rho values come from other nodes, which may choose their length.
---
 src/tools/bitvec.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tools/bitvec.rs b/src/tools/bitvec.rs
index 2484b7e..be730cd 100644
--- a/src/tools/bitvec.rs
+++ b/src/tools/bitvec.rs
@@ -90,7 +90,12 @@ impl BitVec {
 
 impl BitXorAssign<&BitVec> for BitVec {
     fn bitxor_assign(&mut self, rhs: &BitVec) {
-        assert!(self.0.len() == rhs.0.len());
+        // The operand may come from another node; the shorter vector counts as padded with zeros.
+        if self.0.len() < rhs.0.len() {
+            let mut bits = self.0.to_vec();
+            bits.resize(rhs.0.len(), false);
+            self.0 = bits.into();
+        }
         for (lhs, rhs) in self.0.iter_mut().zip(rhs.0.iter()) {
             *lhs ^= rhs
         }
-- 
2.43.0


From ec5ef03ad25c6b538a5d03bb933cd0c44b771ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 15/21] fix: KeyResharing: report misbehaviour instead of
 panicking

---
 src/protocols/key_resharing.rs | 55 +++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/protocols/key_resharing.rs b/src/protocols/key_resharing.rs
index 2a55759..b342c26 100644
--- a/src/protocols/key_resharing.rs
+++ b/src/protocols/key_resharing.rs
@@ -12,6 +12,7 @@ use alloc::{
     boxed::Box,
     collections::{BTreeMap, BTreeSet},
     format,
+    string::ToString,
     vec::Vec,
 };
 use core::{fmt::Debug, marker::PhantomData};
@@ -20,8 +21,8 @@ use ecdsa::VerifyingKey;
 use manul::protocol::{
     Artifact, BoxedFormat, BoxedRound, CommunicationInfo, DirectMessage, EchoBroadcast, EchoRoundParticipation,
     EntryPoint, FinalizeOutcome, LocalError, MessageValidationError, NormalBroadcast, PartyId, Payload, Protocol,
-    ProtocolError, ProtocolMessage, ProtocolMessagePart, ProtocolValidationError, ReceiveError, RequiredMessages,
-    Round, RoundId, TransitionInfo,
+    ProtocolError, ProtocolMessage, ProtocolMessagePart, ProtocolValidationError, ReceiveError, RequiredMessageParts,
+    RequiredMessages, Round, RoundId, TransitionInfo,
 };
 use rand_core::CryptoRngCore;
 use serde::{Deserialize, Serialize};
@@ -46,27 +47,36 @@ impl<P: SchemeParams, I: PartyId> Protocol<I> for KeyResharingProtocol<P, I> {
     type ProtocolError = KeyResharingError;
 
     fn verify_direct_message_is_invalid(
-        _format: &BoxedFormat,
-        _round_id: &RoundId,
-        _message: &DirectMessage,
+        format: &BoxedFormat,
+        round_id: &RoundId,
+        message: &DirectMessage,
     ) -> Result<(), MessageValidationError> {
-        unimplemented!()
+        match round_id {
+            r if r == &1 => message.verify_is_not::<Round1DirectMessage<P>>(format),
+            _ => Err(MessageValidationError::InvalidEvidence("Invalid round number".into())),
+        }
     }
 
     fn verify_echo_broadcast_is_invalid(
-        _format: &BoxedFormat,
-        _round_id: &RoundId,
-        _message: &EchoBroadcast,
+        format: &BoxedFormat,
+        round_id: &RoundId,
+        message: &EchoBroadcast,
     ) -> Result<(), MessageValidationError> {
-        unimplemented!()
+        match round_id {
+            r if r == &1 => message.verify_is_not::<Round1BroadcastMessage<P>>(format),
+            _ => Err(MessageValidationError::InvalidEvidence("Invalid round number".into())),
+        }
     }
 
     fn verify_normal_broadcast_is_invalid(
         _format: &BoxedFormat,
-        _round_id: &RoundId,
-        _message: &NormalBroadcast,
+        round_id: &RoundId,
+        message: &NormalBroadcast,
     ) -> Result<(), MessageValidationError> {
-        unimplemented!()
+        match round_id {
+            r if r == &1 => message.verify_is_some(),
+            _ => Err(MessageValidationError::InvalidEvidence("Invalid round number".into())),
+        }
     }
 }
 
@@ -83,7 +93,7 @@ impl<I> ProtocolError<I> for KeyResharingError {
     type AssociatedData = ();
 
     fn required_messages(&self) -> RequiredMessages {
-        unimplemented!()
+        RequiredMessages::new(RequiredMessageParts::echo_broadcast().and_direct_message(), None, None)
     }
 
     fn verify_messages_constitute_error(
@@ -96,7 +106,10 @@ impl<I> ProtocolError<I> for KeyResharingError {
         _previous_messages: BTreeMap<RoundId, ProtocolMessage>,
         _combined_echos: BTreeMap<RoundId, BTreeMap<I, EchoBroadcast>>,
     ) -> Result<(), ProtocolValidationError> {
-        unimplemented!()
+        // The evidence does not include the lists of old and new holders.
+        Err(ProtocolValidationError::InvalidEvidence(
+            "Errors of the resharing protocol cannot be proven by messages".into(),
+        ))
     }
 }
 
@@ -358,7 +371,9 @@ impl<P: SchemeParams, I: PartyId> Round<I> for Round1<P, I> {
                 // Check that the public polynomial sent in the broadcast corresponds to the secret share
                 // sent in the direct message.
                 if public_subshare_from_poly != public_subshare_from_private {
-                    return Err(ReceiveError::protocol(KeyResharingError::SubshareMismatch));
+                    return Err(ReceiveError::unprovable(
+                        KeyResharingError::SubshareMismatch.to_string(),
+                    ));
                 }
 
                 return Ok(Payload::new(Round1Payload {
@@ -368,7 +383,9 @@ impl<P: SchemeParams, I: PartyId> Round<I> for Round1<P, I> {
                 }));
             }
         }
-        Err(ReceiveError::protocol(KeyResharingError::UnexpectedSender))
+        Err(ReceiveError::unprovable(
+            KeyResharingError::UnexpectedSender.to_string(),
+        ))
     }
 
     fn finalize(
@@ -425,7 +442,9 @@ impl<P: SchemeParams, I: PartyId> Round<I> for Round1<P, I> {
             // TODO (#113): this is unattributable.
             // Should we add an enum variant to `FinalizeError`?
             // or take the public shares as an input (assuming the nodes published those previously)
-            panic!("Invalid shares");
+            return Err(LocalError::new(
+                "The old shares do not add up to the expected verifying key",
+            ));
         }
 
         // Assemble the new share.
-- 
2.43.0


From 0aacda4ff6cb2dfeb49596986d4ad188179d1cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 16/21] fix: KeyResharing: refuse polynomials of a degree that
 does not match the new threshold

---
 src/protocols/key_resharing.rs | 8 ++++++++
 src/tools/sss.rs               | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/protocols/key_resharing.rs b/src/protocols/key_resharing.rs
index b342c26..ed76b1c 100644
--- a/src/protocols/key_resharing.rs
+++ b/src/protocols/key_resharing.rs
@@ -87,6 +87,8 @@ pub enum KeyResharingError {
     UnexpectedSender,
     /// Mismatch of the subshare
     SubshareMismatch,
+    /// The degree of the polynomial does not match the new threshold
+    WrongDegree,
 }
 
 impl<I> ProtocolError<I> for KeyResharingError {
@@ -365,6 +367,12 @@ impl<P: SchemeParams, I: PartyId> Round<I> for Round1<P, I> {
                     "my_id={:?} is missing from the new_share_ids",
                     &self.my_id
                 )))?;
+
+                // A polynomial of a higher degree would make the new threshold too low to restore the key.
+                if echo_broadcast.public_polynomial.num_coeffs() != self.new_threshold {
+                    return Err(ReceiveError::unprovable(KeyResharingError::WrongDegree.to_string()));
+                }
+
                 let public_subshare_from_poly = echo_broadcast.public_polynomial.evaluate(my_share_id);
                 let public_subshare_from_private = Secret::mul_by_generator(&direct_message.subshare);
 
diff --git a/src/tools/sss.rs b/src/tools/sss.rs
index c3e8783..65e7833 100644
--- a/src/tools/sss.rs
+++ b/src/tools/sss.rs
@@ -98,6 +98,10 @@ where
         evaluate_polynomial(&self.0, &x.0)
     }
 
+    pub fn num_coeffs(&self) -> usize {
+        self.0.len()
+    }
+
     pub fn coeff0(&self) -> Result<&Point<P>, LocalError> {
         self.0
             .first()
-- 
2.43.0


From c409d22f613b0480d6332cad40f6de64988630d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 17/21] fix: KeyResharing: check the parameters at the start

---
 src/protocols/key_resharing.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/protocols/key_resharing.rs b/src/protocols/key_resharing.rs
index ed76b1c..b230ef7 100644
--- a/src/protocols/key_resharing.rs
+++ b/src/protocols/key_resharing.rs
@@ -199,6 +199,24 @@ where
             return Err(LocalError::new("Either old holder or new holder data must be provided"));
         };
 
+        if self.new_threshold == 0 || self.new_threshold > self.new_holders.len() {
+            return Err(LocalError::new(
+                "The new threshold must be positive and not greater than the number of new holders",
+            ));
+        }
+
+        if let Some(new_holder) = self.new_holder.as_ref() {
+            if !self.new_holders.contains(id) {
+                return Err(LocalError::new("This node is not in the list of new holders"));
+            }
+            if new_holder.old_holders.len() < new_holder.old_threshold {
+                return Err(LocalError::new("The number of old holders is below the old threshold"));
+            }
+            if self.old_holder.is_some() && !new_holder.old_holders.contains(id) {
+                return Err(LocalError::new("This node is not in the list of old holders"));
+            }
+        }
+
         let message_destinations = if self.old_holder.is_some() {
             // It is possible that a party is both an old holder and a new holder.
             // This will be processed separately.
-- 
2.43.0


From 8dbefb72d7b5196ec681bd008ac6c15cd0cf80b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:43 +0000
Subject: [PATCH 18/21] fix: InteractiveSigning: check the IDs in the hat maps
 of round 2

---
 src/protocols/interactive_signing.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index 5a69056..6ee773a 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -417,7 +417,10 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .keys()
                     .collect::<BTreeSet<_>>()
                     .without(&guilty_party);
-                verify_that(r2_nb.cap_ds.keys().collect::<BTreeSet<_>>() != expected_ids)
+                verify_that(
+                    r2_nb.cap_ds.keys().collect::<BTreeSet<_>>() != expected_ids
+                        || r2_nb.hat_cap_ds.keys().collect::<BTreeSet<_>>() != expected_ids,
+                )
             }
             Error::R2WrongIdsF => {
                 let r2_eb = message
@@ -429,7 +432,10 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .keys()
                     .collect::<BTreeSet<_>>()
                     .without(&guilty_party);
-                verify_that(r2_eb.cap_fs.keys().collect::<BTreeSet<_>>() != expected_ids)
+                verify_that(
+                    r2_eb.cap_fs.keys().collect::<BTreeSet<_>>() != expected_ids
+                        || r2_eb.hat_cap_fs.keys().collect::<BTreeSet<_>>() != expected_ids,
+                )
             }
             Error::R2WrongIdsPsi => {
                 let r2_nb = message
@@ -441,7 +447,10 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .keys()
                     .collect::<BTreeSet<_>>()
                     .without(&guilty_party);
-                verify_that(r2_nb.psis.keys().collect::<BTreeSet<_>>() != expected_ids)
+                verify_that(
+                    r2_nb.psis.keys().collect::<BTreeSet<_>>() != expected_ids
+                        || r2_nb.hat_psis.keys().collect::<BTreeSet<_>>() != expected_ids,
+                )
             }
             Error::R2AffGPsiFailed { failed_for } => {
                 let r1_eb = combined_echos
@@ -1557,15 +1566,21 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round2<P, Id> {
 
         let expected_ids = self.context.all_ids.clone().without(from);
 
-        if normal_broadcast.cap_ds.keys().cloned().collect::<BTreeSet<_>>() != expected_ids {
+        if normal_broadcast.cap_ds.keys().cloned().collect::<BTreeSet<_>>() != expected_ids
+            || normal_broadcast.hat_cap_ds.keys().cloned().collect::<BTreeSet<_>>() != expected_ids
+        {
             return Err(ReceiveError::protocol(Error::R2WrongIdsD.into()));
         }
 
-        if echo_broadcast.cap_fs.keys().cloned().collect::<BTreeSet<_>>() != expected_ids {
+        if echo_broadcast.cap_fs.keys().cloned().collect::<BTreeSet<_>>() != expected_ids
+            || echo_broadcast.hat_cap_fs.keys().cloned().collect::<BTreeSet<_>>() != expected_ids
+        {
             return Err(ReceiveError::protocol(Error::R2WrongIdsF.into()));
         }
 
-        if normal_broadcast.psis.keys().cloned().collect::<BTreeSet<_>>() != expected_ids {
+        if normal_broadcast.psis.keys().cloned().collect::<BTreeSet<_>>() != expected_ids
+            || normal_broadcast.hat_psis.keys().cloned().collect::<BTreeSet<_>>() != expected_ids
+        {
             return Err(ReceiveError::protocol(Error::R2WrongIdsPsi.into()));
         }
 
-- 
2.43.0


From 40d7d938dc6a6add7704c121c0118b657453047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:24 +0000
Subject: [PATCH 19/21] fix: InteractiveSigning: verify evidence against the
 same statements as on receiving

---
 src/protocols/interactive_signing.rs | 67 ++++++++++++++--------------
 1 file changed, 34 insertions(+), 33 deletions(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index 6ee773a..92c0732 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -298,7 +298,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     ]
                     .into(),
                 ),
-                None,
+                Some([2.into()].into()),
             ),
             Error::R4InvalidSignatureShare => RequiredMessages::new(
                 RequiredMessageParts::normal_broadcast(),
@@ -327,7 +327,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
             Error::R5AffGStarFailed { .. } => RequiredMessages::new(
                 RequiredMessageParts::echo_broadcast(),
                 Some([(2.into(), RequiredMessageParts::echo_broadcast().and_normal_broadcast())].into()),
-                Some([1.into(), 2.into()].into()),
+                Some([1.into()].into()),
             ),
             Error::R6DecFailed => RequiredMessages::new(
                 RequiredMessageParts::echo_broadcast(),
@@ -344,8 +344,8 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
             Error::R6WrongIdsPsi => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
             Error::R6AffGStarFailed { .. } => RequiredMessages::new(
                 RequiredMessageParts::echo_broadcast(),
-                None,
-                Some([1.into(), 2.into()].into()),
+                Some([(2.into(), RequiredMessageParts::echo_broadcast().and_normal_broadcast())].into()),
+                Some([1.into()].into()),
             ),
         }
     }
@@ -503,7 +503,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .normal_broadcast
                     .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
 
-                let cap_x = associated_data.shares.as_map().try_get("shares", failed_for)?;
+                let cap_x = associated_data.shares.as_map().try_get("shares", guilty_party)?;
 
                 let failed_for_aux = &associated_data.aux.as_map().try_get("aux infos", failed_for)?;
                 let guilty_party_aux = &associated_data.aux.as_map().try_get("aux infos", guilty_party)?;
@@ -571,18 +571,23 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .get_round(2)?
                     .echo_broadcast
                     .deserialize::<Round2EchoBroadcast<P, Id>>(format)?;
+                let r2_ebs = combined_echos
+                    .get_round(2)?
+                    .deserialize_all::<Round2EchoBroadcast<P, Id>>(format)?;
                 let r3_nb = message
                     .normal_broadcast
                     .deserialize::<Round3NormalBroadcast<P>>(format)?;
                 let aux = (&epid, guilty_party);
 
+                let total_cap_gamma = r2_eb.cap_gamma + r2_ebs.values().map(|eb| eb.cap_gamma).sum();
+
                 verify_that(!r3_nb.psi_prime.verify(
                     ElogPublicInputs {
                         cap_l: &r1_eb.cap_a1,
                         cap_m: &r1_eb.cap_a2,
                         cap_x: &r1_eb.cap_y,
                         cap_y: &r3_nb.cap_delta,
-                        h: &r2_eb.cap_gamma,
+                        h: &total_cap_gamma,
                     },
                     &aux,
                 ))
@@ -698,8 +703,8 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
             }
             Error::R5WrongIdsPsi => {
                 // TODO (#188): currently unreachable from tests
-                let r5_nb = message
-                    .normal_broadcast
+                let r5_eb = message
+                    .echo_broadcast
                     .deserialize::<Round5EchoBroadcast<P, Id>>(format)?;
                 let expected_ids = associated_data
                     .aux
@@ -707,16 +712,13 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .keys()
                     .collect::<BTreeSet<_>>()
                     .without(&guilty_party);
-                verify_that(r5_nb.psis.keys().collect::<BTreeSet<_>>() != expected_ids)
+                verify_that(r5_eb.psis.keys().collect::<BTreeSet<_>>() != expected_ids)
             }
             Error::R5AffGStarFailed { failed_for } => {
                 // TODO (#188): currently unreachable from tests
                 let r1_ebs = combined_echos
                     .get_round(1)?
                     .deserialize_all::<Round1EchoBroadcast<P>>(format)?;
-                let r2_ebs = combined_echos
-                    .get_round(2)?
-                    .deserialize_all::<Round2EchoBroadcast<P, Id>>(format)?;
                 let r2_nb = previous_messages
                     .get_round(2)?
                     .normal_broadcast
@@ -749,20 +751,19 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .try_get("Round 1 echo broadcasts", failed_for)?
                     .cap_k
                     .to_precomputed(&failed_for_pk);
-                let cap_f = r2_ebs
-                    .try_get("Round 2 echo broadcasts", failed_for)?
+                let cap_f = r2_eb
                     .cap_fs
-                    .try_get("`F` map", guilty_party)?
+                    .try_get("`F` map", failed_for)?
                     .to_precomputed(&guilty_party_pk);
 
                 let psi = r5_eb.psis.try_get("`\\{psi}` map", failed_for)?;
 
                 verify_that(!psi.verify(
                     AffGStarPublicInputs {
-                        pk0: &guilty_party_pk,
-                        pk1: &failed_for_pk,
-                        cap_c: &cap_d,
-                        cap_d: &cap_k,
+                        pk0: &failed_for_pk,
+                        pk1: &guilty_party_pk,
+                        cap_c: &cap_k,
+                        cap_d: &cap_d,
                         cap_y: &cap_f,
                         cap_x: &r2_eb.cap_gamma,
                     },
@@ -850,8 +851,8 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
             }
             Error::R6WrongIdsPsi => {
                 // TODO (#188): currently unreachable from tests
-                let r6_nb = message
-                    .normal_broadcast
+                let r6_eb = message
+                    .echo_broadcast
                     .deserialize::<Round6EchoBroadcast<P, Id>>(format)?;
                 let expected_ids = associated_data
                     .aux
@@ -859,20 +860,21 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .keys()
                     .collect::<BTreeSet<_>>()
                     .without(&guilty_party);
-                verify_that(r6_nb.hat_psis.keys().collect::<BTreeSet<_>>() != expected_ids)
+                verify_that(r6_eb.hat_psis.keys().collect::<BTreeSet<_>>() != expected_ids)
             }
             Error::R6AffGStarFailed { failed_for } => {
                 // TODO (#188): currently unreachable from tests
                 let r1_ebs = combined_echos
                     .get_round(1)?
                     .deserialize_all::<Round1EchoBroadcast<P>>(format)?;
-                let r2_ebs = combined_echos
-                    .get_round(2)?
-                    .deserialize_all::<Round2EchoBroadcast<P, Id>>(format)?;
                 let r2_nb = previous_messages
                     .get_round(2)?
                     .normal_broadcast
                     .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
+                let r2_eb = previous_messages
+                    .get_round(2)?
+                    .echo_broadcast
+                    .deserialize::<Round2EchoBroadcast<P, Id>>(format)?;
                 let r6_eb = message
                     .echo_broadcast
                     .deserialize::<Round6EchoBroadcast<P, Id>>(format)?;
@@ -885,7 +887,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                 let guilty_party_pk = guilty_party_aux.paillier_pk.clone().into_precomputed();
                 let aux = (&epid, guilty_party);
 
-                let cap_x = associated_data.shares.as_map().try_get("shares", failed_for)?;
+                let cap_x = associated_data.shares.as_map().try_get("shares", guilty_party)?;
 
                 // l = failed_for
                 // j = guilty_party
@@ -899,20 +901,19 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .try_get("Round 1 echo broadcasts", failed_for)?
                     .cap_k
                     .to_precomputed(&failed_for_pk);
-                let hat_cap_f = r2_ebs
-                    .try_get("Round 2 echo broadcasts", failed_for)?
+                let hat_cap_f = r2_eb
                     .hat_cap_fs
-                    .try_get("`\\hat{F}` map", guilty_party)?
+                    .try_get("`\\hat{F}` map", failed_for)?
                     .to_precomputed(&guilty_party_pk);
 
                 let hat_psi = r6_eb.hat_psis.try_get("`\\hat{\\psi}` map", failed_for)?;
 
                 verify_that(!hat_psi.verify(
                     AffGStarPublicInputs {
-                        pk0: &guilty_party_pk,
-                        pk1: &failed_for_pk,
-                        cap_c: &hat_cap_d,
-                        cap_d: &cap_k,
+                        pk0: &failed_for_pk,
+                        pk1: &guilty_party_pk,
+                        cap_c: &cap_k,
+                        cap_d: &hat_cap_d,
                         cap_y: &hat_cap_f,
                         cap_x,
                     },
-- 
2.43.0


From 1d5db0290022650ec61400f09879a463d7477c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 20/21] fix: KeyResharing: refuse a key share of another party

---
 src/protocols/key_resharing.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/protocols/key_resharing.rs b/src/protocols/key_resharing.rs
index b230ef7..e728852 100644
--- a/src/protocols/key_resharing.rs
+++ b/src/protocols/key_resharing.rs
@@ -205,6 +205,12 @@ where
             ));
         }
 
+        if let Some(old_holder) = self.old_holder.as_ref() {
+            if &old_holder.key_share.owner != id {
+                return Err(LocalError::new("The old key share does not belong to this node"));
+            }
+        }
+
         if let Some(new_holder) = self.new_holder.as_ref() {
             if !self.new_holders.contains(id) {
                 return Err(LocalError::new("This node is not in the list of new holders"));
-- 
2.43.0


From 003c65d9d6e5820bfa9718031f9f02949683c409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:41 +0000
Subject: [PATCH 21/21] fix: SecretKeyPaillier: keep the Montgomery parameters
 modulo the primes in Secret

They hold the primes, were stored inline, and stayed in the memory of a
released key, readable.
---
 src/paillier/keys.rs   | 28 +++++++++++++---------------
 src/paillier/params.rs |  5 +++--
 2 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/paillier/keys.rs b/src/paillier/keys.rs
index 5d2a820..0d08b7d 100644
--- a/src/paillier/keys.rs
+++ b/src/paillier/keys.rs
@@ -60,14 +60,10 @@ pub(crate) struct SecretKeyPaillier<P: PaillierParams> {
     inv_p_mod_q: Secret<<P::HalfUint as Integer>::Monty>,
     // $u$ such that $u = -1 \mod p$ and $u = 1 \mod q$. Used for sampling of non-square residues.
     nonsquare_sampling_constant: Secret<<P::Uint as Integer>::Monty>,
-    // TODO (#162): these should be secret, but they are not zeroizable.
-    // They contain the primes, so they are left out of the debug output.
     /// Montgomery parameters for operations modulo $p$.
-    #[derive_where(skip(Debug))]
-    monty_params_mod_p: <<P::HalfUint as Integer>::Monty as Monty>::Params,
+    monty_params_mod_p: Secret<<<P::HalfUint as Integer>::Monty as Monty>::Params>,
     /// Montgomery parameters for operations modulo $q$.
-    #[derive_where(skip(Debug))]
-    monty_params_mod_q: <<P::HalfUint as Integer>::Monty as Monty>::Params,
+    monty_params_mod_q: Secret<<<P::HalfUint as Integer>::Monty as Monty>::Params>,
     /// The precomputed public key
     public_key: PublicKeyPaillier<P>,
 }
@@ -80,10 +76,12 @@ where
         let primes = secret_key.primes.into_precomputed();
         let modulus = primes.modulus_wire().into_precomputed();
 
-        let monty_params_mod_p =
-            <P::HalfUint as Integer>::Monty::new_params_vartime(primes.p_half_odd().expose_secret().clone());
-        let monty_params_mod_q =
-            <P::HalfUint as Integer>::Monty::new_params_vartime(primes.q_half_odd().expose_secret().clone());
+        let monty_params_mod_p = Secret::init_with(|| {
+            <P::HalfUint as Integer>::Monty::new_params_vartime(primes.p_half_odd().expose_secret().clone())
+        });
+        let monty_params_mod_q = Secret::init_with(|| {
+            <P::HalfUint as Integer>::Monty::new_params_vartime(primes.q_half_odd().expose_secret().clone())
+        });
 
         let inv_totient = Secret::init_with(|| {
             primes
@@ -108,7 +106,7 @@ where
         )
         .expect("We assume `P::MODULUS_BITS` is properly configured");
 
-        let p_mod = primes.p_half().to_montgomery(&monty_params_mod_q);
+        let p_mod = primes.p_half().to_montgomery(monty_params_mod_q.expose_secret());
         let inv_p_mod_q = Secret::init_with(|| {
             p_mod
                 .expose_secret()
@@ -124,7 +122,7 @@ where
 
         let one = Secret::init_with(|| {
             // TODO (#162): `monty_params_mod_q` is cloned here and can remain on the stack.
-            <<P::HalfUint as Integer>::Monty as Monty>::one(monty_params_mod_q.clone())
+            <<P::HalfUint as Integer>::Monty as Monty>::one(monty_params_mod_q.expose_secret().clone())
         });
         let t = (&inv_p_mod_q + &inv_p_mod_q - one).retrieve();
 
@@ -203,8 +201,8 @@ where
         let q_rem_half = P::HalfUint::try_from_wide(&q_rem).expect("`q` fits into `HalfUint`");
 
         // TODO (#162): `monty_params_mod_q` is cloned here and can remain on the stack.
-        let p_rem_mod = p_rem_half.to_montgomery(&self.monty_params_mod_p);
-        let q_rem_mod = q_rem_half.to_montgomery(&self.monty_params_mod_q);
+        let p_rem_mod = p_rem_half.to_montgomery(self.monty_params_mod_p.expose_secret());
+        let q_rem_mod = q_rem_half.to_montgomery(self.monty_params_mod_q.expose_secret());
 
         (p_rem_mod, q_rem_mod)
     }
@@ -256,7 +254,7 @@ where
         let (a_mod_p, b_mod_q) = rns;
 
         let a_half = a_mod_p.retrieve();
-        let a_mod_q = a_half.clone().to_montgomery(&self.monty_params_mod_q);
+        let a_mod_q = a_half.clone().to_montgomery(self.monty_params_mod_q.expose_secret());
         let x = ((b_mod_q.clone() - a_mod_q) * self.inv_p_mod_q.expose_secret()).retrieve();
         let a = a_half.to_wide();
 
diff --git a/src/paillier/params.rs b/src/paillier/params.rs
index b64e253..f1eac8f 100644
--- a/src/paillier/params.rs
+++ b/src/paillier/params.rs
@@ -1,7 +1,7 @@
 use crypto_bigint::{
     modular::Retrieve,
     subtle::{ConditionallyNegatable, ConditionallySelectable, ConstantTimeGreater, CtOption},
-    Bounded, Gcd, Integer, InvMod, Invert, PowBoundedExp, RandomBits, RandomMod,
+    Bounded, Gcd, Integer, InvMod, Invert, Monty, PowBoundedExp, RandomBits, RandomMod,
 };
 use crypto_primes::RandomPrimeWithRng;
 use zeroize::Zeroize;
@@ -21,7 +21,8 @@ pub trait PaillierParams: core::fmt::Debug + PartialEq + Eq + Clone + Send + Syn
 
     /// An integer that fits a single RSA prime.
     type HalfUint: Integer<
-            Monty: Retrieve<Output = Self::HalfUint>
+            Monty: Monty<Params: Zeroize>
+                       + Retrieve<Output = Self::HalfUint>
                        + Invert<Output = CtOption<<Self::HalfUint as Integer>::Monty>>
                        + Zeroize,
         > + Bounded
-- 
2.43.0

