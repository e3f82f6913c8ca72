From 16ab6bbf2911566824c9c3632334dc393b009573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 1/7] fix: SecretSigned::new_positive must check the value
 against the requested bound

---
 src/uint/secret_signed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uint/secret_signed.rs b/src/uint/secret_signed.rs
index 5334729..5ddbcb0 100644
--- a/src/uint/secret_signed.rs
+++ b/src/uint/secret_signed.rs
@@ -36,7 +36,7 @@ where
     pub fn new_positive(value: Secret<T>, bound: u32) -> CtOption<Self> {
         let in_bound = {
             let c1 = Choice::from((bound < T::BITS) as u8);
-            let c2 = Choice::from((value.expose_secret().bits() < T::BITS) as u8);
+            let c2 = Choice::from((value.expose_secret().bits() <= bound) as u8);
             c1 & c2
         };
         let new_positive = Self::new_from_unsigned_unchecked(value, bound);
-- 
2.43.0


From 0b4be72f1c203a26144746b86e569702c71d441b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 2/7] fix: hash-derived invertible residues must be below the
 modulus

---
 src/paillier/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paillier/rsa.rs b/src/paillier/rsa.rs
index ef0e5be..3d34220 100644
--- a/src/paillier/rsa.rs
+++ b/src/paillier/rsa.rs
@@ -309,7 +309,7 @@ impl<P: PaillierParams> PublicModulus<P> {
         let modulus_bits = self.modulus().bits_vartime();
         loop {
             let r = P::Uint::from_xof_reader(reader, modulus_bits);
-            if r.is_invertible(&self.modulus.0) {
+            if &r < self.modulus() && r.is_invertible(&self.modulus.0) {
                 return r;
             }
         }
-- 
2.43.0


From 080f2ec7704c604fb32ed7c809fb656b71d64ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 3/7] fix: reject PrmProof whose challenge, commitment and
 proof lengths differ

---
 src/zk/prm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zk/prm.rs b/src/zk/prm.rs
index 31e907b..ddf605e 100644
--- a/src/zk/prm.rs
+++ b/src/zk/prm.rs
@@ -110,6 +110,11 @@ impl<P: SchemeParams> PrmProof<P> {
             return false;
         }
 
+        let num_bits = challenge.0.bits().len();
+        if num_bits != self.commitment.0.len() || num_bits != self.proof.len() {
+            return false;
+        }
+
         for ((e, z), a) in challenge
             .0
             .bits()
-- 
2.43.0


From 8886e6dcf97b7eb4b8bf048bed16fb8b56234036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 4/7] fix: reject ModProof with a wrong number of proof
 elements

---
 src/zk/mod_.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zk/mod_.rs b/src/zk/mod_.rs
index 3b7d597..f4f3d5f 100644
--- a/src/zk/mod_.rs
+++ b/src/zk/mod_.rs
@@ -142,6 +142,10 @@ impl<P: SchemeParams> ModProof<P> {
             return false;
         }
 
+        if self.proof.len() != self.challenge.0.len() {
+            return false;
+        }
+
         let mut reader = Hasher::<P::Digest>::new_with_dst(b"P_mod RNG")
             // commitments
             .chain(&self.commitment)
-- 
2.43.0


From c8dd7f7908920021a603178626f3819f3520b6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 5/7] fix: make the encoding of a curve point total and unique

---
 src/curve/arithmetic.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/curve/arithmetic.rs b/src/curve/arithmetic.rs
index ac8d77c..37f1fc2 100644
--- a/src/curve/arithmetic.rs
+++ b/src/curve/arithmetic.rs
@@ -265,6 +265,16 @@ where
     }
 
     pub(crate) fn try_from_compressed_bytes(bytes: &[u8]) -> Result<Self, String> {
+        // Only the encoding produced by `to_compressed_array()` is accepted.
+        if bytes.len() != Self::identity().to_compressed_array().len() {
+            return Err("Invalid length of a compressed curve point".into());
+        }
+
+        // The identity is represented by all zeros
+        if bytes.iter().all(|byte| *byte == 0) {
+            return Ok(Self::identity());
+        }
+
         let ep = EncodedPoint::<P::Curve>::from_bytes(bytes).map_err(|err| format!("{err}"))?;
 
         // Unwrap CtOption into Option
@@ -277,9 +287,14 @@ where
     pub(crate) fn to_compressed_array(
         self,
     ) -> GenericArray<u8, <FieldBytesSize<P::Curve> as ModulusSize>::CompressedPointSize> {
-        GenericArray::from_exact_iter(
-            self.0.to_affine().to_encoded_point(true).as_bytes().iter().cloned(),
-        ).expect("An AffinePoint is composed of elements of the correct size and their slice repr fits in the `CompressedPointSize`-sized array.")
+        // The SEC1 encoding of the identity is shorter than that of any other point,
+        // so the rest of the array is left zeroed (which is not a valid encoding of any other point).
+        let mut array = GenericArray::default();
+        let encoded = self.0.to_affine().to_encoded_point(true);
+        for (dest, src) in array.iter_mut().zip(encoded.as_bytes()) {
+            *dest = *src;
+        }
+        array
     }
 
     pub(crate) fn to_backend(self) -> <P::Curve as CurveArithmetic>::ProjectivePoint {
-- 
2.43.0


From 6449404162fcdaf1ead13ef6279095a8e51bb286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 6/7] fix: do not print the secret primes in the debug output
 of SecretKeyPaillier

---
 src/paillier/keys.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/paillier/keys.rs b/src/paillier/keys.rs
index e7b2c70..2cea15e 100644
--- a/src/paillier/keys.rs
+++ b/src/paillier/keys.rs
@@ -47,7 +47,7 @@ impl<P: PaillierParams> SecretKeyPaillierWire<P> {
     }
 }
 
-#[derive(Debug, Clone)]
+#[derive(Clone)]
 pub(crate) struct SecretKeyPaillier<P: PaillierParams> {
     /// The secret primes with some precomputed constants,
     primes: SecretPrimes<P>,
@@ -68,6 +68,19 @@ pub(crate) struct SecretKeyPaillier<P: PaillierParams> {
     public_key: PublicKeyPaillier<P>,
 }
 
+// Cannot be derived: `Params` objects print their moduli, which are the secret primes here.
+impl<P> Debug for SecretKeyPaillier<P>
+where
+    P: PaillierParams,
+{
+    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+        f.debug_struct("SecretKeyPaillier")
+            .field("primes", &self.primes)
+            .field("public_key", &self.public_key)
+            .finish_non_exhaustive()
+    }
+}
+
 impl<P> SecretKeyPaillier<P>
 where
     P: PaillierParams,
-- 
2.43.0


From bee7784dd8fb7b03e561a203f9175ef8cd02de7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:24 +0000
Subject: [PATCH 7/7] fix: evaluate public polynomials with a single
 coefficient

The assertion that the coefficients are not empty rejected a polynomial
of one coefficient, so a threshold of one panicked.
---
 src/tools/sss.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/sss.rs b/src/tools/sss.rs
index 62dc040..c3e8783 100644
--- a/src/tools/sss.rs
+++ b/src/tools/sss.rs
@@ -39,7 +39,7 @@ where
     Coef: Copy + Add<Coef, Output = Coef> + for<'a> Mul<&'a Scalar<P>, Output = Coef> + Clone,
     P: SchemeParams,
 {
-    assert!(coeffs.len() > 1, "Expected coefficients to be non-empty");
+    assert!(!coeffs.is_empty(), "Expected coefficients to be non-empty");
     // Evaluate in reverse to save on multiplications.
     // Basically: a0 + a1 x + a2 x^2 + a3 x^3 == (((a3 x) + a2) x + a1) x + a0
 
-- 
2.43.0

