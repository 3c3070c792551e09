From a1455e045c0d633aae639a64776204cb39fcd207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:55 +0000
Subject: [PATCH 01/12] fix: use a primitive root as the generator of the BN256
 jubjub scalar field

7 is a quadratic residue modulo this prime, so the derived Tonelli-Shanks
square root never converged (panic in debug builds).
---
 src/native/bn256.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/native/bn256.rs b/src/native/bn256.rs
index 4020a8e..2f57ab3 100644
--- a/src/native/bn256.rs
+++ b/src/native/bn256.rs
@@ -11,7 +11,7 @@ pub use bellman::pairing::bn256::Fr;
 
 #[derive(PrimeField)]
 #[PrimeFieldModulus = "2736030358979909402780800718157159386076813972158567259200215660948447373041"]
-#[PrimeFieldGenerator = "7"]
+#[PrimeFieldGenerator = "31"]
 pub struct Fs(FsRepr);
 
 #[derive(Clone)]
-- 
2.43.0


From e1c8c401bc2a1f20c460887421062991bf908477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:55 +0000
Subject: [PATCH 02/12] fix: divide a constant signal by a signal, not the
 other way around

DivAssign computed other / self whenever the dividend was constant.
---
 src/circuit/num.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/circuit/num.rs b/src/circuit/num.rs
index 7793fbd..ab9f68d 100644
--- a/src/circuit/num.rs
+++ b/src/circuit/num.rs
@@ -495,11 +495,8 @@ impl<'l, 'a, CS: ConstraintSystem> MulAssign<&'l CNum<'a, CS>> for CNum<'a, CS>
 impl<'l, 'a, CS: ConstraintSystem> DivAssign<&'l CNum<'a, CS>> for CNum<'a, CS> {
     #[inline]
     fn div_assign(&mut self, other: &'l CNum<'a, CS>) {
-        match (self.as_const(), other.as_const()) {
-            (Some(a), _) => {
-                *self = other / a;
-            }
-            (_, Some(b)) => *self /= b,
+        match other.as_const() {
+            Some(b) => *self /= b,
             _ => {
                 let value = match (self.get_value(), other.get_value()) {
                     (Some(a), Some(b)) => Some(a / b),
-- 
2.43.0


From 66b3b4565fbdac9280b75b32415bfb37eda618ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:55 +0000
Subject: [PATCH 03/12] fix: convert i32::MIN and i64::MIN to field elements
 without overflow

---
 src/native/num.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/native/num.rs b/src/native/num.rs
index e58594a..06e02a4 100644
--- a/src/native/num.rs
+++ b/src/native/num.rs
@@ -287,7 +287,7 @@ impl<T: Field> From<BigInt> for Num<T> {
 impl<T: Field> From<i64> for Num<T> {
     fn from(n: i64) -> Self {
         let mut repr = T::zero().into_raw_repr();
-        repr.as_mut()[0] = n.abs() as u64;
+        repr.as_mut()[0] = n.unsigned_abs();
         if n >= 0 {
             Num::new(T::from_repr(repr).unwrap())
         } else {
@@ -307,7 +307,7 @@ impl<T: Field> From<u32> for Num<T> {
 impl<T: Field> From<i32> for Num<T> {
     fn from(n: i32) -> Self {
         let mut repr = T::zero().into_raw_repr();
-        repr.as_mut()[0] = n.abs() as u64;
+        repr.as_mut()[0] = n.unsigned_abs() as u64;
         if n >= 0 {
             Num::new(T::from_repr(repr).unwrap())
         } else {
-- 
2.43.0


From f5db309ace0664463189d87fbf4a4acfc99e5481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:55 +0000
Subject: [PATCH 04/12] fix: reject a wrong length when deserializing SizedVec

---
 src/core/sizedvec.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/sizedvec.rs b/src/core/sizedvec.rs
index fdb2204..4ef913a 100644
--- a/src/core/sizedvec.rs
+++ b/src/core/sizedvec.rs
@@ -7,7 +7,7 @@ use std::{
 };
 
 use serde::{
-    de::{Deserialize, Deserializer},
+    de::{self, Deserialize, Deserializer},
     ser::{Serialize, Serializer},
 };
 use typenum::Unsigned;
@@ -33,7 +33,12 @@ impl<T: Serialize, L: Unsigned> Serialize for SizedVec<T, L> {
 
 impl<'de, T: Deserialize<'de>, L: Unsigned> Deserialize<'de> for SizedVec<T, L> {
     fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<SizedVec<T, L>, D::Error> {
-        Vec::<T>::deserialize(deserializer).map(|v| SizedVec::<T, L>(v, PhantomData))
+        let v = Vec::<T>::deserialize(deserializer)?;
+        if v.len() == L::USIZE {
+            Ok(SizedVec(v, PhantomData))
+        } else {
+            Err(de::Error::invalid_length(v.len(), &"a SizedVec of its declared length"))
+        }
     }
 }
 
-- 
2.43.0


From c7d1e2826b4fd0d377f0a77bf09be085869e0ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:55 +0000
Subject: [PATCH 05/12] fix: compare with all bits of the constant in
 c_comp_constant

Bits of the constant above the width of the signal were dropped.
---
 src/circuit/bitify.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/circuit/bitify.rs b/src/circuit/bitify.rs
index 379314c..0195af2 100644
--- a/src/circuit/bitify.rs
+++ b/src/circuit/bitify.rs
@@ -89,6 +89,11 @@ pub fn c_comp_constant<'a, CS: ConstraintSystem>(
         k = k.double();
     }
 
+    // a constant wider than the signal exceeds every value of the signal
+    if ct_bits.any(|b| b) {
+        return CBool::c_false(cs);
+    }
+
     k -= Num::one();
 
     acc = acc + k;
-- 
2.43.0


From 954e95fe63d810a244bc6a3a5eac56b9565b1a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:42 +0000
Subject: [PATCH 06/12] fix: report I/O errors and incomplete elements when
 reading a truncated verifying key

---
 src/helpers/groth16/verifier.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/helpers/groth16/verifier.rs b/src/helpers/groth16/verifier.rs
index 35e7b61..f756bd6 100644
--- a/src/helpers/groth16/verifier.rs
+++ b/src/helpers/groth16/verifier.rs
@@ -161,7 +161,18 @@ impl<E: Engine> TruncatedVerifyingKey<E> {
 
         let mut ic = vec![];
 
-        while reader.read_exact(g1_repr.as_mut()).is_ok() {
+        let mut rest = vec![];
+        reader.read_to_end(&mut rest)?;
+        let ic_chunks = rest.chunks_exact(g1_repr.as_ref().len());
+        if !ic_chunks.remainder().is_empty() {
+            return Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "incomplete element",
+            ));
+        }
+
+        for chunk in ic_chunks {
+            g1_repr.as_mut().copy_from_slice(chunk);
             let g1 = g1_repr
                 .into_affine()
                 .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
-- 
2.43.0


From 731558fa4acd108bb1fb3d0e4fb0afdfdf3419b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:33 +0000
Subject: [PATCH 07/12] fix: reject BN256 G2 points outside the prime order
 subgroup when importing proofs and keys

---
 src/helpers/groth16/mod.rs      |  8 +++++++-
 src/helpers/groth16/prover.rs   | 11 +++++++++--
 src/helpers/groth16/verifier.rs |  9 ++++++++-
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/helpers/groth16/mod.rs b/src/helpers/groth16/mod.rs
index 78d1f4c..d3a205a 100644
--- a/src/helpers/groth16/mod.rs
+++ b/src/helpers/groth16/mod.rs
@@ -106,6 +106,10 @@ fn is_on_curve<F: AbstractField>(x: F, y: F, is_zero: bool, b: &F) -> bool {
     }
 }
 
+fn is_in_subgroup<G: CurveAffine>(p: &G) -> bool {
+    p.mul(G::Scalar::char()).is_zero()
+}
+
 impl From<bn256::G2Affine> for G2PointData<bn256::Fq> {
     fn from(p: bn256::G2Affine) -> Self {
         let (x, y, f) = unsafe { transmute::<_, (bn256::Fq2, bn256::Fq2, bool)>(p) };
@@ -134,7 +138,9 @@ impl Into<bn256::G2Affine> for G2PointData<bn256::Fq> {
             is_on_curve(x, y, is_zero, &BN256_B_COEFF_FQ2),
             "point should be in curve"
         );
-        unsafe { transmute::<_, bn256::G2Affine>((x, y, is_zero)) }
+        let res = unsafe { transmute::<_, bn256::G2Affine>((x, y, is_zero)) };
+        assert!(is_in_subgroup(&res), "point should be in subgroup");
+        res
     }
 }
 
diff --git a/src/helpers/groth16/prover.rs b/src/helpers/groth16/prover.rs
index 64a35b0..7f9ec3b 100644
--- a/src/helpers/groth16/prover.rs
+++ b/src/helpers/groth16/prover.rs
@@ -9,7 +9,7 @@ use crate::{
     core::field::Field,
     core::osrng::OsRng,
     helpers::groth16::Groth16CS,
-    helpers::groth16::{G1PointData, G2PointData},
+    helpers::groth16::{is_in_subgroup, G1PointData, G2PointData},
 };
 
 pub use bellman::groth16::Parameters;
@@ -76,7 +76,14 @@ impl Proof<bn256::Bn256> {
     }
 
     pub fn read<R: Read>(reader: R) -> io::Result<Self> {
-        Ok(Self(bellman::groth16::Proof::read(reader)?))
+        let proof = bellman::groth16::Proof::<bn256::Bn256>::read(reader)?;
+        if !is_in_subgroup(&proof.b) {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "point should be in subgroup",
+            ));
+        }
+        Ok(Self(proof))
     }
 }
 
diff --git a/src/helpers/groth16/verifier.rs b/src/helpers/groth16/verifier.rs
index f756bd6..2e699f0 100644
--- a/src/helpers/groth16/verifier.rs
+++ b/src/helpers/groth16/verifier.rs
@@ -9,7 +9,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::{
     core::field::{AbstractField, Field, PrimeField},
-    helpers::groth16::{prover::Proof, G1PointData, G2PointData},
+    helpers::groth16::{is_in_subgroup, prover::Proof, G1PointData, G2PointData},
 };
 
 #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
@@ -159,6 +159,13 @@ impl<E: Engine> TruncatedVerifyingKey<E> {
                 }
             })?;
 
+        if ![beta_g2, gamma_g2, delta_g2].iter().all(is_in_subgroup) {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "point should be in subgroup",
+            ));
+        }
+
         let mut ic = vec![];
 
         let mut rest = vec![];
-- 
2.43.0


From 2ad178ffd03e5ea891ed7aff4e772ba4b6a19cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:52 +0000
Subject: [PATCH 08/12] fix: write the whole generated Solidity verifier

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index 48fde1d..3bf96c1 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -374,7 +374,7 @@ macro_rules! groth16_ethereum_bindings {
                 let sol_str = generate_sol_data(&vk);
                 File::create(o.solidity)
                     .unwrap()
-                    .write(&sol_str.into_bytes())
+                    .write_all(&sol_str.into_bytes())
                     .unwrap();
                 println!("solidity verifier generated")
             }
-- 
2.43.0


From 0a7e8cc3ea26e8d7331c01969e540d49aa3c2e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:33 +0000
Subject: [PATCH 09/12] fix: report no value or constant for a SizedVec with a
 component that has none

Collecting the Option iterator straight into a SizedVec built a shorter vector
from the components before the missing one and panicked on its length.
---
 src/core/signal.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/signal.rs b/src/core/signal.rs
index d1af1cd..359bc83 100644
--- a/src/core/signal.rs
+++ b/src/core/signal.rs
@@ -53,7 +53,9 @@ impl<'a, CS: 'a + ConstraintSystem, T: Signal<'a, CS>, L: Unsigned> Signal<'a, C
     type Value = SizedVec<T::Value, L>;
 
     fn get_value(&self) -> Option<Self::Value> {
-        self.iter().map(|v| v.get_value()).collect()
+        // collect first: SizedVec must not be built from the components before a missing one
+        let values: Option<Vec<_>> = self.iter().map(|v| v.get_value()).collect();
+        values.map(|v| v.into_iter().collect())
     }
 
     fn switch(&self, bit: &CBool<'a, CS>, if_else: &Self) -> Self {
@@ -72,7 +74,8 @@ impl<'a, CS: 'a + ConstraintSystem, T: Signal<'a, CS>, L: Unsigned> Signal<'a, C
     }
 
     fn as_const(&self) -> Option<Self::Value> {
-        self.iter().map(|v| v.as_const()).collect()
+        let values: Option<Vec<_>> = self.iter().map(|v| v.as_const()).collect();
+        values.map(|v| v.into_iter().collect())
     }
 
     fn alloc(cs: &'a CS, value: Option<&Self::Value>) -> Self {
-- 
2.43.0


From 454d96d8e5f96c749d9684ee2b23ee45694c03a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:18 +0000
Subject: [PATCH 10/12] fix: drop zero coefficients before passing a constraint
 to the prover

The prover counts every listed variable as used, while key generation
leaves out those whose polynomial is zero, so proving panicked or produced
an invalid proof for circuits such as (zero + x).square().
---
 src/helpers/groth16/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/helpers/groth16/mod.rs b/src/helpers/groth16/mod.rs
index d3a205a..41070d2 100644
--- a/src/helpers/groth16/mod.rs
+++ b/src/helpers/groth16/mod.rs
@@ -331,6 +331,7 @@ impl<BE: bellman::pairing::Engine, BCS: bellman::ConstraintSystem<BE>> Constrain
         ) -> bellman::LinearCombination<BE> {
             let res =
                 s.lc.iter()
+                    .filter(|(_, v)| !v.is_zero())
                     .map(|(k, v)| (*k, v.into_inner()))
                     .collect::<Vec<_>>();
             unsafe { std::mem::transmute(res) }
-- 
2.43.0


From 3f55be8ce76d5c23ab683e76c2130f05a2d9771d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:22 +0000
Subject: [PATCH 11/12] fix: give the generated verifier's G2 coordinates their
 type

---
 src/helpers/groth16/ethereum.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/helpers/groth16/ethereum.rs b/src/helpers/groth16/ethereum.rs
index 07f2ce3..fbcac19 100644
--- a/src/helpers/groth16/ethereum.rs
+++ b/src/helpers/groth16/ethereum.rs
@@ -201,7 +201,8 @@ contract Verifier {
 
     fn stringify_g2(p: &G2PointData<Fq>) -> String {
         format!(
-            "[{}, {}], [{}, {}]",
+            // the type of an array of small literals would be narrower than uint256[2]
+            "[uint256({}), uint256({})], [uint256({}), uint256({})]",
             p.0 .0.to_string(),
             p.0 .1.to_string(),
             p.1 .0.to_string(),
-- 
2.43.0


From b62df7e8088fda2c213641ce07d9b4cfc0cf097f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:16 +0000
Subject: [PATCH 12/12] fix: import the point at infinity as the group's zero
 element

---
 src/helpers/groth16/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/helpers/groth16/mod.rs b/src/helpers/groth16/mod.rs
index 41070d2..598de4a 100644
--- a/src/helpers/groth16/mod.rs
+++ b/src/helpers/groth16/mod.rs
@@ -134,6 +134,9 @@ impl Into<bn256::G2Affine> for G2PointData<bn256::Fq> {
             c1: self.1 .0.into_inner(),
         };
         let is_zero = x.is_zero() && y.is_zero();
+        if is_zero {
+            return bn256::G2Affine::zero();
+        }
         assert!(
             is_on_curve(x, y, is_zero, &BN256_B_COEFF_FQ2),
             "point should be in curve"
@@ -160,6 +163,9 @@ impl Into<bn256::G1Affine> for G1PointData<bn256::Fq> {
         let x = self.0.into_inner();
         let y = self.1.into_inner();
         let is_zero = x.is_zero() && y.is_zero();
+        if is_zero {
+            return bn256::G1Affine::zero();
+        }
         assert!(
             is_on_curve(x, y, is_zero, &BN256_B_COEFF),
             "point should be in curve"
@@ -192,6 +198,9 @@ impl Into<bls12_381::G2Affine> for G2PointData<bls12_381::Fq> {
             c1: self.1 .0.into_inner(),
         };
         let is_zero = x.is_zero() && y.is_zero();
+        if is_zero {
+            return bls12_381::G2Affine::zero();
+        }
         assert!(
             is_on_curve(x, y, is_zero, &BLS12_381_B_COEFF_FQ2),
             "point should be in curve"
@@ -221,6 +230,9 @@ impl Into<bls12_381::G1Affine> for G1PointData<bls12_381::Fq> {
         let x = self.0.into_inner();
         let y = self.1.into_inner();
         let is_zero = x.is_zero() && y.is_zero();
+        if is_zero {
+            return bls12_381::G1Affine::zero();
+        }
         assert!(
             is_on_curve(x, y, is_zero, &BLS12_381_B_COEFF),
             "point should be in curve"
-- 
2.43.0

