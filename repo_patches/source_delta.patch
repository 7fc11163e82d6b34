From 63e720531b1f7d3c0db672c0bb88e07f8336bf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:26 +0000
Subject: [PATCH 01/36] fix: sum of U256 values starts from zero

---
 algebra/u256/src/additive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/u256/src/additive.rs b/algebra/u256/src/additive.rs
index 822111f..ad9a87d 100644
--- a/algebra/u256/src/additive.rs
+++ b/algebra/u256/src/additive.rs
@@ -104,7 +104,7 @@ impl Neg for &U256 {
 
 impl core::iter::Sum for U256 {
     fn sum<I: Iterator<Item = U256>>(iter: I) -> Self {
-        iter.fold(Self::ONE, Add::add)
+        iter.fold(Self::ZERO, Add::add)
     }
 }
 
-- 
2.43.0


From d349214e74f0e1b6d3a3a9d7b4bba12cd1282a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:29 +0000
Subject: [PATCH 02/36] fix: quotient digit estimate when the leading words of
 dividend and divisor are equal

---
 algebra/u256/src/arch/generic/knuth_division.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/algebra/u256/src/arch/generic/knuth_division.rs b/algebra/u256/src/arch/generic/knuth_division.rs
index 00fbee2..3faa181 100644
--- a/algebra/u256/src/arch/generic/knuth_division.rs
+++ b/algebra/u256/src/arch/generic/knuth_division.rs
@@ -52,10 +52,14 @@ fn div_3by2(n: &[u64; 3], d: &[u64; 2]) -> u64 {
     // The highest bit of d needs to be set
     debug_assert!(d[1] >> 63 == 1);
 
-    // The quotient needs to fit u64. For this we need [n2 n1] < [d1 d0]
-    debug_assert!(val_2(n[1], n[2]) < val_2(d[0], d[1]));
+    // The quotient needs to fit u64. For this we need [n2 n1] < [d1 d0]. When
+    // there are lower order digits, [n2 n1] = [d1 d0] is also possible.
+    debug_assert!(val_2(n[1], n[2]) <= val_2(d[0], d[1]));
 
-    if n[2] == d[1] {
+    if n[2] == d[1] && n[1] == d[0] {
+        // The largest digit is at most one too large.
+        0xffff_ffff_ffff_ffff_u64
+    } else if n[2] == d[1] {
         // From [n2 n1] < [d1 d0] and n2 = d1 it follows that n[1] < d[0].
         debug_assert!(n[1] < d[0]);
         // We start by subtracting 2^64 times the divisor, resulting in a
-- 
2.43.0


From 58b678379634c018995e631031d64c14fddedca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:32 +0000
Subject: [PATCH 03/36] fix: U256 decimal parsing of overflowing and non-ASCII
 text, hexadecimal parsing of overlong text

---
 algebra/u256/src/encoding.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/algebra/u256/src/encoding.rs b/algebra/u256/src/encoding.rs
index b810af5..2b3fae3 100644
--- a/algebra/u256/src/encoding.rs
+++ b/algebra/u256/src/encoding.rs
@@ -11,9 +11,9 @@ use std::format;
 
 impl U256 {
     pub fn from_decimal_str(s: &str) -> Result<Self, ParseError> {
-        // ceil(2^256 / 10)
+        // floor(2^256 / 10)
         let max10: Self = Self::from_limbs([
-            0x9999_9999_9999_999a_u64,
+            0x9999_9999_9999_9999_u64,
             0x9999_9999_9999_9999_u64,
             0x9999_9999_9999_9999_u64,
             0x1999_9999_9999_9999_u64,
@@ -25,12 +25,12 @@ impl U256 {
         // TODO: Implement as trait
         // OPT: Convert 19 digits at a time using u64.
         let mut result = Self::ZERO;
-        for (i, _c) in s.chars().enumerate() {
+        for (i, c) in s.char_indices() {
             if result > max10 {
                 return Err(ParseError::Overflow);
             }
             result *= Self::from(10_u64);
-            let digit = Self::from(u64::from_str_radix(&s[i..=i], 10)?);
+            let digit = Self::from(u64::from_str_radix(&s[i..i + c.len_utf8()], 10)?);
             if &result + &digit < result {
                 return Err(ParseError::Overflow);
             }
@@ -66,7 +66,8 @@ impl U256 {
         // TODO: error
         let bytes = hex::decode(byte_string).unwrap();
         let mut array = [0_u8; 32];
-        array.copy_from_slice(&bytes[..32]);
+        // Panics when there are more than 64 digits
+        array.copy_from_slice(&bytes);
         Self::from_bytes_be(&array)
     }
 }
-- 
2.43.0


From ad2dff1f00c051a7dcaf7ea51b4c1597955ac547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:32 +0000
Subject: [PATCH 04/36] fix: deserialising a malformed U256 is an error, not a
 panic

---
 algebra/u256/src/conversion.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/algebra/u256/src/conversion.rs b/algebra/u256/src/conversion.rs
index 8d04857..ff3fb91 100644
--- a/algebra/u256/src/conversion.rs
+++ b/algebra/u256/src/conversion.rs
@@ -6,7 +6,7 @@ use std::prelude::v1::*;
 
 use crate::U256;
 #[cfg(feature = "serde")]
-use serde::{Deserialize, Deserializer, Serialize, Serializer};
+use serde::{de::Error, Deserialize, Deserializer, Serialize, Serializer};
 use std::u64;
 
 impl U256 {
@@ -48,6 +48,10 @@ impl<'a> Deserialize<'a> for U256 {
     fn deserialize<D: Deserializer<'a>>(deserializer: D) -> Result<Self, D::Error> {
         if deserializer.is_human_readable() {
             let string = String::deserialize(deserializer)?;
+            let digits = string.trim_start_matches("0x");
+            if digits.len() > 64 || !digits.bytes().all(|c| c.is_ascii_hexdigit()) {
+                return Err(D::Error::custom("expected at most 64 hexadecimal digits"));
+            }
             Ok(U256::from_hex_str(&string))
         } else {
             <[u8; 32]>::deserialize(deserializer).map(|b| U256::from_bytes_be(&b))
-- 
2.43.0


From e62b511f6def1a07948aba079d6b12cd91b9d648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:49 +0000
Subject: [PATCH 05/36] fix: deserialising a field element rejects values
 outside the field

---
 algebra/primefield/src/serde.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/algebra/primefield/src/serde.rs b/algebra/primefield/src/serde.rs
index 7ca23e3..6093e31 100644
--- a/algebra/primefield/src/serde.rs
+++ b/algebra/primefield/src/serde.rs
@@ -1,6 +1,6 @@
 use crate::{uint::UInt, Parameters, PrimeField};
 use serde::{
-    de::{Deserialize, Deserializer},
+    de::{Deserialize, Deserializer, Error},
     ser::{Serialize, Serializer},
 };
 
@@ -27,7 +27,11 @@ where
         D: Deserializer<'de>,
     {
         let u = U::deserialize(deserializer)?;
-        Ok(Self::from_uint(&u))
+        if u < Self::modulus() {
+            Ok(Self::from_uint(&u))
+        } else {
+            Err(D::Error::custom("value is not less than the field modulus"))
+        }
     }
 }
 
-- 
2.43.0


From ee1c32c9120fbf347e08625b56861063925d192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:05 +0000
Subject: [PATCH 06/36] fix: field conversions from and to the most negative
 native integers

---
 algebra/primefield/src/convert.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/algebra/primefield/src/convert.rs b/algebra/primefield/src/convert.rs
index 2d21ae7..fc8388a 100644
--- a/algebra/primefield/src/convert.rs
+++ b/algebra/primefield/src/convert.rs
@@ -1,11 +1,12 @@
-use crate::{Parameters, PrimeField, UInt};
+use crate::{One, Parameters, PrimeField, UInt};
 use num_traits::ToPrimitive;
 use std::convert::From;
 use zkp_u256::U256;
 
 // TODO: Move upstream to `num_traits`
 pub trait MaybeSigned {
-    /// True if negative
+    /// Sign (true if negative) and magnitude. The magnitude of a negative
+    /// number is given as `-1 - self`, which always fits the type.
     fn as_sign_abs(self) -> (bool, Self);
 }
 
@@ -28,7 +29,7 @@ macro_rules! maybe_signed {
                 if self >= 0 {
                     (false, self)
                 } else {
-                    (true, -self)
+                    (true, !self)
                 }
             }
         }
@@ -64,7 +65,7 @@ where
     fn from(other: Other) -> Self {
         let (sign, abs) = other.as_sign_abs();
         if sign {
-            -Self::from_uint_reduce(&abs.into())
+            -(Self::from_uint_reduce(&abs.into()) + Self::one())
         } else {
             Self::from_uint_reduce(&abs.into())
         }
@@ -88,7 +89,10 @@ where
             // UInt should not have interior mutability
             #[allow(clippy::borrow_interior_mutable_const)]
             let val = P::MODULUS.sub(&val);
-            val.to_i128().and_then(i128::checked_neg)
+            // `-val` exists for magnitudes up to and including that of `i128::MIN`
+            val.sub(&U::one())
+                .to_i128()
+                .map(|val_minus_one| -1 - val_minus_one)
         }
     }
 
-- 
2.43.0


From a906697438d9f7f9313c6246f4a359795e9ff6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:05 +0000
Subject: [PATCH 07/36] fix: field power with the most negative exponent

---
 algebra/primefield/src/prime_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/primefield/src/prime_field.rs b/algebra/primefield/src/prime_field.rs
index 7167239..24c3136 100644
--- a/algebra/primefield/src/prime_field.rs
+++ b/algebra/primefield/src/prime_field.rs
@@ -302,7 +302,7 @@ impl<P: Parameters> Pow<isize> for &PrimeField<P> {
 
     fn pow(self, exponent: isize) -> Self::Output {
         let negative = exponent < 0;
-        let abs = exponent.abs() as usize;
+        let abs = exponent.wrapping_abs() as usize;
         if negative {
             self.inv().map(|n| n.pow(&abs))
         } else {
-- 
2.43.0


From 809aebaed149dc88a1779fa0311c392967abf9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:05 +0000
Subject: [PATCH 08/36] fix: skipping past the end and uneven steps of a
 geometric series

---
 algebra/primefield/src/geometric_series.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algebra/primefield/src/geometric_series.rs b/algebra/primefield/src/geometric_series.rs
index cb785d1..2790046 100644
--- a/algebra/primefield/src/geometric_series.rs
+++ b/algebra/primefield/src/geometric_series.rs
@@ -33,7 +33,7 @@ where
 
     pub fn skip(mut self, n: usize) -> Self {
         self.current *= self.step.pow(n);
-        self.length -= n;
+        self.length = self.length.saturating_sub(n);
         self
     }
 
@@ -46,7 +46,8 @@ where
     pub fn step_by(mut self, step: usize) -> Self {
         assert!(step > 0);
         self.step = self.step.pow(step);
-        self.length /= step;
+        // The first element is kept, so a partial last step counts
+        self.length = self.length / step + (self.length % step != 0) as usize;
         self
     }
 }
-- 
2.43.0


From 8b01792b3501f6551e24b1a43b3d5eaf3f4dec12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:51 +0000
Subject: [PATCH 09/36] fix: inverse coset transform scales by the natural
 position

---
 algebra/primefield/src/fft/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algebra/primefield/src/fft/mod.rs b/algebra/primefield/src/fft/mod.rs
index 2c03f9e..515a5cb 100644
--- a/algebra/primefield/src/fft/mod.rs
+++ b/algebra/primefield/src/fft/mod.rs
@@ -134,11 +134,14 @@ where
         self.ifft();
         let cofactor = cofactor.inv().expect("Can not invert cofactor");
         trace!("BEGIN Cofactor shift");
+        // The output of `ifft` is permuted, powers go by the natural position
+        permute(self);
         let mut c = Field::one();
         for element in self.iter_mut() {
             *element *= &c;
             c *= &cofactor;
         }
+        permute(self);
         trace!("END Cofactor shift");
     }
 
-- 
2.43.0


From 69fba54e158f2186f276113780c0c288a7bf3c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:23 +0000
Subject: [PATCH 10/36] fix: mixed addition of equal points doubles

---
 algebra/elliptic-curve/src/jacobian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/elliptic-curve/src/jacobian.rs b/algebra/elliptic-curve/src/jacobian.rs
index 0dc9d4f..a6a761c 100644
--- a/algebra/elliptic-curve/src/jacobian.rs
+++ b/algebra/elliptic-curve/src/jacobian.rs
@@ -193,7 +193,7 @@ impl AddAssign<&Affine> for Jacobian {
                 let u2 = x * &z1z1;
                 let s2 = y * &self.z * &z1z1;
                 if self.x == u2 {
-                    return if self.x == s2 {
+                    return if self.y == s2 {
                         self.double_assign()
                     } else {
                         *self = Self::ZERO
-- 
2.43.0


From bd10e5105693b03c98b05d63ccd801a2b94f2fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:23 +0000
Subject: [PATCH 11/36] fix: negative digits of the first scalar in double_mul

---
 algebra/elliptic-curve/src/wnaf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/elliptic-curve/src/wnaf.rs b/algebra/elliptic-curve/src/wnaf.rs
index c3e2f76..b451bd0 100644
--- a/algebra/elliptic-curve/src/wnaf.rs
+++ b/algebra/elliptic-curve/src/wnaf.rs
@@ -171,7 +171,7 @@ pub fn double_mul(
         r.double_assign();
         if snaf_expansion_a[i] > 0 {
             r += &naf_table_a[(snaf_expansion_a[i] >> 1) as usize];
-        } else if snaf_expansion_b[i] < 0 {
+        } else if snaf_expansion_a[i] < 0 {
             r -= &naf_table_a[(-snaf_expansion_a[i] >> 1) as usize];
         }
         if snaf_expansion_b[i] > 0 {
-- 
2.43.0


From 9c1393c19ecc4394017048669a7af12d90c8a3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:23 +0000
Subject: [PATCH 12/36] fix: double_base_mul with the neutral element

---
 algebra/elliptic-curve/src/wnaf.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/algebra/elliptic-curve/src/wnaf.rs b/algebra/elliptic-curve/src/wnaf.rs
index b451bd0..466dae8 100644
--- a/algebra/elliptic-curve/src/wnaf.rs
+++ b/algebra/elliptic-curve/src/wnaf.rs
@@ -6,7 +6,7 @@ use std::prelude::v1::*;
 
 use crate::{curve::Affine, jacobian::Jacobian, ScalarFieldElement};
 use itertools::izip;
-use zkp_primefield::{FieldElement, Inv, One, SquareInline};
+use zkp_primefield::{FieldElement, Inv, One, SquareInline, Zero};
 use zkp_u256::{Binary, U256};
 
 pub(crate) fn window_table(p: &Affine, naf: &mut [Jacobian]) {
@@ -41,10 +41,12 @@ pub(crate) fn batch_convert(jacobians: &[Jacobian], affines: &mut [Affine]) {
     let mut acc = FieldElement::one();
     // OPT: Check if `izip!` has overhead
     for (jac, val) in izip!(jacobians.iter(), vals.iter_mut()) {
-        // TODO: Handle zeros
+        // Zeros have no inverse and are left out of the product
         // OPT: First mul is with one, can be removed
         *val = acc.clone();
-        acc *= &jac.z;
+        if !jac.z.is_zero() {
+            acc *= &jac.z;
+        }
     }
 
     // Invert accumulator
@@ -53,6 +55,11 @@ pub(crate) fn batch_convert(jacobians: &[Jacobian], affines: &mut [Affine]) {
 
     // Compute inverses and affine points
     for (jac, val, aff) in izip!(jacobians.iter(), vals.into_iter(), affines.iter_mut()).rev() {
+        if jac.z.is_zero() {
+            *aff = Affine::ZERO;
+            continue;
+        }
+
         // Compute zi
         // OPT: Last mul is with one, can be removed
         let zi = &acc * val;
-- 
2.43.0


From bee585e6f4fdd3a8fcb9e086f97494e361a4f370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:23 +0000
Subject: [PATCH 13/36] fix: verifying a degenerate signature or key is a
 rejection, not a panic

---
 crypto/elliptic-curve-crypto/src/public_key.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crypto/elliptic-curve-crypto/src/public_key.rs b/crypto/elliptic-curve-crypto/src/public_key.rs
index 79d7d8f..a825764 100644
--- a/crypto/elliptic-curve-crypto/src/public_key.rs
+++ b/crypto/elliptic-curve-crypto/src/public_key.rs
@@ -20,9 +20,9 @@ impl PublicKey {
     }
 
     pub fn verify(&self, digest: &ScalarFieldElement, signature: &Signature) -> bool {
-        assert!(!signature.r().is_zero());
-        assert!(!signature.w().is_zero());
-        assert!(self.0.is_on_curve());
+        if signature.r().is_zero() || signature.w().is_zero() || !self.0.is_on_curve() {
+            return false;
+        }
 
         let generator_factor = digest * signature.w();
         let pubkey_factor = signature.r() * signature.w();
-- 
2.43.0


From 4462e715050b2dc82e3915c5cef0f1c2383aa646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:44 +0000
Subject: [PATCH 14/36] fix: a Merkle opening verifies only for the leaves it
 was made for

---
 crypto/merkle-tree/src/proof.rs  | 10 +++++++++-
 crypto/merkle-tree/src/result.rs |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/crypto/merkle-tree/src/proof.rs b/crypto/merkle-tree/src/proof.rs
index 6a8a9ed..63d4566 100644
--- a/crypto/merkle-tree/src/proof.rs
+++ b/crypto/merkle-tree/src/proof.rs
@@ -45,7 +45,6 @@ impl Proof {
 
     pub fn verify<Leaf: Hashable>(&self, leafs: &[(usize, Leaf)]) -> Result<()> {
         // TODO: Pass leafs by reference?
-        // TODO: Check if the indices line up.
 
         // Construct the leaf nodes
         let mut nodes = leafs
@@ -65,6 +64,15 @@ impl Proof {
             Error::DuplicateLeafMismatch
         );
         nodes.dedup_by_key(|(index, _)| *index);
+
+        // The proof only speaks about the leaves it was opened for
+        require!(
+            nodes
+                .iter()
+                .map(|(index, _)| *index)
+                .eq(self.commitment.sort_indices(&self.indices)?),
+            Error::IndicesMismatch
+        );
         let mut nodes: VecDeque<(Index, Hash)> = nodes.into_iter().collect();
 
         // Create a mutable closure to pop hashes from the list
diff --git a/crypto/merkle-tree/src/result.rs b/crypto/merkle-tree/src/result.rs
index 4d222bc..9307b3f 100644
--- a/crypto/merkle-tree/src/result.rs
+++ b/crypto/merkle-tree/src/result.rs
@@ -9,6 +9,7 @@ pub enum Error {
     NumLeavesNotPowerOfTwo,
     IndexOutOfRange,
     IndicesUnsortedOrDuplicate,
+    IndicesMismatch,
     DuplicateLeafMismatch,
     NotEnoughHashes,
     RootHashMismatch,
@@ -25,6 +26,7 @@ impl fmt::Display for Error {
             NumLeavesNotPowerOfTwo => write!(f, "Doesn't have a power of two of leaves"),
             IndexOutOfRange => write!(f, "Index out of range"),
             IndicesUnsortedOrDuplicate => write!(f, "Indices are unsorted or duplicate"),
+            IndicesMismatch => write!(f, "Leaves are not the ones the proof is for"),
             DuplicateLeafMismatch => write!(f, "Duplicate leaf mismatch"),
             NotEnoughHashes => write!(f, "Not enough hashes to verify proof"),
             RootHashMismatch => write!(f, "Verification failed since root hashes don't match"),
-- 
2.43.0


From 15e7abdd7868aa942afe6fe54d77e5eeb89098e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:33 +0000
Subject: [PATCH 15/36] fix: MmapVec::push writes without dropping what was
 there

---
 utils/mmap-vec/src/mmap_vec.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/utils/mmap-vec/src/mmap_vec.rs b/utils/mmap-vec/src/mmap_vec.rs
index 3affb39..0bd9bf5 100644
--- a/utils/mmap-vec/src/mmap_vec.rs
+++ b/utils/mmap-vec/src/mmap_vec.rs
@@ -14,7 +14,7 @@ use std::{
     marker::PhantomData,
     mem::size_of,
     ops::{Deref, DerefMut},
-    ptr::drop_in_place,
+    ptr,
     slice,
 };
 
@@ -76,9 +76,12 @@ impl<T: Clone> MmapVec<T> {
         if self.length == self.capacity {
             panic!("MmapVec is at capacity")
         }
-        let end = self.length;
+        // Write without dropping: there is no value beyond the end yet. This
+        // stays within the mapping because `length < capacity`.
+        unsafe {
+            ptr::write((self.mmap.as_mut_ptr() as *mut T).add(self.length), next);
+        }
         self.length += 1;
-        self[end] = next;
     }
 
     pub fn clear(&mut self) {
@@ -101,7 +104,7 @@ impl<T: Clone> MmapVec<T> {
             //   (if it panics twice, the program aborts).
             let slice_pointer: *mut [T] = &mut self.as_mut_slice()[length..];
             self.length = length;
-            drop_in_place(slice_pointer);
+            ptr::drop_in_place(slice_pointer);
         }
     }
 
-- 
2.43.0


From e60c63d44b3d212158800cf7836cfdf66627e282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:33 +0000
Subject: [PATCH 16/36] fix: MmapVec::resize drops the elements it removes

---
 utils/mmap-vec/src/mmap_vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/mmap-vec/src/mmap_vec.rs b/utils/mmap-vec/src/mmap_vec.rs
index 0bd9bf5..e7959d8 100644
--- a/utils/mmap-vec/src/mmap_vec.rs
+++ b/utils/mmap-vec/src/mmap_vec.rs
@@ -112,10 +112,10 @@ impl<T: Clone> MmapVec<T> {
         if size > self.capacity {
             panic!("MmapVec is at capacity")
         }
+        self.truncate(size);
         while self.length < size {
             self.push(fill.clone());
         }
-        self.length = size;
     }
 
     pub fn extend_from_slice(&mut self, slice: &[T]) {
-- 
2.43.0


From 1f76e6272cc8f3ee5cc84e3ce805ff0557541744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:33 +0000
Subject: [PATCH 17/36] fix: MmapVec::extend_from_slice does not drop what was
 there

---
 utils/mmap-vec/src/mmap_vec.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/utils/mmap-vec/src/mmap_vec.rs b/utils/mmap-vec/src/mmap_vec.rs
index e7959d8..59909dd 100644
--- a/utils/mmap-vec/src/mmap_vec.rs
+++ b/utils/mmap-vec/src/mmap_vec.rs
@@ -122,9 +122,7 @@ impl<T: Clone> MmapVec<T> {
         if self.length + slice.len() > self.capacity {
             panic!("MmapVec would grow beyond capacity")
         }
-        let start = self.length;
-        self.length += slice.len();
-        self.as_mut_slice()[start..].clone_from_slice(slice);
+        self.extend(slice);
     }
 
     #[inline]
-- 
2.43.0


From 23fabe247ce910f738c34fd72e8802647ff53a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:33 +0000
Subject: [PATCH 18/36] fix: dropping an MmapVec drops its elements

---
 utils/mmap-vec/src/mmap_vec.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utils/mmap-vec/src/mmap_vec.rs b/utils/mmap-vec/src/mmap_vec.rs
index 59909dd..f6fd87f 100644
--- a/utils/mmap-vec/src/mmap_vec.rs
+++ b/utils/mmap-vec/src/mmap_vec.rs
@@ -138,6 +138,12 @@ impl<T: Clone> MmapVec<T> {
     }
 }
 
+impl<T: Clone> Drop for MmapVec<T> {
+    fn drop(&mut self) {
+        self.clear()
+    }
+}
+
 impl<T: Clone + PartialEq> PartialEq for MmapVec<T> {
     fn eq(&self, other: &Self) -> bool {
         if self.len() != other.len() {
-- 
2.43.0


From dbd3d8635dc261de565acce5f3c3d457b908540d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:33 +0000
Subject: [PATCH 19/36] fix: MmapVec capacity in bytes can not wrap around

---
 utils/mmap-vec/src/mmap_vec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/mmap-vec/src/mmap_vec.rs b/utils/mmap-vec/src/mmap_vec.rs
index f6fd87f..2c8c083 100644
--- a/utils/mmap-vec/src/mmap_vec.rs
+++ b/utils/mmap-vec/src/mmap_vec.rs
@@ -34,7 +34,10 @@ impl<T: Clone> MmapVec<T> {
     pub fn with_capacity(capacity: usize) -> Self {
         // TODO: Round up to nearest 4KB
         // Note: mmaped files can not be empty, so we use at leas one byte.
-        let size = max(1, capacity * size_of::<T>());
+        let size = capacity
+            .checked_mul(size_of::<T>())
+            .expect("MmapVec capacity overflow");
+        let size = max(1, size);
         trace!("Allocating {} MB in anonymous mmap", size / 1_000_000);
         let mmap = MmapOptions::new()
             .len(size)
-- 
2.43.0


From a3da3f19d91e6166fbce9841a044107f218cf040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:33 +0000
Subject: [PATCH 20/36] fix: peak allocation includes the allocation that
 reaches it

---
 utils/logging-allocator/src/logging_allocator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/logging-allocator/src/logging_allocator.rs b/utils/logging-allocator/src/logging_allocator.rs
index f9720cf..0a3a67a 100644
--- a/utils/logging-allocator/src/logging_allocator.rs
+++ b/utils/logging-allocator/src/logging_allocator.rs
@@ -107,7 +107,7 @@ unsafe impl GlobalAlloc for LoggingAllocator {
         if !result.is_null() {
             // TODO: We are doing a lot of atomic operations here, what is
             // the performance impact?
-            let allocated = self.allocated.fetch_add(layout.size(), Relaxed);
+            let allocated = self.allocated.fetch_add(layout.size(), Relaxed) + layout.size();
             let _ = self.total_allocated.fetch_add(layout.size(), Relaxed);
             let _ = self.num_allocations.fetch_add(1, Relaxed);
             // HACK: Using `allocated` here again is not completely fool proof
-- 
2.43.0


From 404c591795d3680f84e704bb9f83b1c51e013e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:33 +0000
Subject: [PATCH 21/36] fix: formatting sizes that round up to the next unit
 does not underflow

---
 utils/logging-allocator/src/size_bytes.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/logging-allocator/src/size_bytes.rs b/utils/logging-allocator/src/size_bytes.rs
index c5c4e26..ee46cb6 100644
--- a/utils/logging-allocator/src/size_bytes.rs
+++ b/utils/logging-allocator/src/size_bytes.rs
@@ -23,21 +23,21 @@ impl fmt::Display for SizeBytes {
                 f,
                 "{:.1$} kB",
                 size / 1.0e3,
-                5 - (size.log10().floor() as usize)
+                5_usize.saturating_sub(size.log10().floor() as usize)
             )
         } else if size < 1.0e9 {
             write!(
                 f,
                 "{:.1$} MB",
                 size / 1.0e6,
-                8 - (size.log10().floor() as usize)
+                8_usize.saturating_sub(size.log10().floor() as usize)
             )
         } else if size < 1.0e12 {
             write!(
                 f,
                 "{:.1$} GB",
                 size / 1.0e9,
-                11 - (size.log10().floor() as usize)
+                11_usize.saturating_sub(size.log10().floor() as usize)
             )
         } else {
             write!(f, "{} TB", size / 1.0e12)
-- 
2.43.0


From d50a6d94c2ff05b08212ff60d1a87a92b3e9879e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:42 +0000
Subject: [PATCH 22/36] fix: prover wraps around row offsets further back than
 the trace length

---
 crypto/stark/src/algebraic_dag.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/stark/src/algebraic_dag.rs b/crypto/stark/src/algebraic_dag.rs
index 1885090..1e3e994 100644
--- a/crypto/stark/src/algebraic_dag.rs
+++ b/crypto/stark/src/algebraic_dag.rs
@@ -520,7 +520,7 @@ impl AlgebraicGraph {
                         // Sizes are small enough
                         #[allow(clippy::cast_possible_wrap)]
                         let row = (self.row + i) as isize;
-                        let row = (n + row + trace_blowup * *o) % n;
+                        let row = (row + trace_blowup * *o).rem_euclid(n);
                         // Sizes are small enough
                         #[allow(clippy::cast_sign_loss)]
                         let row = row as usize;
-- 
2.43.0


From 4b7e1bc28cf48297220f24d29d803cab25675c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:10 +0000
Subject: [PATCH 23/36] fix: verify and export proofs without FRI layers

---
 crypto/stark/src/solidity_seralizer.rs |  2 +-
 crypto/stark/src/verifier.rs           | 19 ++++++++++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/crypto/stark/src/solidity_seralizer.rs b/crypto/stark/src/solidity_seralizer.rs
index e86fc1f..b412406 100644
--- a/crypto/stark/src/solidity_seralizer.rs
+++ b/crypto/stark/src/solidity_seralizer.rs
@@ -203,7 +203,7 @@ pub fn proof_serialize(
     let mut fri_indices: Vec<usize> = queries
         .to_vec()
         .iter()
-        .map(|x| x / coset_sizes[0])
+        .map(|x| x / coset_sizes.first().unwrap_or(&1))
         .collect();
 
     let mut previous_indices = queries.to_vec();
diff --git a/crypto/stark/src/verifier.rs b/crypto/stark/src/verifier.rs
index b2a62b3..02c3982 100644
--- a/crypto/stark/src/verifier.rs
+++ b/crypto/stark/src/verifier.rs
@@ -281,12 +281,29 @@ pub fn verify(constraints: &Constraints, proof: &Proof) -> Result<()> {
     let mut fri_indices: Vec<usize> = queries
         .to_vec()
         .iter()
-        .map(|x| x / coset_sizes[0])
+        .map(|x| x / coset_sizes.first().unwrap_or(&1))
         .collect();
 
     // Folded fri values from the previous layer
     let mut fri_folds: BTreeMap<usize, FieldElement> = BTreeMap::new();
 
+    // Without any fri layers the last layer is the first layer
+    if fri_commitments.is_empty() {
+        for (z, index) in queries.iter().enumerate() {
+            let value = out_of_domain_element(
+                &eval_x[fft::permute_index(eval_domain_size, *index)],
+                &lde_values[z].1,
+                &constraint_values[z].1,
+                &oods_point,
+                &claimed_trace_map,
+                &claimed_constraint_values,
+                &oods_coefficients,
+                trace_length,
+            )?;
+            let _old_value = fri_folds.insert(*index, value);
+        }
+    }
+
     let mut previous_indices = queries.to_vec();
     let mut step = 1;
     let mut len = eval_domain_size;
-- 
2.43.0


From 6158a6ef5375bd7bd1fd6a13b78066c9d346eb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:12 +0000
Subject: [PATCH 24/36] fix: too short proofs are rejected instead of panicking

---
 crypto/stark/src/channel.rs            | 36 +++++++++++++++-----------
 crypto/stark/src/solidity_seralizer.rs |  4 +++
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/crypto/stark/src/channel.rs b/crypto/stark/src/channel.rs
index 1b39dfb..0b58ce3 100644
--- a/crypto/stark/src/channel.rs
+++ b/crypto/stark/src/channel.rs
@@ -89,6 +89,11 @@ impl VerifierChannel {
         self.proof_index == self.proof.len()
     }
 
+    #[cfg(feature = "std")]
+    pub(crate) fn past_end(&self) -> bool {
+        self.proof_index > self.proof.len()
+    }
+
     pub(crate) fn get_coefficients(&mut self, n: usize) -> Vec<FieldElement> {
         (0..n).map(|_| self.get_random()).collect()
     }
@@ -97,11 +102,8 @@ impl VerifierChannel {
     // updates the public coin once, with the contents of the entire layer, instead
     // of onces for each FieldElement in the layer.
     pub(crate) fn replay_fri_layer(&mut self, size: usize) -> Vec<FieldElement> {
-        let start_index = self.proof_index;
-        self.proof_index += 32 * size;
-        let layer_contents = &self.proof[start_index..self.proof_index];
-
-        self.coin.write(layer_contents);
+        let mut layer_contents = vec![0_u8; 32 * size];
+        self.read_bytes(&mut layer_contents);
 
         layer_contents
             .chunks_exact(32)
@@ -113,14 +115,22 @@ impl VerifierChannel {
 
     fn read_32_bytes(&mut self) -> [u8; 32] {
         let mut holder = [0_u8; 32];
-        let from = self.proof_index;
-        let to = from + 32;
-        self.proof_index = to;
         // OPT: Use arrayref crate or similar to avoid copy
-        holder.copy_from_slice(&self.proof[from..to]);
-        self.coin.write(&holder[..]);
+        self.read_bytes(&mut holder);
         holder
     }
+
+    /// Fill the buffer with the next bytes of the proof.
+    ///
+    /// The proof is untrusted and can be too short. Whatever is missing reads
+    /// as zeros, `past_end` will be true and `at_end` false.
+    fn read_bytes(&mut self, buffer: &mut [u8]) {
+        let from = self.proof_index.min(self.proof.len());
+        self.proof_index += buffer.len();
+        let to = self.proof_index.min(self.proof.len());
+        buffer[..to - from].copy_from_slice(&self.proof[from..to]);
+        self.coin.write(buffer);
+    }
 }
 
 impl RandomGenerator<proof_of_work::ChallengeSeed> for PublicCoin {
@@ -140,11 +150,7 @@ impl Writable<proof_of_work::Response> for ProverChannel {
 impl Replayable<proof_of_work::Response> for VerifierChannel {
     fn replay(&mut self) -> proof_of_work::Response {
         let mut holder = [0_u8; 8];
-        let from = self.proof_index;
-        let to = from + 8;
-        self.proof_index = to;
-        holder.copy_from_slice(&self.proof[from..to]);
-        self.coin.write(&holder[..]);
+        self.read_bytes(&mut holder);
         let nonce = u64::from_be_bytes(holder);
         proof_of_work::Response::from_nonce(nonce)
     }
diff --git a/crypto/stark/src/solidity_seralizer.rs b/crypto/stark/src/solidity_seralizer.rs
index b412406..8867df1 100644
--- a/crypto/stark/src/solidity_seralizer.rs
+++ b/crypto/stark/src/solidity_seralizer.rs
@@ -236,6 +236,10 @@ pub fn proof_serialize(
         }
     }
 
+    if channel.past_end() {
+        return Err(MerkleError::NotEnoughHashes);
+    }
+
     result_string.push_str(&format!("\"fri_values\": {}, \n", fri_values.sol_encode()));
     result_string.push_str(&format!(
         "\"fri_decommitments\": {} \n",
-- 
2.43.0


From 2b15a59cac5a95b5d45b3c17d37cb0553ea8e49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:04 +0000
Subject: [PATCH 25/36] fix: proofs with unreduced field elements are rejected

---
 crypto/stark/src/channel.rs            | 32 ++++++++++++++++++--------
 crypto/stark/src/solidity_seralizer.rs |  2 +-
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/crypto/stark/src/channel.rs b/crypto/stark/src/channel.rs
index 0b58ce3..4c69d6e 100644
--- a/crypto/stark/src/channel.rs
+++ b/crypto/stark/src/channel.rs
@@ -5,7 +5,7 @@ use std::{convert::TryInto, prelude::v1::*};
 use tiny_keccak::{Hasher, Keccak};
 use zkp_hash::Hash;
 use zkp_macros_decl::u256h;
-use zkp_primefield::FieldElement;
+use zkp_primefield::{FieldElement, Zero};
 use zkp_u256::U256;
 
 pub(crate) trait RandomGenerator<T> {
@@ -45,6 +45,8 @@ pub(crate) struct VerifierChannel {
     pub(crate) coin:  PublicCoin,
     pub(crate) proof: Vec<u8>,
     proof_index:      usize,
+    // Set when a field element of the proof is not in reduced form
+    not_canonical:    bool,
 }
 
 impl PublicCoin {
@@ -78,6 +80,7 @@ impl VerifierChannel {
             coin: PublicCoin::default(),
             proof,
             proof_index: 0,
+            not_canonical: false,
         }
     }
 
@@ -86,12 +89,12 @@ impl VerifierChannel {
     }
 
     pub(crate) fn at_end(self) -> bool {
-        self.proof_index == self.proof.len()
+        self.proof_index == self.proof.len() && !self.not_canonical
     }
 
     #[cfg(feature = "std")]
-    pub(crate) fn past_end(&self) -> bool {
-        self.proof_index > self.proof.len()
+    pub(crate) fn is_malformed(&self) -> bool {
+        self.proof_index > self.proof.len() || self.not_canonical
     }
 
     pub(crate) fn get_coefficients(&mut self, n: usize) -> Vec<FieldElement> {
@@ -107,9 +110,7 @@ impl VerifierChannel {
 
         layer_contents
             .chunks_exact(32)
-            .map(|bytes| {
-                FieldElement::from_montgomery(U256::from_bytes_be(bytes.try_into().unwrap()))
-            })
+            .map(|bytes| self.field_element(U256::from_bytes_be(bytes.try_into().unwrap())))
             .collect()
     }
 
@@ -120,10 +121,23 @@ impl VerifierChannel {
         holder
     }
 
+    /// The field element with the given representation.
+    ///
+    /// Representations that are not reduced are never written by the prover.
+    /// They read as zero, `is_malformed` will be true and `at_end` false.
+    fn field_element(&mut self, montgomery: U256) -> FieldElement {
+        if montgomery < FieldElement::MODULUS {
+            FieldElement::from_montgomery(montgomery)
+        } else {
+            self.not_canonical = true;
+            FieldElement::zero()
+        }
+    }
+
     /// Fill the buffer with the next bytes of the proof.
     ///
     /// The proof is untrusted and can be too short. Whatever is missing reads
-    /// as zeros, `past_end` will be true and `at_end` false.
+    /// as zeros, `is_malformed` will be true and `at_end` false.
     fn read_bytes(&mut self, buffer: &mut [u8]) {
         let from = self.proof_index.min(self.proof.len());
         self.proof_index += buffer.len();
@@ -303,7 +317,7 @@ impl Replayable<U256> for VerifierChannel {
 impl Replayable<FieldElement> for VerifierChannel {
     fn replay(&mut self) -> FieldElement {
         let montgomery_modulus: U256 = self.replay();
-        FieldElement::from_montgomery(montgomery_modulus)
+        self.field_element(montgomery_modulus)
     }
 }
 
diff --git a/crypto/stark/src/solidity_seralizer.rs b/crypto/stark/src/solidity_seralizer.rs
index 8867df1..4e53666 100644
--- a/crypto/stark/src/solidity_seralizer.rs
+++ b/crypto/stark/src/solidity_seralizer.rs
@@ -236,7 +236,7 @@ pub fn proof_serialize(
         }
     }
 
-    if channel.past_end() {
+    if channel.is_malformed() {
         return Err(MerkleError::NotEnoughHashes);
     }
 
-- 
2.43.0


From 4a3343a24827a6abb64eaaf7f0243e2ea44d708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:37 +0000
Subject: [PATCH 26/36] fix: constraint checker inverts the values it divides
 by

---
 crypto/stark/src/rational_expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/stark/src/rational_expression.rs b/crypto/stark/src/rational_expression.rs
index 5f2bdec..c0c61f5 100644
--- a/crypto/stark/src/rational_expression.rs
+++ b/crypto/stark/src/rational_expression.rs
@@ -268,7 +268,7 @@ impl RationalExpression {
                     if res_a == FieldElement::zero() {
                         (FieldElement::one(), false)
                     } else {
-                        (res_a, true)
+                        (res_a.inv().expect("not zero"), true)
                     }
                 } else {
                     match *(a.clone()) {
-- 
2.43.0


From 9c9a22210d8d90ce28ddbe13845d8b50a9efc951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:37 +0000
Subject: [PATCH 27/36] fix: checking one constraint at one row evaluates it at
 that row

---
 crypto/stark/src/constraint_check.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/crypto/stark/src/constraint_check.rs b/crypto/stark/src/constraint_check.rs
index 27a7367..70f3893 100644
--- a/crypto/stark/src/constraint_check.rs
+++ b/crypto/stark/src/constraint_check.rs
@@ -71,12 +71,7 @@ pub(crate) fn check_specific_constraint(
     which_constraint: usize,
 ) -> bool {
     let trace_generator = FieldElement::root(table.num_rows()).unwrap();
-    let x;
-    if row == 0 {
-        x = FieldElement::one();
-    } else {
-        x = trace_generator.pow(row - 1)
-    }
+    let x = trace_generator.pow(row);
     let len = table.num_rows();
 
     let trace = |i: usize, j: isize| {
-- 
2.43.0


From a5c3c1782df9ef553ed1f5cb09e73ffb2968dae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:37 +0000
Subject: [PATCH 28/36] fix: constraint checker wraps around row offsets
 further back than the trace length

---
 crypto/stark/src/constraint_check.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/crypto/stark/src/constraint_check.rs b/crypto/stark/src/constraint_check.rs
index 70f3893..71865ed 100644
--- a/crypto/stark/src/constraint_check.rs
+++ b/crypto/stark/src/constraint_check.rs
@@ -47,11 +47,7 @@ pub fn check_constraints(
                 table[((j + row) % len, i)].clone()
             } else {
                 let j: usize = j.abs().try_into().unwrap();
-                if row < j {
-                    table[(len + row - j, i)].clone()
-                } else {
-                    table[(row - j, i)].clone()
-                }
+                table[((row + len - j % len) % len, i)].clone()
             }
         };
         for (which, expression) in constraints.expressions().iter().enumerate() {
@@ -80,11 +76,7 @@ pub(crate) fn check_specific_constraint(
             table[((j + row) % len, i)].clone()
         } else {
             let j: usize = j.abs().try_into().unwrap();
-            if row < j {
-                table[(len + row - j, i)].clone()
-            } else {
-                table[(row - j, i)].clone()
-            }
+            table[((row + len - j % len) % len, i)].clone()
         }
     };
 
-- 
2.43.0


From 2ceb0852c554ae72f71b6b947bb80343d9d5a295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:56 +0000
Subject: [PATCH 29/36] fix: constraint checker substitutes claim polynomials

---
 crypto/stark/src/constraint_check.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto/stark/src/constraint_check.rs b/crypto/stark/src/constraint_check.rs
index 71865ed..6fd718a 100644
--- a/crypto/stark/src/constraint_check.rs
+++ b/crypto/stark/src/constraint_check.rs
@@ -38,6 +38,8 @@ pub fn check_constraints(
     let trace_generator = FieldElement::root(table.num_rows()).unwrap();
     let mut current_root = FieldElement::one();
     let len = table.num_rows();
+    let mut constraints = constraints.clone();
+    constraints.substitute();
 
     for row in 0..len {
         // Note - Still in col row form
@@ -81,6 +83,7 @@ pub(crate) fn check_specific_constraint(
     };
 
     constraints.expressions()[which_constraint]
+        .substitute_claim(&constraints.claim_polynomials)
         .check(&x, &trace)
         .1
 }
-- 
2.43.0


From 4d9979e75957a210c5b74186c04644a17b084a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:00 +0000
Subject: [PATCH 30/36] fix: dividing out a point aligns with longer targets

---
 crypto/stark/src/polynomial.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crypto/stark/src/polynomial.rs b/crypto/stark/src/polynomial.rs
index daa3f82..abdc315 100644
--- a/crypto/stark/src/polynomial.rs
+++ b/crypto/stark/src/polynomial.rs
@@ -119,7 +119,9 @@ impl DensePolynomial {
     /// See: <https://en.wikipedia.org/wiki/Synthetic_division>
     pub fn divide_out_point_into(&self, z: &FieldElement, c: &FieldElement, target: &mut Self) {
         let mut remainder = FieldElement::zero();
-        for (coefficient, target) in self.0.iter().rev().zip(target.0.iter_mut().rev()) {
+        // The target can be longer, its coefficients need to be aligned from below
+        let target = &mut target.0[..self.len()];
+        for (coefficient, target) in self.0.iter().rev().zip(target.iter_mut().rev()) {
             *target += c * &remainder;
             remainder *= z;
             remainder += coefficient;
-- 
2.43.0


From 01f6f36dc55512f1c99b33f1522df59f66be29f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:55 +0000
Subject: [PATCH 31/36] fix: empty lists in an exported proof are written as
 empty arrays

---
 crypto/stark/src/solidity_seralizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/stark/src/solidity_seralizer.rs b/crypto/stark/src/solidity_seralizer.rs
index 4e53666..866cfda 100644
--- a/crypto/stark/src/solidity_seralizer.rs
+++ b/crypto/stark/src/solidity_seralizer.rs
@@ -41,7 +41,7 @@ impl<T: SoliditySeralize> SoliditySeralize for Vec<T> {
     fn sol_encode(&self) -> String {
         let mut res: String = "".to_string();
         if self.is_empty() {
-            return res;
+            return "[]".to_string();
         }
 
         let (last, rest) = self.split_last().unwrap();
-- 
2.43.0


From 885a8f251cddabf67d2d622d1e1c0f1e6b968ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:33 +0000
Subject: [PATCH 32/36] fix: security bits use the binary logarithm of the
 blowup

---
 crypto/stark/src/constraints.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/stark/src/constraints.rs b/crypto/stark/src/constraints.rs
index e8140e0..96070d6 100644
--- a/crypto/stark/src/constraints.rs
+++ b/crypto/stark/src/constraints.rs
@@ -211,7 +211,7 @@ impl Constraints {
     pub fn security_bits(&self) -> usize {
         // Our conservative formula is (1/2^blowup_log)^(queries/2)*(1/2^pow_bits)
         // So the bit security should be blowup_log*(queries/2) + pow_bits
-        let blowup_log = (64 - (self.blowup as u64).leading_zeros()) as usize;
+        let blowup_log = self.blowup.trailing_zeros() as usize;
         blowup_log * (self.num_queries / 2) + self.pow_bits
     }
 
-- 
2.43.0


From fc1b3052aa19b9504bd2b3ddb163c48357202306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:51 +0000
Subject: [PATCH 33/36] fix: maximum proof size bounds every part of the proof

---
 crypto/stark/src/constraints.rs | 34 +++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/crypto/stark/src/constraints.rs b/crypto/stark/src/constraints.rs
index 96070d6..702b129 100644
--- a/crypto/stark/src/constraints.rs
+++ b/crypto/stark/src/constraints.rs
@@ -221,28 +221,30 @@ impl Constraints {
     // TODO - Improve bound by removing the elements of overlap in
     // worst cases.
     pub fn max_proof_size(&self) -> usize {
-        let trace_len_log = self.trace_nrows().trailing_zeros() as usize;
-        // First we decommit two proofs for each query [one which is the evaluation
+        let mut substituted = self.clone();
+        substituted.substitute();
+        let constraint_ncolumns = substituted.degree().next_power_of_two();
+        let mut layer_size = self.trace_nrows() * self.blowup;
+        let layer_log = layer_size.trailing_zeros() as usize;
+
+        // The trace and constraint roots and the out of domain values.
+        let mut total_elements = 2 + substituted.trace_arguments().len() + constraint_ncolumns;
+        // Then we decommit two proofs for each query [one which is the evaluation
         // domain decommitment and one is the constraints]
-        let mut total_decommitment =
-            self.num_queries * (trace_len_log * self.trace_ncolumns() + trace_len_log);
-        // Now we account for the first layer which is 8 elements [assuming the worst
-        // case we need to decommit 7 other elements].
-        let mut current_size = trace_len_log - 3;
-        total_decommitment += self.num_queries * (current_size + 7);
+        total_elements +=
+            self.num_queries * (self.trace_ncolumns() + constraint_ncolumns + 2 * layer_log);
 
         for &i in &self.fri_layout {
             // This worst case assumes that only one in each group is from the previous
             // layer.
-            current_size -= i;
-            total_decommitment += self.num_queries * (current_size + (1 << i) - 1);
+            layer_size >>= i;
+            let layer_log = layer_size.trailing_zeros() as usize;
+            total_elements += 1 + self.num_queries * (layer_log + (1 << i) - 1);
         }
-        // Decommits all of the remaining elements
-        let final_list = 1 << current_size;
-        if final_list > self.num_queries {
-            total_decommitment += final_list - self.num_queries;
-        }
-        32 * total_decommitment
+        // All of the coefficients of the final layer
+        total_elements += layer_size / self.blowup;
+        // The proof of work nonce
+        8 + 32 * total_elements
     }
 
     pub fn combine(&self, constraint_coefficients: &[FieldElement]) -> RationalExpression {
-- 
2.43.0


From 3fadb570fd88d3ce06a41f5feefdcce0dff71bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:51 +0000
Subject: [PATCH 34/36] fix: constraint systems refuse trace lengths that are
 not a power of two

---
 crypto/stark/src/constraints.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crypto/stark/src/constraints.rs b/crypto/stark/src/constraints.rs
index 702b129..954d86e 100644
--- a/crypto/stark/src/constraints.rs
+++ b/crypto/stark/src/constraints.rs
@@ -1,7 +1,7 @@
 use crate::{polynomial::DensePolynomial, rational_expression::RationalExpression};
 use itertools::Itertools;
 use std::{collections::BTreeSet, fmt, prelude::v1::*};
-use zkp_primefield::{FieldElement, Root};
+use zkp_primefield::FieldElement;
 
 #[derive(Clone, Debug)]
 pub enum Error {
@@ -104,7 +104,9 @@ impl Constraints {
         channel_seed: Vec<u8>,
         expressions: Vec<RationalExpression>,
     ) -> Result<Self, Error> {
-        let _ = FieldElement::root(trace_nrows).ok_or(Error::InvalidTraceLength)?;
+        if !trace_nrows.is_power_of_two() {
+            return Err(Error::InvalidTraceLength);
+        }
         // TODO: Hash expressions into channel seed
         // TODO - Examine if we want to up these security params further.
         // 22.5*4  + 0 queries = 90
@@ -138,7 +140,9 @@ impl Constraints {
         op_num_queries: Option<usize>,
         op_fri_layout: Option<Vec<usize>>,
     ) -> Result<Self, Error> {
-        let _ = FieldElement::root(trace_nrows).ok_or(Error::InvalidTraceLength)?;
+        if !trace_nrows.is_power_of_two() {
+            return Err(Error::InvalidTraceLength);
+        }
         // TODO: Hash expressions into channel seed
         // 15*4 + 30 queries = 90
         Ok(Self {
-- 
2.43.0


From 10803cdc0e640b3f0f60d645439233ac772905c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:22 +0000
Subject: [PATCH 35/36] fix: SCALE decoding refuses field elements that are not
 below the modulus

---
 algebra/primefield/src/parity_codec.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/algebra/primefield/src/parity_codec.rs b/algebra/primefield/src/parity_codec.rs
index 95beb6d..240defb 100644
--- a/algebra/primefield/src/parity_codec.rs
+++ b/algebra/primefield/src/parity_codec.rs
@@ -35,7 +35,12 @@ where
     P: Parameters<UInt = U>,
 {
     fn decode<I: Input>(value: &mut I) -> Result<Self, Error> {
-        Ok(Self::from_uint(&U::decode(value)?))
+        let value = U::decode(value)?;
+        if value < Self::modulus() {
+            Ok(Self::from_uint(&value))
+        } else {
+            Err("value is not less than the field modulus".into())
+        }
     }
 }
 
-- 
2.43.0


From ac4b189e70c0863b0a3cd7582eab71b04cece5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:15 +0000
Subject: [PATCH 36/36] Guarded entry point to the proof of work search (cfg
 openzkp_verif)

---
 crypto/stark/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crypto/stark/src/lib.rs b/crypto/stark/src/lib.rs
index beaa6be..c7ed88d 100644
--- a/crypto/stark/src/lib.rs
+++ b/crypto/stark/src/lib.rs
@@ -108,6 +108,15 @@ pub use trace_table::TraceTable;
 #[cfg(feature = "prover")]
 pub use traits::Provable;
 
+/// Entry point of the verification harness to the proof of work search.
+#[cfg(all(openzkp_verif, feature = "std", feature = "prover"))]
+pub fn verif_solve(seed: [u8; 32], difficulty: usize) -> u64 {
+    proof_of_work::ChallengeSeed::from_bytes(seed)
+        .with_difficulty(difficulty)
+        .solve()
+        .nonce()
+}
+
 #[cfg(test)]
 mod tests {
     pub(crate) fn init() {
-- 
2.43.0

