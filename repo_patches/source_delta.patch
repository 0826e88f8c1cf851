From 9e7158cbf31cff662e9eb12fefd67e76e3d36d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 1/3] fix: decoding a field element refuses integers that are
 not less than the modulus

The derived implementations took any 256-bit integer for a field element. An
Fr decoded from the modulus itself made inverse() loop forever; other
unreduced values made debug builds panic and equal elements compare unequal.
---
 src/fields/fp.rs | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/fields/fp.rs b/src/fields/fp.rs
index 61810a8..965c808 100644
--- a/src/fields/fp.rs
+++ b/src/fields/fp.rs
@@ -7,16 +7,49 @@ use core::fmt;
 #[cfg(feature = "borsh")]
 use borsh::{BorshSerialize, BorshDeserialize};
 #[cfg(feature = "serde")]
-use serde::{Serialize, Deserialize};
+use serde::{de::Error, Serialize, Deserialize, Deserializer};
 
 macro_rules! field_impl {
     ($name:ident, $modulus:expr, $rsquared:expr, $rcubed:expr, $one:expr, $inv:expr) => {
         #[derive(Copy, Clone, PartialEq, Eq, Debug)]
-        #[cfg_attr(feature = "borsh", derive(BorshSerialize, BorshDeserialize))]
-        #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+        #[cfg_attr(feature = "borsh", derive(BorshSerialize))]
+        #[cfg_attr(feature = "serde", derive(Serialize))]
         #[repr(C)]
         pub struct $name(U256);
 
+        #[cfg(feature = "borsh")]
+        impl BorshDeserialize for $name {
+            fn deserialize_reader<R: borsh::io::Read>(reader: &mut R) -> borsh::io::Result<Self> {
+                let a = U256::deserialize_reader(reader)?;
+
+                if a < Self::modulus() {
+                    Ok(Self(a))
+                } else {
+                    Err(borsh::io::Error::new(
+                        borsh::io::ErrorKind::InvalidData,
+                        "integer is not less than modulus",
+                    ))
+                }
+            }
+        }
+
+        #[cfg(feature = "serde")]
+        impl<'de> Deserialize<'de> for $name {
+            fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+                // Read the same representation that is written.
+                #[derive(Deserialize)]
+                struct $name(U256);
+
+                let a = $name::deserialize(deserializer)?.0;
+
+                if a < Self::modulus() {
+                    Ok(Self(a))
+                } else {
+                    Err(D::Error::custom("integer is not less than modulus"))
+                }
+            }
+        }
+
         impl From<$name> for U256 {
             #[inline]
             fn from(mut a: $name) -> Self {
-- 
2.43.0


From f5442a1857c72d0712d091168add7ff1823e198b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:59 +0000
Subject: [PATCH 2/3] fix: decoding a point or target group element refuses
 what is outside the group

Any coordinates were taken for a point, and any element of Fq12 for an element
of Gt: points off the curve, points of the twist outside the subgroup, zero.
With those, pairing() and Gt::inverse() could panic.
---
 src/fields/fq12.rs | 16 +++++++++++
 src/groups/mod.rs  | 13 +++++++++
 src/lib.rs         | 66 ++++++++++++++++++++++++++++++++++++++++++----
 3 files changed, 90 insertions(+), 5 deletions(-)

diff --git a/src/fields/fq12.rs b/src/fields/fq12.rs
index 237f38d..c989fb4 100644
--- a/src/fields/fq12.rs
+++ b/src/fields/fq12.rs
@@ -147,6 +147,22 @@ impl Fq12 {
             .unitary_inverse()
     }
 
+    /// Whether this is in the target group, the subgroup whose order is the
+    /// modulus of Fr.
+    pub fn is_member(&self) -> bool {
+        // cyclotomic subgroup: self^(q^4 - q^2 + 1) = 1
+        let a = self.frobenius_map(2);
+        if self.is_zero() || a.frobenius_map(2) * *self != a {
+            return false;
+        }
+
+        // q = r + 6z^2, so self^r = 1 if and only if self^q = self^(6z^2)
+        let b = self.exp_by_neg_z().exp_by_neg_z();
+        let c = b.cyclotomic_squared() * b;
+
+        self.frobenius_map(1) == c.cyclotomic_squared()
+    }
+
     pub fn unitary_inverse(&self) -> Fq12 {
         Fq12::new(self.c0, -self.c1)
     }
diff --git a/src/groups/mod.rs b/src/groups/mod.rs
index fe847c0..8e72afc 100644
--- a/src/groups/mod.rs
+++ b/src/groups/mod.rs
@@ -129,6 +129,19 @@ impl<P: GroupParams> G<P> {
             self.z.into_bytes()
         ].concat()
     }
+    /// Whether the coordinates are those of the identity, or of a point that is
+    /// on the curve and has the order of the group.
+    pub fn is_member(&self) -> bool {
+        if self.z.is_zero() {
+            return true;
+        }
+
+        let z_squared = self.z.squared();
+        let z_sixth = z_squared.squared() * z_squared;
+
+        self.y.squared() == self.x.squared() * self.x + P::coeff_b() * z_sixth
+            && (!P::check_order() || (*self * (-Fr::one()) + *self).is_zero())
+    }
     pub fn to_affine(&self) -> Option<AffineG<P>> {
         if self.z.is_zero() {
             None
diff --git a/src/lib.rs b/src/lib.rs
index 3720db9..bb17fa6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -28,9 +28,10 @@ use core::fmt;
 use borsh::{BorshSerialize, BorshDeserialize};
 #[cfg(feature = "serde")]
 use serde::{
-    de::DeserializeOwned,
+    de::{DeserializeOwned, Error},
     Serialize,
-    Deserialize
+    Deserialize,
+    Deserializer
 };
 
 #[derive(Copy, Clone, PartialEq, Eq)]
@@ -60,6 +61,49 @@ impl From<FieldError> for CurveError {
     }
 }
 
+/// Elements whose encoding can hold more than the members of their group.
+trait Member {
+    fn is_member(&self) -> bool;
+}
+
+impl Member for groups::G1 {
+    fn is_member(&self) -> bool {
+        self.is_member()
+    }
+}
+
+impl Member for groups::G2 {
+    fn is_member(&self) -> bool {
+        self.is_member()
+    }
+}
+
+impl Member for fields::Fq12 {
+    fn is_member(&self) -> bool {
+        self.is_member()
+    }
+}
+
+#[cfg(feature = "borsh")]
+fn deserialize_member<R: borsh::io::Read, T: BorshDeserialize + Member>(reader: &mut R) -> borsh::io::Result<T> {
+    let elem = T::deserialize_reader(reader)?;
+    if elem.is_member() {
+        Ok(elem)
+    } else {
+        Err(borsh::io::Error::new(borsh::io::ErrorKind::InvalidData, "not a member of the group"))
+    }
+}
+
+#[cfg(feature = "serde")]
+fn deserialize_member<'de, D: Deserializer<'de>, T: Deserialize<'de> + Member>(deserializer: D) -> Result<T, D::Error> {
+    let elem = T::deserialize(deserializer)?;
+    if elem.is_member() {
+        Ok(elem)
+    } else {
+        Err(D::Error::custom("not a member of the group"))
+    }
+}
+
 impl Fr {
     pub fn zero() -> Self {
         Fr(fields::Fr::zero())
@@ -215,7 +259,11 @@ pub trait Group
 #[cfg_attr(feature = "borsh", derive(BorshSerialize, BorshDeserialize))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[repr(C)]
-pub struct G1(groups::G1);
+pub struct G1(
+    #[cfg_attr(feature = "borsh", borsh(deserialize_with = "deserialize_member"))]
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "deserialize_member"))]
+    groups::G1
+);
 
 impl Group for G1 {
     fn zero() -> Self {
@@ -305,7 +353,11 @@ impl Debug for G1 {
 #[cfg_attr(feature = "borsh", derive(BorshSerialize, BorshDeserialize))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[repr(C)]
-pub struct G2(groups::G2);
+pub struct G2(
+    #[cfg_attr(feature = "borsh", borsh(deserialize_with = "deserialize_member"))]
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "deserialize_member"))]
+    groups::G2
+);
 
 impl Group for G2 {
     fn zero() -> Self {
@@ -382,7 +434,11 @@ impl Debug for G2 {
 #[cfg_attr(feature = "borsh", derive(BorshSerialize, BorshDeserialize))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[repr(C)]
-pub struct Gt(fields::Fq12);
+pub struct Gt(
+    #[cfg_attr(feature = "borsh", borsh(deserialize_with = "deserialize_member"))]
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "deserialize_member"))]
+    fields::Fq12
+);
 
 impl Gt {
     pub fn one() -> Self {
-- 
2.43.0


From 25a5e34d2fc85b8e2d09cf9dc79dc25f959a0e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:25 +0000
Subject: [PATCH 3/3] fix: normalising the identity gives it its one
 representation

An identity reached by arithmetic kept arbitrary x and y, so that equal
normalised points differed in their encoding and exported bytes.
---
 src/lib.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bb17fa6..c23bde2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -282,12 +282,10 @@ impl Group for G1 {
         self.0.into_bytes()
     }
     fn normalize(&mut self) {
-        let new = match self.0.to_affine() {
-            Some(a) => a,
-            None => return,
+        self.0 = match self.0.to_affine() {
+            Some(a) => a.to_jacobian(),
+            None => groups::G1::zero(),
         };
-
-        self.0 = new.to_jacobian();
     }
 }
 
@@ -375,12 +373,10 @@ impl Group for G2 {
     fn into_bytes(&self) -> Vec<u8> { self.0.into_bytes() }
 
     fn normalize(&mut self) {
-        let new = match self.0.to_affine() {
-            Some(a) => a,
-            None => return,
+        self.0 = match self.0.to_affine() {
+            Some(a) => a.to_jacobian(),
+            None => groups::G2::zero(),
         };
-
-        self.0 = new.to_jacobian();
     }
 }
 
-- 
2.43.0

