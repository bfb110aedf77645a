From 44adb6d6fc18e5f04e1b5bd8974f07b7328becd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:01 +0000
Subject: [PATCH 01/12] fix: Complex::powi returned z^-1 for negative odd
 exponents below -1

---
 crates/cglinalg_core/src/complex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cglinalg_core/src/complex.rs b/crates/cglinalg_core/src/complex.rs
index 7df2ddf..cefc515 100644
--- a/crates/cglinalg_core/src/complex.rs
+++ b/crates/cglinalg_core/src/complex.rs
@@ -1307,8 +1307,8 @@ where
         }
 
         // exponent != 0
-        let mut _exponent = exponent;
-        let mut base = if _exponent > 0 {
+        let mut _exponent = exponent.unsigned_abs();
+        let mut base = if exponent > 0 {
             self
         } else {
             let norm_squared = self.norm_squared();
-- 
2.43.0


From 1b4bd8e1826582d0ce7e5d228edb2c7c6771639d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:01 +0000
Subject: [PATCH 02/12] fix: Matrix2x2::rotation_between_axis rotated the wrong
 way for clockwise pairs

---
 crates/cglinalg_core/src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index d808038..2e42dbd 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -3234,7 +3234,7 @@ where
     #[inline]
     pub fn rotation_between_axis(v1: &Unit<Vector2<S>>, v2: &Unit<Vector2<S>>) -> Self {
         let cos_angle = v1.as_ref().dot(v2.as_ref());
-        let sin_angle = S::sqrt(S::one() - cos_angle * cos_angle);
+        let sin_angle = v1.as_ref()[0] * v2.as_ref()[1] - v1.as_ref()[1] * v2.as_ref()[0];
 
         Self::from_angle(Radians::atan2(sin_angle, cos_angle))
     }
-- 
2.43.0


From 47254ee22a8d28b05396b5d0a04dec37e6b167c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:01 +0000
Subject: [PATCH 03/12] fix: Perspective3::project_point ignored a vertically
 asymmetric frustum

---
 crates/cglinalg_transform/src/projection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_transform/src/projection.rs b/crates/cglinalg_transform/src/projection.rs
index f720587..99c9eb6 100644
--- a/crates/cglinalg_transform/src/projection.rs
+++ b/crates/cglinalg_transform/src/projection.rs
@@ -1921,7 +1921,7 @@ where
 
         Point3::new(
             (self.matrix.c0r0 * point.x + self.matrix.c2r0 * point.z) * inverse_w,
-            (self.matrix.c1r1 * point.y + self.matrix.c3r1 * point.z) * inverse_w,
+            (self.matrix.c1r1 * point.y + self.matrix.c2r1 * point.z) * inverse_w,
             (self.matrix.c2r2 * point.z + self.matrix.c3r2) * inverse_w,
         )
     }
-- 
2.43.0


From 81c7de8ae10cc75c808a1f4c59edf90694c59f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:23 +0000
Subject: [PATCH 04/12] fix: Perspective3::vfov was negative for fields of view
 above 90 degrees

---
 crates/cglinalg_transform/src/projection.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/cglinalg_transform/src/projection.rs b/crates/cglinalg_transform/src/projection.rs
index 99c9eb6..638b49b 100644
--- a/crates/cglinalg_transform/src/projection.rs
+++ b/crates/cglinalg_transform/src/projection.rs
@@ -826,8 +826,7 @@ where
         let two = one + one;
         let numerator = two * self.matrix[1][1];
         let denominator = self.matrix[2][1] * self.matrix[2][1] + self.matrix[1][1] * self.matrix[1][1] - one;
-        let tan_vfov = numerator / denominator;
-        let vfov = tan_vfov.atan();
+        let vfov = numerator.atan2(denominator);
 
         Radians(vfov)
     }
-- 
2.43.0


From c2afa99ce7b5af905a8fc25721c9f42fec2b82e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:23 +0000
Subject: [PATCH 05/12] fix: Isometry3::look_{to,at}_*_inv did not place the
 origin at the eye

---
 crates/cglinalg_transform/src/isometry.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/cglinalg_transform/src/isometry.rs b/crates/cglinalg_transform/src/isometry.rs
index cc9e806..49776e3 100644
--- a/crates/cglinalg_transform/src/isometry.rs
+++ b/crates/cglinalg_transform/src/isometry.rs
@@ -1638,7 +1638,7 @@ where
     #[inline]
     pub fn look_to_lh_inv(eye: &Point3<S>, direction: &Vector3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_to_lh_inv(direction, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
@@ -1683,7 +1683,7 @@ where
     #[inline]
     pub fn look_to_rh_inv(eye: &Point3<S>, direction: &Vector3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_to_rh_inv(direction, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
@@ -1728,7 +1728,7 @@ where
     #[inline]
     pub fn look_at_lh_inv(eye: &Point3<S>, target: &Point3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_at_lh_inv(eye, target, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
@@ -1773,7 +1773,7 @@ where
     #[inline]
     pub fn look_at_rh_inv(eye: &Point3<S>, target: &Point3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_at_rh_inv(eye, target, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
-- 
2.43.0


From 372d9125c70e3b9375c3bbcea29fac7f1d474277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:23 +0000
Subject: [PATCH 06/12] fix: Quaternion::is_invertible disagreed with
 try_inverse at the threshold

---
 crates/cglinalg_core/src/quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index f80c098..7fe4b7c 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -1602,7 +1602,7 @@ where
 
     #[inline]
     fn is_invertible_eps(&self, threshold: S) -> bool {
-        self.norm_squared() >= threshold * threshold
+        self.norm_squared() > threshold * threshold
     }
 
     /// Compute the inverse of a quaternion.
-- 
2.43.0


From 94a38466dea8968cf812539bc3c6b5160d50d2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:23 +0000
Subject: [PATCH 07/12] fix: Quaternion::polar_decomposition lost the sign of
 the scalar part

---
 crates/cglinalg_core/src/quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index 7fe4b7c..c8bc710 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -3056,7 +3056,7 @@ where
         let pair = Unit::try_from_value_with_norm(*self, S::zero());
         if let Some((unit_q, norm_q)) = pair {
             if let Some(axis) = Unit::try_from_value(self.vector(), S::zero()) {
-                let cos_angle_over_two = unit_q.scalar().abs();
+                let cos_angle_over_two = unit_q.scalar();
                 let sin_angle_over_two = unit_q.vector().norm();
                 let angle_over_two = Radians::atan2(sin_angle_over_two, cos_angle_over_two);
 
-- 
2.43.0


From 8f43b35c770f4f52b135d770ba2f88e64bb11a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:08 +0000
Subject: [PATCH 08/12] fix: Euler angles of a gimbal-locked quaternion
 described another rotation

---
 crates/cglinalg_core/src/euler.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/crates/cglinalg_core/src/euler.rs b/crates/cglinalg_core/src/euler.rs
index e040d69..efe3442 100644
--- a/crates/cglinalg_core/src/euler.rs
+++ b/crates/cglinalg_core/src/euler.rs
@@ -493,18 +493,16 @@ where
     #[inline]
     fn from_matrix(matrix: &Matrix3x3<S>) -> Euler<Radians<S>> {
         let yaw = Radians::asin(matrix[2][0]);
-        let cos_yaw = Radians::cos(yaw);
-        let (pitch, roll) = if cos_yaw.abs().is_zero() {
-            let _pitch = Radians::zero();
-            let _roll = Radians::atan2(matrix[1][2], matrix[1][1]);
-
-            (_pitch, _roll)
-        } else {
-            let _pitch = Radians::atan2(-matrix[1][0], matrix[0][0]);
-            let _roll = Radians::atan2(-matrix[2][1], matrix[2][2]);
-
-            (_pitch, _roll)
-        };
+        let pitch = Radians::atan2(-matrix[1][0], matrix[0][0]);
+
+        // Undoing the pitch leaves `R_x(roll) * R_y(yaw)`, whose second column is
+        // `(0, cos(roll), sin(roll))`. This stays accurate near gimbal lock, where
+        // the pitch and the roll are not determined separately.
+        let (sin_pitch, cos_pitch) = Radians::sin_cos(pitch);
+        let roll = Radians::atan2(
+            sin_pitch * matrix[0][2] + cos_pitch * matrix[1][2],
+            sin_pitch * matrix[0][1] + cos_pitch * matrix[1][1],
+        );
 
         Euler::new(roll, yaw, pitch)
     }
-- 
2.43.0


From 90839cd6d87ce6c97ce52a38bff0d5212d988b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:53 +0000
Subject: [PATCH 09/12] fix: Isometry::abs_diff_all_eq ignored the translation

---
 crates/cglinalg_transform/src/isometry.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/cglinalg_transform/src/isometry.rs b/crates/cglinalg_transform/src/isometry.rs
index 49776e3..bab0ab1 100644
--- a/crates/cglinalg_transform/src/isometry.rs
+++ b/crates/cglinalg_transform/src/isometry.rs
@@ -1835,10 +1835,13 @@ where
 
     #[inline]
     fn abs_diff_all_eq(&self, other: &Self, max_abs_diff: &Self::AllTolerance) -> bool {
-        let lhs = self.rotation.matrix();
-        let rhs = other.rotation.matrix();
+        let lhs_rotation = self.rotation.matrix();
+        let rhs_rotation = other.rotation.matrix();
+        let lhs_translation = self.translation.vector();
+        let rhs_translation = other.translation.vector();
 
-        approx_cmp::AbsDiffAllEq::abs_diff_all_eq(lhs, rhs, max_abs_diff)
+        approx_cmp::AbsDiffAllEq::abs_diff_all_eq(lhs_rotation, rhs_rotation, max_abs_diff)
+            && approx_cmp::AbsDiffAllEq::abs_diff_all_eq(lhs_translation, rhs_translation, max_abs_diff)
     }
 }
 
-- 
2.43.0


From 485b41e8f4904207af34e9b2a5931aa67523781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:17 +0000
Subject: [PATCH 10/12] fix: Rotation3::euler_angles of a gimbal-locked
 rotation described another rotation

---
 crates/cglinalg_transform/src/rotation.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/crates/cglinalg_transform/src/rotation.rs b/crates/cglinalg_transform/src/rotation.rs
index 487fbea..34f4da0 100644
--- a/crates/cglinalg_transform/src/rotation.rs
+++ b/crates/cglinalg_transform/src/rotation.rs
@@ -1836,18 +1836,16 @@ where
     #[inline]
     pub fn euler_angles(&self) -> Euler<Radians<S>> {
         let yaw = Radians::asin(self.matrix[2][0]);
-        let cos_yaw = Radians::cos(yaw);
-        let (pitch, roll) = if cos_yaw.abs().is_zero() {
-            let _pitch = Radians::zero();
-            let _roll = Radians::atan2(self.matrix[1][2], self.matrix[1][1]);
-
-            (_pitch, _roll)
-        } else {
-            let _pitch = Radians::atan2(-self.matrix[1][0], self.matrix[0][0]);
-            let _roll = Radians::atan2(-self.matrix[2][1], self.matrix[2][2]);
-
-            (_pitch, _roll)
-        };
+        let pitch = Radians::atan2(-self.matrix[1][0], self.matrix[0][0]);
+
+        // Undoing the pitch leaves `R_x(roll) * R_y(yaw)`, whose second column is
+        // `(0, cos(roll), sin(roll))`. This stays accurate near gimbal lock, where
+        // the pitch and the roll are not determined separately.
+        let (sin_pitch, cos_pitch) = Radians::sin_cos(pitch);
+        let roll = Radians::atan2(
+            sin_pitch * self.matrix[0][2] + cos_pitch * self.matrix[1][2],
+            sin_pitch * self.matrix[0][1] + cos_pitch * self.matrix[1][1],
+        );
 
         Euler::new(roll, yaw, pitch)
     }
-- 
2.43.0


From 27af08a8c722cec74e688256d1280512b3317542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:45 +0000
Subject: [PATCH 11/12] fix: Matrix::diagonal returns one component per column

---
 crates/cglinalg_core/src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index 2e42dbd..dc87fc2 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -1364,7 +1364,7 @@ where
     /// assert_eq!(result, expected);
     /// ```
     #[inline]
-    pub fn diagonal(&self) -> Vector4<S> {
+    pub fn diagonal(&self) -> Vector<S, N> {
         // PERFORMANCE: The const loop should get unrolled during optimization.
         let mut result = Vector::zero();
         for i in 0..N {
-- 
2.43.0


From bc394ad37a1dc0a2d23e2348ec7af9dc40922301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:29 +0000
Subject: [PATCH 12/12] fix: Quaternion::asin, acos and atan of a real
 quaternion were NaN

---
 crates/cglinalg_core/src/quaternion.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index c8bc710..933080f 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -3161,6 +3161,16 @@ where
         Self::from_parts(scalar, vector)
     }
 
+    /// The direction of the vector part of `self`.
+    ///
+    /// A real quaternion has no such direction. The inverse trigonometric functions
+    /// of a real quaternion do not depend on it, so the imaginary axis of the complex
+    /// plane serves as the canonical choice.
+    #[inline]
+    fn signum_vector(&self) -> Self {
+        Self::from_pure(self.vector().try_normalize(S::zero()).unwrap_or_else(Vector3::unit_x))
+    }
+
     /// Compute the quaternionic arccosine of `self`.
     ///
     /// # Example
@@ -3187,7 +3197,7 @@ where
     /// ```
     #[inline]
     pub fn acos(&self) -> Self {
-        let signum_vec_self = Self::from_pure(self.vector().normalize());
+        let signum_vec_self = self.signum_vector();
         let identity = Self::identity();
         let q = (self + (self.squared() - identity).sqrt()).ln();
 
@@ -3269,7 +3279,7 @@ where
     /// ```
     #[inline]
     pub fn asin(&self) -> Self {
-        let signum_vec_self = Self::from_pure(self.vector().normalize());
+        let signum_vec_self = self.signum_vector();
         let identity = Self::identity();
         let q = ((signum_vec_self * self) + (identity - self.squared()).sqrt()).ln();
 
@@ -3367,7 +3377,7 @@ where
     /// ```
     #[inline]
     pub fn atan(&self) -> Self {
-        let signum_vec_self = Self::from_pure(self.vector().normalize());
+        let signum_vec_self = self.signum_vector();
         let numerator = signum_vec_self + self;
         let denominator = signum_vec_self - self;
         let q = numerator.div_right(&denominator).unwrap();
-- 
2.43.0

