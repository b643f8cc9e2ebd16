From 30a5fc02c2e9e6f689871b8eade43db1e0743e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 01/24] fix: GJK collision and distance queries printed to
 stdout on every call

---
 src/col2d/shape/local_minkowski_diff/v.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index 4be036a..ce1ca96 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -17,7 +17,7 @@ where
     T: Transformation2d,
 {
     fn sdfv_minkowski(&self) -> (bool, Vec2) {
-        println!("[ GJK (collision only)]");
+        trace!("[ GJK (collision only)]");
         let mut direction = self.initial_direction();
         trace!("initial direction: {}", direction);
         let mut simplex = Simplex2d::new();
@@ -60,7 +60,7 @@ where
     T: Transformation2d,
 {
     fn sdfv_minkowski(&self) -> (bool, Vec2) {
-        println!("[ GJK (distance only)]");
+        trace!("[ GJK (distance only)]");
         let mut direction = self.initial_direction();
         let mut simplex = Simplex2d::new();
         let iteration_limit = 20;
-- 
2.43.0


From 5e33fe0c27f8d64e28af1b7c9536027cb85d236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 02/24] fix: GJK distance queries returned wrong distances,
 missed separation, or panicked

The simplex kept points that the origin's Voronoi region excludes, so later
iterations searched in the wrong direction or reported a capture after
separation was proven. Distance-only queries also stopped on the wrong
condition and reported separated shapes as colliding.
---
 src/col2d/shape/local_minkowski_diff/mod.rs | 83 +++++++++++----------
 src/col2d/shape/local_minkowski_diff/v.rs   | 36 ++++++---
 2 files changed, 66 insertions(+), 53 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index 1b3f4a7..90ccf81 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -1,6 +1,6 @@
 mod v;
 
-use crate::{error, info, trace, warn};
+use crate::{info, trace, warn};
 
 use super::*;
 
@@ -170,6 +170,7 @@ impl Simplex2d {
                     let ab_perp = ab.cross_aba(ao);
                     (false, ab_perp)
                 } else {
+                    self.0.points = vec![a];
                     (false, ao)
                 }
             }
@@ -198,27 +199,32 @@ impl Simplex2d {
 
                 trace!("points before: {:?}", self.0.points);
 
-                if same_direction(ab_perp, ao) {
-                    if same_direction(ab, ao) {
-                        trace!("same direction ab ao");
-                        self.0.points = vec![a, b];
-                        trace!("points after: {:?}", self.0.points);
-                        (false, ab_perp)
+                let outside_ab = same_direction(ab_perp, ao);
+                let outside_ac = same_direction(ac_perp, ao);
+
+                if outside_ab || outside_ac {
+                    // Continue with the feature (edge or its vertex) closest to the origin.
+                    let to_ab = segment_to_origin(a, b);
+                    let to_ac = segment_to_origin(a, c);
+                    let ab_is_closer = to_ab.length_squared() <= to_ac.length_squared();
+                    let (p, to_ap, ap_perp) = if outside_ab && (!outside_ac || ab_is_closer) {
+                        (b, to_ab, ab_perp)
+                    } else {
+                        (c, to_ac, ac_perp)
+                    };
+                    let (points, direction) = if to_ap == -a {
+                        (vec![a], to_ap)
+                    } else if to_ap == -p {
+                        (vec![p], to_ap)
                     } else {
-                        trace!("opposite direction ab ao");
-                        self.0.points = vec![a, c];
-                        trace!("points after: {:?}", self.0.points);
-                        (false, ac_perp)
-                    }
-                    // trace!("same direction ab_perp ao");
-                    // self.0.points = vec![a, b];
-                    // trace!("points after: {:?}", self.0.points);
-                    // (false, ab_perp)
-                } else if same_direction(ac_perp, ao) {
-                    trace!("same direction ac_perp ao");
-                    self.0.points = vec![a, c];
+                        // The length of `ap_perp` vanishes for thin triangles, keep its direction.
+                        let normal = (p - a).perp();
+                        let outwards = normal.dot(ap_perp) >= 0.0;
+                        (vec![a, p], if outwards { normal } else { -normal })
+                    };
+                    self.0.points = points;
                     trace!("points after: {:?}", self.0.points);
-                    (false, ac_perp)
+                    (false, direction)
                 } else {
                     trace!("captured the origin");
                     (true, Vec2::NAN)
@@ -238,32 +244,13 @@ impl Simplex2d {
             1 => -self.0.points[0],
             2 => {
                 trace!("2 points case");
-                warn!("this implementation could be wrong");
                 let a = self.0.points[0];
                 let b = self.0.points[1];
-                let ab = b - a;
-                let ao = -a;
-                let t = ao.dot(ab) / ab.dot(ab);
 
                 info!("a: {}", a);
                 info!("b: {}", b);
-                info!("ab: {}", ab);
-                info!("ao: {}", ao);
-                info!("t: {}", t);
-
-                if t <= 0.0 {
-                    info!("t <= 0.0");
-                    info!("ao: {}", ao);
-                    ao
-                } else if t >= 1.0 {
-                    info!("t >= 1.0");
-                    info!("b: {}", b);
-                    -b
-                } else {
-                    info!("0.0 < t < 1.0");
-                    info!("ab * t: {}", ab * t);
-                    ao - ab * t
-                }
+
+                segment_to_origin(a, b)
             }
             3 => {
                 unreachable!("3 points case - is it reachable? maybe in edge cases but maybe not in most common cases");
@@ -290,6 +277,20 @@ impl Simplex2d {
     }
 }
 
+/// Vector from the closest point of segment `a`-`b` to the origin.
+fn segment_to_origin(a: Vec2, b: Vec2) -> Vec2 {
+    let ab = b - a;
+    let ao = -a;
+    let t = ao.dot(ab) / ab.dot(ab);
+    if t <= 0.0 || t.is_nan() {
+        ao
+    } else if t >= 1.0 {
+        -b
+    } else {
+        ao - ab * t
+    }
+}
+
 fn same_direction(a: Vec2, b: Vec2) -> bool {
     a.dot(b) >= 0.0
 }
diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index ce1ca96..73087a7 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -65,22 +65,34 @@ where
         let mut simplex = Simplex2d::new();
         let iteration_limit = 20;
 
-        let mut last_a = self.extreme_point(direction);
-        direction = simplex.add_point(last_a).1;
+        let a = self.extreme_point(direction);
+        direction = simplex.add_point(a).1;
+
+        let mut collision_possible = true;
 
         for _ in 0..iteration_limit {
             let a = self.extreme_point(direction);
             let fitness = a.dot(direction);
 
             if fitness <= 0.0 {
-                let last_fitness = last_a.dot(direction);
-                if fitness <= last_fitness {
+                collision_possible = false;
+                let last_fitness = simplex.0.points[0].dot(direction);
+
+                if !is_a_sufficiently_better_than_b(
+                    fitness,
+                    last_fitness,
+                    DISTANCE_ITERATION_FITNESS_RELATIVE_IMPROVEMENT_REQUIRED,
+                ) {
                     return (false, simplex.distance_to_origin());
                 }
             }
-            last_a = a;
 
+            let closest = simplex.distance_to_origin();
             let (collides, new_direction) = simplex.add_point(a);
+            if collides && !collision_possible {
+                warn!("Simplex collided after collision was no longer possible");
+                return (false, closest);
+            }
             let new_direction_too_small = direction_is_too_small(new_direction);
             let new_direction = if new_direction_too_small {
                 // panic!("new direction too small: {new_direction:?}");
@@ -176,9 +188,9 @@ where
         let mut direction = self.initial_direction();
         trace!("initial direction: {}", direction);
         let mut simplex = Simplex2d::new();
-        let mut last_a = self.extreme_point(direction);
-        trace!("M1 point: {}", last_a);
-        direction = simplex.add_point(last_a).1;
+        let a = self.extreme_point(direction);
+        trace!("M1 point: {}", a);
+        direction = simplex.add_point(a).1;
 
         let mut collision_possible = true;
 
@@ -195,7 +207,7 @@ where
             if fitness <= 0.0 {
                 trace!("Collision no longer possible");
                 collision_possible = false;
-                let last_fitness = last_a.dot(direction);
+                let last_fitness = simplex.0.points[0].dot(direction);
 
                 if !is_a_sufficiently_better_than_b(
                     fitness,
@@ -208,12 +220,12 @@ where
                 }
                 trace!("fitness: {fitness} *is* sufficiently better than last_fitness: {last_fitness} (continue)");
             }
-            last_a = a;
 
+            let closest = simplex.distance_to_origin();
             let (collides, new_direction) = simplex.add_point(a);
             if collides && !collision_possible {
-                error!("Simplex collided after collision was no longer possible");
-                panic!("Simplex collided after collision was no longer possible");
+                warn!("Simplex collided after collision was no longer possible");
+                return (false, closest);
             }
             trace!("new direction: {}", new_direction);
             // very close to zero. This is a sign that the origin lies on the boundary of the
-- 
2.43.0


From 187ec85592bff6d64166e73d783e354a4f10db70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 03/24] fix: EPA gave up after 20 iterations on round shapes
 and reported zero penetration

---
 src/col2d/shape/local_minkowski_diff/mod.rs | 5 ++++-
 src/col2d/shape/local_minkowski_diff/v.rs   | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index 90ccf81..ca77e3e 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -110,7 +110,10 @@ impl EpaPoly2d {
 
         warn!("EPA did not converge in {} iterations", iteration_limit);
 
-        Vec2::ZERO
+        // Use the best estimate found.
+        let (_, a, b) = self.find_closest_edge();
+        let normal = (b - a).perp_right();
+        normal * (-a.dot(normal) / normal.dot(normal))
     }
 
     fn find_closest_edge(&self) -> (usize, Vec2, Vec2) {
diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index 73087a7..3642131 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -1,6 +1,9 @@
 use super::*;
 use crate::col2d::detection::SdfvMinkowski2d;
 
+/// Round shapes need many edges to be approximated within the required relative improvement.
+const EPA_ITERATION_LIMIT: usize = 64;
+
 macro_rules! warn_simplex_not_converged {
     ($limit:ident) => {
         warn!(
@@ -160,7 +163,7 @@ where
                 trace!("Simplex collides");
                 simplex.enforce_counter_clockwise_winding();
                 let mut epa = EpaPoly2d(simplex.0);
-                let penetration = epa.calculate_penetration(&self, iteration_limit);
+                let penetration = epa.calculate_penetration(&self, EPA_ITERATION_LIMIT);
                 return (true, penetration);
             }
 
@@ -245,7 +248,7 @@ where
                 trace!("Simplex collides");
                 simplex.enforce_counter_clockwise_winding();
                 let mut epa = EpaPoly2d(simplex.0);
-                let penetration = epa.calculate_penetration(&self, iteration_limit);
+                let penetration = epa.calculate_penetration(&self, EPA_ITERATION_LIMIT);
                 return (true, penetration);
             }
 
-- 
2.43.0


From d8253d711d5eac53f6d4e5ba1768884e6793f5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 04/24] fix: AxisTransform inverse ignored scale when inverting
 the translation

---
 src/col2d/transformation2d/axis_transform2d.rs | 2 +-
 src/col3d/transformation3d/axis_transform3d.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/col2d/transformation2d/axis_transform2d.rs b/src/col2d/transformation2d/axis_transform2d.rs
index e5dd49e..2012b0f 100644
--- a/src/col2d/transformation2d/axis_transform2d.rs
+++ b/src/col2d/transformation2d/axis_transform2d.rs
@@ -41,7 +41,7 @@ impl Transformation2d for AxisTransform2d {
 impl Invertible for AxisTransform2d {
     fn inverse(&self) -> Self {
         Self {
-            pos: -self.pos,
+            pos: -self.pos / self.scale,
             scale: 1.0 / self.scale,
         }
     }
diff --git a/src/col3d/transformation3d/axis_transform3d.rs b/src/col3d/transformation3d/axis_transform3d.rs
index 7b4a560..48db74f 100644
--- a/src/col3d/transformation3d/axis_transform3d.rs
+++ b/src/col3d/transformation3d/axis_transform3d.rs
@@ -29,7 +29,7 @@ impl Transformation3d for AxisTransform3d {
 impl Invertible for AxisTransform3d {
     fn inverse(&self) -> Self {
         Self {
-            pos: -self.pos,
+            pos: -self.pos / self.scale,
             scale: 1.0 / self.scale,
         }
     }
-- 
2.43.0


From 881df3ee7f62a0b5cc464a56a6962851a8148a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 05/24] fix: Rotor2d::from_quaternion scaled vectors for
 rotations outside of the XY plane

---
 src/col2d/transformation2d/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/col2d/transformation2d/mod.rs b/src/col2d/transformation2d/mod.rs
index 47b5fde..b124d30 100644
--- a/src/col2d/transformation2d/mod.rs
+++ b/src/col2d/transformation2d/mod.rs
@@ -107,7 +107,11 @@ impl Rotor2d {
 
     /// Ignore rotation outside of the XY plane.
     pub fn from_quaternion(quat: crate::Quat) -> Rotor2d {
-        let norm = quat.dot(quat).sqrt();
+        // Only the twist around the Z axis is kept.
+        let norm = (quat.w * quat.w + quat.z * quat.z).sqrt();
+        if norm == 0.0 {
+            return Self::IDENTITY;
+        }
         let w = quat.w / norm;
         let z = quat.z / norm;
 
-- 
2.43.0


From e0aff357418b09ce35d55bb6728b1ef0b9115f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 06/24] fix: Box2d v Ball signed distance was wrong, and
 penetration was not minimal with the ball's centre on the box boundary

---
 src/col2d/shape/box2d/v_ball.rs          | 19 +------------------
 src/col2d/shape/rounded_box2d/v_point.rs |  2 +-
 2 files changed, 2 insertions(+), 19 deletions(-)

diff --git a/src/col2d/shape/box2d/v_ball.rs b/src/col2d/shape/box2d/v_ball.rs
index 575c54d..45e238d 100644
--- a/src/col2d/shape/box2d/v_ball.rs
+++ b/src/col2d/shape/box2d/v_ball.rs
@@ -17,23 +17,6 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
 
 impl SdfRel2d<Ball> for Box2d {
     fn sdf_rel(&self, b: &Ball, rel: &impl Transformation2d) -> f32 {
-        let b_center = rel.apply_origin();
-        let towards_self = -b_center;
-        // TODO: Exploit ball symmetry
-        let p = b.extreme_point_t(rel, towards_self);
-        let px = p.x.abs() - self.halfsize.x;
-        let py = p.y.abs() - self.halfsize.y;
-
-        if self.collides_rel(b, rel) {
-            px.min(py)
-        } else {
-            if px.is_sign_negative() {
-                py
-            } else if py.is_sign_negative() {
-                px
-            } else {
-                Vec2::new(px, py).length()
-            }
-        }
+        SdfRel2d::sdf_rel(self, &Point, rel) - b.radius
     }
 }
diff --git a/src/col2d/shape/rounded_box2d/v_point.rs b/src/col2d/shape/rounded_box2d/v_point.rs
index 027af39..5cf84b1 100644
--- a/src/col2d/shape/rounded_box2d/v_point.rs
+++ b/src/col2d/shape/rounded_box2d/v_point.rs
@@ -21,7 +21,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
                 )
             }
         } else {
-            if delta_x <= 0.0 {
+            if delta_x <= 0.0 && delta_x <= delta_y {
                 (
                     delta_y < self.radius,
                     Vec2::new(0.0, (delta_y - self.radius) * delta.y.signum()),
-- 
2.43.0


From ca8700d355ad380af44003eba06a57e05d37a844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 07/24] fix: Penetrates2d and DistanceTo2d returned vectors in
 the local space of the first collider

---
 src/col2d/detection/distance_to.rs | 3 ++-
 src/col2d/detection/penetrates.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/col2d/detection/distance_to.rs b/src/col2d/detection/distance_to.rs
index 23f6f4f..c6828a4 100644
--- a/src/col2d/detection/distance_to.rs
+++ b/src/col2d/detection/distance_to.rs
@@ -79,6 +79,7 @@ where
         let a: Collider2d<'a, A, T> = self.into();
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
-        a.shape.distance_to_rel(b.shape, &rel)
+        let distance_local = a.shape.distance_to_rel(b.shape, &rel);
+        distance_local.map(|v| a.transform.apply_normal(v))
     }
 }
diff --git a/src/col2d/detection/penetrates.rs b/src/col2d/detection/penetrates.rs
index db96494..fcfc698 100644
--- a/src/col2d/detection/penetrates.rs
+++ b/src/col2d/detection/penetrates.rs
@@ -71,6 +71,7 @@ where
         let a: Collider2d<'a, A, T> = self.into();
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
-        a.shape.penetrates_rel(b.shape, &rel)
+        let penetration_local = a.shape.penetrates_rel(b.shape, &rel);
+        penetration_local.map(|v| a.transform.apply_normal(v))
     }
 }
-- 
2.43.0


From 579dd5a24654032b5b87319b800c651df9d47d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 08/24] fix: queries ignored the uniform scale of transforms
 for balls and for world-space results

---
 src/col2d/detection/distance_to.rs | 2 +-
 src/col2d/detection/penetrates.rs  | 2 +-
 src/col2d/detection/sdf.rs         | 2 +-
 src/col2d/detection/sdfv.rs        | 2 +-
 src/col2d/shape/ball2d/v_ball2d.rs | 4 ++--
 src/col2d/shape/box2d/v_ball.rs    | 4 ++--
 src/col2d/shape/point2d.rs         | 2 +-
 7 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/col2d/detection/distance_to.rs b/src/col2d/detection/distance_to.rs
index c6828a4..492b827 100644
--- a/src/col2d/detection/distance_to.rs
+++ b/src/col2d/detection/distance_to.rs
@@ -80,6 +80,6 @@ where
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
         let distance_local = a.shape.distance_to_rel(b.shape, &rel);
-        distance_local.map(|v| a.transform.apply_normal(v))
+        distance_local.map(|v| a.transform.scaling_factor() * a.transform.apply_normal(v))
     }
 }
diff --git a/src/col2d/detection/penetrates.rs b/src/col2d/detection/penetrates.rs
index fcfc698..c3dffaf 100644
--- a/src/col2d/detection/penetrates.rs
+++ b/src/col2d/detection/penetrates.rs
@@ -72,6 +72,6 @@ where
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
         let penetration_local = a.shape.penetrates_rel(b.shape, &rel);
-        penetration_local.map(|v| a.transform.apply_normal(v))
+        penetration_local.map(|v| a.transform.scaling_factor() * a.transform.apply_normal(v))
     }
 }
diff --git a/src/col2d/detection/sdf.rs b/src/col2d/detection/sdf.rs
index 9564b59..20c6b27 100644
--- a/src/col2d/detection/sdf.rs
+++ b/src/col2d/detection/sdf.rs
@@ -72,6 +72,6 @@ where
         let a: Collider2d<'a, A, T> = self.into();
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
-        a.shape.sdf_rel(b.shape, &rel)
+        a.transform.scaling_factor() * a.shape.sdf_rel(b.shape, &rel)
     }
 }
diff --git a/src/col2d/detection/sdfv.rs b/src/col2d/detection/sdfv.rs
index 355ee79..de03161 100644
--- a/src/col2d/detection/sdfv.rs
+++ b/src/col2d/detection/sdfv.rs
@@ -72,7 +72,7 @@ where
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
         let (collides, sdfv_local) = a.shape.sdfv_rel(b.shape, &rel);
-        let sdfv = a.transform.apply_normal(sdfv_local);
+        let sdfv = a.transform.scaling_factor() * a.transform.apply_normal(sdfv_local);
         (collides, sdfv)
     }
 }
diff --git a/src/col2d/shape/ball2d/v_ball2d.rs b/src/col2d/shape/ball2d/v_ball2d.rs
index 3549fba..b898fdf 100644
--- a/src/col2d/shape/ball2d/v_ball2d.rs
+++ b/src/col2d/shape/ball2d/v_ball2d.rs
@@ -4,7 +4,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
     SdfvCommonRel2d<COMPUTE_PENETRATION, COMPUTE_DISTANCE, Ball, T> for Ball
 {
     fn sdfv_common_rel(&self, b: &Ball, rel: &T) -> (bool, Vec2) {
-        let radius = self.radius + b.radius;
+        let radius = self.radius + b.radius * rel.scaling_factor();
         let delta = rel.apply_origin();
         let length = delta.length();
         if length > 0.0 {
@@ -19,7 +19,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
 
 impl SdfRel2d<Ball> for Ball {
     fn sdf_rel(&self, b: &Ball, rel: &impl Transformation2d) -> f32 {
-        let radius = self.radius + b.radius;
+        let radius = self.radius + b.radius * rel.scaling_factor();
         let delta = rel.apply_origin();
         delta.length() - radius
     }
diff --git a/src/col2d/shape/box2d/v_ball.rs b/src/col2d/shape/box2d/v_ball.rs
index 45e238d..5a6b8a5 100644
--- a/src/col2d/shape/box2d/v_ball.rs
+++ b/src/col2d/shape/box2d/v_ball.rs
@@ -6,7 +6,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
     SdfvCommonRel2d<COMPUTE_PENETRATION, COMPUTE_DISTANCE, Ball, T> for Box2d
 {
     fn sdfv_common_rel(&self, t: &Ball, rel: &T) -> (bool, Vec2) {
-        let rounded_box = RoundedBox2d::new(self.halfsize, t.radius);
+        let rounded_box = RoundedBox2d::new(self.halfsize, t.radius * rel.scaling_factor());
         SdfvCommonRel2d::<COMPUTE_PENETRATION, COMPUTE_DISTANCE, _, T>::sdfv_common_rel(
             &rounded_box,
             &Point,
@@ -17,6 +17,6 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
 
 impl SdfRel2d<Ball> for Box2d {
     fn sdf_rel(&self, b: &Ball, rel: &impl Transformation2d) -> f32 {
-        SdfRel2d::sdf_rel(self, &Point, rel) - b.radius
+        SdfRel2d::sdf_rel(self, &Point, rel) - b.radius * rel.scaling_factor()
     }
 }
diff --git a/src/col2d/shape/point2d.rs b/src/col2d/shape/point2d.rs
index bb944d7..6236efa 100644
--- a/src/col2d/shape/point2d.rs
+++ b/src/col2d/shape/point2d.rs
@@ -45,7 +45,7 @@ macro_rules! impl_reverse_sdfv_common_rel {
                 let (collides, sdfv) =
                     SdfvCommonRel2d::<P, D, $a, T>::sdfv_common_rel(b, self, &inv_rel);
                 let negated_sdfv = -sdfv;
-                let transformed_sdfv = rel.apply_normal(negated_sdfv);
+                let transformed_sdfv = rel.scaling_factor() * rel.apply_normal(negated_sdfv);
                 (collides, transformed_sdfv)
             }
         }
-- 
2.43.0


From aa22c04569909f9d1d031ae71209819cc1c87c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 09/24] fix: Approx accepted NaN vectors as equal to the zero
 vector

---
 src/utils/approx.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/utils/approx.rs b/src/utils/approx.rs
index f35f834..dd874fb 100644
--- a/src/utils/approx.rs
+++ b/src/utils/approx.rs
@@ -37,15 +37,15 @@ impl Approx for f32 {
 
 impl Approx for Vec2 {
     fn approx_eq_tolerance(&self, other: &Self, tolerance: f32) -> bool {
-        let magn_sq = self.length_squared().max(other.length_squared());
-        if magn_sq == 0.0 {
-            return true;
-        }
-
         let error = *self - *other;
         if error.x.is_nan() || error.y.is_nan() {
             return false;
         }
+
+        let magn_sq = self.length_squared().max(other.length_squared());
+        if magn_sq == 0.0 {
+            return true;
+        }
         if error.x.is_infinite() || error.y.is_infinite() {
             // @note(lubo): we can be more lenient here when the need arises
             return self == other;
@@ -73,15 +73,15 @@ impl Approx for Vec2 {
 
 impl Approx for Vec3 {
     fn approx_eq_tolerance(&self, other: &Self, tolerance: f32) -> bool {
-        let magn_sq = self.length_squared().max(other.length_squared());
-        if magn_sq == 0.0 {
-            return true;
-        }
-
         let error = *self - *other;
         if error.x.is_nan() || error.y.is_nan() || error.z.is_nan() {
             return false;
         }
+
+        let magn_sq = self.length_squared().max(other.length_squared());
+        if magn_sq == 0.0 {
+            return true;
+        }
         if error.x.is_infinite() || error.y.is_infinite() || error.z.is_infinite() {
             // @note(lubo): we can be more lenient here when the need arises
             return self == other;
-- 
2.43.0


From d099aa83242d81e4e10ae45880a8a6e016e8430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 10/24] fix: Tilemap::remove_tile reported removal of absent
 chunks and did not report changed chunks

---
 src/col2d/shape/tilemap.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/col2d/shape/tilemap.rs b/src/col2d/shape/tilemap.rs
index 12e5cd4..eca3ca3 100644
--- a/src/col2d/shape/tilemap.rs
+++ b/src/col2d/shape/tilemap.rs
@@ -108,11 +108,16 @@ impl Tilemap {
 
     pub fn remove_tile(&mut self, pos: V2i32) {
         let (chunk_pos, local) = pos.modular_decompose(CHUNK_SIZE);
-        let chunk = self.chunks.entry(chunk_pos).or_default();
+        let Some(chunk) = self.chunks.get_mut(&chunk_pos) else {
+            return;
+        };
+        let changed = chunk.array2d.get(local).is_some_and(|x| x != &0);
         chunk.array2d.set(local, 0);
         if chunk.array2d.data.iter().all(|x| x == &0) {
             self.events.notify(TilemapEvent::ChunkRemoved(chunk_pos));
             self.chunks.remove(&chunk_pos);
+        } else if changed {
+            self.events.notify(TilemapEvent::ChunkChanged(chunk_pos));
         }
     }
 
-- 
2.43.0


From de6c55b167cbe506c5e35941a907ace556e03add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 11/24] fix: Rect2i32::pad moved the rectangle instead of
 padding it

---
 src/utils/rect2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/rect2.rs b/src/utils/rect2.rs
index 9037e88..77455f5 100644
--- a/src/utils/rect2.rs
+++ b/src/utils/rect2.rs
@@ -14,7 +14,7 @@ impl Rect2i32 {
     pub fn pad(self, padding: V2i32) -> Self {
         Self {
             min: self.min - padding,
-            max: self.max - padding,
+            max: self.max + padding,
         }
     }
 
-- 
2.43.0


From 5d088c13678e3ba08bcafc133c96c329c548f046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 12/24] fix: 3d feature did not compile because two Box3d impls
 missed the minkowski cfg

---
 src/col3d/shape/box3d.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/col3d/shape/box3d.rs b/src/col3d/shape/box3d.rs
index 5c6ed54..8c6f221 100644
--- a/src/col3d/shape/box3d.rs
+++ b/src/col3d/shape/box3d.rs
@@ -50,8 +50,10 @@ impl ExtremePoint3d for Box3d {
     }
 }
 
+#[cfg(minkowski)]
 impl MinkowskiNegationIsIdentity for Box3d {}
 
+#[cfg(minkowski)]
 impl MinkowskiSum<Box3d> for Box3d {
     type Output = Self;
 
-- 
2.43.0


From 2d1c60ab6eef141e158e5aaef692b1f517499e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 13/24] fix: Box3d::cover ignored the z coordinate

---
 src/col3d/shape/box3d.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/col3d/shape/box3d.rs b/src/col3d/shape/box3d.rs
index 8c6f221..f0469a4 100644
--- a/src/col3d/shape/box3d.rs
+++ b/src/col3d/shape/box3d.rs
@@ -17,8 +17,10 @@ impl Box3d {
     pub fn cover(&mut self, point: &Vec3) {
         let x = point.x.abs();
         let y = point.y.abs();
+        let z = point.z.abs();
         self.halfsize.x = self.halfsize.x.max(x);
         self.halfsize.y = self.halfsize.y.max(y);
+        self.halfsize.z = self.halfsize.z.max(z);
     }
 }
 
-- 
2.43.0


From 06e0d61957b6fb996c2e0d644ba1dbd338dbe2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 14/24] fix: Box3d v Point signed distance was too large for
 points facing a z side

---
 src/col3d/shape/box3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/col3d/shape/box3d.rs b/src/col3d/shape/box3d.rs
index f0469a4..fac0048 100644
--- a/src/col3d/shape/box3d.rs
+++ b/src/col3d/shape/box3d.rs
@@ -129,7 +129,7 @@ impl SdfRel3d<Point> for Box3d {
                 }
             } else {
                 if delta_x < 0.0 {
-                    Vec2::new(delta_z, delta_y).length()
+                    Vec2::new(delta_z, delta_y.max(0.0)).length()
                 } else if delta_y < 0.0 {
                     Vec2::new(delta_z, delta_x).length()
                 } else {
-- 
2.43.0


From 903a29c6558ed5d13d8d2f9a00d6aa743d964b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 15/24] fix: 3D queries of a Point against other shapes ignored
 rotation and scale

---
 src/col3d/default_impls.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/col3d/default_impls.rs b/src/col3d/default_impls.rs
index 234d8cb..753a665 100644
--- a/src/col3d/default_impls.rs
+++ b/src/col3d/default_impls.rs
@@ -10,7 +10,7 @@ where
     A: CollidesRel3d<Point>,
 {
     fn collides_rel(&self, other: &A, rel: &impl Transformation3d) -> bool {
-        other.collides_rel(&Point, rel)
+        other.collides_rel(&Point, &rel.unapply_origin())
     }
 }
 
@@ -32,7 +32,9 @@ where
     A: PenetratesRel3d<Point>,
 {
     fn penetrates_rel(&self, other: &A, rel: &impl Transformation3d) -> Option<Vec3> {
-        other.penetrates_rel(&Point, rel) // .map(|v| -v)
+        other
+            .penetrates_rel(&Point, &rel.unapply_origin())
+            .map(|v| rel.apply_origin() - rel.apply(v))
     }
 }
 
@@ -66,7 +68,8 @@ where
     A: SdfRel3d<Point>,
 {
     fn sdf_rel(&self, t: &A, rel: &impl Transformation3d) -> f32 {
-        t.sdf_rel(&Point, rel)
+        let scale = (rel.apply(Vec3::X) - rel.apply_origin()).length();
+        scale * t.sdf_rel(&Point, &rel.unapply_origin())
     }
 }
 
@@ -88,6 +91,7 @@ where
     A: SdfvRel3d<Point>,
 {
     fn sdfv_rel(&self, t: &A, rel: &impl Transformation3d) -> Vec3 {
-        t.sdfv_rel(&Point, rel)
+        let v = t.sdfv_rel(&Point, &rel.unapply_origin());
+        rel.apply_origin() - rel.apply(v)
     }
 }
-- 
2.43.0


From 836b13142a08538decf3a013aef7e8d71f667192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 16/24] fix: 3d and bevy features did not compile together

---
 src/col3d/transformation3d/mod.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/col3d/transformation3d/mod.rs b/src/col3d/transformation3d/mod.rs
index 24e4187..6146467 100644
--- a/src/col3d/transformation3d/mod.rs
+++ b/src/col3d/transformation3d/mod.rs
@@ -9,9 +9,3 @@ pub use axis_transform3d::*;
 pub use isotropic3d::*;
 pub use transform3d::*;
 pub use translate3d::*;
-
-#[cfg(feature = "bevy")]
-mod bevy_transform;
-#[cfg(feature = "bevy")]
-pub use bevy_transform::*;
-
-- 
2.43.0


From ef35b9a41e24b35f61badc6d23acb213f85b3228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 17/24] fix: Penetrates3d returned vectors in the local space
 of the first collider

---
 src/col3d/detection/penetrates.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/col3d/detection/penetrates.rs b/src/col3d/detection/penetrates.rs
index 8e22c8c..8a0cbc7 100644
--- a/src/col3d/detection/penetrates.rs
+++ b/src/col3d/detection/penetrates.rs
@@ -62,5 +62,6 @@ where
     fn penetrates(&self, transform: &T, t: &B, t_transform: &T) -> Option<Vec3> {
         let rel = transform.delta_transform(t_transform);
         self.penetrates_rel(t, &rel)
+            .map(|v| transform.apply(v) - transform.apply_origin())
     }
 }
-- 
2.43.0


From bb4675d4dce54f406606afed29ee2dd2bb7c5b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 18/24] fix: GJK reported overlap of separated small shapes and
 stopped early on them

---
 src/col2d/shape/local_minkowski_diff/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index ca77e3e..9af269f 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -170,8 +170,15 @@ impl Simplex2d {
                 let ab = b - a;
                 let ao = -a;
                 if ab.dot(ao) >= 0.0 {
-                    let ab_perp = ab.cross_aba(ao);
-                    (false, ab_perp)
+                    // Must not depend on the size of the shapes, otherwise the direction vanishes for
+                    // small ones.
+                    let cross = ab.cross(ao);
+                    let direction = if cross == 0.0 {
+                        Vec2::ZERO
+                    } else {
+                        cross.signum() * ab.perp()
+                    };
+                    (false, direction)
                 } else {
                     self.0.points = vec![a];
                     (false, ao)
@@ -311,7 +318,6 @@ impl Crossf32 for f32 {
 trait Cross2d {
     fn cross(self, other: Self) -> f32;
     fn cross_f32(self, other: f32) -> Self;
-    fn cross_aba(self, other: Self) -> Self;
     fn perp_right(self) -> Self;
 }
 
@@ -324,11 +330,6 @@ impl Cross2d for Vec2 {
         Vec2::new(self.y * other, -self.x * other)
     }
 
-    fn cross_aba(self, other: Self) -> Self {
-        let cross = self.cross(other);
-        Vec2::new(-self.y * cross, self.x * cross)
-    }
-
     fn perp_right(self) -> Self {
         Vec2::new(self.y, -self.x)
     }
-- 
2.43.0


From dce546fa0287e5b0bb4e7228680943a05bc11411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:24 +0000
Subject: [PATCH 19/24] fix: 3D signed distance of a Point to other shapes was
 inaccurate far from the origin

---
 src/col3d/default_impls.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/col3d/default_impls.rs b/src/col3d/default_impls.rs
index 753a665..26c4c6d 100644
--- a/src/col3d/default_impls.rs
+++ b/src/col3d/default_impls.rs
@@ -68,8 +68,9 @@ where
     A: SdfRel3d<Point>,
 {
     fn sdf_rel(&self, t: &A, rel: &impl Transformation3d) -> f32 {
-        let scale = (rel.apply(Vec3::X) - rel.apply_origin()).length();
-        scale * t.sdf_rel(&Point, &rel.unapply_origin())
+        let sdf = t.sdf_rel(&Point, &rel.unapply_origin());
+        let length = (rel.apply(sdf * Vec3::X) - rel.apply_origin()).length();
+        length.copysign(sdf)
     }
 }
 
-- 
2.43.0


From 473350f61ce58907e926a9c59b42ff4afc518282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:10 +0000
Subject: [PATCH 20/24] fix: GJK reported overlap of shapes less than 1.2e-7
 apart, whatever their size

---
 src/col2d/shape/local_minkowski_diff/v.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index 3642131..3c59cb5 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -264,5 +264,6 @@ where
 }
 
 fn direction_is_too_small(direction: Vec2) -> bool {
-    direction.length_squared() < f32::EPSILON * f32::EPSILON
+    // Must not depend on the size of the shapes.
+    direction.length_squared() < f32::MIN_POSITIVE
 }
-- 
2.43.0


From 08fee2b6953f4ecc3db9e9eef33f492e22953878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:10 +0000
Subject: [PATCH 21/24] fix: GJK decided wrongly for shapes smaller than 1e-8
 or larger than 1e9

---
 src/col2d/shape/local_minkowski_diff/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index 9af269f..de9bc55 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -200,8 +200,10 @@ impl Simplex2d {
                 trace!("ao: {}", ao);
 
                 let abc = ab.cross(ac);
-                let ac_perp = abc.cross(ac);
-                let ab_perp = ab.cross_f32(abc);
+                // Only the sign of `abc` matters, its size would underflow for small shapes.
+                let winding = if abc == 0.0 { 0.0 } else { abc.signum() };
+                let ac_perp = winding.cross(ac);
+                let ab_perp = ab.cross_f32(winding);
 
                 trace!("abc: {}", abc);
                 trace!("ab_perp: {}", ab_perp);
-- 
2.43.0


From 5d5911b9d9a1f3148698e44ffd3dda641f44d612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 22/24] fix: 3D Ball returned non-minimal penetration of points
 within 1.2e-7 of its centre, whatever its size

---
 src/col3d/shape/ball3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/col3d/shape/ball3d.rs b/src/col3d/shape/ball3d.rs
index 46f4881..4b14326 100644
--- a/src/col3d/shape/ball3d.rs
+++ b/src/col3d/shape/ball3d.rs
@@ -31,7 +31,7 @@ impl PenetratesRel3d<Point> for Ball {
         if self.collides_rel(t, rel) {
             let delta = rel.apply_origin();
             let distance_to_center = delta.length();
-            if distance_to_center < f32::EPSILON {
+            if distance_to_center == 0.0 {
                 Some(Vec3::new(self.radius, 0.0, 0.0))
             } else {
                 let old_magn = distance_to_center;
-- 
2.43.0


From 3ea728c9a1fd7290f3e05ddfc1c8136daae67b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:41 +0000
Subject: [PATCH 23/24] fix: default placements are the identity

---
 src/col2d/transformation2d/axis_transform2d.rs | 10 +++++++++-
 src/col3d/transformation3d/axis_transform3d.rs | 10 +++++++++-
 src/col3d/transformation3d/isotropic3d.rs      | 12 +++++++++++-
 src/col3d/transformation3d/transform3d.rs      | 12 +++++++++++-
 4 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/col2d/transformation2d/axis_transform2d.rs b/src/col2d/transformation2d/axis_transform2d.rs
index 2012b0f..1d55d93 100644
--- a/src/col2d/transformation2d/axis_transform2d.rs
+++ b/src/col2d/transformation2d/axis_transform2d.rs
@@ -1,11 +1,19 @@
 use super::*;
 
-#[derive(Default)]
 pub struct AxisTransform2d {
     pos: Vec2,
     scale: f32,
 }
 
+impl Default for AxisTransform2d {
+    fn default() -> Self {
+        Self {
+            pos: Vec2::ZERO,
+            scale: 1.0,
+        }
+    }
+}
+
 impl AxisTransform2d {
     pub const fn new(pos: Vec2, scale: f32) -> Self {
         Self { pos, scale }
diff --git a/src/col3d/transformation3d/axis_transform3d.rs b/src/col3d/transformation3d/axis_transform3d.rs
index 48db74f..c89719e 100644
--- a/src/col3d/transformation3d/axis_transform3d.rs
+++ b/src/col3d/transformation3d/axis_transform3d.rs
@@ -1,11 +1,19 @@
 use super::*;
 
-#[derive(Default)]
 pub struct AxisTransform3d {
     pos: Vec3,
     scale: f32,
 }
 
+impl Default for AxisTransform3d {
+    fn default() -> Self {
+        Self {
+            pos: Vec3::ZERO,
+            scale: 1.0,
+        }
+    }
+}
+
 impl AxisTransform3d {
     pub const fn new(pos: Vec3, scale: f32) -> Self {
         Self { pos, scale }
diff --git a/src/col3d/transformation3d/isotropic3d.rs b/src/col3d/transformation3d/isotropic3d.rs
index be6bc65..acd876a 100644
--- a/src/col3d/transformation3d/isotropic3d.rs
+++ b/src/col3d/transformation3d/isotropic3d.rs
@@ -1,6 +1,6 @@
 use super::*;
 
-#[derive(Default, Debug, Clone, PartialEq)]
+#[derive(Debug, Clone, PartialEq)]
 /// Apply translation, rotation, and scale in this order:
 /// 1. Scale
 /// 2. Rotate
@@ -11,6 +11,16 @@ pub struct Isotropic3d {
     scale: f32,
 }
 
+impl Default for Isotropic3d {
+    fn default() -> Self {
+        Self {
+            pos: Vec3::ZERO,
+            rot: Quat::IDENTITY,
+            scale: 1.0,
+        }
+    }
+}
+
 // trait Approx {
 //     fn approx_eq(&self, other: &Self) -> bool;
 // }
diff --git a/src/col3d/transformation3d/transform3d.rs b/src/col3d/transformation3d/transform3d.rs
index c07e27b..1765871 100644
--- a/src/col3d/transformation3d/transform3d.rs
+++ b/src/col3d/transformation3d/transform3d.rs
@@ -1,6 +1,6 @@
 use super::*;
 
-#[derive(Default, Debug, Clone, PartialEq)]
+#[derive(Debug, Clone, PartialEq)]
 /// Standard 3D transform.
 ///
 /// Applies translation, rotation, and scale in this order:
@@ -15,6 +15,16 @@ pub struct Transform3d {
     scale: Vec3,
 }
 
+impl Default for Transform3d {
+    fn default() -> Self {
+        Self {
+            pos: Vec3::ZERO,
+            rot: Quat::IDENTITY,
+            scale: Vec3::ONE,
+        }
+    }
+}
+
 #[cfg(feature = "bevy")]
 impl From<bevy::prelude::Transform> for Transform3d {
     fn from(transform: bevy::prelude::Transform) -> Self {
-- 
2.43.0


From 9de92c40987ab32017eb4148e6e88020a49db1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:07 +0000
Subject: [PATCH 24/24] fix: compare very large and very small vectors
 approximately

---
 src/utils/approx.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/utils/approx.rs b/src/utils/approx.rs
index dd874fb..893e478 100644
--- a/src/utils/approx.rs
+++ b/src/utils/approx.rs
@@ -42,8 +42,8 @@ impl Approx for Vec2 {
             return false;
         }
 
-        let magn_sq = self.length_squared().max(other.length_squared());
-        if magn_sq == 0.0 {
+        let scale = self.abs().max_element().max(other.abs().max_element());
+        if scale == 0.0 {
             return true;
         }
         if error.x.is_infinite() || error.y.is_infinite() {
@@ -51,6 +51,12 @@ impl Approx for Vec2 {
             return self == other;
         }
 
+        // Squares of very large or very small vectors would overflow or underflow.
+        let error = error / scale;
+        let magn_sq = (*self / scale)
+            .length_squared()
+            .max((*other / scale).length_squared());
+
         let error_sq = error.length_squared();
         let relative_error_sq = error_sq / magn_sq;
 
@@ -78,8 +84,8 @@ impl Approx for Vec3 {
             return false;
         }
 
-        let magn_sq = self.length_squared().max(other.length_squared());
-        if magn_sq == 0.0 {
+        let scale = self.abs().max_element().max(other.abs().max_element());
+        if scale == 0.0 {
             return true;
         }
         if error.x.is_infinite() || error.y.is_infinite() || error.z.is_infinite() {
@@ -87,6 +93,12 @@ impl Approx for Vec3 {
             return self == other;
         }
 
+        // Squares of very large or very small vectors would overflow or underflow.
+        let error = error / scale;
+        let magn_sq = (*self / scale)
+            .length_squared()
+            .max((*other / scale).length_squared());
+
         let error_sq = error.length_squared();
         let relative_error_sq = error_sq / magn_sq;
 
-- 
2.43.0

