From 11308bdd01d6861eae3d8516ca91d8b43d1f74b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 01/54] fix: inserting vertices into an edge corrupted the
 links at its origin

insert_vertices_into_edge used the twin of the previous edge as the outgoing
edge, which is only right when the origin has degree two, and it returned an
edge that doesn't start in the previous origin.
---
 src/halfedge/mesh/builder/builder.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/halfedge/mesh/builder/builder.rs b/src/halfedge/mesh/builder/builder.rs
index 4f10605..dac7dc9 100644
--- a/src/halfedge/mesh/builder/builder.rs
+++ b/src/halfedge/mesh/builder/builder.rs
@@ -124,21 +124,26 @@ impl<T: HalfEdgeImplMeshType> MeshBuilder<T> for HalfEdgeMeshImpl<T> {
         let twin_id = self.edge(e).twin_id();
         let mut current = self.edge(e).prev_id();
         let mut current_twin = self.edge(twin_id).next_id();
+        // the origin has no other edges, i.e., the edge wheel must turn around at the origin
+        let dangling = current == twin_id;
         let f1 = self.edge(e).face_id();
         let f2 = self.edge(twin_id).face_id();
         let mut last_v = self.edge(e).origin_id();
-        let mut first = true;
+        let mut first = e;
         for (ep1, ep2, vp) in ps {
-            let (v, e1, e2) =
-                self.add_vertex_via_edge(current, self.edge(current).twin_id(), vp, ep1, ep2);
+            let (v, e1, e2) = self.add_vertex_via_edge(current, current_twin, vp, ep1, ep2);
             current = e1;
             current_twin = e2;
             last_v = v;
             self.edge_mut(current).set_face(f1);
             self.edge_mut(current_twin).set_face(f2);
-            if first {
+            if first == e {
+                first = e1;
                 self.vertex_mut(self.edge(e).origin_id()).set_edge(e1);
-                first = false;
+                if dangling {
+                    self.edge_mut(e1).set_prev(e2);
+                    self.edge_mut(e2).set_next(e1);
+                }
             }
         }
 
@@ -148,7 +153,7 @@ impl<T: HalfEdgeImplMeshType> MeshBuilder<T> for HalfEdgeMeshImpl<T> {
         self.edge_mut(twin_id).set_next(current_twin);
         self.edge_mut(e).set_origin(last_v);
 
-        return e;
+        return first;
     }
 
     fn add_vertex(&mut self, vp: T::VP) -> T::V {
-- 
2.43.0


From f388dd6ed2855a0b61c14af83230784815a961e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 02/54] fix: flatten_curved_edges left curves flatter than the
 tolerance curved

---
 src/mesh/mesh/basics.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index 346eb3c..64bfb1e 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -176,9 +176,6 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
             let edge = self.edge(*e);
             if edge.curve_type() != CurvedEdgeType::Linear {
                 let vs = edge.flatten_casteljau(tol, self);
-                if vs.len() == 0 {
-                    continue;
-                }
                 self.insert_vertices_into_edge(
                     *e,
                     vs.iter()
-- 
2.43.0


From fab1d69cb9da4aa57f8f370d5279e5de253305cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 03/54] fix: extrude_boundary missed boundaries away from the
 faces' representative edges

Only the edge each face happens to store was looked at, so most boundaries
were silently left alone.
---
 src/operations/extrude.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/operations/extrude.rs b/src/operations/extrude.rs
index 43fc8a4..16be7a7 100644
--- a/src/operations/extrude.rs
+++ b/src/operations/extrude.rs
@@ -24,10 +24,11 @@ where
         T::VP: Transformable<D, Trans = T::Trans, S = T::S>,
         T: EuclideanMeshType<D, Mesh = Self>,
     {
-        let faces = self.face_ids().collect_vec();
-        for f in faces {
-            let e = self.face(f).edge(self).twin_id();
-            if self.edge(e).is_boundary_self() {
+        let edges = self.edge_ids().collect_vec();
+        for e in edges {
+            // skip edges that don't have a face on the other side or were already closed by a previous extrusion
+            let edge = self.edge(e);
+            if edge.is_boundary_self() && edge.other_face(self).is_some() {
                 self.extrude(e, transform);
             }
         }
-- 
2.43.0


From 505a63e0ca40bb39964b77e9d8229e6a20046963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 04/54] fix: insert_dihedron panicked instead of closing the
 outer boundary

---
 src/halfedge/primitives/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halfedge/primitives/mod.rs b/src/halfedge/primitives/mod.rs
index 016fc86..fb256fd 100644
--- a/src/halfedge/primitives/mod.rs
+++ b/src/halfedge/primitives/mod.rs
@@ -22,7 +22,7 @@ where
 
     fn insert_dihedron(&mut self, vp: impl IntoIterator<Item = T::VP>) -> T::E {
         let first = self.insert_polygon(vp);
-        self.close_hole(self.edge(first).twin_id(), Default::default(), false);
+        self.close_hole(first, Default::default(), false);
         first
     }
 }
-- 
2.43.0


From 02d69f2f28b8777e7adae983d916407bc2fb8c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 05/54] fix: dodecahedron panicked and didn't have the
 requested radius

The lofts assume the winding that insert_polygon used to have.
---
 src/primitives/sphere.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/primitives/sphere.rs b/src/primitives/sphere.rs
index ec2016a..6be20ce 100644
--- a/src/primitives/sphere.rs
+++ b/src/primitives/sphere.rs
@@ -68,26 +68,26 @@ where
         mesh
     }
 
-    /// Create a dodecahedron with a given `radius`.
+    /// Create a dodecahedron with a given circumscribed `radius`.
     fn dodecahedron(radius: T::S) -> Self {
         // https://en.wikipedia.org/wiki/Regular_dodecahedron#/media/File:Dodecahedron_vertices.svg
 
-        let phi = radius * T::S::PHI;
-        let iphi = radius / T::S::PHI;
-        let one = radius;
+        let one = radius / T::S::THREE.sqrt();
+        let phi = one * T::S::PHI;
+        let iphi = one / T::S::PHI;
         let zero = T::S::ZERO;
         let make_vp = |x, y, z| T::VP::from_pos(T::Vec::from_xyz(x, y, z));
 
         let mut mesh: Self = Make2dShape::polygon([
             make_vp(one, one, one),    // orange
-            make_vp(zero, phi, iphi),  // green
-            make_vp(-one, one, one),   // orange
-            make_vp(-iphi, zero, phi), // blue
             make_vp(iphi, zero, phi),  // blue
+            make_vp(-iphi, zero, phi), // blue
+            make_vp(-one, one, one),   // orange
+            make_vp(zero, phi, iphi),  // green
         ]);
 
         // TODO: polygon should return something more helpful
-        let start = mesh.shared_edge_id(T::V::new(1), T::V::new(0)).unwrap();
+        let start = mesh.shared_edge_id(T::V::new(4), T::V::new(0)).unwrap();
         let start_middle = mesh.loft_polygon_back(
             start,
             3,
-- 
2.43.0


From 06f4f6c8fbafecaa420016f064d5463e059f35ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 06/54] fix: flipping an edge with a dangling end point
 corrupted its links

---
 src/halfedge/edge/halfedge.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/halfedge/edge/halfedge.rs b/src/halfedge/edge/halfedge.rs
index 18921e4..2d2532b 100644
--- a/src/halfedge/edge/halfedge.rs
+++ b/src/halfedge/edge/halfedge.rs
@@ -135,14 +135,26 @@ impl<T: HalfEdgeImplMeshType> HalfEdge<T> for HalfEdgeImpl<T> {
         let target_id = mesh.edge(e).target_id(mesh);
 
         let edge = mesh.edge(e);
-        let next_id = edge.next;
-        let prev_id = edge.prev;
         let face_id = edge.face_id();
         let twin_id = edge.twin_id();
 
+        // If an end point has no other edges, the edge and its twin are
+        // neighbors along the chain and also have to be swapped there.
+        let swap = |id: T::E| {
+            if id == e {
+                twin_id
+            } else if id == twin_id {
+                e
+            } else {
+                id
+            }
+        };
+        let next_id = swap(edge.next);
+        let prev_id = swap(edge.prev);
+
         let twin = mesh.edge(twin_id);
-        let t_next_id = twin.next;
-        let t_prev_id = twin.prev;
+        let t_next_id = swap(twin.next);
+        let t_prev_id = swap(twin.prev);
         let t_face_id = twin.face_id();
 
         let edge = mesh.edge_mut(e);
-- 
2.43.0


From 32e480ae0f514a257c18ea66443349ebbfef8241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 07/54] fix: insert_antiprism always panicked since it used the
 edge outside the face

---
 src/primitives/prismatoid.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/primitives/prismatoid.rs b/src/primitives/prismatoid.rs
index 7dfb468..a272490 100644
--- a/src/primitives/prismatoid.rs
+++ b/src/primitives/prismatoid.rs
@@ -74,15 +74,10 @@ where
     /// of the top polygon will be slightly smaller!
     fn insert_antiprism(&mut self, vp: impl IntoIterator<Item = T::VP>, height: T::S) -> T::E {
         let first = self.insert_polygon(vp);
-        let f = self
-            .edge(first)
-            .face(self)
-            .expect("The polygon must have a face");
-        let normal = f.normal(self).normalize();
-        let e = self.extrude_tri2(
-            self.edge(first).twin_id(),
-            T::Trans::from_translation(-normal * height),
-        );
+        let twin = self.edge(first).twin(self);
+        let f = twin.face(self).expect("The polygon must have a face");
+        let normal = Face3d::normal(f, self).normalize();
+        let e = self.extrude_tri2(first, T::Trans::from_translation(-normal * height));
         e
     }
 
-- 
2.43.0


From 6df02ebfec9ac5ffa717f2a1166085911ce87899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 08/54] fix: the side edges of uniform_antiprism were too long

---
 src/primitives/prismatoid.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/primitives/prismatoid.rs b/src/primitives/prismatoid.rs
index a272490..744c72c 100644
--- a/src/primitives/prismatoid.rs
+++ b/src/primitives/prismatoid.rs
@@ -268,11 +268,9 @@ where
 
     /// Creates a uniform antiprism with given radius `r` and `n` sides.
     fn uniform_antiprism(r: T::S, n: usize) -> Self {
-        // TODO: isn't this the edge length?
-        Self::regular_antiprism(
-            r,
-            regular_polygon_sidelength(r, n) * T::S::THREE.sqrt() * T::S::HALF,
-            n,
-        )
+        // the side edges must have the same length as the edges of the two polygons
+        let l = regular_polygon_sidelength(r, n);
+        let shift = regular_polygon_sidelength(r, 2 * n);
+        Self::regular_antiprism(r, (l * l - shift * shift).sqrt(), n)
     }
 }
-- 
2.43.0


From cd4bc0367991822350d9d8f3c06051c30449f318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 09/54] fix: cylinder always panicked since smooth frustums are
 not implemented

---
 src/primitives/prismatoid.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primitives/prismatoid.rs b/src/primitives/prismatoid.rs
index 744c72c..faad59d 100644
--- a/src/primitives/prismatoid.rs
+++ b/src/primitives/prismatoid.rs
@@ -245,7 +245,8 @@ where
 
     /// Creates a regular cylinder
     fn cylinder(radius: T::S, height: T::S, n: usize) -> T::Mesh {
-        Self::regular_frustum(radius, radius, height, n, true)
+        Self::regular_frustum(radius, radius, height, n, false)
+        // TODO: make it smooth
     }
 
     /// Creates a regular prism with given radius `r`, height `h`, and `n` sides.
-- 
2.43.0


From e235fa495d527ac2d78306389ed8b2da958d941e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 10/54] fix: the corners of geodesic_tetrahedron were not on
 the sphere

---
 src/primitives/sphere.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/primitives/sphere.rs b/src/primitives/sphere.rs
index 6be20ce..baf1404 100644
--- a/src/primitives/sphere.rs
+++ b/src/primitives/sphere.rs
@@ -199,7 +199,9 @@ where
     where
         T::Mesh: HalfEdgeSemiBuilder<T>,
     {
-        let mut mesh = Self::regular_tetrahedron(radius);
+        // the edge length of a tetrahedron with the given circumscribed radius
+        let l = radius * T::S::TWO * (T::S::TWO / T::S::THREE).sqrt();
+        let mut mesh = Self::regular_tetrahedron(l);
         debug_assert!(mesh.centroid().is_about(&T::Vec::zero(), T::S::EPS));
         mesh.subdivision_frequency(
             SubdivisionDescription::new(n, 0),
-- 
2.43.0


From 471275bbe988ca6b7613f78442fa192695eb583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 11/54] fix: from_rotation_arc panicked or returned NaN for
 (almost) parallel vectors

---
 src/extensions/nalgebra/math/rotate.rs | 45 ++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/extensions/nalgebra/math/rotate.rs b/src/extensions/nalgebra/math/rotate.rs
index f3ecdbd..b38e8c8 100644
--- a/src/extensions/nalgebra/math/rotate.rs
+++ b/src/extensions/nalgebra/math/rotate.rs
@@ -100,13 +100,10 @@ impl<S: Scalar, const D: usize> NdRotate<S, D> {
         } else if D == 3 {
             Self {
                 rot2: None,
-                rot3: Some(
-                    nalgebra::Rotation3::rotation_between(
-                        &from.fixed_rows::<3>(0).into_owned(),
-                        &to.fixed_rows::<3>(0).into_owned(),
-                    )
-                    .expect("Failed to create rotation"),
-                ),
+                rot3: Some(rotation_arc_3d(
+                    from.fixed_rows::<3>(0).into_owned(),
+                    to.fixed_rows::<3>(0).into_owned(),
+                )),
                 rot: None,
             }
         } else {
@@ -115,6 +112,40 @@ impl<S: Scalar, const D: usize> NdRotate<S, D> {
     }
 }
 
+/// A rotation that makes `from` point in the direction of `to`. Also works for (almost)
+/// parallel vectors, including those pointing in opposite directions.
+fn rotation_arc_3d<S: ScalarPlus>(
+    from: nalgebra::Vector3<S>,
+    to: nalgebra::Vector3<S>,
+) -> nalgebra::Rotation3<S> {
+    use nalgebra::{Rotation3, Unit, Vector3};
+
+    let (Some(from), Some(to)) = (from.try_normalize(S::ZERO), to.try_normalize(S::ZERO)) else {
+        return Rotation3::identity();
+    };
+
+    let arc = |a: Vector3<S>, b: Vector3<S>| -> Rotation3<S> {
+        let c = a.cross(&b);
+        // not using acos since the dot product might be slightly larger than one
+        let angle = Scalar::atan2(&c.norm(), a.dot(&b));
+        match Unit::try_new(c, S::ZERO) {
+            Some(axis) => Rotation3::from_axis_angle(&axis, angle),
+            None => Rotation3::identity(),
+        }
+    };
+
+    if from.dot(&to) < S::from(-0.999999f32) {
+        // The axis is (almost) not unique. Make a half turn around any axis
+        // perpendicular to `from` first.
+        let mut e = Vector3::<S>::zeros();
+        e[from.iamin()] = S::ONE;
+        let axis = Unit::new_normalize(from.cross(&e));
+        arc(-from, to) * Rotation3::from_axis_angle(&axis, S::PI)
+    } else {
+        arc(from, to)
+    }
+}
+
 impl<S: Scalar, const D: usize> Rotator<VecN<S, D>> for NdRotate<S, D> {}
 
 #[cfg(test)]
-- 
2.43.0


From c5f5291c694ca09cca7044313a00424e69d08a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 12/54] fix: NdAffine::with_scale scaled before instead of
 after the previous transformation

---
 src/extensions/nalgebra/math/transform_n.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions/nalgebra/math/transform_n.rs b/src/extensions/nalgebra/math/transform_n.rs
index a4c718c..4db28ee 100644
--- a/src/extensions/nalgebra/math/transform_n.rs
+++ b/src/extensions/nalgebra/math/transform_n.rs
@@ -91,7 +91,7 @@ impl<S: ScalarPlus, const D: usize> TransformTrait<S, D> for NdAffine<S, D> {
 
     fn with_scale(&self, v: Self::Vec) -> Self {
         Self {
-            matrix: self.matrix * SMatrix::<S, D, D>::from_diagonal(&v),
+            matrix: SMatrix::<S, D, D>::from_diagonal(&v) * self.matrix,
             translation: self.translation.component_mul(&v),
         }
     }
-- 
2.43.0


From bb614e69fb743202d8d1aad02659ee4b21d24061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 13/54] fix: bevy's chain applied the right transformation
 first

---
 src/extensions/bevy/math/mat5.rs | 2 +-
 src/extensions/bevy/math/vec2.rs | 2 +-
 src/extensions/bevy/math/vec3.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/extensions/bevy/math/mat5.rs b/src/extensions/bevy/math/mat5.rs
index 8ef8e97..56d04a3 100644
--- a/src/extensions/bevy/math/mat5.rs
+++ b/src/extensions/bevy/math/mat5.rs
@@ -177,6 +177,6 @@ impl TransformTrait<f32, 4> for Mat5<f32> {
 
     #[inline(always)]
     fn chain(&self, other: &Self) -> Self {
-        *self * *other
+        *other * *self
     }
 }
diff --git a/src/extensions/bevy/math/vec2.rs b/src/extensions/bevy/math/vec2.rs
index be4839e..1322558 100644
--- a/src/extensions/bevy/math/vec2.rs
+++ b/src/extensions/bevy/math/vec2.rs
@@ -160,7 +160,7 @@ impl TransformTrait<f32, 2> for Affine2 {
 
     #[inline(always)]
     fn chain(&self, other: &Self) -> Self {
-        *self * *other
+        *other * *self
     }
 }
 
diff --git a/src/extensions/bevy/math/vec3.rs b/src/extensions/bevy/math/vec3.rs
index 9886598..0ec72d8 100644
--- a/src/extensions/bevy/math/vec3.rs
+++ b/src/extensions/bevy/math/vec3.rs
@@ -180,7 +180,7 @@ impl TransformTrait<f32, 3> for TransformBevy {
 
     #[inline(always)]
     fn chain(&self, other: &Self) -> Self {
-        *self * *other
+        *other * *self
     }
 }
 
-- 
2.43.0


From a917e5f08f9e55b112ab076c8b833811e9016d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 14/54] fix: apply_vec of bevy's Transform applied the
 translation to vectors

---
 src/extensions/bevy/math/vec3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions/bevy/math/vec3.rs b/src/extensions/bevy/math/vec3.rs
index 0ec72d8..a1e1b79 100644
--- a/src/extensions/bevy/math/vec3.rs
+++ b/src/extensions/bevy/math/vec3.rs
@@ -175,7 +175,7 @@ impl TransformTrait<f32, 3> for TransformBevy {
 
     #[inline(always)]
     fn apply_vec(&self, v: Vec3) -> Vec3 {
-        self.apply(v)
+        self.rotation * (self.scale * v)
     }
 
     #[inline(always)]
-- 
2.43.0


From 3b214eded35e903dc1e36b243d300d42138b86f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 15/54] fix: bevy's with_scale and with_translation dropped the
 previous transformation

---
 src/extensions/bevy/math/mat5.rs | 9 +++++----
 src/extensions/bevy/math/vec3.rs | 8 ++++++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/extensions/bevy/math/mat5.rs b/src/extensions/bevy/math/mat5.rs
index 56d04a3..f328742 100644
--- a/src/extensions/bevy/math/mat5.rs
+++ b/src/extensions/bevy/math/mat5.rs
@@ -142,10 +142,11 @@ impl TransformTrait<f32, 4> for Mat5<f32> {
 
     fn with_scale(&self, v: Self::Vec) -> Self {
         let mut m = *self;
-        m.data[0] *= v.x;
-        m.data[6] *= v.y;
-        m.data[12] *= v.z;
-        m.data[18] *= v.w;
+        for i in 0..4 {
+            for j in 0..5 {
+                m.data[i * 5 + j] *= v[i];
+            }
+        }
         m
     }
 
diff --git a/src/extensions/bevy/math/vec3.rs b/src/extensions/bevy/math/vec3.rs
index a1e1b79..48fe5ad 100644
--- a/src/extensions/bevy/math/vec3.rs
+++ b/src/extensions/bevy/math/vec3.rs
@@ -153,12 +153,16 @@ impl TransformTrait<f32, 3> for TransformBevy {
 
     #[inline(always)]
     fn with_scale(&self, scale: Self::Vec) -> Self {
-        TransformBevy::with_scale(*self, scale)
+        TransformBevy {
+            translation: self.translation * scale,
+            rotation: self.rotation,
+            scale: self.scale * scale,
+        }
     }
 
     #[inline(always)]
     fn with_translation(&self, v: Self::Vec) -> Self {
-        TransformBevy::with_translation(*self, v)
+        TransformBevy::with_translation(*self, self.translation + v)
     }
 
     #[inline(always)]
-- 
2.43.0


From 5c576736d65ebcf9eaf9821e9a87140a883b7a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 16/54] fix: laplacian_euclidean used unweighted degrees for a
 weighted graph

---
 src/mesh/mesh/netsci.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mesh/mesh/netsci.rs b/src/mesh/mesh/netsci.rs
index 2921fd4..248c570 100644
--- a/src/mesh/mesh/netsci.rs
+++ b/src/mesh/mesh/netsci.rs
@@ -85,7 +85,16 @@ pub trait NetworkScience<T: MeshType<Mesh = Self>>: MeshBasics<T> {
     where
         T: EuclideanMeshType<D>,
     {
-        self.degree_matrix() - self.adjacency_matrix_euclidean::<D>()
+        let adj = self.adjacency_matrix_euclidean::<D>();
+
+        // use the weighted degrees, so that each row sums up to zero
+        let mut lap = -adj.clone();
+        for i in 0..adj.nrows() {
+            for j in 0..adj.ncols() {
+                lap[(i, i)] += adj[(i, j)];
+            }
+        }
+        lap
     }
 }
 
-- 
2.43.0


From e6b455325fbebe6ebb5b0376141b380135944d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 17/54] fix: importing a mesh dropped the curved flag of the
 faces

---
 src/halfedge/mesh/builder/halfedge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halfedge/mesh/builder/halfedge.rs b/src/halfedge/mesh/builder/halfedge.rs
index de52dcb..de0033d 100644
--- a/src/halfedge/mesh/builder/halfedge.rs
+++ b/src/halfedge/mesh/builder/halfedge.rs
@@ -370,7 +370,7 @@ impl<T: HalfEdgeImplMeshType> HalfEdgeMeshImpl<T> {
                 face_map[&face.id()],
                 HalfEdgeFaceImpl::new(
                     edge_map[&FaceBasics::edge_id(face)],
-                    false,
+                    face.may_be_curved(),
                     ff(face.payload()),
                 ),
             );
-- 
2.43.0


From 6a6aa4ad361e1ac1662535a2f7ea399e233110f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 18/54] fix: importing a mesh with isolated vertices panicked

---
 src/halfedge/mesh/builder/halfedge.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/halfedge/mesh/builder/halfedge.rs b/src/halfedge/mesh/builder/halfedge.rs
index de0033d..17424e9 100644
--- a/src/halfedge/mesh/builder/halfedge.rs
+++ b/src/halfedge/mesh/builder/halfedge.rs
@@ -350,6 +350,7 @@ impl<T: HalfEdgeImplMeshType> HalfEdgeMeshImpl<T> {
             face_map.insert(face.id(), f);
         }
         let mut edge_map = std::collections::HashMap::new();
+        edge_map.insert(IndexType::max(), IndexType::max());
         for edge in MeshBasics::edges(mesh) {
             let e = res.halfedges.allocate();
             edge_map.insert(edge.id(), e);
-- 
2.43.0


From d592e4774a837bfb7eb97dd207ee54bc3df30da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 19/54] fix: rotating BevyVertexPayload2d panicked

---
 src/extensions/bevy/vertex_payload_2d.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/extensions/bevy/vertex_payload_2d.rs b/src/extensions/bevy/vertex_payload_2d.rs
index 50f57fd..859b050 100644
--- a/src/extensions/bevy/vertex_payload_2d.rs
+++ b/src/extensions/bevy/vertex_payload_2d.rs
@@ -46,8 +46,9 @@ impl Transformable<2> for BevyVertexPayload2d {
     }
 
     #[inline(always)]
-    fn rotate(&mut self, _r: &Self::Rot) -> &mut Self {
-        todo!("rotate")
+    fn rotate(&mut self, r: &Self::Rot) -> &mut Self {
+        self.position = Vec2::from_angle(*r).rotate(self.position);
+        self
     }
 
     #[inline(always)]
-- 
2.43.0


From c19238054be903e53ea513d2cd0e4f812677cf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 20/54] fix: min_weight_quad tested the shorter diagonal 0-2
 with reversed orientation

---
 src/tesselate/fixed_n.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tesselate/fixed_n.rs b/src/tesselate/fixed_n.rs
index 92e9007..e3f0046 100644
--- a/src/tesselate/fixed_n.rs
+++ b/src/tesselate/fixed_n.rs
@@ -65,11 +65,9 @@ pub fn min_weight_quad<V: IndexType, Vec2: Vector2D, Poly: Polygon<Vec2>>(
     let weight_diagonal_0_2 = vs[0].vec.distance_squared(&vs[2].vec);
     let weight_diagonal_1_3 = vs[1].vec.distance_squared(&vs[3].vec);
 
-    // TODO: Are the convexity checks correct? Or do they check the exact opposite?
-
     if weight_diagonal_0_2 <= weight_diagonal_1_3 {
         let vs1_3_convex =
-            vs[1].vec.convex(vs[2].vec, vs[0].vec) && vs[3].vec.convex(vs[0].vec, vs[2].vec);
+            vs[1].vec.convex(vs[0].vec, vs[2].vec) && vs[3].vec.convex(vs[2].vec, vs[0].vec);
         if vs1_3_convex {
             // insert the diagonal 0-2
             indices.insert_triangle(vs[0].index, vs[1].index, vs[2].index);
-- 
2.43.0


From b9154e0a3c68297668adcafe21a5f592286985c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 21/54] fix: triangulation checks skipped or misread triangles
 in non-empty index buffers

---
 src/mesh/triangulation.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesh/triangulation.rs b/src/mesh/triangulation.rs
index 2e60803..c122812 100644
--- a/src/mesh/triangulation.rs
+++ b/src/mesh/triangulation.rs
@@ -179,7 +179,7 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
 
     /// Check for non-degenerate triangles (no zero-area triangles)
     pub fn verify_non_degenerate_triangle<Vec2: Vector2D>(&self, vec_hm: &HashMap<V, Vec2>) {
-        for i in self.start..self.len() {
+        for i in 0..self.len() {
             let area = self.get_triangle_area(i, vec_hm);
             /*assert!(
                 area.abs() > Vec2::S::ZERO,
@@ -228,8 +228,8 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
             );
         }*/
 
-        for i in (self.start..num_vertices).step_by(3) {
-            for j in (self.start..num_vertices).step_by(3) {
+        for i in (0..num_vertices).step_by(3) {
+            for j in (0..num_vertices).step_by(3) {
                 if i == j {
                     continue;
                 }
@@ -292,7 +292,7 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
     /// Calculate the total edge weight of the triangulation
     pub fn total_edge_weight<Vec2: Vector2D>(&self, vec_hm: &HashMap<V, Vec2>) -> Vec2::S {
         let mut total = Vec2::S::ZERO;
-        for i in self.start..self.len() {
+        for i in 0..self.len() {
             let (i1, i2, i3) = self.get_triangle(i);
             let v0 = vec_hm[&i1];
             let v1 = vec_hm[&i2];
-- 
2.43.0


From 84ec3e6229c3857420a174581811f71c24903eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 22/54] fix: comparing face cycles looked up the other mesh's
 edges in the wrong mesh

---
 src/mesh/mesh/basics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index 64bfb1e..b4bd0e9 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -375,7 +375,7 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
                 || f.num_vertices(self) != other_f.num_vertices(self)
                 || !equal_up_to_rotation(
                     &f.edge_ids(self).collect_vec(),
-                    &other_f.edge_ids(self).collect_vec(),
+                    &other_f.edge_ids(other).collect_vec(),
                 )
                 || !compare_face(f, other_f)
             {
-- 
2.43.0


From 7eea6d009f378a05847a2c9b20aca64002e64d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 23/54] fix: comparing meshes with different ids panicked
 instead of reporting the difference

---
 src/mesh/mesh/basics.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index b4bd0e9..f99e87e 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -351,7 +351,13 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
             return MeshEquivalenceDifference::DifferentNumberOfFaces;
         }
 
+        let other_edges: HashSet<T::E> = other.edge_ids().collect();
+        let other_faces: HashSet<T::F> = other.face_ids().collect();
+
         for v in self.vertices() {
+            if !other.has_vertex(v.id()) {
+                return MeshEquivalenceDifference::NoCorrespondingVertex;
+            }
             let other_v = other.vertex(v.id());
             if v.id() != other_v.id() || !compare_vertex(v, other_v) {
                 return MeshEquivalenceDifference::DifferentVertices(v.id(), other_v.id());
@@ -359,6 +365,9 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
         }
 
         for e in self.edges() {
+            if !other_edges.contains(&e.id()) {
+                return MeshEquivalenceDifference::NoCorrespondingEdge(e.id());
+            }
             let other_e = other.edge(e.id());
             if e.id() != other_e.id()
                 || e.origin(self).id() != other_e.origin(self).id()
@@ -370,6 +379,9 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
         }
 
         for f in self.faces() {
+            if !other_faces.contains(&f.id()) {
+                return MeshEquivalenceDifference::NoCorrespondingFace(f.id());
+            }
             let other_f = other.face(f.id());
             if f.id() != other_f.id()
                 || f.num_vertices(self) != other_f.num_vertices(self)
-- 
2.43.0


From 4793ba936c995330adf7d56347a9f409bf7244b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 24/54] fix: is_isomorphic_pos required the same ids instead of
 canonicalizing by position

---
 src/mesh/mesh/basics.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index f99e87e..c19a4d1 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -462,12 +462,7 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
     where
         T::VP: HasPosition<D, Vec, S = S>,
     {
-        self.is_trivially_isomorphic_ex(
-            other,
-            |a, b| a.pos().is_about(&b.pos(), eps),
-            |_, _| true,
-            |_, _| true,
-        )
+        self.is_isomorphic_by_pos::<S, D, Vec, T>(other, eps)
     }
 
     /// Same as `is_trivially_isomorphic_pos`, but also checks control points of curved edges.
-- 
2.43.0


From c89c081a0d2777daf86d80662f133a6012b6fa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:25 +0000
Subject: [PATCH 25/54] fix: the curve closing a glyph outline was stored on
 the edge of the opposite direction

---
 src/mesh/mesh/fonts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/mesh/fonts.rs b/src/mesh/mesh/fonts.rs
index 977ac25..56a8f07 100644
--- a/src/mesh/mesh/fonts.rs
+++ b/src/mesh/mesh/fonts.rs
@@ -136,7 +136,7 @@ impl<'a> Font<'a> {
             if let Some(_p) = cur {
                 // TODO: don't use eq but similarity
                 if first.unwrap() == p1 {
-                    let (_, _, e) = mesh.close_face_vertices(
+                    let (_, e, _) = mesh.close_face_vertices(
                         prev_v,
                         Default::default(),
                         cur_v,
-- 
2.43.0


From 4e0b5c014ef4cce0e00e7d05bd8fd41b64a34def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:37 +0000
Subject: [PATCH 26/54] fix: glyphs overlapped since their advance used a
 smaller scale than their outline

---
 src/mesh/mesh/fonts.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/mesh/mesh/fonts.rs b/src/mesh/mesh/fonts.rs
index 56a8f07..464ab53 100644
--- a/src/mesh/mesh/fonts.rs
+++ b/src/mesh/mesh/fonts.rs
@@ -28,7 +28,10 @@ impl<'a> Font<'a> {
     }
 
     fn font_scale(&self) -> f32 {
-        self.scale //* self.font.pt_to_px_scale(1.0).map(|x| x.x).unwrap_or(1.0)
+        self.font
+            .pt_to_px_scale(self.scale)
+            .map(|x| x.x)
+            .unwrap_or(self.scale)
     }
 
     /// Get the advance of the given character.
@@ -89,13 +92,7 @@ impl<'a> Font<'a> {
             return;
         };
 
-        let scale = T::S::from(
-            self.font
-                .pt_to_px_scale(self.scale)
-                .map(|x| x.x)
-                .unwrap_or(self.scale)
-                / self.font.height_unscaled(),
-        );
+        let scale = T::S::from(self.font_scale() / self.font.height_unscaled());
         let mut first = None;
         let mut cur = None;
         let mut cur_v = IndexType::max();
-- 
2.43.0


From 1f5909d4d0c7ba06e39490d51c771645ba091c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 27/54] fix: closing an open path always panicked

---
 src/mesh/mesh/path_builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/mesh/path_builder.rs b/src/mesh/mesh/path_builder.rs
index 4b1e395..f182efe 100644
--- a/src/mesh/mesh/path_builder.rs
+++ b/src/mesh/mesh/path_builder.rs
@@ -221,12 +221,11 @@ where
             return self.mesh().close_hole(start_inner, fp, false);
         }
 
-        self.closed = true;
-
         let Some((current_inner, current_outer)) = self.current_edges() else {
             // The current vertex doesn't have any edges yet.
             assert!(self.start_edges().is_none());
             assert!(self.start_vertex() == self.current_vertex());
+            self.closed = true;
             return IndexType::max();
         };
         let Some((start_inner, _start_outer)) = self.start_edges() else {
@@ -248,6 +247,7 @@ where
             //self.mesh().close
             self.line_to(self.start_vertex());
         }
+        self.closed = true;
 
         // TODO: is this necessary or not? Generally, is the correction above correct? Or is the winding in the opposite direction?
         /*debug_assert!(self
-- 
2.43.0


From 4d111548038082276978330f620441d629438d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 28/54] fix: SVG paths with more than one subpath panicked

---
 src/extensions/svg/svg.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/extensions/svg/svg.rs b/src/extensions/svg/svg.rs
index 0f00d34..0f5b328 100644
--- a/src/extensions/svg/svg.rs
+++ b/src/extensions/svg/svg.rs
@@ -55,7 +55,13 @@ where
     for s in path.data().segments() {
         match s {
             usvg::tiny_skia_path::PathSegment::MoveTo(p) => {
-                assert!(is_first);
+                if !is_first {
+                    // close the previous subpath and start a new one
+                    if !pb.has_face() {
+                        pb.close(Default::default());
+                    }
+                    pb = PathBuilder::<T, T::Trans>::new(mesh);
+                }
                 pb.move_to_new(v(p));
                 //pb = PathBuilder::<T>::start(mesh, v(p));
             }
-- 
2.43.0


From e4101acb2a7e5cedc13a85c23bcceda6d3fcc9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 29/54] fix: SVG import ignored the transformations of groups,
 elements, and the view box

---
 src/extensions/svg/svg.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/extensions/svg/svg.rs b/src/extensions/svg/svg.rs
index 0f5b328..ccdb9eb 100644
--- a/src/extensions/svg/svg.rs
+++ b/src/extensions/svg/svg.rs
@@ -45,9 +45,12 @@ where
     // let fill = path.fill();
     // let stroke = path.stroke();
     // let po = path.paint_order();
-    // let transform = path.abs_transform();
+    let transform = path.abs_transform();
 
-    let v = |p: usvg::tiny_skia_path::Point| T::Vec::from_xy(T::S::from(p.x), T::S::from(p.y));
+    let v = |mut p: usvg::tiny_skia_path::Point| {
+        transform.map_point(&mut p);
+        T::Vec::from_xy(T::S::from(p.x), T::S::from(p.y))
+    };
 
     let mut pb = PathBuilder::<T, T::Trans>::new(mesh);
 
-- 
2.43.0


From d6dd2193f1a5fcea6d713243b1c9c405451b00eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 30/54] fix: generate_smooth_normals set the normals of
 isolated vertices to NaN

---
 src/mesh/mesh/normals.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mesh/mesh/normals.rs b/src/mesh/mesh/normals.rs
index c4aeb54..dbd6061 100644
--- a/src/mesh/mesh/normals.rs
+++ b/src/mesh/mesh/normals.rs
@@ -53,10 +53,12 @@ pub trait WithNormals<
 
         let normals = MeshBasics::vertices(self)
             .map(|v| {
-                v.faces(self)
-                    .map(|f| face_normals[&f.id()])
-                    .stable_mean()
-                    .normalize()
+                let normals = v.faces(self).map(|f| face_normals[&f.id()]).collect::<Vec<_>>();
+                if normals.is_empty() {
+                    // there is no surface around isolated vertices
+                    return Vector::zero();
+                }
+                normals.into_iter().stable_mean().normalize()
             })
             .collect::<Vec<_>>();
 
-- 
2.43.0


From 263e53f7510363a0b6a30220133038708a75c521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 31/54] fix: large planar faces were considered non-planar due
 to rounding errors

---
 src/mesh/face/face3d.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mesh/face/face3d.rs b/src/mesh/face/face3d.rs
index aaef6ef..8e9c65e 100644
--- a/src/mesh/face/face3d.rs
+++ b/src/mesh/face/face3d.rs
@@ -41,8 +41,10 @@ pub trait Face3d<T: MeshType3D<Face = Self>>: FaceBasics<T> {
         let n = (three[1] - three[0]).cross(&(three[2] - three[0]));
 
         self.vertices(mesh).skip(2).all(|v| {
-            let v = v.pos();
-            (v - three[0]).dot(&n).abs() < eps
+            let d = v.pos() - three[0];
+            // for large faces, the rounding errors grow with the size of the face
+            let scale = Scalar::max(&T::S::ONE, d.length() * n.length());
+            d.dot(&n).abs() < eps * scale
         })
     }
 
-- 
2.43.0


From 4a7c5d3f07ee1ca24acd58a83936110243628220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 32/54] fix: faces with alternating convex and reflex corners
 were considered convex

---
 src/mesh/face/face3d.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mesh/face/face3d.rs b/src/mesh/face/face3d.rs
index 8e9c65e..2a86339 100644
--- a/src/mesh/face/face3d.rs
+++ b/src/mesh/face/face3d.rs
@@ -28,8 +28,7 @@ pub trait Face3d<T: MeshType3D<Face = Self>>: FaceBasics<T> {
         // TODO: collinear points cause problems
         self.vertices_crossed(mesh)
             .circular_tuple_windows::<(_, _)>()
-            .map(|w| w.0.dot(&w.1).is_positive())
-            .all_equal()
+            .all(|w| w.0.dot(&w.1).is_positive())
     }
 
     /// Whether the face is planar.
-- 
2.43.0


From 936633d0bc0b201aa1f4b1f80f0b9c6b7055421a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 33/54] fix: flattening treated S-shaped cubic curves as
 straight lines

---
 src/mesh/edge/curved.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/mesh/edge/curved.rs b/src/mesh/edge/curved.rs
index affa3a4..5227222 100644
--- a/src/mesh/edge/curved.rs
+++ b/src/mesh/edge/curved.rs
@@ -98,11 +98,16 @@ pub trait CurvedEdge<const D: usize, T: EuclideanMeshType<D, Edge = Self>>: Edge
             let p0 = curve.point_at(edge, mesh, t0);
             let p1 = curve.point_at(edge, mesh, t1);
             let tm = (t0 + t1) / T::S::TWO;
-            let pm = curve.point_at(edge, mesh, tm);
-            let p_line = p0.lerped(&p1, T::S::HALF);
-            let deviation = pm.distance(&p_line);
 
-            if deviation <= error {
+            // Only testing the center would miss S-shaped cubic curves.
+            let is_flat = [T::S::HALF, T::S::HALF / T::S::TWO, T::S::from(0.75)]
+                .into_iter()
+                .all(|t| {
+                    let p = curve.point_at(edge, mesh, t0.lerp(t1, t));
+                    p.distance(&p0.lerped(&p1, t)) <= error
+                });
+
+            if is_flat {
                 // The segment is acceptable; push p1
                 lines.push(p1);
             } else {
-- 
2.43.0


From 7ab634978242dfc6c8bcb1cce5994b5660bdc854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 34/54] fix: edge iterators reported one element too many after
 the first step

---
 src/halfedge/edge/iterator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/halfedge/edge/iterator.rs b/src/halfedge/edge/iterator.rs
index fbf1281..dc26490 100644
--- a/src/halfedge/edge/iterator.rs
+++ b/src/halfedge/edge/iterator.rs
@@ -55,7 +55,8 @@ impl<'a, T: HalfEdgeImplMeshType> Iterator for ForwardEdgeIterator<'a, T> {
     #[inline(always)]
     fn size_hint(&self) -> (usize, Option<usize>) {
         let mut curr = self.current.clone();
-        let mut len = 1;
+        // `current` was already returned unless the iteration didn't start yet
+        let mut len = if self.is_first { 1 } else { 0 };
         while curr.next(self.mesh).id() != self.first {
             len += 1;
             curr = curr.next(self.mesh);
-- 
2.43.0


From 93884b1c59e8571548fd7c35298bddcce68a1736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 35/54] fix: exhausting the index type created inaccessible
 elements

---
 src/util/deletable.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/util/deletable.rs b/src/util/deletable.rs
index 79a33f7..6e4e67f 100644
--- a/src/util/deletable.rs
+++ b/src/util/deletable.rs
@@ -98,13 +98,24 @@ impl<T: Deletable<I>, I: IndexType> DeletableVector<T, I> {
             self.data[index.index()] = v;
             index
         } else {
-            let index = I::new(self.data.len());
+            let index = self.next_index();
             v.set_id(index);
             self.data.push(v);
             index
         }
     }
 
+    /// Returns the index of the next element that doesn't reuse a deleted one.
+    /// Panics if there is none left; the largest index is reserved to mark missing elements.
+    fn next_index(&self) -> I {
+        assert!(
+            self.data.len() < <I as IndexType>::max().index(),
+            "Index out of range: {}",
+            self.data.len()
+        );
+        I::new(self.data.len())
+    }
+
     /// Move the element at the given index. Assumes that the position is allocated and free, i.e., the contents are deleted.
     pub fn set(&mut self, index: I, mut v: T) {
         assert!(
@@ -133,10 +144,11 @@ impl<T: Deletable<I>, I: IndexType> DeletableVector<T, I> {
         if let Some(index) = self.deleted.pop() {
             index
         } else {
+            let index = self.next_index();
             let t = T::allocate();
             debug_assert!(t.is_deleted());
             self.data.push(t);
-            I::new(self.data.len() - 1)
+            index
         }
     }
 }
-- 
2.43.0


From 3b19c6ebd10ee409d09c5ed29e4c156a38443c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 36/54] fix: geodesic spheres with a large radius panicked due
 to rounding errors

---
 src/primitives/sphere.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/primitives/sphere.rs b/src/primitives/sphere.rs
index baf1404..00b69cf 100644
--- a/src/primitives/sphere.rs
+++ b/src/primitives/sphere.rs
@@ -186,7 +186,10 @@ where
         T::Mesh: HalfEdgeSemiBuilder<T>,
     {
         let mut mesh = Self::regular_icosahedron(icosahedron_r2a(radius));
-        debug_assert!(mesh.centroid().is_about(&T::Vec::zero(), T::S::EPS));
+        debug_assert!(mesh.centroid().is_about(
+            &T::Vec::zero(),
+            T::S::EPS * T::S::TEN * (T::S::ONE + radius.abs())
+        ));
         mesh.subdivision_frequency(
             SubdivisionDescription::new(n, 0),
             SlerpVertexInterpolator::new(T::Vec::zero(), radius),
@@ -202,7 +205,10 @@ where
         // the edge length of a tetrahedron with the given circumscribed radius
         let l = radius * T::S::TWO * (T::S::TWO / T::S::THREE).sqrt();
         let mut mesh = Self::regular_tetrahedron(l);
-        debug_assert!(mesh.centroid().is_about(&T::Vec::zero(), T::S::EPS));
+        debug_assert!(mesh.centroid().is_about(
+            &T::Vec::zero(),
+            T::S::EPS * T::S::TEN * (T::S::ONE + radius.abs())
+        ));
         mesh.subdivision_frequency(
             SubdivisionDescription::new(n, 0),
             SlerpVertexInterpolator::new(T::Vec::zero(), radius),
@@ -216,7 +222,10 @@ where
         T::Mesh: HalfEdgeSemiBuilder<T>,
     {
         let mut mesh = Self::regular_octahedron(radius);
-        debug_assert!(mesh.centroid().is_about(&T::Vec::zero(), T::S::EPS));
+        debug_assert!(mesh.centroid().is_about(
+            &T::Vec::zero(),
+            T::S::EPS * T::S::TEN * (T::S::ONE + radius.abs())
+        ));
         mesh.subdivision_frequency(
             SubdivisionDescription::new(n, 0),
             SlerpVertexInterpolator::new(T::Vec::zero(), radius),
-- 
2.43.0


From 33fe558b8f79d1330ddeab9314b04cb9f8e64fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 37/54] fix: subdividing a mesh with a boundary corrupted the
 links of the boundary edges

---
 src/operations/subdivision.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/operations/subdivision.rs b/src/operations/subdivision.rs
index 926aa8c..853bc82 100644
--- a/src/operations/subdivision.rs
+++ b/src/operations/subdivision.rs
@@ -101,6 +101,13 @@ where
                     ],
                 );
                 self.subdivide_unsafe(edges[i].id(), vp, Default::default());
+
+                // there won't be another face that fixes the other side of a boundary edge
+                let twin = edges[i].twin_id();
+                if self.edge(twin).is_boundary_self() {
+                    self.subdivide_unsafe_try_fixup(twin, Default::default())
+                        .expect("the twin was just subdivided");
+                }
             }
 
             // remove the original face
-- 
2.43.0


From 988ab906b240eaa79e6bb5d63175834caad60053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 38/54] fix: planar faces starting with collinear corners were
 considered non-planar

---
 src/mesh/face/face3d.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/mesh/face/face3d.rs b/src/mesh/face/face3d.rs
index 2a86339..2353afd 100644
--- a/src/mesh/face/face3d.rs
+++ b/src/mesh/face/face3d.rs
@@ -34,13 +34,17 @@ pub trait Face3d<T: MeshType3D<Face = Self>>: FaceBasics<T> {
     /// Whether the face is planar.
     fn is_planar(&self, mesh: &T::Mesh, eps: T::S) -> bool {
         // TODO: is this correct?
-        // TODO: collinear points cause problems
 
-        let three: Vec<_> = self.vertices(mesh).take(3).map(|v| v.pos()).collect();
-        let n = (three[1] - three[0]).cross(&(three[2] - three[0]));
+        // use all vertices for the normal since the first ones might be collinear
+        let origin = self
+            .vertices(mesh)
+            .next()
+            .expect("A face must have vertices")
+            .pos();
+        let n = self.vertices(mesh).map(|v| v.pos() - origin).normal();
 
-        self.vertices(mesh).skip(2).all(|v| {
-            let d = v.pos() - three[0];
+        self.vertices(mesh).all(|v| {
+            let d = v.pos() - origin;
             // for large faces, the rounding errors grow with the size of the face
             let scale = Scalar::max(&T::S::ONE, d.length() * n.length());
             d.dot(&n).abs() < eps * scale
-- 
2.43.0


From 801794f30bfd8ec2a65c8838139ae8f137f233cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 39/54] fix: sweep triangulation splits intervals along the
 diagonal to the helper

At a split vertex, the sweep connected the new vertex with the last vertex of
the opposite chain instead of the lowest vertex of the interval. That diagonal
is not necessarily inside the polygon, which led to panics or overlapping
triangles. Also, the debug assertion comparing the binary with the linear search
must not complain when the position is in none of the intervals.
---
 src/tesselate/sweep/status.rs | 15 ++++++--------
 src/tesselate/sweep/sweep.rs  | 39 +++++++++++++++++------------------
 2 files changed, 25 insertions(+), 29 deletions(-)

diff --git a/src/tesselate/sweep/status.rs b/src/tesselate/sweep/status.rs
index 131a7c9..1375dea 100644
--- a/src/tesselate/sweep/status.rs
+++ b/src/tesselate/sweep/status.rs
@@ -236,7 +236,11 @@ impl<MT: MonotoneTriangulator> SweepLineStatus<MT> {
             .expect("The tree should be initialized.")
             .range(sorter.clone()..)
             .next()
-            .map(|sorter| sorter.left);
+            .map(|sorter| sorter.left)
+            .filter(|i| {
+                let interval = self.left[*i].as_ref();
+                interval.is_some_and(|v| v.contains(pos, vec2s))
+            });
 
         debug_assert!(
             x == self.find_linearly(pos, vec2s),
@@ -250,14 +254,7 @@ impl<MT: MonotoneTriangulator> SweepLineStatus<MT> {
             self.tree,
         );
 
-        if let Some(i) = x {
-            if let Some(v) = &self.left[i] {
-                if v.contains(pos, vec2s) {
-                    return x;
-                }
-            }
-        }
-        None
+        x
     }
 
     /// Delayed initialization of the b-tree
diff --git a/src/tesselate/sweep/sweep.rs b/src/tesselate/sweep/sweep.rs
index 48acda5..edec767 100644
--- a/src/tesselate/sweep/sweep.rs
+++ b/src/tesselate/sweep/sweep.rs
@@ -126,26 +126,29 @@ impl<'a, 'b, MT: MonotoneTriangulator> SweepContext<'a, 'b, MT> {
         let line = self.sls.remove_left(i, &self.vec2s).unwrap();
         assert!(!line.is_end(), "A split vertex must not be an end vertex");
 
-        let stacks = if let Some(mut fixup) = line.fixup {
+        // Split along the diagonal from the helper (the lowest vertex of the interval, which is
+        // always visible from here). The side that contains the helper's chain keeps it.
+        let (left_chain, right_chain) = if let Some(mut fixup) = line.fixup {
             #[cfg(feature = "sweep_debug_print")]
-            println!("fixup split: {}", fixup);
+            println!("fixup split: {:?}", fixup);
 
-            let t = fixup.last_opposite();
-
-            fixup.right(event.here, self.tri, self.vec2s);
-            fixup.finish(self.tri, self.vec2s);
-
-            let mut x = MT::new(t);
-            x.left(event.here, self.tri, self.vec2s);
-            x
+            // the helper is the merge vertex between both chains
+            let mut chain = line.chain;
+            chain.right(event.here, self.tri, self.vec2s);
+            fixup.left(event.here, self.tri, self.vec2s);
+            (chain, fixup)
         } else if line.chain.is_right() {
+            let mut chain = line.chain;
+            chain.right(event.here, self.tri, self.vec2s);
             let mut x = MT::new(line.helper);
             x.left(event.here, self.tri, self.vec2s);
-            x
+            (chain, x)
         } else {
-            let mut x = MT::new(line.chain.last_opposite());
-            x.left(event.here, self.tri, self.vec2s);
-            x
+            let mut chain = line.chain;
+            chain.left(event.here, self.tri, self.vec2s);
+            let mut x = MT::new(line.helper);
+            x.right(event.here, self.tri, self.vec2s);
+            (x, chain)
         };
 
         self.sls.insert(
@@ -153,11 +156,7 @@ impl<'a, 'b, MT: MonotoneTriangulator> SweepContext<'a, 'b, MT> {
                 helper: event.here,
                 left: line.left,
                 right: IntervalBoundaryEdge::new(event.here, event.prev),
-                chain: {
-                    let mut x = line.chain;
-                    x.right(event.here, self.tri, self.vec2s);
-                    x
-                },
+                chain: left_chain,
                 fixup: None,
             },
             self.vec2s,
@@ -168,7 +167,7 @@ impl<'a, 'b, MT: MonotoneTriangulator> SweepContext<'a, 'b, MT> {
                 helper: event.here,
                 left: IntervalBoundaryEdge::new(event.here, event.next),
                 right: line.right,
-                chain: stacks,
+                chain: right_chain,
                 fixup: None,
             },
             self.vec2s,
-- 
2.43.0


From 8f6ffdc7ab929ff26f76ae593941a605398b469d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:51 +0000
Subject: [PATCH 40/54] fix: ear clipping doesn't leave collinear vertices
 behind

An ear with other vertices on its boundary was cut depending on the sign of
zero. Afterwards, only collinear vertices could remain, and the algorithm
panicked or inserted a triangle without checking it.
---
 src/tesselate/ear_clipping.rs | 56 ++++++++++++++++++++++-------------
 src/tesselate/sweep/sweep.rs  |  4 +--
 2 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/tesselate/ear_clipping.rs b/src/tesselate/ear_clipping.rs
index 5e9a0c4..c4c7a41 100644
--- a/src/tesselate/ear_clipping.rs
+++ b/src/tesselate/ear_clipping.rs
@@ -28,16 +28,29 @@ pub fn ear_clipping_direct<Vec2: Vector2D, V: IndexType>(
     indices: &mut Triangulation<V>,
     randomize: bool,
 ) {
-    let eps = <Vec2::S as Scalar>::EPS * 2.0.into();
-    let mut success_since_fail = 0;
-
-    let triangle_empty = |a: usize, b: usize, c: usize| {
-        let av = vs[a].0;
-        let bv = vs[b].0;
-        let cv = vs[c].0;
-        vs.iter()
-            .enumerate()
-            .all(|(i, v)| i == a || i == b || i == c || !v.0.is_inside_triangle(av, bv, cv))
+    // the sign of the area of the triangle, or zero if it is nearly degenerate
+    let eps = <Vec2::S as Scalar>::EPS * 4.0.into();
+    let side = |a: usize, b: usize, c: usize| {
+        let ab = vs[b].0 - vs[a].0;
+        let ac = vs[c].0 - vs[a].0;
+        let area = ab.perp_dot(&ac);
+        if area.abs() <= eps * ab.length() * ac.length() {
+            Vec2::S::ZERO
+        } else {
+            area
+        }
+    };
+
+    // Whether the ear doesn't contain any other vertex. Usually, there mustn't be vertices on
+    // its boundary either, since cutting the ear could leave only collinear vertices behind.
+    let triangle_empty = |a: usize, b: usize, c: usize, clipped: &[bool], recovery: bool| {
+        (0..vs.len()).all(|i| {
+            i == a || i == b || i == c || clipped[i] || {
+                let sides = [side(a, b, i), side(b, c, i), side(c, a, i)];
+                sides.iter().any(|s| *s < Vec2::S::ZERO)
+                    || (recovery && sides.iter().any(|s| *s == Vec2::S::ZERO))
+            }
+        })
     };
 
     let n0 = vs.len();
@@ -51,6 +64,7 @@ pub fn ear_clipping_direct<Vec2: Vector2D, V: IndexType>(
     }
     let mut n = n0;
     let mut fails_since_advance = 0;
+    let mut recovery = false;
     while n > 2 {
         let mut i_b = (i_a + 1) % n0;
         while clipped[i_b] {
@@ -66,29 +80,29 @@ pub fn ear_clipping_direct<Vec2: Vector2D, V: IndexType>(
         debug_assert!(i_c != i_a);
 
         // cut the ear off
-        if !vs[i_b].0.convex(vs[i_a].0, vs[i_c].0)
-                || !triangle_empty(i_a, i_b, i_c)
-                // if there are nearly collinear points, we can't cut the ear, because triangle_empty could block any progress afterwards
-                || (success_since_fail >= 2 &&vs[i_b].0.collinear(vs[i_a].0, vs[i_c].0, eps))
+        let convexity = side(i_a, i_b, i_c);
+        if convexity < Vec2::S::ZERO
+            || (convexity == Vec2::S::ZERO && !recovery)
+            || !triangle_empty(i_a, i_b, i_c, &clipped, recovery)
         {
             fails_since_advance += 1;
             if fails_since_advance > n {
-                // If there are nearly collinear points, triangle_empty might not work correctly
-                if success_since_fail < 2 {
+                // If there are only nearly collinear ears left, we have to cut them nevertheless
+                if recovery {
                     panic!("Ear-clipping failed to find a valid triangle due to nearly collinear points");
                 }
-                success_since_fail = 0;
-            } else {
-                i_a = i_b;
-                continue;
+                recovery = true;
+                fails_since_advance = 0;
             }
+            i_a = i_b;
+            continue;
         }
 
         indices.insert_triangle(vs[i_a].1, vs[i_c].1, vs[i_b].1);
         clipped[i_b] = true;
         n -= 1;
         fails_since_advance = 0;
-        success_since_fail += 1;
+        recovery = false;
 
         if randomize {
             i_a = rand::random_range(0..n0);
diff --git a/src/tesselate/sweep/sweep.rs b/src/tesselate/sweep/sweep.rs
index edec767..399daf6 100644
--- a/src/tesselate/sweep/sweep.rs
+++ b/src/tesselate/sweep/sweep.rs
@@ -5,9 +5,7 @@ use super::{
     status::SweepLineStatus,
     SweepMeta, VertexType,
 };
-use crate::{
-    mesh::{IndexedVertex2D, Triangulation},
-};
+use crate::mesh::{IndexedVertex2D, Triangulation};
 
 /// Perform the sweep line triangulation
 /// The sweep line moves from the top (positive y) to the bottom (negative y).
-- 
2.43.0


From 28a034fad1581eb005221fd7bb5caf743c93a7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:55 +0000
Subject: [PATCH 41/54] fix: Delaunay triangulation finds the inside of the
 face by crossing constraints

Comparing angles gave contradicting results (and failed assertions) for very thin
triangles along nearly collinear vertices.
---
 src/tesselate/delaunay.rs | 100 ++++++++++----------------------------
 1 file changed, 27 insertions(+), 73 deletions(-)

diff --git a/src/tesselate/delaunay.rs b/src/tesselate/delaunay.rs
index 0a623b4..a435d75 100644
--- a/src/tesselate/delaunay.rs
+++ b/src/tesselate/delaunay.rs
@@ -1,7 +1,7 @@
 use super::Triangulation;
 use crate::{
-    math::{IndexType, Scalar, Vector, Vector2D},
-    mesh::{Face, Face3d, FaceBasics, MeshType3D},
+    math::{Scalar, Vector},
+    mesh::{Face3d, FaceBasics, MeshType3D},
 };
 use itertools::Itertools;
 use spade::{ConstrainedDelaunayTriangulation, Point2, Triangulation as _};
@@ -39,78 +39,32 @@ pub fn delaunay_triangulation<T: MeshType3D>(
     }
     assert!(cdt.add_constraint(last.unwrap(), first.unwrap()));
 
-    //let v2d = face.vertices_2d(mesh).collect::<Vec<_>>();
-    //let poly = T::Poly::from_iter(v2d.iter().map(|(v, _)| v.clone()));
-
-    cdt.inner_faces().for_each(|f| {
-        let [p0, p1, p2] = f.vertices();
-        let v0 = i2v[p0.index()];
-        let v1 = i2v[p1.index()];
-        let v2 = i2v[p2.index()];
-        let r = face.triangle_touches_boundary(mesh, v0, v1, v2);
-        if r.is_none() || r.unwrap() {
-            if r.is_some() {
-                tri.insert_triangle(v0, v1, v2);
-                return;
-            }
-
-            /*
-            // For triangles fully within or without the face, we need to check the centroid of the triangle
-            // TODO: is there a better way? this is inefficient
-            let mut triangle: Vec<T::Vec2> = Vec::new();
-            for (v, i) in &v2d {
-                if *i == v0 || *i == v1 || *i == v2 {
-                    triangle.push(*v);
-                }
-            }
-            let triangle = T::Poly::from_iter(triangle);
-            if poly.contains(&triangle.centroid()) {
-                tri.insert_triangle(v0, v1, v2);
-            }*/
-
-            // faster check: if the angle in direction of the face boundary is smaller than the boundary angle, it's inside
-
-            fn wrap_angle<S: Scalar>(x: S) -> S {
-                if x < S::zero() {
-                    x + S::PI * S::TWO
-                } else {
-                    x
-                }
-            }
-
-            fn is_edge_inside<V: IndexType, V2: Vector2D>(
-                vec2s: &[(V2, V)],
-                v: usize,
-                other_v: usize,
-            ) -> bool {
-                let n = vec2s.len();
-                let prev = vec2s[(v + n - 1) % n].0;
-                let next = vec2s[(v + 1) % n].0;
-                let triangle_angle = wrap_angle(vec2s[v].0.angle_tri(vec2s[other_v].0, prev));
-                let boundary_angle = wrap_angle(vec2s[v].0.angle_tri(next, prev));
-                triangle_angle <= boundary_angle
-            }
-
-            {
-                let is_inside = is_edge_inside(&vec2s, p0.index(), p1.index());
-                if is_inside {
-                    tri.insert_triangle(v0, v1, v2);
-                }
-
-                // we expect the same result for all 6 edge orientations
-                for (v, other_v) in &[(p0, p1), (p1, p2), (p2, p0)] {
-                    debug_assert_eq!(
-                        is_edge_inside(&vec2s, v.index(), other_v.index()),
-                        is_inside
-                    );
-                    debug_assert_eq!(
-                        is_edge_inside(&vec2s, other_v.index(), v.index()),
-                        is_inside
-                    );
-                }
-            }
+    // Find the triangles inside the face: starting outside, every constraint leads to the other side.
+    // This is exact even if there are very thin triangles along collinear vertices.
+    let mut inside: Vec<Option<bool>> = vec![None; cdt.num_all_faces()];
+    let mut stack = cdt
+        .convex_hull()
+        .map(|e| (e.rev(), e.is_constraint_edge()))
+        .collect_vec();
+    while let Some((edge, is_inside)) = stack.pop() {
+        let Some(f) = edge.face().as_inner() else {
+            continue;
+        };
+        if inside[f.index()].is_none() {
+            inside[f.index()] = Some(is_inside);
+            stack.extend(
+                f.adjacent_edges()
+                    .map(|e| (e.rev(), is_inside != e.is_constraint_edge())),
+            );
         }
-    });
+    }
+
+    cdt.inner_faces()
+        .filter(|f| inside[f.index()] == Some(true))
+        .for_each(|f| {
+            let [v0, v1, v2] = f.vertices().map(|p| i2v[p.index()]);
+            tri.insert_triangle(v0, v1, v2);
+        });
 
     // TODO: make tests to perform these tests. This is too slow, even for debug builds!
     debug_assert!({
-- 
2.43.0


From 1ef07238981a9671b269ee89189893a035a6ce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:23 +0000
Subject: [PATCH 42/54] fix: valid diagonals of polygons may neither pass
 through vertices nor leave the polygon

---
 src/math/polygon.rs | 52 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/math/polygon.rs b/src/math/polygon.rs
index e7c821e..da45e4f 100644
--- a/src/math/polygon.rs
+++ b/src/math/polygon.rs
@@ -1,4 +1,4 @@
-use super::{LineSegment2D, Scalar, ScalarIteratorExt, Vector2D, VectorIteratorExt};
+use super::{Scalar, ScalarIteratorExt, Vector2D, VectorIteratorExt};
 
 /// Trait for a polygon in n-dimensional space.
 ///
@@ -91,10 +91,45 @@ pub trait Polygon<Vec2: Vector2D>: Clone + PartialEq + std::fmt::Debug + 'static
         let ps = self.points();
         let n = ps.len();
 
+        // the sign of the area of the triangle, or zero if the points are nearly collinear
+        let eps = Vec2::S::EPS * 4.0.into();
+        let side = |a: Vec2, b: Vec2, c: Vec2| {
+            let (ab, ac) = (b - a, c - a);
+            let area = ab.perp_dot(&ac);
+            if area.abs() <= eps * ab.length() * ac.length() {
+                Vec2::S::ZERO
+            } else {
+                area
+            }
+        };
+        let opposite = |s: Vec2::S, t: Vec2::S| {
+            (s < Vec2::S::ZERO && t > Vec2::S::ZERO) || (s > Vec2::S::ZERO && t < Vec2::S::ZERO)
+        };
+
+        // Is there a vertex on the diagonal?
+        // This also finds collinear edges and edges that only touch the diagonal.
+        let (a, b) = (ps[i], ps[j]);
+        let sides: Vec<Vec2::S> = ps.iter().map(|p| side(a, b, *p)).collect();
+        for k in (0..n).filter(|k| *k != i && *k != j) {
+            if sides[k] == Vec2::S::ZERO && (ps[k] - a).dot(&(ps[k] - b)) < Vec2::S::ZERO {
+                return false;
+            }
+        }
+
         // It is also possible for the diagonal to be fully outside the polygon where it is concave.
-        // We can test whether the midpoint of the diagonal is inside the polygon.
-        let mid = (ps[i] + ps[j]) * Vec2::S::HALF;
-        if !self.contains(&mid) {
+        // We can test whether it starts into the interior of the polygon.
+        let (mut prev, mut next) = ((i + n - 1) % n, (i + 1) % n);
+        if !self.is_ccw() {
+            std::mem::swap(&mut prev, &mut next);
+        }
+        let prev_is_left = sides[prev] > Vec2::S::ZERO;
+        let next_is_right = sides[next] < Vec2::S::ZERO;
+        let inside = if side(ps[prev], a, ps[next]) >= Vec2::S::ZERO {
+            prev_is_left && next_is_right
+        } else {
+            prev_is_left || next_is_right
+        };
+        if !inside {
             return false;
         }
 
@@ -106,13 +141,8 @@ pub trait Polygon<Vec2: Vector2D>: Clone + PartialEq + std::fmt::Debug + 'static
                 continue;
             }
 
-            if LineSegment2D::new(ps[i], ps[j])
-                .intersect_line(
-                    &LineSegment2D::new(ps[start], ps[end]),
-                    Vec2::S::EPS,
-                    Vec2::S::EPS,
-                )
-                .is_some()
+            if opposite(sides[start], sides[end])
+                && opposite(side(ps[start], ps[end], a), side(ps[start], ps[end], b))
             {
                 return false;
             }
-- 
2.43.0


From 4b0d23bde0dbb55bb4e133e29c302178c54f9d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:23 +0000
Subject: [PATCH 43/54] fix: sweep triangulation panicked for nearly degenerate
 monotone pieces

---
 src/tesselate/min_weight_dynamic.rs     | 15 +++++++++++
 src/tesselate/sweep/interval.rs         |  2 +-
 src/tesselate/sweep/monotone/dynamic.rs | 33 ++++++++++++++++++++++---
 3 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/src/tesselate/min_weight_dynamic.rs b/src/tesselate/min_weight_dynamic.rs
index addacf0..19b2fbd 100644
--- a/src/tesselate/min_weight_dynamic.rs
+++ b/src/tesselate/min_weight_dynamic.rs
@@ -428,6 +428,16 @@ pub fn minweight_dynamic_direct<V: IndexType, Vec2: Vector2D, Poly: Polygon<Vec2
     vs: &Vec<IndexedVertex2D<V, Vec2>>,
     indices: &mut Triangulation<V>,
 ) {
+    let success = try_minweight_dynamic_direct::<V, Vec2, Poly>(vs, indices);
+    assert!(success, "There is no triangulation of the polygon");
+}
+
+/// Like `minweight_dynamic_direct`, but returns false without inserting any triangles
+/// if there is no triangulation, e.g., because the polygon is (nearly) degenerate.
+pub fn try_minweight_dynamic_direct<V: IndexType, Vec2: Vector2D, Poly: Polygon<Vec2>>(
+    vs: &Vec<IndexedVertex2D<V, Vec2>>,
+    indices: &mut Triangulation<V>,
+) -> bool {
     let n = vs.len();
     assert!(n >= 4, "n={} < 4", n);
     let mut m = initialize_m(n);
@@ -444,7 +454,12 @@ pub fn minweight_dynamic_direct<V: IndexType, Vec2: Vector2D, Poly: Polygon<Vec2
 
     //println!("Dynamic programming: {:?}", now.elapsed());
 
+    if m[(0, n - 1)] == Vec2::S::INFINITY {
+        return false;
+    }
+
     traceback(n, 0, n - 1, &s, indices, &vs);
+    true
 }
 
 fn binomial(n: u32, k: u32) -> u32 {
diff --git a/src/tesselate/sweep/interval.rs b/src/tesselate/sweep/interval.rs
index d5777e9..ebe1980 100644
--- a/src/tesselate/sweep/interval.rs
+++ b/src/tesselate/sweep/interval.rs
@@ -92,7 +92,7 @@ impl<MT: MonotoneTriangulator> SweepLineInterval<MT> {
             return false;
         }
         let p2 = self.right.x_at_y::<MT::V, MT::Vec2>(pos.y(), vec2s);
-        assert!(p1 <= p2);
+        // where both edges meet, p2 can be slightly smaller than p1 due to rounding
         return pos.x() <= p2;
     }
 
diff --git a/src/tesselate/sweep/monotone/dynamic.rs b/src/tesselate/sweep/monotone/dynamic.rs
index 024fbd4..8739dae 100644
--- a/src/tesselate/sweep/monotone/dynamic.rs
+++ b/src/tesselate/sweep/monotone/dynamic.rs
@@ -1,9 +1,9 @@
-use super::{ChainDirection, MonotoneTriangulator};
+use super::{ChainDirection, LinearMonoTriangulator, MonotoneTriangulator};
 use crate::{
     math::{IndexType, Polygon, Vector2D},
     mesh::{IndexedVertex2D, Triangulation},
     prelude::try_min_weight_small_direct,
-    tesselate::minweight_dynamic_direct,
+    tesselate::try_minweight_dynamic_direct,
 };
 
 // TODO: Use the fact that we can find the min-weight triangulation of a x-monotone polygon in O(n^2) time using dynamic programming.
@@ -140,8 +140,33 @@ impl<V: IndexType, Vec2: Vector2D, Poly: Polygon<Vec2>> MonotoneTriangulator
             vs.push(vec2s[v]);
         }
 
-        if !try_min_weight_small_direct::<V, Vec2, Poly>(&vs, indices) {
-            minweight_dynamic_direct::<V, Vec2, Poly>(&vs, indices);
+        if try_min_weight_small_direct::<V, Vec2, Poly>(&vs, indices)
+            || try_minweight_dynamic_direct::<V, Vec2, Poly>(&vs, indices)
+        {
+            return;
         }
+
+        // Nearly collinear vertices can lead to degenerate sub-polygons without valid diagonals.
+        // The linear algorithm only relies on the order of the vertices.
+        let mut left = self.left.iter().copied().peekable();
+        let mut right = self.right.iter().copied().peekable();
+        let mut linear = LinearMonoTriangulator::<V, Vec2>::new(left.next().unwrap());
+        loop {
+            let take_left = match (left.peek(), right.peek()) {
+                (Some(l), Some(r)) => {
+                    let (l, r) = (vec2s[*l].vec, vec2s[*r].vec);
+                    l.y() > r.y() || (l.y() == r.y() && l.x() > r.x())
+                }
+                (Some(_), None) => true,
+                (None, Some(_)) => false,
+                (None, None) => break,
+            };
+            if take_left {
+                linear.left(left.next().unwrap(), indices, vec2s);
+            } else {
+                linear.right(right.next().unwrap(), indices, vec2s);
+            }
+        }
+        linear.finish(indices, vec2s);
     }
 }
-- 
2.43.0


From dce65cf9c93814266cb3d336079c4da30cc7b13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:23 +0000
Subject: [PATCH 44/54] fix: intersection check of triangulations considered
 long parallel edges intersecting

---
 src/mesh/triangulation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh/triangulation.rs b/src/mesh/triangulation.rs
index c122812..add2549 100644
--- a/src/mesh/triangulation.rs
+++ b/src/mesh/triangulation.rs
@@ -253,9 +253,10 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
                         let l1 = LineSegment2D::new(v0, v1);
                         let l2 = LineSegment2D::new(v2, v3);
                         let length = l1.length() + l2.length();
+                        let scale = (l1.length() * l2.length()).max(Vec2::S::ONE);
                         let inter = l1.intersect_line(
                             &l2,
-                            Vec2::S::EPS.sqrt(), // be strict about parallel edges
+                            Vec2::S::EPS.sqrt() * scale, // be strict about parallel edges
                             -Vec2::S::EPS.sqrt() * length, // Allow intersections/touching at the endpoints up to a portion of sqrt(eps), i.e., 0.0345% for f32
                         );
                         assert!(
-- 
2.43.0


From 237048d1a0fe27794909c07282329a6d14d49cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:23 +0000
Subject: [PATCH 45/54] fix: Delaunay triangulation panicked for extremely
 small coordinates

---
 src/tesselate/delaunay.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tesselate/delaunay.rs b/src/tesselate/delaunay.rs
index a435d75..8621dd2 100644
--- a/src/tesselate/delaunay.rs
+++ b/src/tesselate/delaunay.rs
@@ -4,7 +4,7 @@ use crate::{
     mesh::{Face3d, FaceBasics, MeshType3D},
 };
 use itertools::Itertools;
-use spade::{ConstrainedDelaunayTriangulation, Point2, Triangulation as _};
+use spade::{mitigate_underflow, ConstrainedDelaunayTriangulation, Point2, Triangulation as _};
 use std::collections::HashMap;
 
 /// Converts the face into a triangle list using the delaunay triangulation.
@@ -25,9 +25,9 @@ pub fn delaunay_triangulation<T: MeshType3D>(
     let vec2s = face.vertices_2d(mesh).collect_vec();
     for (i2, (vec2, global_index)) in vec2s.iter().enumerate() {
         i2v.push(*global_index);
-        let spade_vertex = cdt
-            .insert(Point2::new(vec2.x().to_f64(), vec2.y().to_f64()))
-            .unwrap();
+        // spade rejects extremely small coordinates
+        let p = mitigate_underflow(Point2::new(vec2.x().to_f64(), vec2.y().to_f64()));
+        let spade_vertex = cdt.insert(p).unwrap();
         // TODO: Handle meshes with vertices with the same position
         assert!(spade_vertex.index() == i2);
         if let Some(j) = last {
-- 
2.43.0


From 684e7205e6247090ac47c741665eb850b20b7b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:28 +0000
Subject: [PATCH 46/54] fix: compare the order of the edges around the vertices
 in is_trivially_isomorphic

---
 src/mesh/mesh/basics.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index c19a4d1..78e3f96 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -378,6 +378,16 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
             }
         }
 
+        // the order of the edges around the vertices
+        for v in self.vertices() {
+            let wheel = v.edges_out(self).map(|e| e.id()).collect_vec();
+            let other_v = other.vertex(v.id());
+            let other_wheel = other_v.edges_out(other).map(|e| e.id()).collect_vec();
+            if wheel != other_wheel && !equal_up_to_rotation(&wheel, &other_wheel) {
+                return MeshEquivalenceDifference::DifferentVertices(v.id(), other_v.id());
+            }
+        }
+
         for f in self.faces() {
             if !other_faces.contains(&f.id()) {
                 return MeshEquivalenceDifference::NoCorrespondingFace(f.id());
-- 
2.43.0


From 82f5849156c86e88b037a01d90a6bfba67bbdf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:38 +0000
Subject: [PATCH 47/54] fix: collinear edges of faces were considered as
 self-intersecting due to rounding

---
 src/mesh/face/face3d.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mesh/face/face3d.rs b/src/mesh/face/face3d.rs
index 2353afd..65dd3d3 100644
--- a/src/mesh/face/face3d.rs
+++ b/src/mesh/face/face3d.rs
@@ -61,13 +61,19 @@ pub trait Face3d<T: MeshType3D<Face = Self>>: FaceBasics<T> {
     /// This is a quite slow O(n^2) method. Use with caution.
     fn has_self_intersections(&self, mesh: &T::Mesh) -> bool {
         // TODO: Test this
+        let scale = self.vertices_2d(mesh).fold(T::S::ZERO, |a, (v, _)| {
+            a.max(Scalar::abs(v.x())).max(Scalar::abs(v.y()))
+        });
         self.vertices_2d(mesh)
             .circular_tuple_windows::<(_, _)>()
             .tuple_combinations::<(_, _)>()
             .any(|(((a1, _), (a2, _)), ((b1, _), (b2, _)))| {
                 let l1 = LineSegment2D::<T::Vec2>::new(a1, a2);
                 let l2 = LineSegment2D::<T::Vec2>::new(b1, b2);
-                let res = l1.intersect_line(&l2, T::S::EPS, -T::S::EPS);
+                // collinear edges aren't exactly parallel due to rounding
+                let (len1, len2) = (l1.length(), l2.length());
+                let eps = T::S::EPS * 4.0.into() * (len1 * len2 + scale * (len1 + len2));
+                let res = l1.intersect_line(&l2, eps, -T::S::EPS);
                 res.is_some()
             })
     }
-- 
2.43.0


From 173528bd861991b4cb33d6d4c16536f9f115ca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:38 +0000
Subject: [PATCH 48/54] fix: ear clipping ignored the rounding of the
 coordinates and failed for collinear points away from the origin

---
 src/tesselate/ear_clipping.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tesselate/ear_clipping.rs b/src/tesselate/ear_clipping.rs
index c4c7a41..29a35da 100644
--- a/src/tesselate/ear_clipping.rs
+++ b/src/tesselate/ear_clipping.rs
@@ -30,11 +30,15 @@ pub fn ear_clipping_direct<Vec2: Vector2D, V: IndexType>(
 ) {
     // the sign of the area of the triangle, or zero if it is nearly degenerate
     let eps = <Vec2::S as Scalar>::EPS * 4.0.into();
+    let scale = vs.iter().fold(Vec2::S::ZERO, |a, (v, _)| {
+        a.max(v.x().abs()).max(v.y().abs())
+    });
     let side = |a: usize, b: usize, c: usize| {
         let ab = vs[b].0 - vs[a].0;
         let ac = vs[c].0 - vs[a].0;
         let area = ab.perp_dot(&ac);
-        if area.abs() <= eps * ab.length() * ac.length() {
+        let (ab, ac) = (ab.length(), ac.length());
+        if area.abs() <= eps * (ab * ac + scale * (ab + ac)) {
             Vec2::S::ZERO
         } else {
             area
-- 
2.43.0


From a029fe06243ae1acadc584621b0e44d75c81efae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 49/54] fix: let PathBuilder::start_at continue on the boundary
 of the mesh

The representative edge of the vertex may lie inside a face; closing a path
that ended at another vertex of the mesh then panicked.
---
 src/mesh/mesh/path_builder.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mesh/mesh/path_builder.rs b/src/mesh/mesh/path_builder.rs
index f182efe..dcbccd5 100644
--- a/src/mesh/mesh/path_builder.rs
+++ b/src/mesh/mesh/path_builder.rs
@@ -75,8 +75,16 @@ where
     {
         // TODO: implement this without requiring `HalfEdge`
 
-        if let Some(edge) = mesh.vertex(v).edge(mesh) {
-            Self::start_at_edge(mesh, edge.prev_id())
+        // The path continues on the boundary, but the representative edge might be part of a face.
+        let input = mesh
+            .vertex(v)
+            .edges_out(mesh)
+            .find(|e| e.is_boundary_self())
+            .or_else(|| mesh.vertex(v).edge(mesh))
+            .map(|e| e.prev_id());
+
+        if let Some(input) = input {
+            Self::start_at_edge(mesh, input)
         } else {
             Self {
                 closed: false,
-- 
2.43.0


From 3c2dcb05d4ce9a580821211dd681cddb5554168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 50/54] fix: skip lines without length when importing SVGs

A rectangle whose corner radius is half its width begins with such a line,
which was drawn from the start vertex to itself and panicked.
---
 src/extensions/svg/svg.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/extensions/svg/svg.rs b/src/extensions/svg/svg.rs
index ccdb9eb..6ff7906 100644
--- a/src/extensions/svg/svg.rs
+++ b/src/extensions/svg/svg.rs
@@ -55,6 +55,7 @@ where
     let mut pb = PathBuilder::<T, T::Trans>::new(mesh);
 
     let mut is_first = true;
+    let mut last = None;
     for s in path.data().segments() {
         match s {
             usvg::tiny_skia_path::PathSegment::MoveTo(p) => {
@@ -69,6 +70,10 @@ where
                 //pb = PathBuilder::<T>::start(mesh, v(p));
             }
             usvg::tiny_skia_path::PathSegment::LineTo(p) => {
+                // skip lines without length, e.g., between the corners of fully rounded rectangles
+                if last == Some(p) {
+                    continue;
+                }
                 let end = pb.add_vertex_autoclose(v(p));
                 pb.line_to(end);
             }
@@ -86,6 +91,13 @@ where
             }
         }
         is_first = false;
+        last = match s {
+            usvg::tiny_skia_path::PathSegment::MoveTo(p)
+            | usvg::tiny_skia_path::PathSegment::LineTo(p)
+            | usvg::tiny_skia_path::PathSegment::QuadTo(_, p)
+            | usvg::tiny_skia_path::PathSegment::CubicTo(_, _, p) => Some(p),
+            usvg::tiny_skia_path::PathSegment::Close => None,
+        };
     }
 
     if !pb.has_face() {
-- 
2.43.0


From 649e3969a55769d80708e05f7e1389363d5aecd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 51/54] fix: apply the transformation of use elements only once
 when importing SVGs

---
 src/extensions/svg/svg.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/extensions/svg/svg.rs b/src/extensions/svg/svg.rs
index 6ff7906..eee4e47 100644
--- a/src/extensions/svg/svg.rs
+++ b/src/extensions/svg/svg.rs
@@ -6,19 +6,25 @@ use crate::{
     },
 };
 
-fn import_group<T: EuclideanMeshType<2> + MeshTypeHalfEdge>(mesh: &mut T::Mesh, group: &usvg::Group)
-where
+fn import_group<T: EuclideanMeshType<2> + MeshTypeHalfEdge>(
+    mesh: &mut T::Mesh,
+    group: &usvg::Group,
+    transform: usvg::Transform,
+) where
     T::Edge: CurvedEdge<2, T>,
     T::EP: DefaultEdgePayload,
     T::FP: DefaultFacePayload,
 {
+    // `abs_transform` counts the transformation of `use` elements twice.
+    let transform = transform.pre_concat(group.transform());
+
     for c in group.children() {
         match c {
             usvg::Node::Group(g) => {
-                import_group::<T>(mesh, g.as_ref());
+                import_group::<T>(mesh, g.as_ref(), transform);
             }
             usvg::Node::Path(p) => {
-                import_path::<T>(mesh, p.as_ref());
+                import_path::<T>(mesh, p.as_ref(), transform);
             }
             usvg::Node::Text(t) => {
                 println!("Text: {:#?}", t);
@@ -32,8 +38,11 @@ where
     }
 }
 
-fn import_path<T: EuclideanMeshType<2> + MeshTypeHalfEdge>(mesh: &mut T::Mesh, path: &usvg::Path)
-where
+fn import_path<T: EuclideanMeshType<2> + MeshTypeHalfEdge>(
+    mesh: &mut T::Mesh,
+    path: &usvg::Path,
+    transform: usvg::Transform,
+) where
     T::Edge: CurvedEdge<2, T>,
     T::EP: DefaultEdgePayload,
     T::FP: DefaultFacePayload,
@@ -45,7 +54,6 @@ where
     // let fill = path.fill();
     // let stroke = path.stroke();
     // let po = path.paint_order();
-    let transform = path.abs_transform();
 
     let v = |mut p: usvg::tiny_skia_path::Point| {
         transform.map_point(&mut p);
@@ -133,5 +141,5 @@ where
         }
     }
     let tree = res.expect("Failed to parse SVG");
-    import_group::<T>(mesh, tree.root());
+    import_group::<T>(mesh, tree.root(), usvg::Transform::identity());
 }
-- 
2.43.0


From 78f64f56f8a75ca76b629ecb45665d4e7e28ac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:08 +0000
Subject: [PATCH 52/54] fix: the mutable iterator over the edges of a face
 created aliasing references

Every reference it returned was invalidated by the next call of next() (a new
borrow of the whole mesh), which is undefined behaviour when they are collected,
and the chain was followed through edges that the caller may have rewired.
The ids are now collected first and borrowed disjointly without unsafe code.
---
 src/halfedge/edge/iterator.rs | 52 +++++++++++++++--------------------
 src/halfedge/mesh/mod.rs      |  5 ++++
 src/util/deletable.rs         | 25 +++++++++++++++++
 3 files changed, 52 insertions(+), 30 deletions(-)

diff --git a/src/halfedge/edge/iterator.rs b/src/halfedge/edge/iterator.rs
index dc26490..56eaeee 100644
--- a/src/halfedge/edge/iterator.rs
+++ b/src/halfedge/edge/iterator.rs
@@ -5,8 +5,7 @@ use crate::{
 };
 
 impl<T: HalfEdgeImplMeshType> HalfEdgeImpl<T> {
-    /// Iterates all half-edges incident to the same face
-    /// WARNING: This method is unsafe because it allows mutable access to the mesh! Be careful!
+    /// Iterates all half-edges incident to the same face mutably
     #[inline(always)]
     pub fn edges_face_mut<'a>(&'a self, mesh: &'a mut T::Mesh) -> ForwardEdgeIteratorMut<'a, T> {
         ForwardEdgeIteratorMut::new(self.id(), mesh)
@@ -108,20 +107,26 @@ impl<'a, T: HalfEdgeImplMeshType> Iterator for BackwardEdgeIterator<'a, T> {
 
 /// Follows a chain of half-edges forwards (counter-clockwise) until reaching the start again
 pub struct ForwardEdgeIteratorMut<'a, T: HalfEdgeImplMeshType + 'a> {
-    is_first: bool,
-    first: T::E,
-    current: T::E,
-    mesh: &'a mut T::Mesh,
+    edges: std::vec::IntoIter<&'a mut HalfEdgeImpl<T>>,
 }
 
 impl<'a, T: HalfEdgeImplMeshType> ForwardEdgeIteratorMut<'a, T> {
     /// Creates a new iterator
     pub fn new(first: T::E, mesh: &'a mut T::Mesh) -> Self {
+        // The chain is followed before the edges are handed out since they could be modified
+        let mut ids = vec![first];
+        let mut next = mesh.edge(first).next_id();
+        while next != first {
+            ids.push(next);
+            assert!(
+                ids.len() <= mesh.num_edges(),
+                "The chain of edges doesn't return to {}",
+                first
+            );
+            next = mesh.edge(next).next_id();
+        }
         Self {
-            first,
-            current: first,
-            mesh,
-            is_first: true,
+            edges: mesh.edges_many_mut(&ids).into_iter(),
         }
     }
 }
@@ -129,26 +134,13 @@ impl<'a, T: HalfEdgeImplMeshType> ForwardEdgeIteratorMut<'a, T> {
 impl<'a, T: HalfEdgeImplMeshType> Iterator for ForwardEdgeIteratorMut<'a, T> {
     type Item = &'a mut HalfEdgeImpl<T>;
 
+    #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        // SAFETY: This unsafe block assumes exclusive access to `self.mesh`
-        // throughout the lifetime of the iterator. It is the caller's responsibility
-        // to ensure that no other mutable references to `self.mesh` exist during
-        // iteration to avoid undefined behavior.
-        // TODO: use a different pattern to avoid unsafe
-        unsafe {
-            if self.is_first {
-                self.is_first = false;
-                let edge_ptr = self.mesh.edge_mut(self.current) as *mut HalfEdgeImpl<T>;
-                return Some(&mut *edge_ptr);
-            }
-            let next = self.mesh.edge(self.current).next(self.mesh);
-            if next.id() == self.first {
-                return None;
-            } else {
-                self.current = next.id();
-                let edge_ptr = self.mesh.edge_mut(next.id()) as *mut HalfEdgeImpl<T>;
-                return Some(&mut *edge_ptr);
-            }
-        }
+        self.edges.next()
+    }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.edges.size_hint()
     }
 }
diff --git a/src/halfedge/mesh/mod.rs b/src/halfedge/mesh/mod.rs
index 6b6f6b0..2f6a859 100644
--- a/src/halfedge/mesh/mod.rs
+++ b/src/halfedge/mesh/mod.rs
@@ -44,6 +44,11 @@ impl<T: HalfEdgeImplMeshType> HalfEdgeMeshImpl<T> {
             payload: T::MP::default(),
         }
     }
+
+    /// Returns the given half-edges mutably, in the given order. Panics if one is given twice.
+    pub(crate) fn edges_many_mut(&mut self, ids: &[T::E]) -> Vec<&mut T::Edge> {
+        self.halfedges.get_many_mut(ids)
+    }
 }
 
 impl<T: HalfEdgeImplMeshType> Default for HalfEdgeMeshImpl<T> {
diff --git a/src/util/deletable.rs b/src/util/deletable.rs
index 6e4e67f..ce790c4 100644
--- a/src/util/deletable.rs
+++ b/src/util/deletable.rs
@@ -77,6 +77,31 @@ impl<T: Deletable<I>, I: IndexType> DeletableVector<T, I> {
         v
     }
 
+    /// Returns the requested elements mutably, in the given order.
+    /// Panics if one of them doesn't exist, is deleted, or is requested twice.
+    pub fn get_many_mut(&mut self, indices: &[I]) -> Vec<&mut T> {
+        let mut sorted: Vec<_> = indices.iter().map(|i| i.index()).enumerate().collect();
+        sorted.sort_unstable_by_key(|(_, index)| *index);
+        let mut result: Vec<Option<&mut T>> = indices.iter().map(|_| None).collect();
+        // cut the slice behind each of the elements
+        let mut rest = self.data.as_mut_slice();
+        let mut offset = 0;
+        for (position, index) in sorted {
+            assert!(index >= offset, "Tried to mutably access {} twice", index);
+            let (head, tail) = rest.split_at_mut(index + 1 - offset);
+            let v = head.last_mut().expect("the head ends with the element");
+            assert!(
+                !v.is_deleted(),
+                "Tried to mutably access deleted element at {}",
+                index
+            );
+            result[position] = Some(v);
+            rest = tail;
+            offset = index + 1;
+        }
+        result.into_iter().flatten().collect()
+    }
+
     /// Returns the number of non-deleted elements.
     pub fn len(&self) -> usize {
         self.data.len() - self.deleted.len()
-- 
2.43.0


From 563e292cacc5f0d8d736cbf6beecfb6f047a6aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:15 +0000
Subject: [PATCH 53/54] fix: the area check of triangulations accepted every
 area up to twice the area of the polygon

---
 src/mesh/triangulation.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mesh/triangulation.rs b/src/mesh/triangulation.rs
index add2549..534444b 100644
--- a/src/mesh/triangulation.rs
+++ b/src/mesh/triangulation.rs
@@ -309,13 +309,17 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
         vec2s: &Vec<IndexedVertex2D<V, Vec2>>,
         vec_hm: &HashMap<V, Vec2>,
     ) {
+        // relative to a vertex, since the area of a polygon far from the origin is inaccurate
+        let origin = vec2s[0].vec;
         let area = self.get_area(vec_hm);
-        let reference = Poly::from_iter(vec2s.iter().map(|v| v.vec)).area();
+        let reference = Poly::from_iter(vec2s.iter().map(|v| v.vec - origin)).area();
+        let scale = vec2s
+            .iter()
+            .fold(Vec2::S::ZERO, |s, v| s.max(v.vec.distance_squared(&origin)));
 
         // Check if the area of the polygon is the same as the sum of the areas of the triangles
         assert!(
-            (Vec2::S::ONE - area / reference).abs()
-                <= (Vec2::S::ONE + Vec2::S::from_usize(5) * Vec2::S::EPS),
+            (area - reference).abs() <= Vec2::S::EPS.sqrt() * scale,
             "Area of the polygon is not equal to the sum of the areas of the triangles ({} != {})",
             area,
             reference
-- 
2.43.0


From 71724164c264ef50bc372f79bca121f322b8e140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:22 +0000
Subject: [PATCH 54/54] fix: tolerate rounding errors of large degenerate
 triangles in verify_non_degenerate_triangle

---
 src/mesh/triangulation.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mesh/triangulation.rs b/src/mesh/triangulation.rs
index 534444b..694571f 100644
--- a/src/mesh/triangulation.rs
+++ b/src/mesh/triangulation.rs
@@ -186,9 +186,17 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
                 "Triangle has zero or negative area"
             );*/
             // degenerate triangles are ok. But not negative ones!
-            if !(area >= -Vec2::S::EPS.sqrt()) {
+            // for large triangles, the rounding errors grow with the size of the triangle
+            let (i0, i1, i2) = self.get_triangle(i);
+            let (a, b, c) = (vec_hm[&i0], vec_hm[&i1], vec_hm[&i2]);
+            let scale = Vec2::S::ONE
+                .max(a.distance_squared(&b))
+                .max(b.distance_squared(&c))
+                .max(c.distance_squared(&a));
+            let eps = Vec2::S::EPS.sqrt() * scale;
+            if !(area >= -eps) {
                 println!("Triangle area: {}", area);
-                assert!(area >= -Vec2::S::EPS.sqrt(), "Triangle has negative area");
+                assert!(area >= -eps, "Triangle has negative area");
             }
         }
     }
-- 
2.43.0

