From 67b320406eb45f91465c4aa275767b6e5942115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 1/9] fix: euclidean rect-rect distance is negative when the
 rects overlap on one axis

---
 src/geom/euclidean/math.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/geom/euclidean/math.rs b/src/geom/euclidean/math.rs
index d395e7c..3690656 100644
--- a/src/geom/euclidean/math.rs
+++ b/src/geom/euclidean/math.rs
@@ -13,10 +13,11 @@ where
     match (overlap_x, overlap_y) {
         // If there is any overlap, then the distance is zero
         (true, true) => T::zero(),
-        // When x overlaps, distance is the smallest y-difference,
+        // When x overlaps, distance is the only positive y-difference, as the
+        // other one is measured between the far edges and is negative,
         // and similarly for y-overlaps
-        (true, false) => (r1.min().y - r2.max().y).min(r2.min().y - r1.max().y),
-        (false, true) => (r1.min().x - r2.max().x).min(r2.min().x - r1.max().x),
+        (true, false) => (r1.min().y - r2.max().y).max(r2.min().y - r1.max().y),
+        (false, true) => (r1.min().x - r2.max().x).max(r2.min().x - r1.max().x),
         // When neither overlaps, take the distance from closest corners
         (false, false) => {
             let (x1, x2) = if r1.max().x < r2.min().x {
-- 
2.43.0


From 3ac5eef17a1156e391532c7ca1bca6a996387b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 2/9] fix: find_r skips cells at exactly the search radius,
 missing data at distance r

---
 src/quadtrees/bounds/mod.rs | 2 +-
 src/quadtrees/point/mod.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadtrees/bounds/mod.rs b/src/quadtrees/bounds/mod.rs
index 699e9ef..ad02e27 100644
--- a/src/quadtrees/bounds/mod.rs
+++ b/src/quadtrees/bounds/mod.rs
@@ -148,7 +148,7 @@ where
             // No need to check the children if the bounds are too far,
             // checking bounds is cheaper then checking each child
             let bounds_dist = cmp.dist_bbox(node.bounds())?;
-            if bounds_dist >= min_dist {
+            if bounds_dist > min_dist {
                 continue;
             }
 
diff --git a/src/quadtrees/point/mod.rs b/src/quadtrees/point/mod.rs
index 79f7c7a..2e92591 100644
--- a/src/quadtrees/point/mod.rs
+++ b/src/quadtrees/point/mod.rs
@@ -180,7 +180,7 @@ where
             // processed - skip processing if the edge of the node is further
             // than the current
             let bounds_dist = cmp.dist_bbox(node.bounds())?;
-            if bounds_dist >= min_dist {
+            if bounds_dist > min_dist {
                 continue;
             }
 
-- 
2.43.0


From f5b4819023d4939901923d8ae02eef91eaec5dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 3/9] fix: knn returns one result when asked for zero
 neighbours

---
 src/quadtrees/knn.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/quadtrees/knn.rs b/src/quadtrees/knn.rs
index c221608..0211327 100644
--- a/src/quadtrees/knn.rs
+++ b/src/quadtrees/knn.rs
@@ -26,6 +26,11 @@ where
         return Err(Error::OutOfBounds);
     }
 
+    // The result can never hold more than k items
+    if k == 0 {
+        return Ok(vec![]);
+    }
+
     // We work on a tuple that contains the distance plus an enum
     // containing either a child or a node, and start by seeding the root
     let mut work_stack = vec![(NodeType::Node(root), root_d)];
-- 
2.43.0


From 3683dd51cdb4a0ea54031a4f0c5d2cec9cfebf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 4/9] fix: haversine distance from a LineString to a Point is
 rejected although the reverse is supported

---
 src/geom/spherical/dist.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geom/spherical/dist.rs b/src/geom/spherical/dist.rs
index 77d7399..86bcdb3 100644
--- a/src/geom/spherical/dist.rs
+++ b/src/geom/spherical/dist.rs
@@ -70,7 +70,7 @@ where
 {
     fn dist_haversine(&self, rhs: &GeometryRef<T>) -> Result<T, Error> {
         match rhs {
-            GeometryRef::Point(_) => Err(Error::InvalidDistance),
+            GeometryRef::Point(d) => Ok(dist_pt_linestring(d, self)),
             GeometryRef::Line(_) => Err(Error::InvalidDistance),
             GeometryRef::LineString(_) => Err(Error::InvalidDistance),
             GeometryRef::Polygon(_) => Err(Error::InvalidDistance),
-- 
2.43.0


From 28935f43ba2acd039efd0355fac88bf08d81adb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 5/9] fix: sorted overflows the call stack when many nodes
 precede the next datum

---
 src/quadtrees/sorted.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/quadtrees/sorted.rs b/src/quadtrees/sorted.rs
index c11ed7c..664a075 100644
--- a/src/quadtrees/sorted.rs
+++ b/src/quadtrees/sorted.rs
@@ -1,3 +1,5 @@
+use std::ops::ControlFlow;
+
 use crate::*;
 
 /// Iterator to output QuadTree data in distance-sorted order.
@@ -25,6 +27,25 @@ where
     type Item = (&'a D, T);
 
     fn next(&mut self) -> Option<Self::Item> {
+        // Any number of nodes can come off the stack before the next child does,
+        // so this must loop instead of recursing to keep within the call stack
+        loop {
+            if let ControlFlow::Break(item) = self.step() {
+                return item;
+            }
+        }
+    }
+}
+
+impl<'a, N, D, T> SortIter<'a, N, D, T>
+where
+    N: Node<D, T>,
+    D: AsGeom<T>,
+    T: QtFloat,
+{
+    /// Process the closest item on the stack, breaking once there is something
+    /// for the iterator to emit.
+    fn step(&mut self) -> ControlFlow<Option<(&'a D, T)>> {
         // 1. Sort the stack in distance-descending order
         //    Only do this if the is_sorted flag is false
         if !self.is_sorted {
@@ -35,17 +56,19 @@ where
         }
 
         // 2. Return early if the stack is empty
-        let (item, d) = self.stack.pop()?;
+        let Some((item, d)) = self.stack.pop() else {
+            return ControlFlow::Break(None);
+        };
 
         // Now process the rest in a match
         match item {
             // 2. Process any children at the top of the stack
             //    No need to re-sort as no pushing
-            NodeType::Child(child) => Some((child, d)),
+            NodeType::Child(child) => ControlFlow::Break(Some((child, d))),
 
             // 3. Push sub-nodes and children onto the stack
             //    Set the flag to re-sort because new items hve been added
-            //    Then recurse because we have not returned anything
+            //    Then continue because we have not returned anything
             NodeType::Node(node) => {
                 for child in node.children() {
                     if let Some(d) = self
@@ -72,7 +95,7 @@ where
                 }
 
                 self.is_sorted = false;
-                self.next()
+                ControlFlow::Continue(())
             }
 
             // This is PhantomData
-- 
2.43.0


From d968b1a810c8146cd5b6b4649c8e907f64f31480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 6/9] fix: spherical point-rect distance exceeds the true
 distance at high latitudes and across the antimeridian

---
 src/geom/spherical/math.rs | 42 ++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/geom/spherical/math.rs b/src/geom/spherical/math.rs
index 47b36b1..2f0f4f6 100644
--- a/src/geom/spherical/math.rs
+++ b/src/geom/spherical/math.rs
@@ -164,6 +164,28 @@ where
     min_dist
 }
 
+/// Calculate the great circle distance between a [`Point`] and the segment of
+/// the meridian at `lng` between two latitudes.
+///
+/// The closest point on a meridian is not at the latitude of the point, but
+/// shifts towards the pole as the points get further apart.
+fn dist_pt_meridian<T>(pt: &Point<T>, lng: T, min_lat: T, max_lat: T) -> T
+where
+    T: GeoFloat,
+{
+    let (x, y) = pt.x_y();
+    let dist = dist_pt_pt(pt, &p!(lng, min_lat)).min(dist_pt_pt(pt, &p!(lng, max_lat)));
+
+    // Latitude of the closest point on the great circle of the meridian, which
+    // is beyond the pole if not in the same hemisphere
+    let lat = y.sin().atan2(y.cos() * (x - lng).cos());
+    if lat > min_lat && lat < max_lat {
+        dist.min(dist_pt_pt(pt, &p!(lng, lat)))
+    } else {
+        dist
+    }
+}
+
 /// Calculate the great circle distance between a [`Point`] and a [`Rect`]
 /// using the Haversine formula.
 ///
@@ -181,17 +203,15 @@ where
         return T::zero();
     }
 
-    // Take the "left" edge whenever the point is to the left of the rect and
-    // the right edge whenever its to the right of the rect. This works even
-    // when diagonal to these edges as in these cases the closest point is the
-    // corner, which is shared with the other candidate line.
-    let line = if x < rect.min().x {
-        // smallest x-value
-        l!(rect.min().x, rect.min().y, rect.min().x, rect.max().y)
-    } else if x > rect.max().x {
-        // largest x-value
-        l!(rect.max().x, rect.min().y, rect.max().x, rect.max().y)
-    } else if y < rect.min().y {
+    // Outside of the lng range the closest point is always on one of the "left"
+    // or "right" edges, noting that either may be closest due to lng wrapping.
+    if x < rect.min().x || x > rect.max().x {
+        let left = dist_pt_meridian(pt, rect.min().x, rect.min().y, rect.max().y);
+        let right = dist_pt_meridian(pt, rect.max().x, rect.min().y, rect.max().y);
+        return left.min(right);
+    }
+
+    let line = if y < rect.min().y {
         // smallest y-value
         l!(rect.min().x, rect.min().y, rect.max().x, rect.min().y)
     } else {
-- 
2.43.0


From e1ecd29827b3feae2702235a6ff9bb1f1d4c977f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 7/9] fix: spherical searches from a Rect discard cells that
 hold the closest data

---
 src/geom/mod.rs            |  7 ++++++-
 src/geom/spherical/math.rs | 24 ++++++++++++++++++++++++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/geom/mod.rs b/src/geom/mod.rs
index a3a4210..f77bf31 100644
--- a/src/geom/mod.rs
+++ b/src/geom/mod.rs
@@ -11,6 +11,7 @@ use rstar::RTreeNum;
 pub use euclidean::dist::DistEuclidean;
 pub(crate) use math::*;
 pub use spherical::dist::DistHaversine;
+use spherical::math::min_dist_rect_rect;
 
 use crate::{Error, GeometryRef};
 
@@ -72,7 +73,11 @@ where
         match self.method {
             CalcMethod::None => Err(Error::CalcMethodNotSet),
             CalcMethod::Euclidean => Ok(bbox.dist_euclidean(&self.geom)),
-            CalcMethod::Spherical => bbox.dist_haversine(&self.geom),
+            CalcMethod::Spherical => match &self.geom {
+                // Searches rely on this never exceeding the distance to the contents of the bbox
+                GeometryRef::Rect(d) => Ok(min_dist_rect_rect(bbox, d)),
+                geom => bbox.dist_haversine(geom),
+            },
         }
     }
 }
diff --git a/src/geom/spherical/math.rs b/src/geom/spherical/math.rs
index 2f0f4f6..d526e67 100644
--- a/src/geom/spherical/math.rs
+++ b/src/geom/spherical/math.rs
@@ -306,6 +306,30 @@ where
     }
 }
 
+/// Calculate a lower bound for the great circle distance between anything inside
+/// one [`Rect`] and anything inside another.
+///
+/// The pair of points measured by [`dist_rect_rect`] is not always the closest
+/// one, but one of the closest pair is always a corner.
+///
+/// Inputs and outputs are in radians. Convert radians to a linear distance by
+/// multiplying by the sphere's radius.
+pub fn min_dist_rect_rect<T>(r1: &Rect<T>, r2: &Rect<T>) -> T
+where
+    T: GeoFloat,
+{
+    let mut dist = dist_rect_rect(r1, r2);
+    for (from, to) in [(r1, r2), (r2, r1)] {
+        for x in [from.min().x, from.max().x] {
+            for y in [from.min().y, from.max().y] {
+                dist = dist.min(dist_pt_rect(&p!(x, y), to));
+            }
+        }
+    }
+
+    dist
+}
+
 /// Calculate the great circle distance between a [`Point`] and an arbitrary [`Polygon`] using the
 /// Haversine formula.
 ///
-- 
2.43.0


From 670d21f461bd98150c8a72709c1ac7b8c4cd1f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 8/9] fix: fail with InvalidDistance on geometries geo cannot
 measure, instead of panicking

Linestrings and polygons without segments or with non-finite coordinates make the Euclidean
distance algorithms panic inside geo. Such a linestring can be inserted (it has a bounding box)
and then made every search that examines it panic.
---
 src/geom/mod.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/geom/mod.rs b/src/geom/mod.rs
index f77bf31..5b4da09 100644
--- a/src/geom/mod.rs
+++ b/src/geom/mod.rs
@@ -62,7 +62,11 @@ where
     pub fn dist_geom(&self, geom: &GeometryRef<T>) -> Result<T, crate::Error> {
         match self.method {
             CalcMethod::None => Err(Error::CalcMethodNotSet),
-            CalcMethod::Euclidean => Ok(self.geom.dist_euclidean(geom)),
+            CalcMethod::Euclidean => {
+                check_measurable(&self.geom)?;
+                check_measurable(geom)?;
+                Ok(self.geom.dist_euclidean(geom))
+            }
             CalcMethod::Spherical => self.geom.dist_haversine(geom),
         }
     }
@@ -72,7 +76,10 @@ where
     pub fn dist_bbox(&self, bbox: &Rect<T>) -> Result<T, crate::Error> {
         match self.method {
             CalcMethod::None => Err(Error::CalcMethodNotSet),
-            CalcMethod::Euclidean => Ok(bbox.dist_euclidean(&self.geom)),
+            CalcMethod::Euclidean => {
+                check_measurable(&self.geom)?;
+                Ok(bbox.dist_euclidean(&self.geom))
+            }
             CalcMethod::Spherical => match &self.geom {
                 // Searches rely on this never exceeding the distance to the contents of the bbox
                 GeometryRef::Rect(d) => Ok(min_dist_rect_rect(bbox, d)),
@@ -82,6 +89,29 @@ where
     }
 }
 
+/// Error on geometries that have no Euclidean distance to anything, as the algorithms in geo panic
+/// when given a linestring or polygon with no segments or with non-finite coordinates.
+fn check_measurable<T>(geom: &GeometryRef<T>) -> Result<(), Error>
+where
+    T: QtFloat,
+{
+    let is_ok = |ls: &LineString<T>| {
+        ls.0.len() > 1 && ls.0.iter().all(|c| c.x.is_finite() && c.y.is_finite())
+    };
+
+    let valid = match geom {
+        GeometryRef::LineString(d) => is_ok(d),
+        GeometryRef::Polygon(d) => is_ok(d.exterior()) && d.interiors().iter().all(is_ok),
+        _ => true,
+    };
+
+    if valid {
+        Ok(())
+    } else {
+        Err(Error::InvalidDistance)
+    }
+}
+
 /// The main constraint for QuadTree input data. Both inserted items and test comparators must
 /// implement [`AsGeom`] to be used in any [`QuadTree`] implementation. It provides a methos that
 /// converts an arbitrary geometry, or any custom type containing some form of geometry into a
-- 
2.43.0


From 380908973df881d659add3b0f480248c4642e4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:23 +0000
Subject: [PATCH 9/9] fix: spherical distance between nearly antipodal points
 may be NaN

---
 src/geom/spherical/math.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geom/spherical/math.rs b/src/geom/spherical/math.rs
index d526e67..bbe56f6 100644
--- a/src/geom/spherical/math.rs
+++ b/src/geom/spherical/math.rs
@@ -95,6 +95,10 @@ where
     let a = (delta_theta / two).sin().powi(2)
         + theta1.cos() * theta2.cos() * (delta_lambda / two).sin().powi(2);
 
+    // Rounding may take this beyond one for nearly antipodal points, where the
+    // arcsine is not defined
+    let a = if a > T::one() { T::one() } else { a };
+
     two * a.sqrt().asin()
 }
 
-- 
2.43.0

