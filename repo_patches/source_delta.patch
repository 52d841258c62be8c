From 18950938d6f632af8436e1f8de709f5e650ce30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 01/11] fix: fill the concave node after next in
 fill_right_convex_edge_event

The concave test is done at next.next, but the fill was started one node too early,
at next, which is convex there: a clockwise triangle was put into the mesh (and later
unwraps failed).  The left version and the original poly2tri start at next.
---
 src/sweeper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index e0b9341..a843f4d 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -695,7 +695,7 @@ impl Sweeper<'_> {
         .is_ccw()
         {
             // concave
-            self.fill_right_concave_edge_event(edge, node_id, observer);
+            self.fill_right_concave_edge_event(edge, next_node.get_node_id(), observer);
         } else {
             // convex
             // next above or below edge?
-- 
2.43.0


From a01ef740a48ea239327aa0729921e811aa9fbac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 02/11] fix: decide with the exact predicate whether a front
 node is a hole

The rounded cross product in Angle can be 0 or positive for a slightly reflex node, which
was then filled with a clockwise triangle.
---
 src/sweeper.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index a843f4d..8d70848 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -442,7 +442,9 @@ impl Sweeper<'_> {
 
         let angle = crate::utils::Angle::new(node.point(), next.point(), prev_node.point());
 
-        if angle.is_negative() {
+        if angle.is_negative()
+            || orient_2d(prev_node.point(), node.point(), next.point()).is_cw()
+        {
             // negative means next -> node -> prev is cw, then it is not a hole
             return true;
         } else if !angle.exceeds_90_degree() {
-- 
2.43.0


From fbf2874b1e82920bf8d64a63088ee366a1cf6bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 03/11] fix: do not treat close x coordinates as equal in
 point_event

With coordinates closer than EPSILON a node left of the new point was filled although the
triangle is clockwise; small scale input looped forever.
---
 src/sweeper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index 8d70848..e0e27fd 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -140,7 +140,7 @@ impl Sweeper<'_> {
 
         // in middle case, the node's x should be less than point'x
         // in left case, they are same.
-        if point.x <= node_point.x + Float::EPSILON {
+        if point.x <= node_point.x {
             self.fill_one(node_id, observer);
         }
 
-- 
2.43.0


From 3be164fd601cbf7553613d3c5769f0cbb6352f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 04/11] fix: use the exact orientation predicate in
 in_scan_area

The absolute EPSILON rejected every flip on small scale input (endless recursion) and the
rounded cross product could accept a flip of a non convex pair.
---
 src/utils.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 5617e0f..eb6a368 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -61,17 +61,8 @@ pub fn in_circle(pa: Point, pb: Point, pc: Point, pd: Point) -> bool {
 }
 
 pub fn in_scan_area(a: Point, b: Point, c: Point, d: Point) -> bool {
-    let oadb = (a.x - b.x) * (d.y - b.y) - (d.x - b.x) * (a.y - b.y);
-    if oadb >= -Float::EPSILON {
-        return false;
-    }
-
-    let oadc = (a.x - c.x) * (d.y - c.y) - (d.x - c.x) * (a.y - c.y);
-    if oadc <= Float::EPSILON {
-        return false;
-    }
-
-    true
+    let co = |p: Point| robust::Coord { x: p.x, y: p.y };
+    robust::orient2d(co(a), co(d), co(b)) < 0. && robust::orient2d(co(a), co(d), co(c)) > 0.
 }
 
 #[derive(Debug, Clone, Copy)]
-- 
2.43.0


From acd668011978b30308f4faca67f3c4756f70eb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 05/11] fix: mark both sides of a collinear constrained edge

Only one of the two triangles got the flag, so the interior leaked through the edge.
---
 src/sweeper.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index e0e27fd..f404a5e 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -847,10 +847,8 @@ impl Sweeper<'_> {
         );
 
         if o1.is_collinear() {
-            if let Some(edge_index) = triangle.edge_index(eq, p1) {
-                triangle.set_constrained(edge_index, true);
-
-                let neighbor_across_t = triangle.neighbor_across(p);
+            let neighbor_across_t = triangle.neighbor_across(p);
+            if self.try_mark_edge_for_triangle(eq, p1, triangle_id) {
                 self.edge_event_process(
                     ep,
                     p1,
@@ -872,10 +870,8 @@ impl Sweeper<'_> {
             ep.get(&self.points),
         );
         if o2.is_collinear() {
-            if let Some(edge_index) = triangle.edge_index(eq, p2) {
-                triangle.set_constrained(edge_index, true);
-
-                let neighbor_across_t = triangle.neighbor_across(p);
+            let neighbor_across_t = triangle.neighbor_across(p);
+            if self.try_mark_edge_for_triangle(eq, p2, triangle_id) {
                 self.edge_event_process(
                     ep,
                     p2,
-- 
2.43.0


From a338d345daa26bd54f80f967bf137551279cd418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 06/11] fix: check the neighbor before dereferencing it in
 flip_edge_event

Without a neighbor across, get_unchecked was called with usize::MAX (undefined behaviour in
release builds).
---
 src/sweeper.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index f404a5e..142ae02 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -916,6 +916,9 @@ impl Sweeper<'_> {
     ) {
         let t = triangle_id.get(&self.triangles);
         let ot_id = t.neighbor_across(p);
+        if ot_id.invalid() {
+            panic!("flip_edge_event - null neighbor across");
+        }
         let ot = ot_id.get(&self.triangles);
         let op = ot.opposite_point(t, p);
 
-- 
2.43.0


From 98c2e2daedebe017c4ae7bf2c9a9623a4f3e8038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 07/11] fix: never flip a constrained edge away

When two input edges cross, the edge inserted first was silently removed from the mesh.
---
 src/sweeper.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index 142ae02..2d850a6 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -928,6 +928,9 @@ impl Sweeper<'_> {
             t.point_cw(p).get(&self.points),
             op.get(&self.points),
         ) {
+            if t.is_constrained(t.point_index(p).unwrap()) {
+                panic!("flip_edge_event - intersecting constraints");
+            }
             // lets rotate shared edge one vertex cw
             if self.rotate_triangle_pair(triangle_id, p, ot_id, op) {
                 self.map_triangle_to_nodes(triangle_id);
-- 
2.43.0


From 7a126bccc75cd2099f1c1d759d5294491f06ca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 08/11] fix: points outside of the polyline must not change the
 result

The start triangle was searched at the first node of the advancing front, which only works when
that node is a polyline vertex; with a point outside the polyline the result was empty or
covered the outside.  Flood the exterior instead and start behind the constrained edges.
---
 src/sweeper.rs | 57 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index 2d850a6..74d601c 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -58,31 +58,54 @@ impl Sweeper<'_> {
         }
     }
 
-    pub(crate) fn finalize_polygon(&mut self) -> Option<()> {
-        // get an internal triangle to start with
-        // the first node is head, artificial point, so skip
-        let node = self.advancing_front.nth(1)?;
+    pub(crate) fn finalize_polygon(&mut self) {
+        // Everything reachable from outside the mesh without crossing a constrained edge
+        // is exterior; the triangles just across a constrained edge seed the interior.
+        let mut exterior = vec![false; self.triangles.len()];
+        let mut pending = Vec::<TriangleId>::new();
+        let mut interior_seeds = Vec::<TriangleId>::new();
+
+        for index in 0..self.triangles.len() {
+            let id = TriangleId::from_index(index);
+            let tri = id.get(&self.triangles);
+            for i in 0..3 {
+                if tri.points[i] == self.points.head || tri.points[i] == self.points.tail {
+                    pending.push(id);
+                } else if tri.neighbors[i].invalid() {
+                    if tri.is_constrained(i) {
+                        interior_seeds.push(id);
+                    } else {
+                        pending.push(id);
+                    }
+                }
+            }
+        }
 
-        let mut t = node.triangle?;
+        while let Some(id) = pending.pop() {
+            if exterior[id.as_usize()] {
+                continue;
+            }
+            exterior[id.as_usize()] = true;
 
-        loop {
-            if let Some(tri) = self.triangles.get(t) {
-                if !tri.constrained_edge_cw(node.point_id()) {
-                    t = tri.neighbor_ccw(node.point_id());
+            let tri = id.get(&self.triangles);
+            for i in 0..3 {
+                let neighbor = tri.neighbors[i];
+                if neighbor.invalid() {
+                    continue;
+                }
+                if tri.is_constrained(i) {
+                    interior_seeds.push(neighbor);
                 } else {
-                    break;
+                    pending.push(neighbor);
                 }
-            } else {
-                // no valid triangle found, just break
-                break;
             }
         }
 
-        if !t.invalid() {
-            self.clean_mesh(t);
+        for id in interior_seeds {
+            if !exterior[id.as_usize()] && !id.get(&self.triangles).interior {
+                self.clean_mesh(id);
+            }
         }
-
-        Some(())
     }
 
     fn clean_mesh(&mut self, triangle_id: TriangleId) -> Option<()> {
-- 
2.43.0


From 9bb5c4f95807c48059b5e423c4c6fc44579a51ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 09/11] fix: report malformed files as LoaderError instead of
 panicking

---
 src/loader.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/loader.rs b/src/loader.rs
index 71684cf..231ef4c 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -30,7 +30,7 @@ impl Loader for PlainFileLoader {
     fn load(&mut self, path: &str) -> Result<Builder, LoaderError> {
         let mut f = std::fs::File::options().read(true).open(path)?;
         let mut value = "".to_string();
-        std::io::Read::read_to_string(&mut f, &mut value).unwrap();
+        std::io::Read::read_to_string(&mut f, &mut value)?;
 
         let mut state = ParseState::default();
         let mut polygon = vec![];
@@ -75,10 +75,15 @@ fn parse_point(line: &str) -> Result<Option<Point>, LoaderError> {
         return Ok(None);
     }
     let mut iter = line.split_whitespace();
-    let x = iter.next().unwrap();
-    let y = iter.next().unwrap();
-    let x = x.parse::<Float>().unwrap();
-    let y = y.parse::<Float>().unwrap();
+    let (Some(x), Some(y)) = (iter.next(), iter.next()) else {
+        return Err(LoaderError::Inner("a point needs two coordinates".into()));
+    };
+    let x = x
+        .parse::<Float>()
+        .map_err(|e| LoaderError::Inner(e.into()))?;
+    let y = y
+        .parse::<Float>()
+        .map_err(|e| LoaderError::Inner(e.into()))?;
 
     Ok(Some(Point::new(x, y)))
 }
-- 
2.43.0


From c320ede91f3d8637ca0c294d9ebdf49b324e8479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 10/11] fix: keep the helper points strictly outside of the
 input

---
 src/points.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/points.rs b/src/points.rs
index 3f137fb..cfb87e7 100644
--- a/src/points.rs
+++ b/src/points.rs
@@ -164,12 +164,18 @@ impl Points {
             let dx = (xmax - xmin) * 0.3;
             let dy = (ymax - ymin) * 0.3;
 
-            let head = Point::new(xmin - dx, ymin - dy);
+            // the helper points must lie strictly outside, even if the spread
+            // of the points is zero or lost to rounding
+            let left = (xmin - dx).min(xmin.next_down());
+            let right = (xmax + dx).max(xmax.next_up());
+            let bottom = (ymin - dy).min(ymin.next_down());
+
+            let head = Point::new(left, bottom);
             let head_id = PointId(points.len() as NumType);
             points.push(head);
             edges.push(PointEdges::None);
 
-            let tail = Point::new(xmax + dx, ymin - dy);
+            let tail = Point::new(right, bottom);
             let tail_id = PointId(points.len() as NumType);
             points.push(tail);
             edges.push(PointEdges::None);
-- 
2.43.0


From bbd124c5d0b9c80a44641be93b3fae53e7df2dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:02 +0000
Subject: [PATCH 11/11] fix: do not mark past the end of an edge

Where the front is filled along a straight line a triangle without area can
cover the end point of an edge by a longer one. Walking along the line then
missed the end point and marked edges behind it as constrained.
---
 src/sweeper.rs | 37 +++++++++++++++++++++++++++++++++----
 src/utils.rs   |  6 ++++++
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index 74d601c..66033f7 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -3,7 +3,7 @@ use crate::{
     points::Points,
     shape::InnerTriangle,
     triangles::TriangleStore,
-    utils::{in_circle, in_scan_area, orient_2d, Angle, Orientation},
+    utils::{in_circle, in_scan_area, is_between, orient_2d, Angle, Orientation},
     Edge, Float, Observer, Point, PointId, TriangleId,
 };
 
@@ -869,7 +869,15 @@ impl Sweeper<'_> {
             ep.get(&self.points),
         );
 
-        if o1.is_collinear() {
+        // a point on the line behind `ep` is no part of the edge: `ep` is then a corner of a
+        // triangle without area on the other side
+        let past1 = o1.is_collinear()
+            && !is_between(
+                eq.get(&self.points),
+                ep.get(&self.points),
+                p1.get(&self.points),
+            );
+        if o1.is_collinear() && !past1 {
             let neighbor_across_t = triangle.neighbor_across(p);
             if self.try_mark_edge_for_triangle(eq, p1, triangle_id) {
                 self.edge_event_process(
@@ -892,7 +900,13 @@ impl Sweeper<'_> {
             p2.get(&self.points),
             ep.get(&self.points),
         );
-        if o2.is_collinear() {
+        let past2 = o2.is_collinear()
+            && !is_between(
+                eq.get(&self.points),
+                ep.get(&self.points),
+                p2.get(&self.points),
+            );
+        if o2.is_collinear() && !past2 {
             let neighbor_across_t = triangle.neighbor_across(p);
             if self.try_mark_edge_for_triangle(eq, p2, triangle_id) {
                 self.edge_event_process(
@@ -910,7 +924,22 @@ impl Sweeper<'_> {
             }
         }
 
-        if o1 == o2 {
+        if past1 || past2 {
+            // cross the edge that covers `ep`, the nearer one if both do
+            let nearer2 = past2
+                && is_between(
+                    eq.get(&self.points),
+                    p1.get(&self.points),
+                    p2.get(&self.points),
+                );
+            let triangle_id = if past1 && !nearer2 {
+                triangle.neighbor_ccw(p)
+            } else {
+                triangle.neighbor_cw(p)
+            };
+
+            self.edge_event_process(ep, eq, constrain_edge, triangle_id, p, triangle_ids);
+        } else if o1 == o2 {
             // need to decide if we are rotating cw or ccw to get to a triangle
             // that will cross edge
             let triangle_id = if o1.is_cw() {
diff --git a/src/utils.rs b/src/utils.rs
index eb6a368..10bd8ba 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -49,6 +49,12 @@ pub fn orient_2d(a: Point, b: Point, c: Point) -> Orientation {
     }
 }
 
+/// whether p, a point on the line through a and b, lies between them
+pub fn is_between(a: Point, b: Point, p: Point) -> bool {
+    ((a.x <= p.x && p.x <= b.x) || (b.x <= p.x && p.x <= a.x))
+        && ((a.y <= p.y && p.y <= b.y) || (b.y <= p.y && p.y <= a.y))
+}
+
 /// check whether pd is in circle defined by pa, pb, pc
 /// requirements: pa is known to be opposite side with pd.
 pub fn in_circle(pa: Point, pb: Point, pc: Point, pd: Point) -> bool {
-- 
2.43.0

