From 6166628d2c3008f97d56bfd6714d87331eb5e592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:53 +0000
Subject: [PATCH 01/19] fix: compute areas in 128 bits so large rings do not
 overflow

---
 src/clip/topology.rs |  2 +-
 src/geo/mod.rs       | 24 ++++++++++++------------
 src/normalize.rs     |  4 ++--
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index 14bd58f..a7c23a4 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -170,7 +170,7 @@ impl<Data: Clone> Builder<Data> {
     fn clip_ring(&mut self, ring: &TopoRing<Data>) -> Option<BuildRing> {
         let mut ret: Vec<BuildDirectedEdge> = Vec::with_capacity(2 * ring.directed_edges.len());
 
-        let mut area2: i64 = 0;
+        let mut area2: i128 = 0;
         let mut start_point: Option<Point> = None;
         let mut previous_point: Option<Point> = None;
 
diff --git a/src/geo/mod.rs b/src/geo/mod.rs
index f1d6118..6b8fb7e 100644
--- a/src/geo/mod.rs
+++ b/src/geo/mod.rs
@@ -88,12 +88,12 @@ pub enum WindingOrder {
 ///
 /// You can call this method on each edge in turn and sum the results to arrive
 /// at the total area (and implicit winding order).
-pub fn signed_area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> i64 {
+pub fn signed_area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> i128 {
     // https://en.wikipedia.org/wiki/Shoelace_formula
-    let mut a: i64 = 0;
+    let mut a: i128 = 0;
 
     for (p1, p2) in points.into_iter().tuple_windows() {
-        a += (p1.0 as i64) * (p2.1 as i64) - (p2.0 as i64) * (p1.1 as i64)
+        a += (p1.0 as i128) * (p2.1 as i128) - (p2.0 as i128) * (p1.1 as i128)
     }
 
     a
@@ -108,20 +108,20 @@ pub fn signed_area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> i64 {
 /// A zero-area Ring is considered to be Clockwise.
 ///
 /// Assumes the first and last Points are identical.
-pub fn area2_and_winding_order<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> (u64, WindingOrder) {
+pub fn area2_and_winding_order<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> (u128, WindingOrder) {
     let a = signed_area2(points);
 
     if a >= 0 {
-        (a as u64, WindingOrder::Clockwise)
+        (a as u128, WindingOrder::Clockwise)
     } else {
-        (-a as u64, WindingOrder::CounterClockwise)
+        (-a as u128, WindingOrder::CounterClockwise)
     }
 }
 
 /// Returns 2*area
 ///
 /// Assumes the first and last Points are identical.
-pub fn area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> u64 {
+pub fn area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> u128 {
     area2_and_winding_order(points).0
 }
 
@@ -168,7 +168,7 @@ impl Ring {
     }
 
     /// Returns 2*area
-    pub fn area2(&self) -> u64 {
+    pub fn area2(&self) -> u128 {
         self.area2_and_winding_order().0
     }
 
@@ -179,18 +179,18 @@ impl Ring {
     /// coordinates.
     ///
     /// A zero-area Ring is considered to be Clockwise.
-    pub fn area2_and_winding_order(&self) -> (u64, WindingOrder) {
+    pub fn area2_and_winding_order(&self) -> (u128, WindingOrder) {
         match self {
             &Ring::Edges(ref edges) => {
-                let mut a: i64 = 0;
+                let mut a: i128 = 0;
                 for edge in edges.iter() {
                     a += signed_area2(edge.0.iter());
                 }
 
                 if a >= 0 {
-                    (a as u64, WindingOrder::Clockwise)
+                    (a as u128, WindingOrder::Clockwise)
                 } else {
-                    (-a as u64, WindingOrder::CounterClockwise)
+                    (-a as u128, WindingOrder::CounterClockwise)
                 }
             }
             &Ring::Points(ref points) => area2_and_winding_order(points.iter()),
diff --git a/src/normalize.rs b/src/normalize.rs
index 4b9932b..6effa96 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -190,11 +190,11 @@ fn join_related_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
 
 fn calculate_winding_order_from_edges<T>(edges: &Vec<NormEdge<T>>) -> WindingOrder {
     // https://en.wikipedia.org/wiki/Shoelace_formula
-    let mut a: i64 = 0;
+    let mut a: i128 = 0;
 
     for ref edge in edges {
         for (p1, p2) in edge.points.iter().tuple_windows() {
-            a += (p1.0 as i64) * (p2.1 as i64) - (p2.0 as i64) * (p1.1 as i64)
+            a += (p1.0 as i128) * (p2.1 as i128) - (p2.0 as i128) * (p1.1 as i128)
         }
     }
 
-- 
2.43.0


From 72b4c83ff618041f7f23be2f8a9ce66474eb9a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:45 +0000
Subject: [PATCH 02/19] fix: box regions and edges before taking pointers to
 them

---
 src/clip/topology.rs  | 10 +++++++---
 src/topology/build.rs | 10 ++++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index a7c23a4..f4ec409 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -250,8 +250,12 @@ impl<Data: Clone> Builder<Data> {
             }
         }));
 
+        // Box edges and regions _before_ pointing to their elements: boxing a
+        // Vec may move its contents.
+        let edges: Box<[TopoEdge<Data>]> = edges.into_boxed_slice();
+
         // Build regions and their rings. Make all region pointers null.
-        let mut regions: Vec<TopoRegion<Data>> = self.regions.into_iter().map(|build_region| {
+        let mut regions: Box<[TopoRegion<Data>]> = self.regions.into_iter().map(|build_region| {
             let BuildRegion { data, outer_rings, inner_rings } = build_region;
             let topo_outer_rings: Vec<TopoRing<Data>> = outer_rings.into_iter()
                 .map(|r| build_ring_to_topo_ring_with_null_ptrs(&edges[..], &r)).collect();
@@ -289,8 +293,8 @@ impl<Data: Clone> Builder<Data> {
         }
 
         Topology {
-            regions: regions.into_boxed_slice(),
-            edges: edges.into_boxed_slice(),
+            regions: regions,
+            edges: edges,
         }
     }
 }
diff --git a/src/topology/build.rs b/src/topology/build.rs
index 66c943a..774ec96 100644
--- a/src/topology/build.rs
+++ b/src/topology/build.rs
@@ -145,11 +145,13 @@ impl<Data> TopologyBuilder<Data>
             })
         }
 
-        let edges: Vec<TopoEdge<Data>> = edges_sort.into_iter()
+        // Box edges and regions _before_ pointing to their elements: boxing a
+        // Vec may move its contents.
+        let edges: Box<[TopoEdge<Data>]> = edges_sort.into_iter()
             .map(|o| o.expect("programming error: an Edge is missing from self.edges"))
             .collect();
 
-        let mut regions: Vec<TopoRegion<Data>> = self.regions.into_iter().map(|build_region| {
+        let mut regions: Box<[TopoRegion<Data>]> = self.regions.into_iter().map(|build_region| {
             let BuildRegion { data, outer_rings, inner_rings } = build_region;
 
             let topo_outer_rings: Vec<TopoRing<Data>> = outer_rings.into_iter()
@@ -186,8 +188,8 @@ impl<Data> TopologyBuilder<Data>
         }
 
         Topology {
-            regions: regions.into_boxed_slice(),
-            edges: edges.into_boxed_slice(),
+            regions: regions,
+            edges: edges,
         }
     }
 }
-- 
2.43.0


From 78c40ccecc13d8798f64ff8aed1dddbcde46e772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:46 +0000
Subject: [PATCH 03/19] fix: compute clip intersections in 128 bits

---
 src/clip/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clip/types.rs b/src/clip/types.rs
index 9b0ea6d..2938ace 100644
--- a/src/clip/types.rs
+++ b/src/clip/types.rs
@@ -49,7 +49,7 @@ impl ClipMask {
     ///
     /// Assumes either `p1` or `p2` is outside the clip mask.
     pub fn intersect(&self, p1: &Point, p2: &Point) -> Point {
-        fn i(u: u32) -> i64 { u as i64 }
+        fn i(u: u32) -> i128 { u as i128 } // a product of differences needs 65 bits
 
         match self {
             &ClipMask::MinX(x) | &ClipMask::MaxX(x) => {
-- 
2.43.0


From 99226ea4f1ea40af1c511e9839e8edbb730a567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:47 +0000
Subject: [PATCH 04/19] fix: list the joints of a Ring's edges once in
 Ring::points()

---
 src/geo/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geo/mod.rs b/src/geo/mod.rs
index 6b8fb7e..96672e1 100644
--- a/src/geo/mod.rs
+++ b/src/geo/mod.rs
@@ -147,7 +147,9 @@ impl Ring {
                 let len = edges.iter().map(|e| e.0.len()).sum();
                 let mut ret = Vec::<Point>::with_capacity(len);
                 for ref edge in edges.iter() {
-                    ret.extend_from_slice(&*edge.0);
+                    // Consecutive edges share a Point: only list it once
+                    let n_seen = if ret.last().is_some() && ret.last() == edge.0.first() { 1 } else { 0 };
+                    ret.extend_from_slice(&edge.0[n_seen ..]);
                 }
                 ret.into_boxed_slice()
             }
-- 
2.43.0


From dca1c565daf2735644c8abf0fb05643ff3af15e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:35 +0000
Subject: [PATCH 05/19] fix: weigh points by their triangle's area when
 simplifying

area2() multiplied where it should have subtracted. The threshold test was
off by one, too: a point whose doubled area is exactly the threshold must go.
---
 src/simplify/simplify_edge.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/simplify/simplify_edge.rs b/src/simplify/simplify_edge.rs
index 38c01b8..b96affa 100644
--- a/src/simplify/simplify_edge.rs
+++ b/src/simplify/simplify_edge.rs
@@ -3,8 +3,8 @@ use std::ptr;
 use geo;
 
 fn area2(a: &geo::Point, b: &geo::Point, c: &geo::Point) -> u64 {
-    fn i(u: u32) -> i64 { u as i64 }
-    let a2: i64 = (i(b.0) * i(a.0)) * (i(c.1) - i(a.1)) - (i(c.0) - i(a.0)) * (i(b.1) - i(a.1));
+    fn i(u: u32) -> i128 { u as i128 } // a product of differences needs 65 bits
+    let a2: i128 = (i(b.0) - i(a.0)) * (i(c.1) - i(a.1)) - (i(c.0) - i(a.0)) * (i(b.1) - i(a.1));
     a2.abs() as u64
 }
 
@@ -262,7 +262,7 @@ impl PointHeap {
             if small_point.weight < last_weight {
                 small_point.weight = last_weight;
             } else {
-                if small_point.weight >= smallest_weight {
+                if small_point.weight > smallest_weight {
                     // We don't need to figure out the exact weight of
                     // any more points, because we know we aren't going to
                     // remove them when we simplify. (Their weights are
@@ -281,9 +281,10 @@ impl PointHeap {
             }
         }
 
-        let mut ret: Vec<geo::Point> = self.points.iter()
-            .filter(|ref p| p.weight >= smallest_weight)
-            .map(|ref p| p.geo_point)
+        let last_index = self.points.len() - 1;
+        let mut ret: Vec<geo::Point> = self.points.iter().enumerate()
+            .filter(|&(i, ref p)| p.weight > smallest_weight || i == 0 || i == last_index)
+            .map(|(_, ref p)| p.geo_point)
             .collect();
 
         // Do not change topology: a ring must remain a ring. That means a
-- 
2.43.0


From 09bacfd79d480a1db5a57580970eb85d784701f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:35 +0000
Subject: [PATCH 06/19] fix: keep PointHeap in heap order

---
 src/simplify/simplify_edge.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simplify/simplify_edge.rs b/src/simplify/simplify_edge.rs
index b96affa..079f30b 100644
--- a/src/simplify/simplify_edge.rs
+++ b/src/simplify/simplify_edge.rs
@@ -83,6 +83,7 @@ impl From<Vec<geo::Point>> for PointHeap {
             let area2 = area2(&points[i - 1].geo_point, &points[i].geo_point, &points[i + 1].geo_point);
 
             points[i].weight = area2;
+            points[i].heap_index = i - 1;
             points[i].next = &points[i + 1];
             points[i].previous = &points[i - 1];
         }
@@ -134,7 +135,7 @@ impl PointHeap {
             let child = left_child(root);
             let mut swap = root;
 
-            if unsafe { *self.heap[start] > *self.heap[child] } {
+            if unsafe { *self.heap[root] > *self.heap[child] } {
                 swap = child;
             }
 
-- 
2.43.0


From f92812b7be6981c416521e5cc172f4a99f22fe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:36 +0000
Subject: [PATCH 07/19] fix: do not panic when simplifying a closed edge of
 under four points

---
 src/simplify/simplify_edge.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/simplify/simplify_edge.rs b/src/simplify/simplify_edge.rs
index 079f30b..014f8d6 100644
--- a/src/simplify/simplify_edge.rs
+++ b/src/simplify/simplify_edge.rs
@@ -340,6 +340,11 @@ impl PointHeap {
 /// because it's in terms of rectangles. For instance, if you want to err by
 /// "at most one pixel" and coordinates are pixels, set `smallest_area2` to `1`.
 pub fn simplify_edge(points: &[geo::Point], smallest_area2: u64) -> Box<[geo::Point]> {
+    if points.len() < 4 && points.first() == points.last() {
+        // A degenerate ring (clipping can leave one): nothing to simplify
+        return points.to_vec().into_boxed_slice();
+    }
+
     let mut point_heap = PointHeap::from(points.to_vec());
     point_heap.visvalingam_whyatt(smallest_area2)
 }
-- 
2.43.0


From 81abb74764c664e8c05d6fa2b6b247964153edd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:30 +0000
Subject: [PATCH 08/19] fix: leave no unused edges behind when clipping drops a
 ring

---
 src/clip/topology.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index f4ec409..0049006 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -88,10 +88,10 @@ impl NewEdgeSet {
     }
 }
 
-fn build_ring_to_topo_ring_with_null_ptrs<Data>(edges: &[TopoEdge<Data>], build_ring: &BuildRing) -> TopoRing<Data> {
+fn build_ring_to_topo_ring_with_null_ptrs<Data>(edges: &[TopoEdge<Data>], edge_indexes: &[usize], build_ring: &BuildRing) -> TopoRing<Data> {
     let directed_edges: Vec<DirectedEdge<Data>> = build_ring.0.iter().map(|build_de| {
         DirectedEdge {
-            edge: &edges[build_de.edge_id],
+            edge: &edges[edge_indexes[build_de.edge_id]],
             direction: build_de.direction,
         }
     }).collect();
@@ -250,6 +250,24 @@ impl<Data: Clone> Builder<Data> {
             }
         }));
 
+        // Drop edges no ring uses: their rings were dropped.
+        let mut is_used = vec![ false; edges.len() ];
+        for region in self.regions.iter() {
+            for ring in region.outer_rings.iter().chain(region.inner_rings.iter()) {
+                for build_de in ring.0.iter() {
+                    is_used[build_de.edge_id] = true;
+                }
+            }
+        }
+        let mut edge_indexes: Vec<usize> = Vec::with_capacity(edges.len()); // by EdgeId
+        let mut n_used = 0;
+        for &used in is_used.iter() {
+            edge_indexes.push(n_used);
+            if used { n_used += 1; }
+        }
+        let mut used_iter = is_used.into_iter();
+        edges.retain(|_| used_iter.next().unwrap());
+
         // Box edges and regions _before_ pointing to their elements: boxing a
         // Vec may move its contents.
         let edges: Box<[TopoEdge<Data>]> = edges.into_boxed_slice();
@@ -258,9 +276,9 @@ impl<Data: Clone> Builder<Data> {
         let mut regions: Box<[TopoRegion<Data>]> = self.regions.into_iter().map(|build_region| {
             let BuildRegion { data, outer_rings, inner_rings } = build_region;
             let topo_outer_rings: Vec<TopoRing<Data>> = outer_rings.into_iter()
-                .map(|r| build_ring_to_topo_ring_with_null_ptrs(&edges[..], &r)).collect();
+                .map(|r| build_ring_to_topo_ring_with_null_ptrs(&edges[..], &edge_indexes[..], &r)).collect();
             let topo_inner_rings: Vec<TopoRing<Data>> = inner_rings.into_iter()
-                .map(|r| build_ring_to_topo_ring_with_null_ptrs(&edges[..], &r)).collect();
+                .map(|r| build_ring_to_topo_ring_with_null_ptrs(&edges[..], &edge_indexes[..], &r)).collect();
 
             TopoRegion {
                 data: data,
-- 
2.43.0


From 4d845924673a4a1cfb245b64168f501ffcd2b50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:50 +0000
Subject: [PATCH 09/19] fix: do not panic when clipping makes over two rings
 share a new edge

---
 src/clip/topology.rs | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index 0049006..1c1fc14 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -41,13 +41,25 @@ fn last_point(points: &[Point], direction: Direction) -> Point {
     }
 }
 
+/// A new edge between two Points.
+///
+/// Rounding can make more than two rings run along the same new edge; a
+/// TopoEdge only has room for two. The third member sets these edges apart: it
+/// is 0 for the first two uses, 1 for the next two, and so on.
 #[derive(Debug,Eq,PartialEq,Hash,Clone,Copy)]
-struct BuildEdge(Point, Point);
+struct BuildEdge(Point, Point, usize);
+
+/// Part of a clipped ring.
+enum RingPart {
+    OldEdge(BuildDirectedEdge),
+    NewEdge(Point, Point),
+}
 
 #[derive(Debug)]
 struct NewEdgeSet {
     first_edge_id: EdgeId,
     edges: HashMap<BuildEdge, EdgeId>,
+    n_uses: HashMap<(Point, Point), usize>,
 }
 
 impl NewEdgeSet {
@@ -55,6 +67,7 @@ impl NewEdgeSet {
         NewEdgeSet {
             first_edge_id: first_edge_id,
             edges: HashMap::new(),
+            n_uses: HashMap::new(),
         }
     }
 
@@ -64,7 +77,9 @@ impl NewEdgeSet {
 
     fn build_directed_edge(&mut self, p1: &Point, p2: &Point) -> BuildDirectedEdge {
         let (a, b, dir) = if p1 < p2 { (p1, p2, Direction::Forward) } else { (p2, p1, Direction::Backward) };
-        let edge = BuildEdge(*a, *b);
+        let n_uses = self.n_uses.entry((*a, *b)).or_insert(0);
+        let edge = BuildEdge(*a, *b, *n_uses / 2);
+        *n_uses += 1;
         let next_id: EdgeId = self.first_edge_id + self.edges.len();
 
         let edge_id = match self.edges.entry(edge) {
@@ -80,7 +95,7 @@ impl NewEdgeSet {
 
     /// Iterates over all edges, in ID order.
     fn into_iter(self) -> vec::IntoIter<BuildEdge> {
-        let mut ret = vec![ BuildEdge(Point(0, 0), Point(0, 0)); self.len() ];
+        let mut ret = vec![ BuildEdge(Point(0, 0), Point(0, 0), 0); self.len() ];
         for (build_edge, id) in self.edges.into_iter() {
             ret[id - self.first_edge_id] = build_edge;
         }
@@ -168,7 +183,7 @@ impl<Data: Clone> Builder<Data> {
     ///
     /// Returns None iff the new ring would have area 0.
     fn clip_ring(&mut self, ring: &TopoRing<Data>) -> Option<BuildRing> {
-        let mut ret: Vec<BuildDirectedEdge> = Vec::with_capacity(2 * ring.directed_edges.len());
+        let mut ret: Vec<RingPart> = Vec::with_capacity(2 * ring.directed_edges.len());
 
         let mut area2: i128 = 0;
         let mut start_point: Option<Point> = None;
@@ -191,11 +206,11 @@ impl<Data: Clone> Builder<Data> {
                         let edge_start_point = first_point(old_edge, de.direction);
                         if p != edge_start_point {
                             area2 += signed_area2([ p, edge_start_point ].iter());
-                            ret.push(self.new_edges.build_directed_edge(&p, &edge_start_point));
+                            ret.push(RingPart::NewEdge(p, edge_start_point));
                         }
                     }
 
-                    ret.push(BuildDirectedEdge { direction: de.direction, edge_id: edge_id });
+                    ret.push(RingPart::OldEdge(BuildDirectedEdge { direction: de.direction, edge_id: edge_id }));
 
                     previous_point = Some(last_point(old_edge, de.direction));
 
@@ -213,7 +228,7 @@ impl<Data: Clone> Builder<Data> {
         // Plug a gap -- same rationale as above
         match (start_point, previous_point) {
             (Some(p0), Some(pn)) if p0 != pn => {
-                ret.push(self.new_edges.build_directed_edge(&pn, &p0));
+                ret.push(RingPart::NewEdge(pn, p0));
                 area2 += signed_area2([ pn, p0 ].iter());
             }
             _ => {}
@@ -223,7 +238,11 @@ impl<Data: Clone> Builder<Data> {
             // Clipped region has area 0
             None
         } else {
-            Some(BuildRing(ret.into_boxed_slice()))
+            // Only now that we know we'll keep the ring, add its new edges
+            Some(BuildRing(ret.into_iter().map(|part| match part {
+                RingPart::OldEdge(build_de) => build_de,
+                RingPart::NewEdge(p1, p2) => self.new_edges.build_directed_edge(&p1, &p2),
+            }).collect()))
         }
     }
 
-- 
2.43.0


From 818598821086838f2004517b8547891e2e1b25c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:51 +0000
Subject: [PATCH 10/19] fix: report malformed .dbf headers and fields as errors
 instead of panicking

---
 src/read/shapefile/dbf.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/read/shapefile/dbf.rs b/src/read/shapefile/dbf.rs
index dda61c1..5aa839d 100644
--- a/src/read/shapefile/dbf.rs
+++ b/src/read/shapefile/dbf.rs
@@ -89,6 +89,9 @@ fn dbf_numeric_to_valid_string(bytes: &[u8]) -> Result<String, DbfError> {
 
 impl DbfField {
     pub fn read_string(&self, record: &DbfRecord) -> Result<String, DbfError> {
+        if self.offset + self.len > record.bytes.len() {
+            return Err(DbfError::ParseError(format!("Field {} extends past the end of the record", self.name)));
+        }
         let bytes = &record.bytes[self.offset .. self.offset + self.len];
 
         match &self.data_type {
@@ -96,11 +99,12 @@ impl DbfField {
                 encoding.decode(trim_end_spaces(bytes), encoding::DecoderTrap::Strict)
                     .map_err(|s| DbfError::ParseError(s.to_string()))
             }
+            &DbfType::Long if bytes.len() < 4 => Err(DbfError::ParseError(format!("Field {} is too short to hold a number", self.name))),
             &DbfType::Long => Ok(LittleEndian::read_u32(bytes).to_string()),
             &DbfType::Numeric => {
                 dbf_numeric_to_valid_string(bytes)
             }
-            _ => { unimplemented!() }
+            _ => Err(DbfError::ParseError(format!("Reading a field of type {:?} is not supported", self.data_type))),
         }
     }
 }
@@ -201,6 +205,8 @@ fn read_dbf_header(file: &mut io::Read) -> Result<DbfHeader, DbfError> {
             // valid days.
             if buf[2] > 12 || buf[3] > 31 {
                 Err(DbfError::ParseError(String::from("The first four bytes of the file mention an invalid creation date. This is not a valid .dbf file.")))
+            } else if (LittleEndian::read_u16(&buf[8..]) as usize) < DBF_HEADER_LENGTH {
+                Err(DbfError::ParseError(String::from("The file header is too short. This is not a valid .dbf file.")))
             } else {
                 Ok(DbfHeader {
                     n_records: LittleEndian::read_u32(&buf[4..]) as usize,
-- 
2.43.0


From f916b6cb354e426ab68bd48b79be8df027ca1766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:48 +0000
Subject: [PATCH 11/19] fix: report short .shp records and huge file lengths
 instead of panicking

---
 src/read/shapefile/shp.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index 868d50e..d8305f4 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -161,7 +161,7 @@ fn read_shp_header(file: &mut io::Read) -> Result<ShpHeader, ShpError> {
             match ShpShapeType::with_u32(shape_type_u32) {
                 Some(ShpShapeType::Polygon) => {
                     Ok(ShpHeader {
-                        file_n_bytes: (file_len * 2) as usize,
+                        file_n_bytes: file_len as usize * 2,
                         shape_type: ShpShapeType::Polygon,
                         bounding_box: bounding_box,
                     })
@@ -185,11 +185,19 @@ fn parse_point(buf: &[u8]) -> Result<ShpPoint, ShpError> {
 }
 
 fn parse_polygon_record(buf: &[u8], record_number: u32) -> Result<ShpPolygonRecord, ShpError> {
+    if buf.len() < 4 {
+        return Err(ShpError::ParseError(format!("Record number {} is too short: it only has {} bytes", record_number, buf.len())));
+    }
+
     let shape_type_u32 = LittleEndian::read_u32(&buf[0..4]);
     if shape_type_u32 != 5 {
         return Err(ShpError::ParseError(format!("Record number {} has unsupported shape type: found {}, expected {}", record_number, shape_type_u32, 5)));
     }
 
+    if buf.len() < 44 {
+        return Err(ShpError::ParseError(format!("Record number {} is too short: it only has {} bytes", record_number, buf.len())));
+    }
+
     let num_parts = LittleEndian::read_u32(&buf[36..40]) as usize;
     if num_parts == 0 {
         return Err(ShpError::ParseError(format!("Record number {} has no parts", record_number)));
-- 
2.43.0


From 1c81dab48844b42af43b231b3623dee8b09f72b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:49 +0000
Subject: [PATCH 12/19] fix: reject three-point rings in .shp records wherever
 they are

A ring needs four points; only a record's last ring was held to that.
---
 src/read/shapefile/shp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index d8305f4..a49a2ee 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -228,7 +228,7 @@ fn parse_polygon_record(buf: &[u8], record_number: u32) -> Result<ShpPolygonReco
             return Err(ShpError::ParseError(format!("Record number {} has a ring with points {}-{}, but there are only {} points in the record", record_number, part_start, part_end, num_points)));
         }
 
-        if part_start + 3 > part_end {
+        if part_start + 4 > part_end {
             return Err(ShpError::ParseError(format!("Record number {} has a ring with points {}-{}, but that's an invalid range", record_number, part_start, part_end)));
         }
 
-- 
2.43.0


From 6be06cd8503c3aac3bb2d8079ea4986702de32a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:50 +0000
Subject: [PATCH 13/19] fix: end iteration after bad .shp records and after
 read errors

A .shp record that did not parse was not counted towards the file length, so
the iterator went on to return errors forever. After a failed read, the
position in the file is unknown: anything read from there is not a record.
---
 src/read/shapefile/dbf.rs |  6 +++++-
 src/read/shapefile/shp.rs | 17 ++++++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/read/shapefile/dbf.rs b/src/read/shapefile/dbf.rs
index 5aa839d..b7df375 100644
--- a/src/read/shapefile/dbf.rs
+++ b/src/read/shapefile/dbf.rs
@@ -435,7 +435,11 @@ impl<R: io::Read> Iterator for DbfReader<R> {
             None
         } else {
             let ret = read_dbf_record(&mut self.file, self.meta.clone());
-            self.n_records_already_iterated += 1;
+            match ret {
+                // We don't know where the next record starts. Stop.
+                Err(_) => { self.n_records_already_iterated = self.meta.n_records; }
+                Ok(_) => { self.n_records_already_iterated += 1; }
+            }
             Some(ret)
         }
     }
diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index a49a2ee..4637b9f 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -254,8 +254,11 @@ fn parse_polygon_record(buf: &[u8], record_number: u32) -> Result<ShpPolygonReco
 /// Reads the next Polygon record from the file, and returns the number of bytes
 /// that polygon consumed (including its record header).
 ///
+/// Returns Err on I/O error. If a record can be read but not parsed, returns
+/// its error and the number of bytes it consumed.
+///
 /// Side effect: advances the file cursor to the next Polygon.
-fn read_polygon_record(file: &mut io::Read) -> Result<(ShpPolygonRecord, usize), ShpError> {
+fn read_polygon_record(file: &mut io::Read) -> Result<(Result<ShpPolygonRecord, ShpError>, usize), ShpError> {
     let mut header_buf = [ 0u8; SHP_RECORD_HEADER_LENGTH ];
 
     match file.read_exact(&mut header_buf) {
@@ -267,7 +270,7 @@ fn read_polygon_record(file: &mut io::Read) -> Result<(ShpPolygonRecord, usize),
             let mut buf = vec![ 0u8; content_length * 2 ];
             match file.read_exact(&mut buf) {
                 Err(err) => Err(ShpError::IOError(err)),
-                Ok(_) => parse_polygon_record(&buf[..], record_number).map(|record| (record, header_buf.len() + buf.len()))
+                Ok(_) => Ok((parse_polygon_record(&buf[..], record_number), header_buf.len() + buf.len()))
             }
         }
     }
@@ -329,13 +332,17 @@ impl<R: io::Read> Iterator for ShpReader<R> {
             None
         } else {
             match read_polygon_record(&mut self.file) {
-                Err(err) => Some(Err(err)),
-                Ok((record, n_bytes)) => {
+                Err(err) => {
+                    // We don't know where the next record starts. Stop.
+                    self.n_bytes_already_read = self.header.file_n_bytes;
+                    Some(Err(err))
+                }
+                Ok((record_result, n_bytes)) => {
                     self.n_bytes_already_read += n_bytes;
                     if self.n_bytes_already_read > self.header.file_n_bytes {
                         Some(Err(ShpError::ParseError(format!("The Shapefile header suggests the file is {} bytes long, but it's longer than that.", self.header.file_n_bytes))))
                     } else {
-                        Some(Ok(record))
+                        Some(record_result)
                     }
                 }
             }
-- 
2.43.0


From 4d884413869bd5377b45b38f1beae704ead247f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:15 +0000
Subject: [PATCH 14/19] fix: do not mask read errors as join errors when one
 file is longer

---
 src/read/shapefile/shapefile.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/read/shapefile/shapefile.rs b/src/read/shapefile/shapefile.rs
index 4f98a50..c8c7d09 100644
--- a/src/read/shapefile/shapefile.rs
+++ b/src/read/shapefile/shapefile.rs
@@ -163,15 +163,15 @@ impl<R: io::Read, S: io::Read> Iterator for ShapefileReader<R, S> {
 
     fn next(&mut self) -> Option<Self::Item> {
         match (self.shp_reader.next(), self.dbf_reader.next()) {
+            // check for errors
+            (Some(Err(err)), _) => Some(Err(ShapefileError::ShpError(err))),
+            (_, Some(Err(err))) => Some(Err(ShapefileError::DbfError(err))),
+
             // Check for end of files
             (None, None) => None,
             (Some(_), None) => Some(Err(ShapefileError::JoinError("'.shp' file has more records than '.dbf' record".to_string()))),
             (None, Some(_)) => Some(Err(ShapefileError::JoinError("'.dbf' file has more records than '.shp' record".to_string()))),
 
-            // check for errors
-            (Some(Err(err)), _) => Some(Err(ShapefileError::ShpError(err))),
-            (_, Some(Err(err))) => Some(Err(ShapefileError::DbfError(err))),
-
             // we have records!
             (Some(Ok(shape)), Some(Ok(data))) => {
                 Some(Ok(ShapefileRecord {
-- 
2.43.0


From 13c5d600630ef5adb23213385d68809d03ef036d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:26 +0000
Subject: [PATCH 15/19] fix: do not allocate more than a .shp file holds

---
 src/read/shapefile/shp.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index 4637b9f..dfd5df8 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -4,6 +4,7 @@ use std::error;
 use std::fmt;
 use std::fs;
 use std::io;
+use std::io::Read;
 use std::path::Path;
 use byteorder::{BigEndian, ByteOrder, LittleEndian};
 use itertools::Itertools;
@@ -267,9 +268,13 @@ fn read_polygon_record(file: &mut io::Read) -> Result<(Result<ShpPolygonRecord,
             let record_number = BigEndian::read_u32(&header_buf[0..4]);
             let content_length = BigEndian::read_u32(&header_buf[4..8]) as usize;
 
-            let mut buf = vec![ 0u8; content_length * 2 ];
-            match file.read_exact(&mut buf) {
+            // The length may be wrong: don't allocate more than there is to read
+            let mut buf = Vec::<u8>::new();
+            match file.take(content_length as u64 * 2).read_to_end(&mut buf) {
                 Err(err) => Err(ShpError::IOError(err)),
+                Ok(_) if buf.len() < content_length * 2 => {
+                    Err(ShpError::IOError(io::Error::new(io::ErrorKind::UnexpectedEof, "failed to fill whole buffer")))
+                }
                 Ok(_) => Ok((parse_polygon_record(&buf[..], record_number), header_buf.len() + buf.len()))
             }
         }
-- 
2.43.0


From 735c0969a3376ebde08a898dd8bec1478c67d15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:28 +0000
Subject: [PATCH 16/19] fix: stop reading .dbf fields at the field terminator

Some writers put more header bytes after it.
---
 src/read/shapefile/dbf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/read/shapefile/dbf.rs b/src/read/shapefile/dbf.rs
index b7df375..33eb94e 100644
--- a/src/read/shapefile/dbf.rs
+++ b/src/read/shapefile/dbf.rs
@@ -111,6 +111,7 @@ impl DbfField {
 
 const DBF_HEADER_LENGTH: usize = 32;
 const DBF_FIELD_DESCRIPTOR_LENGTH: usize = 32;
+const DBF_FIELD_TERMINATOR: u8 = 0x0d;
 
 #[derive(Debug,Copy,Clone)]
 struct DbfHeader {
@@ -249,7 +250,7 @@ fn read_dbf_fields(file: &mut io::Read, encoding: encoding::EncodingRef, dbf_hea
             let mut offset = 1; // 0 is "deleted" flag
 
             for chunk in buf.chunks(DBF_FIELD_DESCRIPTOR_LENGTH) {
-                if chunk.len() != DBF_FIELD_DESCRIPTOR_LENGTH {
+                if chunk.len() != DBF_FIELD_DESCRIPTOR_LENGTH || chunk[0] == DBF_FIELD_TERMINATOR {
                     break;
                 }
 
-- 
2.43.0


From 5b373a5cf13917bda7b5c501d7ae0220d948253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:27 +0000
Subject: [PATCH 17/19] fix: do not normalize away Nodes where three or more
 edges meet

Regions on either side of such a Node could join edges differently, and then
they would not share them any more.
---
 src/normalize.rs | 64 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 19 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index 6effa96..391b6e0 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -1,4 +1,5 @@
 use std::cmp::Ordering;
+use std::collections::{HashMap, HashSet};
 use std::collections::btree_map::{BTreeMap,Entry};
 use std::ptr;
 use itertools::Itertools;
@@ -88,6 +89,28 @@ impl<T> Clone for NormEdge<T> {
     }
 }
 
+/// Returns all Points where something other than two (non-redundant) edges
+/// meet.
+///
+/// These are the Points where a normalized edge must end: were we to join two
+/// edges there, the Regions that meet there might join different ones.
+fn find_nodes<T>(topo: &Topology<T>) -> HashSet<Point> {
+    let mut n_ends: HashMap<Point, usize> = HashMap::new();
+
+    for edge in topo.edges.iter() {
+        let is_redundant = unsafe {
+            !edge.rings[1].is_null() && (*edge.rings[0]).region == (*edge.rings[1]).region
+        };
+
+        if !is_redundant {
+            *n_ends.entry(edge.points[0]).or_insert(0) += 1;
+            *n_ends.entry(edge.points[edge.points.len() - 1]).or_insert(0) += 1;
+        }
+    }
+
+    n_ends.into_iter().filter(|&(_, n)| n != 2).map(|(point, _)| point).collect()
+}
+
 /// Returns an equivalent "island" edge (i.e., ring) whose first point is the
 /// leftmost/topmost of the input points.
 fn rotate_island_edge<T>(edge: &NormEdge<T>) -> NormEdge<T> {
@@ -112,8 +135,11 @@ fn rotate_island_edge<T>(edge: &NormEdge<T>) -> NormEdge<T> {
 
 /// Returns an equivalend set of Edges, rotated so that the first Edge starts
 /// at the leftmost/topmost Node.
-fn rotate_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
-    if edges.len() == 1 {
+fn rotate_edges<T>(edges: &Vec<NormEdge<T>>, nodes: &HashSet<Point>) -> Vec<NormEdge<T>> {
+    if edges.len() == 1 && nodes.contains(&edges[0].points[0]) {
+        // Not an island: other edges end at its Node
+        edges.clone()
+    } else if edges.len() == 1 {
         vec![ rotate_island_edge(&edges[0]) ]
     } else {
         match edges.iter().enumerate().min_by_key(|&(_, e)| e.points[0]) {
@@ -131,9 +157,9 @@ fn rotate_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
 /// Returns an equivalent Vec of `NormEdge`s that has the smallest number of
 /// elements possible.
 ///
-/// Logic: when two consecutive `NormEdge`s share the same Rings, they are
-/// merged into a single `NormEdge` with all the constituent points. ASCII
-/// art:
+/// Logic: when two consecutive `NormEdge`s share the same Rings and no other
+/// edge ends where they meet, they are merged into a single `NormEdge` with all
+/// the constituent points. ASCII art:
 ///
 /// ```ascii
 /// *-------*
@@ -156,15 +182,14 @@ fn rotate_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
 ///
 /// Implementation note: we often call this function twice with the same Edge:
 /// once for `a`'s `Ring` and once for `b`'s. Both calls will join `ABC` in the
-/// same way (except at a Node joining two rings from the same Region to
-/// a second Region ... which we fix in join_adjacent_rings()).
-fn join_related_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
+/// same way, because neither joins edges at one of `nodes`.
+fn join_related_edges<T>(edges: &Vec<NormEdge<T>>, nodes: &HashSet<Point>) -> Vec<NormEdge<T>> {
     let mut ret = Vec::<NormEdge<T>>::new();
 
     for ref edge in edges {
         // Either extend the existing edge or add a new one
         let extended = match ret.last_mut() {
-            Some(ref mut last) if last.regions == edge.regions => {
+            Some(ref mut last) if last.regions == edge.regions && !nodes.contains(&edge.points[0]) => {
                 last.points.extend_from_slice(&edge.points[1..]);
                 true
             },
@@ -176,7 +201,7 @@ fn join_related_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
         }
     }
 
-    if ret.len() > 1 && ret[0].regions == ret.last().unwrap().regions {
+    if ret.len() > 1 && ret[0].regions == ret.last().unwrap().regions && !nodes.contains(&ret[0].points[0]) {
         // edges[0].points[0] isn't an important point. Join edges[0]
         // and edges[last] into a single edge, edges[0].
         let mut points = ret.last().unwrap().points.clone();
@@ -267,7 +292,7 @@ fn wind_edges<T>(edges: &Vec<NormEdge<T>>, order: WindingOrder) -> Vec<NormEdge<
 /// well.
 ///
 /// Input Rings may be in any order; output Rings will be in undefined order.
-fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>) -> Vec<NormRing<T>> {
+fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>, nodes: &HashSet<Point>) -> Vec<NormRing<T>> {
     let mut ret = Vec::<NormRing<T>>::with_capacity(rings.len()); // upper-bound capacity
 
     // NormRings are directed. We'll index them by their first Point. There's
@@ -330,8 +355,8 @@ fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>) -> Vec<NormRing<T>> {
             }
         }
 
-        edges = join_related_edges(&edges);
-        edges = rotate_edges(&edges);
+        edges = join_related_edges(&edges, nodes);
+        edges = rotate_edges(&edges, nodes);
 
         ret.push(NormRing { edges: edges });
     }
@@ -364,7 +389,7 @@ fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>) -> Vec<NormRing<T>> {
 /// nix `EHGF` when called on outer rings, and it will nix `EFGH` when called
 /// on inner rings (since the edges have two rings and thus two Regions, and
 /// both Regions are identical). Ta-da! The donut is gone.
-fn normalize_region_rings<T>(in_rings: &[TopoRing<T>], winding_order: WindingOrder) -> Box<[Ring]> {
+fn normalize_region_rings<T>(in_rings: &[TopoRing<T>], nodes: &HashSet<Point>, winding_order: WindingOrder) -> Box<[Ring]> {
     let mut rings = Vec::<NormRing<T>>::with_capacity(in_rings.len());
 
     for ref boxed_ring in in_rings {
@@ -376,14 +401,14 @@ fn normalize_region_rings<T>(in_rings: &[TopoRing<T>], winding_order: WindingOrd
             edges.push(NormEdge::<T>::with_directed_edge(directed_edge));
         }
 
-        edges = join_related_edges(&edges);
+        edges = join_related_edges(&edges, nodes);
         edges = wind_edges(&edges, winding_order);
-        edges = rotate_edges(&edges);
+        edges = rotate_edges(&edges, nodes);
 
         rings.push(NormRing::<T> { edges: edges });
     }
 
-    rings = join_adjacent_rings(&rings);
+    rings = join_adjacent_rings(&rings, nodes);
     rings.sort();
 
     let ret: Vec<Ring> = rings.into_iter().map(|r| r.into_ring()).collect();
@@ -408,10 +433,11 @@ fn normalize_region_rings<T>(in_rings: &[TopoRing<T>], winding_order: WindingOrd
 ///   in case of a tie, topmost) `Point`.
 pub fn normalize<Data: Clone>(topo: &Topology<Data>) -> Topology<Data> {
     let mut builder = TopologyBuilder::<Data>::new();
+    let nodes = find_nodes(topo);
 
     for ref region in topo.regions.iter() {
-        let outer_rings = normalize_region_rings(&region.outer_rings, WindingOrder::Clockwise);
-        let inner_rings = normalize_region_rings(&region.inner_rings, WindingOrder::CounterClockwise);
+        let outer_rings = normalize_region_rings(&region.outer_rings, &nodes, WindingOrder::Clockwise);
+        let inner_rings = normalize_region_rings(&region.inner_rings, &nodes, WindingOrder::CounterClockwise);
         builder.add_region(Region {
             data: region.data.clone(),
             outer_rings: outer_rings,
-- 
2.43.0


From b97e3d0f6a0b387a91016940aea57f071547acdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:40 +0000
Subject: [PATCH 18/19] fix: normalize a Region's outer and inner rings
 together

Joining outer rings can form a hole, outer rings can adjoin the holes they lie
in, and rings can touch at a Point. All of these led to panics or to holes
among the outer rings.
---
 src/normalize.rs | 96 ++++++++++++++++++++++++++----------------------
 1 file changed, 52 insertions(+), 44 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index 391b6e0..6fcf1d8 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -295,9 +295,9 @@ fn wind_edges<T>(edges: &Vec<NormEdge<T>>, order: WindingOrder) -> Vec<NormEdge<
 fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>, nodes: &HashSet<Point>) -> Vec<NormRing<T>> {
     let mut ret = Vec::<NormRing<T>>::with_capacity(rings.len()); // upper-bound capacity
 
-    // NormRings are directed. We'll index them by their first Point. There's
-    // no way for two non-redundant edges to leave the same Point.
-    let mut to_merge: BTreeMap<Point, NormEdge<T>> = BTreeMap::new();
+    // NormRings are directed. We'll index them by their first Point. (Two edges
+    // leave the same Point where two parts of the Region touch.)
+    let mut to_merge: BTreeMap<Point, Vec<NormEdge<T>>> = BTreeMap::new();
 
     for ref ring in rings {
         let (redundant, useful): (Vec<_>, Vec<_>) = ring.edges.clone().into_iter().partition(|ref e| e.is_redundant());
@@ -313,14 +313,7 @@ fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>, nodes: &HashSet<Point>) -> V
             _ => {
                 // index the useful edges and ignore the redundant ones
                 for ref edge in useful {
-                    match to_merge.entry(edge.points[0]) {
-                        Entry::Vacant(e) => {
-                            e.insert(edge.clone());
-                        }
-                        Entry::Occupied(e) => {
-                            panic!("Bug/edge case: two distinct edges in the same region are both trying to leave {:?}", e.key());
-                        }
-                    }
+                    to_merge.entry(edge.points[0]).or_insert_with(Vec::new).push(edge.clone());
                 }
             }
         }
@@ -333,46 +326,60 @@ fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>, nodes: &HashSet<Point>) -> V
 
     // Now to reconstruct the rings we need to merge....
     while to_merge.len() > 0 {
-        let start = *to_merge.keys().next().unwrap();
-        let mut end = start;
+        let mut end = *to_merge.keys().next().unwrap();
 
-        let mut edges: Vec<NormEdge<T>> = Vec::new();
+        let mut path: Vec<NormEdge<T>> = Vec::new(); // leads to `end`
+        let mut indexes: HashMap<Point, usize> = HashMap::new(); // in `path`, by first Point
 
         loop {
-            match to_merge.remove(&end) {
-                None => {
+            indexes.insert(end, path.len());
+
+            match to_merge.entry(end) {
+                Entry::Vacant(_) => {
                     panic!("Expected Edge to continue past {:?} when building Ring", end);
                 }
-                Some(edge) => {
+                Entry::Occupied(mut e) => {
+                    let edge = e.get_mut().pop().unwrap();
+                    if e.get().len() == 0 {
+                        e.remove();
+                    }
                     end = *edge.points.last().unwrap();
-                    edges.push(edge);
+                    path.push(edge);
                 }
             }
 
-            if end == start {
-                // we've reconstructed a ring. to_merge may or may not be empty.
-                break;
-            }
-        }
+            if let Some(&index) = indexes.get(&end) {
+                // We've been here: we've reconstructed a ring. What's left of
+                // the path leads here, and it'll be part of another ring.
+                let mut edges = path.split_off(index);
+                for edge in edges.iter() {
+                    indexes.remove(&edge.points[0]);
+                }
 
-        edges = join_related_edges(&edges, nodes);
-        edges = rotate_edges(&edges, nodes);
+                edges = join_related_edges(&edges, nodes);
+                edges = rotate_edges(&edges, nodes);
+
+                ret.push(NormRing { edges: edges });
 
-        ret.push(NormRing { edges: edges });
+                if path.len() == 0 {
+                    // to_merge may or may not be empty.
+                    break;
+                }
+            }
+        }
     }
 
     ret.sort();
     ret
 }
 
-/// Returns a normalized copy of the given set of outer/inner rings.
+/// Returns normalized copies of the given region's outer and inner rings.
 ///
-/// Call with WindingOrder::Clockwise on outer rings and CounterClockwise on
-/// inner rings.
+/// We join outer and inner rings together: joining outer rings can form a hole,
+/// and an outer ring within a hole can adjoin it. Afterwards, outer rings are
+/// the clockwise ones.
 ///
-/// Note the tidy cleanup of donuts, even though this function isn't called
-/// with both outer rings and inner rings at the same time (it either gets
-/// all outer rings or all inner rings). For instance:
+/// Note the tidy cleanup of donuts. For instance:
 ///
 /// ```ascii
 /// A------B
@@ -385,16 +392,16 @@ fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>, nodes: &HashSet<Point>) -> V
 /// ```
 ///
 /// If a region has two outer rings `ABCD` and `EHGF`, and one inner ring
-/// ("hole"), `EFGH`, then this function's call to join_adjacent_rings() will
-/// nix `EHGF` when called on outer rings, and it will nix `EFGH` when called
-/// on inner rings (since the edges have two rings and thus two Regions, and
-/// both Regions are identical). Ta-da! The donut is gone.
-fn normalize_region_rings<T>(in_rings: &[TopoRing<T>], nodes: &HashSet<Point>, winding_order: WindingOrder) -> Box<[Ring]> {
-    let mut rings = Vec::<NormRing<T>>::with_capacity(in_rings.len());
+/// ("hole"), `EFGH`, then join_adjacent_rings() will nix both `EHGF` and `EFGH`
+/// (since the edges have two rings and thus two Regions, and both Regions are
+/// identical). Ta-da! The donut is gone.
+fn normalize_region_rings<T>(region: &TopoRegion<T>, nodes: &HashSet<Point>) -> (Box<[Ring]>, Box<[Ring]>) {
+    let mut rings = Vec::<NormRing<T>>::with_capacity(region.outer_rings.len() + region.inner_rings.len());
 
-    for ref boxed_ring in in_rings {
-        let ref in_ring = *boxed_ring;
+    let outer = region.outer_rings.iter().map(|r| (r, WindingOrder::Clockwise));
+    let inner = region.inner_rings.iter().map(|r| (r, WindingOrder::CounterClockwise));
 
+    for (in_ring, winding_order) in outer.chain(inner) {
         let mut edges = Vec::<NormEdge<T>>::with_capacity(in_ring.directed_edges.len());
 
         for ref directed_edge in in_ring.directed_edges.iter() {
@@ -411,8 +418,10 @@ fn normalize_region_rings<T>(in_rings: &[TopoRing<T>], nodes: &HashSet<Point>, w
     rings = join_adjacent_rings(&rings, nodes);
     rings.sort();
 
-    let ret: Vec<Ring> = rings.into_iter().map(|r| r.into_ring()).collect();
-    ret.into_boxed_slice()
+    let (outer, inner): (Vec<Ring>, Vec<Ring>) = rings.into_iter()
+        .map(|r| r.into_ring())
+        .partition(|r| r.winding_order() == WindingOrder::Clockwise);
+    (outer.into_boxed_slice(), inner.into_boxed_slice())
 }
 
 /// Returns a "normalized" copy of the given Topology.
@@ -436,8 +445,7 @@ pub fn normalize<Data: Clone>(topo: &Topology<Data>) -> Topology<Data> {
     let nodes = find_nodes(topo);
 
     for ref region in topo.regions.iter() {
-        let outer_rings = normalize_region_rings(&region.outer_rings, &nodes, WindingOrder::Clockwise);
-        let inner_rings = normalize_region_rings(&region.inner_rings, &nodes, WindingOrder::CounterClockwise);
+        let (outer_rings, inner_rings) = normalize_region_rings(&region, &nodes);
         builder.add_region(Region {
             data: region.data.clone(),
             outer_rings: outer_rings,
-- 
2.43.0


From cdbfb25a178403c4d87e08c9b590fe5f8ba7b4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:41 +0000
Subject: [PATCH 19/19] fix: do not panic when normalizing a ring that
 simplifying flattened

---
 src/normalize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index 6fcf1d8..c5a4ffc 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -223,8 +223,8 @@ fn calculate_winding_order_from_edges<T>(edges: &Vec<NormEdge<T>>) -> WindingOrd
         }
     }
 
-    assert!(a != 0);
-    if a > 0 {
+    // Simplifying can flatten a ring
+    if a >= 0 {
         WindingOrder::Clockwise
     } else {
         WindingOrder::CounterClockwise
-- 
2.43.0

