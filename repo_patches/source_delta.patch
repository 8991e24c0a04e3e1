From b938b17171e8e98df809ad17cb41cef3feaf9680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:23 +0000
Subject: [PATCH 01/36] fix: clip infinite edges with a sweep line that lies
 far enough below the polygon

min_y - abs(max_y) is only below the reach of the beach line when the polygon
lies above y=0. For a polygon that reaches below it, breakpoints were still
inside the polygon when their edges were clipped, so borders were cut short or
dropped and cell areas were wrong.
---
 foronoi/graph/polygon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 0d95161..691fe5d 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -148,8 +148,8 @@ class Polygon(Subject):
         return resulting_edges
 
     def _finish_edge(self, edge):
-        # Sweep line position
-        sweep_line = self.min_y - abs(self.max_y)
+        # Sweep line position, low enough for every breakpoint to have left the polygon
+        sweep_line = self.min_y - (self.max_y - self.min_y) - (self.max_x - self.min_x)
 
         # Start should be a breakpoint
         start = edge.get_origin(y=sweep_line, max_y=self.max_y)
-- 
2.43.0


From 315811581eb7598a31d05d30a0b6d49ea6ae307a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:23 +0000
Subject: [PATCH 02/36] fix: pick the clipping point by an index into the
 filtered candidates

The index of the furthest distance was taken in the list of distances that
remain within reach, but used in the unfiltered list of points, so an edge
could be cut at an intersection beyond its end.
---
 foronoi/graph/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 691fe5d..c7ab53a 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -234,8 +234,8 @@ class Polygon(Subject):
 
         # Find the intersection point that is furthest away from the start
         if points:
+            points = [p for p in points if Algebra.distance(orig, p) <= max_distance]
             distances = [Algebra.distance(orig, p) for p in points]
-            distances = [i for i in distances if i <= max_distance]
             if distances:
                 point = points[np.argmax(distances)]
 
-- 
2.43.0


From c4dad23aba878fedda5372656ee9dfa56ec9310c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:23 +0000
Subject: [PATCH 03/36] fix: order polygon vertices around a point that lies
 inside the polygon

The center of the bounding box can lie outside a convex polygon (an obtuse
triangle, for example), and sorting by angle around it does not give the order
of the corners along the boundary. The mean of the corners is always inside.
---
 foronoi/graph/polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index c7ab53a..3f87038 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -24,7 +24,8 @@ class Polygon(Subject):
         min_x = min([p.xd for p in self.points])
         max_y = max([p.yd for p in self.points])
         max_x = max([p.xd for p in self.points])
-        center = Coordinate((max_x + min_x) / 2, (max_y + min_y) / 2)
+        center = Coordinate(sum([p.xd for p in self.points]) / len(self.points),
+                            sum([p.yd for p in self.points]) / len(self.points))
         self.min_y, self.min_x, self.max_y, self.max_x, self.center = min_y, min_x, max_y, max_x, center
 
         self.points = self._order_points(self.points)
-- 
2.43.0


From a82053709741ae86b0ad20387bfd7a635fd2100a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:23 +0000
Subject: [PATCH 04/36] fix: move every connected edge when combining two
 vertices

The list was changed while being iterated over, so every other edge kept the
removed vertex as its origin.
---
 foronoi/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 6c25b95..6b412a6 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -555,7 +555,7 @@ class Algorithm(Subject):
                 v2: Vertex = edge.twin.origin
 
                 # Move connected edges from v1 to v2
-                for connected in v1.connected_edges:
+                for connected in list(v1.connected_edges):
                     connected.origin = v2
                     v1.connected_edges.remove(connected)
                     v2.connected_edges.append(connected)
-- 
2.43.0


From 004308190f3de3023ab30d7c1e238c9ff27ccfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 05/36] fix: start every diagram from fresh polygon corners

The clipping vertices of a diagram stayed in the polygon, and its corner
vertices stayed connected, so a second diagram on the same polygon came out
wrong and changed the first one.
---
 foronoi/graph/polygon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 3f87038..38fb79f 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -130,6 +130,9 @@ class Polygon(Subject):
         clipped_edges: list(HalfEdge)
             A list of clipped edges
         """
+        # Start from unconnected corners, because the polygon may have been used for another diagram before
+        self.polygon_vertices = [Vertex(point.xd, point.yd) for point in self.points]
+
         resulting_edges = list()
         for edge in edges:
 
-- 
2.43.0


From d857f90037f2ab0772586c555a014c08b5391d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 06/36] fix: start create_diagram from an empty status
 structure and edge list

The documented first step of create_diagram initializes an empty status
structure and edge list, but a second call continued on those of the first.
---
 foronoi/algorithm.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 6b412a6..6e2ff7b 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -108,6 +108,16 @@ class Algorithm(Subject):
             Event queue for upcoming site and circle events
         """
 
+        # Start from an empty state, because a diagram may have been created (or aborted) before
+        self.event_queue = PriorityQueue()
+        self.event = None
+        self.status_tree = None
+        self.doubly_connected_edge_list = []
+        self.sweep_line = float("inf")
+        self._arcs = set()
+        self.edges = list()
+        self._vertices = set()
+
         # Store the points for visualization
         self.sites = points
 
-- 
2.43.0


From 523e7c696ee186324623cf0e3d6347669e9e98f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 07/36] fix: deliver a message to every observer when one
 detaches during the update

Detaching from within update() shortened the list being iterated over, so the
next observer missed the message.
---
 foronoi/observers/subject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/observers/subject.py b/foronoi/observers/subject.py
index 021ba7d..27df9bd 100644
--- a/foronoi/observers/subject.py
+++ b/foronoi/observers/subject.py
@@ -46,7 +46,7 @@ class Subject:
         message: Message
             The message type
         """
-        for observer in self._observers:
+        for observer in list(self._observers):
             observer.update(self._root_sender, message, **kwargs)
         return self
 
-- 
2.43.0


From 189617f0091cd5847f1ce58020b41da1c1b921a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 08/36] fix: do not write an observer's settings into the
 shared presets

The settings of one VoronoiObserver were applied to every later observer and
to Visualizer.plot_all(**Presets...).
---
 foronoi/observers/voronoi_observer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foronoi/observers/voronoi_observer.py b/foronoi/observers/voronoi_observer.py
index bedbbc4..cb62250 100644
--- a/foronoi/observers/voronoi_observer.py
+++ b/foronoi/observers/voronoi_observer.py
@@ -82,20 +82,20 @@ class VoronoiObserver(Observer, ABC):
 
         if message == Message.STEP_FINISHED and self.visualize_steps:
             vis = Visualizer(subject, canvas_offset=self.canvas_offset)
-            settings = Presets.construction
+            settings = dict(Presets.construction)
             settings.update(self.settings)
             assert subject.sweep_line == subject.event.yd
             result = vis.plot_all(**settings)
             plt.title(str(subject.event) + "\n")
         elif message == Message.SWEEP_FINISHED and self.visualize_before_clipping:
             vis = Visualizer(subject, canvas_offset=self.canvas_offset)
-            settings = Presets.clipping
+            settings = dict(Presets.clipping)
             settings.update(self.settings)
             result = vis.plot_all(**settings)
             plt.title("Sweep finished\n")
         elif message == Message.VORONOI_FINISHED and self.visualize_result:
             vis = Visualizer(subject, canvas_offset=self.canvas_offset)
-            settings = Presets.final
+            settings = dict(Presets.final)
             settings.update(self.settings)
             result = vis.plot_all(**settings)
             plt.title("Voronoi completed\n")
-- 
2.43.0


From 474e12e247511512f51e7b7abc896ac3186b37ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 09/36] fix: keep the status tree balanced while handling sites
 on the top row

The rebalancing step was skipped, so a row of about a thousand sites at the
same height made the tree a chain and ended in a RecursionError.
---
 foronoi/algorithm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 6e2ff7b..d5428ca 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -335,6 +335,7 @@ class Algorithm(Subject):
 
         # If the right breakpoint does not intersect, we don't need to insert circle events.
         if not breakpoint_right.does_intersect():
+            self.status_tree = Tree.balance_and_propagate(root)
             return
 
         node_a, node_b, node_c = root.left.predecessor, root.left, root.right.left
-- 
2.43.0


From 909746be1aac38163eec09afcbe686a9d791311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:11 +0000
Subject: [PATCH 10/36] fix: send a shared polygon's messages to the diagram
 being created

A polygon used for several diagrams kept reporting to the diagram that was
constructed last, or to the observers that were attached last, whichever
diagram was actually being created.
---
 foronoi/algorithm.py         | 3 +++
 foronoi/observers/subject.py | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index d5428ca..1dad023 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -160,6 +160,9 @@ class Algorithm(Subject):
 
         points = [Point(x, y) for x, y in points]
 
+        # Let the polygon report to this diagram's observers, because it may be shared with another diagram
+        self.bounding_poly.inherit_observers_from(self)
+
         # Initialize all points
         self.initialize(points)
         index = 0
diff --git a/foronoi/observers/subject.py b/foronoi/observers/subject.py
index 27df9bd..24cd486 100644
--- a/foronoi/observers/subject.py
+++ b/foronoi/observers/subject.py
@@ -69,16 +69,19 @@ class Subject:
         parent._add_child(self)
         self._root_sender = parent
         self._child_sender = self
+        self._observers = parent.get_observers()
 
     def _add_child(self, child):
         """
         Add child
         """
-        self._children.append(child)
+        if child not in self._children:
+            self._children.append(child)
 
     def _update_children(self):
         """
         Send the observers to the children
         """
         for child in self._children:
-            child._observers = self.get_observers()
+            if child._root_sender is self:
+                child._observers = self.get_observers()
-- 
2.43.0


From a8bf38b1e30c9d63ea68d7157ade0f8e30e7475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:11 +0000
Subject: [PATCH 11/36] fix: use the figure size given to VoronoiObserver

The figsize argument was stored but never passed on to the Visualizer.
---
 foronoi/observers/voronoi_observer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foronoi/observers/voronoi_observer.py b/foronoi/observers/voronoi_observer.py
index cb62250..4055cbe 100644
--- a/foronoi/observers/voronoi_observer.py
+++ b/foronoi/observers/voronoi_observer.py
@@ -81,20 +81,20 @@ class VoronoiObserver(Observer, ABC):
             return False
 
         if message == Message.STEP_FINISHED and self.visualize_steps:
-            vis = Visualizer(subject, canvas_offset=self.canvas_offset)
+            vis = Visualizer(subject, canvas_offset=self.canvas_offset, figsize=self.figsize)
             settings = dict(Presets.construction)
             settings.update(self.settings)
             assert subject.sweep_line == subject.event.yd
             result = vis.plot_all(**settings)
             plt.title(str(subject.event) + "\n")
         elif message == Message.SWEEP_FINISHED and self.visualize_before_clipping:
-            vis = Visualizer(subject, canvas_offset=self.canvas_offset)
+            vis = Visualizer(subject, canvas_offset=self.canvas_offset, figsize=self.figsize)
             settings = dict(Presets.clipping)
             settings.update(self.settings)
             result = vis.plot_all(**settings)
             plt.title("Sweep finished\n")
         elif message == Message.VORONOI_FINISHED and self.visualize_result:
-            vis = Visualizer(subject, canvas_offset=self.canvas_offset)
+            vis = Visualizer(subject, canvas_offset=self.canvas_offset, figsize=self.figsize)
             settings = dict(Presets.final)
             settings.update(self.settings)
             result = vis.plot_all(**settings)
-- 
2.43.0


From 8da364b44353e8049b3c79d9f259393f9898630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:55 +0000
Subject: [PATCH 12/36] fix: start walking the boundary in the cell that it
 ends in

A bisector through the first corner left it undecided by distance which cell the boundary starts in.
---
 foronoi/graph/polygon.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 38fb79f..d5651ad 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -72,6 +72,12 @@ class Polygon(Subject):
         vertices = self._get_ordered_vertices(self.polygon_vertices)
         vertices = list(vertices) + [vertices[0]]  # <- The extra vertex added here, should be removed later
         cell = self._get_closest_point(vertices[0], points)
+
+        # The boundary starts in the cell that it ends in, which is not clear from the distance when it is a tie
+        for vertex in vertices:
+            if len(vertex.connected_edges) > 0:
+                cell = vertex.connected_edges[0].twin.incident_point
+
         previous_edge = None
         for index in range(0, len(vertices) - 1):
 
-- 
2.43.0


From ac41f1db15f5a81669f4e5d050d21c94e9110c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:55 +0000
Subject: [PATCH 13/36] fix: let no ray slip between two sides of the polygon
 at a corner

Rounding could place the intersection just beyond the end of both sides, which lost the edge.
---
 foronoi/graph/algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foronoi/graph/algebra.py b/foronoi/graph/algebra.py
index 0ed5ab5..8633fb4 100644
--- a/foronoi/graph/algebra.py
+++ b/foronoi/graph/algebra.py
@@ -43,7 +43,8 @@ class Algebra:
         t1 = np.cross(v2, v1) / np.dot(v2, v3)
         t2 = np.dot(v1, v3) / np.dot(v2, v3)
 
-        if t1 > 0.0 and 0.0 <= t2 <= 1.0:
+        # Allow for rounding errors, so that a ray through the corner of a polygon does not slip between its sides
+        if t1 > 0.0 and -1e-12 <= t2 <= 1.0 + 1e-12:
             return [orig + t1 * direction]
         return []
 
-- 
2.43.0


From bac52232122fc6b8b62a7ddc874d562ce3d46972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:01 +0000
Subject: [PATCH 14/36] fix: clip edges of sites on the top row when the
 polygon's top is at y=0

---
 foronoi/nodes/breakpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/nodes/breakpoint.py b/foronoi/nodes/breakpoint.py
index c3275ad..590562c 100644
--- a/foronoi/nodes/breakpoint.py
+++ b/foronoi/nodes/breakpoint.py
@@ -86,7 +86,7 @@ class Breakpoint:
             result.xd = (i.xd + j.xd) / 2
 
             if j.xd < i.xd:
-                result.yd = max_y or float('inf')
+                result.yd = max_y if max_y is not None else float('inf')
                 return result
 
         # Handle cases where one point's y-coordinate is the same as the sweep line
-- 
2.43.0


From 0ce61653af0ab051e00ef328674ae76cf49b470f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:01 +0000
Subject: [PATCH 15/36] fix: let edges of sites on the top row start above the
 polygon

An edge that starts exactly at the polygon's top was lost when rounding put the intersection just beyond its start.
---
 foronoi/graph/polygon.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index d5651ad..8c94ce9 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -161,11 +161,14 @@ class Polygon(Subject):
         # Sweep line position, low enough for every breakpoint to have left the polygon
         sweep_line = self.min_y - (self.max_y - self.min_y) - (self.max_x - self.min_x)
 
+        # Top for infinitely high breakpoints, high enough for the edge to cross the polygon despite rounding errors
+        top = self.max_y + (self.max_y - self.min_y)
+
         # Start should be a breakpoint
-        start = edge.get_origin(y=sweep_line, max_y=self.max_y)
+        start = edge.get_origin(y=sweep_line, max_y=top)
 
         # End should be a vertex
-        end = edge.twin.get_origin(y=sweep_line, max_y=self.max_y)
+        end = edge.twin.get_origin(y=sweep_line, max_y=top)
 
         # Get point of intersection
         point = self._get_intersection_point(end, start)
-- 
2.43.0


From d3109d6c8290cc59100a84f0ba8313730bea12b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 16/36] fix: do not take the root of a slightly negative
 discriminant

Rounding made create_diagram raise InvalidOperation for a site right below the point where two others and it are equally far.
---
 foronoi/nodes/breakpoint.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/foronoi/nodes/breakpoint.py b/foronoi/nodes/breakpoint.py
index 590562c..aa5cae6 100644
--- a/foronoi/nodes/breakpoint.py
+++ b/foronoi/nodes/breakpoint.py
@@ -99,9 +99,11 @@ class Breakpoint:
             # We now need to solve for x
             # 1/u * (x**2 - 2*a*x + a**2 + b**2 - l**2) = 1/v * (x**2 - 2*c*x + c**2 + d**2 - l**2)
             # Then we let Wolfram alpha do the heavy work for us, and we put it here in the code :D
-            x = -(Decimal.sqrt(
-                v * (a ** 2 * u - 2 * a * c * u + b ** 2 * (u - v) + c ** 2 * u) + d ** 2 * u * (v - u) + l ** 2 * (
-                    u - v) ** 2) + a * v - c * u) / (u - v)
+            discriminant = v * (a ** 2 * u - 2 * a * c * u + b ** 2 * (u - v) + c ** 2 * u) + d ** 2 * u * (
+                    v - u) + l ** 2 * (u - v) ** 2
+
+            # Rounding can make this slightly negative when the sweep line is (almost) at one of the points
+            x = -(Decimal.sqrt(max(discriminant, Decimal(0))) + a * v - c * u) / (u - v)
             result.xd = x
 
         # We have to re-evaluate this, since the point might have been changed
-- 
2.43.0


From 8d629146b556baf3fd55b565d53706eba1139ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:05 +0000
Subject: [PATCH 17/36] fix: accept a float canvas_offset as documented

---
 foronoi/visualization/visualizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index b8f0535..26c2aa4 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -545,6 +545,7 @@ class Visualizer:
 
     @staticmethod
     def _canvas_size(bounding_polygon, offset):
+        offset = Decimal(str(offset))
         max_y = bounding_polygon.max_y + offset
         max_x = bounding_polygon.max_x + offset
         min_x = bounding_polygon.min_x - offset
-- 
2.43.0


From 4db97b1de351c20c397dfa4ce26b6fee45e03aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:40 +0000
Subject: [PATCH 18/36] fix: take a breakpoint's height from the wider of its
 two parabolas

---
 foronoi/nodes/breakpoint.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/foronoi/nodes/breakpoint.py b/foronoi/nodes/breakpoint.py
index aa5cae6..5e2762e 100644
--- a/foronoi/nodes/breakpoint.py
+++ b/foronoi/nodes/breakpoint.py
@@ -106,6 +106,10 @@ class Breakpoint:
             x = -(Decimal.sqrt(max(discriminant, Decimal(0))) + a * v - c * u) / (u - v)
             result.xd = x
 
+            # The wider parabola gives the more precise height
+            if abs(u) < abs(v):
+                p = j
+
         # We have to re-evaluate this, since the point might have been changed
         a = p.xd
         b = p.yd
-- 
2.43.0


From 97b8fa7337014d32c1ea3956717fff2022e93930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:33 +0000
Subject: [PATCH 19/36] fix: keep the stored heights right while rebalancing

---
 foronoi/tree/tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/foronoi/tree/tree.py b/foronoi/tree/tree.py
index 07a9a60..c4e0e44 100644
--- a/foronoi/tree/tree.py
+++ b/foronoi/tree/tree.py
@@ -187,6 +187,8 @@ class Tree:
         :return: The root of the balanced tree
         """
 
+        # A rotation further down may have changed the height
+        node.update_height()
         node = Tree.balance(node)
 
         if node.parent is None:
-- 
2.43.0


From 4475dab76a2eda35502d8670917410aff4d4ce69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:34 +0000
Subject: [PATCH 20/36] fix: pass triangles on to plot_event by name

---
 foronoi/visualization/visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index 26c2aa4..1e1baa3 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -185,7 +185,7 @@ class Visualizer:
         self.plot_vertices() if vertices else False
         self.plot_sites(show_labels=site_labels) if sites else False
         self.plot_outgoing_edges(scale=scale) if outgoing_edges else False
-        self.plot_event(triangles) if events else False
+        self.plot_event(triangles=triangles) if events else False
         self.plot_arcs(plot_arcs=arcs, show_labels=arc_labels) if beach_line else False
         self._set_limits()
         return self
-- 
2.43.0


From 2e4748d7f6e0640db35326174ff4c8e42a91e155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:36 +0000
Subject: [PATCH 21/36] fix: label the arcs that were plotted

---
 foronoi/visualization/visualizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index 1e1baa3..383323d 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -400,6 +400,7 @@ class Visualizer:
         x = np.linspace(float(min_x), float(max_x), 1000)
 
         plot_lines = []
+        plotted_arcs = []
 
         for arc in arcs:
             plot_line = arc.get_plot(x, sweep_line)
@@ -412,6 +413,7 @@ class Visualizer:
                     self.canvas.plot(x, plot_line, linestyle="--", color=Colors.ARC)
 
                 plot_lines.append(plot_line)
+                plotted_arcs.append(arc)
 
         # Plot the bottom of all the arcs
         if len(plot_lines) > 0:
@@ -419,7 +421,7 @@ class Visualizer:
             self.canvas.plot(x, bottom, color=Colors.BEACH_LINE)
 
             if show_labels:
-                self._plot_arc_labels(x, plot_lines, bottom, sweep_line, arcs)
+                self._plot_arc_labels(x, plot_lines, bottom, sweep_line, plotted_arcs)
 
         return self
 
-- 
2.43.0


From bbd9c73780e6b7c0e695968c560676c276fbcc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:19 +0000
Subject: [PATCH 22/36] fix: decide the orientation of three sites without
 angles from a far away centre

---
 foronoi/graph/algebra.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/foronoi/graph/algebra.py b/foronoi/graph/algebra.py
index 8633fb4..097460f 100644
--- a/foronoi/graph/algebra.py
+++ b/foronoi/graph/algebra.py
@@ -68,16 +68,11 @@ class Algebra:
 
     @staticmethod
     def check_clockwise(a, b, c, center):
-        angle_1 = Algebra.calculate_angle(a, center)
-        angle_2 = Algebra.calculate_angle(b, center)
-        angle_3 = Algebra.calculate_angle(c, center)
+        # The order around the centre of their circle is the orientation of the three points. The angles are not used,
+        # because they are all the same to a float if the centre is very far away.
+        cross = (b.xd - a.xd) * (c.yd - a.yd) - (b.yd - a.yd) * (c.xd - a.xd)
 
-        counter_clockwise = (angle_3 - angle_1) % 360 > (angle_3 - angle_2) % 360
-
-        if counter_clockwise:
-            return False
-
-        return True
+        return cross < 0
 
 
 if __name__ == "__main__":
-- 
2.43.0


From fd83f5dfe0d63775dfefacca83ce4124973069ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:26 +0000
Subject: [PATCH 23/36] fix: clip edges precisely that come from extremely far
 away

---
 foronoi/graph/polygon.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 8c94ce9..5bf2f09 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -1,3 +1,5 @@
+from decimal import Decimal
+
 from foronoi.graph import Coordinate, Vertex, HalfEdge
 from foronoi.graph.algebra import Algebra
 import numpy as np
@@ -235,6 +237,9 @@ class Polygon(Subject):
 
         point = None
 
+        # A ray that starts extremely far away is not precise enough
+        orig = self._get_origin_nearby(orig, end)
+
         for i in range(0, len(p) - 1):
             intersection_point = Algebra.get_intersection(orig, end, p[i], p[i + 1])
             if intersection_point:
@@ -253,3 +258,20 @@ class Polygon(Subject):
                 point = points[np.argmax(distances)]
 
         return point
+
+    def _get_origin_nearby(self, orig, end):
+        size = (self.max_x - self.min_x) + (self.max_y - self.min_y)
+
+        if not orig or not end or Algebra.distance(orig, self.center) < 1000 * size:
+            return orig
+
+        # The point of the line that is closest to the center, seen from the end that is closest to the center
+        base, other = sorted([orig, end], key=lambda point: Algebra.distance(point, self.center))
+        dx, dy = other.xd - base.xd, other.yd - base.yd
+        length = Decimal.sqrt(dx ** 2 + dy ** 2)
+        distance = ((self.center.xd - base.xd) * dx + (self.center.yd - base.yd) * dy) / length
+
+        # Start outside the polygon, but not further away than the origin
+        distance = max(distance - 2 * size, 0) if base is orig else min(distance + 2 * size, length)
+
+        return Coordinate(base.xd + distance / length * dx, base.yd + distance / length * dy)
-- 
2.43.0


From f0d8a47d77d90656ecd5ee0c5b3c84e615132907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:43 +0000
Subject: [PATCH 24/36] fix: end an edge at a vertex on the boundary of the
 polygon

---
 foronoi/graph/polygon.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 5bf2f09..2438e71 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -116,7 +116,7 @@ class Polygon(Subject):
             # Set previous edge
             previous_edge = edge
 
-        existing_vertices = [i for i in existing_vertices if self.inside(i)]
+        existing_vertices = [i for i in existing_vertices if self._inside_or_on_edge(i)]
 
         return edges, vertices[:-1] + existing_vertices
 
@@ -144,10 +144,10 @@ class Polygon(Subject):
         resulting_edges = list()
         for edge in edges:
 
-            if edge.get_origin() is None or not self.inside(edge.get_origin()):
+            if edge.get_origin() is None or not self._inside_or_on_edge(edge.get_origin()):
                 self._finish_edge(edge)
 
-            if edge.twin.get_origin() is None or not self.inside(edge.twin.get_origin()):
+            if edge.twin.get_origin() is None or not self._inside_or_on_edge(edge.twin.get_origin()):
                 self._finish_edge(edge.twin)
 
             if edge.get_origin() is not None and edge.twin.get_origin() is not None:
@@ -175,8 +175,12 @@ class Polygon(Subject):
         # Get point of intersection
         point = self._get_intersection_point(end, start)
 
+        # An edge that leaves the polygon right where it starts ends there as well
+        if point is None and end is not None and isinstance(edge.twin.origin, Vertex) and self._on_edge(end):
+            point = end
+
         # Create vertex
-        v = Vertex(point.x, point.y) if point is not None else Vertex(None, None)
+        v = Vertex(point.xd, point.yd) if point is not None else Vertex(None, None)
         v.connected_edges.append(edge)
         edge.origin = v
         self.polygon_vertices.append(v)
@@ -184,6 +188,9 @@ class Polygon(Subject):
         return edge
 
     def _on_edge(self, point):
+        # Allow for rounding errors
+        tolerance = Decimal("1e-11") * max(self.max_x - self.min_x, self.max_y - self.min_y)
+
         vertices = self.points + self.points[0:1]
         for i in range(0, len(vertices) - 1):
             dxc = point.xd - vertices[i].xd
@@ -191,12 +198,20 @@ class Polygon(Subject):
             dx1 = vertices[i + 1].xd - vertices[i].xd
             dy1 = vertices[i + 1].yd - vertices[i].yd
 
-            cross = dxc * dy1 - dyc * dx1
+            length = Decimal.sqrt(dx1 ** 2 + dy1 ** 2)
+            if length == 0:
+                continue
 
-            if cross == 0:
+            distance = abs(dxc * dy1 - dyc * dx1) / length
+            position = (dxc * dx1 + dyc * dy1) / length
+
+            if distance <= tolerance and -tolerance <= position <= length + tolerance:
                 return True
         return False
 
+    def _inside_or_on_edge(self, point):
+        return self.inside(point) or self._on_edge(point)
+
     def inside(self, point):
         """Tests whether a point is inside a polygon.
         Based on the Javascript implementation from https://github.com/substack/point-in-polygon
-- 
2.43.0


From 471d764ebc25aeda31861bb7a8593816c4b18add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:24 +0000
Subject: [PATCH 25/36] fix: draw what is given even when it is empty or zero

plot_sites, plot_edges, plot_vertices and their siblings took an explicit
empty list, and a sweep line at 0, for a missing argument.
---
 foronoi/visualization/visualizer.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index 383323d..ae283fd 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -228,7 +228,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        vertices = vertices or self.voronoi.vertices
+        vertices = vertices if vertices is not None else self.voronoi.vertices
 
         xs = [vertex.xd for vertex in vertices]
         ys = [vertex.yd for vertex in vertices]
@@ -254,7 +254,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        vertices = vertices or self.voronoi.vertices
+        vertices = vertices if vertices is not None else self.voronoi.vertices
         scale = Decimal(str(scale))
 
         for vertex in vertices:
@@ -300,7 +300,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        points = points or self.voronoi.sites
+        points = points if points is not None else self.voronoi.sites
 
         xs = [point.xd for point in points]
         ys = [point.yd for point in points]
@@ -335,8 +335,8 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        edges = edges or self.voronoi.edges
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        edges = edges if edges is not None else self.voronoi.edges
+        sweep_line = sweep_line if sweep_line is not None else self.voronoi.sweep_line
         for edge in edges:
             self._plot_edge(edge, sweep_line, show_labels, color)
             self._plot_edge(edge.twin, sweep_line, print_name=False, color=color)
@@ -360,8 +360,8 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        edges = edges or self.voronoi.edges
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        edges = edges if edges is not None else self.voronoi.edges
+        sweep_line = sweep_line if sweep_line is not None else self.voronoi.sweep_line
         for edge in edges:
             self._draw_line_from_edge_midpoint_to_incident_point(edge, sweep_line)
             self._draw_line_from_edge_midpoint_to_incident_point(edge.twin, sweep_line)
@@ -389,8 +389,8 @@ class Visualizer:
         self: Visualizer
 
         """
-        arcs = arcs or self.voronoi.arcs
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        arcs = arcs if arcs is not None else self.voronoi.arcs
+        sweep_line = sweep_line if sweep_line is not None else self.voronoi.sweep_line
 
         # Get axis limits
         min_x, max_x, min_y, max_y = self.min_x, self.max_x, self.min_y, self.max_y
@@ -449,7 +449,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        sweep_line = sweep_line if sweep_line is not None else self.voronoi.sweep_line
 
         # Get axis limits
         min_x, max_x, min_y, max_y = self.min_x, self.max_x, self.min_y, self.max_y
@@ -474,7 +474,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        event = event or self.voronoi.event
+        event = event if event is not None else self.voronoi.event
         if isinstance(event, CircleEvent):
             self._plot_circle(event, show_triangle=triangles)
 
-- 
2.43.0


From 7c71fcaab563291a228bc1ff5937dcc4863e103e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:55 +0000
Subject: [PATCH 26/36] fix: clip an unbounded breakpoint of two sites on the
 sweep line

Its height was infinite even where a top (max_y) was given, so figures of
the first step missed the edge between sites in the top row.
---
 foronoi/nodes/breakpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/nodes/breakpoint.py b/foronoi/nodes/breakpoint.py
index 5e2762e..abafbac 100644
--- a/foronoi/nodes/breakpoint.py
+++ b/foronoi/nodes/breakpoint.py
@@ -118,7 +118,7 @@ class Breakpoint:
 
         # Handle degenerate case where parabolas don't intersect
         if u == 0:
-            result.yd = float("inf")
+            result.yd = max_y if max_y is not None else float("inf")
             return result
 
         # And we put everything back in y
-- 
2.43.0


From 0fc15bcc532d2d1e8d9cf13561815b614b7e86a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:03 +0000
Subject: [PATCH 27/36] fix: delete nodes of a tree with two children, with
 moving keys, and at the root

Tree.delete asked the successor for an attribute nodes do not have, compared
keys without the arguments get_key needs, and left the new root pointing to
the deleted node.
---
 foronoi/tree/tree.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/foronoi/tree/tree.py b/foronoi/tree/tree.py
index c4e0e44..82a69d8 100644
--- a/foronoi/tree/tree.py
+++ b/foronoi/tree/tree.py
@@ -149,22 +149,24 @@ class Tree:
         if root is None:
             return root
 
-        elif key < root.get_key():
-            root.left = Tree.delete(root.left, key)
+        elif key < root.get_key(**kwargs):
+            root.left = Tree.delete(root.left, key, **kwargs)
 
-        elif key > root.get_key():
-            root.right = Tree.delete(root.right, key)
+        elif key > root.get_key(**kwargs):
+            root.right = Tree.delete(root.right, key, **kwargs)
 
         else:
-            if root.left is None:
-                return root.right
+            if root.left is None or root.right is None:
+                child = root.left if root.right is None else root.right
 
-            elif root.right is None:
-                return root.left
+                # The child takes the place of the deleted node
+                if child is not None:
+                    child.parent = root.parent
+                return child
 
             temp = root.right.minimum()
             root.data = temp.data
-            root.right = Tree.delete(root.right, temp.value.get_key(**kwargs))
+            root.right = Tree.delete(root.right, temp.get_key(**kwargs), **kwargs)
 
         # If the tree has only one node, simply return it
         if root is None:
-- 
2.43.0


From 273bc6a1464c2e321bf11ce77792f99facee62a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:28 +0000
Subject: [PATCH 28/36] fix: keep the tree balanced when equal keys are
 inserted

None of the four cases of Tree.insert applied when the new key equalled the
child's, so equal keys made a list. Tree.balance decides by heights.
---
 foronoi/tree/tree.py | 25 ++-----------------------
 1 file changed, 2 insertions(+), 23 deletions(-)

diff --git a/foronoi/tree/tree.py b/foronoi/tree/tree.py
index 82a69d8..dfe63b5 100644
--- a/foronoi/tree/tree.py
+++ b/foronoi/tree/tree.py
@@ -119,29 +119,8 @@ class Tree:
         # Update the height of the ancestor node
         root.update_height()
 
-        # If the node is unbalanced, then try out the 4 cases
-        balance = root.balance
-        # root = Tree.balance(root)
-
-        # Case 1 - Left Left
-        if balance > 1 and node_key < root.left.get_key(**kwargs):
-            return Tree.rotate_right(root)
-
-        # Case 2 - Right Right
-        if balance < -1 and node_key > root.right.get_key(**kwargs):
-            return Tree.rotate_left(root)
-
-        # Case 3 - Left Right
-        if balance > 1 and node_key > root.left.get_key(**kwargs):
-            root.left = Tree.rotate_left(root.left)
-            return Tree.rotate_right(root)
-
-        # Case 4 - Right Left
-        if balance < -1 and node_key < root.right.get_key(**kwargs):
-            root.right = Tree.rotate_right(root.right)
-            return Tree.rotate_left(root)
-
-        return root
+        # Balance the tree
+        return Tree.balance(root)
 
     @staticmethod
     def delete(root: Node, key: int, **kwargs):
-- 
2.43.0


From 5571a613597a648062b18f538130e9c54c2fdc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:27 +0000
Subject: [PATCH 29/36] fix: detach the given observer, not another one that is
 equal to it

---
 foronoi/observers/subject.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/foronoi/observers/subject.py b/foronoi/observers/subject.py
index 24cd486..bd67c77 100644
--- a/foronoi/observers/subject.py
+++ b/foronoi/observers/subject.py
@@ -33,7 +33,11 @@ class Subject:
         observer: Observer
             An observer to remove from this subject
         """
-        self._observers.remove(observer)
+        # Look for the observer itself, because another one may be equal to it
+        index = next((i for i, attached in enumerate(self._observers) if attached is observer), None)
+        if index is None:
+            raise ValueError("The observer is not attached to this subject")
+        del self._observers[index]
         self._update_children()
         return self
 
-- 
2.43.0


From b3aa47d8119f8bc426eef4d313ee6d31fbd07493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:27 +0000
Subject: [PATCH 30/36] fix: call a callback that is an empty collection

---
 foronoi/observers/debug_observer.py   | 2 +-
 foronoi/observers/voronoi_observer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/foronoi/observers/debug_observer.py b/foronoi/observers/debug_observer.py
index 797ca04..be9d64d 100644
--- a/foronoi/observers/debug_observer.py
+++ b/foronoi/observers/debug_observer.py
@@ -16,7 +16,7 @@ class DebugObserver(Observer, ABC):
             By default, the DebugObserver prints the debug message. When a callback function is given, it will pass
             the debug message as string to the callback function.
         """
-        self.callback = callback or (lambda _: print(_))
+        self.callback = callback if callback is not None else (lambda _: print(_))
 
     def update(self, subject: Subject, message: Message, **kwargs):
         """
diff --git a/foronoi/observers/voronoi_observer.py b/foronoi/observers/voronoi_observer.py
index 4055cbe..71e242e 100644
--- a/foronoi/observers/voronoi_observer.py
+++ b/foronoi/observers/voronoi_observer.py
@@ -61,7 +61,7 @@ class VoronoiObserver(Observer, ABC):
         self.visualize_steps = visualize_steps
         self.visualize_before_clipping = visualize_before_clipping
         self.visualize_result = visualize_result
-        self.callback = callback or (lambda a, b: plt.show(block=True))
+        self.callback = callback if callback is not None else (lambda a, b: plt.show(block=True))
         self.n_messages = 0
         self.messages = []
         self.settings = settings or {}
-- 
2.43.0


From 8f843832ce9972973a2b0bf44c5c2228b5fcaf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:01 +0000
Subject: [PATCH 31/36] fix: compute breakpoints of sites with almost the same
 height without cancellation

The breakpoint of two sites whose heights differ by less than the precision
allows at a far away sweep line was 0 / 0, so that building the diagram failed.
---
 foronoi/nodes/breakpoint.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/foronoi/nodes/breakpoint.py b/foronoi/nodes/breakpoint.py
index abafbac..2e9601b 100644
--- a/foronoi/nodes/breakpoint.py
+++ b/foronoi/nodes/breakpoint.py
@@ -98,13 +98,16 @@ class Breakpoint:
         else:
             # We now need to solve for x
             # 1/u * (x**2 - 2*a*x + a**2 + b**2 - l**2) = 1/v * (x**2 - 2*c*x + c**2 + d**2 - l**2)
-            # Then we let Wolfram alpha do the heavy work for us, and we put it here in the code :D
-            discriminant = v * (a ** 2 * u - 2 * a * c * u + b ** 2 * (u - v) + c ** 2 * u) + d ** 2 * u * (
-                    v - u) + l ** 2 * (u - v) ** 2
-
-            # Rounding can make this slightly negative when the sweep line is (almost) at one of the points
-            x = -(Decimal.sqrt(max(discriminant, Decimal(0))) + a * v - c * u) / (u - v)
-            result.xd = x
+            # With x = a + t this is (v - u) * t**2 + 2 * h * t - u * w**2 + u * v * (b - d) / 2 = 0
+            w = c - a
+            h = u * w
+            root = Decimal.sqrt(max(u * v * (w ** 2 + (b - d) ** 2), Decimal(0)))
+
+            # Both are the same solution. The first one stays precise if the points have almost the same y-coordinate.
+            if h > 0:
+                result.xd = a + u * (w ** 2 - v * (b - d) / 2) / (h + root)
+            else:
+                result.xd = a + (h - root) / (2 * (b - d))
 
             # The wider parabola gives the more precise height
             if abs(u) < abs(v):
-- 
2.43.0


From 60a1918bed2ca385c590369fa7e49c766dd1a4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:33 +0000
Subject: [PATCH 32/36] fix: do not divide by the length of a zero-length edge
 far away

---
 foronoi/graph/polygon.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 2438e71..3cdc21f 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -284,6 +284,11 @@ class Polygon(Subject):
         base, other = sorted([orig, end], key=lambda point: Algebra.distance(point, self.center))
         dx, dy = other.xd - base.xd, other.yd - base.yd
         length = Decimal.sqrt(dx ** 2 + dy ** 2)
+
+        # A zero-length edge has no direction
+        if length == 0:
+            return orig
+
         distance = ((self.center.xd - base.xd) * dx + (self.center.yd - base.yd) * dy) / length
 
         # Start outside the polygon, but not further away than the origin
-- 
2.43.0


From fac6b9f574e4b9c8cd7fb66a4cd65f641a4e299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:33 +0000
Subject: [PATCH 33/36] fix: keep both circle events that a site creates at one
 location

The right event was dropped if it had the same location as the left event, so
that an arc was never removed when a site is almost on the circle of others.
---
 foronoi/algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 1dad023..2c3d15b 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -478,7 +478,8 @@ class Algorithm(Subject):
             self.event_queue.put(left_event)
             node_b.data.circle_event = left_event
 
-        if right_event is not None and left_event != right_event:
+        # The right event can have the same location as the left event, but it never concerns the same arc
+        if right_event is not None:
             self.event_queue.put(right_event)
             node_e.data.circle_event = right_event
 
-- 
2.43.0


From 6632a10024be895eff5965e9b4c886f2252da16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:33 +0000
Subject: [PATCH 34/36] fix: compute the area of cells far away from the origin
 precisely

The products of large coordinates lost all digits of the area: a cell of 0.175
at (10000000, -10000000) had an area of 0.1875.
---
 foronoi/graph/point.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/foronoi/graph/point.py b/foronoi/graph/point.py
index 17772f8..5000e2b 100644
--- a/foronoi/graph/point.py
+++ b/foronoi/graph/point.py
@@ -122,4 +122,7 @@ class Point(Coordinate):
 
     @staticmethod
     def _shoelace(x, y):
+        # Relative to the first vertex, because the products of large coordinates are not precise enough
+        x = np.subtract(x, x[:1])
+        y = np.subtract(y, y[:1])
         return 0.5 * np.abs(np.dot(x, np.roll(y, 1)) - np.dot(y, np.roll(x, 1)))
-- 
2.43.0


From 7d4ed3516977edfded4e3dfcea7eadf1eeb62136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:39 +0000
Subject: [PATCH 35/36] fix: draw arcs far away from the origin precisely

---
 foronoi/nodes/arc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/foronoi/nodes/arc.py b/foronoi/nodes/arc.py
index 52f79db..6da00cc 100644
--- a/foronoi/nodes/arc.py
+++ b/foronoi/nodes/arc.py
@@ -52,10 +52,11 @@ class Arc:
         if i.y - sweep_line == 0:
             return None
 
-        # Calculate the y value for each element of the x vector
+        # Calculate the y value for each element of the x vector, relative to the origin, because the squares of large
+        # coordinates are not precise enough
 
         u = 2 * (i.y - sweep_line)
-        v = (x ** 2 - 2 * i.x * x + i.x ** 2 + i.y ** 2 - sweep_line ** 2)
-        y = v/u
+        v = (x - i.x) ** 2
+        y = v/u + (i.y + sweep_line)/2
 
         return y
-- 
2.43.0


From 4a7ff30340be7bb72c95074265153f75a001ca59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:17 +0000
Subject: [PATCH 36/36] fix: leave out all removed vertices at once instead of
 searching each in the list

---
 foronoi/algorithm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 2c3d15b..fc6f1ad 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -560,6 +560,7 @@ class Algorithm(Subject):
         """
 
         resulting_edges = []
+        removed_vertices = set()
         for edge in self.edges:
             start = edge.get_origin()
             end = edge.twin.get_origin()
@@ -576,7 +577,7 @@ class Algorithm(Subject):
                     v2.connected_edges.append(connected)
 
                 # Remove vertex v1
-                self._vertices.remove(v1)
+                removed_vertices.add(v1)
 
                 # Delete the edge
                 edge.delete()
@@ -585,3 +586,6 @@ class Algorithm(Subject):
             else:
                 resulting_edges.append(edge)
             self.edges = resulting_edges
+
+        # Leave the removed vertices out at once, because looking up each of them in the list takes quadratic time
+        self._vertices = [vertex for vertex in self._vertices if vertex not in removed_vertices]
-- 
2.43.0

