From 13364cea7cae4adfd0217aa010afd3014f73a709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:40 +0000
Subject: [PATCH 1/7] fix: classify segment spanning several collinear contour
 edges by their union

---
 orient/core/contour.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orient/core/contour.py b/orient/core/contour.py
index 51f930a..7c06787 100644
--- a/orient/core/contour.py
+++ b/orient/core/contour.py
@@ -44,7 +44,10 @@ def relate_segment(contour: Contour,
         if relation is Relation.COMPONENT or relation is Relation.EQUAL:
             return Relation.COMPONENT
         elif relation is Relation.OVERLAP or relation is Relation.COMPOSITE:
-            return Relation.OVERLAP
+            # rest of the segment may lie on the other edges
+            return relate_multisegment(contour,
+                                       context.multisegment_cls([segment]),
+                                       context)
         elif relation is Relation.TOUCH:
             if has_no_touch:
                 has_no_touch = False
-- 
2.43.0


From f5c239afeb25c258517c2c3bf13fb97446d743c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:40 +0000
Subject: [PATCH 2/7] fix: consider all pairs of goal rays when looking for
 crossings at a common vertex

---
 orient/core/events_queue.py | 38 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/orient/core/events_queue.py b/orient/core/events_queue.py
index 7c4ba58..b1cc8ee 100644
--- a/orient/core/events_queue.py
+++ b/orient/core/events_queue.py
@@ -1,5 +1,6 @@
 from abc import abstractmethod
 from functools import partial
+from itertools import combinations
 from typing import (Iterable,
                     List,
                     Optional,
@@ -233,21 +234,20 @@ class LinearEventsQueue(EventsQueue):
              if event.from_test
              else from_goal_events).append(event)
         start = same_start_events[0].start
-        point_event_cosine = self._to_signed_point_event_squared_cosine
-        base_event = min(from_goal_events,
-                         key=partial(point_event_cosine,
-                                     from_goal_events[0].end))
-        base_end = base_event.end
-        largest_angle_event = min(from_goal_events,
-                                  key=partial(point_event_cosine, base_end))
-        largest_angle_end = largest_angle_event.end
-        base_orientation = self.context.angle_orientation(
-                start, base_end, largest_angle_end
-        )
-        if not all_equal(self._point_in_angle(test_event.end, start, base_end,
-                                              largest_angle_end,
-                                              base_orientation)
-                         for test_event in from_test_events):
+        if any(
+                not all_equal(self._point_in_angle(
+                        test_event.end, start, first_goal_event.end,
+                        second_goal_event.end,
+                        self.context.angle_orientation(
+                                start, first_goal_event.end,
+                                second_goal_event.end
+                        )
+                )
+                        for test_event in from_test_events)
+                for first_goal_event, second_goal_event in combinations(
+                        from_goal_events, 2
+                )
+        ):
             for event in same_start_events:
                 left_event = event if event.is_left else event.left
                 left_event.relation = max(left_event.relation,
@@ -321,14 +321,6 @@ class LinearEventsQueue(EventsQueue):
                                 # if angle is degenerate
                                 or Orientation.COUNTERCLOCKWISE))))
 
-    def _to_signed_point_event_squared_cosine(self,
-                                              point: Point,
-                                              event: Event) -> Scalar:
-        dot_product = self.context.dot_product(event.start, point, event.start,
-                                               event.end)
-        return ((2 * (dot_product > 0) - 1) * (dot_product * dot_product)
-                / self.context.points_squared_distance(event.start, event.end))
-
 
 class EventsQueueKey:
     __slots__ = 'orienteer', 'event'
-- 
2.43.0


From 3b8b58523f0f49cc867459fb4a2711f52ecfd26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:40 +0000
Subject: [PATCH 3/7] fix: segment is equal to multisegment consisting of it
 alone

---
 orient/core/multisegment.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/orient/core/multisegment.py b/orient/core/multisegment.py
index 0081c42..0a1244f 100644
--- a/orient/core/multisegment.py
+++ b/orient/core/multisegment.py
@@ -41,8 +41,12 @@ def relate_segment(multisegment: Multisegment, segment: Segment,
     for index, sub_segment in enumerate(multisegment.segments):
         sub_segment_endpoints = sub_segment.start, sub_segment.end
         relation = relate_segments(sub_segment, segment, context)
-        if relation is Relation.COMPONENT or relation is Relation.EQUAL:
-            return Relation.COMPONENT
+        if relation is Relation.COMPONENT:
+            return relation
+        elif relation is Relation.EQUAL:
+            return (relation
+                    if len(multisegment.segments) == 1
+                    else Relation.COMPONENT)
         elif relation is Relation.COMPOSITE:
             if has_no_overlap:
                 has_no_overlap = False
-- 
2.43.0


From 1df3b08c5716d0eb946794fc714e5b36e39f2df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:40 +0000
Subject: [PATCH 4/7] fix: relate segment running through region's boundary by
 sweep instead of endpoints heuristics

---
 orient/core/region.py | 96 +++----------------------------------------
 1 file changed, 6 insertions(+), 90 deletions(-)

diff --git a/orient/core/region.py b/orient/core/region.py
index c92ed39..485b5f5 100644
--- a/orient/core/region.py
+++ b/orient/core/region.py
@@ -14,7 +14,6 @@ from ground.hints import (Box,
 from . import box
 from .contour import (
     equal as contours_equal,
-    orientation as contour_orientation,
     point_vertex_line_divides_angle,
     to_edges_endpoints as contour_to_edges_endpoints,
     to_oriented_edges_endpoints as contour_to_oriented_segments
@@ -118,98 +117,15 @@ def relate_segment(region: Region,
     if (relation_with_contour is Relation.CROSS
             or relation_with_contour is Relation.COMPONENT):
         return relation_with_contour
-    start, end = segment.start, segment.end
-    start_index, start_location = _locate_point(region, start, context)
-    if relation_with_contour is Relation.DISJOINT:
+    elif relation_with_contour is Relation.DISJOINT:
         return (Relation.DISJOINT
-                if start_location is Location.EXTERIOR
+                if (locate_point(region, segment.start, context)
+                    is Location.EXTERIOR)
                 else Relation.WITHIN)
-    elif start_location is Location.EXTERIOR:
-        return Relation.TOUCH
-    elif start_location is Location.INTERIOR:
-        return Relation.ENCLOSED
     else:
-        end_index, end_location = _locate_point(region, end, context)
-        if end_location is Location.EXTERIOR:
-            return Relation.TOUCH
-        elif end_location is Location.INTERIOR:
-            return Relation.ENCLOSED
-        else:
-            angle_orientation = context.angle_orientation
-            border_orientation = contour_orientation(region, context)
-            positively_oriented = (border_orientation
-                                   is Orientation.COUNTERCLOCKWISE)
-            vertices = region.vertices
-            edge_start, edge_end = (vertices[start_index - 1],
-                                    vertices[start_index])
-            if start == edge_start:
-                prev_start = (vertices[start_index - 2]
-                              if positively_oriented
-                              else vertices[start_index])
-                if (angle_orientation(prev_start, edge_start, edge_end)
-                        is border_orientation):
-                    if (angle_orientation(edge_start, prev_start, end)
-                            is border_orientation
-                            or angle_orientation(edge_end, edge_start, end)
-                            is border_orientation):
-                        return Relation.TOUCH
-                elif (angle_orientation(edge_start, prev_start, end)
-                      is angle_orientation(edge_end, edge_start, end)
-                      is border_orientation):
-                    return Relation.TOUCH
-            elif start == edge_end:
-                next_end = (vertices[(start_index + 1) % len(vertices)]
-                            if positively_oriented
-                            else vertices[len(vertices) - start_index - 3])
-                if (angle_orientation(edge_start, edge_end, next_end)
-                        is border_orientation):
-                    if (angle_orientation(edge_end, edge_start, end)
-                            is border_orientation
-                            or angle_orientation(next_end, edge_end, end)
-                            is border_orientation):
-                        return Relation.TOUCH
-                    elif (angle_orientation(edge_end, edge_start, end)
-                          is angle_orientation(next_end, edge_end, end)
-                          is border_orientation):
-                        return Relation.TOUCH
-            elif (angle_orientation(edge_end, edge_start, end)
-                  is border_orientation):
-                return Relation.TOUCH
-            edge_start, edge_end = vertices[end_index - 1], vertices[end_index]
-            if end == edge_start:
-                prev_start = (vertices[end_index - 2]
-                              if positively_oriented
-                              else vertices[end_index])
-                if (angle_orientation(prev_start, edge_start, edge_end)
-                        is border_orientation):
-                    if (angle_orientation(edge_start, prev_start, start)
-                            is border_orientation
-                            or angle_orientation(edge_end, edge_start, start)
-                            is border_orientation):
-                        return Relation.TOUCH
-                elif (angle_orientation(edge_start, prev_start, start)
-                      is angle_orientation(edge_end, edge_start, start)
-                      is border_orientation):
-                    return Relation.TOUCH
-            elif end == edge_end:
-                next_end = (vertices[(end_index + 1) % len(vertices)]
-                            if positively_oriented
-                            else vertices[len(vertices) - end_index - 3])
-                if (angle_orientation(edge_start, edge_end, next_end)
-                        is border_orientation):
-                    if (angle_orientation(edge_end, edge_start, start)
-                            is border_orientation
-                            or angle_orientation(next_end, edge_end, start)
-                            is border_orientation):
-                        return Relation.TOUCH
-                elif (angle_orientation(edge_end, edge_start, start)
-                      is angle_orientation(next_end, edge_end, start)
-                      is border_orientation):
-                    return Relation.TOUCH
-            elif (angle_orientation(edge_end, edge_start, start)
-                  is border_orientation):
-                return Relation.TOUCH
-            return Relation.ENCLOSED
+        return relate_multisegment(region,
+                                   context.multisegment_cls([segment]),
+                                   context)
 
 
 def relate_multisegment(region: Region,
-- 
2.43.0


From 811776b1d87e994e18694060e70a4012f0a31493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:46 +0000
Subject: [PATCH 5/7] fix: detect crossing of contours which happens only at
 their vertices

---
 orient/core/processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orient/core/processing.py b/orient/core/processing.py
index a112357..f218329 100644
--- a/orient/core/processing.py
+++ b/orient/core/processing.py
@@ -102,8 +102,8 @@ def process_closed_linear_queue(events_queue: CompoundEventsQueue,
                   if has_no_touch
                   else Relation.TOUCH)
                  if (has_no_cross
-                     and (test_boundary_not_in_goal_interior
-                          is goal_boundary_not_in_test_interior))
+                     and test_boundary_not_in_goal_interior
+                     and goal_boundary_not_in_test_interior)
                  else Relation.CROSS)
                 if has_no_overlap
                 else Relation.OVERLAP)
-- 
2.43.0


From 1d8d9ef8a8371fcac90c34df3e8d140890054834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:46 +0000
Subject: [PATCH 6/7] fix: classify linear geometry in shaped one by its parts
 inside and outside

---
 orient/core/processing.py | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/orient/core/processing.py b/orient/core/processing.py
index f218329..61cf3d4 100644
--- a/orient/core/processing.py
+++ b/orient/core/processing.py
@@ -114,33 +114,18 @@ def process_linear_compound_queue(events_queue: CompoundEventsQueue,
     # ``goal`` is a compound object
     # ``test`` is a linear object
     test_not_in_goal_interior = has_no_touch = True
-    test_is_subset_of_goal = goal_border_subset_of_test = True
+    test_is_subset_of_goal = True
     for event in events_queue.sweep(stop_x):
-        if event.relation is SegmentsRelation.CROSS:
-            return Relation.CROSS
-        elif has_no_touch and event.relation is not SegmentsRelation.DISJOINT:
+        if has_no_touch and event.relation is not SegmentsRelation.DISJOINT:
             has_no_touch = False
         if event.from_test:
             if test_is_subset_of_goal and event.outside:
                 test_is_subset_of_goal = False
             if test_not_in_goal_interior and event.inside:
                 test_not_in_goal_interior = False
-        elif (goal_border_subset_of_test
-              and event.relation is not SegmentsRelation.OVERLAP):
-            goal_border_subset_of_test = False
-    if events_queue:
-        if events_queue.peek().from_test:
-            if test_is_subset_of_goal:
-                test_is_subset_of_goal = False
-        elif goal_border_subset_of_test:
-            goal_border_subset_of_test = False
-    if goal_border_subset_of_test:
-        return ((Relation.COMPONENT
-                 if test_not_in_goal_interior
-                 else Relation.ENCLOSED)
-                if test_is_subset_of_goal
-                else Relation.TOUCH)
-    elif test_is_subset_of_goal:
+    if events_queue and events_queue.peek().from_test:
+        test_is_subset_of_goal = False
+    if test_is_subset_of_goal:
         return (Relation.COMPONENT
                 if test_not_in_goal_interior
                 else (Relation.WITHIN
-- 
2.43.0


From 09cbd68f03bd4ca75a99169010d680de09a766eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:28 +0000
Subject: [PATCH 7/7] fix: relate segment to polygon by sweep where holes may
 touch the border at its points

A segment crossing or enclosed by the border may meet the interior of the
border only inside of (or along) a hole which touches the border at a point
of the segment.
---
 orient/core/polygon.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/orient/core/polygon.py b/orient/core/polygon.py
index e20fa8d..1c6d6c6 100644
--- a/orient/core/polygon.py
+++ b/orient/core/polygon.py
@@ -48,8 +48,7 @@ def relate_segment(polygon: Polygon,
                    context: Context) -> Relation:
     relation_without_holes = relate_segment_to_region(polygon.border, segment,
                                                       context)
-    if (polygon.holes and (relation_without_holes is Relation.WITHIN
-                           or relation_without_holes is Relation.ENCLOSED)):
+    if polygon.holes and relation_without_holes is Relation.WITHIN:
         relation_with_holes = relate_segment_to_multiregion(polygon.holes,
                                                             segment, context)
         if relation_with_holes is Relation.DISJOINT:
@@ -62,6 +61,12 @@ def relate_segment(polygon: Polygon,
             return Relation.DISJOINT
         else:
             return relation_with_holes
+    elif polygon.holes and (relation_without_holes is Relation.CROSS
+                            or relation_without_holes is Relation.ENCLOSED):
+        # holes may touch the border at points of the segment
+        return relate_multisegment(polygon,
+                                   context.multisegment_cls([segment]),
+                                   context)
     else:
         return relation_without_holes
 
-- 
2.43.0

