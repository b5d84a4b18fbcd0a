From 77260069a3e70a444ea48df21bb23036ff59f991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 01/16] fix: SheetPlex.limit raised AttributeError (builtin
 iter used instead of inter)

---
 plycutter/sheetplex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plycutter/sheetplex.py b/plycutter/sheetplex.py
index 84c7afb..0060c44 100644
--- a/plycutter/sheetplex.py
+++ b/plycutter/sheetplex.py
@@ -83,7 +83,7 @@ class SheetPlex(pyr.PRecord, Autocompletable):
                 for inter_id, inter
                 in self.intersections.items()
                 if inter.sides[0].sheet in sheet_ids
-                and iter.sides[1].sheet in sheet_ids
+                and inter.sides[1].sheet in sheet_ids
             })
         )
 
-- 
2.43.0


From dd18e54c5283ababafb8855b2c45b9927b98395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 02/16] fix: write_dxf wrote NaN coordinates for every sheet
 after an empty one

---
 plycutter/writer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plycutter/writer.py b/plycutter/writer.py
index 3c61c3d..828513e 100644
--- a/plycutter/writer.py
+++ b/plycutter/writer.py
@@ -32,6 +32,10 @@ def write_dxf(filename, geom2ds):
     for name, geom in geom2ds.items():
         print(name)
 
+        if geom.is_empty():
+            # No bounding box: would place everything after it at NaN
+            continue
+
         aabb = AABB()
 
         for polygon in geom.polygons():
-- 
2.43.0


From c10ae3b0842657750d4cf2df497cc60ae576f01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 03/16] fix: random_min_max failed on rounding errors when the
 total is a multiple of a width limit

---
 plycutter/heuristics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/plycutter/heuristics.py b/plycutter/heuristics.py
index fd18b6a..543d727 100644
--- a/plycutter/heuristics.py
+++ b/plycutter/heuristics.py
@@ -401,8 +401,11 @@ def choose_the_ok_side(sb, params=None):
 
 
 def random_min_max(n, mn, mx, total, rng):
+    # Exact: rounding errors would make the last lengths infeasible
+    # when total is (close to) n * mn or n * mx
+    mn, mx, total = F(mn), F(mx), F(total)
     assert mn * n <= total <= mx * n
-    lengths = np.zeros(n, dtype=np.float64)
+    lengths = [F(0)] * int(n)
     order = np.arange(n)
     rng.shuffle(order)
     running_total = 0
@@ -417,7 +420,7 @@ def random_min_max(n, mn, mx, total, rng):
         hi = min(at_most, mx)
         # logger.debug(low, hi)
         assert low <= hi
-        cur = rng.uniform(low, hi)
+        cur = min(max(F(rng.uniform(low, hi)), low), hi)
         # logger.debug(cur)
         lengths[i] = cur
         running_total += cur
-- 
2.43.0


From 249c1269616a7e6ce6d43ba62cdcc0f5138a0958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 04/16] fix: create_sheetbuild chose material outside sheet_ok
 for support_radius < 1

---
 plycutter/sheetbuild.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plycutter/sheetbuild.py b/plycutter/sheetbuild.py
index 89ddf10..bcf6b6f 100644
--- a/plycutter/sheetbuild.py
+++ b/plycutter/sheetbuild.py
@@ -236,7 +236,8 @@ def create_sheetbuild(sp, params):
     """Create an as-free-as-possible SheetBuild for the given SheetPlex.
     """
     max_buffer = 0  # F(1, 1000)
-    both_faces_buffer = 1
+    # More than the support radius would break chosen <= ok
+    both_faces_buffer = min(1, params['support_radius'])
     sheet_chosen = {sheet.id: (sheet.faces[0] & sheet.faces[1]).buffer(
         both_faces_buffer) & sheet.slices_max.buffer(max_buffer)
         for sheet in sp.sheets.values()}
-- 
2.43.0


From dc363230f389986e1a4a486ce4ea57726d9f96a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 05/16] fix: the result for a given random seed depended on the
 string hash seed of the process

---
 plycutter/command_line.py     |  2 +-
 plycutter/create_sheetplex.py |  3 ++-
 plycutter/heuristics.py       | 10 +++++-----
 plycutter/sheetplex.py        |  2 +-
 4 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/plycutter/command_line.py b/plycutter/command_line.py
index fc3a9da..4c5a175 100644
--- a/plycutter/command_line.py
+++ b/plycutter/command_line.py
@@ -96,7 +96,7 @@ def main(arguments=sys.argv[1:]):
 
     to_write_dilated = {
         k: v.buffer(args.final_dilation)
-        for k, v in to_write.items()
+        for k, v in sorted(to_write.items())
     }
     print(to_write_dilated)
 
diff --git a/plycutter/create_sheetplex.py b/plycutter/create_sheetplex.py
index 52d64cf..b28134a 100644
--- a/plycutter/create_sheetplex.py
+++ b/plycutter/create_sheetplex.py
@@ -297,7 +297,8 @@ def find_all_facets(mesh):
 
 
 def create_intersections(sp):
-    sheets = list(sp.sheets.values())
+    # The iteration order of a PMap varies from run to run
+    sheets = [sheet for _, sheet in sorted(sp.sheets.items())]
     for i, sheet0 in enumerate(sheets):
         for sheet1 in sheets[i+1:]:
             sp = create_intersection(sp, (sheet0, sheet1))
diff --git a/plycutter/heuristics.py b/plycutter/heuristics.py
index 543d727..bb1f76b 100644
--- a/plycutter/heuristics.py
+++ b/plycutter/heuristics.py
@@ -152,7 +152,7 @@ def _find_interactions(sb):
 
     interactions = collections.defaultdict(lambda: [])
 
-    for sheet in sp.sheets.values():
+    for _, sheet in sorted(sp.sheets.items()):
         intersides = list(sp.intersides(sheet.id))
         for i, i_interside in enumerate(intersides):
             i_fingers = i_interside.make_fingers(
@@ -258,7 +258,7 @@ def heuristic_multi_inter_single_decisions(sb, params=None):  # noqa
     for cluster in clusters.values():
         logger.debug('CLUSTER', cluster)
         intersections = [sp.intersections[intersection_id]
-                         for intersection_id in cluster.keys()]
+                         for intersection_id in sorted(cluster.keys())]
 
         sheet_ids = set()
         intersides_by_sheet = collections.defaultdict(lambda: [])
@@ -268,7 +268,7 @@ def heuristic_multi_inter_single_decisions(sb, params=None):  # noqa
                 sheet_ids.add(interside.sheet)
                 intersides_by_sheet[interside.sheet].append(interside)
 
-        sheets = [sp.sheets[sheet_id] for sheet_id in sheet_ids]
+        sheets = [sp.sheets[sheet_id] for sheet_id in sorted(sheet_ids)]
 
         eps = F(2, 10)
         min_finger = 3
@@ -379,7 +379,7 @@ def choose_the_ok_side(sb, params=None):
     sb.check()
 
     sp = sb.sheetplex
-    for intersection in sp.intersections.values():
+    for _, intersection in sorted(sp.intersections.items()):
         for interside in intersection.sides:
             this_only = sb.interside_ok[interside.id]
             this_only -= sb.interside_chosen[interside.id]
@@ -445,7 +445,7 @@ def single_fingers_random(sb, params=None):
     # XXX Assert that there are no multiple intersections
     # any more
     sp = sb.sheetplex
-    for intersection in sp.intersections.values():
+    for _, intersection in sorted(sp.intersections.items()):
         sides = intersection.sides
         assert len(sides) == 2
         # At this point, everything left should be
diff --git a/plycutter/sheetplex.py b/plycutter/sheetplex.py
index 0060c44..0b7c201 100644
--- a/plycutter/sheetplex.py
+++ b/plycutter/sheetplex.py
@@ -65,7 +65,7 @@ class SheetPlex(pyr.PRecord, Autocompletable):
 
     def intersides(self, sheet_id=None):
         """Return an iterator for intersides of a particular sheet or all"""
-        for intersection in self.intersections.values():
+        for _, intersection in sorted(self.intersections.items()):
             for side in intersection.sides:
                 if sheet_id is None or side.sheet == sheet_id:
                     yield side
-- 
2.43.0


From 3373b31d053938c6f273f2e34b402d11499e21cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 06/16] fix: canned_1 raised KeyError or UnboundLocalError
 instead of reporting the failure

---
 plycutter/canned.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plycutter/canned.py b/plycutter/canned.py
index f541bf7..26b68ef 100644
--- a/plycutter/canned.py
+++ b/plycutter/canned.py
@@ -37,6 +37,7 @@ def canned_1(sheetplex, params, show=False):
     global sb_log
     sb_log = []
     ok = False
+    sb = None
     try:
         sp = sheetplex
         logger.info("Create sheetbuild")
@@ -79,14 +80,14 @@ def canned_1(sheetplex, params, show=False):
 
     except Exception as e:
         logger.error('Exception in canned_1: %s', e, exc_info=True)
-        if not params['return_on_failure']:
+        if not params.get('return_on_failure'):
             raise
 
     return argparse.Namespace(
         ok=ok,
         sheetbuild=sb,
         history=sb_log,
-        sheet_cuts=sb.sheet_chosen,
+        sheet_cuts=sb.sheet_chosen if sb is not None else None,
         params=params,
     )
 
-- 
2.43.0


From e0618f1b8c3e76f928e6a86b42fa87bd82f1b109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:35 +0000
Subject: [PATCH 07/16] fix: fastr and fstr raised TypeError for every
 non-empty Geom1D

---
 plycutter/geometry/geom1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plycutter/geometry/geom1d.py b/plycutter/geometry/geom1d.py
index d4bcb04..4fe2f97 100644
--- a/plycutter/geometry/geom1d.py
+++ b/plycutter/geometry/geom1d.py
@@ -19,7 +19,7 @@
 import math
 
 from ..plytypes import FractionFromExact, \
-    FractionFromExactOrInf, fastr
+    FractionFromExactOrInf, fastr, fstr
 
 
 class Geom1D:
@@ -122,7 +122,7 @@ class Geom1D:
                                           for interval in self.intervals]))
 
     def __fstr__(self, **args):
-        return "Geom1D(%s)" % (", ".join([fastr(interval, **args)
+        return "Geom1D(%s)" % (", ".join([fstr(interval, **args)
                                           for interval in self.intervals]))
 
     def get_intervals(self):
-- 
2.43.0


From 4ff4b7e305bcf5861c9b1ad9ddccaa24861358da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:14 +0000
Subject: [PATCH 08/16] fix: single_fingers_random drew finger counts of the
 wrong parity, merging the last finger with its neighbour

---
 plycutter/heuristics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/plycutter/heuristics.py b/plycutter/heuristics.py
index bb1f76b..d770796 100644
--- a/plycutter/heuristics.py
+++ b/plycutter/heuristics.py
@@ -492,12 +492,15 @@ def single_fingers_random(sb, params=None):
                 logger.debug(f'None possible choose side 0: f{sides[0].id}')
                 continue
 
-            preferred_min = 5
+            # All of n_min, n_max, preferred_min have the right parity
+            preferred_min = 6 if odd else 5
 
             if n_min < preferred_min:
                 n_min = min(preferred_min, n_max)
 
-            n = rng.randint(n_min, n_max + 1)
+            # Keep the parity, otherwise the last finger would
+            # be merged to what is already chosen next to it
+            n = int(n_min) + 2 * rng.randint(0, int(n_max - n_min) // 2 + 1)
 
             locations = random_min_max(
                 n, min_width, max_width, end - start, rng)
-- 
2.43.0


From bb762fdfba984e3c7dd92a2a58f8b206953cee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:08 +0000
Subject: [PATCH 09/16] fix: refusing to unchoose a chosen range raised
 AttributeError

---
 plycutter/sheetbuild.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plycutter/sheetbuild.py b/plycutter/sheetbuild.py
index bcf6b6f..0fd868c 100644
--- a/plycutter/sheetbuild.py
+++ b/plycutter/sheetbuild.py
@@ -79,7 +79,8 @@ class SheetBuild(pyr.PRecord, Autocompletable):
     def unchoose_interside(self, interside_id, v):
         """State that the range v will never be chosen"""
         assert (self.interside_chosen[interside_id] & v).is_empty(), fastr(
-            interside_id, v, (self.interside_chosen[interside_id] & v).area()
+            interside_id, v,
+            (self.interside_chosen[interside_id] & v).measure1d()
         )
         interside = self.sheetplex.interside(interside_id)
 
-- 
2.43.0


From ff0396efbc0aba88d3a2f5dc9c45b209922eb5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:41 +0000
Subject: [PATCH 10/16] fix: Geom2D.from_shapely raised IndexError for an empty
 polygon

---
 plycutter/geometry/impl2d/geom2d_simple_holes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plycutter/geometry/impl2d/geom2d_simple_holes.py b/plycutter/geometry/impl2d/geom2d_simple_holes.py
index fe6eff9..9d1e361 100644
--- a/plycutter/geometry/impl2d/geom2d_simple_holes.py
+++ b/plycutter/geometry/impl2d/geom2d_simple_holes.py
@@ -241,6 +241,8 @@ class Geom2D_Py_Simple_Holes(geom2dbase.Geom2DBase):
                 spwhs.extend(geom.spwhs)
             return cls(spwhs)
         if sh.geom_type == 'Polygon':
+            if sh.is_empty:
+                return cls.empty()
             return cls.from_shapely_polygon(sh)
         if sh.geom_type == 'MultiPolygon':
             geoms = [cls.from_shapely_polygon(poly)
-- 
2.43.0


From 83c54fe37a2f866b8e64ae11988274d62e89be05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 11/16] fix: open joints wherever the model is, not just within
 1000 of the origin

---
 plycutter/sheetbuild.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/plycutter/sheetbuild.py b/plycutter/sheetbuild.py
index 0fd868c..249a12a 100644
--- a/plycutter/sheetbuild.py
+++ b/plycutter/sheetbuild.py
@@ -23,7 +23,7 @@ import pyrsistent as pyr
 import logging
 
 from .misc import Autocompletable
-from .plytypes import fastr, F, Fraction
+from .plytypes import fastr, F
 from .geometry.geom1d import Geom1D
 
 logger = logging.getLogger(__name__)
@@ -254,12 +254,15 @@ def create_sheetbuild(sp, params):
     interside_chosen = {interside.id: Geom1D.empty()
                         for interside in sp.intersides()}
 
-    interside_ok = {interside.id:
-                    interside.project_to_1d(
-                        sheet_ok[interside.sheet] &
-                        sp.sheets[interside.sheet].slices_max &
-                        interside.make_fingers(
-                            Geom1D([[Fraction(-1000), Fraction(1000)]])))
+    def on_interside(interside):
+        material = (sheet_ok[interside.sheet] &
+                    sp.sheets[interside.sheet].slices_max)
+        # The whole length of the sheet, wherever the model is
+        return interside.project_to_1d(
+            material & interside.make_fingers(
+                interside.project_to_1d(material)))
+
+    interside_ok = {interside.id: on_interside(interside)
                     for interside in sp.intersides()}
 
     for interside in sp.intersides():
-- 
2.43.0


From e64ba45d10a7cc33e42688869182e58f57f3e520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 12/16] fix: fastr of a number too large for a float raised
 OverflowError

---
 plycutter/plytypes.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/plycutter/plytypes.py b/plycutter/plytypes.py
index 6c22dc7..8edc37d 100644
--- a/plycutter/plytypes.py
+++ b/plycutter/plytypes.py
@@ -95,10 +95,13 @@ def fstr(*objs, approx=False):  # noqa (recursion)
                                    for k, v in o.items()) + "}"
         if isinstance(o, FractionClass):
             if approx:
-                f = float(o)
-                if math.trunc(f) == f:
-                    return str(int(f))
-                return str(f)
+                try:
+                    f = float(o)
+                    if math.trunc(f) == f:
+                        return str(int(f))
+                    return str(f)
+                except OverflowError:
+                    pass  # Too large for a float: show it exactly
             if o.denominator == 1:
                 return str(o.numerator)
             return "%s/%s" % (o.numerator, o.denominator)
-- 
2.43.0


From 1dce2047c3e0d5c3fc2c649b7d1526ddc0f979e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:36 +0000
Subject: [PATCH 13/16] fix: Geom1D of lists mixed with tuples raised TypeError

---
 plycutter/geometry/geom1d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plycutter/geometry/geom1d.py b/plycutter/geometry/geom1d.py
index 4fe2f97..a215ec6 100644
--- a/plycutter/geometry/geom1d.py
+++ b/plycutter/geometry/geom1d.py
@@ -62,7 +62,8 @@ class Geom1D:
     """
 
     def __init__(self, intervals):
-        intervals = sorted(intervals)
+        # As tuples: lists and tuples can not be compared with each other
+        intervals = sorted(tuple(interval) for interval in intervals)
 
         # Check and convert
         new_intervals = []
-- 
2.43.0


From 7316bac1abcba983fa180320662c4d643d12bc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:36 +0000
Subject: [PATCH 14/16] fix: is_bounded of a Geom1D too large for a float
 raised OverflowError

---
 plycutter/geometry/geom1d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plycutter/geometry/geom1d.py b/plycutter/geometry/geom1d.py
index a215ec6..97f765a 100644
--- a/plycutter/geometry/geom1d.py
+++ b/plycutter/geometry/geom1d.py
@@ -164,7 +164,8 @@ class Geom1D:
     def is_bounded(self):
         """Return true if the region described by this Geom1D is bounded.
         """
-        return math.isfinite(self.measure1d())
+        # Not isfinite(), the measure can be too large for a float
+        return self.measure1d() < math.inf
 
     def __or__(self, other):
         return Geom1D(self.intervals + other.intervals)
-- 
2.43.0


From 51c31336c759cc9c8d47c21cbf1de0c38daea2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:36 +0000
Subject: [PATCH 15/16] fix: drawing an empty Geom2D onto given axes raised
 TypeError

---
 plycutter/geometry/geom2dbase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plycutter/geometry/geom2dbase.py b/plycutter/geometry/geom2dbase.py
index 3cc2047..6051504 100644
--- a/plycutter/geometry/geom2dbase.py
+++ b/plycutter/geometry/geom2dbase.py
@@ -134,7 +134,8 @@ class Geom2DBase:
             patch = None
 
         if ax is not None:
-            ax.add_patch(patch)
+            if patch is not None:
+                ax.add_patch(patch)
             ax.autoscale_view()
         return patch
 
-- 
2.43.0


From 45df5edecbf121c7311418272c9f3a06522038cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:36 +0000
Subject: [PATCH 16/16] fix: canned_1 with show=True failed after the first
 stage

---
 plycutter/canned.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plycutter/canned.py b/plycutter/canned.py
index 26b68ef..cfa6f79 100644
--- a/plycutter/canned.py
+++ b/plycutter/canned.py
@@ -71,7 +71,7 @@ def canned_1(sheetplex, params, show=False):
             sb_log.append(sb.set('dbg', op))
             sb = op(sb, params)
             if show:
-                do_show(op)
+                do_show(op, sb)
 
         sb_log.append(sb)
         sb.check(force=True)
-- 
2.43.0

