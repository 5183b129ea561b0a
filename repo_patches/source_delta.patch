From 70323704c9386436814f15040aaf46e99f150f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:47 +0000
Subject: [PATCH 01/30] fix: normalise polygon centroid by the total triangle
 area

The weighted sum of triangle centroids was returned without dividing by the
sum of the weights, so the centroid was only right for polygons of area 1.
---
 building3d/geom/polygon/centroid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/building3d/geom/polygon/centroid.py b/building3d/geom/polygon/centroid.py
index fabe7fb..376b30a 100644
--- a/building3d/geom/polygon/centroid.py
+++ b/building3d/geom/polygon/centroid.py
@@ -31,4 +31,6 @@ def polygon_centroid(pts: PointType, tri: IndexType) -> PointType:
     for i in range(num_tri):
         poly_ctr += tri_ctr[i] * weights[i]
 
+    poly_ctr /= weights.sum()
+
     return poly_ctr
-- 
2.43.0


From a4106c9409e00a4c3062c8f19cb2275e57b88454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:47 +0000
Subject: [PATCH 02/30] fix: return the identity matrix when no rotation is
 needed

rotate_points_around_vector() returned a matrix of ones together with the
unrotated points.
---
 building3d/geom/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/rotation.py b/building3d/geom/rotation.py
index 439d32d..1cf1e20 100644
--- a/building3d/geom/rotation.py
+++ b/building3d/geom/rotation.py
@@ -78,7 +78,7 @@ def rotate_points_around_vector(
     """
     if np.linalg.norm(u) < GEOM_ATOL or abs(phi) < GEOM_ATOL:
         # No need to rotate
-        return pts, np.ones((3, 3))
+        return pts, np.eye(3)
 
     # Rotate the points
     R = rotation_matrix(u, phi)
-- 
2.43.0


From cec80f5302945ce282a9404302e5dce08e0d4925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:47 +0000
Subject: [PATCH 03/30] fix: move points back from the anchor when they are
 already parallel to the plane

rotate_points_to_plane() returned early with the points still shifted by
the anchor and without the requested translation.
---
 building3d/geom/rotation.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/building3d/geom/rotation.py b/building3d/geom/rotation.py
index 1cf1e20..69a573f 100644
--- a/building3d/geom/rotation.py
+++ b/building3d/geom/rotation.py
@@ -116,25 +116,24 @@ def rotate_points_to_plane(
     # Find rotation axis
     rotaxis = np.cross(p_norm, u)
     if (np.abs(rotaxis) < GEOM_ATOL).all():
-        # No need to rotate, the points are already at the correct plane
+        # No need to rotate, the points are already parallel to the correct plane
         phi = 0.0
-        return pts, rotaxis, phi
+    else:
+        rotaxis /= np.linalg.norm(rotaxis)
 
-    rotaxis /= np.linalg.norm(rotaxis)
+        # Find rotation angle
+        phi = float(angle(p_norm, u))
 
-    # Find rotation angle
-    phi = angle(p_norm, u)
-
-    # Rotate the points
-    R = rotation_matrix(rotaxis, float(phi))
-    pts = pts.dot(R.T)
+        # Rotate the points
+        R = rotation_matrix(rotaxis, phi)
+        pts = pts.dot(R.T)
 
     # Move points back from anchor
     if not points_equal(anchor, new_point(0.0, 0.0, 0.0)):
-        pts += anchor
+        pts = pts + anchor
 
     # Move points to d (translation)
     p_dest = u * d
-    pts += p_dest
+    pts = pts + p_dest
 
-    return pts, rotaxis, float(phi)
+    return pts, rotaxis, phi
-- 
2.43.0


From fac7ddca24934a004c16dcc938cf0d6b89042243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:47 +0000
Subject: [PATCH 04/30] fix: stack meshes correctly when one of the objects is
 empty

The row offsets were advanced only inside the loops over points and
triangles, so an object without triangles or points made the following
object overwrite the previous one.
---
 building3d/geom/mesh/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/building3d/geom/mesh/__init__.py b/building3d/geom/mesh/__init__.py
index 2138595..b42764f 100644
--- a/building3d/geom/mesh/__init__.py
+++ b/building3d/geom/mesh/__init__.py
@@ -36,13 +36,12 @@ def vstack_mesh(
     tri_offset = 0
     pts_offset = 0
     for i in range(num_objects):
+        if i > 0:
+            tri_offset += num_tri_per_obj[i - 1]
+            pts_offset += num_pts_per_obj[i - 1]
         for j in range(t_tri[i].shape[0]):
-            if j == 0 and i > 0:
-                tri_offset += num_tri_per_obj[i - 1]
             faces[j + tri_offset] = t_tri[i][j] + num_pts_added
         for j in range(t_pts[i].shape[0]):
-            if j == 0 and i > 0:
-                pts_offset += num_pts_per_obj[i - 1]
             verts[j + pts_offset] = t_pts[i][j]
             num_pts_added += 1
 
-- 
2.43.0


From b485b93e411db5b5e808f0668eec1d5b7b5d6bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:47 +0000
Subject: [PATCH 05/30] fix: keep the opposite normal when flipping a polygon

The normal of the flipped polygon was recalculated from its first corner,
which gives the original direction again if that corner is non-convex.
Extruded floor plans could get inward-facing floors and ceilings.
---
 building3d/geom/polygon/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/polygon/__init__.py b/building3d/geom/polygon/__init__.py
index e22b007..1c2be01 100644
--- a/building3d/geom/polygon/__init__.py
+++ b/building3d/geom/polygon/__init__.py
@@ -139,7 +139,7 @@ class Polygon:
         Returns:
             Polygon
         """
-        return Polygon(self.pts[::-1].copy(), name=new_name)
+        return Polygon(self.pts[::-1].copy(), name=new_name, vn=-1 * self.vn)
 
     def get_some_interior_point(self) -> PointType:
         """Return some point laying inside this polygon.
-- 
2.43.0


From f3c775f1c36bb48c8a0d6e8b2249779046531189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:47 +0000
Subject: [PATCH 06/30] fix: keep floor and ceiling polygon names when they are
 flipped

floor_plan() lost the names given by the caller for the flipped polygons.
---
 building3d/geom/solid/floor_plan.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/building3d/geom/solid/floor_plan.py b/building3d/geom/solid/floor_plan.py
index 5379756..63c5b96 100644
--- a/building3d/geom/solid/floor_plan.py
+++ b/building3d/geom/solid/floor_plan.py
@@ -104,12 +104,12 @@ def floor_plan(
     floor_poly = Polygon(floor_pts, name=floor_name)
     # Floor's normal should point downwards
     if not np.allclose(floor_poly.vn, [0, 0, -1]):
-        floor_poly = floor_poly.flip()
+        floor_poly = floor_poly.flip(new_name=floor_name)
 
     ceiling_poly = Polygon(ceiling_pts, name=ceiling_name)
     # Ceiling's normal should point upwards
     if not np.allclose(ceiling_poly.vn, [0, 0, 1]):
-        ceiling_poly = ceiling_poly.flip()
+        ceiling_poly = ceiling_poly.flip(new_name=ceiling_name)
 
     floor = Wall([floor_poly], name=floor_name)
     ceiling = Wall([ceiling_poly], name=ceiling_name)
-- 
2.43.0


From 5645991e15b4cf4755c3c4dd6a6ee00dbe0febcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:47 +0000
Subject: [PATCH 07/30] fix: stitch all adjacent solids regardless of earlier
 graph queries

stitch_solids() used a cached graph which might have been made with other
relations, skipped pairs of solids whose names were already used in another
zone, and left a graph with removed polygons in the cache.
---
 building3d/geom/building/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/building3d/geom/building/__init__.py b/building3d/geom/building/__init__.py
index 84ef2e4..7cedfc9 100644
--- a/building3d/geom/building/__init__.py
+++ b/building3d/geom/building/__init__.py
@@ -193,7 +193,7 @@ class Building:
         logger.info(f"Stitching solids in building {self}")
 
         # Find adjacent solids
-        adj_solids = self.get_graph(new=False, level="solid", facing=True, overlapping=True)
+        adj_solids = self.get_graph(new=True, level="solid", facing=True, overlapping=True)
         done = []
 
         for s_path in adj_solids.keys():
@@ -201,12 +201,15 @@ class Building:
                 _, z1_name, s_name = s_path.split(PATH_SEP)
                 _, z2_name, adj_s_name = adj_s_path.split(PATH_SEP)
 
-                if set([s_name, adj_s_name]) not in done:
+                if set([s_path, adj_s_path]) not in done:
                     stitch_solids(
                         s1=self.zones[z1_name].solids[s_name],
                         s2=self.zones[z2_name].solids[adj_s_name],
                     )
-                    done.append(set([s_name, adj_s_name]))
+                    done.append(set([s_path, adj_s_path]))
+
+        # The cached graph is not valid anymore
+        self.graph = {}
 
     def volume(self) -> float:
         """Calculate building volume as the sum of zone volumes."""
-- 
2.43.0


From 4fa7f5fec3c0e3f10c832feac85c86a698bec79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:47 +0000
Subject: [PATCH 08/30] fix: replace only the sliced polygon when stitching

Polygons were matched by name, but names are unique only within a wall, so
polygons of other walls with the same name were replaced too.
---
 building3d/geom/solid/stitch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/solid/stitch.py b/building3d/geom/solid/stitch.py
index ea686ee..389fefb 100644
--- a/building3d/geom/solid/stitch.py
+++ b/building3d/geom/solid/stitch.py
@@ -143,7 +143,7 @@ def replace_polygon(s: Solid, old_poly: Polygon, *new_poly: Polygon) -> None:
     """Replaces `old_poly` with an arbitraty number of `new_poly` (in-place)."""
     wpl = get_walls_and_polygons(s)
     for wall, poly in wpl:
-        if poly.name == old_poly.name:
+        if poly is old_poly:
             wall.replace_polygon(poly.name, *new_poly)
 
 
-- 
2.43.0


From 0a14af962c8fb9404a7fb7b04ff4b741ccdb9721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:47 +0000
Subject: [PATCH 09/30] fix: handle zero-length edges in distance_point_to_edge

The distance to an edge with equal endpoints was NaN (or a division error
in the compiled version) instead of the distance to that point.
---
 building3d/geom/points/distance.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/building3d/geom/points/distance.py b/building3d/geom/points/distance.py
index 86f86d0..37678ea 100644
--- a/building3d/geom/points/distance.py
+++ b/building3d/geom/points/distance.py
@@ -15,7 +15,11 @@ def distance_point_to_edge(ptest: PointType, pt1: PointType, pt2: PointType) ->
     # t represents a value between 0 and 1 where:
     # t=0 corresponts to the start of point of the segment
     # t=1 corresponds to the end point of the segment
-    t = np.dot(vt1, v21) / np.dot(v21, v21)
+    len_sq = np.dot(v21, v21)
+    if len_sq == 0:
+        # The segment is reduced to a single point
+        return np.linalg.norm(pt1 - ptest)
+    t = np.dot(vt1, v21) / len_sq
 
     # Check if the projection is outside the segment range
     if t < 0:
-- 
2.43.0


From 21108b5a4bce50af7b204f05e86ee622b001610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:47 +0000
Subject: [PATCH 10/30] fix: use the given normal consistently in
 distance_point_to_polygon

The plane offset was derived from the first corner, so the distance was wrong
if that corner is non-convex and the passed normal has the opposite direction.
---
 building3d/geom/polygon/distance.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/building3d/geom/polygon/distance.py b/building3d/geom/polygon/distance.py
index 848feda..d2ded80 100644
--- a/building3d/geom/polygon/distance.py
+++ b/building3d/geom/polygon/distance.py
@@ -5,7 +5,6 @@ from building3d.geom.points.distance import distance_point_to_edge
 from building3d.geom.polygon.edges import polygon_edges
 from building3d.geom.polygon.ispointinside import \
     is_point_inside_ortho_projection
-from building3d.geom.polygon.plane import plane_coefficients
 from building3d.geom.polygon.plane import projection_coefficients
 from building3d.geom.types import IndexType
 from building3d.geom.types import PointType
@@ -35,8 +34,7 @@ def distance_point_to_polygon(
         scalar distance
     """
     # Translate polygon's to the point p
-    _, _, _, d = plane_coefficients(pts)
-    _, _, _, dp = projection_coefficients(ptest, vn)
+    _, _, _, d = projection_coefficients(pts[0].copy(), vn)
 
     # Distance (sign neglected!)
     # Negative distance -> point behind the polygon
-- 
2.43.0


From bee78f24aa149ae809bf1710bdff53f47685eb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:47 +0000
Subject: [PATCH 11/30] fix: compare point sets in both directions

Facing and touching polygons were recognised by matching the points of the
first polygon only, so the result depended on the order of the arguments
when the second polygon had additional points.
---
 building3d/geom/polygon/facing.py   | 2 +-
 building3d/geom/polygon/touching.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/building3d/geom/polygon/facing.py b/building3d/geom/polygon/facing.py
index 9050489..488cc58 100644
--- a/building3d/geom/polygon/facing.py
+++ b/building3d/geom/polygon/facing.py
@@ -59,7 +59,7 @@ def are_polygons_facing(
                     num_matching += 1
                     matched.add(j)
                     break
-    if num_matching == len(pts1):
+    if num_matching == len(pts1) and num_matching == len(pts2):
         if np.isclose(polygon_area(pts1, vn1), polygon_area(pts2, vn2)):
             return True
     return False
diff --git a/building3d/geom/polygon/touching.py b/building3d/geom/polygon/touching.py
index 419ddbb..3f390c1 100644
--- a/building3d/geom/polygon/touching.py
+++ b/building3d/geom/polygon/touching.py
@@ -87,8 +87,8 @@ def are_all_points_same(pts1: PointType, pts2: PointType) -> bool:
         pts2 (PointType): Second set of points.
 
     Returns:
-        bool: True if all points in pts1 have a matching point in pts2,
-              False otherwise.
+        bool: True if all points in pts1 have a matching point in pts2
+              and vice versa, False otherwise.
     """
     num_matching = 0
     matched = set()
@@ -100,7 +100,7 @@ def are_all_points_same(pts1: PointType, pts2: PointType) -> bool:
                     num_matching += 1
                     matched.add(j)
                     break
-    if num_matching == len(pts1):
+    if num_matching == len(pts1) and num_matching == len(pts2):
         return True
     else:
         return False
-- 
2.43.0


From 9be179ef4a73959c09cc3b02b8cf152b803d961e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:47 +0000
Subject: [PATCH 12/30] fix: move rays lying exactly at the reflection distance

Such rays were neither reflected nor moved, so they were stuck forever and
lost their velocity at the end of the batch.
---
 building3d/sim/rays/simulation_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/sim/rays/simulation_loop.py b/building3d/sim/rays/simulation_loop.py
index fc9fd62..dc03415 100644
--- a/building3d/sim/rays/simulation_loop.py
+++ b/building3d/sim/rays/simulation_loop.py
@@ -229,7 +229,7 @@ def simulation_loop(
                     vn = np.zeros(3, dtype=FLOAT)
                     dist = np.inf
 
-            if energy[rn] > eps and dist > reflection_dist:
+            if energy[rn] > eps and dist >= reflection_dist:
                 position[rn] += delta_pos[rn]
             else:
                 continue
-- 
2.43.0


From c0592257a49e35a9f771c9885e724e621dad740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:47 +0000
Subject: [PATCH 13/30] fix: keep the solid id read from STL

read_stl() parsed the id but did not pass it to the created solid.
---
 building3d/io/stl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/io/stl.py b/building3d/io/stl.py
index a74420b..dda3695 100644
--- a/building3d/io/stl.py
+++ b/building3d/io/stl.py
@@ -165,7 +165,7 @@ def read_stl(path: str) -> Building:
                 if solid_uid is None or solid_uid == "":
                     solid_uid = random_id()
 
-                solid = Solid([wall])
+                solid = Solid([wall], uid=solid_uid)
                 zone.add_solid(solid)
             else:
                 raise ValueError("No wall created, so cannot add it to the zone/solid.")
-- 
2.43.0


From cc3b38743531ebe5c1772ed2f102f4f5fbf5d5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:16 +0000
Subject: [PATCH 14/30] fix: do not lose the old object when its replacement is
 rejected

replace_polygon() and replace_wall() deleted the old object before checking
if the names of the new ones are available.
---
 building3d/geom/solid/__init__.py | 3 +++
 building3d/geom/wall/__init__.py  | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/building3d/geom/solid/__init__.py b/building3d/geom/solid/__init__.py
index 4b6b56e..1d71691 100644
--- a/building3d/geom/solid/__init__.py
+++ b/building3d/geom/solid/__init__.py
@@ -81,6 +81,9 @@ class Solid:
         self.walls[wall.name] = wall
 
     def replace_wall(self, old_name: str, new_wall: Wall):
+        if new_wall.name != old_name and new_wall.name in self.walls:
+            raise GeometryError(f"Wall {new_wall.name} already exists in {self.name}")
+
         del self.walls[old_name]
         self.add_wall(new_wall)
 
diff --git a/building3d/geom/wall/__init__.py b/building3d/geom/wall/__init__.py
index bdb8985..1713058 100644
--- a/building3d/geom/wall/__init__.py
+++ b/building3d/geom/wall/__init__.py
@@ -81,6 +81,11 @@ class Wall:
         self.polygons[poly.name] = poly
 
     def replace_polygon(self, old_name: str, *new_poly: Polygon):
+        names = [name for name in self.polygons if name != old_name]
+        names += [np.name for np in new_poly]
+        if len(set(names)) != len(names):
+            raise GeometryError(f"Cannot replace {old_name}, polygon names must be unique")
+
         del self.polygons[old_name]
         for np in new_poly:
             self.add_polygon(np)
-- 
2.43.0


From ad7e5cac642162659b251522f57b990ebb947e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:16 +0000
Subject: [PATCH 15/30] fix: recognise collinear points if some of them are
 equal

A point equal to the first one has no direction, but it was compared with the
directions of other points, so collinear points were reported as not collinear.
---
 building3d/geom/points/__init__.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/building3d/geom/points/__init__.py b/building3d/geom/points/__init__.py
index 5b257f3..4bcea47 100644
--- a/building3d/geom/points/__init__.py
+++ b/building3d/geom/points/__init__.py
@@ -174,11 +174,17 @@ def are_points_collinear(
 
     are_collinear = True
     num_vectors = vectors.shape[0]
+    ref = 0  # index of the last vector with non-zero length
     for i in range(1, num_vectors):
-        if np.allclose(vectors[i], vectors[i - 1], atol=atol) or np.allclose(
-            vectors[i], -1 * vectors[i - 1], atol=atol
+        if (vectors[i] == 0).all():
+            # Point equal to the first one
+            continue
+        elif (
+            (vectors[ref] == 0).all()
+            or np.allclose(vectors[i], vectors[ref], atol=atol)
+            or np.allclose(vectors[i], -1 * vectors[ref], atol=atol)
         ):
-            pass
+            ref = i
         else:
             are_collinear = False
             break
-- 
2.43.0


From dbe52c066fb9d101e0fa8c99b3f897ad18b4f25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:16 +0000
Subject: [PATCH 16/30] fix: take the normal of polygons read from files from
 their triangles

Polygons with a non-convex first corner got the opposite normal after
saving and loading, because the normal is not stored in the file.
---
 building3d/geom/polygon/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/building3d/geom/polygon/__init__.py b/building3d/geom/polygon/__init__.py
index 1c2be01..09df70d 100644
--- a/building3d/geom/polygon/__init__.py
+++ b/building3d/geom/polygon/__init__.py
@@ -72,8 +72,11 @@ class Polygon:
         # If the first corner is non-convex, the normal will be wrong and triangulation will fail.
         # The first corner can be non-convex only if the normal vector is provided (argument `vn`).
         # In such a case the points are rolled forward until the first corner is convex.
-        if vn is None:
-            self.vn: VectorType = normal(self.pts[-1], self.pts[0], self.pts[1])
+        # If the triangles are provided, the first one is used instead of the first corner.
+        if vn is None and tri is not None and len(tri) > 0:
+            self.vn: VectorType = normal(*self.pts[tri[0]])
+        elif vn is None:
+            self.vn = normal(self.pts[-1], self.pts[0], self.pts[1])
         else:
             self.vn = vn
 
-- 
2.43.0


From 12b65a10fb1b2b2fc2e96bb88ef7469c4680705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:16 +0000
Subject: [PATCH 17/30] fix: save buildings with empty zones, solids or walls
 to b3d

Empty containers were lost, and a file of a building without polygons could
not be read back (missing key).
---
 building3d/io/b3d.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/building3d/io/b3d.py b/building3d/io/b3d.py
index c183238..e204b0c 100644
--- a/building3d/io/b3d.py
+++ b/building3d/io/b3d.py
@@ -61,17 +61,18 @@ def write_b3d(path: str, bdg: Building, parent_dirs: bool = True) -> None:
     bdict = recursive_default_dict()
     bdict["name"] = bdg.name
 
+    # Getting an item adds an empty dict, so empty containers are saved too
+    zones = bdict["zones"]
     for z in bdg.zones.values():
+        solids = zones[z.name]
         for s in z.solids.values():
+            walls = solids[s.name]
             for w in s.walls.values():
+                polygons = walls[w.name]
                 for p in w.polygons.values():
-                    bdict["zones"][z.name][s.name][w.name][p.name][
-                        "pts"
-                    ] = p.pts.tolist()
-                    bdict["zones"][z.name][s.name][w.name][p.name][
-                        "tri"
-                    ] = p.tri.tolist()
-                    bdict["zones"][z.name][s.name][w.name][p.name]["uid"] = p.uid
+                    polygons[p.name]["pts"] = p.pts.tolist()
+                    polygons[p.name]["tri"] = p.tri.tolist()
+                    polygons[p.name]["uid"] = p.uid
 
     # Save to JSON
     with open(path, "w") as f:
-- 
2.43.0


From b95092187058979825bb859778b35e5b46aa68b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:16 +0000
Subject: [PATCH 18/30] fix: use the surface parameters of polygons in the ray
 simulation

Values set with set_surface_param() were ignored, because the simulation used
the default absorption for all polygons. The default is not copied to each
polygon anymore, so it can still be changed after creating the configuration.
---
 building3d/sim/rays/simulation.py        |  5 +++--
 building3d/sim/rays/simulation_config.py | 14 ++++++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/building3d/sim/rays/simulation.py b/building3d/sim/rays/simulation.py
index 677cbb8..b1673aa 100644
--- a/building3d/sim/rays/simulation.py
+++ b/building3d/sim/rays/simulation.py
@@ -59,8 +59,9 @@ class Simulation:
         self.absorber_radius: float = sim_cfg.rays["absorber_radius"]
 
         # Surface parameters
-        default_absorption = sim_cfg.surfaces["absorption"]["default"]
-        self.surf_absorption: FloatDataType = np.full(len(self.polygons), default_absorption)
+        self.surf_absorption: FloatDataType = sim_cfg.surface_params_to_array(
+            "absorption", building
+        )
 
         # Visualization parameters
         # TODO: Should these parameters be here? Plotting and movie rendering isn't here...
diff --git a/building3d/sim/rays/simulation_config.py b/building3d/sim/rays/simulation_config.py
index cf343b5..11f7890 100644
--- a/building3d/sim/rays/simulation_config.py
+++ b/building3d/sim/rays/simulation_config.py
@@ -16,6 +16,13 @@ from .jit_print import jit_print
 logger = logging.getLogger(__name__)
 
 
+class SurfaceParam(dict):
+    """Values of a surface parameter. Polygons without own value have the default one."""
+
+    def __missing__(self, path):
+        return self["default"]
+
+
 class SimulationConfig:
 
     def __init__(self, building: Building):
@@ -45,12 +52,11 @@ class SimulationConfig:
 
         # Surface parameters
         self.surfaces = {
-            "absorption": {
-                "default": 0.2,
+            "absorption": SurfaceParam(
+                default=0.2,
                 # To add custom values to each polygon use self.set_surface_param()
-            },
+            ),
         }
-        self.set_default_surface_paths(self.building)
 
         # Visualization parameters (plots, movies)
         self.visualization = {
-- 
2.43.0


From 6c736214616704359506d7644f90d08f8925218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:32 +0000
Subject: [PATCH 19/30] fix: do not return outdated transparent polygons from
 the cache

The cache was keyed by the id of the building, so it ignored changes of the
building, could return the result of another, already deleted building, and
shared the cached set with the callers.
---
 building3d/sim/rays/find_transparent.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/building3d/sim/rays/find_transparent.py b/building3d/sim/rays/find_transparent.py
index 9043416..b2bb479 100644
--- a/building3d/sim/rays/find_transparent.py
+++ b/building3d/sim/rays/find_transparent.py
@@ -21,16 +21,19 @@ This building script, a coding feat.
 """
 
 import logging
+from weakref import WeakKeyDictionary
 
 from building3d.geom.building import Building
 from building3d.geom.building.graph import graph_polygon
+from building3d.geom.building.graph import iter_polygons
 from building3d.geom.paths.split_path import split_path
 
 logger = logging.getLogger(__name__)
 
 
 # Use cache to speed up finding transparent polygons for each ray within a building
-CACHE: dict[int, set[str]] = {}  # {id(building): set(transparent_polygon_paths)}
+# {building: (state of polygons, transparent_polygon_paths)}
+CACHE: WeakKeyDictionary = WeakKeyDictionary()
 
 
 def find_transparent(building: Building) -> set[str]:
@@ -45,8 +48,11 @@ def find_transparent(building: Building) -> set[str]:
         set of paths to polygons
     """
     logger.debug(f"Finding transparent polygons in {building.name}")
-    if id(building) in CACHE:
-        return CACHE[id(building)]
+    # The cached result is valid only if the polygons did not change in the meantime
+    state = [(p.path, p.pts.tolist(), p.vn.tolist()) for p in iter_polygons(building)]
+
+    if building in CACHE and CACHE[building][0] == state:
+        return set(CACHE[building][1])
 
     else:
         # Find facing polygons (matching exactly)
@@ -78,6 +84,6 @@ def find_transparent(building: Building) -> set[str]:
 
         # Add to CACHE
         set_of_transparent_polygons = set(transparent_polygons)
-        CACHE[id(building)] = set_of_transparent_polygons
+        CACHE[building] = (state, frozenset(set_of_transparent_polygons))
 
         return set_of_transparent_polygons
-- 
2.43.0


From e6953c477aa45cdca433f7f94e4cef48348f07f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:06 +0000
Subject: [PATCH 20/30] fix: compute tetrahedron volume from the triple product

The Cayley-Menger expression loses all digits for flat tetrahedra: it turned
negative by rounding, so that the volume of most boxes with non-integer
dimensions was nan, and it was wrong by orders of magnitude for solids
located far from the origin.
---
 building3d/geom/tetrahedrons.py | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/building3d/geom/tetrahedrons.py b/building3d/geom/tetrahedrons.py
index adaf452..0d04cf4 100644
--- a/building3d/geom/tetrahedrons.py
+++ b/building3d/geom/tetrahedrons.py
@@ -1,7 +1,6 @@
 import numpy as np
 from numba import njit
 
-from building3d.config import EPSILON
 from building3d.geom.types import FLOAT
 from building3d.geom.types import PointType
 
@@ -13,23 +12,8 @@ def tetrahedron_volume(
     pt2: PointType,
     pt3: PointType,
 ) -> FLOAT:
-    """Calculates volume using the Cayley-Menger formula."""
-    # Edge lengths
-    a = np.linalg.norm(pt1 - pt0)
-    b = np.linalg.norm(pt2 - pt0)
-    c = np.linalg.norm(pt3 - pt0)
-    d = np.linalg.norm(pt2 - pt1)
-    e = np.linalg.norm(pt3 - pt2)
-    f = np.linalg.norm(pt3 - pt1)
-
-    x = b**2 + c**2 - e**2
-    y = a**2 + c**2 - f**2
-    z = a**2 + b**2 - d**2
-
-    nominator = (
-        4 * a**2 * b**2 * c**2 - a**2 * x**2 - b**2 * y**2 - c**2 * z**2 + x * y * z
-    )
-    vol = np.sqrt(nominator + EPSILON) / 12.0
+    """Calculates volume using the triple product of the edge vectors."""
+    vol = np.abs(np.dot(pt1 - pt0, np.cross(pt2 - pt0, pt3 - pt0))) / 6.0
 
     return vol
 
-- 
2.43.0


From e9b1e65b1dd6f52dbf27072f9e1f1929e58d0942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:42 +0000
Subject: [PATCH 21/30] fix: triangulate polygons needing many ear searches

The failure counter was never reset after an ear had been cut off, so
valid non-convex polygons (e.g. spirals) were given up too early with
TriangulationError.
---
 building3d/geom/triangles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/building3d/geom/triangles.py b/building3d/geom/triangles.py
index 1ebb13b..1ef80e4 100644
--- a/building3d/geom/triangles.py
+++ b/building3d/geom/triangles.py
@@ -262,6 +262,8 @@ def triangulate(
                 triangles.append((prev_id, curr_id, next_id))
                 # Remove pos from index
                 vertices.pop(pos)
+                # Count failures since the last ear, the remaining polygon has to be searched anew
+                num_fail = 0
                 continue
             else:
                 # There is some point inside this triangle
-- 
2.43.0


From 151f019c073a749e223150e64ee150731973fb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:45 +0000
Subject: [PATCH 22/30] fix: area of collinear points is not nan

Rounding can make the product in Heron's formula negative by more than
EPSILON.
---
 building3d/geom/triangles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/building3d/geom/triangles.py b/building3d/geom/triangles.py
index 1ef80e4..53f772e 100644
--- a/building3d/geom/triangles.py
+++ b/building3d/geom/triangles.py
@@ -29,7 +29,8 @@ def triangle_area(pt1: PointType, pt2: PointType, pt3: PointType) -> float:
     c = np.linalg.norm(vc)
 
     s = 0.5 * (a + b + c)
-    area = np.sqrt(s * (s - a) * (s - b) * (s - c) + EPSILON)
+    # The product may be slightly negative for collinear points due to rounding
+    area = np.sqrt(max(s * (s - a) * (s - b) * (s - c), 0.0) + EPSILON)
 
     return area
 
-- 
2.43.0


From e658092d6d4a23eea31cc4889512d97faf2ead75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:41 +0000
Subject: [PATCH 23/30] fix: match only the paths a wildcard pattern can
 produce

---
 building3d/paths/wildcardpath.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/building3d/paths/wildcardpath.py b/building3d/paths/wildcardpath.py
index 2f8411f..bbb8682 100644
--- a/building3d/paths/wildcardpath.py
+++ b/building3d/paths/wildcardpath.py
@@ -216,16 +216,17 @@ class WildcardPath:
         Regex named groups are used, so that the wildcard values can be
         later retrieved (see `get_matching_paths_and_values()`).
         """
-        re_path = self.path
+        re_path = re.escape(self.path.lstrip("/"))
         start, stop = WildcardPath.wcard_sep
 
-        for wname in self._wildcards:
+        # Reversed, because the group of <a> is named <a_0>, which can be a wildcard too
+        for wname in reversed(self._wildcards):
             wcard = self.wrap(wname)
             groups = self._groups[wname]
 
             for gr in groups:
                 re_path = re_path.replace(wcard, f"(?P{start}{gr}{stop}\\d+)", 1)
-        re_path = ".*" + re_path + "/*$"
+        re_path = "(?:.*/)?" + re_path + "/*$"
         return re_path
 
     def _to_dict_with_namedtuple_keys(
-- 
2.43.0


From e5002a7ca0a277086d296aeb11b849286ce812ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:41 +0000
Subject: [PATCH 24/30] fix: time axis of the impulse response

---
 building3d/sim/rays/impulse_response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/sim/rays/impulse_response.py b/building3d/sim/rays/impulse_response.py
index b30e8b6..762790c 100644
--- a/building3d/sim/rays/impulse_response.py
+++ b/building3d/sim/rays/impulse_response.py
@@ -35,7 +35,7 @@ def impulse_response(hit_buf: FloatDataType, sim_cfg: SimulationConfig) -> pd.Da
     hit_inst /= sum_of_hits
 
     # Make time array
-    time_arr = np.linspace(0, num_steps * time_step, num_steps)
+    time_arr = np.arange(num_steps) * time_step
 
     # Convert to DataFrame (index: time, columns: receivers)
     ir = pd.DataFrame(index=pd.Index(time_arr, name="time"))
-- 
2.43.0


From 670160ef1948a56b9b714d4090a3a95fd49efbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:22 +0000
Subject: [PATCH 25/30] fix: overlapping polygons are not touching

---
 building3d/geom/polygon/touching.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/building3d/geom/polygon/touching.py b/building3d/geom/polygon/touching.py
index 3f390c1..4cb6e09 100644
--- a/building3d/geom/polygon/touching.py
+++ b/building3d/geom/polygon/touching.py
@@ -4,6 +4,7 @@ from numba import njit
 from building3d.geom.bboxes import bounding_box
 from building3d.geom.points import new_point_between_2_points
 from building3d.geom.points import points_equal
+from building3d.geom.polygon.crossing import are_polygons_crossing
 from building3d.geom.polygon.ispointinside import is_point_at_boundary
 from building3d.geom.polygon.ispointinside import is_point_inside
 from building3d.geom.types import IndexType
@@ -46,6 +47,9 @@ def are_polygons_touching(
     if ab_inside or ba_inside:
         # If any point is inside another polygon, they are crossing
         return False
+    elif are_polygons_crossing(pts1, tri1, pts2, tri2):
+        # The overlap can be too small to be found above
+        return False
     elif ab_touch or ba_touch:
         return True
 
-- 
2.43.0


From 16e9293462eb4773f6df1b34d9f48b8d3e3fe893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:45 +0000
Subject: [PATCH 26/30] fix: insert the notch points at the right edge when
 slicing through the closing edge

---
 building3d/geom/polygon/slice/get_point_arrays.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/building3d/geom/polygon/slice/get_point_arrays.py b/building3d/geom/polygon/slice/get_point_arrays.py
index 721076e..2f2de8b 100644
--- a/building3d/geom/polygon/slice/get_point_arrays.py
+++ b/building3d/geom/polygon/slice/get_point_arrays.py
@@ -2,7 +2,6 @@ import numpy as np
 from numba import njit
 
 from building3d.geom.exceptions import GeometryError
-from building3d.geom.points import is_point_in_array
 from building3d.geom.points import list_pts_to_array
 from building3d.geom.points import points_equal
 from building3d.geom.polygon.edges import polygon_edges
@@ -162,7 +161,7 @@ def get_point_arrays(
         for p in pts:
             points_2.append(p)
             if not slice_points_included:
-                if is_point_in_array(p, edges[edge_num]):
+                if points_equal(p, edges[edge_num, 0]):
                     # Slicing ocurred at this edge - need to add slice_points
                     for sp in slicing_pts:
                         points_2.append(sp)
-- 
2.43.0


From d266e1e1b676333501a027150d1906ff53fd6e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:27 +0000
Subject: [PATCH 27/30] fix: order the notch points by distance, not by the
 first corner of the polygon

---
 building3d/geom/polygon/slice/get_point_arrays.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/building3d/geom/polygon/slice/get_point_arrays.py b/building3d/geom/polygon/slice/get_point_arrays.py
index 2f2de8b..fff581e 100644
--- a/building3d/geom/polygon/slice/get_point_arrays.py
+++ b/building3d/geom/polygon/slice/get_point_arrays.py
@@ -9,7 +9,6 @@ from building3d.geom.polygon.slice.locate_slicing_points import \
     locate_slicing_points
 from building3d.geom.types import IndexType
 from building3d.geom.types import PointType
-from building3d.geom.vectors import normal
 
 from .constants import EDGE
 from .constants import VERTEX
@@ -146,15 +145,11 @@ def get_point_arrays(
         pts1 = slicing_pts.copy()  # name=name1
 
         # Polygon 2 is composed of both, own points and sliced points
-        # slicing_pts must have opposite order than pts -> compare their normal vectors
-        slicing_vn = normal(slicing_pts[-1], slicing_pts[0], slicing_pts[1])
-        poly_vn = normal(pts[-1], pts[0], pts[1])
-        if np.allclose(-1 * slicing_vn, poly_vn):
-            pass
-        elif np.allclose(slicing_vn, poly_vn):
+        # slicing_pts must start at the end closer to the beginning of the sliced edge
+        dist_first = np.linalg.norm(slicing_pts[0] - edges[edge_num, 0])
+        dist_last = np.linalg.norm(slicing_pts[-1] - edges[edge_num, 0])
+        if dist_first > dist_last:
             slicing_pts = slicing_pts[::-1]  # Re-ordering needed
-        else:
-            raise ValueError("Unexpected slicing plane orientation")
 
         points_2 = []
         slice_points_included = False
-- 
2.43.0


From b88192809ed42cd5a9543948aaa6e61ffc90a808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:43:03 +0000
Subject: [PATCH 28/30] fix: accept an existing empty buffer directory

---
 building3d/sim/rays/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/sim/rays/simulation.py b/building3d/sim/rays/simulation.py
index b1673aa..7c6866a 100644
--- a/building3d/sim/rays/simulation.py
+++ b/building3d/sim/rays/simulation.py
@@ -95,7 +95,7 @@ class Simulation:
         if os.path.exists(self.buffer_dir) and len(os.listdir(self.buffer_dir)) > 0:
             raise RuntimeError(f"Buffer dir ({self.buffer_dir}) already exists and is non-empty!")
         else:
-            os.makedirs(self.buffer_dir)
+            os.makedirs(self.buffer_dir, exist_ok=True)
 
     @staticmethod
     def get_transparent_polygon_numbers(building):
-- 
2.43.0


From e7d5ab184cdd800097c2c38912de2b0ca4f3b9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:59:15 +0000
Subject: [PATCH 29/30] fix: colour the points of ray trails by their own
 energies

---
 building3d/sim/rays/movie_from_buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/building3d/sim/rays/movie_from_buffer.py b/building3d/sim/rays/movie_from_buffer.py
index a107b42..bdc4c80 100644
--- a/building3d/sim/rays/movie_from_buffer.py
+++ b/building3d/sim/rays/movie_from_buffer.py
@@ -111,7 +111,7 @@ def make_movie_from_buffer(
             # Draw trailing lines
             line_varr, line_index = position_buffer_to_lines(position)
             line_mesh = pv.PolyData(line_varr, lines=line_index)
-            line_mesh["energy"] = energy.flatten()
+            line_mesh["energy"] = energy.T.flatten()
             line_mesh.set_active_scalars("energy")
             plotter.add_mesh(
                 line_mesh,
@@ -132,7 +132,7 @@ def make_movie_from_buffer(
             line_varr, line_index = position_buffer_to_lines(position)
             line_mesh.points = line_varr
             line_mesh.lines = line_index
-            line_mesh["energy"] = energy.flatten()
+            line_mesh["energy"] = energy.T.flatten()
 
             plotter.write_frame()
 
-- 
2.43.0


From 7b94fb8d003421642dca0a9137d227f4f0a6cc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:10:01 +0000
Subject: [PATCH 30/30] fix: start polygons at a convex corner when the normal
 vector is given

---
 building3d/geom/polygon/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/building3d/geom/polygon/__init__.py b/building3d/geom/polygon/__init__.py
index 09df70d..ad7efd8 100644
--- a/building3d/geom/polygon/__init__.py
+++ b/building3d/geom/polygon/__init__.py
@@ -7,6 +7,7 @@ from building3d.config import GEOM_ATOL
 from building3d.geom.paths import PATH_SEP
 from building3d.geom.paths.validate_name import validate_name
 from building3d.geom.points import are_points_coplanar
+from building3d.geom.points import roll_forward
 from building3d.geom.bboxes import bounding_box
 from building3d.geom.polygon.area import polygon_area
 from building3d.geom.polygon.centroid import polygon_centroid
@@ -82,6 +83,11 @@ class Polygon:
 
         if tri is None:
             self.pts, self.tri = triangulate(self.pts, self.vn)
+            for _ in range(len(self.pts)):
+                if np.allclose(normal(self.pts[-1], self.pts[0], self.pts[1]), self.vn):
+                    break
+                self.pts = roll_forward(self.pts)
+                self.tri = (self.tri + 1) % len(self.pts)
         else:
             assert len(tri) > 0, "Empty triangles provided"
             self.tri: IndexType = tri
-- 
2.43.0

