From 1b47a24d48a4d745ed906395c2f003262b2fe0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 01/29] fix: ETRS89 has flattening 1/298.257222101 and is
 selectable by name

---
 src/nvector/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/util.py b/src/nvector/util.py
index f3417b5..0f39476 100644
--- a/src/nvector/util.py
+++ b/src/nvector/util.py
@@ -38,7 +38,7 @@ ELLIPSOID = {
     16: Ellipsoid(a=6378135., f=1.0 / 298.26, name='WGS 72'),
     17: Ellipsoid(a=6378206.4, f=1.0 / 294.9786982138, name='Clarke 1866    (NAD27)'),
     18: Ellipsoid(a=6378137.0, f=1.0 / 298.257223563, name='GRS80 / WGS84  (NAD83)'),
-    19: Ellipsoid(a=6378137, f=298.257222101, name='ETRS89')
+    19: Ellipsoid(a=6378137, f=1.0 / 298.257222101, name='ETRS89')
 }
 ELLIPSOID_IX = {'airy1858': 1,
                 'airymodified': 2,
@@ -68,6 +68,7 @@ ELLIPSOID_IX = {'airy1858': 1,
                 'grs80': 18,
                 'wgs84': 18,
                 'nad83': 18,
+                'etrs89': 19,
                 }
 
 
-- 
2.43.0


From 2803562b2008709296e7082484d174153c670142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 02/29] fix: great circle displacement uses the axes of its own
 frame

---
 src/nvector/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index b32072f..8b1f30a 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -293,7 +293,8 @@ class GeoPoint(_Common):
         radius = e_a.length
         distance_rad = distance / radius
         azimuth_rad = azimuth if not degrees else rad(azimuth)
-        normal_b = n_EA_E_distance_and_azimuth2n_EB_E(n_a.normal, distance_rad, azimuth_rad)
+        normal_b = n_EA_E_distance_and_azimuth2n_EB_E(n_a.normal, distance_rad, azimuth_rad,
+                                                      R_Ee=self.frame.R_Ee)
         point_b = Nvector(normal_b, self.z, self.frame).to_geo_point()
         azimuth_b = _base_angle(delta_N(point_b, e_a).azimuth - np.pi)
         if degrees:
-- 
2.43.0


From 9cc96a43485eb68efbd235261a1ddcb7a2622677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 03/29] fix: great circle displacement from a pole follows the
 same east axis as n_E2R_EN

---
 src/nvector/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 9e14c76..9a3acb6 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -808,7 +808,10 @@ def n_EA_E_distance_and_azimuth2n_EB_E(n_EA_E, distance_rad, azimuth, R_Ee=None)
     if R_Ee is None:
         R_Ee = E_rotation()
     # Step1: Find unit vectors for north and east:
-    k_east_E = unit(cross(dot(R_Ee.T, [[1], [0], [0]]), n_EA_E, axis=0))
+    k_east_E_direction = cross(dot(R_Ee.T, [[1], [0], [0]]), n_EA_E, axis=0)
+    on_poles = np.flatnonzero(norm(k_east_E_direction, axis=0) == 0)
+    k_east_E = unit(k_east_E_direction)
+    k_east_E[:, on_poles] = dot(R_Ee.T, [[0], [1], [0]])  # selected y-axis direction, see n_E2R_EN
     k_north_E = cross(n_EA_E, k_east_E, axis=0)
 
     # Step2: Find the initial direction vector d_E:
-- 
2.43.0


From effd25f71e6e6f50351a4cfda2ae2b9650b84497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 04/29] fix: great circle displacement reports the direction of
 travel for every distance

---
 src/nvector/objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 8b1f30a..4b59d73 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -296,7 +296,9 @@ class GeoPoint(_Common):
         normal_b = n_EA_E_distance_and_azimuth2n_EB_E(n_a.normal, distance_rad, azimuth_rad,
                                                       R_Ee=self.frame.R_Ee)
         point_b = Nvector(normal_b, self.z, self.frame).to_geo_point()
-        azimuth_b = _base_angle(delta_N(point_b, e_a).azimuth - np.pi)
+        # Position A is straight behind, except when it is nearer forwards along the great circle:
+        azimuth_ba = delta_N(point_b, e_a).azimuth - np.where(np.sin(distance_rad) < 0, 0, np.pi)
+        azimuth_b = _base_angle(np.where(distance_rad == 0, azimuth_rad, azimuth_ba))[()]
         if degrees:
             return point_b, deg(azimuth_b)
         return point_b, azimuth_b
-- 
2.43.0


From e6cb80e1aea1b8ce7e1305327827ca5c7780a00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 05/29] fix: intersect handles arrays of paths and crossings a
 quarter turn away

---
 src/nvector/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 9a3acb6..a974fa9 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -496,7 +496,8 @@ def intersect(path_a, path_b):
     # n_EC_E_tmp is one of two solutions, the other is -n_EC_E_tmp. Select
     # the one that is closet to n_EA1_E, by selecting sign from the dot
     # product between n_EC_E_tmp and n_EA1_E:
-    n_EC_E = np.sign(dot(n_EC_E_tmp.T, n_EA1_E)) * n_EC_E_tmp
+    cos_theta = np.sum(n_EC_E_tmp * n_EA1_E, axis=0, keepdims=True)
+    n_EC_E = np.where(cos_theta < 0, -n_EC_E_tmp, n_EC_E_tmp)
     if np.any(np.isnan(n_EC_E)):
         warnings.warn('Paths are Equal. Intersection point undefined. '
                       'NaN returned.')
-- 
2.43.0


From af078e13e4e86917e539a54e1df496a07b2bb1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 06/29] fix: closest_point_on_great_circle handles arrays and
 positions a quarter turn away

---
 src/nvector/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index a974fa9..bafc31c 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -671,8 +671,10 @@ def closest_point_on_great_circle(path, n_EB_E):
     c_E = great_circle_normal(n_EA1_E, n_EA2_E)
 
     c2 = cross(n_EB_E, c_E, axis=0)
-    n_EC_E = unit(cross(c_E, c2, axis=0))
-    return n_EC_E * np.sign(dot(n_EC_E.T, n_EB_E))
+    n_EC_E = cross(c_E, c2, axis=0)
+    # All points on the great circle are equally close if B is at the pole of the great circle:
+    equally_close = norm(n_EC_E, axis=0, keepdims=True) == 0
+    return unit(np.where(equally_close, n_EA1_E, n_EC_E))
 
 
 @use_docstring(_examples.get_examples_no_header([5], OO=False))
-- 
2.43.0


From 82dbf4d3ba30049daa4e71f06594737c2203dcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 07/29] fix: great_circle_distance returns one distance for
 each pair of positions

---
 src/nvector/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index bafc31c..186dc33 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -701,7 +701,7 @@ def great_circle_distance(n_EA_E, n_EB_E, radius=6371009.0):
 
     """
     sin_theta = norm(np.cross(n_EA_E, n_EB_E, axis=0), axis=0)
-    cos_theta = dot(n_EA_E.T, n_EB_E)
+    cos_theta = np.sum(n_EA_E * n_EB_E, axis=0)
     theta = np.arctan2(sin_theta, cos_theta).ravel()
     s_AB = theta * radius
 
-- 
2.43.0


From 2f778a729f94f7cc0b26a7104e8d1374d0d5b841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 08/29] fix: cross_track_distance handles arrays and is
 accurate up to a quarter turn

---
 src/nvector/core.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 186dc33..b1a16f3 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -521,10 +521,12 @@ def _euclidean_cross_track_distance(sin_theta, radius=1):
     return sin_theta * radius
 
 
-def _great_circle_cross_track_distance(sin_theta, radius=1):
-    return np.arcsin(sin_theta) * radius
+def _great_circle_cross_track_distance(sin_theta, cos_theta, radius=1):
+    return arctan2(sin_theta, cos_theta) * radius
     # ill conditioned for small angles:
     # return (np.arccos(-sin_theta) - np.pi / 2) * radius
+    # ill conditioned for angles near pi/2:
+    # return np.arcsin(sin_theta) * radius
 
 
 @use_docstring(_examples.get_examples_no_header([10], OO=False))
@@ -558,10 +560,11 @@ def cross_track_distance(path, n_EB_E, method='greatcircle', radius=6371009.0):
 
     """
     c_E = great_circle_normal(path[0], path[1])
-    sin_theta = -np.dot(c_E.T, n_EB_E).ravel()
+    sin_theta = -np.sum(c_E * n_EB_E, axis=0)
     if method[0].lower() == 'e':
         return _euclidean_cross_track_distance(sin_theta, radius)
-    return _great_circle_cross_track_distance(sin_theta, radius)
+    cos_theta = norm(cross(c_E, n_EB_E, axis=0), axis=0)
+    return _great_circle_cross_track_distance(sin_theta, cos_theta, radius)
 
 
 @use_docstring(_examples.get_examples_no_header([10], OO=False))
-- 
2.43.0


From 869a5d22ac989d6a14b4ea03fd690a6d9b595a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 09/29] fix: on_great_circle_path rejects positions beyond the
 end points of long paths

---
 src/nvector/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index b1a16f3..fd3d6e5 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -645,7 +645,9 @@ def on_great_circle_path(path, n_EB_E, radius=6371009.0, atol=1e-8):
     scale = norm(n_EA2_E - n_EA1_E, axis=0)
     ti1 = norm(n_EB_E - n_EA1_E, axis=0) / scale
     ti2 = norm(n_EB_E - n_EA2_E, axis=0) / scale
-    return (ti1 <= 1) & (ti2 <= 1) & on_great_circle(path, n_EB_E, radius, atol=atol)
+    # Positions on the far side of the great circle may also be that close to both end points:
+    same_side = np.sum((n_EA1_E + n_EA2_E) * n_EB_E, axis=0) >= 0
+    return (ti1 <= 1) & (ti2 <= 1) & same_side & on_great_circle(path, n_EB_E, radius, atol=atol)
 
 
 @use_docstring(_examples.get_examples_no_header([10], OO=False))
-- 
2.43.0


From cfe9afeff7adc53b294e8283c8a0dae5d6fad2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 10/29] fix: Nvector.interpolate accepts one depth shared by
 all positions

---
 src/nvector/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 4b59d73..c67469c 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -529,7 +529,7 @@ class Nvector(_Common):
         >>> h = plt.plot(lon, lat, 'o', loni, lati, '-')
         >>> plt.show()
         """
-        vectors = np.vstack((self.normal, self.z))
+        vectors = np.vstack((self.normal, np.broadcast_to(self.z, (1, np.shape(self.normal)[1]))))
         vectors_i = _interp_vectors(t_i, t, vectors, kind, window_length, polyorder, mode, cval)
         normal = unit(vectors_i[:3], norm_zero_vector=np.nan)
         return Nvector(normal, z=vectors_i[3], frame=self.frame)
-- 
2.43.0


From 7e6be5dc872587973412dcb4129d8119933b845a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 11/29] fix: track_distance with an explicit radius returns the
 distance of every path

---
 src/nvector/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index c67469c..aea6286 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -937,7 +937,7 @@ class GeoPath(object):
 
         distance_fun = euclidean_distance if method[:2] == "eu" else great_circle_distance
         distance = distance_fun(normal_a, normal_b, radius)
-        if np.ndim(radius) == 0:
+        if np.ndim(radius) == 0 and distance.size == 1:
             return distance[0]  # scalar track distance
         return distance
 
-- 
2.43.0


From c6e467b2adfaf87b449d0d1107c8215a0b320f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 12/29] fix: FrameE uses the semi-axis or the flattening given
 without the other

---
 src/nvector/objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index aea6286..7309f7f 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -1209,7 +1209,9 @@ class FrameE(_Common):
 
     def __init__(self, a=None, f=None, name='WGS84', axes='e'):
         if a is None or f is None:
-            a, f, _full_name = get_ellipsoid(name)
+            ellipsoid = get_ellipsoid(name)
+            a = ellipsoid.a if a is None else a
+            f = ellipsoid.f if f is None else f
         self.a = a
         self.f = f
         self.name = name
-- 
2.43.0


From d4839fc5ef8e6c93d9a1400903420b072440246d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 13/29] fix: R2xyz and R2zyx keep the rotation in gimbal lock

---
 src/nvector/rotation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nvector/rotation.py b/src/nvector/rotation.py
index 5c963d7..5806ca7 100644
--- a/src/nvector/rotation.py
+++ b/src/nvector/rotation.py
@@ -123,7 +123,10 @@ def R2xyz(R_AB):
     xyz2R, R2zyx, xyz2R
     """
     z = arctan2(-R_AB[0, 1, ...], R_AB[0, 0, ...])  # atan2: [-pi pi]
-    x = arctan2(-R_AB[1, 2, ...], R_AB[2, 2, ...])
+    # x is the rotation that remains when z is undone (well defined also when cos_y is zero):
+    sin_z, cos_z = sin(z), cos(z)
+    x = arctan2(R_AB[2, 0, ...] * sin_z + R_AB[2, 1, ...] * cos_z,
+                R_AB[1, 0, ...] * sin_z + R_AB[1, 1, ...] * cos_z)
 
     sin_y = R_AB[0, 2, ...]
 
-- 
2.43.0


From de7d6d76ffde953c474e5510608bbe05d7375d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 14/29] fix: on_path for ellipsoids compares azimuths modulo a
 full turn

---
 src/nvector/objects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 7309f7f..a80a777 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -978,6 +978,7 @@ class GeoPath(object):
         z = (point_a.z + point_b.z) * 0.5
         distance_ab, azimuth_ab, _azi_ba = point_a.distance_and_azimuth(point_b)
         distance_ac, azimuth_ac, _azi_ca = point_a.distance_and_azimuth(point_c)
+        azimuth_ac = azimuth_ab + _base_angle(azimuth_ac - azimuth_ab)
         return (isclose(z, point_c.z, rtol=rtol, atol=atol)
                 & (isclose(distance_ac, 0, atol=atol)
                    | ((distance_ab >= distance_ac)
-- 
2.43.0


From e09656f2d86615c6529ae560f7f4b1b3ffd72481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 15/29] fix: changing frame to many local frames gives an array
 of vectors

---
 src/nvector/objects.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index a80a777..6b476eb 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -658,7 +658,8 @@ class Pvector(_Common):
         p_AB_N = self.pvector
         # p_AB_E = np.dot(n_frame.R_EN, p_AB_N)
         p_AB_E = mdot(n_frame.R_EN, p_AB_N[:, None, ...]).reshape(3, -1)
-        return ECEFvector(p_AB_E, frame=n_frame.nvector.frame, scalar=self.scalar)
+        scalar = self.scalar and p_AB_E.shape[1] == 1
+        return ECEFvector(p_AB_E, frame=n_frame.nvector.frame, scalar=scalar)
 
     def to_nvector(self):
         """
@@ -773,7 +774,8 @@ class ECEFvector(Pvector):
         _check_frames(self, frame.nvector)
         p_AB_E = self.pvector
         p_AB_N = mdot(np.swapaxes(frame.R_EN, 1, 0), p_AB_E[:, None, ...])
-        return Pvector(p_AB_N.reshape(3, -1), frame=frame, scalar=self.scalar)
+        p_AB_N = p_AB_N.reshape(3, -1)
+        return Pvector(p_AB_N, frame=frame, scalar=self.scalar and p_AB_N.shape[1] == 1)
 
     def to_ecef_vector(self):
         return self
-- 
2.43.0


From f6ce7bb9ed3e3649af828b13aacc743163eb83c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 16/29] fix: great circle displacement stays on the sphere near
 the poles for all axes

---
 src/nvector/core.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index fd3d6e5..ab8a210 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -816,11 +816,8 @@ def n_EA_E_distance_and_azimuth2n_EB_E(n_EA_E, distance_rad, azimuth, R_Ee=None)
     if R_Ee is None:
         R_Ee = E_rotation()
     # Step1: Find unit vectors for north and east:
-    k_east_E_direction = cross(dot(R_Ee.T, [[1], [0], [0]]), n_EA_E, axis=0)
-    on_poles = np.flatnonzero(norm(k_east_E_direction, axis=0) == 0)
-    k_east_E = unit(k_east_E_direction)
-    k_east_E[:, on_poles] = dot(R_Ee.T, [[0], [1], [0]])  # selected y-axis direction, see n_E2R_EN
-    k_north_E = cross(n_EA_E, k_east_E, axis=0)
+    R_EN = n_E2R_EN(n_EA_E, R_Ee=R_Ee).reshape(3, 3, -1)
+    k_north_E, k_east_E = R_EN[:, 0], R_EN[:, 1]
 
     # Step2: Find the initial direction vector d_E:
     d_E = k_north_E * cos(azimuth) + k_east_E * sin(azimuth)
-- 
2.43.0


From 8b5dba402095a91028ec30931152b126a9196626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 17/29] fix: lat_lon2n_E accepts one latitude for many
 longitudes and the reverse

---
 src/nvector/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index ab8a210..b06bb1b 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -65,9 +65,9 @@ def lat_lon2n_E(latitude, longitude, R_Ee=None):
     if R_Ee is None:
         R_Ee = E_rotation()
     # Equation (3) from Gade (2010):
-    nvec = np.vstack((sin(latitude),
-                      sin(longitude) * cos(latitude),
-                      -cos(longitude) * cos(latitude)))
+    nvec = np.vstack(np.broadcast_arrays(sin(latitude),
+                                         sin(longitude) * cos(latitude),
+                                         -cos(longitude) * cos(latitude)))
     n_E = dot(R_Ee.T, nvec)
     return n_E
 
-- 
2.43.0


From f5ae625f8d3017eefc7ba76d39ab76b567ede1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 18/29] fix: Nvector sums and multiples treat depths given as a
 list elementwise

---
 src/nvector/objects.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 6b476eb..c9ec13b 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -602,26 +602,28 @@ class Nvector(_Common):
 
     def __add__(self, other):
         _check_frames(self, other)
-        return self.frame.Nvector(self.normal + other.normal, self.z + other.z)
+        return self.frame.Nvector(np.add(self.normal, other.normal), np.add(self.z, other.z))
 
     def __sub__(self, other):
         _check_frames(self, other)
-        return self.frame.Nvector(self.normal - other.normal, self.z - other.z)
+        return self.frame.Nvector(np.subtract(self.normal, other.normal),
+                                  np.subtract(self.z, other.z))
 
     def __neg__(self):
-        return self.frame.Nvector(-self.normal, -self.z)
+        return self.frame.Nvector(np.negative(self.normal), np.negative(self.z))
 
     def __mul__(self, scalar):
         """elementwise multiplication"""
 
         if not isinstance(scalar, Nvector):
-            return self.frame.Nvector(self.normal * scalar, self.z * scalar)
+            return self.frame.Nvector(np.multiply(self.normal, scalar),
+                                      np.multiply(self.z, scalar))
         raise NotImplementedError('Only scalar multiplication is implemented')
 
     def __div__(self, scalar):
         """elementwise division"""
         if not isinstance(scalar, Nvector):
-            return self.frame.Nvector(self.normal / scalar, self.z / scalar)
+            return self.frame.Nvector(np.divide(self.normal, scalar), np.divide(self.z, scalar))
         raise NotImplementedError('Only scalar division is implemented')
 
     __truediv__ = __div__
-- 
2.43.0


From 3f93574184c3403d0d71c0daaa39d0595ea7cac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 19/29] fix: level frames and body frames compare the same in
 both orders

---
 src/nvector/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index c9ec13b..a89b1e4 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -1439,7 +1439,8 @@ class FrameN(_LocalFrame):
         return n_E2R_EN(nvector.normal, nvector.frame.R_Ee)
 
     def _is_equal_to(self, other, rtol=1e-12, atol=1e-14):
-        return (allclose(self.R_EN, other.R_EN, rtol=rtol, atol=atol)
+        return (isinstance(other, FrameN)
+                and allclose(self.R_EN, other.R_EN, rtol=rtol, atol=atol)
                 and self.nvector == other.nvector)
 
 
-- 
2.43.0


From 344afa48151f38e8c90b9f3a78054ec8f1dbbcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:56 +0000
Subject: [PATCH 20/29] fix: path operations refuse positions of different
 reference frames

---
 src/nvector/objects.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index a89b1e4..cae3b79 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -867,7 +867,9 @@ class GeoPath(object):
     def nvectors(self):
         """ Returns point_a and point_b as n-vectors
         """
-        return self.point_a.to_nvector(), self.point_b.to_nvector()
+        nvector_a, nvector_b = self.point_a.to_nvector(), self.point_b.to_nvector()
+        _check_frames(nvector_a, nvector_b)
+        return nvector_a, nvector_b
 
     def geo_points(self):
         """ Returns point_a and point_b as geo-points
@@ -913,9 +915,11 @@ class GeoPath(object):
         """
         if radius is None:
             radius = self._get_average_radius()
-        path = self.nvector_normals()
-        n_c = point.to_nvector().normal
-        distance = cross_track_distance(path, n_c, method=method, radius=radius)
+        n_a, n_b = self.nvectors()
+        n_c = point.to_nvector()
+        _check_frames(n_a, n_c)
+        path = (n_a.normal, n_b.normal)
+        distance = cross_track_distance(path, n_c.normal, method=method, radius=radius)
         if np.ndim(radius) == 0 and distance.size == 1:
             return distance[0]  # scalar cross track distance
         return distance
@@ -966,6 +970,7 @@ class GeoPath(object):
         frame = self.point_a.frame
         point_a1, point_a2 = self.nvectors()
         point_b1, point_b2 = path.nvectors()
+        _check_frames(point_a1, point_b1)
         path_a = (point_a1.normal, point_a2.normal) # self.nvector_normals()
         path_b = (point_b1.normal, point_b2.normal) # path.nvector_normals()
         normal_c = intersect(path_a, path_b)  # nvector
@@ -1002,6 +1007,7 @@ class GeoPath(object):
         n_a, n_b = self.nvectors()
         path = (n_a.normal, n_b.normal)
         n_c = point.to_nvector()
+        _check_frames(n_a, n_c)
         same_z = isclose(n_c.z, (n_a.z + n_b.z) * 0.5, rtol=rtol, atol=atol)
         result = on_great_circle_path(path, n_c.normal, radius, atol=atol) & same_z
         if np.ndim(radius) == 0 and result.size == 1:
@@ -1062,6 +1068,7 @@ class GeoPath(object):
     def _closest_point_on_great_circle(self, point):
         point_c = point.to_nvector()
         point_a, point_b = self.nvectors()
+        _check_frames(point_a, point_c)
         path = (point_a.normal, point_b.normal)
         z = (point_a.z + point_b.z) * 0.5
         normal_d = closest_point_on_great_circle(path, point_c.normal)
-- 
2.43.0


From c869fcf83e292a1602402eeb4f6d66b7203973c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:18 +0000
Subject: [PATCH 21/29] fix: nthroot of the number zero is zero

---
 src/nvector/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nvector/util.py b/src/nvector/util.py
index 0f39476..2c06e4b 100644
--- a/src/nvector/util.py
+++ b/src/nvector/util.py
@@ -409,6 +409,7 @@ def nthroot(x, n):
     True
 
     """
+    x = np.asarray(x)
     y = x**(1. / n)
     return np.where((x != 0) & (_EPS * np.abs(x) < 1),
                     y - (y**n - x) / (n * y**(n - 1)), y)
-- 
2.43.0


From 023b272e509ceb047412c8756cd962be5ebfe045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:57 +0000
Subject: [PATCH 22/29] fix: ellipsoidal distance and displacement at an
 undefined depth are NaN for that position only

---
 src/nvector/objects.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index cae3b79..967e441 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -1297,6 +1297,8 @@ class FrameE(_Common):
         return s_ab, azimuth_a, azimuth_b
 
     def _inverse(self, lat_a, lon_a, lat_b, lon_b, z=0, outmask=None):
+        if np.isnan(z):
+            return np.nan, np.nan, np.nan
         geo = _Geodesic(self.a - z, self.f)
         result = geo.Inverse(lat_a, lon_a, lat_b, lon_b, outmask=outmask)
         return result['s12'], result['azi1'], result['azi2']
@@ -1370,6 +1372,8 @@ class FrameE(_Common):
         return latb, lonb, azimuth_b
 
     def _direct(self, lat_a, lon_a, azimuth, distance, z=0, outmask=None):
+        if np.isnan(z):
+            return np.nan, np.nan, np.nan
         geo = _Geodesic(self.a - z, self.f)
         result = geo.Direct(lat_a, lon_a, azimuth, distance, outmask=outmask)
         latb, lonb, azimuth_b = result['lat2'], result['lon2'], result['azi2']
-- 
2.43.0


From 2b2233df38a1deabd4077bd6687309fb820d76f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:26 +0000
Subject: [PATCH 23/29] fix: interpolation at undefined times is undefined for
 every kind of interpolation

---
 src/nvector/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index b06bb1b..6d64f71 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -363,6 +363,7 @@ def _interp_vectors(t_i, t, nvectors, kind, window_length, polyorder, mode, cval
         normals = nvectors
 
     normal_i = interp1d(t, normals, axis=1, kind=kind, bounds_error=False)(t_i)
+    normal_i = np.where(np.isnan(t_i), np.nan, normal_i)
     return normal_i.reshape(nvectors.shape[0], -1)
 
 
-- 
2.43.0


From dd7e7d17eabe1ea4da3c5ecc455cada877841c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:26 +0000
Subject: [PATCH 24/29] fix: the closest point on an undefined path or to an
 undefined position is undefined

---
 src/nvector/objects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 967e441..847535c 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -1164,6 +1164,9 @@ class GeoPath(object):
         radius = self._get_average_radius()
         d1 = great_circle_distance(n1, n0, radius)
         d2 = great_circle_distance(n2, n0, radius)
+        no_circle = np.any(np.isnan(point_c.normal)) and np.any(n1 != n2)
+        if no_circle or np.any(np.isnan(d1 + d2)):
+            return point_c.frame.GeoPoint(np.nan, np.nan, np.nan)
         if d1 < d2:
             return self.point_a.to_geo_point()
         return self.point_b.to_geo_point()
-- 
2.43.0


From 4345288e9eefcd0798294eea471b1a5a4008a992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:26 +0000
Subject: [PATCH 25/29] fix: the mean of positions that cancel is undefined

---
 src/nvector/core.py    | 2 +-
 src/nvector/objects.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 6d64f71..50cb98a 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -852,7 +852,7 @@ def mean_horizontal_position(n_EB_E):
     {super}
 
     """
-    n_EM_E = unit(np.sum(n_EB_E, axis=1).reshape((3, 1)))
+    n_EM_E = unit(np.sum(n_EB_E, axis=1).reshape((3, 1)), norm_zero_vector=np.nan)
     return n_EM_E
 
 
diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 847535c..efb996c 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -587,7 +587,7 @@ class Nvector(_Common):
         """
         Returns mean position of the n-vectors.
         """
-        average_nvector = unit(np.sum(self.normal, axis=1).reshape((3, 1)))
+        average_nvector = unit(np.sum(self.normal, axis=1).reshape((3, 1)), norm_zero_vector=np.nan)
         return self.frame.Nvector(average_nvector, z=np.mean(self.z))
 
     mean_horizontal_position = np.deprecate(mean,
-- 
2.43.0


From 15512fb5334072734210e3de0bae7f6f3cca6dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:15 +0000
Subject: [PATCH 26/29] fix: the closest point on a path is found on an Earth
 of any size

---
 src/nvector/objects.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index efb996c..bf1ba6e 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -1157,11 +1157,12 @@ class GeoPath(object):
 
     def _closest_point_on_path(self, point):
         point_c = self._closest_point_on_great_circle(point)
-        if self.on_path(point_c):
+        radius = self._get_average_radius()
+        # the rounding error of a distance is proportional to the radius (1e-8 m for the Earth)
+        if self.on_path(point_c, atol=1.6e-15 * radius):
             return point_c.to_geo_point()
         n0 = point.to_nvector().normal
         n1, n2 = self.nvector_normals()
-        radius = self._get_average_radius()
         d1 = great_circle_distance(n1, n0, radius)
         d2 = great_circle_distance(n2, n0, radius)
         no_circle = np.any(np.isnan(point_c.normal)) and np.any(n1 != n2)
-- 
2.43.0


From 1202332806694264b943a66c1ae0d38f7218b34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:11 +0000
Subject: [PATCH 27/29] fix: empty arrays of positions give empty answers

The unit-length warning looked at the first n-vector and the geodesic
direct and inverse problems unpacked a transposed list of results, both of
which failed with an IndexError/ValueError when there were no positions.
---
 src/nvector/objects.py | 8 ++++----
 src/nvector/util.py    | 2 ++
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index bf1ba6e..beb6105 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -1288,8 +1288,8 @@ class FrameE(_Common):
         lat_a, lon_a, lat_b, lon_b, z = np.broadcast_arrays(lat_a, lon_a, lat_b, lon_b, z)
         fun = partial(self._inverse, outmask=self._outmask(long_unroll))
         items = zip(*np.atleast_1d(lat_a, lon_a, lat_b, lon_b, z))
-        sab, azia, azib = np.transpose([fun(lat_ai, lon_ai, lat_bi, lon_bi, z=zi)
-                                        for lat_ai, lon_ai, lat_bi, lon_bi, zi in items])
+        sab, azia, azib = np.reshape([fun(lat_ai, lon_ai, lat_bi, lon_bi, z=zi)
+                                      for lat_ai, lon_ai, lat_bi, lon_bi, zi in items], (-1, 3)).T
 
         if not degrees:
             s_ab, azimuth_a, azimuth_b = sab.ravel(), rad(azia.ravel()), rad(azib.ravel())
@@ -1365,8 +1365,8 @@ class FrameE(_Common):
         fun = partial(self._direct, outmask=self._outmask(long_unroll))
 
         items = zip(*np.atleast_1d(lat_a, lon_a, azimuth, distance, z))
-        lab, lob, azib = np.transpose([fun(lat_ai, lon_ai, azimuthi, distancei, z=zi)
-                                       for lat_ai, lon_ai, azimuthi, distancei, zi in items])
+        lab, lob, azib = np.reshape([fun(lat_ai, lon_ai, azimuthi, distancei, z=zi)
+                                     for lat_ai, lon_ai, azimuthi, distancei, zi in items], (-1, 3)).T
         if not degrees:
             latb, lonb, azimuth_b = rad(lab.ravel(), lob.ravel(), azib.ravel())
         else:
diff --git a/src/nvector/util.py b/src/nvector/util.py
index 2c06e4b..f20900c 100644
--- a/src/nvector/util.py
+++ b/src/nvector/util.py
@@ -252,6 +252,8 @@ def _check_length_deviation(n_E, limit=0.1):
     If a matrix of n-vectors is input, only first is controlled to save time
     (assuming advanced users input correct n-vectors)
     """
+    if n_E.shape[1] == 0:
+        return
     length_deviation = abs(norm(n_E[:, 0]) - 1)
     if length_deviation > limit:
         warnings.warn('n-vector should have unit length: '
-- 
2.43.0


From cdbed8eea8ca52c80380d8f4763b2065a0fe7475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:16 +0000
Subject: [PATCH 28/29] fix: changing the axes of one frame in place leaves all
 others alone

E_rotation returned the module's own array, so that writing into the R_Ee of
one frame changed every other frame and the defaults of every function.
---
 src/nvector/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/rotation.py b/src/nvector/rotation.py
index 5806ca7..35c3ade 100644
--- a/src/nvector/rotation.py
+++ b/src/nvector/rotation.py
@@ -80,7 +80,7 @@ def E_rotation(axes='e'):
     The Journal of Navigation, Volume 63, Issue 03, pp 395-417, July 2010.
     <www.navlab.net/Publications/A_Nonsingular_Horizontal_Position_Representation.pdf>`_
     """
-    return E_ROTATION_MATRIX[axes]
+    return E_ROTATION_MATRIX[axes].copy()
 
 
 def R2xyz(R_AB):
-- 
2.43.0


From 8a2a6ed566004c1b55d457951957b76002d14aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:59 +0000
Subject: [PATCH 29/29] fix: an undefined longitude gives an undefined geodesic
 on spheres and prolate ellipsoids

---
 src/nvector/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index beb6105..769059f 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -1301,7 +1301,7 @@ class FrameE(_Common):
         return s_ab, azimuth_a, azimuth_b
 
     def _inverse(self, lat_a, lon_a, lat_b, lon_b, z=0, outmask=None):
-        if np.isnan(z):
+        if np.isnan(lat_a + lon_a + lat_b + lon_b + z):
             return np.nan, np.nan, np.nan
         geo = _Geodesic(self.a - z, self.f)
         result = geo.Inverse(lat_a, lon_a, lat_b, lon_b, outmask=outmask)
-- 
2.43.0

