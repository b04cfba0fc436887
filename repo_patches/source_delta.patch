From dd82a1452e5244aa24cd936cbe90d5654ea72261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:37 +0000
Subject: [PATCH 01/13] fix: lrprop returned a stale aref for later
 line-of-sight distances

In area mode the line-of-sight coefficients are cached after the first
line-of-sight distance, but aref was only evaluated inside the block that
fills the cache, so every later line-of-sight distance (and any after a
D=0 call) kept the previous distance's attenuation.
---
 src/itmlogic/lrprop.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/itmlogic/lrprop.py b/src/itmlogic/lrprop.py
index 531cff9..24fea2c 100644
--- a/src/itmlogic/lrprop.py
+++ b/src/itmlogic/lrprop.py
@@ -157,11 +157,11 @@ def lrprop(d, prop):
             prop['ael'] = a2 - prop['ak1'] * d2 - prop['ak2'] * np.log(d2)
             prop['wlos'] = 1
 
-            if prop['dist'] > 0:
-                prop['aref'] = (
-                    prop['ael'] + prop['ak1'] *
-                    prop['dist'] + prop['ak2'] * np.log(prop['dist'])
-                    )
+        if prop['dist'] > 0:
+            prop['aref'] = (
+                prop['ael'] + prop['ak1'] *
+                prop['dist'] + prop['ak2'] * np.log(prop['dist'])
+                )
 
     if prop['dist'] <= 0 or prop['dist'] >= prop['dlsa']:
 
-- 
2.43.0


From c72db665e245973ec9b99d17cbd3e2e4a67be1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:37 +0000
Subject: [PATCH 02/13] fix: lrprop tested terminal 2's horizon distance
 against terminal 1's limit

The range check of the first terminal compared dl[1] with dls[0], so kwx
depended on which terminal was called the first.
---
 src/itmlogic/lrprop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/itmlogic/lrprop.py b/src/itmlogic/lrprop.py
index 24fea2c..916e1a6 100644
--- a/src/itmlogic/lrprop.py
+++ b/src/itmlogic/lrprop.py
@@ -62,7 +62,7 @@ def lrprop(d, prop):
 
         if (abs(prop['the'][0]) > 0.2 or
             prop['dl'][0] < 0.1 * prop['dls'][0] or
-            prop['dl'][1] > 3 * prop['dls'][0]):
+            prop['dl'][0] > 3 * prop['dls'][0]):
             prop['kwx'] = max(prop['kwx'], 3)
 
         if (abs(prop['the'][1]) > 0.2 or
-- 
2.43.0


From 2106ecf29fda7d42b182f0bd42f670c10e41e16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:37 +0000
Subject: [PATCH 03/13] fix: qlrpfl used the last but one profile point as the
 second terminal's ground

On line-of-sight paths the effective height of terminal 2 was taken from
pfl[np+1]; the ground under the second terminal is pfl[np+2], as in hzns
and in the beyond-horizon branch.
---
 src/itmlogic/preparatory_subroutines/qlrpfl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/itmlogic/preparatory_subroutines/qlrpfl.py b/src/itmlogic/preparatory_subroutines/qlrpfl.py
index 7ffe6dd..a24287c 100644
--- a/src/itmlogic/preparatory_subroutines/qlrpfl.py
+++ b/src/itmlogic/preparatory_subroutines/qlrpfl.py
@@ -40,7 +40,7 @@ def qlrpfl(prop):
         prop['he'] = []
         za, zb = zlsq1(prop['pfl'], xl[0], xl[1])
         prop['he'].append(prop['hg'][0] + max(prop['pfl'][2] - za, 0))
-        prop['he'].append(prop['hg'][1] + max(prop['pfl'][np+1] - zb, 0))
+        prop['he'].append(prop['hg'][1] + max(prop['pfl'][np+2] - zb, 0))
 
         for j in range(0, 2):
             prop['dl'][j] = (
-- 
2.43.0


From df316f683daf6e2d88678838559ff71a02023f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:37 +0000
Subject: [PATCH 04/13] fix: zlsq1 moved the end of an empty window the wrong
 way

When the window holds less than one interval it has to be widened by one
interval at both ends; the end was moved inwards instead, which left an
empty (or negative) window and a division by zero.
---
 src/itmlogic/preparatory_subroutines/zlsq1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/itmlogic/preparatory_subroutines/zlsq1.py b/src/itmlogic/preparatory_subroutines/zlsq1.py
index 5321c07..8e6bd21 100644
--- a/src/itmlogic/preparatory_subroutines/zlsq1.py
+++ b/src/itmlogic/preparatory_subroutines/zlsq1.py
@@ -35,7 +35,7 @@ def zlsq1(z, x1, x2):
 
     if xb <= xa:
         xa = max(xa - 1, 0)
-        xb = xn - max(xn - xb + 1, 0)
+        xb = xn - max(xn - xb - 1, 0)
 
     ja = xa
     jb = xb
-- 
2.43.0


From 473a51c21952f8884a3b97ff600a350222aaae33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:37 +0000
Subject: [PATCH 05/13] fix: ascat overwrote its "not defined" marker

Where both r1 and r2 are below 0.2 the scatter attenuation is not defined
and lrprop must not use a scatter region; the marker 1001 was set but then
overwritten with a number computed outside the function's domain.
---
 src/itmlogic/scatter_attenuation/ascat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/itmlogic/scatter_attenuation/ascat.py b/src/itmlogic/scatter_attenuation/ascat.py
index ebe6fbf..666027b 100644
--- a/src/itmlogic/scatter_attenuation/ascat.py
+++ b/src/itmlogic/scatter_attenuation/ascat.py
@@ -34,6 +34,7 @@ def ascat(d, prop):
 
         if r1 < 0.2 and r2 < 0.2:
             prop['ascat1'] = 1001
+            return prop
 
         ss = (d - prop['ad']) / (d + prop['ad'])
 
-- 
2.43.0


From a7611aa32e6209a95e97d3c84cf0e4ef072e6010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:37 +0000
Subject: [PATCH 06/13] fix: pimter.py passed percentages to qerfi as fractions

qerfi(50) is not the deviate of 50 %, it is clipped to that of 99.9999 %.
---
 scripts/pimter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/pimter.py b/scripts/pimter.py
index 6bd4d0d..b252821 100644
--- a/scripts/pimter.py
+++ b/scripts/pimter.py
@@ -86,8 +86,8 @@ def run_itmlogic(surface_profile_m, distance_km):
     DB = 8.685890
     NC = len(qc)
     NR = len(qr)
-    ZR = qerfi(qr) #ZR = qerfi(qr / 100)
-    ZC = qerfi(qc) #ZC = qerfi(qc / 100)
+    ZR = qerfi([x / 100 for x in qr])
+    ZC = qerfi([x / 100 for x in qc])
 
     # Inverse Earth radius
     prop['gma']  = 157E-9
-- 
2.43.0


From 75bae4ed3d65fe5974e2c6064b2979360d32e3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:38 +0000
Subject: [PATCH 07/13] fix: pimter.py ignored the terrain profile it was given

run_itmlogic read a variable of the main program instead of its argument.
---
 scripts/pimter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pimter.py b/scripts/pimter.py
index b252821..97c5a29 100644
--- a/scripts/pimter.py
+++ b/scripts/pimter.py
@@ -103,7 +103,7 @@ def run_itmlogic(surface_profile_m, distance_km):
 
     PFL.append(len(distance_km)-1)
     PFL.append(distance_km[1] - distance_km[0])
-    PFL = PFL + terrain_height_no_tree
+    PFL = PFL + surface_profile_m
 
     #Length of profile (km)
     prop['d'] = distance_km[-1]/1000
-- 
2.43.0


From eab331f3387f1d00fa676d70eabbd074ee97f638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:38 +0000
Subject: [PATCH 08/13] fix: terrain_p2p never sampled the receiver's end of
 the path

The last of the num_samples points lay one step short of the end of the
line, so the profile did not end under the second terminal.
---
 scripts/terrain_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/terrain_module.py b/scripts/terrain_module.py
index fa6efe2..542ed69 100644
--- a/scripts/terrain_module.py
+++ b/scripts/terrain_module.py
@@ -161,7 +161,7 @@ def terrain_p2p(dem, line):
 
     # Interpolate along line to get sampling points
     num_samples = determine_num_samples(distance_m)
-    steps = np.interp(range(num_samples), [0,num_samples], [0, line_geom.length])
+    steps = np.interp(range(num_samples), [0, num_samples - 1], [0, line_geom.length])
     point_geoms = [line_geom.interpolate(currentdistance) for currentdistance in steps]
 
     # Sample elevation profile
-- 
2.43.0


From 89126c4b280a8caa307e0e66381eefd1590b9f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:38 +0000
Subject: [PATCH 09/13] fix: interdecile_range ignored the mask of the cells
 outside the area

np.percentile does not honour masks: cells outside the radius and nodata
cells took part in the statistic, or made it fail.
---
 scripts/terrain_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/terrain_module.py b/scripts/terrain_module.py
index 542ed69..579d06e 100644
--- a/scripts/terrain_module.py
+++ b/scripts/terrain_module.py
@@ -112,7 +112,7 @@ def interdecile_range(x):
         The terrain irregularity parameter.
 
     """
-    q90, q10 = np.percentile(x, [90, 10])
+    q90, q10 = np.percentile(np.ma.compressed(x), [90, 10])
 
     interdecile_range = int(round(q90 - q10, 0))
 
-- 
2.43.0


From 1f81e90059bcde9ad55b88f0ee623cb3d672058f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:38 +0000
Subject: [PATCH 10/13] fix: the area runner dropped the ground conductivity
 from zgnd

The surface transfer impedance is the square root of the complex relative
permittivity minus 1, as in qlrps and p2p.py, not of its real part.
---
 scripts/area.py        | 2 +-
 scripts/area_2tiles.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/area.py b/scripts/area.py
index 6dd5b03..7d5b399 100644
--- a/scripts/area.py
+++ b/scripts/area.py
@@ -161,7 +161,7 @@ def itmlogic_area(main_user_defined_parameters):
     zq = complex(prop['eps'], 376.62 * prop['sgm'] / prop['wn'])
 
     #Compute ground effective impedance z parameter (horizontal pol)
-    prop['zgnd'] = math.sqrt(zq.real - 1)
+    prop['zgnd'] = np.sqrt(zq - 1)
 
     #Compute ground effective impedance z parameter (vertical pol)
     if (prop['ipol'] != 0):
diff --git a/scripts/area_2tiles.py b/scripts/area_2tiles.py
index b9fee7d..d22d8a7 100644
--- a/scripts/area_2tiles.py
+++ b/scripts/area_2tiles.py
@@ -162,7 +162,7 @@ def itmlogic_area(main_user_defined_parameters):
     zq = complex(prop['eps'], 376.62 * prop['sgm'] / prop['wn'])
 
     #Compute ground effective impedance z parameter (horizontal pol)
-    prop['zgnd'] = math.sqrt(zq.real - 1)
+    prop['zgnd'] = np.sqrt(zq - 1)
 
     #Compute ground effective impedance z parameter (vertical pol)
     if (prop['ipol'] != 0):
-- 
2.43.0


From 46a3e7fa481e8c4624e8ff73f54d347951fb178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:58 +0000
Subject: [PATCH 11/13] fix: qerf constants: b4 had two digits transposed and
 1/rp was rounded, so the error exceeded the documented 7.5e-8

---
 src/itmlogic/misc/qerf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/itmlogic/misc/qerf.py b/src/itmlogic/misc/qerf.py
index 7220556..ad790a4 100644
--- a/src/itmlogic/misc/qerf.py
+++ b/src/itmlogic/misc/qerf.py
@@ -20,9 +20,9 @@ def qerf(z):
     b1 = 0.319381530
     b2 = -0.356563782
     b3 = 1.781477937
-    b4 = -1.821255987
+    b4 = -1.821255978
     b5 = 1.330274429
-    rp = 4.317008
+    rp = 1 / 0.2316419
 
     rrt2pi = 0.398942280
 
-- 
2.43.0


From be0fa59ed057d482f3934c1ebc6cac0900f16f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:51 +0000
Subject: [PATCH 12/13] fix: terrain_area counted cells without data (declared
 value other than -9999, or beyond the raster)

---
 scripts/terrain_module.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scripts/terrain_module.py b/scripts/terrain_module.py
index 579d06e..1e174cb 100644
--- a/scripts/terrain_module.py
+++ b/scripts/terrain_module.py
@@ -20,7 +20,7 @@ import numpy as np
 from fiona.crs import from_epsg
 from rasterstats import gen_zonal_stats, point_query
 from shapely.ops import transform
-from shapely.geometry import Point, LineString, mapping
+from shapely.geometry import Point, LineString, box, mapping
 
 
 def terrain_area(dem, lon, lat, cell_range):
@@ -49,6 +49,11 @@ def terrain_area(dem, lon, lat, cell_range):
     # Buffer around cell point
     cell_area = geodesic_point_buffer(lon, lat, cell_range)
 
+    # Only cells of the raster itself count, and only those holding data
+    with rasterio.open(dem) as source:
+        cell_area = cell_area.intersection(box(*source.bounds))
+        nodata = -9999 if source.nodata is None else source.nodata
+
     # Calculate raster stats
     stats = next(gen_zonal_stats(
         [cell_area],
@@ -56,7 +61,7 @@ def terrain_area(dem, lon, lat, cell_range):
         add_stats={
             'interdecile_range': interdecile_range
         },
-        nodata=-9999
+        nodata=nodata
     ))
 
     id_range = stats['interdecile_range']
-- 
2.43.0


From a2c752b221450d29576a291a465e17724bdcb565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:02 +0000
Subject: [PATCH 13/13] fix: report diffraction as dominant between the horizon
 and scatter distances

The runners printed it for line-of-sight paths and not for the paths it dominates.
---
 scripts/p2p.py        | 9 +++++----
 scripts/p2p_2tiles.py | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/scripts/p2p.py b/scripts/p2p.py
index 6752366..fa48ce5 100644
--- a/scripts/p2p.py
+++ b/scripts/p2p.py
@@ -197,10 +197,11 @@ def itmlogic_p2p(main_user_defined_parameters, surface_profile_m):
         print('Single horizon path')
     else:
         print('Double-horizon path')
-    if prop['dist'] <= prop['dlsa']:
-        print('Diffraction is the dominant mode')
-    elif prop['dist'] > prop['dx']:
-        print('Tropospheric scatter is the dominant mode')
+    if prop['dist'] >= prop['dlsa']:
+        if prop['dist'] <= prop['dx']:
+            print('Diffraction is the dominant mode')
+        else:
+            print('Tropospheric scatter is the dominant mode')
 
     print('Estimated quantiles of basic transmission loss (db)')
     print('Free space value {} db'.format(str(fs)))
diff --git a/scripts/p2p_2tiles.py b/scripts/p2p_2tiles.py
index 90d4e9b..96ad30f 100644
--- a/scripts/p2p_2tiles.py
+++ b/scripts/p2p_2tiles.py
@@ -195,10 +195,11 @@ def itmlogic_p2p(main_user_defined_parameters, surface_profile_m):
         print('Single horizon path')
     else:
         print('Double-horizon path')
-    if prop['dist'] <= prop['dlsa']:
-        print('Diffraction is the dominant mode')
-    elif prop['dist'] > prop['dx']:
-        print('Tropospheric scatter is the dominant mode')
+    if prop['dist'] >= prop['dlsa']:
+        if prop['dist'] <= prop['dx']:
+            print('Diffraction is the dominant mode')
+        else:
+            print('Tropospheric scatter is the dominant mode')
 
     print('Estimated quantiles of basic transmission loss (db)')
     print('Free space value {} db'.format(str(fs)))
-- 
2.43.0

