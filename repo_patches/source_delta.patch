From 564236501a220234152d85e63638ce6ba4032e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:44 +0000
Subject: [PATCH 001/107] fix: keep the row count of Data correct when deleting
 rows twice or not present

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 9cb05b0..a3987ba 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -324,7 +324,7 @@ class Data:
                     k: [v for i, v in enumerate(value) if i not in key]
                     for k, value in self._data.items()
                 }
-                self._max_len -= len(key)
+                self._max_len = max(map(len, self._data.values()), default=0)
 
     def strip(self, mode="all"):
         """
-- 
2.43.0


From 0a2195f1232cb43d49fd4c239f5200ea323b9905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:08 +0000
Subject: [PATCH 002/107] fix: let Data.strip adjust the row count and
 terminate without any value

---
 hrosailing/core/data.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index a3987ba..d41fdb0 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -345,24 +345,17 @@ class Data:
                 if not all(v is None for v in value)
             }
         elif mode == "rows":
-            end_leading_nones = 0  # first index AFTER leading None rows
-            start_tailing_nones = (
-                self._max_len - 1
-            )  # first index BEFORE tailing None rows
-            while all(
-                value[end_leading_nones] is None
-                for key, value in self._data.items()
-            ):
-                end_leading_nones += 1
-            while all(
-                value[start_tailing_nones] is None
-                for key, value in self._data.items()
-            ):
-                start_tailing_nones -= 1
+            non_empty_rows = [
+                i
+                for i in range(self._max_len)
+                if any(value[i] is not None for value in self._data.values())
+            ]
+            start = non_empty_rows[0] if non_empty_rows else 0
+            end = non_empty_rows[-1] + 1 if non_empty_rows else 0
             self._data = {
-                key: value[end_leading_nones : start_tailing_nones + 1]
-                for key, value in self._data.items()
+                key: value[start:end] for key, value in self._data.items()
             }
+            self._max_len = end - start
         elif mode == "all":
             self.strip("cols")
             self.strip("rows")
-- 
2.43.0


From 9e9a5cc6c3afeba6eb832c00df0af486b087c552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 003/107] fix: do not share column lists of Data with the
 caller or with slices

---
 hrosailing/core/data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index d41fdb0..96d497f 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -172,7 +172,7 @@ class Data:
         else:
             # self.fill(self._max_len - len(data), [key])
             # self._data[key].extend(data)
-            self._data[key] = data
+            self._data[key] = list(data)
             self._types[key] = data_type
             self._max_len = max(self._max_len, len(self._data[key]))
 
@@ -497,7 +497,9 @@ class Data:
         """
 
         data = {
-            key: value for key, value in self._data.items() if key in slice_
+            key: list(value)
+            for key, value in self._data.items()
+            if key in slice_
         }
         types = {
             key: value for key, value in self._types.items() if key in slice_
-- 
2.43.0


From 2a18968febd814fe5452b924eed18b8ae4076eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:19 +0000
Subject: [PATCH 004/107] fix: let Data.fill with a larger length adjust the
 row count

---
 hrosailing/core/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 96d497f..52e111e 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -260,6 +260,7 @@ class Data:
             fill_len = max(0, (len_ - curr_len))
             self._data[key].extend([None] * fill_len)
             self._types[key] = self._get_type(self._data[key])
+            self._max_len = max(self._max_len, len(self._data[key]))
 
     def filter_types(self, type_list):
         """
-- 
2.43.0


From 1982a8af42f66a641da21b20004f1eb088c2dbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:25 +0000
Subject: [PATCH 005/107] fix: respect compress when updating Data with Data

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 52e111e..c01771c 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -191,7 +191,7 @@ class Data:
             `None`, the last entries will be replaced.
         """
         if isinstance(data_dict, Data):
-            self.update(data_dict.data)
+            self.update(data_dict.data, compress)
             return
         if not isinstance(data_dict, dict):
             raise TypeError("`data_dict` has to be of type `Data` or `dict`")
-- 
2.43.0


From f26dd1404276c289319ebd9b3a05f7454a8b0e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:43 +0000
Subject: [PATCH 006/107] fix: do not append combined date and time to an
 existing datetime column

---
 hrosailing/core/data.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index c01771c..91908bd 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -403,8 +403,14 @@ class Data:
                     return None
                 return datetime.combine(date, time)
 
+            datetime_key = "datetime"
+            i = 0
+            while datetime_key in self.keys():
+                i += 1
+                datetime_key = f"datetime(Control value {i})"
+
             self.extend(
-                "datetime",
+                datetime_key,
                 [
                     combine(date, time)
                     for date, time in zip(self["date"], self["time"])
-- 
2.43.0


From 585529dbf2ee1aba887f8c785457884fcb4b3af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:48 +0000
Subject: [PATCH 007/107] fix: cast all numpy number columns to float in the
 standard format

---
 hrosailing/core/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 91908bd..a1541e1 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -421,7 +421,10 @@ class Data:
 
         # ensure floats
         for key in self.keys():
-            if self._types[key] in (int, str, Decimal, np.float_):
+            type_ = self._types[key]
+            if type_ in (int, str, Decimal) or (
+                type_ is not None and issubclass(type_, np.number)
+            ):
                 succes, self._data[key] = _try_call_to_float(self._data[key])
                 if succes:
                     self._types[key] = float
-- 
2.43.0


From 9a15550442aec359a1029cbb8cffda48799706e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:54 +0000
Subject: [PATCH 008/107] fix: accept empty column names in the standard format

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index a1541e1..a868bed 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -377,7 +377,7 @@ class Data:
                 lkey = lkey.replace(sep, " ")
             lkey = lkey.strip()
             # remove plural
-            stripped_lkey = lkey if lkey[-1] != "s" else lkey[:-1]
+            stripped_lkey = lkey[:-1] if lkey.endswith("s") else lkey
             if lkey in KEYSYNONYMS:
                 return KEYSYNONYMS[lkey]
             if stripped_lkey in KEYSYNONYMS:
-- 
2.43.0


From 2e351c683e81a233fe9d35ade09c8af5852a571c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 009/107] fix: do not modify the wind passed to the wind
 conversions

---
 hrosailing/core/computing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/computing.py b/hrosailing/core/computing.py
index 0a09ac7..2c7ab04 100644
--- a/hrosailing/core/computing.py
+++ b/hrosailing/core/computing.py
@@ -26,7 +26,7 @@ class _Wind(enum.Enum):
         if np.any((ws < 0)):
             raise TypeError("`wind` has negative wind speeds")
 
-        wa %= 360  # normalize wind angles
+        wa = wa % 360  # normalize wind angles
         wa_above_180 = wa > 180
         wa = np.deg2rad(wa)
 
-- 
2.43.0


From 9dcf910e438c3637b6ac9c17f9dee119d5cb4f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:33 +0000
Subject: [PATCH 010/107] fix: store the resolutions of a zero table as arrays

---
 hrosailing/polardiagram/_polardiagramtable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index ba0b0a3..f031b08 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -169,8 +169,8 @@ class PolarDiagramTable(PolarDiagram):
     def _create_zero_table(self, ws_resolution, wa_resolution):
         rows, cols = len(wa_resolution), len(ws_resolution)
         self._boat_speeds = np.zeros((rows, cols))
-        self._ws_resolution = sorted(ws_resolution)
-        self._wa_resolution = sorted(wa_resolution)
+        self._ws_resolution = np.sort(ws_resolution)
+        self._wa_resolution = np.sort(wa_resolution)
 
     def __str__(self):
         table = ["  TWA / TWS"]
-- 
2.43.0


From 308b6e119ebf68594b57039e98f5392a1048e946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 011/107] fix: do not modify wind angles passed to a table

---
 hrosailing/polardiagram/_polardiagramtable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index f031b08..27ffa4e 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -750,7 +750,7 @@ class _Resolution_helper:
                 raise ValueError("`res` contains negative entries")
 
         if resolution_type == _Resolution_type.WIND_ANGLE:
-            res %= 360
+            res = res % 360
 
         return res
 
@@ -778,7 +778,7 @@ class _Resolution_helper:
                 raise ValueError("`wind` is negative")
 
         if resolution_type == _Resolution_type.WIND_ANGLE:
-            wind %= 360
+            wind = wind % 360
 
         return set(wind)
 
-- 
2.43.0


From cf05a1907384bff1d220262e8a96792273189af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 012/107] fix: assign changed table entries in the order of the
 given winds

---
 hrosailing/polardiagram/_polardiagramtable.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index 27ffa4e..1a38188 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -324,10 +324,10 @@ class PolarDiagramTable(PolarDiagram):
         if not wind:
             raise ValueError("empty slice-list was passed")
 
-        if not wind.issubset(set(res)):
+        if not set(wind).issubset(set(res)):
             raise ValueError(f"{wind} is not contained in {res}")
 
-        return [i for i, w in enumerate(res) if w in wind]
+        return [i for w in wind for i, r in enumerate(res) if r == w]
 
     @property
     def wind_angles(self):
@@ -653,12 +653,7 @@ class PolarDiagramTable(PolarDiagram):
         if not correct_shape:
             raise ValueError("`new_bsps` has wrong shape")
 
-        mask = np.zeros(self.boat_speeds.shape, dtype=bool)
-        for i in wa:
-            for j in ws:
-                mask[i, j] = True
-
-        self._boat_speeds[mask] = new_bsps.flat
+        self._boat_speeds[np.ix_(wa, ws)] = new_bsps.reshape(len(wa), len(ws))
 
 
 class _Resolution_type(enum.Enum):
@@ -780,7 +775,8 @@ class _Resolution_helper:
         if resolution_type == _Resolution_type.WIND_ANGLE:
             wind = wind % 360
 
-        return set(wind)
+        # drop repeated winds but keep the given order
+        return list(dict.fromkeys(wind))
 
 
 def _incompatible_shapes(bsps, ws_resolution, wa_resolution):
-- 
2.43.0


From 7c2c79850a44cc46a13b48aa5897bc54d39a5a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 013/107] fix: evaluate tables periodically in the wind angle

---
 hrosailing/polardiagram/_polardiagramtable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index 1a38188..047831f 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -284,7 +284,7 @@ class PolarDiagramTable(PolarDiagram):
         try:
             return self[ws, wa]
         except (TypeError, ValueError):
-            point = np.array([ws, wa])
+            point = np.array([ws, wa % 360])
             ws, wa = np.meshgrid(self.wind_speeds, self.wind_angles)
             points = np.column_stack(
                 (ws.ravel(), wa.ravel(), self.boat_speeds.ravel())
-- 
2.43.0


From 24ea0583e6fced050e38b0ab0f76c8140cf0672c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 014/107] fix: use the wind angle of the other points in
 Shepard's direction term

---
 hrosailing/processing/interpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index ecdd25d..812bd8f 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -450,7 +450,7 @@ def _include_direction(pts, grid_pt, dist, wts):
         cosine = (grid_pt[0] - pt[0]) * (
             grid_pt[0] - np.delete(pts, i, axis=0)[:, 0]
         ) + (grid_pt[1] - pt[1]) * (
-            grid_pt[1] - np.delete(pts, i, axis=0)[:, 0]
+            grid_pt[1] - np.delete(pts, i, axis=0)[:, 1]
         )
         cosine /= dist[i] * np.delete(dist, i)
         t[i] = np.sum(np.delete(wts, i) * (1 - cosine))
-- 
2.43.0


From 599dafbbdf98270433c57a10c0797c59a316fbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 015/107] fix: weigh equidistant points equally in the improved
 IDW interpolator

---
 hrosailing/processing/interpolator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index 812bd8f..f5030ed 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -439,6 +439,10 @@ def _set_weights(pts, dist):
         elif r / 3 < d <= r:
             wts[i] = 27 / (4 * r) * np.square(d / r - 1)
 
+    # all points have the maximal distance
+    if not np.any(wts):
+        wts[:] = 1
+
     return wts
 
 
-- 
2.43.0


From 19493a6536f1f584baf5fa5c6084ef0cfb52703f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 016/107] fix: use the distances of the winds in Shepard's
 slopes

---
 hrosailing/processing/interpolator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index f5030ed..9184233 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -470,9 +470,9 @@ def _determine_slope(pts, grid_pt, dist, wts, nhood, norm, slope):
 
     for i, pt in enumerate(pts):
         pts_i = np.delete(pts, i, axis=0)
-        mask = nhood.is_contained_in(pts_i - pt)
+        mask = nhood.is_contained_in(pts_i[:, :2] - pt[:2])
         pts_i = pts_i[mask]
-        dist_i = norm(pts_i - pt)
+        dist_i = norm(pts_i[:, :2] - pt[:2])
         wts_i = np.delete(wts, i)[mask]
         xderiv[i] = np.sum(
             wts_i
-- 
2.43.0


From 1bf9d2b27c67049214ace2db44c65cd85da1b29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 017/107] fix: let Shepard's interpolator handle constant data
 and lonely points

---
 hrosailing/processing/interpolator.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index 9184233..96befb2 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -474,6 +474,8 @@ def _determine_slope(pts, grid_pt, dist, wts, nhood, norm, slope):
         pts_i = pts_i[mask]
         dist_i = norm(pts_i[:, :2] - pt[:2])
         wts_i = np.delete(wts, i)[mask]
+        if not np.any(wts_i):
+            continue
         xderiv[i] = np.sum(
             wts_i
             * (pts_i[:, 2] - pt[2])
@@ -489,10 +491,12 @@ def _determine_slope(pts, grid_pt, dist, wts, nhood, norm, slope):
         )
         yderiv[i] /= np.sum(wts_i)
 
+    max_slope = np.sqrt(np.max(np.square(xderiv) + np.square(yderiv)))
+    if max_slope == 0:
+        return np.zeros(pts.shape[0])
+
     dim_of_dist = (
-        slope
-        * (np.max(pts[:, 2]) - np.min(pts[:, 2]))
-        / np.sqrt(np.max(np.square(xderiv) + np.square(yderiv)))
+        slope * (np.max(pts[:, 2]) - np.min(pts[:, 2])) / max_slope
     )
 
     return (
-- 
2.43.0


From 418632db6fe745658874ec7a0a426d0c09eb11c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 018/107] fix: let a scaling ball contain all points if there
 are too few

---
 hrosailing/processing/neighbourhood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/neighbourhood.py b/hrosailing/processing/neighbourhood.py
index 97f63ac..6e7ddbe 100644
--- a/hrosailing/processing/neighbourhood.py
+++ b/hrosailing/processing/neighbourhood.py
@@ -172,7 +172,7 @@ class ScalingBall(Neighbourhood):
             return True
 
         dist = self._norm(pts)
-        self._radius = sorted(dist)[self._min_pts - 1]
+        self._radius = sorted(dist)[min(self._min_pts, len(dist)) - 1]
 
         return dist <= self._radius
 
-- 
2.43.0


From 52adbc708ac2b54c9d807e742eee83f754c6fcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 019/107] fix: do not modify points passed to a point cloud

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index a03ea19..0a48f03 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -318,7 +318,7 @@ class PolarDiagramPointcloud(PolarDiagram):
         if apparent_wind:
             new_pts = convert_apparent_wind_to_true(new_pts)
         else:
-            new_pts = np.asarray_chkfinite(new_pts)
+            new_pts = np.array(np.asarray_chkfinite(new_pts))
             if np.any((new_pts[:, 0] <= 0)):
                 raise ValueError("`new_pts` has non-positive wind speeds")
             new_pts[:, 1] %= 360
-- 
2.43.0


From 1320ac01a78aee0eb067e6852c90ba847a260747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 020/107] fix: do not scale interpolated boat speeds of a point
 cloud by 50

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index 0a48f03..504cd12 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -162,7 +162,7 @@ class PolarDiagramPointcloud(PolarDiagram):
         self,
         ws,
         wa,
-        interpolator=ArithmeticMeanInterpolator(50),
+        interpolator=ArithmeticMeanInterpolator(params=(50,)),
         neighbourhood=Ball(radius=1),
     ):
         """Returns the value of the polar diagram at a given `ws-wa` point.
@@ -182,7 +182,7 @@ class PolarDiagramPointcloud(PolarDiagram):
             Interpolator subclass that determines the interpolation
             method used to determine the value at the `ws-wa` point.
 
-            Defaults to `ArithmeticMeanInterpolator(50)`.
+            Defaults to `ArithmeticMeanInterpolator(params=(50,))`.
 
         neighbourhood : Neighbourhood, optional
             Neighbourhood subclass used to determine the points in
-- 
2.43.0


From bb7e0de15e11e594d46a446b80df8d513d7f7b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 021/107] fix: return slices of shape (3, n) for interpolated
 point clouds

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index 504cd12..c1a8844 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -119,7 +119,14 @@ class PolarDiagramPointcloud(PolarDiagram):
             default_wind_angles = np.linspace(0, 360, wa_resolution)
             return [
                 np.row_stack(
-                    self(ws_, wa, interpolator) for wa in default_wind_angles
+                    [
+                        [ws_] * len(default_wind_angles),
+                        default_wind_angles,
+                        [
+                            self(ws_, wa, interpolator)
+                            for wa in default_wind_angles
+                        ],
+                    ]
                 )
                 for ws_ in ws
             ]
-- 
2.43.0


From 0366ce77fd7717ea3812fb4a776187d3b0d6ac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 022/107] fix: mirror curves in radians at the 0 - 180 degree
 axis

---
 hrosailing/polardiagram/_polardiagramcurve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagramcurve.py b/hrosailing/polardiagram/_polardiagramcurve.py
index 351ac05..439f43e 100644
--- a/hrosailing/polardiagram/_polardiagramcurve.py
+++ b/hrosailing/polardiagram/_polardiagramcurve.py
@@ -206,9 +206,11 @@ class PolarDiagramCurve(PolarDiagram):
         by mirroring it at the 0° - 180° axis and returning a new instance.
         """
 
+        full_circle = 2 * np.pi if self.radians else 360
+
         def sym_func(ws, wa, *params):
             y = self._f(ws, wa, *params)
-            y_symm = self._f(ws, (360 - wa), *params)
+            y_symm = self._f(ws, (full_circle - wa), *params)
             return 0.5 * (y + y_symm)
 
         return PolarDiagramCurve(
-- 
2.43.0


From 415548d74e6e0eb0784f4b5b54f54376acad104c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 023/107] fix: hand out copies of the lists of sails and
 diagrams

---
 hrosailing/polardiagram/_polardiagrammultisails.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagrammultisails.py b/hrosailing/polardiagram/_polardiagrammultisails.py
index b48504c..36aa284 100644
--- a/hrosailing/polardiagram/_polardiagrammultisails.py
+++ b/hrosailing/polardiagram/_polardiagrammultisails.py
@@ -63,11 +63,11 @@ class PolarDiagramMultiSails(PolarDiagram):
 
     @property
     def sails(self):
-        return self._sails
+        return self._sails.copy()
 
     @property
     def diagrams(self):
-        return self._diagrams
+        return self._diagrams.copy()
 
     def __getitem__(self, item) -> PolarDiagramTable:
         """"""
-- 
2.43.0


From 42046d2386d7002f8c7270b601d2227405b6dc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 024/107] fix: save the sails next to their diagram whatever
 its directory is called

---
 hrosailing/polardiagram/_polardiagrammultisails.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagrammultisails.py b/hrosailing/polardiagram/_polardiagrammultisails.py
index 36aa284..8ca7e89 100644
--- a/hrosailing/polardiagram/_polardiagrammultisails.py
+++ b/hrosailing/polardiagram/_polardiagrammultisails.py
@@ -1,6 +1,7 @@
 # pylint: disable=missing-module-docstring
 
 import csv
+import os
 
 import numpy as np
 
@@ -189,8 +190,9 @@ class PolarDiagramMultiSails(PolarDiagram):
 
     @staticmethod
     def _get_sub_csv_path(path, i):
-        path = "_".join([path.split(".")[0], "sail", str(i)])
-        return f"{path}.csv"
+        directory, name = os.path.split(os.fspath(path))
+        name = "_".join([name.split(".")[0], "sail", str(i)])
+        return os.path.join(directory, f"{name}.csv")
 
     @classmethod
     def __from_csv__(cls, file):
-- 
2.43.0


From c966a5559720e27851e15fa1b9da936e93f078ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 025/107] fix: accept any iterable of wind speeds for slices

---
 hrosailing/polardiagram/_basepolardiagram.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrosailing/polardiagram/_basepolardiagram.py b/hrosailing/polardiagram/_basepolardiagram.py
index 81f82d6..87e24a9 100644
--- a/hrosailing/polardiagram/_basepolardiagram.py
+++ b/hrosailing/polardiagram/_basepolardiagram.py
@@ -103,6 +103,7 @@ class PolarDiagram(ABC):
         if isinstance(ws, (int, float)):
             return [ws]
         try:
+            ws = list(ws)
             all_numbers = all(
                 isinstance(ws_, (int, float, np.integer, np.floating))
                 for ws_ in ws
-- 
2.43.0


From c4305eaeef883121c4bd53d44bf527ba359cbaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:53 +0000
Subject: [PATCH 026/107] fix: evaluate slices and default points of curves in
 radians at their angles

---
 hrosailing/polardiagram/_polardiagramcurve.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagramcurve.py b/hrosailing/polardiagram/_polardiagramcurve.py
index 439f43e..9f75f20 100644
--- a/hrosailing/polardiagram/_polardiagramcurve.py
+++ b/hrosailing/polardiagram/_polardiagramcurve.py
@@ -73,9 +73,14 @@ class PolarDiagramCurve(PolarDiagram):
         wa = np.linspace(5, 355, 144)
         ws, wa = np.meshgrid(ws, wa)
         ws, wa = ws.ravel(), wa.ravel()
-        bsp = np.array([self(ws_, wa_) for ws_, wa_ in zip(ws, wa)])
+        bsp = np.array(
+            [self._at_degrees(ws_, wa_) for ws_, wa_ in zip(ws, wa)]
+        )
         return np.column_stack([ws, wa, bsp])
 
+    def _at_degrees(self, ws, wa):
+        return self(ws, np.deg2rad(wa) if self.radians else wa)
+
     def get_slices(
         self,
         ws=None,
@@ -109,7 +114,9 @@ class PolarDiagramCurve(PolarDiagram):
         """
         wa_ls = np.linspace(0, 360, wa_resolution)
         return [
-            np.row_stack([[ws_] * len(wa_ls), wa_ls, self(ws_, wa_ls)])
+            np.row_stack(
+                [[ws_] * len(wa_ls), wa_ls, self._at_degrees(ws_, wa_ls)]
+            )
             for ws_ in ws
         ]
 
-- 
2.43.0


From 85656dbe3e622f1fab8d6be2b1a62ffa64368336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 027/107] fix: let ws_s_wa_gauss model its documented function

---
 hrosailing/core/modelfunctions/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hrosailing/core/modelfunctions/__init__.py b/hrosailing/core/modelfunctions/__init__.py
index 4331cab..69b4db3 100644
--- a/hrosailing/core/modelfunctions/__init__.py
+++ b/hrosailing/core/modelfunctions/__init__.py
@@ -141,9 +141,9 @@ def ws_s_wa_gauss(ws, wa, *params):
     wa = np.asarray(wa)
 
     return (
-        s_shaped(ws, *params[0:4])
-        + gaussian_model(wa, *params[4:8])
-        + gaussian_model(360 - wa, *params[8:12])
+        s_shaped(ws, params[0], params[1], params[2], downturn=False)
+        + gaussian_model(wa, params[3], params[4], params[5])
+        + gaussian_model(360 - wa, params[6], params[7], params[8])
     )
 
 
-- 
2.43.0


From a0abd00a111456d7232a8b0bd4c16cda5a224f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 028/107] fix: return directions on the far side of the hull
 that lead along the requested course

---
 hrosailing/cruising/basics.py | 114 +++++++++++++++++-----------------
 1 file changed, 58 insertions(+), 56 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index eb5d2f6..508ffa1 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -96,68 +96,70 @@ def convex_direction(
         direction. For example, this could be the case, if the polar diagram
         only has data for angles between 0 and 180 degrees.
     """
-    labels, slices, info = pd.get_slices(ws, full_info=True)
-    ws, wa, bsp = slices[0]
-    if im:
-        bsp = im.add_influence(pd, influence_data)
-    bsp = np.array(bsp).ravel()
-    wa = np.deg2rad(np.array(wa).ravel())
-
-    polar_pts = np.column_stack(
-        (bsp * np.cos(wa).ravel(), bsp * np.sin(wa).ravel())
-    )
-    conv = ConvexHull(polar_pts)
-    vert = sorted(conv.vertices)
-
-    wa = np.rad2deg(wa)
-
-    for left, right in zip(vert, vert[1:]):
-        if wa[left] <= direction <= wa[right]:
-            i1, i2 = left, right
-            edge = [Direction(wa[i1], 1), Direction(wa[i2], 1)]
-            break
-    else:
-        i1, i2 = vert[0], vert[-1]
-        if abs(wa[i1] - wa[i2]) < 180:
-            raise ValueError(
-                "The given direction is not supported by the given"
-                " polar_diagram."
-            )
-        edge = [Direction(wa[i1], 1), Direction(wa[i2], 1)]
+    wa, bsp, sails = _performance(pd, ws, im, influence_data)
+    edge, _ = _fastest_edge(wa, bsp, sails, direction % 360)
+    return edge
 
-    if info:
-        edge[0].sail = info[0][i1]
-        edge[1].sail = info[0][i2]
 
-    if edge[0] == direction:
-        return [edge[0]]
+def _performance(pd, ws, im, influence_data):
+    """Wind angles (sorted), boat speeds and sails recorded for `ws`."""
+    _, slices, info = pd.get_slices(ws, full_info=True)
+    tws, wa, bsp = slices[0]
+    if im:
+        data = {
+            key: val if np.ndim(val) else [val] * len(wa)
+            for key, val in (influence_data or {}).items()
+        }
+        data["TWS"], data["TWA"] = list(tws), list(wa)
+        bsp = im.add_influence(pd, data)
+
+    wa, bsp = np.array(wa).ravel(), np.array(bsp).ravel()
+    sails = list(info[0]) if info else [None] * len(wa)
+    order = np.argsort(wa, kind="stable")
+    return wa[order], bsp[order], [sails[i] for i in order]
+
+
+def _fastest_edge(wa, bsp, sails, direction):
+    """Directions on the edge of the convex hull of the polar diagram that
+    lies in the given direction and the speed made good in that direction."""
+    wa_rad = np.deg2rad(wa)
+    polar_pts = np.column_stack((bsp * np.cos(wa_rad), bsp * np.sin(wa_rad)))
+
+    course = np.deg2rad(direction)
+    course = np.array([math.cos(course), math.sin(course)])
+
+    speed, i1, i2, lambda_ = -1, None, None, None
+    for edge in ConvexHull(polar_pts).simplices:
+        left, right = sorted(edge)
+        try:
+            scalars = np.linalg.solve(polar_pts[[left, right]].T, course)
+        except np.linalg.LinAlgError:
+            continue
+        if np.any(scalars < -1e-9 * np.abs(scalars).max()):
+            continue
+        if 1 / sum(scalars) > speed:
+            speed = 1 / sum(scalars)
+            i1, i2, lambda_ = left, right, scalars[0] * speed
+
+    if i1 is None:
+        raise ValueError(
+            "The given direction is not supported by the given"
+            " polar_diagram."
+        )
 
-    if edge[1] == direction:
-        return [edge[1]]
+    # the direction is the one of a vertex
+    for i, proportion in ((i1, lambda_), (i2, 1 - lambda_)):
+        if proportion > 1 - 1e-9:
+            return [Direction(wa[i], 1, sails[i])], bsp[i]
 
     # direction lies on a common edge of polar diagram and convex hull
-    if abs(i1 - i2) == 1 and edge[0].sail == edge[1].sail:
-        return [edge[0]]
-
-    lambda_ = _get_first_proportion(
-        conv.points[i1], conv.points[i2], direction
-    )
-    if lambda_ > 1 or lambda_ < 0:
-        lambda_ = (direction + 360 - wa[i2]) / (wa[i1] + 360 - wa[i2])
-    edge[0].proportion = lambda_
-    edge[1].proportion = 1 - lambda_
-    return edge
-
+    if i2 - i1 == 1 and sails[i1] == sails[i2]:
+        return [Direction(direction, 1, sails[i1])], speed
 
-def _get_first_proportion(point1, point2, direction):
-    direction_rad = np.deg2rad(direction)
-    direction_polar = np.array(
-        [math.cos(direction_rad), math.sin(direction_rad)]
-    )
-    scalars = np.linalg.solve(
-        np.column_stack([point1, point2]), direction_polar
-    )
-    return scalars[0] / sum(scalars)
+    return [
+        Direction(wa[i1], lambda_, sails[i1]),
+        Direction(wa[i2], 1 - lambda_, sails[i2]),
+    ], speed
 
 
 def cruise(
-- 
2.43.0


From 9753a85175e67fac912b2bdc9ed278fa742e78e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 029/107] fix: compute courses, wind directions and distances
 in degrees and nautical miles

---
 hrosailing/cruising/basics.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 508ffa1..5a325a0 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -525,17 +525,17 @@ def _get_inverse_bsp(pd, pos, hdt, t, lat_mp, start_time, wm, im):
 
 
 def _right_handing_course(a, b):
-    """Calculates course between two points on the surface of the earth
-    relative to true north.
+    """Calculates course in degrees (between 0 and 360) between two points on
+    the surface of the earth, given in longitude and latitude, relative to
+    true north.
     """
-    numerator = np.cos(a[1]) * np.sin(b[1]) - np.cos(a[0] - b[0]) * np.cos(
-        b[1]
-    ) * np.sin(a[1])
-    denominator = np.cos(a[0] - b[0]) * np.cos(a[1]) * np.cos(b[1]) + np.sin(
-        a[1]
-    ) * np.cos(b[1])
+    (lon_a, lat_a), (lon_b, lat_b) = np.deg2rad(a), np.deg2rad(b)
+    east = np.sin(lon_b - lon_a) * np.cos(lat_b)
+    north = np.cos(lat_a) * np.sin(lat_b) - np.sin(lat_a) * np.cos(
+        lat_b
+    ) * np.cos(lon_b - lon_a)
 
-    return np.arccos(numerator / np.sqrt(1 - denominator**2))
+    return np.rad2deg(np.arctan2(east, north)) % 360
 
 
 def _wind_relative_to_north(wind, wind_fmt):
@@ -564,6 +564,7 @@ def _wind_relative_to_north(wind, wind_fmt):
         The current wind speed.
 
     ndir : float between 0 and 360
+        The direction from which the wind blows.
 
     Raises
     --------
@@ -580,7 +581,7 @@ def _wind_relative_to_north(wind, wind_fmt):
     if wind_fmt == "uv_grd":
         wind = np.array(wind)
         u, v = wind
-        return np.linalg.norm(wind), 180 / np.pi * np.arctan2(v, u)
+        return np.linalg.norm(wind), np.rad2deg(np.arctan2(-u, -v)) % 360
 
     raise AttributeError(f"wind_fmt '{wind_fmt}' is not supported")
 
@@ -594,19 +595,20 @@ def _wind_relative_to_north(wind, wind_fmt):
 def _uvgrid_to_tw(ugrid, vgrid, hdt):
     """Calculates the true wind speed and wind angle from given grib data."""
     tws = np.sqrt(ugrid**2 + vgrid**2)
-    wa = (180 + 180 / np.pi * np.arctan2(vgrid, ugrid)) % 360
+    wa = (180 + 180 / np.pi * np.arctan2(ugrid, vgrid)) % 360
     twa = (hdt - wa) % 360
     return tws, twa
 
 
 EARTH_FLATTENING = 1 / 298.257223563
-EQUATOR_CIRCUMFERENCE = 40075.017
+EQUATOR_CIRCUMFERENCE = 40075.017 / 1.852  # nautical miles
 
 
 def _great_earth_ellipsoid_distance(a, b):
-    """Calculates the distance on the surface for two points on the
-    earth surface.
+    """Calculates the distance in nautical miles on the surface for two points
+    on the earth surface, given in longitude and latitude.
     """
+    a, b = np.deg2rad(a), np.deg2rad(b)
     f = (a[1] + b[1]) / 2
     g = (a[1] - b[1]) / 2
     lat = (a[0] - b[0]) / 2
@@ -614,7 +616,7 @@ def _great_earth_ellipsoid_distance(a, b):
     s = (np.sin(g) * np.cos(lat)) ** 2 + (np.cos(f) * np.sin(lat)) ** 2
     c = (np.cos(g) * np.cos(lat)) ** 2 + (np.sin(f) * np.sin(lat)) ** 2
 
-    omega = np.deg2rad(np.arctan(np.sqrt(s / c)))
+    omega = np.arctan(np.sqrt(s / c))
     d = EQUATOR_CIRCUMFERENCE * omega / np.pi
 
     t = np.sqrt(s * c) / omega
-- 
2.43.0


From ede3ebfde85f65744ee036d94197d8fc4c099145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 030/107] fix: cruise along directions for the actual course
 and wind

---
 hrosailing/cruising/basics.py | 35 +++++------------------------------
 1 file changed, 5 insertions(+), 30 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 5a325a0..a8dfcf7 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -233,38 +233,13 @@ def cruise(
     """
 
     ws, wdir = _wind_relative_to_north(wind, wind_fmt)
+    course = _right_handing_course(start, end)
 
-    _, slices, _ = pd.get_slices(ws, full_info=True)
-    ws, wa, bsp = slices[0]
-    if im:
-        for key, val in influence_data.items():
-            influence_data[key] = [val] * len(wa)
-        influence_data["TWS"] = [ws] * len(wa)
-        influence_data["TWA"] = wa
-        bsp = im.add_influence(pd, influence_data)
-    bsp = np.array(bsp).ravel()
-
-    rhc = _right_handing_course(start, end)
-
-    heading = np.arccos(
-        np.cos(rhc) * np.cos(wdir) + np.sin(rhc) * np.sin(wdir)
-    )
-    heading = 180 - np.rad2deg(heading)
-    d1, *d2 = convex_direction(pd, ws, heading)
-
-    dist = _great_earth_ellipsoid_distance(start, end)
-
-    bsp1 = bsp[np.where(wa == d1.angle)[0]]
-    if not d2:
-        return [(d1.angle, float(dist / bsp1))]
-
-    d2 = d2[0]
-    bsp2 = bsp[np.where(wa == d2.angle)[0]]
-
-    t = dist / (d1.proportion * bsp1 + d2.proportion * bsp2)
-    t1, t2 = d1.proportion * t, d2.proportion * t
+    wa, bsp, sails = _performance(pd, ws, im, influence_data)
+    edge, speed = _fastest_edge(wa, bsp, sails, (course - wdir) % 360)
 
-    return [(d1.angle, float(t1)), (d2.angle, float(t2))]
+    time = _great_earth_ellipsoid_distance(start, end) / speed
+    return [(d.angle, float(d.proportion * time)) for d in edge]
 
 
 def cost_cruise(
-- 
2.43.0


From b94bb09e4e7fba2ed8f6862a1fef9fafb6fceb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 031/107] fix: project longitudes to the east and latitudes to
 the north for isochrones and costs

---
 hrosailing/cruising/basics.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index a8dfcf7..778bb72 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -325,7 +325,8 @@ def cost_cruise(
     proj_end = _mercator_proj(end, lat_mp)
     total_s = np.linalg.norm(proj_end - proj_start)
 
-    hdt = _right_handing_course(start, end)
+    # course of the straight line on the map
+    hdt = np.rad2deg(np.arctan2(*(proj_end - proj_start))) % 360
 
     # define derivative of t by s
     def dt_ds(s, t):
@@ -460,20 +461,23 @@ def _inverse_mercator_proj(pt, lat_mp):
     """
     Computes point from its mercator projection with reference point `lat_mp`.
     """
-    x, y = pt / 69
-    return x + lat_mp, 180 / np.pi * np.arcsin(np.tanh(y))
+    x, y = pt / _mercator_scale(lat_mp)
+    return np.rad2deg(np.arcsin(np.tanh(y))), np.rad2deg(x)
 
 
 def _mercator_proj(pt, lat_mp):
     """
     Computes the mercator projection with reference point `lat_mp` of a point.
+    Distances on the map are true distances at latitude `lat_mp`.
     """
-    lat, long = pt
+    lat, long = np.deg2rad(pt)
 
-    # 69 nautical miles between two latitudes
-    return 69 * np.array(
-        [(lat - lat_mp), np.arcsinh(np.tan(np.pi * long / 180))]
-    )
+    return _mercator_scale(lat_mp) * np.array([long, np.arcsinh(np.tan(lat))])
+
+
+def _mercator_scale(lat_mp):
+    # 60 nautical miles between two latitudes
+    return np.rad2deg(60) * np.cos(np.deg2rad(lat_mp))
 
 
 def _get_inverse_bsp(pd, pos, hdt, t, lat_mp, start_time, wm, im):
-- 
2.43.0


From e4bdf5722de24cfabd9bddec1de28db4ae8b8894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:45 +0000
Subject: [PATCH 032/107] fix: use TWS and TWA of the weather and do not sail
 without speed

---
 hrosailing/cruising/basics.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 778bb72..9b13526 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -201,7 +201,7 @@ def cruise(
         Specification how to interpret the parameter `wind`.
 
         - "ws_wan": `wind` is interpreted as
-            `(true wind speed, wind angle relative to north)`,
+            `(true wind speed, angle the wind blows from relative to north)`,
         - "ws_wa_hdt": `wind` is interpreted as
             `(true wind speed, true wind angle, heading of the boat relative to north)`,
         - "uv_grd": `wind` is interpreted as `(u_grd, v_grd)` as can be read from
@@ -291,7 +291,8 @@ def cost_cruise(
     start_time : datetime.datetime
         The time at which the traveling starts.
     wm : WeatherModel
-        The weather model used. Needs to support the keys `"TWA"` and `"TWS"`.
+        The weather model used. Needs to support the keys `"TWA"` and `"TWS"`
+        or the keys `"UGRID"` and `"VGRID"`.
     cost_fun_dens : callable, optional
         Function giving a cost density for given time as `datetime.datetime`,
         latitude as float, longitude as float and WeatherModel.
@@ -394,7 +395,8 @@ def isochrone(
     direction : float
         The angle between North and the direction in which we aim to travel.
     wm : WeatherModel
-        The weather model used. Needs to support the keys 'TWA' and 'TWS'.
+        The weather model used. Needs to support the keys 'TWA' and 'TWS'
+        or the keys 'UGRID' and 'VGRID'.
     total_time : float, optional
         The time in hours that the vessel is supposed to travel
         in the given direction.
@@ -488,19 +490,20 @@ def _get_inverse_bsp(pd, pos, hdt, t, lat_mp, start_time, wm, im):
         data = wm.get_weather((time, lat, long))
     except ValueError:
         return 1000  # maybe a better default?
-    data["HDT"] = hdt
+    data = {**data, "HDT": hdt}
+    if "UGRID" in data and "VGRID" in data:
+        tws, twa = _uvgrid_to_tw(data["UGRID"], data["VGRID"], hdt)
+        data.update(TWS=tws, TWA=twa)
     if im:
         data = {key: [val] for key, val in data.items()}
         bsp = im.add_influence(pd, data)[0]
     else:
-        ugrid, vgrid = data["UGRID"], data["VGRID"]
-        tws, twa = _uvgrid_to_tw(ugrid, vgrid, hdt)
-        bsp = pd(tws, twa)
+        bsp = pd(data["TWS"], data["TWA"])
 
     if bsp != 0:
         return 1 / bsp
 
-    return 0
+    return 1000  # no progress without any speed
 
 
 def _right_handing_course(a, b):
-- 
2.43.0


From e0fb0cba4ce6e3a80007853e76100a1db344a9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 033/107] fix: refuse directions in which no progress can be
 made

---
 hrosailing/cruising/basics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 9b13526..33eab03 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -128,7 +128,8 @@ def _fastest_edge(wa, bsp, sails, direction):
     course = np.deg2rad(direction)
     course = np.array([math.cos(course), math.sin(course)])
 
-    speed, i1, i2, lambda_ = -1, None, None, None
+    # ignore edges on which the boat does not make any progress
+    speed, i1, i2, lambda_ = 1e-9 * bsp.max(), None, None, None
     for edge in ConvexHull(polar_pts).simplices:
         left, right = sorted(edge)
         try:
-- 
2.43.0


From c2f7af97fe36a520f8a7ba3a4b275e6eea646673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 034/107] fix: look up weather at grid coordinates in the right
 grid node

---
 hrosailing/models/weather_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 01b4f3a..4982193 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -292,7 +292,7 @@ def _recursive_affine_interpolation(point, grid, get_data):
 
         if comp in cuboid_vals[dim]:
             j = cuboid_vals[dim].index(point_[dim])
-            return recursion(point_, completed + [j])
+            return recursion(point_, completed + [cuboid[dim][j]])
 
         idx0 = cuboid[dim][0]
         idx1 = cuboid[dim][1]
-- 
2.43.0


From b33d87c7a2f883e4b3ab355ab580550fddff7c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 035/107] fix: ignore NotImplementedError of submodels as
 documented

---
 hrosailing/models/weather_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 4982193..f9a8c58 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -495,6 +495,7 @@ class MultiWeatherModel(WeatherModel):
                 ValueError,
                 TypeError,
                 KeyError,
+                NotImplementedError,
             ) as e:
                 if self._exception_sensitive:
                     raise e
-- 
2.43.0


From 8784b194d6eb13070fff85725e005fd65de7fd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 036/107] fix: keep own lists of times and attributes in
 gridded weather models

---
 hrosailing/models/weather_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index f9a8c58..c4284b1 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -84,10 +84,10 @@ class GriddedWeatherModel(WeatherModel):
     """
 
     def __init__(self, data, times, lats, lons, attrs):
-        self._times = times
+        self._times = list(times)
         self._lats = np.array(lats)
         self._lons = np.array(lons)
-        self._attrs = attrs
+        self._attrs = list(attrs)
         self._data = np.array(data)
 
     @property
@@ -97,7 +97,7 @@ class GriddedWeatherModel(WeatherModel):
         a `numpy.ndarray` containing the latitudes and a `numpy.ndarray`
         containing the longitudes.
         """
-        return self._times, self._lats.copy(), self._lons.copy()
+        return list(self._times), self._lats.copy(), self._lons.copy()
 
     @property
     def data(self):
@@ -113,7 +113,7 @@ class GriddedWeatherModel(WeatherModel):
         The attributes of the weather model. Each attribute corresponds to
         a column of `self.data`.
         """
-        return self._attrs
+        return list(self._attrs)
 
     def get_weather(self, point):
         """Given a space-time point, uses the available weather model
-- 
2.43.0


From ebd281a355b385dc8a23b2e31cc138e20db3e3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 037/107] fix: save times of weather grids with fractions of
 seconds and time zones

---
 hrosailing/models/weather_model.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index c4284b1..c8d5c57 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -224,10 +224,17 @@ class GriddedWeatherModel(WeatherModel):
         """
         with open(path, "r", encoding="utf-8") as file:
             data, times, *rest = json.loads(file.read())
-            times = [datetime.strptime(t, "%d.%m.%Y:%X") for t in times]
+            times = [_read_time(t) for t in times]
             return cls(data, times, *rest)
 
 
+def _read_time(time):
+    try:
+        return datetime.fromisoformat(time)
+    except ValueError:  # files of former versions
+        return datetime.strptime(time, "%d.%m.%Y:%X")
+
+
 class _GriddedWeatherModelEncoder(json.JSONEncoder):
     def default(self, o):
         if isinstance(o, GriddedWeatherModel):
@@ -237,10 +244,8 @@ class _GriddedWeatherModelEncoder(json.JSONEncoder):
             return [data, times, lats, lons, attrs]
         if isinstance(o, np.ndarray):
             return o.tolist()
-        if installed_pandas and isinstance(o, pd.Timestamp):
-            return o.strftime("%d.%m.%Y:%X")
-        if isinstance(o, datetime):
-            return o.strftime("%d.%m.%Y:%X")
+        if isinstance(o, datetime):  # includes `pd.Timestamp`
+            return o.isoformat()
         raise TypeError(
             f"Object of type {type(o)} is not JSON serializable :("
         )
-- 
2.43.0


From bf4f65d96114f6913881fbd394a79cc43a1f9f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:39 +0000
Subject: [PATCH 038/107] fix: distances and paths between equal, opposite and
 close points of the globe

---
 hrosailing/models/globe_model.py | 40 ++++++++++++++------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/hrosailing/models/globe_model.py b/hrosailing/models/globe_model.py
index 939f589..05621e3 100644
--- a/hrosailing/models/globe_model.py
+++ b/hrosailing/models/globe_model.py
@@ -278,26 +278,20 @@ class SphericalGlobe(GlobeModel):
         ---------
         `GlobeModel.shortest_projected_path`
         """
-        start, end = _ensure_2d(start, end)
-        angle = _angle(start, end)
-
-        angles = np.linspace(0, angle, res)
-
-        # (1,0) -> (1, 0) -> (1,0,0) -> start, (cos(angle), sin(angle)) -> (0,1) -> (0,1,0) -> end
-        proj1 = np.linalg.inv(
-            np.array([[1, np.cos(angle)], [0, np.sin(angle)]])
+        start, end = np.ravel(start), np.ravel(end)
+        angles = np.linspace(0, _angle(start, end), res)
+
+        # direction from `start` to `end` tangential to the globe
+        normal = np.cross(start, end)
+        if not normal.any():
+            # all directions are equally good
+            normal = np.cross(start, np.eye(3)[np.argmin(np.abs(start))])
+        tangent = np.cross(normal, start)
+        tangent *= np.linalg.norm(start) / np.linalg.norm(tangent)
+
+        return np.outer(np.cos(angles), start) + np.outer(
+            np.sin(angles), tangent
         )
-        proj2 = np.transpose(np.array([[1, 0, 0], [0, 1, 0]]))
-        proj3 = np.transpose(np.row_stack([start, end, np.array([0, 0, 1])]))
-        proj = proj3 @ proj2 @ proj1
-
-        # # start -> (1,0,0) -> (1, 0) -> (1, 0), end -> (0,1,0) -> (0,1) -> (cos(angle), sin(angle))
-        # inv_proj1 = np.linalg.inv(np.transpose(np.row_stack([start, end, np.array([0, 0, 1])])))
-        # inv_proj2 = np.transpose(np.array([[1, 0], [0, 1], [0, 0]]))
-        # inv_proj = np.linalg.inv(proj2)@inv_proj2@inv_proj1
-
-        flat_pts = np.array([[[np.cos(ang)], [np.sin(ang)]] for ang in angles])
-        return (proj @ flat_pts).reshape((len(flat_pts), 3))
 
 
 def _ensure_2d(*args):
@@ -316,7 +310,9 @@ def _on_ball(pts):
 
 def _on_lat_lon(pts):
     x, y, z = pts.transpose()
-    latlon = np.column_stack([np.arcsin(z), np.arctan2(y, x)])
+    latlon = np.column_stack(
+        [np.arctan2(z, np.hypot(x, y)), np.arctan2(y, x)]
+    )
     return np.rad2deg(latlon)
 
 
@@ -324,6 +320,4 @@ def _angle(pt1, pt2):
     """Computes angles in radians between points."""
     pt1 = pt1.ravel()
     pt2 = pt2.ravel()
-    return np.arccos(
-        np.dot(pt1, pt2) / np.linalg.norm(pt1) / np.linalg.norm(pt2)
-    )
+    return np.arctan2(np.linalg.norm(np.cross(pt1, pt2)), np.dot(pt1, pt2))
-- 
2.43.0


From 619fc83da11c0295b8ff6f8a3c5fef7dfb51df9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 039/107] fix: map the virtual north pole and zero of mercator
 maps to north pole and center

---
 hrosailing/models/globe_model.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/hrosailing/models/globe_model.py b/hrosailing/models/globe_model.py
index 05621e3..908c49c 100644
--- a/hrosailing/models/globe_model.py
+++ b/hrosailing/models/globe_model.py
@@ -145,6 +145,17 @@ class FlatMercatorProjection(GlobeModel):
     Parameters
     ---------
 
+    virt_northpole: tuple of length 2
+        Latitude and longitude of the point used as north pole of the map.
+
+        Defaults to `(90, 0)`.
+
+    virt_zero: tuple of length 2
+        Latitude and longitude of the point used as center of the map.
+        Should be perpendicular to `virt_northpole`.
+
+        Defaults to `(0, 0)`.
+
     earth_radius: float/int
         The assumed radius of the (spherical) earth in nautical miles.
 
@@ -161,8 +172,10 @@ class FlatMercatorProjection(GlobeModel):
         pole = _on_ball(np.array(virt_northpole))
         zero = _on_ball(np.array(virt_zero))
         east = np.cross(pole, zero)
-        self._transform_mat = np.row_stack([zero, east, pole]).transpose()
-        self._inverse_transform_mat = np.linalg.inv(self._transform_mat)
+        self._inverse_transform_mat = np.row_stack(
+            [zero, east, pole]
+        ).transpose()
+        self._transform_mat = np.linalg.inv(self._inverse_transform_mat)
 
         self._earth_radius = earth_radius
 
-- 
2.43.0


From 75124124a72f1568857483332041a7828d9533cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 040/107] fix: assign the same weight to all points of a Data
 object

---
 hrosailing/core/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index a868bed..decfa4a 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -625,6 +625,8 @@ class WeightedPoints:
         if isinstance(weights, (float, int)):
             if isinstance(data, dict):
                 length = len(list(data.values())[0])
+            elif isinstance(data, Data):
+                length = data.n_rows
             else:
                 length = len(data)
             self.weights = weights * np.ones(length)
-- 
2.43.0


From 99f2c965e98eb9e2322475ffe2aa8d227263222e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 041/107] fix: report the number of removed rows of
 RemoveOnlyImputator

---
 hrosailing/processing/imputator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hrosailing/processing/imputator.py b/hrosailing/processing/imputator.py
index 6e779a4..b91ec90 100644
--- a/hrosailing/processing/imputator.py
+++ b/hrosailing/processing/imputator.py
@@ -53,7 +53,6 @@ class RemoveOnlyImputator(Imputator):
         --------
         `Imputator.impute`
         """
-        n_rows = data.n_rows
         remove_rows = [
             idx
             for idx, row in enumerate(data.rows(return_type=list))
@@ -61,7 +60,7 @@ class RemoveOnlyImputator(Imputator):
         ]
         data.delete(remove_rows)
 
-        self.set_statistics(0, n_rows - len(remove_rows), 0, data)
+        self.set_statistics(0, len(remove_rows), 0, data)
 
         return data
 
-- 
2.43.0


From ca78a860b632af000c95d2625f55fbc87bf43a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 042/107] fix: interpolate datetimes after a large gap in time

---
 hrosailing/processing/imputator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hrosailing/processing/imputator.py b/hrosailing/processing/imputator.py
index b91ec90..b8444a6 100644
--- a/hrosailing/processing/imputator.py
+++ b/hrosailing/processing/imputator.py
@@ -193,9 +193,7 @@ class FillLocalImputator(Imputator):
                 continue
             if last_dt is None:
                 pass
-            elif abs(dt - last_dt) > self._max_time_diff:
-                continue
-            else:
+            elif abs(dt - last_dt) <= self._max_time_diff:
                 # linear approximation of time in between
                 for j in range(last_i + 1, i):
                     mu = (j - last_i) / (i - last_i)
-- 
2.43.0


From 34ede89a93ea7dfc074eed9085c330f62338f528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 043/107] fix: smooth the last and single measurements and
 refuse any disorder in time

---
 hrosailing/processing/smoother.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/hrosailing/processing/smoother.py b/hrosailing/processing/smoother.py
index 5034f1c..2197ae0 100644
--- a/hrosailing/processing/smoother.py
+++ b/hrosailing/processing/smoother.py
@@ -90,11 +90,14 @@ class AffineSmoother(Smoother):
         --------
         `Smoother.smooth`
         """
-        if any(time < data["datetime"][0] for time in data["datetime"]):
+        times = data["datetime"]
+        if any(after < time for time, after in zip(times, times[1:])):
             raise ValueError(
                 "AffineSmoother only supports chronologically ordered time"
                 " series."
             )
+        if data.n_rows == 0:
+            return data
         for key in data.keys():
             if data.type(key) is float:
                 data = self._smooth_field(key, data)
@@ -124,19 +127,15 @@ class AffineSmoother(Smoother):
         y_lb = ys[0]
         interval_bounds_x = []
         interval_bounds_y = []
-        for i, (x, x_after, y, y_after) in enumerate(
-            zip(xs, xs[1:], ys, ys[1:])
-        ):
-            if i == len(ys) - 2:
-                interval_bounds_x.append((x_lb, x_after))
-                interval_bounds_y.append(y)
-                break
+        for x, x_after, y, y_after in zip(xs, xs[1:], ys, ys[1:]):
             if y == y_after:
                 continue
             interval_bounds_x.extend([(x_lb, 1 / 2 * (x + x_after))])
             interval_bounds_y.append(y_lb)
             x_lb = 1 / 2 * (x + x_after)
             y_lb = y_after
+        interval_bounds_x.append((x_lb, xs[-1]))
+        interval_bounds_y.append(y_lb)
 
         return interval_bounds_x, interval_bounds_y
 
-- 
2.43.0


From 52f5f440e808abb818c971b3ca13aff2ddf278f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 044/107] fix: never filter more than the given percentage of
 points

---
 hrosailing/processing/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/filter.py b/hrosailing/processing/filter.py
index 4e0a549..96716fc 100644
--- a/hrosailing/processing/filter.py
+++ b/hrosailing/processing/filter.py
@@ -100,7 +100,8 @@ class QuantileFilter(Filter):
         return filtered_points
 
     def _calculate_quantile(self, wts):
-        return wts >= np.percentile(wts, self._percent)
+        n_removable = int(len(wts) * self._percent / 100)
+        return wts >= np.sort(wts)[min(n_removable, len(wts) - 1)]
 
 
 class BoundFilter(Filter):
-- 
2.43.0


From 2da5f30c11429b12f6f00d03726dbc6c409c4acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 045/107] fix: weighers support the documented arithmetic
 operations

---
 hrosailing/processing/weigher.py | 33 +++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 7487dd0..8b493a4 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -28,6 +28,9 @@ class Weigher(ComponentWithStatistics, ABC):
     Basic arithmetic operations may be performed among weighers.
     """
 
+    # let arrays leave arithmetic operations with weighers to the weigher
+    __array_ufunc__ = None
+
     @abstractmethod
     def weigh(self, points) -> (np.ndarray, dict):
         """This method should be used to determine a weight for each point
@@ -53,7 +56,8 @@ class Weigher(ComponentWithStatistics, ABC):
     def __add__(self, other):
         if isinstance(other, Weigher):
             return _BinaryMapWeigher(self, other, lambda x, y: x + y)
-        if isinstance(other, (int, float, np.ndarray)):
+        if _is_operand(other):
+            other = np.array(other)
             return _UnaryMapWeigher(self, lambda x: x + other)
         raise TypeError(
             f"Invalid type for addition with Weigher."
@@ -66,7 +70,8 @@ class Weigher(ComponentWithStatistics, ABC):
     def __mul__(self, other):
         if isinstance(other, Weigher):
             return _BinaryMapWeigher(self, other, lambda x, y: x * y)
-        if isinstance(other, (int, float, np.ndarray)):
+        if _is_operand(other):
+            other = np.array(other)
             return _UnaryMapWeigher(self, lambda x: x * other)
         raise TypeError(
             f"Invalid type for multiplication with Weigher."
@@ -79,13 +84,17 @@ class Weigher(ComponentWithStatistics, ABC):
     def __sub__(self, other):
         if isinstance(other, Weigher):
             return _BinaryMapWeigher(self, other, lambda x, y: x - y)
-        if isinstance(other, np.ndarray):
+        if _is_operand(other):
+            other = np.array(other)
             return _UnaryMapWeigher(self, lambda x: x - other)
         raise TypeError(
             f"Invalid type for subtraction with Weigher."
             f"Expected Weigher or np.ndarray. Got {type(other)} instead"
         )
 
+    def __rsub__(self, other):
+        return -self + other
+
     def __neg__(self):
         neg = _UnaryMapWeigher(self, lambda x: -x)
         return neg
@@ -93,7 +102,8 @@ class Weigher(ComponentWithStatistics, ABC):
     def __truediv__(self, other):
         if isinstance(other, Weigher):
             return _BinaryMapWeigher(self, other, lambda x, y: x / y)
-        if isinstance(other, (int, float, np.ndarray)):
+        if _is_operand(other):
+            other = np.array(other)
             return _UnaryMapWeigher(self, lambda x: x / other)
         raise TypeError(
             f"Invalid type for division with Weigher."
@@ -103,7 +113,8 @@ class Weigher(ComponentWithStatistics, ABC):
     def __rtruediv__(self, other):
         if isinstance(other, Weigher):
             return _BinaryMapWeigher(self, other, lambda x, y: y / x)
-        if isinstance(other, np.ndarray):
+        if _is_operand(other):
+            other = np.array(other)
             return _UnaryMapWeigher(self, lambda x: other / x)
         raise TypeError(
             f"Invalid type for division with Weigher."
@@ -162,6 +173,10 @@ class Weigher(ComponentWithStatistics, ABC):
         )
 
 
+def _is_operand(other):
+    return isinstance(other, (int, float, np.number, np.ndarray, list, tuple))
+
+
 class _UnaryMapWeigher(Weigher):
     def __init__(self, sub_weigher, map_):
         super().__init__()
@@ -169,9 +184,9 @@ class _UnaryMapWeigher(Weigher):
         self._map = map_
 
     def weigh(self, points) -> (np.ndarray, dict):
-        weights, _ = self._sub_weigher.weigh(points)
+        weights = self._map(np.asarray(self._sub_weigher.weigh(points)))
         self.set_statistics(weights)
-        return self._map(weights)
+        return weights
 
 
 class _BinaryMapWeigher(Weigher):
@@ -182,8 +197,8 @@ class _BinaryMapWeigher(Weigher):
         self._map = map_
 
     def weigh(self, points) -> (np.ndarray, dict):
-        weights, _ = self._sub_weigher.weigh(points)
-        other_weights, _ = self._other_sub_weigher.weigh(points)
+        weights = np.asarray(self._sub_weigher.weigh(points))
+        other_weights = np.asarray(self._other_sub_weigher.weigh(points))
         new_weights = self._map(weights, other_weights)
         self.set_statistics(new_weights)
         return new_weights
-- 
2.43.0


From d9aae34602245346cb42ba833979156159e4cde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:50 +0000
Subject: [PATCH 046/107] fix: weighers keep the order of the given attributes
 and do not change them

---
 hrosailing/processing/weigher.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 8b493a4..441a44c 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -569,8 +569,7 @@ def _set_points_from_data(data, attributes, reduce=True):
             return attributes, data, bsp
         return attributes, data
 
-    if attributes is None:
-        attributes = list(data.keys()) or list(data.keys)
+    attributes = list(data.keys() if attributes is None else attributes)
 
     if reduce:
         if "BSP" in attributes:
@@ -588,7 +587,13 @@ def _set_points_from_data(data, attributes, reduce=True):
         data = data_dict_to_numpy(data, attributes)
 
     if isinstance(data, Data):
-        attributes, data = data[attributes].numerical
+        keys, _ = data.get_by_type(float)
+        attributes = [key for key in attributes if key in keys]
+        data = (
+            data_dict_to_numpy(data, attributes)
+            if attributes
+            else np.empty((0,))
+        )
 
     if reduce:
         return attributes, data, np.asarray(bsp)
-- 
2.43.0


From aaaceec7a86625e18f3cc5fbd66fe35e81c9354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 047/107] fix: determine the norm of CylindricMeanWeigher for
 each weighed data

---
 hrosailing/processing/weigher.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 441a44c..47577da 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -280,7 +280,7 @@ class CylindricMeanWeigher(Weigher):
     def __repr__(self):
         return (
             f"CylindricMeanWeigher(radius={self._radius}, "
-            f"norm={self._norm.__name__})"
+            f"norm={getattr(self._norm, '__name__', None)})"
         )
 
     def weigh(self, points):
@@ -331,9 +331,10 @@ class CylindricMeanWeigher(Weigher):
         return np.abs(mean - bsp) / std
 
     def _determine_points_in_cylinder(self, point, points, bsps, dimensions):
-        if self._norm is None:
-            self._norm = hrosailing_standard_scaled_euclidean_norm(dimensions)
-        in_cylinder = self._norm(points - point) <= self._radius
+        norm = self._norm
+        if norm is None:
+            norm = hrosailing_standard_scaled_euclidean_norm(dimensions)
+        in_cylinder = norm(points - point) <= self._radius
         return bsps[in_cylinder]
 
 
-- 
2.43.0


From 1da4329cef2914c2fb8ef97d97e63a94687d5e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 048/107] fix: weigh points with equal boat speeds
 independently of rounding

---
 hrosailing/processing/weigher.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 47577da..e01925e 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -339,7 +339,9 @@ class CylindricMeanWeigher(Weigher):
 
 
 def _standard_deviation_of(points_in_cylinder):
-    return np.std(points_in_cylinder) or 1  # in case that there are no points
+    if np.ptp(points_in_cylinder) == 0:
+        return 1  # in case that there are no further points
+    return np.std(points_in_cylinder)
 
 
 def _mean_of(points_in_cylinder):
-- 
2.43.0


From a90c9cf219ea740e96475945c568e60cf29635c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:11 +0000
Subject: [PATCH 049/107] fix: CylindricMemberWeigher weighs Data with any
 attributes repeatedly

---
 hrosailing/processing/weigher.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index e01925e..d4a2b6c 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -410,16 +410,14 @@ class CylindricMemberWeigher(Weigher):
         self._radius = radius
         self._length = length
 
-        if norm is None:
-            self._norm = hrosailing_standard_scaled_euclidean_norm(dimensions)
-        else:
-            self._norm = norm
+        self._norm = norm
         self._dimensions = dimensions
 
     def __repr__(self):
         return (
             f"CylindricMemberWeigher(radius={self._radius},"
-            f"length={self._length}, norm={self._norm.__name__})"
+            f"length={self._length},"
+            f" norm={getattr(self._norm, '__name__', None)})"
         )
 
     def weigh(self, points):
@@ -445,24 +443,35 @@ class CylindricMemberWeigher(Weigher):
         if isinstance(points, Data) and points.n_rows == 0:
             return []
 
-        self._dimensions, points = _set_points_from_data(
+        dimensions, points = _set_points_from_data(
             points, self._dimensions, reduce=False
         )
 
-        weights = [self._calculate_weight(point, points) for point in points]
+        weights = [
+            self._calculate_weight(point, points, dimensions)
+            for point in points
+        ]
         weights = np.array(weights)
         weights = _normalize(weights, np.max)
 
         self.set_statistics(weights)
         return weights
 
-    def _calculate_weight(self, point, points):
-        n_points_in_cylinder = self._count_points_in_cylinder(point, points)
+    def _calculate_weight(self, point, points, dimensions=None):
+        n_points_in_cylinder = self._count_points_in_cylinder(
+            point, points, dimensions
+        )
         return n_points_in_cylinder - 1
 
-    def _count_points_in_cylinder(self, point, points):
+    def _count_points_in_cylinder(self, point, points, dimensions=None):
+        norm = self._norm
+        if norm is None:
+            if dimensions is not None:
+                # the last dimension is the height of the cylinder
+                dimensions = dimensions[: len(point) - 1]
+            norm = hrosailing_standard_scaled_euclidean_norm(dimensions)
         height = np.abs(points[:, -1] - point[-1]) <= self._length
-        radius = self._norm(points[:, :-1] - point[:-1]) <= self._radius
+        radius = norm(points[:, :-1] - point[:-1]) <= self._radius
 
         cylinder = height & radius
         points_in_cylinder = cylinder[cylinder]
-- 
2.43.0


From 5f8818cd5410b63bdee6979e33f2268afed89aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:19 +0000
Subject: [PATCH 050/107] fix: FluctuationWeigher returns an array of weights

---
 hrosailing/processing/weigher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index d4a2b6c..b803347 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -547,7 +547,7 @@ class FluctuationWeigher(Weigher):
             [i for i, key in enumerate(self._attributes) if key in dimensions]
         ]
 
-        weights = [1] * len(points)
+        weights = np.ones(len(points))
 
         for curr_idx, (dt, pt) in enumerate(zip(times, points)):
             start_idx = min(
-- 
2.43.0


From c36887945713025938957255f950c684ba75eb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 051/107] fix: combine fuzzy truth values of arrays
 component-wise

---
 hrosailing/processing/weigher.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index b803347..3e6a4ee 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -693,8 +693,7 @@ class FuzzyBool:
         """
 
         def eval_fun(x):
-            concat = np.row_stack([one(x), other(x)])
-            return np.min(concat, axis=0)[0]
+            return np.minimum(one(x), other(x))
 
         return cls(eval_fun)
 
@@ -715,8 +714,7 @@ class FuzzyBool:
         """
 
         def eval_fun(x):
-            concat = np.row_stack([one(x), other(x)])
-            return np.max(concat, axis=0)[0]
+            return np.maximum(one(x), other(x))
 
         return cls(eval_fun)
 
-- 
2.43.0


From 3662d214333a53d21cb92846b1fe677e96cd69ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 052/107] fix: compare fuzzy variables for equality with the
 given sharpness on both sides

---
 hrosailing/processing/weigher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 3e6a4ee..aafdc03 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -865,7 +865,10 @@ class FuzzyVariable:
         return self < other
 
     def __eq__(self, other):
-        new = FuzzyBool.fuzzy_and(self < other, self > other)
+        sharpness = self.sharpness
+        new = FuzzyBool.fuzzy_and(
+            self(sharpness) < other, self(sharpness) > other
+        )
         new.repr = f"{self} == {other}"
         return new
 
-- 
2.43.0


From 66fd70955487aeb65f83c01f0ce0cb919751079a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:18 +0000
Subject: [PATCH 053/107] fix: weigh points with equal boat speeds
 independently of rounding (2)

---
 hrosailing/processing/weigher.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index aafdc03..183dfec 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -325,6 +325,9 @@ class CylindricMeanWeigher(Weigher):
             point, points, bsps, dimensions
         )
 
+        if np.ptp(points_in_cylinder) == 0:
+            return 0  # `bsp` is exactly the mean
+
         std = _standard_deviation_of(points_in_cylinder)
         mean = _mean_of(points_in_cylinder)
 
@@ -339,9 +342,7 @@ class CylindricMeanWeigher(Weigher):
 
 
 def _standard_deviation_of(points_in_cylinder):
-    if np.ptp(points_in_cylinder) == 0:
-        return 1  # in case that there are no further points
-    return np.std(points_in_cylinder)
+    return np.std(points_in_cylinder) or 1  # in case that there are no points
 
 
 def _mean_of(points_in_cylinder):
-- 
2.43.0


From 5b69c5c09d3d287095e9665ff7eaa9a2552a757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 054/107] fix: QuantileFilter reports statistics when there is
 nothing to filter

---
 hrosailing/processing/filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrosailing/processing/filter.py b/hrosailing/processing/filter.py
index 96716fc..ceb7dfe 100644
--- a/hrosailing/processing/filter.py
+++ b/hrosailing/processing/filter.py
@@ -92,6 +92,7 @@ class QuantileFilter(Filter):
         `Filter.filter`
         """
         if len(wts) == 0:
+            self.set_statistics([])
             return []
         filtered_points = self._calculate_quantile(wts)
 
-- 
2.43.0


From d25b40493e698dad1746038d00640717498c5295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 055/107] fix: CurveExtension in radians leaves the weighted
 points unchanged

---
 hrosailing/pipeline/extensions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hrosailing/pipeline/extensions.py b/hrosailing/pipeline/extensions.py
index 7ca6d7c..58bde2f 100644
--- a/hrosailing/pipeline/extensions.py
+++ b/hrosailing/pipeline/extensions.py
@@ -233,10 +233,11 @@ class CurveExtension(PipelineExtension):
         --------
         `PipelineExtension.process`
         """
+        data = weighted_points.data
         if self._use_radians():
-            _convert_angles_to_radians(weighted_points)
+            data = _convert_angles_to_radians(data)
 
-        self.regressor.fit(weighted_points.data)
+        self.regressor.fit(data)
 
         return pol.PolarDiagramCurve(
             self.regressor.model_func,
@@ -248,8 +249,8 @@ class CurveExtension(PipelineExtension):
         return self.radians
 
 
-def _convert_angles_to_radians(weighted_points):
-    weighted_points.data[:, 1] = np.deg2rad(weighted_points.data[:, 1])
+def _convert_angles_to_radians(data):
+    return np.column_stack((data[:, 0], np.deg2rad(data[:, 1]), data[:, 2]))
 
 
 class PointcloudExtension(PipelineExtension):
-- 
2.43.0


From 422e86cc3449b724bb0ed11c7d59195f817b2281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 056/107] fix: PointcloudExtension samples winds only, as all
 samplers expect

---
 hrosailing/pipeline/extensions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/extensions.py b/hrosailing/pipeline/extensions.py
index 58bde2f..a8019f4 100644
--- a/hrosailing/pipeline/extensions.py
+++ b/hrosailing/pipeline/extensions.py
@@ -311,7 +311,7 @@ class PointcloudExtension(PipelineExtension):
         --------
         `PipelineExtension.process`
         """
-        sample_points = self.sampler.sample(weighted_points.data)
+        sample_points = self.sampler.sample(weighted_points.data[:, :2])
         interpolated_points = _interpolate_points(
             sample_points,
             weighted_points,
-- 
2.43.0


From 41b5181df959e7f7d218e5364513e1ba4bf36a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:50 +0000
Subject: [PATCH 057/107] fix: automatic table resolution has no duplicate
 winds

---
 hrosailing/pipeline/extensions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/extensions.py b/hrosailing/pipeline/extensions.py
index a8019f4..512fefd 100644
--- a/hrosailing/pipeline/extensions.py
+++ b/hrosailing/pipeline/extensions.py
@@ -138,6 +138,9 @@ class TableExtension(PipelineExtension):
 def _automatically_determined_resolution(points):
     ws_resolution = _extract_wind(points[:, 0], 2, 100)
     wa_resolution = _extract_wind(points[:, 1], 5, 30)
+    if 0 in wa_resolution:
+        # 0 and 360 degrees are the same row of the table
+        wa_resolution = [wa for wa in wa_resolution if wa != 360]
 
     return ws_resolution, wa_resolution
 
@@ -169,7 +172,7 @@ def _extract_wind(points, n, threshhold):
         if len(points[mask]) >= threshhold:
             res.append(w)
 
-    return res
+    return sorted(set(res))
 
 
 def _extract_boat_speed(interpolated_points, rows, cols):
-- 
2.43.0


From e1b073cae697cb27d5cec009251db8e56f05d74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 058/107] fix: LeastSquareRegressor default initial values
 match the parameters

---
 hrosailing/processing/regressor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/regressor.py b/hrosailing/processing/regressor.py
index 8964949..7f59616 100644
--- a/hrosailing/processing/regressor.py
+++ b/hrosailing/processing/regressor.py
@@ -184,7 +184,8 @@ class LeastSquareRegressor(Regressor):
         if init_vals is None and len(args) < 3:
             init_vals = _determine_params(fitting_func)
         elif init_vals is None:
-            init_vals = tuple(1 for _ in range(len(args)))
+            # the first two arguments are wind speed and wind angle
+            init_vals = tuple(1 for _ in args[2:])
 
         self._fitting_func = fitting_func
         self._init_vals = init_vals
-- 
2.43.0


From a7e5e7050554dcb0752b533b07574df153088ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 059/107] fix: regressors accept array_like data as documented

---
 hrosailing/processing/regressor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/processing/regressor.py b/hrosailing/processing/regressor.py
index 7f59616..3bf05a7 100644
--- a/hrosailing/processing/regressor.py
+++ b/hrosailing/processing/regressor.py
@@ -123,6 +123,7 @@ class ODRegressor(Regressor):
         --------
         [ODRPACK](https://docs.scipy.org/doc/external/odrpack_guide.pdf), `Regressor.fit`
         """
+        data = np.asarray(data)
         if data.shape[1] != 3:
             raise ValueError("`data` has to be of shape (n, 3).")
         if data.shape[0] == 0:
@@ -228,6 +229,7 @@ class LeastSquareRegressor(Regressor):
         [curve_fit](https://docs.scipy.org/doc/scipy/reference/generated/\
         scipy.optimize.curve_fit.html), `Regressor.fit`
         """
+        data = np.asarray(data)
         X, y = data[:, :2], data[:, 2]
 
         self._popt = self._get_optimal_parameters(X, y)
-- 
2.43.0


From c46607ef5814564fce4cf98faea315425cb50d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 060/107] fix: point clouds can be evaluated at wind speed 0

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index c1a8844..a209f1b 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -202,8 +202,8 @@ class PolarDiagramPointcloud(PolarDiagram):
         bsp : scalar
             Boat speed value as determined above.
         """
-        if np.any((ws <= 0)):
-            raise ValueError("`ws` is non-positive")
+        if np.any((ws < 0)):
+            raise ValueError("`ws` is negative")
 
         wa %= 360
 
-- 
2.43.0


From 0e1170739b9a2a8ab6a8111cd47f1c4816b2ad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 061/107] fix: curves in radians are evaluated at angles in
 radians throughout

---
 hrosailing/core/computing.py                  | 22 +++++++++++++++++++
 hrosailing/cruising/basics.py                 |  3 ++-
 hrosailing/models/influencemodel.py           | 12 ++++++----
 hrosailing/pipeline/quality_assurance.py      | 14 ++++++++----
 .../polardiagram/_polardiagrammultisails.py   |  6 ++++-
 5 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/hrosailing/core/computing.py b/hrosailing/core/computing.py
index 2c7ab04..ebb557a 100644
--- a/hrosailing/core/computing.py
+++ b/hrosailing/core/computing.py
@@ -205,3 +205,25 @@ def safe_operation(operand, value):
         return operand(value)
     except (ValueError, TypeError, IndexError, KeyError, ZeroDivisionError):
         return None
+
+
+def boat_speed_at(pd, ws, wa):
+    """
+    Evaluates a polar diagram at a wind angle given in degrees.
+
+    Parameters
+    ---------
+    pd : PolarDiagram
+        Polar diagrams with a true attribute `radians` are evaluated at the
+        corresponding wind angle in radians.
+
+    ws : scalar
+        Wind speed.
+
+    wa : scalar
+        Wind angle in degrees.
+    """
+    if getattr(pd, "radians", False) is True:
+        wa = np.deg2rad(wa)
+
+    return pd(ws, wa)
diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 33eab03..962d868 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -11,6 +11,7 @@ import numpy as np
 from scipy.integrate import solve_ivp, trapezoid
 from scipy.spatial import ConvexHull
 
+from hrosailing.core.computing import boat_speed_at
 from hrosailing.models import InfluenceModel, WeatherModel
 
 
@@ -499,7 +500,7 @@ def _get_inverse_bsp(pd, pos, hdt, t, lat_mp, start_time, wm, im):
         data = {key: [val] for key, val in data.items()}
         bsp = im.add_influence(pd, data)[0]
     else:
-        bsp = pd(data["TWS"], data["TWA"])
+        bsp = boat_speed_at(pd, data["TWS"], data["TWA"])
 
     if bsp != 0:
         return 1 / bsp
diff --git a/hrosailing/models/influencemodel.py b/hrosailing/models/influencemodel.py
index d0d07ff..3a352f9 100644
--- a/hrosailing/models/influencemodel.py
+++ b/hrosailing/models/influencemodel.py
@@ -13,6 +13,7 @@ from abc import ABC, abstractmethod
 import numpy as np
 
 from hrosailing.core.computing import (
+    boat_speed_at,
     convert_apparent_wind_to_true,
     data_dict_to_numpy,
 )
@@ -123,10 +124,10 @@ class IdentityInfluenceModel(InfluenceModel):
         """
         if isinstance(influence_data["TWS"], list):
             wind = zip(influence_data["TWS"], influence_data["TWA"])
-            speed = [pd(ws, wa) for ws, wa in wind]
+            speed = [boat_speed_at(pd, ws, wa) for ws, wa in wind]
         else:
             ws, wa = influence_data["TWS"], influence_data["TWA"]
-            speed = pd(ws, wa)
+            speed = boat_speed_at(pd, ws, wa)
         return speed
 
     def fit(self, training_data: dict):
@@ -189,10 +190,13 @@ class WindAngleCorrectingInfluenceModel(InfluenceModel):
         """
         if isinstance(influence_data["TWS"], (list, np.ndarray)):
             wind = zip(influence_data["TWS"], influence_data["TWA"])
-            speed = [pd(ws, (wa + self._wa_shift) % 360) for ws, wa in wind]
+            speed = [
+                boat_speed_at(pd, ws, (wa + self._wa_shift) % 360)
+                for ws, wa in wind
+            ]
         else:
             ws, wa = influence_data["TWS"], influence_data["TWA"]
-            speed = pd(ws, wa)
+            speed = boat_speed_at(pd, ws, wa)
         return speed
 
     def fit(self, training_data):
diff --git a/hrosailing/pipeline/quality_assurance.py b/hrosailing/pipeline/quality_assurance.py
index 63caced..f4036cc 100644
--- a/hrosailing/pipeline/quality_assurance.py
+++ b/hrosailing/pipeline/quality_assurance.py
@@ -7,7 +7,7 @@ from abc import ABC, abstractmethod
 
 import numpy as np
 
-from hrosailing.core.computing import safe_operation
+from hrosailing.core.computing import boat_speed_at, safe_operation
 
 
 class QualityAssurance(ABC):
@@ -62,7 +62,10 @@ class MinimalQualityAssurance(QualityAssurance):
         ---------
         `QualityAssurance.check`
         """
-        diffs = [abs(bsp - polar_diagram(ws, wa)) for ws, wa, bsp in test_data]
+        diffs = [
+            abs(bsp - boat_speed_at(polar_diagram, ws, wa))
+            for ws, wa, bsp in test_data
+        ]
         statistics = {
             "max_error": max(diffs),
             "min_error": min(diffs),
@@ -104,9 +107,12 @@ class ComformingQualityAssurance(QualityAssurance):
         ---------
         `QualityAssurance.check`
         """
-        diffs = [abs(bsp - polar_diagram(ws, wa)) for ws, wa, bsp in test_data]
+        diffs = [
+            abs(bsp - boat_speed_at(polar_diagram, ws, wa))
+            for ws, wa, bsp in test_data
+        ]
         zero_diffs = [
-            abs(polar_diagram(ws, wa))
+            abs(boat_speed_at(polar_diagram, ws, wa))
             for ws in np.linspace(0, 20, 20)
             for wa in [0, 360]
         ]
diff --git a/hrosailing/polardiagram/_polardiagrammultisails.py b/hrosailing/polardiagram/_polardiagrammultisails.py
index 8ca7e89..3500f4b 100644
--- a/hrosailing/polardiagram/_polardiagrammultisails.py
+++ b/hrosailing/polardiagram/_polardiagrammultisails.py
@@ -5,6 +5,8 @@ import os
 
 import numpy as np
 
+from hrosailing.core.computing import boat_speed_at
+
 from ._basepolardiagram import PolarDiagram
 from ._polardiagramtable import PolarDiagramTable
 from ._reading import from_csv
@@ -98,7 +100,9 @@ class PolarDiagramMultiSails(PolarDiagram):
         )
 
     def __call__(self, ws, wa):
-        return max(diagram(ws, wa) for diagram in self._diagrams)
+        return max(
+            boat_speed_at(diagram, ws, wa) for diagram in self._diagrams
+        )
 
     @property
     def default_points(self):
-- 
2.43.0


From 350165a5b67d43cd37c9c67b2e63f6695e9b8f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:26 +0000
Subject: [PATCH 062/107] fix: wind angle correction is applied to single
 values as well

---
 hrosailing/models/influencemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/models/influencemodel.py b/hrosailing/models/influencemodel.py
index 3a352f9..e69d580 100644
--- a/hrosailing/models/influencemodel.py
+++ b/hrosailing/models/influencemodel.py
@@ -196,7 +196,7 @@ class WindAngleCorrectingInfluenceModel(InfluenceModel):
             ]
         else:
             ws, wa = influence_data["TWS"], influence_data["TWA"]
-            speed = boat_speed_at(pd, ws, wa)
+            speed = boat_speed_at(pd, ws, (wa + self._wa_shift) % 360)
         return speed
 
     def fit(self, training_data):
-- 
2.43.0


From 1d52d82b6ad71b85c53ac1618b57c0e438e961a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 063/107] fix: wind angle correction is fitted with distances
 on the circle

---
 hrosailing/models/influencemodel.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hrosailing/models/influencemodel.py b/hrosailing/models/influencemodel.py
index e69d580..38722e0 100644
--- a/hrosailing/models/influencemodel.py
+++ b/hrosailing/models/influencemodel.py
@@ -220,7 +220,10 @@ class WindAngleCorrectingInfluenceModel(InfluenceModel):
             sum(
                 other_ws
                 * np.exp(
-                    -(((abs(wa - other_wa) % 360) / self._interval_size) ** 2)
+                    -(
+                        (_angle_distance(wa, other_wa) / self._interval_size)
+                        ** 2
+                    )
                 )
                 for other_wa, other_ws in zip(wind_angles, wind_speeds)
             )
@@ -231,6 +234,12 @@ class WindAngleCorrectingInfluenceModel(InfluenceModel):
         self.set_statistics(wa_shift=min_angle)
 
 
+def _angle_distance(wa, other_wa):
+    """Distance of two angles on the circle."""
+    distance = abs(wa - other_wa) % 360
+    return min(distance, 360 - distance)
+
+
 def _get_true_wind_data(data: dict):
     speed = "BSP" if "BSP" in data else "SOG"
     if "TWA" in data and "TWS" in data:
-- 
2.43.0


From cfe1b0985f386718064822ecb07224e0198a22a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:39 +0000
Subject: [PATCH 064/107] fix: influence models treat arrays like lists of
 values

---
 hrosailing/models/influencemodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/models/influencemodel.py b/hrosailing/models/influencemodel.py
index 38722e0..b1eabaa 100644
--- a/hrosailing/models/influencemodel.py
+++ b/hrosailing/models/influencemodel.py
@@ -122,7 +122,7 @@ class IdentityInfluenceModel(InfluenceModel):
         --------
         `InfluenceModel.add_influence`
         """
-        if isinstance(influence_data["TWS"], list):
+        if isinstance(influence_data["TWS"], (list, np.ndarray)):
             wind = zip(influence_data["TWS"], influence_data["TWA"])
             speed = [boat_speed_at(pd, ws, wa) for ws, wa in wind]
         else:
@@ -243,7 +243,7 @@ def _angle_distance(wa, other_wa):
 def _get_true_wind_data(data: dict):
     speed = "BSP" if "BSP" in data else "SOG"
     if "TWA" in data and "TWS" in data:
-        if isinstance(data["TWS"], list):
+        if isinstance(data["TWS"], (list, np.ndarray)):
             return data_dict_to_numpy(data, ["TWS", "TWA", speed])
 
         return np.array([data["TWS"], data["TWA"], data[speed]])
-- 
2.43.0


From 27bce4ec602b74f81a782eab103c331f8b618322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:01 +0000
Subject: [PATCH 065/107] fix: quality measures of empty test data and
 documented key

---
 hrosailing/pipeline/quality_assurance.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hrosailing/pipeline/quality_assurance.py b/hrosailing/pipeline/quality_assurance.py
index f4036cc..c3c539e 100644
--- a/hrosailing/pipeline/quality_assurance.py
+++ b/hrosailing/pipeline/quality_assurance.py
@@ -67,10 +67,12 @@ class MinimalQualityAssurance(QualityAssurance):
             for ws, wa, bsp in test_data
         ]
         statistics = {
-            "max_error": max(diffs),
-            "min_error": min(diffs),
-            "average_error": np.mean(diffs),
-            "average_quadratic_error": np.mean([diff**2 for diff in diffs]),
+            "max_error": safe_operation(max, diffs),
+            "min_error": safe_operation(min, diffs),
+            "average_error": safe_operation(np.mean, diffs),
+            "average_quadratic_error": safe_operation(
+                np.mean, [diff**2 for diff in diffs]
+            ),
         }
         return statistics
 
@@ -101,7 +103,7 @@ class ComformingQualityAssurance(QualityAssurance):
             - `"average_zero_val"`: the average value of the polar diagram for wind angles of 0 or 360 degree and wind speed between 0 and 20,
             - `"average_quadratic_zero_val"`: the average squared value of the polar diagram for wind angles of 0 or 360 degree and wind speed between 0 and 20,
             - `"test_covering"`: number of unique test cases when rounded to the nearest integer,
-            - `"local_test_data_difference"`: maximal difference in boat speeds in test cases where wind speed and wind angle are rounded to the same nearest integer respectively.
+            - `"average_local_test_data_difference"`: average over all unique test cases of the maximal difference in boat speeds in test cases where wind speed and wind angle are rounded to the same nearest integer respectively.
 
         See also
         ---------
-- 
2.43.0


From 029a7e3a77b3252a9b08080624e6f97ba2b6abfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:21 +0000
Subject: [PATCH 066/107] fix: WeatherExpander adds weather to the rows it
 belongs to

---
 hrosailing/pipeline/expander.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/hrosailing/pipeline/expander.py b/hrosailing/pipeline/expander.py
index 74fe6f8..a0af89e 100644
--- a/hrosailing/pipeline/expander.py
+++ b/hrosailing/pipeline/expander.py
@@ -96,13 +96,13 @@ class WeatherExpander(Expander):
         weather_data.hrosailing_standard_format()
         weather_data = self._mark_duplicate_keys(weather_data, data)
 
-        data.update(weather_data)
+        for key in weather_data.keys():
+            data.extend(key, weather_data[key])
         data.hrosailing_standard_format()
         self.set_statistics(data)
         return data
 
     def _get_weather(self, data):
-        weather_keys = None
         none_idxs = []
         weather_list = []
         for idx, (datetime, lat, lon) in enumerate(
@@ -111,23 +111,28 @@ class WeatherExpander(Expander):
             try:
                 weather = self._weather_model.get_weather([datetime, lat, lon])
                 weather_list.append(weather)
-                if weather_keys is None:
-                    weather_keys = weather.keys()
             except ValueError:
                 if self._exception_handling_mode == "ignore":
-                    weather_list.append(None)
+                    weather_list.append({})
                 none_idxs.append(idx)
 
         if self._exception_handling_mode == "delete":
             data.delete(none_idxs)
-        else:
-            for idx in none_idxs:
-                weather_list[idx] = {key: None for key in weather_keys}
 
-        return Data.concatenate(weather_list)
+        weather_keys = {key: None for weather in weather_list for key in weather}
+        return Data.from_dict(
+            {
+                key: [weather.get(key) for weather in weather_list]
+                for key in weather_keys
+            }
+        )
 
     def _mark_duplicate_keys(self, weather_data, data):
         for key in list(weather_data.keys()):
-            if key in data.keys():
-                weather_data.rename(key, f"{key}(duplicate)")
+            new_key = key
+            while new_key in data or (
+                new_key != key and new_key in weather_data
+            ):
+                new_key = f"{new_key}(duplicate)"
+            weather_data.rename(key, new_key)
         return weather_data
-- 
2.43.0


From 991aaa99c6cfaa1e91e5fb43d65ffeba3891ea6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 067/107] fix: missing values of csv files and data frames are
 None

---
 hrosailing/processing/datahandler.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index 3693ee6..bdca729 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -54,6 +54,14 @@ class DataHandler(ComponentWithStatistics, ABC):
         super().set_statistics(n_rows=data.n_rows, n_cols=data.n_cols)
 
 
+def _none_if_missing(value):
+    # missing values are `nan` or `NaT` in pandas
+    try:
+        return None if bool(value != value) else value
+    except (TypeError, ValueError):
+        return value
+
+
 class ArrayHandler(DataHandler):
     """A data handler to interpret data given as an array-type.
 
@@ -87,7 +95,10 @@ class ArrayHandler(DataHandler):
         `DataHandler.handle`
         """
         if self.pand and isinstance(data, self.pd.DataFrame):
-            data_dict = data.to_dict(orient="list")
+            data_dict = {
+                key: [_none_if_missing(value) for value in column]
+                for key, column in data.to_dict(orient="list").items()
+            }
         else:
             arr, keys = data
             arr = np.asarray(arr)
@@ -173,7 +184,9 @@ class CsvFileHandler(DataHandler):
 
     def _save_eval(self, entry):
         if not isinstance(entry, str):
-            return entry
+            return _none_if_missing(entry)
+        if not entry.strip():
+            return None
         try:
             return datetime.strptime(entry.strip(), self._date_format)
         except (ValueError, TypeError, AttributeError):
-- 
2.43.0


From bfc5fb8df3c5db44fa931e35269d6da6bce5a94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 068/107] fix: NMEA sentences with empty fields are read

---
 hrosailing/processing/datahandler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index bdca729..3dd7b4f 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -320,6 +320,11 @@ class NMEAFileHandler(DataHandler):
                     name: getattr(parsed_sentence, attribute)
                     for name, attribute in wanted_fields
                 }
+                # empty fields are missing values
+                parsed_dict = {
+                    name: None if value == "" else value
+                    for name, value in parsed_dict.items()
+                }
 
                 processed_dict = self._postprocess(parsed_dict)
 
@@ -371,6 +376,8 @@ class NMEAFileHandler(DataHandler):
         return parsed_sentence
 
     def _from_nmea_format(self, value):
+        if value is None:
+            return None
         value = float(value)
         degrees = int(value / 100)
         minutes = value - 100 * degrees
-- 
2.43.0


From e990bf65a5e7aac2aa9ac49a4418b355b8b75efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 069/107] fix: single wind attributes of NMEA sentences keep
 their reference

---
 hrosailing/processing/datahandler.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index 3dd7b4f..bd23b12 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -340,23 +340,16 @@ class NMEAFileHandler(DataHandler):
         return comp_data
 
     def _postprocess(self, parsed_sentence):
-        if (
-            "Wind angle" in parsed_sentence
-            and "Reference" in parsed_sentence
-            and "Wind speed" in parsed_sentence
-        ):
-            wind_angle = parsed_sentence["Wind angle"]
-            wind_speed = parsed_sentence["Wind speed"]
-            reference = parsed_sentence["Reference"]
-            if reference == "R":
-                parsed_sentence["AWA"] = wind_angle
-                parsed_sentence["AWS"] = wind_speed
-            elif reference == "T":
-                parsed_sentence["TWA"] = wind_angle
-                parsed_sentence["TWS"] = wind_speed
-            del parsed_sentence["Reference"]
-            del parsed_sentence["Wind angle"]
-            del parsed_sentence["Wind speed"]
+        if "Reference" in parsed_sentence:
+            reference = parsed_sentence.pop("Reference")
+            for name, key in (("Wind angle", "WA"), ("Wind speed", "WS")):
+                if name not in parsed_sentence:
+                    continue
+                value = parsed_sentence.pop(name)
+                if reference == "R":
+                    parsed_sentence[f"A{key}"] = value
+                elif reference == "T":
+                    parsed_sentence[f"T{key}"] = value
         if "Latitude" in parsed_sentence:
             parsed_sentence["lat"] = self._from_nmea_format(
                 parsed_sentence["Latitude"]
-- 
2.43.0


From 3b6badf8727518c350d0b47dec0553f9415c95e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:26 +0000
Subject: [PATCH 070/107] fix: southern and western positions of NMEA sentences
 are negative

---
 hrosailing/processing/datahandler.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index bd23b12..5e703c4 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -328,6 +328,15 @@ class NMEAFileHandler(DataHandler):
 
                 processed_dict = self._postprocess(parsed_dict)
 
+                # southern latitudes and western longitudes are negative
+                for key, negative in (("lat", "S"), ("lon", "W")):
+                    if (
+                        processed_dict.get(key) is not None
+                        and getattr(parsed_sentence, f"{key}_dir", None)
+                        == negative
+                    ):
+                        processed_dict[key] = -processed_dict[key]
+
                 comp_data.update(processed_dict, compress=True)
 
         comp_data.hrosailing_standard_format()
-- 
2.43.0


From 4b54e134bc2bc35a9f54d86b42c8bc2511af4b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:33 +0000
Subject: [PATCH 071/107] fix: fractions of NMEA times that pynmea2 does not
 convert

---
 hrosailing/processing/datahandler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index 5e703c4..547f64f 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -12,7 +12,7 @@ create custom data handlers to handle formats which are not supported yet.
 import csv
 from abc import ABC, abstractmethod
 from ast import literal_eval
-from datetime import date, datetime, time
+from datetime import date, datetime, time, timezone
 
 import numpy as np
 
@@ -389,16 +389,18 @@ class NMEAFileHandler(DataHandler):
         hours = int(timestr[0:2])
         minutes = int(timestr[2:4])
         seconds = int(timestr[4:6])
-        microseconds = int(timestr.split(".")[1])
+        microseconds = int(timestr[7:13].ljust(6, "0"))
         if seconds >= 60:
             minutes += seconds // 60
             seconds %= 60
         if minutes >= 60:
             hours += minutes // 60
             minutes %= 60
+        hours %= 24
         return time(
             hour=hours,
             minute=minutes,
             second=seconds,
             microsecond=microseconds,
+            tzinfo=timezone.utc,
         )
-- 
2.43.0


From 793f9306deddd18af955b53f76cf8393a67340fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:58 +0000
Subject: [PATCH 072/107] fix: line ends are not part of the last field of NMEA
 sentences

---
 hrosailing/processing/datahandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index 547f64f..d0a2702 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -308,7 +308,7 @@ class NMEAFileHandler(DataHandler):
             )
 
             for sentence in nmea_sentences:
-                parsed_sentence = parse(sentence)
+                parsed_sentence = parse(sentence.strip())
                 wanted_fields = filter(
                     self._attribute_filter,
                     parsed_sentence.fields,
-- 
2.43.0


From 1b15307aa172ab1397a9ebf04525bb74351f45d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:16 +0000
Subject: [PATCH 073/107] fix: report the training statistics of the pre
 expander filter

---
 hrosailing/pipeline/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/pipeline.py b/hrosailing/pipeline/pipeline.py
index 7d78236..cbeafbf 100644
--- a/hrosailing/pipeline/pipeline.py
+++ b/hrosailing/pipeline/pipeline.py
@@ -365,7 +365,7 @@ class PolarPipeline:
             pp_training_statistics.imputator,
             pp_training_statistics.smoother,
             pp_training_statistics.pre_expanding_weigher,
-            pp_training_statistics.pre_influence_filter,
+            pp_training_statistics.pre_expanding_filter,
             pp_training_statistics.expander,
             pp_training_statistics.pre_influence_weigher,
             pp_training_statistics.pre_influence_filter,
-- 
2.43.0


From 035e5fa46cbf042a9750476a960ced0e208b5290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:20 +0000
Subject: [PATCH 074/107] fix: PolarPipeline accepts a list of data handlers

---
 hrosailing/pipeline/pipeline.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/hrosailing/pipeline/pipeline.py b/hrosailing/pipeline/pipeline.py
index cbeafbf..8e10284 100644
--- a/hrosailing/pipeline/pipeline.py
+++ b/hrosailing/pipeline/pipeline.py
@@ -2,6 +2,7 @@
 Pipeline to create polar diagrams from raw data.
 """
 
+import itertools
 from datetime import datetime as dt
 from typing import NamedTuple
 
@@ -318,9 +319,16 @@ class PolarPipeline:
         if test_data is None:
             self.testing = False
 
+        # one handler for all inputs or one after another for each input
+        if isinstance(self.data_handler, pc.DataHandler):
+            handlers = itertools.repeat(self.data_handler)
+        else:
+            handlers = iter(self.data_handler)
+
         preproc_training_data, pp_training_statistics = self._preprocess(
             training_data,
             True,
+            handlers,
         )
 
         if _is_empty_data(preproc_training_data):
@@ -348,6 +356,7 @@ class PolarPipeline:
             preproc_test_data, test_statistics = self._preprocess(
                 test_data,
                 False,
+                handlers,
             )
             quality_assurance_statistics = self.quality_assurance.check(
                 polar_diagram, preproc_test_data.data
@@ -381,8 +390,8 @@ class PolarPipeline:
             polar_diagram, training_statistics, test_statistics
         )
 
-    def _preprocess(self, data, influence_fitting):
-        data, handler_statistics = self._handle_data(data)
+    def _preprocess(self, data, influence_fitting, handlers):
+        data, handler_statistics = self._handle_data(data, handlers)
 
         data, imputator_statistics = self._map(
             _collector_fun(self.imputator, self.imputator.impute), data
@@ -492,17 +501,11 @@ class PolarPipeline:
     def _switch_default(self, dict_, key, default):
         return dict_[key] if key in dict_ else default
 
-    def _handle_data(self, data):
-        if isinstance(self.data_handler, pc.DataHandler):
-            handler_output = [
-                _collect(self.data_handler, self.data_handler.handle, field)
-                for field in data
-            ]
-        else:
-            handler_output = []
-            for field in data:
-                handler = next(self.data_handler)
-                handler_output.append(_collect(handler, handler.handle, field))
+    def _handle_data(self, data, handlers):
+        handler_output = []
+        for field in data:
+            handler = next(handlers)
+            handler_output.append(_collect(handler, handler.handle, field))
 
         return self._list_statistics(handler_output)
 
-- 
2.43.0


From 2ddfa0233f117f80e5e62989685bbcc014fbb678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:15 +0000
Subject: [PATCH 075/107] fix: plots sort the slice information together with
 the slice

---
 hrosailing/plotting/projections.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index 70b3afe..dfcc23f 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -456,7 +456,10 @@ def _plot(
         return
 
     for slice_, info_ in safe_zip(slices, info):
-        slice_ = slice_[:, np.argsort(slice_[1])]
+        order = np.argsort(slice_[1], kind="stable")
+        slice_ = slice_[:, order]
+        if info_ is not None:
+            info_ = [info_[i] for i in order]
         if use_convex_hull:
             ws, wa, bsp, info_ = _get_convex_hull(slice_, info_)
         else:
-- 
2.43.0


From e84d47ccd2bdfbe70904e93ba9668010dcb90a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:20 +0000
Subject: [PATCH 076/107] fix: color gradient of equal values

---
 hrosailing/plotting/projections.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index dfcc23f..d467585 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -741,6 +741,9 @@ def _get_gradient_coefficients(gradient):
     min_gradient = gradient.min()
     max_gradient = gradient.max()
 
+    if min_gradient == max_gradient:
+        return [0 for _ in gradient]
+
     return [
         (grad - min_gradient) / (max_gradient - min_gradient)
         for grad in gradient
-- 
2.43.0


From c771bf0668eb2c68bdabe9bb204cca5a42311694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:25 +0000
Subject: [PATCH 077/107] fix: single colors in legends and gradients

---
 hrosailing/plotting/projections.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index d467585..5abe811 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -693,7 +693,7 @@ def _only_one_color(colors):
         return is_color_like(colors)
 
     if isinstance(colors, tuple) and len(colors) in {3, 4}:
-        if isinstance(colors[0], int):
+        if isinstance(colors[0], (int, float)):
             return is_color_like(colors)
 
     return False
@@ -729,6 +729,8 @@ def _set_color_gradient(ax, labels, colors):
 
 
 def _determine_color_gradient(colors, gradient):
+    if _only_one_color(colors):
+        colors = (colors, colors)
     gradient_coeffs = _get_gradient_coefficients(gradient)
     color_gradient = _determine_colors_from_coefficients(
         gradient_coeffs, colors
@@ -760,6 +762,9 @@ def _determine_colors_from_coefficients(coefficients, colors):
 
 
 def _configure_legend(ax, ws, colors, label, **legend_kw):
+    if _only_one_color(colors):
+        colors = [colors] * len(ws)
+
     if _plot_with_color_gradient(ws, colors):
         _set_colormap(ws, colors, ax, label, **legend_kw)
         return
@@ -825,4 +830,6 @@ def _remove_3d_tick_labels_for_polar_coordinates(ax):
 
 
 def _create_color_map(colors):
+    if _only_one_color(colors):
+        colors = (colors, colors)
     return LinearSegmentedColormap.from_list("cmap", list(colors))
-- 
2.43.0


From 5f4651d099adc390e957bbe9e2ac6240006d3a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:46 +0000
Subject: [PATCH 078/107] fix: single colors in legends and gradients (2)

---
 hrosailing/plotting/projections.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index 5abe811..8e8f54f 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -299,6 +299,9 @@ class HROColorGradient(Axes):
         if legend_kw is None:
             legend_kw = {}
 
+        if _only_one_color(colors):
+            colors = (colors, colors)
+
         pd = args[0]
         points = pd.get_points(wind=wind)
         ws, wa, bsp = points.T
@@ -729,8 +732,6 @@ def _set_color_gradient(ax, labels, colors):
 
 
 def _determine_color_gradient(colors, gradient):
-    if _only_one_color(colors):
-        colors = (colors, colors)
     gradient_coeffs = _get_gradient_coefficients(gradient)
     color_gradient = _determine_colors_from_coefficients(
         gradient_coeffs, colors
-- 
2.43.0


From d9ecad355398ad14d9d2e23c08ea96831a4d54eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:05 +0000
Subject: [PATCH 079/107] fix: closing point of the convex hull plot lies on
 the hull

---
 hrosailing/plotting/projections.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index 8e8f54f..70d6717 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -549,8 +549,8 @@ def _get_convex_hull(slice_, info_):
     y0 = slice_[2, 0] * np.cos(np.deg2rad(slice_[1, 0]))
     y1 = slice_[2, -1] * np.cos(np.deg2rad(slice_[1, -1]))
     lamb = x0 / (x0 - x1)
-    approx_ws = lamb * slice_[0, 0] + (1 - lamb) * slice_[0, -1]
-    approx_bsp = lamb * y0 + (1 - lamb) * y1
+    approx_ws = slice_[0, 0] + lamb * (slice_[0, -1] - slice_[0, 0])
+    approx_bsp = y0 + lamb * (y1 - y0)
 
     slice_ = np.column_stack(
         [[approx_ws, 0, approx_bsp], slice_, [approx_ws, 360, approx_bsp]]
-- 
2.43.0


From df4256ce32af31a2119c0ec5fe4ff93b16435abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:00 +0000
Subject: [PATCH 080/107] fix: points of curves in radians requested at winds
 in degrees

---
 hrosailing/polardiagram/_basepolardiagram.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_basepolardiagram.py b/hrosailing/polardiagram/_basepolardiagram.py
index 87e24a9..e0b2b63 100644
--- a/hrosailing/polardiagram/_basepolardiagram.py
+++ b/hrosailing/polardiagram/_basepolardiagram.py
@@ -4,6 +4,8 @@ from abc import ABC, abstractmethod
 
 import numpy as np
 
+from hrosailing.core.computing import boat_speed_at
+
 
 class PolarDiagram(ABC):
     """Base class for all polar diagrams.
@@ -215,7 +217,7 @@ class PolarDiagram(ABC):
         if wind is None:
             return self.default_points
         wind = self._get_wind(wind)
-        bsps = [self(wa, ws) for wa, ws in wind]
+        bsps = [boat_speed_at(self, ws, wa) for ws, wa in wind]
         return np.column_stack([wind, bsps])
 
     def get_slice_info(self, ws, slices, **kwargs):
-- 
2.43.0


From e204abba758b09299b9894828d0e4a1a53f553bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:53 +0000
Subject: [PATCH 081/107] fix: Data.from_dict with columns given as arrays or
 tuples

---
 hrosailing/core/data.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index decfa4a..ae5f230 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -490,7 +490,12 @@ class Data:
             Instance containing the same data as `dict_`.
         """
         data = cls()
-        data.update(dict_)
+        data.update(
+            {
+                key: list(col) if isinstance(col, (tuple, np.ndarray)) else col
+                for key, col in dict_.items()
+            }
+        )
         return data
 
     def get_slice(self, slice_):
-- 
2.43.0


From 539d44f6742262ed0cc629aec08140ff53ff7291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:21 +0000
Subject: [PATCH 082/107] fix: statistics of weighers for empty input are not
 those of the call before

---
 hrosailing/processing/weigher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 183dfec..5be8b20 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -301,8 +301,10 @@ class CylindricMeanWeigher(Weigher):
         `Weigher.weigh`
         """
         if isinstance(points, np.ndarray) and len(points) == 0:
+            self.set_statistics([])
             return []
         if isinstance(points, Data) and points.n_rows == 0:
+            self.set_statistics([])
             return []
         dimensions, points, bsps = _set_points_from_data(
             points, self._dimensions
@@ -440,8 +442,10 @@ class CylindricMemberWeigher(Weigher):
         """
 
         if isinstance(points, np.ndarray) and len(points) == 0:
+            self.set_statistics([])
             return []
         if isinstance(points, Data) and points.n_rows == 0:
+            self.set_statistics([])
             return []
 
         dimensions, points = _set_points_from_data(
-- 
2.43.0


From ae03141c1bad9a76f03e83f9b47d03066ef60789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 083/107] fix: converted winds from dead ahead have angle 0,
 not 360

---
 hrosailing/core/computing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hrosailing/core/computing.py b/hrosailing/core/computing.py
index ebb557a..3dfeac4 100644
--- a/hrosailing/core/computing.py
+++ b/hrosailing/core/computing.py
@@ -52,9 +52,9 @@ class _Wind(enum.Enum):
         temp[temp < -1] = -1
 
         converted_wa = np.arccos(temp)
-        converted_wa[wa_above_180] = 360 - np.rad2deg(
-            converted_wa[wa_above_180]
-        )
+        converted_wa[wa_above_180] = (
+            360 - np.rad2deg(converted_wa[wa_above_180])
+        ) % 360
         converted_wa[~wa_above_180] = np.rad2deg(converted_wa[~wa_above_180])
 
         return converted_wa
-- 
2.43.0


From 4e0e6234f816b2d37f1f35f2f41487aa371f40d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 084/107] fix: NetCDF weather files with fractional times or
 variable names with spaces could not be read

---
 hrosailing/models/weather_model.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index c8d5c57..6eb8d6a 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -404,7 +404,7 @@ class NetCDFWeatherModel(GriddedWeatherModel):
             )
 
         times = [
-            starting_time + int(plain_time) * timestep
+            starting_time + float(plain_time) * timestep
             for plain_time in plain_times
         ]
 
@@ -453,12 +453,7 @@ class NetCDFWeatherModel(GriddedWeatherModel):
         return np.asarray(attr_list)
 
     def _get_dimensions(self, attr):
-        dimensions = str(self._dataset[attr]).split("\n")[1].split(" ")[1:]
-        dimensions = [
-            c.split("(")[1].strip(",)") if "(" in c else c.strip(",)")
-            for c in dimensions
-        ]
-        return dimensions
+        return self._dataset[attr].dimensions
 
 
 class MultiWeatherModel(WeatherModel):
-- 
2.43.0


From 1c68618e04d16d0d4eca8ffc05853fb3e613c167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 085/107] fix: weather from meteostat failed with several
 attributes and mixed up times of different places

---
 hrosailing/models/weather_model.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 6eb8d6a..251c3dc 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -174,26 +174,26 @@ class GriddedWeatherModel(WeatherModel):
             )
 
         # fetch data
+        times = []
         lat_datas = []
         for lat in lats:
             lon_data = []
             for lon in lons:
                 loc = meteostat.Point(lat, lon, 0)
                 data = meteostat.Hourly(loc, start_time, end_time).fetch()
-                times = data.index.values
-                np_data = data[keys].to_numpy()
-                if np_data.shape[0] == 0:
-                    np_data = []
-                lon_data.append(np_data)
-            max_len = max(len(d) for d in lon_data)
-            lon_data = [
-                np.zeros((max_len, len(keys))) if d == [] else d
-                for d in lon_data
-            ]
-            lat_datas.append(np.stack(lon_data, axis=0))
+                if len(data.index) > len(times):
+                    times = data.index.values
+                lon_data.append(data[keys].to_numpy())
+            lat_datas.append(lon_data)
+
+        # places without any data
+        no_data = np.zeros((len(times), len(keys)))
+        lat_datas = [
+            np.stack([d if len(d) > 0 else no_data for d in lon_data], axis=0)
+            for lon_data in lat_datas
+        ]
 
         times = [pd.to_datetime(t) for t in times]
-        data = np.stack(lat_datas, axis=0)
         data = np.transpose(np.stack(lat_datas, axis=0), axes=(2, 0, 1, 3))
 
         return cls(data, times, lats, lons, keys)
-- 
2.43.0


From 24f7cde95307c654dffb9f7c9f1bf107dc1ee63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 086/107] fix: long table text repeated earlier columns under
 the last wind speeds

---
 hrosailing/polardiagram/_polardiagramtable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index 047831f..8164f3a 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -208,6 +208,7 @@ class PolarDiagramTable(PolarDiagram):
 
     def _create_long_table(self, table, wind):
         bsps = self.boat_speeds
+        bsps = np.column_stack((bsps[:, :5], bsps[:, -5:]))
 
         for i, ws in enumerate(wind):
             if i == 5:
-- 
2.43.0


From 578219e700712fc940b5a9f9addef83f538af854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 087/107] fix: weigher statistics could leave the largest
 weight out of the last interval by rounding

---
 hrosailing/processing/weigher.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 5be8b20..c33b21a 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -141,10 +141,9 @@ class Weigher(ComponentWithStatistics, ABC):
         """
         minw = safe_operation(np.min, weights)
         maxw = safe_operation(np.max, weights)
-        span = safe_operation(lambda x: x[1] - x[0], [minw, maxw])
 
         def get_quantiles(args):
-            minw, span = args
+            bounds = np.linspace(*args, 11)
             return [
                 round(
                     100
@@ -152,11 +151,7 @@ class Weigher(ComponentWithStatistics, ABC):
                         [
                             w
                             for w in weights
-                            if (
-                                minw + span * (i + 1) / 10
-                                >= w
-                                >= minw + span * i / 10
-                            )
+                            if bounds[i + 1] >= w >= bounds[i]
                         ]
                     )
                     / len(weights),
@@ -169,7 +164,7 @@ class Weigher(ComponentWithStatistics, ABC):
             average_weight=safe_operation(np.mean, weights),
             minimal_weight=minw,
             maximal_weight=maxw,
-            quantiles=safe_operation(get_quantiles, [minw, span]),
+            quantiles=safe_operation(get_quantiles, [minw, maxw]),
         )
 
 
-- 
2.43.0


From 06e512e9f95b0bfcbebb5735ab7fc3480604449f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 088/107] fix: evaluating a point cloud changed wind angles
 given as arrays

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index a209f1b..0bec2e9 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -205,7 +205,7 @@ class PolarDiagramPointcloud(PolarDiagram):
         if np.any((ws < 0)):
             raise ValueError("`ws` is negative")
 
-        wa %= 360
+        wa = wa % 360
 
         cloud = self.points
         point = cloud[np.logical_and(cloud[:, 0] == ws, cloud[:, 1] == wa)]
-- 
2.43.0


From 1dbbe5d17fae4a2499c9b52b3f77bc6251e76ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:36 +0000
Subject: [PATCH 089/107] fix: symmetrizing an empty point cloud returned the
 cloud itself

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index 0bec2e9..509d39d 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -288,7 +288,7 @@ class PolarDiagramPointcloud(PolarDiagram):
         that might overwrite or live alongside old points.
         """
         if not self.points.size:
-            return self
+            return PolarDiagramPointcloud(self.points)
 
         below_180 = [wa for wa in self.wind_angles if wa <= 180]
         above_180 = [wa for wa in self.wind_angles if wa > 180]
-- 
2.43.0


From d43e56d633e450cdda58ea58facc54c3d75da855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 090/107] fix: without pandas, values below a short csv row
 moved up a row

---
 hrosailing/processing/datahandler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index d0a2702..20214d3 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -169,6 +169,8 @@ class CsvFileHandler(DataHandler):
                 keys = next(csv_reader)
                 data_dict = {key: [] for key in keys}
                 for row in csv_reader:
+                    if row:  # entries may be missing at the end of a row
+                        row += [""] * (len(keys) - len(row))
                     for i, entry in enumerate(row):
                         data_dict[keys[i]].append(entry)
 
-- 
2.43.0


From a91fe70de1f36694c9e6c6f60b3fa20042f0c6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:07 +0000
Subject: [PATCH 091/107] fix: find the enclosing circle of samplers for
 closely spaced points

---
 hrosailing/processing/sampler.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hrosailing/processing/sampler.py b/hrosailing/processing/sampler.py
index 86a3b32..a8ea05b 100644
--- a/hrosailing/processing/sampler.py
+++ b/hrosailing/processing/sampler.py
@@ -279,6 +279,8 @@ def _make_circle(pts, eps=0.0001):
     """"""
     pts = pts.copy()
     np.random.shuffle(pts)
+    # the tolerance has to be small compared to the extent of the points
+    eps *= min(1, np.ptp(pts, axis=0).max())
     k = []  # list of necessary boundary points
     circle = _small_circle(pts[k])
     i = 0  # index of currently examined point
@@ -326,12 +328,15 @@ def _small_circle(pts):
         mp = 1 / 2 * (p1 + p2)
         r = 1 / 2 * np.linalg.norm(p1 - p2)
         return mp, r
-    circle_m = -np.column_stack(pts).T
+    # calculate relative to one of the points to avoid cancellation
+    origin = pts[0]
+    circle_m = -np.column_stack(pts - origin).T
     circle_m = np.column_stack([np.ones(3), circle_m])
-    circle_b = np.array([-np.linalg.norm(p) ** 2 for p in pts])
+    circle_b = np.array([-np.linalg.norm(p - origin) ** 2 for p in pts])
     try:
         a, b, c = np.linalg.inv(circle_m) @ circle_b
-        return np.array([b / 2, c / 2]), np.sqrt(b**2 / 4 + c**2 / 4 - a)
+        mp = origin + np.array([b / 2, c / 2])
+        return mp, np.sqrt(b**2 / 4 + c**2 / 4 - a)
     except np.linalg.LinAlgError:
         pass
 
-- 
2.43.0


From 2ecb6318954e8f919be1b0953cea573ae7aa3ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:38 +0000
Subject: [PATCH 092/107] fix: convex hull plots of slices around the wind that
 do not surround the boat

---
 hrosailing/plotting/projections.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index 70d6717..8f5d454 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -523,7 +523,9 @@ def _get_convex_hull(slice_, info_):
         ws, wa, bsp = slice_
         return ws, wa, bsp, info_
 
-    if slice_[1][-1] - slice_[1][0] < 180:
+    # no wrap around if the hull does not surround the boat
+    gaps = np.diff(slice_[1], append=slice_[1][0] + 360)
+    if gaps.max() > 180:
         ws, wa, bsp = slice_
         return ws, wa, bsp, info_
 
-- 
2.43.0


From fa6ba3735f50d6b1d7929c0b54423c55ac923d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:15 +0000
Subject: [PATCH 093/107] fix: refuse coincident points in samplers again

---
 hrosailing/processing/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/sampler.py b/hrosailing/processing/sampler.py
index a8ea05b..7a809a2 100644
--- a/hrosailing/processing/sampler.py
+++ b/hrosailing/processing/sampler.py
@@ -280,7 +280,7 @@ def _make_circle(pts, eps=0.0001):
     pts = pts.copy()
     np.random.shuffle(pts)
     # the tolerance has to be small compared to the extent of the points
-    eps *= min(1, np.ptp(pts, axis=0).max())
+    eps *= min(1, np.ptp(pts, axis=0).max() or 1)
     k = []  # list of necessary boundary points
     circle = _small_circle(pts[k])
     i = 0  # index of currently examined point
-- 
2.43.0


From 5176860b41eac58d7a4029ca2fddedd61a95730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:13 +0000
Subject: [PATCH 094/107] fix: leave measurement data unchanged when an update
 is refused

---
 hrosailing/core/data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index ae5f230..035b072 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -195,6 +195,10 @@ class Data:
             return
         if not isinstance(data_dict, dict):
             raise TypeError("`data_dict` has to be of type `Data` or `dict`")
+        # refuse inconsistent types before changing any column
+        for key, val in data_dict.items():
+            val = val if isinstance(val, list) else [val]
+            self._get_type([*self._data.get(key, []), *val])
         self.fill(
             self._max_len, itertools.chain(data_dict.keys(), self.keys())
         )
-- 
2.43.0


From 04d5ea124f39538eace3e7666e1abd00cd588c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:18 +0000
Subject: [PATCH 095/107] fix: yield tuples from Data.rows(return_type=tuple)

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 035b072..d45e8a3 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -106,7 +106,7 @@ class Data:
             if return_type is dict:
                 yield {key: self._data[key][i] for key in keys}
             elif return_type is tuple:
-                yield (self._data[key][i] for key in keys)
+                yield tuple(self._data[key][i] for key in keys)
             elif return_type is list:
                 yield [self._data[key][i] for key in keys]
             else:
-- 
2.43.0


From 0edd145fe50a531cb4a3e9f157765a6a5f8328bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:25 +0000
Subject: [PATCH 096/107] fix: delete no column when one of the given columns
 is unknown

---
 hrosailing/core/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index d45e8a3..2476666 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -322,6 +322,9 @@ class Data:
             if len(key) == 0:
                 return
             if isinstance(key[0], str):
+                for k in key:
+                    if k not in self._data:
+                        raise KeyError(k)
                 for k in key:
                     self.delete(k)
             if isinstance(key[0], int):
-- 
2.43.0


From ef7ef768a1c23a91ca0df03b2f4e75404368b785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:34 +0000
Subject: [PATCH 097/107] fix: convert winds given as small integers without
 overflow

---
 hrosailing/core/computing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/core/computing.py b/hrosailing/core/computing.py
index 3dfeac4..3e7c2ea 100644
--- a/hrosailing/core/computing.py
+++ b/hrosailing/core/computing.py
@@ -19,6 +19,8 @@ class _Wind(enum.Enum):
 
         if wind.dtype == object:
             raise TypeError("`wind` is not array_like")
+        if np.issubdtype(wind.dtype, np.integer):
+            wind = wind.astype(float)  # squares could exceed small integers
         if wind.ndim != 2 or wind.shape[1] != 3:
             raise TypeError("`wind` has incorrect shape")
 
-- 
2.43.0


From 677180c498431601071f58ab6c428f2f6c3273e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:11 +0000
Subject: [PATCH 098/107] fix: let scaling balls answer several threads at once

---
 hrosailing/processing/neighbourhood.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hrosailing/processing/neighbourhood.py b/hrosailing/processing/neighbourhood.py
index 6e7ddbe..11bddba 100644
--- a/hrosailing/processing/neighbourhood.py
+++ b/hrosailing/processing/neighbourhood.py
@@ -172,9 +172,10 @@ class ScalingBall(Neighbourhood):
             return True
 
         dist = self._norm(pts)
-        self._radius = sorted(dist)[min(self._min_pts, len(dist)) - 1]
+        radius = sorted(dist)[min(self._min_pts, len(dist)) - 1]
+        self._radius = radius
 
-        return dist <= self._radius
+        return dist <= radius
 
 
 class Ellipsoid(Neighbourhood):
-- 
2.43.0


From 1dc2c3c8007a515f5fc6101540812fb9f7a1ab7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:43 +0000
Subject: [PATCH 099/107] fix: weigh constant data as one when no fluctuation
 is allowed

---
 hrosailing/processing/weigher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index c33b21a..238ac78 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -562,6 +562,8 @@ class FluctuationWeigher(Weigher):
             )
             for col, ub in enumerate(upper_bounds):
                 curr_pts = points[start_idx : end_idx + 1, col]
+                if np.ptp(curr_pts) == 0:
+                    continue  # constant, even an upper bound of 0 is kept
                 std = np.std(curr_pts)
                 if std > ub:
                     weights[curr_idx] = 0
-- 
2.43.0


From ba094212413613279fb1b1521e09a6a681941b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:57 +0000
Subject: [PATCH 100/107] fix: accept a single numpy number as wind speed of a
 slice

---
 hrosailing/polardiagram/_basepolardiagram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_basepolardiagram.py b/hrosailing/polardiagram/_basepolardiagram.py
index e0b2b63..e4bc87f 100644
--- a/hrosailing/polardiagram/_basepolardiagram.py
+++ b/hrosailing/polardiagram/_basepolardiagram.py
@@ -102,7 +102,7 @@ class PolarDiagram(ABC):
     def _get_windspeeds(self, ws, n_steps):
         if ws is None:
             ws = self.default_slices
-        if isinstance(ws, (int, float)):
+        if isinstance(ws, (int, float, np.integer, np.floating)):
             return [ws]
         try:
             ws = list(ws)
-- 
2.43.0


From caa908180109f1d43cdc3e9e13a69257bdf88c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:03 +0000
Subject: [PATCH 101/107] fix: spread a numpy number as weight over all points

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 2476666..26c6196 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -634,7 +634,7 @@ class WeightedPoints:
 
     def __init__(self, data, weights):
         self.data = data
-        if isinstance(weights, (float, int)):
+        if isinstance(weights, (float, int, np.number)):
             if isinstance(data, dict):
                 length = len(list(data.values())[0])
             elif isinstance(data, Data):
-- 
2.43.0


From 63ee74bc9c74bd233f94f00c039b0f66f0e820f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:45 +0000
Subject: [PATCH 102/107] fix: sample from points given as lists as documented

---
 hrosailing/processing/sampler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hrosailing/processing/sampler.py b/hrosailing/processing/sampler.py
index 7a809a2..7eb5a3a 100644
--- a/hrosailing/processing/sampler.py
+++ b/hrosailing/processing/sampler.py
@@ -71,6 +71,7 @@ class UniformRandomSampler(Sampler):
         ----------
         `Sampler.sample`
         """
+        pts = np.asarray(pts, dtype=float)
         rng = np.random.default_rng()
         proj_pts = pts[:, :2]
         ineqs = ConvexHull(proj_pts).equations
@@ -140,6 +141,8 @@ class FibonacciSampler(Sampler):
         ----------
         `Sampler.sample`
         """
+        pts = np.asarray(pts, dtype=float)
+
         # calculate smallest circle containing pts
         midpoint, r = _make_circle(pts)
 
@@ -210,6 +213,7 @@ class ArchimedeanSampler(Sampler):
         `Sampler.sample`
         """
 
+        pts = np.asarray(pts, dtype=float)
         if len(pts) < 2:
             raise ValueError("`pts` needs to contain at least 3 points")
 
-- 
2.43.0


From 279bbe2b9f287eed353e24294fb463680ae7a886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:59 +0000
Subject: [PATCH 103/107] fix: interpolate integer points at integer wind by
 Shepard's method

---
 hrosailing/processing/interpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index 96befb2..a206874 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -456,7 +456,7 @@ def _include_direction(pts, grid_pt, dist, wts):
         ) + (grid_pt[1] - pt[1]) * (
             grid_pt[1] - np.delete(pts, i, axis=0)[:, 1]
         )
-        cosine /= dist[i] * np.delete(dist, i)
+        cosine = cosine / (dist[i] * np.delete(dist, i))
         t[i] = np.sum(np.delete(wts, i) * (1 - cosine))
         t[i] /= np.sum(wts)
 
-- 
2.43.0


From 5771e58f56b7e810e148f13937302575486d41da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:30 +0000
Subject: [PATCH 104/107] fix: keep high powers of the inverse distance from
 overflowing

---
 hrosailing/processing/interpolator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index a206874..b4f889c 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -128,7 +128,8 @@ class IDWInterpolator(Interpolator):
             mask = wts == 0
             return pts[mask][0, 2]
 
-        wts = 1 / np.power(wts, self._p)
+        # relative to the smallest distance, as the powers might overflow
+        wts = np.power(np.min(wts) / wts, self._p)
         wts /= np.sum(wts)
 
         return wts @ pts[:, 2]
-- 
2.43.0


From 78d99378f37c95076659570f9904f99f3cd276f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:37 +0000
Subject: [PATCH 105/107] fix: keep the weights of the arithmetic mean from
 vanishing all at once

---
 hrosailing/processing/interpolator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index b4f889c..dc61348 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -137,7 +137,10 @@ class IDWInterpolator(Interpolator):
 
 def _gauss_potential(distances, weights, *params):
     alpha = params[0]
-    return np.exp(-alpha * weights * distances)
+    exponents = alpha * weights * distances
+    # a common factor has no influence on the mean, but keeps the weights
+    # from vanishing all at once
+    return np.exp(np.min(exponents, initial=np.inf) - exponents)
 
 
 class ArithmeticMeanInterpolator(Interpolator):
-- 
2.43.0


From e2ac9f905273cd92877c16680e48ea7c4e4e961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:11 +0000
Subject: [PATCH 106/107] fix: delete rows given by numpy integers

---
 hrosailing/core/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 26c6196..a084672 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -316,7 +316,7 @@ class Data:
         if isinstance(key, str):
             del self._data[key]
             del self._types[key]
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer)):
             self.delete([key])
         if isinstance(key, list):
             if len(key) == 0:
@@ -327,7 +327,7 @@ class Data:
                         raise KeyError(k)
                 for k in key:
                     self.delete(k)
-            if isinstance(key[0], int):
+            if isinstance(key[0], (int, np.integer)):
                 self._data = {
                     k: [v for i, v in enumerate(value) if i not in key]
                     for k, value in self._data.items()
-- 
2.43.0


From 35d750807de2f6136c08517525bca871edfc870d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:26 +0000
Subject: [PATCH 107/107] fix: estimate Shepard's slopes with several points of
 the same wind

---
 hrosailing/processing/interpolator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index dc61348..835edab 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -478,6 +478,9 @@ def _determine_slope(pts, grid_pt, dist, wts, nhood, norm, slope):
         pts_i = pts_i[mask]
         dist_i = norm(pts_i[:, :2] - pt[:2])
         wts_i = np.delete(wts, i)[mask]
+        # there is no slope between points with the same wind
+        apart = dist_i > 0
+        pts_i, dist_i, wts_i = pts_i[apart], dist_i[apart], wts_i[apart]
         if not np.any(wts_i):
             continue
         xderiv[i] = np.sum(
-- 
2.43.0

