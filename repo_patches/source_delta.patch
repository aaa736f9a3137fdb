From 8bba8a909248050ea4c01a62ec6eabaf84c37214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 01/41] fix: use the solid angle of each lon/lat bin in
 background_3d_lonlat

The solid angle was computed only for the diagonal (i, i) bins and then
broadcast along the longitude axis, which is wrong for non-uniform or
asymmetric latitude binning and fails for n_lon != n_lat.
---
 pyirf/irf/background.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyirf/irf/background.py b/pyirf/irf/background.py
index 419486f..3eb603e 100644
--- a/pyirf/irf/background.py
+++ b/pyirf/irf/background.py
@@ -113,10 +113,10 @@ def background_3d_lonlat(events, reco_energy_bins, fov_lon_bins, fov_lat_bins, t
 
     # divide by solid angle in each fov bin and the observation time
     bin_solid_angle = rectangle_solid_angle(
-        fov_lon_bins[:-1],
-        fov_lon_bins[1:],
-        fov_lat_bins[:-1],
-        fov_lat_bins[1:],
+        fov_lon_bins[:-1, np.newaxis],
+        fov_lon_bins[1:, np.newaxis],
+        fov_lat_bins[np.newaxis, :-1],
+        fov_lat_bins[np.newaxis, 1:],
     )
     bg_rate = per_energy / t_obs / bin_solid_angle
     return bg_rate.to(BACKGROUND_UNIT)
-- 
2.43.0


From 63311e8b0d138e0c3a60186d010a02cec3a0d6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 02/41] fix: weight position angle bins by their width in
 calculate_n_showers_3d_polar

The showers were divided equally between the position angle bins, whatever
their widths and whether or not they cover the full circle.
---
 pyirf/simulations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index d7f6c3b..2903d27 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -211,8 +211,9 @@ class SimulatedEventsInfo:
             [self.viewcone_min, self.viewcone_max] * u.deg
         )
 
-        n_bins_pa = len(fov_position_angle_bins) - 1
-        position_angle_integral = np.full(n_bins_pa, viewcone_integral / n_bins_pa)
+        # events are uniformly distributed in position angle
+        pa_fraction = np.diff(fov_position_angle_bins).to_value(u.rad) / (2 * np.pi)
+        position_angle_integral = viewcone_integral * pa_fraction
 
         total_integral = e_fov_offset_integral[:, :, np.newaxis] * position_angle_integral
 
-- 
2.43.0


From 34080bbe12740497f5aca43aee615f66972769de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 03/41] fix: do not overcount showers in energy bins containing
 the simulated range

---
 pyirf/simulations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index 2903d27..301055a 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -112,6 +112,9 @@ class SimulatedEventsInfo:
             self.spectral_index, e_min, e_high[mask], e_min, e_max
         )
 
+        # bins that contain the whole simulated range contain all showers
+        integral[(e_low <= e_min) & (e_high >= e_max)] = 1
+
         return self.n_showers * integral
 
     def calculate_n_showers_per_fov(self, fov_bins):
-- 
2.43.0


From b36e6353785dcc9032d6a138bc6152afee5fdf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 04/41] fix: support simulations with spectral index -1

The index -1 is accepted by SimulatedEventsInfo, but the number of showers
per energy bin and the normalization of the simulated power law were nan.
---
 pyirf/simulations.py | 4 ++++
 pyirf/spectral.py    | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index 301055a..01538cf 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -298,6 +298,10 @@ def _powerlaw_pdf_integral(index, e_low, e_high, e_min, e_max):
     e_min = e_min.to_value(u.TeV)
     e_max = e_max.to_value(u.TeV)
 
+    if index == -1:
+        with np.errstate(divide="ignore", invalid="ignore"):
+            return np.log(e_high / e_low) / np.log(e_max / e_min)
+
     int_index = index + 1
     normalization = 1 / (e_max ** int_index - e_min ** int_index)
     e_term = e_high ** int_index - e_low ** int_index
diff --git a/pyirf/spectral.py b/pyirf/spectral.py
index ffdd917..d8d66c0 100644
--- a/pyirf/spectral.py
+++ b/pyirf/spectral.py
@@ -132,8 +132,12 @@ class PowerLaw:
 
         A = np.pi * simulated_event_info.max_impact**2
 
-        delta = e_max ** (index + 1) - e_min ** (index + 1)
-        nom = (index + 1) * e_ref**index * n_showers
+        if index == -1:
+            delta = np.log((e_max / e_min).to_value(u.one))
+            nom = e_ref**index * n_showers
+        else:
+            delta = e_max ** (index + 1) - e_min ** (index + 1)
+            nom = (index + 1) * e_ref**index * n_showers
         denom = (A * obstime * solid_angle) * delta
 
         return cls(
-- 
2.43.0


From 3833df6cf686515c46c49bc37ad1bbf59eeb4856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 05/41] fix: return showers per (energy, lon, lat) bin in
 calculate_n_showers_3d_lonlat

The spatial axes were swapped with respect to the documentation and to the
histogram of selected events in effective_area_3d_lonlat.
---
 pyirf/simulations.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index 01538cf..7205916 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -259,7 +259,9 @@ class SimulatedEventsInfo:
             self, fov_longitude_bins, fov_latitude_bins, subpixels=subpixels
         )
 
-        bin_grid_lon, bin_grid_lat = np.meshgrid(fov_longitude_bins,fov_latitude_bins)
+        bin_grid_lon, bin_grid_lat = np.meshgrid(
+            fov_longitude_bins, fov_latitude_bins, indexing="ij"
+        )
         bin_area = rectangle_solid_angle(
             bin_grid_lon[:-1,:-1],
             bin_grid_lon[1:,1:],
@@ -348,7 +350,10 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     bin inside the viewcone.
     """
     # treat edge cases where all bins are either fully inside or outside of the viewcone
-    bin_grid_lon, bin_grid_lat = np.meshgrid(bin_edges_lon, bin_edges_lat)
+    # dimension order is always (longitude, latitude)
+    bin_grid_lon, bin_grid_lat = np.meshgrid(
+        bin_edges_lon, bin_edges_lat, indexing="ij"
+    )
 
     bin_dist = angular_separation(
         bin_grid_lon,
@@ -377,7 +382,7 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     fov_bin_centers_lat = bin_center(bin_edges_lat)
 
     bin_centers_grid_lon, bin_centers_grid_lat = np.meshgrid(
-        fov_bin_centers_lon, fov_bin_centers_lat,
+        fov_bin_centers_lon, fov_bin_centers_lat, indexing="ij",
     )
 
     # calculate angular separation of bin centers to FOV center
-- 
2.43.0


From 61ed5e352aa50e05f76f95a8326fd1cd5e31e6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 06/41] fix: support any angle unit and non-uniform bins in
 calculate_n_showers_3d_lonlat

The width of the first bin was used for all bins and the edges were assumed
to be in degrees when dividing bins into subpixels. Grids in which no bin is
cut by the viewcone raised an IndexError.
---
 pyirf/simulations.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index 7205916..d0a5a9f 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -403,8 +403,9 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     area[mask_simple] = 0
 
     # select only bins partially covered by the FOV
-    bin_width_lon = bin_edges_lon[1] - bin_edges_lon[0]
-    bin_width_lat = bin_edges_lat[1] - bin_edges_lat[0]
+    bin_width_lon, bin_width_lat = np.meshgrid(
+        np.diff(bin_edges_lon), np.diff(bin_edges_lat), indexing="ij"
+    )
     bin_max_radius = np.sqrt(bin_width_lon ** 2 + bin_width_lat ** 2) * 0.5
 
     fov_outer_edge_mask = np.logical_and(
@@ -422,14 +423,18 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     corner_idx = np.nonzero(fov_edge_mask)
 
     # define start and endpoints for subpixels
+    low_lon = bin_grid_lon[corner_idx].to_value(u.deg)
+    low_lat = bin_grid_lat[corner_idx].to_value(u.deg)
     edges_lon = np.array(
-        [bin_grid_lon[corner_idx], bin_grid_lon[corner_idx] + bin_width_lon]
+        [low_lon, low_lon + bin_width_lon[corner_idx].to_value(u.deg)]
     )
     edges_lat = np.array(
-        [bin_grid_lat[corner_idx], bin_grid_lat[corner_idx] + bin_width_lat]
+        [low_lat, low_lat + bin_width_lat[corner_idx].to_value(u.deg)]
     )
 
     n_edge_pixels = len(fov_edge_mask[fov_edge_mask==True])
+    if n_edge_pixels == 0:
+        return area
 
     # define subpixel bin centers and grid
     subpixel_lon = bin_center(np.linspace(*edges_lon, subpixels + 1) * u.deg)
-- 
2.43.0


From 18227a3100d3f87d22b194373ca1812ec74c17aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 07/41] fix: account for the part of the viewcone inside large
 lon/lat bins

A bin larger than the viewcone was assigned zero showers and a bin around the
hole of a ring shaped viewcone was counted in full, since only the
corners of the bins were compared with the viewcone.
---
 pyirf/simulations.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index d0a5a9f..d7805a6 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -362,13 +362,12 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
         0,
     ).to_value(u.deg)
 
-    all_outside = np.logical_or(
-        np.all(bin_dist <= self.viewcone_min.to_value(u.deg)),
-        np.all(bin_dist >= self.viewcone_max.to_value(u.deg)),
-    )
+    # the bin corners only tell that a bin is inside of a circle, a bin with
+    # all corners outside of a circle can still overlap or even contain it
+    all_outside = np.all(bin_dist <= self.viewcone_min.to_value(u.deg))
     all_inside = np.logical_and(
         np.all(bin_dist <= self.viewcone_max.to_value(u.deg)),
-        np.all(bin_dist >= self.viewcone_min.to_value(u.deg)),
+        self.viewcone_min.to_value(u.deg) == 0,
     )
 
     if all_outside:
-- 
2.43.0


From d36f9b34de3e6e86988206ad4291881e9e13d985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 08/41] fix: li_ma_significance returned nan for n_on equal to
 alpha * n_off

Due to rounding errors, the argument of the square root could be slightly negative.
---
 pyirf/statistics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/statistics.py b/pyirf/statistics.py
index 988bfd7..db32773 100644
--- a/pyirf/statistics.py
+++ b/pyirf/statistics.py
@@ -50,7 +50,8 @@ def li_ma_significance(n_on, n_off, alpha=0.2):
         t1[n_on == 0] = 0
         t2[n_off == 0] = 0
 
-        ts = t1 + t2
+        # rounding errors can make this slightly negative for n_on = alpha * n_off
+        ts = np.maximum(t1 + t2, 0)
 
         significance = np.sqrt(ts * 2)
 
-- 
2.43.0


From 8e805680c9dd4d21a75f53708fc850789e84a8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 09/41] fix: support broadcasting of n_on and n_off in
 li_ma_significance

---
 pyirf/statistics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/statistics.py b/pyirf/statistics.py
index db32773..2759661 100644
--- a/pyirf/statistics.py
+++ b/pyirf/statistics.py
@@ -31,12 +31,13 @@ def li_ma_significance(n_on, n_off, alpha=0.2):
         The calculated significance
     """
 
-    scalar = is_scalar(n_on)
+    scalar = is_scalar(n_on) and is_scalar(n_off)
 
     # Cast everything into float64 to avoid numeric instabilties
     # when multiplying very small and very big numbers to get t1 and t2
     n_on = np.array(n_on, copy=COPY_IF_NEEDED, ndmin=1, dtype=np.float64)
     n_off = np.array(n_off, copy=COPY_IF_NEEDED, ndmin=1, dtype=np.float64)
+    n_on, n_off = np.broadcast_arrays(n_on, n_off)
     alpha = np.float64(alpha)
 
     with np.errstate(divide="ignore", invalid="ignore"):
-- 
2.43.0


From 628dd28b04cc71be677d836c4ab419b86d9bc236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 10/41] fix: find the relative sensitivity also for low
 background and strong or weak sources

The interval used for the root finding did not always contain the solution,
in which case nan was returned.
---
 pyirf/sensitivity.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyirf/sensitivity.py b/pyirf/sensitivity.py
index c8873c8..614980b 100644
--- a/pyirf/sensitivity.py
+++ b/pyirf/sensitivity.py
@@ -64,6 +64,16 @@ def _relative_sensitivity(
             upper_bound = 100
             lower_bound = 1e-4
 
+        # the approximation is not valid for low counts, make sure the
+        # solution is actually between the bounds
+        for _ in range(50):
+            if equation(lower_bound) > 0:
+                lower_bound /= 10
+            elif equation(upper_bound) < 0:
+                upper_bound *= 10
+            else:
+                break
+
         relative_flux = brentq(equation, lower_bound, upper_bound)
 
     except (RuntimeError, ValueError) as e:
-- 
2.43.0


From 28e00ab2855ff676a9f22ef1e89bfb3979d836ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 11/41] fix: smooth cuts along the bins and not along the
 percentiles

---
 pyirf/cuts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyirf/cuts.py b/pyirf/cuts.py
index e9211c2..2f5c6d0 100644
--- a/pyirf/cuts.py
+++ b/pyirf/cuts.py
@@ -110,6 +110,7 @@ def calculate_percentile_cut(
         cut_table["cut"].value[:] = gaussian_filter1d(
             cut_table["cut"].value,
             smoothing,
+            axis=0,
             mode="nearest",
         )
 
-- 
2.43.0


From ba47bbda427ef4c827eb5aeace0b4f5adc649f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 12/41] fix: do not truncate percentile cuts of integer values

---
 pyirf/cuts.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyirf/cuts.py b/pyirf/cuts.py
index 2f5c6d0..d26b5f2 100644
--- a/pyirf/cuts.py
+++ b/pyirf/cuts.py
@@ -83,11 +83,16 @@ def calculate_percentile_cut(
         unit = fill_value.unit
         fill_value = fill_value.value
 
+    # percentiles of integer values are in general not integers
+    dtype = values.dtype
+    if not np.issubdtype(dtype, np.floating):
+        dtype = np.dtype(np.float64)
+
     percentile = np.asanyarray(percentile)
     if percentile.shape == ():
-        cut_table["cut"] = np.asanyarray(fill_value, values.dtype)
+        cut_table["cut"] = np.asanyarray(fill_value, dtype)
     else:
-        cut_table["cut"] = np.full((n_bins, len(percentile)), fill_value, dtype=values.dtype)
+        cut_table["cut"] = np.full((n_bins, len(percentile)), fill_value, dtype=dtype)
 
     if unit is not None:
         cut_table["cut"].unit = unit
-- 
2.43.0


From 5f0caa092cb3cf70d21fe9418f7e6d0a837837d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 13/41] fix: compare cuts including their units in
 compare_irf_cuts

Comparing tables ignores units, so 1 deg and 1 rad were considered equal, and
raised an error for tables with different columns.
---
 pyirf/cuts.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyirf/cuts.py b/pyirf/cuts.py
index d26b5f2..3349065 100644
--- a/pyirf/cuts.py
+++ b/pyirf/cuts.py
@@ -209,7 +209,12 @@ def compare_irf_cuts(cuts):
     match: Boolean
         if the cuts are the same in all the files
     """
-    for i in range(len(cuts) - 1):
-        if (cuts[i] != cuts[i + 1]).any():
+    for a, b in zip(cuts[:-1], cuts[1:]):
+        if len(a) != len(b) or set(a.colnames) != set(b.colnames):
             return False
+
+        # compare by column, comparing the tables would ignore the units
+        if any(np.any(a[col] != b[col]) for col in a.colnames):
+            return False
+
     return True
-- 
2.43.0


From aa04f0ed15b704de80af3a8d0a3fb04a2ca45695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 14/41] fix: support lists for theta_cut_efficiencies in
 optimize_cuts

100 * list repeats the list 100 times.
---
 pyirf/cut_optimization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyirf/cut_optimization.py b/pyirf/cut_optimization.py
index d8c1a51..dfdf4c4 100644
--- a/pyirf/cut_optimization.py
+++ b/pyirf/cut_optimization.py
@@ -72,6 +72,7 @@ def optimize_cuts(
     """
     gh_cut_efficiencies = np.asanyarray(gh_cut_efficiencies)
     gh_cut_percentiles = 100 * (1 - gh_cut_efficiencies)
+    theta_cut_efficiencies = np.asanyarray(theta_cut_efficiencies)
     fill_value = signal['gh_score'].max()
 
     sensitivities = []
-- 
2.43.0


From b3a83265ee96e45a7e1491c2ebf07a73443feeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 15/41] fix: resampling an empty histogram gives an empty
 histogram

The upper fill value of 1 was added to a bin of empty histograms. Also fixes
integer valued histograms.
---
 pyirf/binning.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyirf/binning.py b/pyirf/binning.py
index 0eb4413..87882c4 100644
--- a/pyirf/binning.py
+++ b/pyirf/binning.py
@@ -280,9 +280,9 @@ def resample_histogram1d(data, old_edges, new_edges, axis=0):
 
     cumsum = np.insert(data.cumsum(axis=axis), 0, 0, axis=axis)
 
-    norm = data.sum(axis=axis, keepdims=True)
-    norm[norm == 0] = 1
-    cumsum /= norm
+    total = data.sum(axis=axis, keepdims=True)
+    norm = np.where(total == 0, 1, total)
+    cumsum = cumsum / norm
 
     f_integral = interp1d(
         old_edges,
@@ -293,7 +293,7 @@ def resample_histogram1d(data, old_edges, new_edges, axis=0):
         axis=axis,
     )
 
-    values = np.diff(f_integral(new_edges), axis=axis) * norm
+    values = np.diff(f_integral(new_edges), axis=axis) * total
     if data_unit:
         values = u.Quantity(values, unit=data_unit)
 
-- 
2.43.0


From e7c1b667f65242ec7a13f464d23bd9fcefe762eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 16/41] fix: take first migration bin into account in
 energy_bias_resolution_from_energy_dispersion

---
 pyirf/benchmarks/energy_bias_resolution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyirf/benchmarks/energy_bias_resolution.py b/pyirf/benchmarks/energy_bias_resolution.py
index 4479549..6aa4ae3 100644
--- a/pyirf/benchmarks/energy_bias_resolution.py
+++ b/pyirf/benchmarks/energy_bias_resolution.py
@@ -136,6 +136,8 @@ def energy_bias_resolution_from_energy_dispersion(
 
     bin_width = np.diff(migration_bins)
     cdf = np.cumsum(energy_dispersion * bin_width[np.newaxis, :, np.newaxis], axis=1)
+    # cdf is 0 at the lower edge of the first bin
+    cdf = np.insert(cdf, 0, 0, axis=1)
 
     n_energy_bins, _, n_fov_bins = energy_dispersion.shape
 
@@ -150,7 +152,7 @@ def energy_bias_resolution_from_energy_dispersion(
             low, median, high = np.interp(
                 [NORM_LOWER_SIGMA, MEDIAN, NORM_UPPER_SIGMA],
                 cdf[energy_bin, :, fov_bin],
-                migration_bins[1:],  # cdf is defined at upper bin edge
+                migration_bins,
             )
             bias[energy_bin, fov_bin] = median - 1
             resolution[energy_bin, fov_bin] = 0.5 * (high - low)
-- 
2.43.0


From 4ceb859bd3b810187d32301a83be27269125d251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 17/41] fix: EffectiveAreaEstimator modified the input
 effective area in-place

---
 pyirf/interpolation/component_estimators.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 6f019af..5fecc77 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -433,10 +433,8 @@ class EffectiveAreaEstimator(ParametrizedComponentEstimator):
 
         self.min_effective_area = min_effective_area
 
-        # remove zeros and log it
-        effective_area[effective_area < self.min_effective_area] = (
-            self.min_effective_area
-        )
+        # remove zeros and log it, do not modify the input in-place
+        effective_area = np.maximum(effective_area, self.min_effective_area)
         effective_area = np.log(effective_area)
 
         super().__init__(
-- 
2.43.0


From 9c3cfc23e34265b66629d07fa34161b20f92bd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 18/41] fix: set effective areas at min_effective_area to zero
 as documented

A bin without any effective area at all grid points was estimated to have
min_effective_area instead of zero.
---
 pyirf/interpolation/component_estimators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 5fecc77..c7e80dd 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -470,7 +470,8 @@ class EffectiveAreaEstimator(ParametrizedComponentEstimator):
         # exp it and set to zero too low values
         aeff_interp = np.exp(aeff_interp)
         # remove entries manipulated by min_effective_area
-        aeff_interp[aeff_interp < self.min_effective_area] = 0
+        at_minimum = np.isclose(aeff_interp, self.min_effective_area, atol=0)
+        aeff_interp[at_minimum | (aeff_interp < self.min_effective_area)] = 0
 
         return u.Quantity(aeff_interp, u.m**2, copy=COPY_IF_NEEDED)
 
-- 
2.43.0


From 11c433438b474e1b272dfdb427cd6b2651b30a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 19/41] fix: PSFTableEstimator modified the given kwargs
 dictionaries

---
 pyirf/interpolation/component_estimators.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index c7e80dd..119eafb 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -812,11 +812,9 @@ class PSFTableEstimator(DiscretePDFComponentEstimator):
 
         psf = np.swapaxes(psf, axis, -1)
 
-        if interpolator_kwargs is None:
-            interpolator_kwargs = {}
-
-        if extrapolator_kwargs is None:
-            extrapolator_kwargs = {}
+        # do not modify the user provided dictionaries
+        interpolator_kwargs = dict(interpolator_kwargs or {})
+        extrapolator_kwargs = dict(extrapolator_kwargs or {})
 
         interpolator_kwargs.setdefault(
             "normalization", PDFNormalization.CONE_SOLID_ANGLE
-- 
2.43.0


From 9629605fdce877255401da522fc7f21261523caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 20/41] fix: support empty psfs with moment morphing in
 PSFTableEstimator

The inter- and extrapolators expect plain arrays, replacing empty templates
in the moment morphing raised an UnitConversionError.
---
 pyirf/interpolation/component_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 119eafb..c5ac1f1 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -810,7 +810,7 @@ class PSFTableEstimator(DiscretePDFComponentEstimator):
 
         self.axis = axis
 
-        psf = np.swapaxes(psf, axis, -1)
+        psf = np.swapaxes(psf.to_value(u.sr**-1), axis, -1)
 
         # do not modify the user provided dictionaries
         interpolator_kwargs = dict(interpolator_kwargs or {})
-- 
2.43.0


From 37c8946d26712c59a6534e5f76b55a5066424b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 21/41] fix: support DiscretePDFNearestNeighborSearcher in
 PSFTableEstimator

The estimator always passes the normalization.
---
 pyirf/interpolation/nearest_neighbor_searcher.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/nearest_neighbor_searcher.py b/pyirf/interpolation/nearest_neighbor_searcher.py
index d1f368c..bca4553 100644
--- a/pyirf/interpolation/nearest_neighbor_searcher.py
+++ b/pyirf/interpolation/nearest_neighbor_searcher.py
@@ -5,6 +5,7 @@ from .base_interpolators import (
     BaseInterpolator,
     DiscretePDFInterpolator,
     ParametrizedInterpolator,
+    PDFNormalization,
 )
 
 __all__ = [
@@ -104,7 +105,14 @@ class DiscretePDFNearestNeighborSearcher(BaseNearestNeighborSearcher):
     Compatible with discretized PDF IRF component API.
     """
 
-    def __init__(self, grid_points, bin_edges, binned_pdf, norm_ord=2):
+    def __init__(
+        self,
+        grid_points,
+        bin_edges,
+        binned_pdf,
+        norm_ord=2,
+        normalization=PDFNormalization.AREA,
+    ):
         """
         NearestNeighborSearcher compatible with discretized PDF IRF components API
 
@@ -123,6 +131,8 @@ class DiscretePDFNearestNeighborSearcher(BaseNearestNeighborSearcher):
             Order of the norm which is used to compute the distances,
             passed to numpy.linalg.norm [1]. Defaults to 2,
             which uses the euclidean norm.
+        normalization: PDFNormalization
+            How the PDF is normalized. Ignored for nearest neighbor searching.
 
         Notes
         -----
-- 
2.43.0


From fd0e54fc8e267a35b14196637c0cf75b88586700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 22/41] fix: support one dimensional params in nearest neighbor
 searcher

---
 pyirf/interpolation/nearest_neighbor_searcher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/nearest_neighbor_searcher.py b/pyirf/interpolation/nearest_neighbor_searcher.py
index bca4553..930de65 100644
--- a/pyirf/interpolation/nearest_neighbor_searcher.py
+++ b/pyirf/interpolation/nearest_neighbor_searcher.py
@@ -95,7 +95,7 @@ class BaseNearestNeighborSearcher(BaseInterpolator):
 
         index = np.argmin(distances)
 
-        return self.values[index, :]
+        return self.values[index]
 
 
 class DiscretePDFNearestNeighborSearcher(BaseNearestNeighborSearcher):
@@ -174,6 +174,9 @@ class ParametrizedNearestNeighborSearcher(BaseNearestNeighborSearcher):
         Also calls pyirf.interpolation.BaseNearestNeighborSearcher.__init__
         """
 
+        if params.ndim == 1:
+            params = params[..., np.newaxis]
+
         super().__init__(grid_points=grid_points, values=params, norm_ord=norm_ord)
 
 
-- 
2.43.0


From d2c4b5137a80a8097e3a31cc22539560de4179dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 23/41] fix: IndexError in MomentMorphInterpolator for target
 at the last grid point

---
 pyirf/interpolation/moment_morph_interpolator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyirf/interpolation/moment_morph_interpolator.py b/pyirf/interpolation/moment_morph_interpolator.py
index 1388061..fbb6282 100644
--- a/pyirf/interpolation/moment_morph_interpolator.py
+++ b/pyirf/interpolation/moment_morph_interpolator.py
@@ -304,6 +304,8 @@ class MomentMorphInterpolator(DiscretePDFInterpolator):
         on this subset.
         """
         target_bin = np.digitize(target_point.squeeze(), self.grid_points.squeeze())
+        # target at the last grid point belongs to the last segment
+        target_bin = np.clip(target_bin, 1, self.n_points - 1)
         segment_inds = np.array([target_bin - 1, target_bin], "int")
         coefficients = linesegment_1D_interpolation_coefficients(
             grid_points=self.grid_points[segment_inds],
-- 
2.43.0


From 8661093df530d9dc1a78416db3fa6ccc8f3bc8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 24/41] fix: keep axes of length one in
 ParametrizedVisibleEdgesExtrapolator

Squeezing these axes resulted in outputs of wrong shape and wrong values due
to broadcasting.
---
 pyirf/interpolation/visible_edges_extrapolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyirf/interpolation/visible_edges_extrapolator.py b/pyirf/interpolation/visible_edges_extrapolator.py
index 114cc7c..2e1490c 100644
--- a/pyirf/interpolation/visible_edges_extrapolator.py
+++ b/pyirf/interpolation/visible_edges_extrapolator.py
@@ -186,7 +186,7 @@ class ParametrizedVisibleEdgesExtrapolator(ParametrizedNearestSimplexExtrapolato
                     [
                         extrapolate2D(
                             self.triangulation.simplices[ind], target_point
-                        ).squeeze()
+                        )[0]
                         for ind in visible_simplices_indices
                     ]
                 )
-- 
2.43.0


From f58c10e5313b5377e749a1a091d5b5cda34676a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 25/41] fix: keep the gaussian bump in
 PowerLawWithExponentialGaussian.integrate_cone

---
 pyirf/spectral.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pyirf/spectral.py b/pyirf/spectral.py
index d8d66c0..9367659 100644
--- a/pyirf/spectral.py
+++ b/pyirf/spectral.py
@@ -286,6 +286,21 @@ class PowerLawWithExponentialGaussian(PowerLaw):
         gauss = f"Gauss(log10(E / {self.e_ref}), {self.mu}, {self.sigma})"
         return s[:-1] + f" * (1 + {self.f} * (exp({gauss}) - 1))"
 
+    def integrate_cone(self, inner, outer):
+        """Integrate this spectrum over solid angle in the given cone
+
+        See `PowerLaw.integrate_cone`
+        """
+        integrated = super().integrate_cone(inner, outer)
+        return PowerLawWithExponentialGaussian(
+            normalization=integrated.normalization,
+            index=self.index,
+            e_ref=self.e_ref,
+            f=self.f,
+            mu=self.mu,
+            sigma=self.sigma,
+        )
+
 
 class TableInterpolationSpectrum:
     """
-- 
2.43.0


From eb3f4bc8ad958bd49632afe3cf42adeec25701fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 26/41] fix: fill value handling of RadMaxEstimator for
 unsorted one dimensional grids

The rad max values were not sorted together with the grid points.
---
 pyirf/interpolation/component_estimators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index c5ac1f1..ffc3f55 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -537,6 +537,10 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
             extrapolator_kwargs=extrapolator_kwargs,
         )
 
+        # the base class sorts the grid points in one dimension
+        if self.grid_dim == 1:
+            rad_max = rad_max[np.argsort(grid_points.squeeze())]
+
         self.params = rad_max
 
         if fill_value is None:
-- 
2.43.0


From 7f3c6dcca3cff536f42e77ffd5836e30c414b318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 27/41] fix: fill value handling of RadMaxEstimator at the last
 grid point and for 2d extrapolation

---
 pyirf/interpolation/component_estimators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index ffc3f55..adbd842 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -619,6 +619,8 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
                 target_bin = np.digitize(
                     target_point.squeeze(), self.grid_points.squeeze()
                 )
+                # target at the last grid point belongs to the last segment
+                target_bin = np.clip(target_bin, 1, self.n_points - 1)
                 segment_inds = np.array([target_bin - 1, target_bin], "int")
 
             mask_left = self.params[segment_inds[0]] >= self.fill_val
@@ -630,7 +632,9 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
             target_simplex = self.triangulation.find_simplex(target_point)
 
             if target_simplex == -1:
-                target_simplex = find_nearest_simplex(self.triangulation, target_point)
+                target_simplex = find_nearest_simplex(
+                    self.triangulation, target_point.squeeze()
+                )
 
             simplex_nodes_indices = self.triangulation.simplices[
                 target_simplex
-- 
2.43.0


From 291eb5e8927a84393579c3c81033d215c2c50fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 28/41] fix: RadMaxEstimator modified the rad max values
 in-place for nearest neighbors

---
 pyirf/interpolation/component_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index adbd842..b342a99 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -581,7 +581,7 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
         # First, construct estimation without handling fill-values
         full_estimation = super().__call__(target_point)
         # Safeguard against extreme extrapolation cases
-        np.clip(full_estimation, 0, None, out=full_estimation)
+        full_estimation = np.clip(full_estimation, 0, None)
 
         # Early exit if fill_values should not be handled
         if not self.fill_val:
-- 
2.43.0


From cfc74c5d4d3b3f2eb0549882baeddfb02f0a56cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 29/41] fix: handle fill values of extrapolated rad max also if
 nearest neighbors are used for interpolation

---
 pyirf/interpolation/component_estimators.py | 25 ++++++++++++---------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index b342a99..47dcccc 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -591,21 +591,24 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
         # Complex setup is needed to catch settings where the user mixes approaches and
         # e.g. uses nearest neighbors for extrapolation and an actual interpolation otherwise
         if self.grid_dim == 1:
-            if (
-                (target_point < self.grid_points.min())
-                or (target_point > self.grid_points.max())
-            ) and issubclass(self.extrapolator.__class__, BaseNearestNeighborSearcher):
-                return full_estimation
-            elif issubclass(self.interpolator.__class__, BaseNearestNeighborSearcher):
+            if (target_point < self.grid_points.min()) or (
+                target_point > self.grid_points.max()
+            ):
+                used_estimator = self.extrapolator
+            else:
+                used_estimator = self.interpolator
+
+            if issubclass(used_estimator.__class__, BaseNearestNeighborSearcher):
                 return full_estimation
         elif self.grid_dim == 2:
             target_simplex = self.triangulation.find_simplex(target_point)
 
-            if (target_simplex == -1) and issubclass(
-                self.extrapolator.__class__, BaseNearestNeighborSearcher
-            ):
-                return full_estimation
-            elif issubclass(self.interpolator.__class__, BaseNearestNeighborSearcher):
+            if target_simplex == -1:
+                used_estimator = self.extrapolator
+            else:
+                used_estimator = self.interpolator
+
+            if issubclass(used_estimator.__class__, BaseNearestNeighborSearcher):
                 return full_estimation
 
         # Actual fill-value handling
-- 
2.43.0


From 4a82eb3c197e85fb2e7162ea67d3e9d335e6db3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 30/41] fix: quantile interpolation with non-uniform bins

The density obtained from the interpolated ppf was treated as probability per
bin, distorting the interpolated pdf by the width of the bins, so that not even identical
templates were reproduced.
---
 pyirf/interpolation/quantile_interpolator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyirf/interpolation/quantile_interpolator.py b/pyirf/interpolation/quantile_interpolator.py
index 9b3106a..d1fe246 100644
--- a/pyirf/interpolation/quantile_interpolator.py
+++ b/pyirf/interpolation/quantile_interpolator.py
@@ -1,6 +1,7 @@
 import numpy as np
 from scipy.interpolate import griddata, interp1d
 
+from ..binning import bin_center
 from .base_interpolators import DiscretePDFInterpolator, PDFNormalization
 from .utils import get_bin_width
 
@@ -137,12 +138,17 @@ def norm_pdf(pdf_values, bin_edges, normalization):
     """
     Normalize binned_pdf to a sum of 1
     """
-    norm = np.sum(pdf_values, axis=-1)
+    # The cdf values are located at the bin mids, so that the pdf values are the
+    # densities in between the mids, including the extra bin introduced to the left
+    mids = bin_center(np.append(bin_edges[0] - np.diff(bin_edges)[0], bin_edges))
+    probability = pdf_values * np.diff(mids)
+
+    norm = np.sum(probability, axis=-1)
     width = get_bin_width(bin_edges, normalization)
 
     # Norm all binned_pdfs to unity that are not empty
     normed_pdf_values = np.divide(
-        pdf_values,
+        probability,
         norm[..., np.newaxis] * width,
         out=np.zeros_like(pdf_values),
         where=norm[..., np.newaxis] != 0,
-- 
2.43.0


From c9d0d61871b86f996cef23cefab089f2ad231604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 31/41] fix: integer overflow of estimated number of showers in
 read_eventdisplay_fits

---
 pyirf/io/eventdisplay.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyirf/io/eventdisplay.py b/pyirf/io/eventdisplay.py
index a46054c..d244e43 100644
--- a/pyirf/io/eventdisplay.py
+++ b/pyirf/io/eventdisplay.py
@@ -59,7 +59,9 @@ def read_eventdisplay_fits(infile, use_histogram=True):
     n_runs = len(unique(events[['obs_id', 'pointing_az', 'pointing_alt']]))
     log.info(f"Estimated number of runs from obs ids and pointing position: {n_runs}")
 
-    n_showers_guessed = n_runs * run_header["num_use"] * run_header["num_showers"]
+    n_showers_guessed = (
+        n_runs * int(run_header["num_use"]) * int(run_header["num_showers"])
+    )
     n_showers_hist = int(sim_events["EVENTS"].sum())
 
     if use_histogram:
-- 
2.43.0


From 7a0d8d61ccccc5d724ea3b9f5a48da9d766cc9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 32/41] fix: empty true energy bins stay empty when converting
 dispersion to migration

Resampling leaves values of the order of rounding errors in bins without
entries, which were then normalized to a sum of one.
---
 pyirf/irf/energy_dispersion.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyirf/irf/energy_dispersion.py b/pyirf/irf/energy_dispersion.py
index f34c354..2036720 100644
--- a/pyirf/irf/energy_dispersion.py
+++ b/pyirf/irf/energy_dispersion.py
@@ -189,8 +189,11 @@ def energy_dispersion_to_migration(
     )
 
     norm = np.sum(true_energy_interpolation, axis=1, keepdims=True)
-    norm[norm == 0] = 1
-    true_energy_interpolation /= norm
+    # bins without entries are only zero up to rounding errors of the resampling
+    empty = np.abs(norm) <= 1e-10 * np.abs(probability).sum(axis=(0, 1))
+    true_energy_interpolation = np.where(
+        empty, 0, true_energy_interpolation / np.where(empty, 1, norm)
+    )
 
     for idx, e_true in enumerate(
         (new_true_energy_edges[1:] + new_true_energy_edges[:-1]) / 2
-- 
2.43.0


From a55ea71116e2de51055f0d32d927df9c34233984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 33/41] fix: distance to nearly vertical line segments in
 plumb_point_dist

The position of the foot point was computed from the first coordinate even
if the segment extends only by rounding errors along it.
---
 pyirf/interpolation/utils.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pyirf/interpolation/utils.py b/pyirf/interpolation/utils.py
index b71adcd..1556d7e 100644
--- a/pyirf/interpolation/utils.py
+++ b/pyirf/interpolation/utils.py
@@ -43,15 +43,10 @@ def plumb_point_dist(line, target):
     F2 = B + np.dot(P - B, A - B) * (A - B) / np.dot(A - B, A - B)
 
     # Find, at which parameter value r1/r2 the plumb point lies on line F1/F2
-    if B[0] - A[0] == 0:
-        r1 = (F1[1] - A[1]) / (B[1] - A[1])
-    else:
-        r1 = (F1[0] - A[0]) / (B[0] - A[0])
-
-    if A[0] - B[0] == 0:
-        r2 = (F2[1] - B[1]) / (A[1] - B[1])
-    else:
-        r2 = (F2[0] - B[0]) / (A[0] - B[0])
+    # Use the coordinate with the largest extent, others might be (nearly) constant
+    axis = np.argmax(np.abs(B - A))
+    r1 = (F1[axis] - A[axis]) / (B[axis] - A[axis])
+    r2 = (F2[axis] - B[axis]) / (A[axis] - B[axis])
 
     # If |r1| + |r2| == 1, the plomb point lies between A and B, thus the
     # distance is the seareched one. In cases where the plumb point is A or B
-- 
2.43.0


From 419d75cb53bb0ea2910b88e2fa39211ac56e1ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 34/41] fix: find facets visible from targets near to the
 convex hull

A target inside of the circumcircle of a simplex at the hull removes the
facet next to it from the triangulation including the target, edges inside
of the grid were used instead. Extrapolations were thus discontinuous at
the border of the grid.
---
 .../visible_edges_extrapolator.py             | 50 +++++++++----------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/pyirf/interpolation/visible_edges_extrapolator.py b/pyirf/interpolation/visible_edges_extrapolator.py
index 2e1490c..7c7e55c 100644
--- a/pyirf/interpolation/visible_edges_extrapolator.py
+++ b/pyirf/interpolation/visible_edges_extrapolator.py
@@ -16,9 +16,8 @@ def find_visible_facets(grid_points, target_point):
     """
     Find all facets of a convex hull visible from an outside point.
     
-    To do so, this function constructs a triangulation containing
-    the target point and returns all facets that span a triangulation simplex with
-    it.
+    To do so, this function constructs a triangulation of the grid and returns
+    all facets of its convex hull that have the target point on their outer side.
 
     Parameters
     ----------
@@ -34,27 +33,25 @@ def find_visible_facets(grid_points, target_point):
         L visible facets, spanned by a simplex in M-1 dimensions
         (thus a line for M=2)
     """
-    # Build a triangulation including the target point
-    full_set = np.vstack((grid_points, target_point))
-    triag = Delaunay(full_set)
-
-    # The target point is included in a simplex with all facets
-    # visible by it
-    simplices = triag.points[triag.simplices]
-    matches_target = np.all(simplices == target_point, axis=-1)
-    target_in_simplex = np.any(matches_target, axis=-1)
-
-    # The visible facets are spanned by those points in the matched
-    # simplices that are not the target
-    facet_point_mask = ~matches_target[target_in_simplex]
-    visible_facets = np.array(
-        [
-            triag.points[simplex[mask]]
-            for simplex, mask in zip(
-                triag.simplices[target_in_simplex], facet_point_mask
-            )
-        ]
-    )
+    # A facet of the convex hull is visible, if target and grid are on opposite
+    # sides of it
+    triag = Delaunay(grid_points)
+    # in the order of the grid points
+    facets = triag.points[np.unique(np.sort(triag.convex_hull, axis=-1), axis=0)]
+
+    start = facets[:, 0]
+    direction = facets[:, 1] - start
+    normal = np.stack((-direction[:, 1], direction[:, 0]), axis=-1)
+
+    to_target = np.asarray(target_point).reshape(1, -1) - start
+    to_grid = triag.points.mean(axis=0) - start
+    height = np.sum(normal * to_target, axis=-1)
+    inside = np.sum(normal * to_grid, axis=-1)
+
+    # facets seen from the side do not count
+    scale = np.linalg.norm(normal, axis=-1) * np.linalg.norm(to_target, axis=-1)
+    visible = (height * np.sign(inside) < 0) & (np.abs(height) > 1e-12 * scale)
+    visible_facets = facets[visible]
 
     return visible_facets
 
@@ -88,7 +85,8 @@ def compute_extrapolation_weights(visible_facet_points, target_point, m):
             for line in visible_facet_points
         ]
     )
-    weights = np.arccos(angles) ** (m + 1)
+    # cosines can exceed one by rounding errors
+    weights = np.arccos(np.clip(angles, -1, 1)) ** (m + 1)
 
     return weights / weights.sum()
 
@@ -155,7 +153,7 @@ class ParametrizedVisibleEdgesExtrapolator(ParametrizedNearestSimplexExtrapolato
         elif self.grid_dim == 2:
             visible_facet_points = find_visible_facets(self.grid_points, target_point)
 
-            if visible_facet_points.shape[0] == 1:
+            if visible_facet_points.shape[0] <= 1:
                 return super().extrapolate(target_point)
             else:
                 simplices_points = self.triangulation.points[
-- 
2.43.0


From 0bc719b2eccb717b1c07ffb6fe73bd91a1825f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 35/41] fix: estimators of discrete pdfs with nearest neighbor
 search and positive axis

The result of the nearest neighbor searcher has no grid axis, so that a
positive axis refers to the wrong one.
---
 pyirf/interpolation/component_estimators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 47dcccc..b1dda24 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -733,7 +733,8 @@ class EnergyDispersionEstimator(DiscretePDFComponentEstimator):
         and pyirf.interpolation.ParametrizedEstimator
         """
 
-        self.axis = axis
+        # count from the end, also valid for results without the grid axis
+        self.axis = axis if axis < 0 else axis - np.ndim(energy_dispersion)
 
         super().__init__(
             grid_points=grid_points,
@@ -819,7 +820,8 @@ class PSFTableEstimator(DiscretePDFComponentEstimator):
         and pyirf.interpolation.ParametrizedEstimator
         """
 
-        self.axis = axis
+        # count from the end, also valid for results without the grid axis
+        self.axis = axis if axis < 0 else axis - np.ndim(psf)
 
         psf = np.swapaxes(psf.to_value(u.sr**-1), axis, -1)
 
-- 
2.43.0


From 09fbff63d6f12d5061157e8cda66306cf18e3e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:16 +0000
Subject: [PATCH 36/41] Revert "fix: take first migration bin into account in
 energy_bias_resolution_from_energy_dispersion"

This reverts commit e7c1b667f65242ec7a13f464d23bd9fcefe762eb.
---
 pyirf/benchmarks/energy_bias_resolution.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyirf/benchmarks/energy_bias_resolution.py b/pyirf/benchmarks/energy_bias_resolution.py
index 6aa4ae3..4479549 100644
--- a/pyirf/benchmarks/energy_bias_resolution.py
+++ b/pyirf/benchmarks/energy_bias_resolution.py
@@ -136,8 +136,6 @@ def energy_bias_resolution_from_energy_dispersion(
 
     bin_width = np.diff(migration_bins)
     cdf = np.cumsum(energy_dispersion * bin_width[np.newaxis, :, np.newaxis], axis=1)
-    # cdf is 0 at the lower edge of the first bin
-    cdf = np.insert(cdf, 0, 0, axis=1)
 
     n_energy_bins, _, n_fov_bins = energy_dispersion.shape
 
@@ -152,7 +150,7 @@ def energy_bias_resolution_from_energy_dispersion(
             low, median, high = np.interp(
                 [NORM_LOWER_SIGMA, MEDIAN, NORM_UPPER_SIGMA],
                 cdf[energy_bin, :, fov_bin],
-                migration_bins,
+                migration_bins[1:],  # cdf is defined at upper bin edge
             )
             bias[energy_bin, fov_bin] = median - 1
             resolution[energy_bin, fov_bin] = 0.5 * (high - low)
-- 
2.43.0


From b5aded92486c0c8b4ec778a39be9a6a225bb70a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 37/41] fix: raise WrongColumnUnit in check_table for columns
 without unit

---
 pyirf/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyirf/utils.py b/pyirf/utils.py
index e1d41c6..a0b0f3f 100644
--- a/pyirf/utils.py
+++ b/pyirf/utils.py
@@ -243,5 +243,5 @@ def check_table(table, required_columns=None, required_units=None):
                 raise MissingColumns(col)
 
             unit = table[col].unit
-            if not expected.is_equivalent(unit):
+            if unit is None or not expected.is_equivalent(unit):
                 raise WrongColumnUnit(col, unit, expected)
-- 
2.43.0


From c08696b8c680552cfa2cbdb9beeb5bd925d0813c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:55 +0000
Subject: [PATCH 38/41] fix: reject bin edges that do not match also in units
 with small values in join_bin_lo_hi

The absolute tolerance of np.allclose is in the unit of the edges, so that
any energies in J matched.
---
 pyirf/binning.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyirf/binning.py b/pyirf/binning.py
index 87882c4..3c3a3d9 100644
--- a/pyirf/binning.py
+++ b/pyirf/binning.py
@@ -39,7 +39,12 @@ def join_bin_lo_hi(bin_lo, bin_hi):
         The joint bins
     """
 
-    if np.allclose(bin_lo[..., 1:], bin_hi[..., :-1], rtol=1.0e-5):
+    lower, upper = bin_lo[..., 1:], bin_hi[..., :-1]
+    # edges at zero only agree within a small fraction of the bin width
+    width = np.minimum(bin_hi[..., 1:] - lower, upper - bin_lo[..., :-1])
+    atol = 1.0e-8 * np.nan_to_num(width, posinf=0)
+
+    if np.all(np.isclose(lower, upper, rtol=1.0e-5, atol=atol)):
         last_axis = len(bin_lo.shape) - 1
         bins = np.concatenate((bin_lo, bin_hi[..., -1:]), axis=last_axis)
         return bins
-- 
2.43.0


From adc9970498c76ba32530842bdc96b389d5dbb002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:36 +0000
Subject: [PATCH 39/41] fix: identify templates with one filled bin also with
 rounding errors in moment morphing

---
 pyirf/interpolation/moment_morph_interpolator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyirf/interpolation/moment_morph_interpolator.py b/pyirf/interpolation/moment_morph_interpolator.py
index fbb6282..bb7f3d8 100644
--- a/pyirf/interpolation/moment_morph_interpolator.py
+++ b/pyirf/interpolation/moment_morph_interpolator.py
@@ -45,9 +45,9 @@ def _estimate_mean_std(bin_edges, binned_pdf, normalization):
     )
 
     # Set std to 0.5*width for all those templates that have only one bin =/= 0. In those
-    # cases mids-mean = 0 and therefore std = 0. Uses the width of the one bin with
-    # binned_pdf!=0
-    mask = std == 0
+    # cases mids-mean = 0 and therefore std = 0, up to rounding errors. Uses the width of
+    # the one bin with binned_pdf!=0
+    mask = np.count_nonzero(binned_pdf, axis=-1) == 1
     if np.any(mask):
         width = np.diff(bin_edges)
         # std of a uniform distribution inside the bin
-- 
2.43.0


From 98ab1f2c1fc13245692778134f6f93bb118391b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:18 +0000
Subject: [PATCH 40/41] fix: support particle types of which no event passes
 some of the cuts in cut optimization

---
 pyirf/cut_optimization.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pyirf/cut_optimization.py b/pyirf/cut_optimization.py
index dfdf4c4..ccad238 100644
--- a/pyirf/cut_optimization.py
+++ b/pyirf/cut_optimization.py
@@ -17,6 +17,21 @@ __all__ = [
 ]
 
 
+def _add_missing_columns(tables):
+    """Give all sensitivity tables the same columns
+
+    Tables only have counts for those particle types of which events passed the cuts,
+    counts of other particle types are zero.
+    """
+    columns = {col: table[col] for table in tables for col in table.colnames}
+
+    for table in tables:
+        for col in columns.keys() - set(table.colnames):
+            table[col] = np.zeros_like(columns[col])
+
+    return [table[list(columns)] for table in tables]
+
+
 def optimize_cuts(
     signal,
     background,
@@ -182,6 +197,7 @@ def optimize_cuts(
     best_theta_cut["cut"].unit = theta_cuts["cut"].unit
     best_theta_cut["efficiency"] = np.nan
 
+    sensitivities = _add_missing_columns(sensitivities)
     best_sensitivity = sensitivities[0].copy()
     for bin_id in range(len(reco_energy_bins) - 1):
         sensitivities_bin = [s["relative_sensitivity"][bin_id] for s in sensitivities]
@@ -329,6 +345,7 @@ def optimize_gh_cut(
     best_cut_table["cut"] = np.nan
     best_cut_table["efficiency"] = np.nan
 
+    sensitivities = _add_missing_columns(sensitivities)
     best_sensitivity = sensitivities[0].copy()
     for bin_id in range(len(reco_energy_bins) - 1):
         sensitivities_bin = [s["relative_sensitivity"][bin_id] for s in sensitivities]
-- 
2.43.0


From 4471f942dcbe4a565d89aa65e06114673134f13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:18 +0000
Subject: [PATCH 41/41] fix: only treat templates without content as empty in
 moment morphing

Densities below 1e-8, as for bin edges with large numbers (energies in eV), were
treated as empty and the result was zero.
---
 pyirf/interpolation/moment_morph_interpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyirf/interpolation/moment_morph_interpolator.py b/pyirf/interpolation/moment_morph_interpolator.py
index bb7f3d8..a827627 100644
--- a/pyirf/interpolation/moment_morph_interpolator.py
+++ b/pyirf/interpolation/moment_morph_interpolator.py
@@ -209,7 +209,7 @@ def moment_morph_estimation(bin_edges, binned_pdf, coefficients, normalization):
     bin_mids = bin_center(bin_edges)
 
     # Catch all those templates, where at least one template histogram is all zeros.
-    zero_templates = ~np.all(~np.isclose(np.sum(binned_pdf, axis=-1), 0), 0)
+    zero_templates = ~np.all(np.any(binned_pdf != 0, axis=-1), 0)
 
     # Manipulate those templates so that computations pass without error
     binned_pdf[:, zero_templates] = np.full(len(bin_mids), 1 / len(bin_mids))
-- 
2.43.0

