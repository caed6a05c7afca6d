From 36c6bae6603407d4e2019daf6a799c3b3af04e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 01/10] fix: write the number of data lines in the SWMF header

---
 starwinds_magnetogram/reader_writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/reader_writer.py b/starwinds_magnetogram/reader_writer.py
index 6a4d09b..e77cd1d 100644
--- a/starwinds_magnetogram/reader_writer.py
+++ b/starwinds_magnetogram/reader_writer.py
@@ -103,12 +103,14 @@ def write_magnetogram_file(coefficient_sets, file_name, degree_max=None, order_m
         # coefficient_data_lines.append(["%3d  %3d  %13e  %13e" % (d, m, np.real(data), np.imag(data)) for
         #                       (d, m, data) in zip(*coefficients.as_arrays(degree_l_max=degree_max,
         #                                                                   order_m_min=order_min))])
+        data_lines = []
         for d, m, data in zip(*coefficients.as_arrays(degree_l_max=degree_max,
                                                             order_m_min=order_min)):
             
             assert len(data) == 1, "Expected single complex coefficient"
             data = data[0]
-            coefficient_data_lines.append(["%3d  %3d  %13e  %13e" % (d, m, np.real(data), np.imag(data))])        
+            data_lines.append("%3d  %3d  %13e  %13e" % (d, m, np.real(data), np.imag(data)))
+        coefficient_data_lines.append(data_lines)
 
 
     if write_swmf_header:
-- 
2.43.0


From 2d3b0021b778f32b3f9fab05992171b150256424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:30 +0000
Subject: [PATCH 02/10] fix: use the default PFSS source surface radius when
 converting back to ZDI

---
 starwinds_magnetogram/converter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/converter.py b/starwinds_magnetogram/converter.py
index 319dc01..2e8a487 100644
--- a/starwinds_magnetogram/converter.py
+++ b/starwinds_magnetogram/converter.py
@@ -126,7 +126,10 @@ def convert_zdi_to_pfss(zdi_radial_coeffs):
 
 
 def _beta_inverse_conversion_factor(degree_l, order_m):
-    R, _ = pfss_magnetogram.r_l(degree_l, 1, 1, 3)
+    R, _ = pfss_magnetogram.r_l(degree_l,
+                                pfss_magnetogram.default_radius_star,
+                                pfss_magnetogram.default_radius_star,
+                                pfss_magnetogram.default_radius_source_surface)
     return R * (degree_l + 1)
 
 
-- 
2.43.0


From 33b3ceb1af77c1d5b6bc5bd632587e0ce2cd3bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:45 +0000
Subject: [PATCH 03/10] fix: Cartesian poloidal and toroidal fields add up to
 the full Cartesian field

---
 starwinds_magnetogram/zdi_magnetogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index 18b37cd..c4df137 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -560,7 +560,7 @@ class ZdiMagnetogram:
         """
         # Field components in spherical coordinates
         frpa = [self.get_radial_poloidal_field(points_polar, points_azimuth),
-                self.get_polar_poloidal_field(points_polar, points_azimuth),
+                self.get_polar_poloidal_field_new(points_polar, points_azimuth),
                 self.get_azimuthal_poloidal_field(points_polar, points_azimuth)]
 
         return _cartesian_from_spherical_helper(*frpa, points_polar, points_azimuth)
@@ -572,7 +572,7 @@ class ZdiMagnetogram:
         # Field components in spherical coordinates
         frpa = [self.get_radial_toroidal_field(points_polar, points_azimuth),
                 self.get_polar_toroidal_field(points_polar, points_azimuth),
-                self.get_azimuthal_toroidal_field(points_polar, points_azimuth)]
+                self.get_azimuthal_toroidal_field_new(points_polar, points_azimuth)]
 
         return _cartesian_from_spherical_helper(*frpa, points_polar, points_azimuth)
 
-- 
2.43.0


From 3e993231884c253a7631a81075697e80233f992d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:45 +0000
Subject: [PATCH 04/10] fix: allow magnetograms without an axisymmetric dipole
 coefficient in energy()

---
 starwinds_magnetogram/zdi_magnetogram.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index c4df137..59ce01a 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -451,8 +451,9 @@ class ZdiMagnetogram:
             
             symdipfrac_numerator = (energy_alpha + energy_beta)[np.logical_and(self.degrees_l == 1, self.orders_m == 0)]
             symdipfrac_denominator = np.sum((energy_alpha + energy_beta)[self.degrees_l == 1])
-            assert len(symdipfrac_numerator) == 1
-            symdipfrac_numerator = symdipfrac_numerator[0]
+            # There is at most one term; there is none if the magnetogram has no axisymmetric dipole coefficient.
+            assert len(symdipfrac_numerator) <= 1
+            symdipfrac_numerator = np.sum(symdipfrac_numerator)
             symdipfrac = symdipfrac_numerator / symdipfrac_denominator 
 
             dict_['magnetogram.total.energy.dipole.axisymmetric.fraction'] = symdipfrac
-- 
2.43.0


From adb0c11f3259ba341cea01db0d5c2a2436d2d4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:45 +0000
Subject: [PATCH 05/10] fix: ParkerSolution speed() and density() do not
 overwrite the caller's radii

---
 starwinds_magnetogram/parker_solution.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/starwinds_magnetogram/parker_solution.py b/starwinds_magnetogram/parker_solution.py
index 0051dd6..3e8eb85 100644
--- a/starwinds_magnetogram/parker_solution.py
+++ b/starwinds_magnetogram/parker_solution.py
@@ -99,8 +99,7 @@ class ParkerSolution(AnalyticBase):
         :param radii:
         :return:
         """
-        radii = np.atleast_1d(radii)
-        radii[np.where(radii <= self.stellar_radius)] = self.stellar_radius
+        radii = np.maximum(np.atleast_1d(radii), self.stellar_radius)
 
         speeds_dimensionless = self.find_parker_analytic(radii / self.radius_sonic)
         speeds = speeds_dimensionless * self.speed_sonic
@@ -112,8 +111,7 @@ class ParkerSolution(AnalyticBase):
         :param radii:
         :return:
         """
-        radii = np.atleast_1d(radii)
-        radii[np.where(radii <= self.stellar_radius)] = self.stellar_radius
+        radii = np.maximum(np.atleast_1d(radii), self.stellar_radius)
 
         speeds = self.speed(radii)
         densities = self.base_density * \
-- 
2.43.0


From 04ac6518947bdb4dd9b731a1dbb1aac9c521bdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:45 +0000
Subject: [PATCH 06/10] fix: longitudinal field is not truncated when azimuths
 are integers

---
 starwinds_magnetogram/longitudinal_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/longitudinal_field.py b/starwinds_magnetogram/longitudinal_field.py
index 569a3e9..0a72668 100644
--- a/starwinds_magnetogram/longitudinal_field.py
+++ b/starwinds_magnetogram/longitudinal_field.py
@@ -21,7 +21,7 @@ def get_longitudinal_field_curve(zdi_geometry, zdi_magnetogram, observer_polar,
     if observer_azimuths is None:
         observer_azimuths = np.deg2rad(np.linspace(0, 360, zdi_geometry.shape[0]))
 
-    longitudinal_fields = np.empty_like(observer_azimuths)
+    longitudinal_fields = np.empty_like(observer_azimuths, dtype=float)
 
     areas = zdi_geometry.areas()
 
-- 
2.43.0


From 9e26811f64e581b50cb1188deaf19b60eda4a4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:57 +0000
Subject: [PATCH 07/10] fix: wavelength intervals neither span a gap nor drop
 the last sample

---
 starwinds_magnetogram/plot_lsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/plot_lsd.py b/starwinds_magnetogram/plot_lsd.py
index d27ac0b..943f39b 100644
--- a/starwinds_magnetogram/plot_lsd.py
+++ b/starwinds_magnetogram/plot_lsd.py
@@ -39,10 +39,10 @@ def wl_intervals(wavelengths, threshold=0.2):
     abs_diffs = np.abs(np.diff(wavelengths))
     skips = np.where(abs_diffs > threshold)[0]
     print(skips)
-    interval_starts = np.concatenate(([0],skips))
+    interval_starts = np.concatenate(([0], skips + 1))
     interval_ends = np.concatenate(
         (skips + 1,
-         np.array([len(wavelengths)-1])))
+         np.array([len(wavelengths)])))
     return zip(interval_starts, interval_ends)
 
 
-- 
2.43.0


From 9ba70d2c48b9db07c9746ecc5fe6bfe08cf73eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:09 +0000
Subject: [PATCH 08/10] fix: do not overwrite the input magnetogram through a
 differently spelled path

---
 starwinds_magnetogram/bin/convert_magnetogram.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/bin/convert_magnetogram.py b/starwinds_magnetogram/bin/convert_magnetogram.py
index 4b563fd..64a5d6e 100644
--- a/starwinds_magnetogram/bin/convert_magnetogram.py
+++ b/starwinds_magnetogram/bin/convert_magnetogram.py
@@ -104,7 +104,8 @@ def _make_output_filename(input_file, output_name, postfix):
         if os.path.exists(output_name):
             raise ValueError(f"Output file {output_name} already exists. Please specify a different output file name.")
 
-    if input_file == output_name:
+    # The same file can be reached by differently spelled paths and through links.
+    if input_file == output_name or (os.path.exists(output_name) and os.path.samefile(input_file, output_name)):
         raise ValueError("Input and output file names are the same. Please provide a (different) output file name.")
 
     return output_name
-- 
2.43.0


From e6fa8f4aea38884b6a030d62bd5bee171871e4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:09 +0000
Subject: [PATCH 09/10] fix: label the polar and azimuthal components correctly
 in sw-plot-magnetogram

---
 starwinds_magnetogram/bin/plot_magnetogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/bin/plot_magnetogram.py b/starwinds_magnetogram/bin/plot_magnetogram.py
index 955d3e8..9682ef2 100644
--- a/starwinds_magnetogram/bin/plot_magnetogram.py
+++ b/starwinds_magnetogram/bin/plot_magnetogram.py
@@ -43,8 +43,8 @@ def main():
     _star_name = guess_star_name_from_filename(args.input_file)
 
     _getters = {'radial': (lz.get_radial_field, 'B_r'),
-                'polar': (lz.get_polar_field, r'B_\phi'),
-                'azimuthal': (lz.get_azimuthal_field, r'B_\theta'),
+                'polar': (lz.get_polar_field, r'B_\theta'),
+                'azimuthal': (lz.get_azimuthal_field, r'B_\phi'),
                 'strength': (lz.get_field_strength, '|B|')}
     _getters['azimuth'] = _getters['azimuthal']
 
-- 
2.43.0


From 8157dff157bdea7693cd2f324f89d505dd358e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 10/10] fix: energies are real also when rounding leaves an
 imaginary residue

---
 starwinds_magnetogram/zdi_magnetogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index 59ce01a..42521a4 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -512,7 +512,7 @@ class ZdiMagnetogram:
         if require_l_term:
             result *= self.degrees_l / (self.degrees_l + 1)
 
-        return np.real_if_close(result)
+        return np.real(result)
 
     def _dplm(self, p_lm, points_polar):
         """
-- 
2.43.0

