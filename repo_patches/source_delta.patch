From dce7d644dfe7f515fdb412d10c66a792394250af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:24 +0000
Subject: [PATCH 01/44] fix: count all data lines in the SWMF header

---
 starwinds_magnetogram/reader_writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/reader_writer.py b/starwinds_magnetogram/reader_writer.py
index 6a4d09b..aa5d52f 100644
--- a/starwinds_magnetogram/reader_writer.py
+++ b/starwinds_magnetogram/reader_writer.py
@@ -100,6 +100,7 @@ def write_magnetogram_file(coefficient_sets, file_name, degree_max=None, order_m
 
     coefficient_data_lines = []
     for coefficients in shc.hsplit(coefficient_sets):
+        data_lines = []
         # coefficient_data_lines.append(["%3d  %3d  %13e  %13e" % (d, m, np.real(data), np.imag(data)) for
         #                       (d, m, data) in zip(*coefficients.as_arrays(degree_l_max=degree_max,
         #                                                                   order_m_min=order_min))])
@@ -108,7 +109,8 @@ def write_magnetogram_file(coefficient_sets, file_name, degree_max=None, order_m
             
             assert len(data) == 1, "Expected single complex coefficient"
             data = data[0]
-            coefficient_data_lines.append(["%3d  %3d  %13e  %13e" % (d, m, np.real(data), np.imag(data))])        
+            data_lines.append("%3d  %3d  %13e  %13e" % (d, m, np.real(data), np.imag(data)))
+        coefficient_data_lines.append(data_lines)
 
 
     if write_swmf_header:
-- 
2.43.0


From d1345f1da5e73fc02d628938fb44efbe9cfae243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:24 +0000
Subject: [PATCH 02/44] fix: magnetogram energy without an axisymmetric dipole
 coefficient

---
 starwinds_magnetogram/zdi_magnetogram.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index 18b37cd..53d40aa 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -451,9 +451,7 @@ class ZdiMagnetogram:
             
             symdipfrac_numerator = (energy_alpha + energy_beta)[np.logical_and(self.degrees_l == 1, self.orders_m == 0)]
             symdipfrac_denominator = np.sum((energy_alpha + energy_beta)[self.degrees_l == 1])
-            assert len(symdipfrac_numerator) == 1
-            symdipfrac_numerator = symdipfrac_numerator[0]
-            symdipfrac = symdipfrac_numerator / symdipfrac_denominator 
+            symdipfrac = np.sum(symdipfrac_numerator) / symdipfrac_denominator
 
             dict_['magnetogram.total.energy.dipole.axisymmetric.fraction'] = symdipfrac
 
-- 
2.43.0


From 58756ee01487fdaeedd5b9be9df2c8600ff9ac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:24 +0000
Subject: [PATCH 03/44] fix: use the working field methods for cartesian
 poloidal and toroidal fields

---
 starwinds_magnetogram/zdi_magnetogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index 53d40aa..d81829c 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -558,7 +558,7 @@ class ZdiMagnetogram:
         """
         # Field components in spherical coordinates
         frpa = [self.get_radial_poloidal_field(points_polar, points_azimuth),
-                self.get_polar_poloidal_field(points_polar, points_azimuth),
+                self.get_polar_poloidal_field_new(points_polar, points_azimuth),
                 self.get_azimuthal_poloidal_field(points_polar, points_azimuth)]
 
         return _cartesian_from_spherical_helper(*frpa, points_polar, points_azimuth)
@@ -570,7 +570,7 @@ class ZdiMagnetogram:
         # Field components in spherical coordinates
         frpa = [self.get_radial_toroidal_field(points_polar, points_azimuth),
                 self.get_polar_toroidal_field(points_polar, points_azimuth),
-                self.get_azimuthal_toroidal_field(points_polar, points_azimuth)]
+                self.get_azimuthal_toroidal_field_new(points_polar, points_azimuth)]
 
         return _cartesian_from_spherical_helper(*frpa, points_polar, points_azimuth)
 
-- 
2.43.0


From 83764a1d90f4f20d1a78fb2e4a8d049387d81906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 04/44] fix: do not modify the radii given to the Parker
 solution

---
 starwinds_magnetogram/parker_solution.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/starwinds_magnetogram/parker_solution.py b/starwinds_magnetogram/parker_solution.py
index 0051dd6..3e8eb85 100644
--- a/starwinds_magnetogram/parker_solution.py
+++ b/starwinds_magnetogram/parker_solution.py
@@ -99,8 +99,7 @@ class ParkerSolution(AnalyticBase):
         :param radii:
         :return:
         """
-        radii = np.atleast_1d(radii)
-        radii[np.where(radii <= self.stellar_radius)] = self.stellar_radius
+        radii = np.maximum(np.atleast_1d(radii), self.stellar_radius)
 
         speeds_dimensionless = self.find_parker_analytic(radii / self.radius_sonic)
         speeds = speeds_dimensionless * self.speed_sonic
@@ -112,8 +111,7 @@ class ParkerSolution(AnalyticBase):
         :param radii:
         :return:
         """
-        radii = np.atleast_1d(radii)
-        radii[np.where(radii <= self.stellar_radius)] = self.stellar_radius
+        radii = np.maximum(np.atleast_1d(radii), self.stellar_radius)
 
         speeds = self.speed(radii)
         densities = self.base_density * \
-- 
2.43.0


From 5b607eaa3f3e6516e1d2805f450b56cd257ab100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:20 +0000
Subject: [PATCH 05/44] fix: finite Parker speed at the sonic point

---
 starwinds_magnetogram/parker_solution.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/parker_solution.py b/starwinds_magnetogram/parker_solution.py
index 3e8eb85..9bb3010 100644
--- a/starwinds_magnetogram/parker_solution.py
+++ b/starwinds_magnetogram/parker_solution.py
@@ -35,6 +35,10 @@ class AnalyticBase:
 
         _parker_rhs = cls.parker_rhs(radius_dimensionless)
 
+        # At the sonic point the argument is the branch point -1/e, where lambertw is nan. Rounding may
+        # also put the argument slightly beyond the branch point, so stay on the right side of it.
+        _argument = np.maximum(-np.exp(-_parker_rhs - 1), np.nextafter(-np.exp(-1), 0))
+
         w = np.nan
 
         branches = (0, -1)
@@ -46,10 +50,10 @@ class AnalyticBase:
                 return branches[1]
 
         if not all_sols:
-            w = np.sqrt(-lambertw(-np.exp(-_parker_rhs - 1), _branch(radius_dimensionless)))
+            w = np.sqrt(-lambertw(_argument, _branch(radius_dimensionless)))
             return np.real_if_close(w)
         else:
-            w = np.sqrt(-lambertw(-np.exp(-_parker_rhs - 1), branches))
+            w = np.sqrt(-lambertw(_argument, branches))
             w = np.real_if_close(w)
             return w[0], w[1]
 
-- 
2.43.0


From 853367c4c61e3dfb7a9d185d8d5da507f5003a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:20 +0000
Subject: [PATCH 06/44] fix: longitudinal field of integer observer azimuths is
 not truncated

---
 starwinds_magnetogram/longitudinal_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/longitudinal_field.py b/starwinds_magnetogram/longitudinal_field.py
index 569a3e9..ebf028c 100644
--- a/starwinds_magnetogram/longitudinal_field.py
+++ b/starwinds_magnetogram/longitudinal_field.py
@@ -21,7 +21,7 @@ def get_longitudinal_field_curve(zdi_geometry, zdi_magnetogram, observer_polar,
     if observer_azimuths is None:
         observer_azimuths = np.deg2rad(np.linspace(0, 360, zdi_geometry.shape[0]))
 
-    longitudinal_fields = np.empty_like(observer_azimuths)
+    longitudinal_fields = np.empty(len(observer_azimuths))
 
     areas = zdi_geometry.areas()
 
-- 
2.43.0


From 1f2b0dbbb78bcf306845f99edab7bc0ea50645d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:20 +0000
Subject: [PATCH 07/44] fix: refuse an output name that is another name for the
 input file

---
 starwinds_magnetogram/bin/convert_magnetogram.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/bin/convert_magnetogram.py b/starwinds_magnetogram/bin/convert_magnetogram.py
index 4b563fd..d50a87b 100644
--- a/starwinds_magnetogram/bin/convert_magnetogram.py
+++ b/starwinds_magnetogram/bin/convert_magnetogram.py
@@ -104,7 +104,8 @@ def _make_output_filename(input_file, output_name, postfix):
         if os.path.exists(output_name):
             raise ValueError(f"Output file {output_name} already exists. Please specify a different output file name.")
 
-    if input_file == output_name:
+    # The names can differ and still refer to the same file, e.g. "./a.dat" and "a.dat" or a link.
+    if input_file == output_name or (os.path.exists(output_name) and os.path.samefile(input_file, output_name)):
         raise ValueError("Input and output file names are the same. Please provide a (different) output file name.")
 
     return output_name
-- 
2.43.0


From 4d3e8524f660fd5b44a406241c406b3c8ccf7e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:20 +0000
Subject: [PATCH 08/44] fix: plot a single LSD parameter

---
 starwinds_magnetogram/bin/plot_lsd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/bin/plot_lsd.py b/starwinds_magnetogram/bin/plot_lsd.py
index 172e915..3b629b6 100644
--- a/starwinds_magnetogram/bin/plot_lsd.py
+++ b/starwinds_magnetogram/bin/plot_lsd.py
@@ -27,7 +27,8 @@ def main():
     base_data = np.genfromtxt(args.input_file, skip_header=args.skip_rows)
 
     parameters = args.params
-    _, axs = plt.subplots(len(parameters), figsize=(8, 6), sharex=True)
+    _, axs = plt.subplots(len(parameters), figsize=(8, 6), sharex=True, squeeze=False)
+    axs = axs.flatten()
     plot_lsd.plot_lsd_profile(base_data, parameters=parameters)
     axs[0].set_title('Data in %s' % args.input_file)
 
-- 
2.43.0


From 48df1d27b6b50b4dd686eb36959522be0e46a7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:20 +0000
Subject: [PATCH 09/44] fix: plot a stack of a single LSD profile

---
 starwinds_magnetogram/plot_lsd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/plot_lsd.py b/starwinds_magnetogram/plot_lsd.py
index d27ac0b..7f64b70 100644
--- a/starwinds_magnetogram/plot_lsd.py
+++ b/starwinds_magnetogram/plot_lsd.py
@@ -110,7 +110,8 @@ def plot_lsd_stack(data_stack, name_stack, y_lim=None):
     axs = fig.axes
     if len(fig.axes) != len(data_stack):
         log.debug('Create new plot with %d subplots' % len(data_stack))
-        fig, axs = plt.subplots(len(data_stack), figsize=(12, len(data_stack)), sharex=True)
+        fig, axs = plt.subplots(len(data_stack), figsize=(12, len(data_stack)), sharex=True, squeeze=False)
+        axs = axs.flatten()
     else:
         log.debug('Reuse existing plot (with 3 subplots).')
 
-- 
2.43.0


From 2ff2a0031b4a1cff4e5de3dd272983d783c861d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:20 +0000
Subject: [PATCH 10/44] fix: wavelength intervals cover every sample exactly
 once

---
 starwinds_magnetogram/plot_lsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/plot_lsd.py b/starwinds_magnetogram/plot_lsd.py
index 7f64b70..026d762 100644
--- a/starwinds_magnetogram/plot_lsd.py
+++ b/starwinds_magnetogram/plot_lsd.py
@@ -39,10 +39,10 @@ def wl_intervals(wavelengths, threshold=0.2):
     abs_diffs = np.abs(np.diff(wavelengths))
     skips = np.where(abs_diffs > threshold)[0]
     print(skips)
-    interval_starts = np.concatenate(([0],skips))
+    interval_starts = np.concatenate(([0], skips + 1))
     interval_ends = np.concatenate(
         (skips + 1,
-         np.array([len(wavelengths)-1])))
+         np.array([len(wavelengths)])))
     return zip(interval_starts, interval_ends)
 
 
-- 
2.43.0


From 942a8b6c8af5d723995461dde6dec3a923dcc188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:20 +0000
Subject: [PATCH 11/44] fix: colour range of the energy matrix of weak
 magnetograms

---
 starwinds_magnetogram/plot_zdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/plot_zdi.py b/starwinds_magnetogram/plot_zdi.py
index 4218e53..fafc74d 100644
--- a/starwinds_magnetogram/plot_zdi.py
+++ b/starwinds_magnetogram/plot_zdi.py
@@ -169,7 +169,7 @@ def _plot_energy(zc, name="total", negative_orders=False, ax=None):
         vmax = 1
     else:
         vmax = energy.max()
-        vmin = (energy[energy > 0]).max()**-1
+        vmin = (energy[energy > 0]).min()
     img = ax.imshow(energy,
                     # cmap='Greys',
                     norm=colors.LogNorm(vmin=vmin, vmax=vmax,))
-- 
2.43.0


From 3819f3b8de6c5d12f086a82a1db4a493da612468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:20 +0000
Subject: [PATCH 12/44] fix: swapped legends of the polar and azimuthal field
 plots

---
 starwinds_magnetogram/bin/plot_magnetogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/bin/plot_magnetogram.py b/starwinds_magnetogram/bin/plot_magnetogram.py
index 955d3e8..9682ef2 100644
--- a/starwinds_magnetogram/bin/plot_magnetogram.py
+++ b/starwinds_magnetogram/bin/plot_magnetogram.py
@@ -43,8 +43,8 @@ def main():
     _star_name = guess_star_name_from_filename(args.input_file)
 
     _getters = {'radial': (lz.get_radial_field, 'B_r'),
-                'polar': (lz.get_polar_field, r'B_\phi'),
-                'azimuthal': (lz.get_azimuthal_field, r'B_\theta'),
+                'polar': (lz.get_polar_field, r'B_\theta'),
+                'azimuthal': (lz.get_azimuthal_field, r'B_\phi'),
                 'strength': (lz.get_field_strength, '|B|')}
     _getters['azimuth'] = _getters['azimuthal']
 
-- 
2.43.0


From 8f4a79709616d85c428ba8e11c68435ff24b28fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 13/44] fix: PFSS slices normal to y and z, and axis labels of
 slices

---
 starwinds_magnetogram/plot_pfss.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/starwinds_magnetogram/plot_pfss.py b/starwinds_magnetogram/plot_pfss.py
index 4e9b187..84d2d73 100644
--- a/starwinds_magnetogram/plot_pfss.py
+++ b/starwinds_magnetogram/plot_pfss.py
@@ -77,16 +77,19 @@ def plot_slice(coefficients, normal="x", rmax=5,
                        cmap='RdBu_r')
     fig.colorbar(im).set_label('Radial field strength')
 
+    # The axis names and field components in the slice plane.
+    (name1, f1), (name2, f2) = [(n, f) for n, f in zip('xyz', (fx, fy, fz)) if n != normal]
+
     ax.set_aspect('equal')
-    ax.set_xlabel(r'Distance $x/r_{\star}$')
-    ax.set_ylabel(r'Distance $z/r_{\star}$')
+    ax.set_xlabel(r'Distance $%s/r_{\star}$' % name1)
+    ax.set_ylabel(r'Distance $%s/r_{\star}$' % name2)
 
     # Add star and source surface.
     radial_distance = np.squeeze((px**2 + py**2 + pz**2)**.5)
     ax.contour(p1[:, :], p2[:, :], radial_distance, levels=[radius_star, radius_source_surface], colors='k')
 
     # Add field lines:
-    ax.streamplot(py[..., 0], pz[..., 0], fy[..., 0], fz[..., 0], color='k')
+    ax.streamplot(p1, p2, f1[..., 0], f2[..., 0], color='k')
 
     return fig, ax
 
-- 
2.43.0


From 75bf3f043b8606a616516e8153b5e244eb5ebb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 14/44] fix: zeros_like is zero whatever the default
 coefficients

---
 starwinds_magnetogram/coefficients.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index d282542..5da6d7b 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -254,7 +254,7 @@ def zeros_like(shc):
     """
     output = empty_like(shc)
     for (degree, order), coeffs in shc.contents():
-        output.append(degree, order, shc.default_coefficients)
+        output.append(degree, order, np.zeros_like(coeffs))
     return output
 
 
-- 
2.43.0


From b78ea85dfeba04e5b199872dba444200ce13719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:55 +0000
Subject: [PATCH 15/44] fix: comparison of empty coefficient sets

---
 starwinds_magnetogram/coefficients.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index 5da6d7b..044f578 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -220,7 +220,7 @@ def allclose(shc0,
         return False
 
     bool_coeffs = isclose(shc0, shc1, **kwargs)
-    bool_values = np.stack([v for k, v in bool_coeffs.contents()])
+    bool_values = [np.all(v) for k, v in bool_coeffs.contents()]
 
     return np.all(bool_values)
 
@@ -229,15 +229,10 @@ def isclose(shc0, shc1, **kwargs):
 
     keys = set.union(*[set(a.coefficients) for a in (shc0, shc1)])
 
-    c0 = np.vstack([shc0.get(degree, order) for degree, order in keys])
-    c1 = np.vstack([shc1.get(degree, order) for degree, order in keys])
-
-    bools = np.isclose(c0, c1, **kwargs)
-
     # Use a boolean array as the default coefficient
-    coeffs = Coefficients(default_coefficients=np.empty_like(shc0.default_coefficients, dtype=bool))
-    for (degree, order), bool_ in zip(keys, bools):
-        coeffs.append(degree, order, bool_)
+    coeffs = Coefficients(np.isclose(shc0.default_coefficients, shc1.default_coefficients, **kwargs))
+    for degree, order in keys:
+        coeffs.append(degree, order, np.isclose(shc0.get(degree, order), shc1.get(degree, order), **kwargs))
     return coeffs
 
 
-- 
2.43.0


From 10ab6f037bc8e5808b0920fbf880e3937add1ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:55 +0000
Subject: [PATCH 16/44] fix: do not share the array of default coefficients

---
 starwinds_magnetogram/coefficients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index 044f578..b2dd2a3 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -13,7 +13,7 @@ class Coefficients(object):
     def __init__(self, default_coefficients=0j):
         """Create an empty set of coefficients"""
         self.coefficients = {}
-        self._default_coefficients = np.atleast_1d(default_coefficients)
+        self._default_coefficients = np.atleast_1d(default_coefficients).copy()
         self._degree_max = 0
         self._order_min = 0
 
@@ -53,7 +53,7 @@ class Coefficients(object):
         assert type(degree) == int, "Degree index must be integer"
         assert type(order) == int, "Order index must be integer"
 
-        return self.coefficients.get((degree, order), self._default_coefficients)
+        return self.coefficients.get((degree, order), self.default_coefficients)
 
     @property
     def degree_max(self):
-- 
2.43.0


From 976246344dcf00511902b66787b7897e478b22f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:55 +0000
Subject: [PATCH 17/44] fix: from_arrays refuses orders that do not match the
 coefficients

---
 starwinds_magnetogram/coefficients.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index b2dd2a3..ef38dd5 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -181,7 +181,7 @@ def from_arrays(degrees_l,
     if len(coeffs_lm.shape) == 1:
         coeffs_lm = coeffs_lm[:, np.newaxis]
 
-    if degrees_l.shape[0] != coeffs_lm.shape[0]:
+    if degrees_l.shape[0] != coeffs_lm.shape[0] or orders_m.shape[0] != coeffs_lm.shape[0]:
         raise IndexError("First index must match.")
 
     coeffs_obj = Coefficients(0 * coeffs_lm[0])
-- 
2.43.0


From 36e6d2ba3adf6583850aac81760b0c0fc785ca91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:55 +0000
Subject: [PATCH 18/44] fix: default of from_arrays is zero when the first
 coefficient is not finite

---
 starwinds_magnetogram/coefficients.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index ef38dd5..51e188e 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -184,7 +184,7 @@ def from_arrays(degrees_l,
     if degrees_l.shape[0] != coeffs_lm.shape[0] or orders_m.shape[0] != coeffs_lm.shape[0]:
         raise IndexError("First index must match.")
 
-    coeffs_obj = Coefficients(0 * coeffs_lm[0])
+    coeffs_obj = Coefficients(np.zeros_like(coeffs_lm[0]))
     for deg_l, ord_m, coeff in zip(degrees_l, orders_m, coeffs_lm):
         coeffs_obj.append(deg_l, ord_m, coeff)
 
-- 
2.43.0


From 20104662fe72cefd4d6a4a59c0f8369b96d28af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:55 +0000
Subject: [PATCH 19/44] fix: convert PFSS magnetograms to ZDI with the default
 source surface radius

---
 starwinds_magnetogram/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/converter.py b/starwinds_magnetogram/converter.py
index 319dc01..997dd05 100644
--- a/starwinds_magnetogram/converter.py
+++ b/starwinds_magnetogram/converter.py
@@ -126,7 +126,7 @@ def convert_zdi_to_pfss(zdi_radial_coeffs):
 
 
 def _beta_inverse_conversion_factor(degree_l, order_m):
-    R, _ = pfss_magnetogram.r_l(degree_l, 1, 1, 3)
+    R, _ = pfss_magnetogram.r_l(degree_l, 1, 1, pfss_magnetogram.default_radius_source_surface)
     return R * (degree_l + 1)
 
 
-- 
2.43.0


From 4d3afb8e16258d8f1076b2cc522f724aa910eeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 20/44] fix: tangential field of negative orders

---
 starwinds_magnetogram/associated_legendre.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/starwinds_magnetogram/associated_legendre.py b/starwinds_magnetogram/associated_legendre.py
index a702eba..4e935d1 100644
--- a/starwinds_magnetogram/associated_legendre.py
+++ b/starwinds_magnetogram/associated_legendre.py
@@ -9,8 +9,11 @@ def calculate_lpmn(degrees_l, orders_m, points_polar):
     :param points_polar: point polar angle values
     :return: tuple of values and derivative values. The last index corresponds to the order and degree.
     """
+    degrees_l = np.asarray(degrees_l)
+    orders_abs_m = np.abs(orders_m)
+
     max_degree = np.max(degrees_l)
-    max_order = np.max(orders_m)
+    max_order = np.max(orders_abs_m)
     Pmn_cos_theta_result = np.empty(points_polar.shape + (max_order + 1, max_degree + 1))
     Pmn_d_cos_theta_result = np.empty_like(Pmn_cos_theta_result)
 
@@ -24,7 +27,13 @@ def calculate_lpmn(degrees_l, orders_m, points_polar):
         with np.errstate(invalid='ignore'):
             Pmn_d_cos_theta_result[ndindex] = b * -np.sin(points_polar[ndindex])
 
-    Pmn_cos_theta_result = Pmn_cos_theta_result[..., orders_m, degrees_l]
-    Pmn_d_cos_theta_result = Pmn_d_cos_theta_result[..., orders_m, degrees_l]
+    # The values are calculated for non-negative orders; the values for negative orders are proportional to them.
+    negative_order_factor = np.where(np.asarray(orders_m) < 0,
+                                     (-1.0) ** orders_abs_m
+                                     * scipy.special.factorial(degrees_l - orders_abs_m)
+                                     / scipy.special.factorial(degrees_l + orders_abs_m), 1.0)
+
+    Pmn_cos_theta_result = Pmn_cos_theta_result[..., orders_abs_m, degrees_l] * negative_order_factor
+    Pmn_d_cos_theta_result = Pmn_d_cos_theta_result[..., orders_abs_m, degrees_l] * negative_order_factor
 
     return Pmn_cos_theta_result, Pmn_d_cos_theta_result
\ No newline at end of file
-- 
2.43.0


From 8f37a2e085876515fb31c9ae697c9ff02c35b33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 21/44] fix: tangential field of a magnetogram without
 coefficients

---
 starwinds_magnetogram/associated_legendre.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/associated_legendre.py b/starwinds_magnetogram/associated_legendre.py
index 4e935d1..c749cc2 100644
--- a/starwinds_magnetogram/associated_legendre.py
+++ b/starwinds_magnetogram/associated_legendre.py
@@ -12,8 +12,8 @@ def calculate_lpmn(degrees_l, orders_m, points_polar):
     degrees_l = np.asarray(degrees_l)
     orders_abs_m = np.abs(orders_m)
 
-    max_degree = np.max(degrees_l)
-    max_order = np.max(orders_abs_m)
+    max_degree = np.max(degrees_l, initial=0)
+    max_order = np.max(orders_abs_m, initial=0)
     Pmn_cos_theta_result = np.empty(points_polar.shape + (max_order + 1, max_degree + 1))
     Pmn_d_cos_theta_result = np.empty_like(Pmn_cos_theta_result)
 
-- 
2.43.0


From 8ca12b32a6d737ec3a9cd596eef4c4131aef43c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 22/44] fix: do not hand out the cached spherical harmonics
 arrays

---
 starwinds_magnetogram/image_converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/image_converter.py b/starwinds_magnetogram/image_converter.py
index bf39932..fe60140 100644
--- a/starwinds_magnetogram/image_converter.py
+++ b/starwinds_magnetogram/image_converter.py
@@ -94,7 +94,7 @@ def spherical_harmonic(ord_m, deg_l, azimuth, polar, use_cache=True):
 
         ylm = _cached_spherical_harmonic(ord_m, deg_l, azimuth_tuple, polar_tuple)
 
-        return ylm
+        return ylm.copy()  # The cached array must not be changed by the caller.
     else:
         return sph_harm(ord_m, deg_l, azimuth, polar)
 
-- 
2.43.0


From 1a3635121f9b4c9f535a10d77c256e3fd4b56a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 23/44] fix: spherical harmonics of points that are not on a
 grid

---
 starwinds_magnetogram/image_converter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/starwinds_magnetogram/image_converter.py b/starwinds_magnetogram/image_converter.py
index fe60140..e6a1697 100644
--- a/starwinds_magnetogram/image_converter.py
+++ b/starwinds_magnetogram/image_converter.py
@@ -89,6 +89,10 @@ def spherical_harmonic(ord_m, deg_l, azimuth, polar, use_cache=True):
         azimuth = np.atleast_2d(azimuth)
         polar = np.atleast_2d(polar)
 
+        # The cache assumes a grid: azimuth varies along the first axis only and polar along the last axis only.
+        if np.any(azimuth != azimuth[..., :1]) or np.any(polar != polar[:1, ...]):
+            return sph_harm(ord_m, deg_l, azimuth, polar)
+
         azimuth_tuple = tuple(azimuth[..., 0])
         polar_tuple = tuple(polar[0, ...])
 
-- 
2.43.0


From d20b3f2441be0c5467e22e46e9afacb8a3d88ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 24/44] fix: magnetogram energies are real for strong fields

---
 starwinds_magnetogram/zdi_magnetogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index d81829c..efb3a8c 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -509,7 +509,7 @@ class ZdiMagnetogram:
         if require_l_term:
             result *= self.degrees_l / (self.degrees_l + 1)
 
-        return np.real_if_close(result)
+        return np.real(result)  # Rounding can leave an imaginary part, so real_if_close does not do.
 
     def _dplm(self, p_lm, points_polar):
         """
-- 
2.43.0


From cd058041ec6f13b0aea6adab4363235fd4235960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:15 +0000
Subject: [PATCH 25/44] fix: convert maps whose angles are in decreasing order

---
 starwinds_magnetogram/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/converter.py b/starwinds_magnetogram/converter.py
index 997dd05..cb914fd 100644
--- a/starwinds_magnetogram/converter.py
+++ b/starwinds_magnetogram/converter.py
@@ -183,7 +183,7 @@ def get_zdi_coeffs(pl, az, degrees_l, orders_m, field_r, field_pl, field_az, are
         # More like pseudo-area
         dpl = np.mean(np.diff(pl, axis=1))
         daz = np.mean(np.diff(az, axis=0))
-        area = dpl * daz
+        area = np.abs(dpl * daz)  # The angles may also be given in decreasing order.
 
     plmct, dplmct = associated_legendre.calculate_lpmn(degrees_l, orders_m, pl)  # Uses n for degree
     c_lm = zdi_magnetogram.get_c_lm(degrees_l, orders_m)
-- 
2.43.0


From a934acaab44136a22c6ae2e7fa231b68cf8632d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:58 +0000
Subject: [PATCH 26/44] fix: place colorbar ticks where their values lie

---
 .../colorbar_manual_tickmarks.py                | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/starwinds_magnetogram/colorbar_manual_tickmarks.py b/starwinds_magnetogram/colorbar_manual_tickmarks.py
index 2f0cbf7..7c4fe98 100644
--- a/starwinds_magnetogram/colorbar_manual_tickmarks.py
+++ b/starwinds_magnetogram/colorbar_manual_tickmarks.py
@@ -48,21 +48,18 @@ def fully_manual_tickmarks(axis, norm, major_values, major_labels, minor_values)
     :param minor_values:
     :return:
     """
-    ax = axis.axes
-    xlim = ax.get_xlim()
-    xmin = xlim[0]
-    xrange = xlim[1] - xlim[0]
+    # The colorbar axis has the scale of the norm, so the ticks are placed at the values themselves.
+    axis_min, axis_max = axis.get_view_interval()
 
-    xticks_major = xrange * norm(major_values) + xmin
-    axis.set_ticks(xticks_major)
+    axis.set_ticks(major_values)
     axis.set_ticklabels(major_labels)
 
-    xticks_minor = xrange * norm(minor_values) + xmin
+    ticks_minor = np.asarray(minor_values)
 
-    xticks_minor = xticks_minor[xticks_minor >= xlim[0]]
-    xticks_minor = xticks_minor[xticks_minor <= xlim[1]]
+    ticks_minor = ticks_minor[ticks_minor >= axis_min]
+    ticks_minor = ticks_minor[ticks_minor <= axis_max]
 
-    axis.set_ticks(xticks_minor, minor=True)
+    axis.set_ticks(ticks_minor, minor=True)
 
 
 def generate_major(log10_min, log10_max, log10_step):
-- 
2.43.0


From 82e64c1a29790adeedffb83565b16e2e6f831711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:58 +0000
Subject: [PATCH 27/44] fix: minor ticks of large powers of ten

---
 starwinds_magnetogram/colorbar_manual_tickmarks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/colorbar_manual_tickmarks.py b/starwinds_magnetogram/colorbar_manual_tickmarks.py
index 7c4fe98..306afa3 100644
--- a/starwinds_magnetogram/colorbar_manual_tickmarks.py
+++ b/starwinds_magnetogram/colorbar_manual_tickmarks.py
@@ -87,8 +87,8 @@ def generate_minor(log10_min, log10_max, log10_step):
 
     all_positive = []
     for exp in range(log10_min, log10_max + 2):
-        all_positive.extend(decimals * 10 ** (exp - 1))
-        all_positive.extend(-decimals * 10 ** (exp - 1))
+        all_positive.extend(decimals * 10.0 ** (exp - 1))
+        all_positive.extend(-decimals * 10.0 ** (exp - 1))
 
     all_values = np.unique(np.sort(all_positive))
 
-- 
2.43.0


From a87e4751b8e0fe84bd0adf037250833b88644024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:29 +0000
Subject: [PATCH 28/44] fix: plot an LSD file with a single data row

---
 starwinds_magnetogram/bin/plot_lsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/bin/plot_lsd.py b/starwinds_magnetogram/bin/plot_lsd.py
index 3b629b6..952bef8 100644
--- a/starwinds_magnetogram/bin/plot_lsd.py
+++ b/starwinds_magnetogram/bin/plot_lsd.py
@@ -24,7 +24,7 @@ def main():
     args = parser.parse_args(); args.debug and breakpoint()
 
     # Processing starts here
-    base_data = np.genfromtxt(args.input_file, skip_header=args.skip_rows)
+    base_data = np.atleast_2d(np.genfromtxt(args.input_file, skip_header=args.skip_rows))
 
     parameters = args.params
     _, axs = plt.subplots(len(parameters), figsize=(8, 6), sharex=True, squeeze=False)
-- 
2.43.0


From 36cb4d203c09a48fbf6db4def51647f4d2f8e781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:34 +0000
Subject: [PATCH 29/44] fix: draw energy fractions as their own share of the
 circle

---
 starwinds_magnetogram/plot_zdi.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/starwinds_magnetogram/plot_zdi.py b/starwinds_magnetogram/plot_zdi.py
index fafc74d..6cb11a3 100644
--- a/starwinds_magnetogram/plot_zdi.py
+++ b/starwinds_magnetogram/plot_zdi.py
@@ -10,6 +10,19 @@ import starwinds_magnetogram.geometry
 import starwinds_magnetogram.plots
 
 
+def _pie_of_fractions(ax, fractions, **kwargs):
+    """
+    Draw each fraction as its own share of the full circle; the rest of the circle is left empty.
+    """
+    fractions = np.nan_to_num(fractions)  # The fractions of zero energy are nan.
+    rest = max(0, 1 - np.sum(fractions))
+    wedges, *texts = ax.pie(np.append(fractions, rest), **kwargs)
+    for artists in (wedges, *texts):
+        artists[-1].remove()
+
+    return wedges[:-1]
+
+
 def plot_energy_summary(zc, axs=None):
 
     if axs is None:
@@ -22,7 +35,7 @@ def plot_energy_summary(zc, axs=None):
     ax = axs[0]
     ax.set_title("Total energy")
 
-    w, *_ = ax.pie([results['magnetogram.poloidal.energy.fraction'],
+    w = _pie_of_fractions(ax, [results['magnetogram.poloidal.energy.fraction'],
                     results['magnetogram.toroidal.energy.fraction'],],
                        radius=2,
                        autopct='%1.0f%%',
@@ -35,7 +48,7 @@ def plot_energy_summary(zc, axs=None):
     wedges = list(w)
     wlabels = ["poloidal", "toroidal"]
 
-    w, *_ = ax.pie([results['magnetogram.radial.energy.fraction'],],
+    w = _pie_of_fractions(ax, [results['magnetogram.radial.energy.fraction'],],
                    radius=2,
                    autopct='%1.0f%%',
                    pctdistance=1,
@@ -48,7 +61,7 @@ def plot_energy_summary(zc, axs=None):
     wedges.extend(w)
     wlabels.append("radial")
 
-    w, *_ = ax.pie([results['magnetogram.total.energy.axisymmetric.fraction'],],
+    w = _pie_of_fractions(ax, [results['magnetogram.total.energy.axisymmetric.fraction'],],
                    radius=1,
                    # labels=("axisymmetric",),
                    autopct='%1.0f%%',
@@ -65,7 +78,7 @@ def plot_energy_summary(zc, axs=None):
     ax = axs[1]
     ax.set_title("Poloidal energy")
     labels = ("dipole", "quadrupole", "octopole")
-    w, *_ = ax.pie([results[f'magnetogram.total.energy.{c}.fraction'] for c in labels],
+    w = _pie_of_fractions(ax, [results[f'magnetogram.total.energy.{c}.fraction'] for c in labels],
            # labels=labels,
            radius=2,
            autopct='%1.1f%%',
@@ -78,7 +91,7 @@ def plot_energy_summary(zc, axs=None):
     wedges = list(w)
     wlabels = ["dipole", "quadrupole", "octopole"]
 
-    w, *_ = ax.pie([results['magnetogram.total.energy.poloidal.axisymmetric.fraction'],],
+    w = _pie_of_fractions(ax, [results['magnetogram.total.energy.poloidal.axisymmetric.fraction'],],
            radius=1,
            # labels=("axisymmetric",),
            autopct='%1.0f%%',
@@ -96,7 +109,7 @@ def plot_energy_summary(zc, axs=None):
         ax = axs[2]
         ax.set_title("Toroidal energy")
         labels = ("l1", "l2", "l3")
-        w, *_ = ax.pie([results[f'magnetogram.total.energy.toroidal.{c}.fraction'] for c in labels],
+        w = _pie_of_fractions(ax, [results[f'magnetogram.total.energy.toroidal.{c}.fraction'] for c in labels],
                # labels=labels,
                radius=2,
                autopct='%1.1f%%',
@@ -109,7 +122,7 @@ def plot_energy_summary(zc, axs=None):
         wedges = list(w)
         wlabels = ["$l1$", "$l2$", "$l3$"]
 
-        w, *_ = ax.pie([results['magnetogram.total.energy.toroidal.axisymmetric.fraction'],],
+        w = _pie_of_fractions(ax, [results['magnetogram.total.energy.toroidal.axisymmetric.fraction'],],
                radius=1,
                # labels=("axisymmetric",),
                autopct='%1.0f%%',
-- 
2.43.0


From b8dcd757a9acbf1a1a8bcbae5efea1bfeb7c89b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:37 +0000
Subject: [PATCH 30/44] fix: order labels of energy matrices with negative
 orders

---
 starwinds_magnetogram/plot_zdi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/starwinds_magnetogram/plot_zdi.py b/starwinds_magnetogram/plot_zdi.py
index 6cb11a3..049c878 100644
--- a/starwinds_magnetogram/plot_zdi.py
+++ b/starwinds_magnetogram/plot_zdi.py
@@ -3,7 +3,7 @@ log = logging.getLogger(__name__)
 
 import numpy as np
 from matplotlib import pyplot as plt, colors
-from matplotlib.ticker import IndexLocator
+from matplotlib.ticker import IndexLocator, MaxNLocator
 from mpl_toolkits.axes_grid1 import make_axes_locatable
 
 import starwinds_magnetogram.geometry
@@ -197,7 +197,9 @@ def _plot_energy(zc, name="total", negative_orders=False, ax=None):
 
     if energy.shape[0] != energy.shape[1]:
         # This means that negative orders are included.
-        ax.set_xticklabels(np.array(ax.get_xticks() - energy.shape[1]//2, dtype=int))
+        order_max = energy.shape[1] // 2
+        ax.xaxis.set_major_locator(MaxNLocator(integer=True))
+        ax.xaxis.set_major_formatter(lambda x, _: "%d" % round(x - order_max))
     ax.grid(which='minor', axis='both')
 
     divider = make_axes_locatable(ax)
@@ -396,7 +398,6 @@ def plot_streamtraces(mgm, geometry=None, ax=None):
 
     if True:
         from matplotlib.lines import Line2D
-        from matplotlib.ticker import MaxNLocator
 
         locator = MaxNLocator(nbins=3, prune="lower")
         line_values = locator.tick_values(np.min(B_tangential_mag), np.max(B_tangential_mag))
-- 
2.43.0


From 94e7323ce39e9ef070e514480482e1f591f8772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:31 +0000
Subject: [PATCH 31/44] fix: field components share the colours of their common
 colorbar

---
 starwinds_magnetogram/plots.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/starwinds_magnetogram/plots.py b/starwinds_magnetogram/plots.py
index b7b984c..4e96574 100644
--- a/starwinds_magnetogram/plots.py
+++ b/starwinds_magnetogram/plots.py
@@ -48,7 +48,11 @@ def plot_components(polar_centers, azimuth_centers, field_centers, axs, azimuth_
     latex_names = ('B_r', r'B_\theta', r'B_\phi')
     extremum_markers = ('ox', '^v', '<>')
 
+    # The components share one colorbar, so they must share the colour scale.
     abs_max = np.max(np.abs(field_centers))
+    if symmetric is None:
+        symmetric = np.min(field_centers) < 0 < np.max(field_centers)
+    field_min = None if symmetric else np.min(field_centers)
     axs[0].figure.subplots_adjust(right=0.8)  # Make space for colorbar.
     for ax, Bi, latex_name, markers in zip(axs, field_centers, latex_names, extremum_markers):
         log.debug("Axis " + str(ax))
@@ -59,6 +63,7 @@ def plot_components(polar_centers, azimuth_centers, field_centers, axs, azimuth_
                                                 legend_str=latex_name,
                                                 abs_max=abs_max,
                                                 symmetric=symmetric)
+        img.set_clim(vmin=field_min)
 
         add_extrema(polar_centers, azimuth_centers, Bi, ax, legend_str=latex_name, markers=markers)
 
-- 
2.43.0


From acd0ea55ef278a76231c02c55f8c512630f22616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:46 +0000
Subject: [PATCH 32/44] fix: energy matrix of very weak magnetograms

---
 starwinds_magnetogram/plot_zdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/plot_zdi.py b/starwinds_magnetogram/plot_zdi.py
index 049c878..ef35b95 100644
--- a/starwinds_magnetogram/plot_zdi.py
+++ b/starwinds_magnetogram/plot_zdi.py
@@ -176,7 +176,7 @@ def _plot_energy(zc, name="total", negative_orders=False, ax=None):
 
         energy = remove_negative(energy)
 
-    if np.allclose(energy, 0):
+    if not np.any(energy > 0):
         # If values are all zero use scale colorscale 0-1
         vmin = .1
         vmax = 1
-- 
2.43.0


From c2139eb1d8fcea003b02f1baade6c162a9f750c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:14 +0000
Subject: [PATCH 33/44] fix: Parker wind speed deep inside the sonic radius

---
 starwinds_magnetogram/parker_solution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starwinds_magnetogram/parker_solution.py b/starwinds_magnetogram/parker_solution.py
index 9bb3010..df51fbe 100644
--- a/starwinds_magnetogram/parker_solution.py
+++ b/starwinds_magnetogram/parker_solution.py
@@ -50,6 +50,9 @@ class AnalyticBase:
                 return branches[1]
 
         if not all_sols:
+            if _argument > -1e-20 and _branch(radius_dimensionless) == 0:
+                # Deep inside the sonic radius w(x) = x, and x may underflow where its square root does not.
+                return np.exp(-(_parker_rhs + 1) / 2)
             w = np.sqrt(-lambertw(_argument, _branch(radius_dimensionless)))
             return np.real_if_close(w)
         else:
-- 
2.43.0


From 23e1bd2a0a1ee86ca782bfebd3ea71dd1f1bb407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 34/44] fix: fields exactly at the poles

---
 starwinds_magnetogram/associated_legendre.py | 54 +++++++++++++++-----
 starwinds_magnetogram/zdi_magnetogram.py     | 14 +++--
 2 files changed, 46 insertions(+), 22 deletions(-)

diff --git a/starwinds_magnetogram/associated_legendre.py b/starwinds_magnetogram/associated_legendre.py
index c749cc2..9753100 100644
--- a/starwinds_magnetogram/associated_legendre.py
+++ b/starwinds_magnetogram/associated_legendre.py
@@ -12,20 +12,29 @@ def calculate_lpmn(degrees_l, orders_m, points_polar):
     degrees_l = np.asarray(degrees_l)
     orders_abs_m = np.abs(orders_m)
 
-    max_degree = np.max(degrees_l, initial=0)
-    max_order = np.max(orders_abs_m, initial=0)
-    Pmn_cos_theta_result = np.empty(points_polar.shape + (max_order + 1, max_degree + 1))
-    Pmn_d_cos_theta_result = np.empty_like(Pmn_cos_theta_result)
+    max_order = np.max(orders_abs_m, initial=0) + 1  # The derivatives use the values of the next order.
+    max_degree = np.maximum(np.max(degrees_l, initial=0), max_order)
+    points_cosine = np.cos(points_polar)
+    values = np.empty(points_polar.shape + (max_order + 1, max_degree + 1))
 
+    # The values in the southern hemisphere follow from parity; scipy.special.lpmn has the wrong sign at -1.
     for ndindex in np.ndindex(points_polar.shape):
-        a, b = scipy.special.lpmn(m=max_order,
-                                  n=max_degree,
-                                  z=np.cos(points_polar[ndindex]))
-        Pmn_cos_theta_result[ndindex] = a
+        values[ndindex], _ = scipy.special.lpmn(m=max_order,
+                                                n=max_degree,
+                                                z=np.abs(points_cosine[ndindex]))
+    parity = (-1.0) ** (degrees_l + orders_abs_m)
+    south = points_cosine[..., np.newaxis] < 0
+    sign = np.where(south, parity, 1.0)
 
-        # Some values of b can be infinite
-        with np.errstate(invalid='ignore'):
-            Pmn_d_cos_theta_result[ndindex] = b * -np.sin(points_polar[ndindex])
+    Pmn_cos_theta_result = sign * values[..., orders_abs_m, degrees_l]
+
+    # The recurrence for the derivative is regular at the poles.
+    previous_order = np.where(orders_abs_m == 0,
+                              -values[..., 1, degrees_l],
+                              (degrees_l + orders_abs_m) * (degrees_l - orders_abs_m + 1)
+                              * values[..., orders_abs_m - 1, degrees_l])
+    next_order = values[..., orders_abs_m + 1, degrees_l]
+    Pmn_d_cos_theta_result = np.where(south, sign, -sign) * (previous_order - next_order) / 2
 
     # The values are calculated for non-negative orders; the values for negative orders are proportional to them.
     negative_order_factor = np.where(np.asarray(orders_m) < 0,
@@ -33,7 +42,24 @@ def calculate_lpmn(degrees_l, orders_m, points_polar):
                                      * scipy.special.factorial(degrees_l - orders_abs_m)
                                      / scipy.special.factorial(degrees_l + orders_abs_m), 1.0)
 
-    Pmn_cos_theta_result = Pmn_cos_theta_result[..., orders_abs_m, degrees_l] * negative_order_factor
-    Pmn_d_cos_theta_result = Pmn_d_cos_theta_result[..., orders_abs_m, degrees_l] * negative_order_factor
+    Pmn_cos_theta_result = Pmn_cos_theta_result * negative_order_factor
+    Pmn_d_cos_theta_result = Pmn_d_cos_theta_result * negative_order_factor
+
+    return Pmn_cos_theta_result, Pmn_d_cos_theta_result
+
+
+def order_times_legendre_over_sine(degree_l, order_m, points_polar):
+    r"""
+    Calculate $m P_{\ell m}(\cos\theta) / \sin\theta$ by a recurrence which is regular at the poles.
+    :param degree_l: degree $\ell$
+    :param order_m: order $m$
+    :param points_polar: point polar angle values
+    :return: values with the shape of points_polar.
+    """
+    if order_m == 0:
+        return np.zeros(np.shape(points_polar))
 
-    return Pmn_cos_theta_result, Pmn_d_cos_theta_result
\ No newline at end of file
+    points_cosine = np.cos(points_polar)
+    return -.5 * (scipy.special.lpmv(order_m + 1, degree_l + 1, points_cosine)
+                  + (degree_l - order_m + 1) * (degree_l - order_m + 2)
+                  * scipy.special.lpmv(order_m - 1, degree_l + 1, points_cosine))
diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index efb3a8c..a7dac81 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -137,13 +137,12 @@ class ZdiMagnetogram:
         field_azimuthal_poloidal = np.zeros_like(points_azimuth, dtype=complex)
 
         for deg_l, ord_m, b_lm, c_lm in zip(self.degrees_l, self.orders_m, self.beta, self.c_lm):
-            p_lm = sp.special.lpmv(ord_m, deg_l, np.cos(points_polar))
+            m_p_lm_over_sin = associated_legendre.order_times_legendre_over_sine(deg_l, ord_m, points_polar)
             field_azimuthal_poloidal -= (b_lm
                                      * c_lm
-                                     * p_lm
-                                     * 1.0j * ord_m * np.exp(1.0j * ord_m * points_azimuth)
+                                     * m_p_lm_over_sin
+                                     * 1.0j * np.exp(1.0j * ord_m * points_azimuth)
                                      / (deg_l + 1)
-                                     / np.sin(points_polar)
                                      )
 
         return np.real(field_azimuthal_poloidal)
@@ -255,13 +254,12 @@ class ZdiMagnetogram:
         field_polar_toroidal = np.zeros_like(points_azimuth, dtype=complex)
 
         for deg_l, ord_m, g_lm, c_lm in zip(self.degrees_l, self.orders_m, self.gamma, self.c_lm):
-            p_lm = sp.special.lpmv(ord_m, deg_l, np.cos(points_polar))
+            m_p_lm_over_sin = associated_legendre.order_times_legendre_over_sine(deg_l, ord_m, points_polar)
             field_polar_toroidal += (g_lm
                                          * c_lm
-                                         * p_lm
-                                         * 1.0j * ord_m * np.exp(1.0j * ord_m * points_azimuth)
+                                         * m_p_lm_over_sin
+                                         * 1.0j * np.exp(1.0j * ord_m * points_azimuth)
                                          / (deg_l + 1)
-                                         / np.sin(points_polar)
                                          )
 
         return np.real(field_polar_toroidal)
-- 
2.43.0


From 8136f671e316cfadf850dbe280dc98f87eb483c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 35/44] fix: PFSS field exactly at the poles

---
 starwinds_magnetogram/pfss_magnetogram.py | 31 +++++++++++++++--------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/starwinds_magnetogram/pfss_magnetogram.py b/starwinds_magnetogram/pfss_magnetogram.py
index 3ff5e0a..7a88360 100644
--- a/starwinds_magnetogram/pfss_magnetogram.py
+++ b/starwinds_magnetogram/pfss_magnetogram.py
@@ -2,6 +2,7 @@ import logging
 log = logging.getLogger(__name__)
 import numpy as np
 import scipy as sp
+from starwinds_magnetogram import associated_legendre
 from starwinds_magnetogram import coordinate_transforms
 
 
@@ -10,6 +11,18 @@ default_radius_star = 1
 default_radius_source_surface = 2.5
 
 
+def theta_scaling(deg_l, ord_m):
+    r"""
+    Calculate the scaling of the associated Legendre polynomial in $\Theta_{\ell m}(\theta)$
+    :param deg_l: Degree $\ell$ of coefficient
+    :param ord_m: Order $m$ of coefficient
+    :return: scaling factor
+    """
+    d0 = 0 + (ord_m == 0)
+    return (-1) ** ord_m * np.sqrt(sp.special.factorial(deg_l - ord_m)
+                                   / sp.special.factorial(deg_l + ord_m)) * np.sqrt(2 - d0)
+
+
 def theta_lm(deg_l, ord_m, points_polar):
     r"""
     Calculate $\Theta_{\ell m}(\theta)$
@@ -23,10 +36,7 @@ def theta_lm(deg_l, ord_m, points_polar):
         #  Associated Legendre polynomial $P_{\ell}^{m}(\cos\theta)$
         plm = sp.special.lpmv(ord_m, deg_l, np.cos(points_polar))
         # Correction (scaling)
-        d0 = 0 + (ord_m == 0)
-        clm = (-1) ** ord_m * np.sqrt(sp.special.factorial(deg_l - ord_m)
-                                      / sp.special.factorial(deg_l + ord_m)) * np.sqrt(2 - d0)
-        value = clm * plm
+        value = theta_scaling(deg_l, ord_m) * plm
         return value
 
     value = _inner(deg_l, ord_m, points_polar)
@@ -65,9 +75,7 @@ def calculate_all_theta(degree_l, order_m, points_polar, scipy=True):
     from starwinds_magnetogram.associated_legendre import calculate_lpmn
     Pmn_cos_theta_result, Pmn_d_cos_theta_result = calculate_lpmn(degree_l, order_m, points_polar)
 
-    d0 = 0 + (np.asarray(order_m) == 0)
-    clm = (-1) ** order_m * np.sqrt(sp.special.factorial(degree_l - order_m)
-                                  / sp.special.factorial(degree_l + order_m)) * np.sqrt(2 - d0)
+    clm = theta_scaling(degree_l, order_m)
 
     buffered_theta_scipy = Pmn_cos_theta_result * clm
     buffered_dtheta_scipy = Pmn_d_cos_theta_result * clm
@@ -214,13 +222,14 @@ def evaluate_spherical(
 
         unscaled_radial    = _r_l[1] * buffered_theta[..., coeff_id]  * _phi_lm[0]
         unscaled_polar     = _r_l[0] * buffered_dtheta[..., coeff_id] * _phi_lm[0]
-        unscaled_azimuthal = _r_l[0] * buffered_theta[..., coeff_id]  * _phi_lm[1]
+        # This is $m \Theta_{\ell m} / \sin\theta$ by a recurrence which is regular at the poles.
+        _m_theta_over_sin = (theta_scaling(deg_l, ord_m)
+                             * associated_legendre.order_times_legendre_over_sine(deg_l, ord_m, points_polar))
+        unscaled_azimuthal = _r_l[0] * _m_theta_over_sin * _phi_lm[1] / max(ord_m, 1)
 
         field_radial    -= unscaled_radial
         field_polar     -= unscaled_polar / points_radial
-        field_azimuthal -= np.divide(unscaled_azimuthal, points_radial * np.sin(points_polar),
-                                     out=np.zeros_like(field_azimuthal),
-                                     where=unscaled_azimuthal != 0)
+        field_azimuthal -= unscaled_azimuthal / points_radial
 
     # Set field inside star to zero
     field_radial[_invalid_inner_ids] = 0.0
-- 
2.43.0


From 5b768ed0eccd940f090b2d48f49ea9826c1a75e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 36/44] fix: normalisation of negative orders by the method for
 high orders

---
 starwinds_magnetogram/zdi_magnetogram.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index a7dac81..1b5e363 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -622,7 +622,8 @@ def get_c_lm(degrees_l, orders_m, method='low_order'):
         # This takes better care of the cancellations in (l-m)!/(l+m)!
         @np.vectorize
         def factorial_expression(l, m):
-            return np.exp(-np.sum(np.log(np.arange(l - m + 1, l + m + 1))))
+            log_product = np.sum(np.log(np.arange(l - np.abs(m) + 1, l + np.abs(m) + 1)))
+            return np.exp(-np.sign(m) * log_product)
 
         c_lm2 = (2 * degrees_l + 1) / (4 * np.pi) * factorial_expression(degrees_l, orders_m)
 
-- 
2.43.0


From f7775f05e01958c4d1987d2fd4e5653361f7374b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:28 +0000
Subject: [PATCH 37/44] fix: zero contour of a field of one sign on a symmetric
 colour scale was drawn at another value

---
 starwinds_magnetogram/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/plots.py b/starwinds_magnetogram/plots.py
index 4e96574..df0e1f0 100644
--- a/starwinds_magnetogram/plots.py
+++ b/starwinds_magnetogram/plots.py
@@ -152,11 +152,11 @@ def plot_magnetic_field(ax,
     if symmetric:
         img.set_clim(np.array([-1, 1]) * np.max(np.abs(img.get_clim())))
 
-    if symmetric and zero_contour:
+    if symmetric and zero_contour and np.min(field_centers) < 0 < np.max(field_centers):
         zero_contour = ax.contour(np.rad2deg(azimuth_centers),
                                   np.rad2deg(polar_centers),
                                   field_centers,
-                                  0,
+                                  levels=[0],
                                   # linewidths=1,
                                   colors='k',
                                   )
-- 
2.43.0


From 7f6f1a0a4c83ed8a8e66638e59122047aa500289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:28 +0000
Subject: [PATCH 38/44] fix: legend of the streamline thickness

---
 starwinds_magnetogram/plot_pfss.py | 4 ++--
 starwinds_magnetogram/plot_zdi.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/starwinds_magnetogram/plot_pfss.py b/starwinds_magnetogram/plot_pfss.py
index 84d2d73..7876039 100644
--- a/starwinds_magnetogram/plot_pfss.py
+++ b/starwinds_magnetogram/plot_pfss.py
@@ -141,10 +141,10 @@ def plot_streamtraces(coefficients, geometry=ZdiGeometry()):
 
     locator = MaxNLocator(nbins=3, prune="lower")
     line_values = locator.tick_values(np.min(B_tangential_mag), np.max(B_tangential_mag))
-    line_thicknesses = 3 * line_values / np.max(line_values)
+    line_thicknesses = 3 * line_values / (B_tangential_mag.max() or np.max(line_values))
 
     custom_lines = [Line2D([0], [0], color='k', lw=l) for l in line_thicknesses]
-    custom_strs = [r"$B_\perp=%4.1f$" % x for x in line_values]
+    custom_strs = [r"$B_\perp=%4.3g$" % x for x in line_values]
     plt.legend(legend_items + custom_lines, legend_strs + custom_strs)
 
     return fig, ax
diff --git a/starwinds_magnetogram/plot_zdi.py b/starwinds_magnetogram/plot_zdi.py
index ef35b95..c0a46b0 100644
--- a/starwinds_magnetogram/plot_zdi.py
+++ b/starwinds_magnetogram/plot_zdi.py
@@ -401,10 +401,10 @@ def plot_streamtraces(mgm, geometry=None, ax=None):
 
         locator = MaxNLocator(nbins=3, prune="lower")
         line_values = locator.tick_values(np.min(B_tangential_mag), np.max(B_tangential_mag))
-        line_thicknesses = 3 * line_values / np.max(line_values)
+        line_thicknesses = 3 * line_values / (B_tangential_mag.max() or np.max(line_values))
 
         legend_items += [Line2D([0], [0], color='k', lw=l) for l in line_thicknesses]
-        legend_strs += [r"$B_\perp=%4.1f$" % x for x in line_values]
+        legend_strs += [r"$B_\perp=%4.3g$" % x for x in line_values]
 
     ax.legend(legend_items, legend_strs)
 
-- 
2.43.0


From 3f4ee211c1cff8d9cfdfc1478c44a20399c36915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:19 +0000
Subject: [PATCH 39/44] fix: dividing coefficients by numpy integers

---
 starwinds_magnetogram/coefficients.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index 51e188e..9ad8200 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -154,7 +154,9 @@ class Coefficients(object):
             output.append(degree, order, coeffs**power)
         return output
 
-    def __truediv__(self, value): return multiply(self, value**-1)
+    def __truediv__(self, value):
+        # Integer numpy values have no negative powers.
+        return multiply(self, value**-1 if type(value) == Coefficients else 1 / value)
 
     def truncated(self, degree_max): return truncated(self, degree_max)
 
-- 
2.43.0


From 7c8f7855c385a18782b160529124aa22f19180e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 40/44] fix: azimuthal fields of the highest orders at degree
 85 overflowed

---
 starwinds_magnetogram/associated_legendre.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/starwinds_magnetogram/associated_legendre.py b/starwinds_magnetogram/associated_legendre.py
index 9753100..6139bb6 100644
--- a/starwinds_magnetogram/associated_legendre.py
+++ b/starwinds_magnetogram/associated_legendre.py
@@ -60,6 +60,11 @@ def order_times_legendre_over_sine(degree_l, order_m, points_polar):
         return np.zeros(np.shape(points_polar))
 
     points_cosine = np.cos(points_polar)
-    return -.5 * (scipy.special.lpmv(order_m + 1, degree_l + 1, points_cosine)
-                  + (degree_l - order_m + 1) * (degree_l - order_m + 2)
-                  * scipy.special.lpmv(order_m - 1, degree_l + 1, points_cosine))
+
+    def legendre(order):
+        """Values of the previous degree; those of the next degree may overflow."""
+        if abs(order) > degree_l - 1:
+            return np.zeros(np.shape(points_polar))
+        return scipy.special.lpmv(order, degree_l - 1, points_cosine)
+
+    return -.5 * (legendre(order_m + 1) + (degree_l + order_m - 1) * (degree_l + order_m) * legendre(order_m - 1))
-- 
2.43.0


From 3d10e74b46dacb9b81487805667f5cd62010ca86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 41/44] fix: areas of facets with corners in decreasing order
 were negative

---
 starwinds_magnetogram/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/geometry.py b/starwinds_magnetogram/geometry.py
index e51ae57..5e468dc 100644
--- a/starwinds_magnetogram/geometry.py
+++ b/starwinds_magnetogram/geometry.py
@@ -63,7 +63,7 @@ class ZdiGeometry:
         height_delta = (np.cos(self.polar_corners[:-1, :-1]) - np.cos(self.polar_corners[:-1, 1:]))
         azimuth_delta = (self.azimuthal_corners[1:, 1:] - self.azimuthal_corners[:-1, 1:])
 
-        return height_delta * azimuth_delta
+        return np.abs(height_delta * azimuth_delta)  # The corners may also be given in decreasing order.
 
     # def visible_areas(self, projection_direction):
     #     """Calculate projected (visible) area in the direction of projection_direction.
-- 
2.43.0


From 0f2d7f80e988c14cf16aab69b4282eb328ea9d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:19 +0000
Subject: [PATCH 42/44] fix: coefficients of an image with angles in decreasing
 order had the wrong sign

---
 starwinds_magnetogram/image_converter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/image_converter.py b/starwinds_magnetogram/image_converter.py
index e6a1697..5d78136 100644
--- a/starwinds_magnetogram/image_converter.py
+++ b/starwinds_magnetogram/image_converter.py
@@ -117,7 +117,8 @@ def _deltas(zg):
     assert np.allclose(delta_polar, delta_polar[0, :])
     assert np.allclose(delta_azimuth, delta_azimuth[:, 0][:, np.newaxis])
 
-    return delta_polar[1:, ...], delta_azimuth[..., 1:]
+    # The angles may also be given in decreasing order.
+    return np.abs(delta_polar[1:, ...]), np.abs(delta_azimuth[..., 1:])
 
 
 def _indices(lmax=_degree_l_max):
-- 
2.43.0


From 88944e9ded60a7ac72298634e21a8971bea91ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:19 +0000
Subject: [PATCH 43/44] fix: mean printed with a field on a part of the sphere

---
 starwinds_magnetogram/plot_zdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/plot_zdi.py b/starwinds_magnetogram/plot_zdi.py
index c0a46b0..28239d0 100644
--- a/starwinds_magnetogram/plot_zdi.py
+++ b/starwinds_magnetogram/plot_zdi.py
@@ -339,7 +339,7 @@ def plot_zdi_field(getter_fn, ax=None, zg=None, symmetric=None, cmap=None, legen
 
     ax.legend(ncol=2, loc='lower left')
 
-    abs_field_mean = np.sum(np.abs(field_centers) * zg.areas()) / (4 * np.pi)  # Scaled by area
+    abs_field_mean = np.sum(np.abs(field_centers) * zg.areas()) / np.sum(zg.areas())  # Scaled by area
     ax.text(1, 0, f"abs mean: {abs_field_mean:.3G} G ",
             transform=ax.transAxes,
             horizontalalignment='right',
-- 
2.43.0


From 0075642eee367ff6414154a804bde7fd5ed0db3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:19 +0000
Subject: [PATCH 44/44] fix: colour map and symmetry asked for in a plot of
 components were ignored

---
 starwinds_magnetogram/plot_zdi.py | 3 ++-
 starwinds_magnetogram/plots.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/plot_zdi.py b/starwinds_magnetogram/plot_zdi.py
index 28239d0..f446097 100644
--- a/starwinds_magnetogram/plot_zdi.py
+++ b/starwinds_magnetogram/plot_zdi.py
@@ -287,7 +287,8 @@ def plot_zdi_components(mgm, radius=1, axs=None, zg=None, symmetric=None, cmap=N
     Brpa = np.array([g(polar_centers, azimuth_centers) for g in getter_fns])
 
     axs = starwinds_magnetogram.plots.plot_components(polar_centers, azimuth_centers,
-                                                        Brpa, axs, azimuth_corners, polar_corners, radius)
+                                                        Brpa, axs, azimuth_corners, polar_corners, radius,
+                                                        symmetric=symmetric, cmap=cmap)
 
     return axs
 
diff --git a/starwinds_magnetogram/plots.py b/starwinds_magnetogram/plots.py
index df0e1f0..da4c290 100644
--- a/starwinds_magnetogram/plots.py
+++ b/starwinds_magnetogram/plots.py
@@ -44,7 +44,7 @@ def place_colorbar_axis_right(ax, dx=.22):
 
 
 def plot_components(polar_centers, azimuth_centers, field_centers, axs, azimuth_corners=None, polar_corners=None,
-                    radius=1, symmetric=None):
+                    radius=1, symmetric=None, cmap=None):
     latex_names = ('B_r', r'B_\theta', r'B_\phi')
     extremum_markers = ('ox', '^v', '<>')
 
@@ -61,6 +61,7 @@ def plot_components(polar_centers, azimuth_centers, field_centers, axs, azimuth_
                                                 polar_centers, azimuth_centers, Bi,
                                                 polar_corners=polar_corners, azimuth_corners=azimuth_corners,
                                                 legend_str=latex_name,
+                                                cmap=cmap,
                                                 abs_max=abs_max,
                                                 symmetric=symmetric)
         img.set_clim(vmin=field_min)
-- 
2.43.0

