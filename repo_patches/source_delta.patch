From a62455c122d33264e61fd7125e8399f6f241a293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:10 +0000
Subject: [PATCH 01/50] fix: derived realizations remember that their halos
 were already shifted

filter, filter_subhalos, join, split_at_z and realization_at_z dropped the flag that makes
shift_background_to_source idempotent, so a shifted realization could be shifted twice.
---
 pyHalo/single_realization.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index 283367d..0983496 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -49,11 +49,13 @@ def realization_at_z(realization,
     centerx, centery = realization.rendering_center
     kwargs_halo_model = realization.kwargs_halo_model
     geometry = realization.geometry
-    return Realization.from_halos(halos, realization.lens_cosmo,
+    new_realization = Realization.from_halos(halos, realization.lens_cosmo,
                                   kwargs_halo_model,
                                   mass_sheet_correction,
                                   realization.rendering_classes,
-                                  centerx, centery, geometry), indexes
+                                  centerx, centery, geometry)
+    new_realization._has_been_shifted = realization._has_been_shifted
+    return new_realization, indexes
 
 class Realization(object):
 
@@ -227,9 +229,11 @@ class Realization(object):
             dy = self.y[check, None] - np.asarray(y_coords)[None, :]
             keep[check] = np.any(np.hypot(dx, dy) < aperture_radius_arcsec, axis=1)
         halos = [self.halos[i] for i in np.where(keep)[0]]
-        return Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
+        new_realization = Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
                                       self.apply_mass_sheet_correction, self.rendering_classes,
                                       self._rendering_center_x, self._rendering_center_y, self.geometry)
+        new_realization._has_been_shifted = self._has_been_shifted
+        return new_realization
 
     def filter(self, aperture_radius,
                log10_mass_allowed_global,
@@ -315,9 +319,11 @@ class Realization(object):
             for i in inds_keep_at_plane:
                 halos.append(plane_halos[i])
 
-        return Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
+        new_realization = Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
                                       self.apply_mass_sheet_correction, self.rendering_classes,
                                       self._rendering_center_x, self._rendering_center_y, self.geometry)
+        new_realization._has_been_shifted = self._has_been_shifted
+        return new_realization
 
     def set_rendering_classes(self, rendering_classes):
 
@@ -377,9 +383,11 @@ class Realization(object):
             rendering_classes = self.rendering_classes
 
         centerx, centery = self.rendering_center
-        return Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
+        new_realization = Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
                                       self.apply_mass_sheet_correction, rendering_classes,
                                       centerx, centery, self.geometry)
+        new_realization._has_been_shifted = self._has_been_shifted
+        return new_realization
 
     def shift_background_to_source(self, ray_interp_x, ray_interp_y, min_shift_redshift=0):
         """
@@ -531,6 +539,8 @@ class Realization(object):
         realization_2 = Realization.from_halos(halos_2, self.lens_cosmo,
                                                self.kwargs_halo_model, self.apply_mass_sheet_correction, self.rendering_classes,
                                                centerx, centery, self.geometry)
+        realization_1._has_been_shifted = self._has_been_shifted
+        realization_2._has_been_shifted = self._has_been_shifted
 
         return realization_1, realization_2
 
-- 
2.43.0


From a368b9c3622c0f94b6a84cf065a72254f2beabf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:10 +0000
Subject: [PATCH 02/50] fix: realizations compare equal only if each has all
 tags of the other

---
 pyHalo/single_realization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index 0983496..541e068 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -830,8 +830,10 @@ class Realization(object):
         for tag in other_tags:
             if tag not in tags:
                 return False
-        else:
-            return True
+        for tag in tags:
+            if tag not in other_tags:
+                return False
+        return True
 
     def plot(self, ax, annotation='', color_normalization=6, marker_size_normalization=7.5, marker_size_scaling=1.0,
              view_init_1=30.0, view_init_2=70.0, r_max=None, ray_interp_x_list=None, ray_interp_y_list=None):
-- 
2.43.0


From f39a081427c40388bb70ab0e4a89608b12c44b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:10 +0000
Subject: [PATCH 03/50] fix: shifting a halo discards lens model keywords
 computed at its old position

---
 pyHalo/single_realization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index 541e068..b86c8ac 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -424,6 +424,10 @@ class Realization(object):
             for halo, xs, ys in zip(to_shift, xshift, yshift):
                 halo.x += float(xs)
                 halo.y += float(ys)
+                # the lens model keywords hold the position before the shift
+                for attr in ('_kwargs_lenstronomy', '_lenstronomy_args', '_lenstronomy_args_split'):
+                    if hasattr(halo, attr):
+                        delattr(halo, attr)
 
         new_realization = Realization.from_halos(halos_out, self.lens_cosmo, self.kwargs_halo_model,
                                                  self.apply_mass_sheet_correction,
-- 
2.43.0


From 88692a074e8bb9802208d5e819fbc527c5715304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 04/50] fix: SIS injection keeps the record that the
 realization was already shifted

---
 pyHalo/realization_extensions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 9cccdba..9b945c3 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -67,6 +67,7 @@ class RealizationExtensions(object):
                                              self._realization._rendering_center_x,
                                              self._realization._rendering_center_y,
                                              self._realization.geometry)
+        realization._has_been_shifted = self._realization._has_been_shifted
         return realization
 
     def add_black_holes(self, log10_mass_ratio,
-- 
2.43.0


From 6184eed2fc804bd4c273c3c72f3c1a2dbc77b1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:11 +0000
Subject: [PATCH 05/50] fix: a suppressed mass function over an empty mass
 range has no halos and no mass

---
 pyHalo/Rendering/MassFunctions/mass_function_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyHalo/Rendering/MassFunctions/mass_function_base.py b/pyHalo/Rendering/MassFunctions/mass_function_base.py
index 46d9914..40f6176 100644
--- a/pyHalo/Rendering/MassFunctions/mass_function_base.py
+++ b/pyHalo/Rendering/MassFunctions/mass_function_base.py
@@ -82,6 +82,10 @@ class _PowerLawTurnoverBase(object):
         self._normalization = normalization
         self._kwargs_mass_function = kwargs_mass_function
         self._mass_function_unbroken = _PowerLawBase(log_mlow, log_mhigh, power_law_index, draw_poisson, normalization)
+        if log_mlow >= log_mhigh:
+            self.n_mean = 0
+            self.first_moment = 0
+            return
         self.n_mean = integrate_power_law_quad(normalization, 10 ** log_mlow, 10 ** log_mhigh,
                                                          0.0, power_law_index, self._turnover,
                                                      self._kwargs_mass_function)
-- 
2.43.0


From 5bf6bd45a9a26ec755ab988a56b5ea0f2d69913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 06/50] fix: correlated structure keeps the positions it draws
 and reports their rescaling

---
 pyHalo/Rendering/correlated_structure.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyHalo/Rendering/correlated_structure.py b/pyHalo/Rendering/correlated_structure.py
index 858adef..9575990 100644
--- a/pyHalo/Rendering/correlated_structure.py
+++ b/pyHalo/Rendering/correlated_structure.py
@@ -58,18 +58,19 @@ class CorrelatedStructure(RenderingClassBase):
             delta_z.append(plane_redshifts[i + 1] - plane_redshifts[i])
         delta_z.append(self._realization.lens_cosmo.z_source - plane_redshifts[-1])
         rescale_indexes = []
+        rescale_factor = 1.
         for z, dz in zip(plane_redshifts, delta_z):
             d = self._lens_cosmo.cosmo.D_C_transverse(z)
             x_angle = x_center_interp(d)
             y_angle = y_center_interp(d)
-            _m, _x, _y, halo_inds, rescale_factor = self.render_at_z(z, x_angle, y_angle,
+            _m, _x, _y, halo_inds, _rescale_factor = self.render_at_z(z, x_angle, y_angle,
                                                 rmax, arcsec_per_pixel)
             # find all halos within rmax of coordinate
-            _x, _y = self._halo_x, self._halo_y
-            dr = np.hypot(_x - x_angle, _y - y_angle)
+            dr = np.hypot(self._halo_x - x_angle, self._halo_y - y_angle)
             indexes = list(np.where(np.logical_and(self._halo_redshifts == z, dr < rmax))[0])
             rescale_indexes += list(indexes)
             if len(_m) > 0:
+                rescale_factor = _rescale_factor
                 _z = np.array([z] * len(_x))
                 masses = np.append(masses, _m)
                 x = np.append(x, _x)
-- 
2.43.0


From 96d6b6a0ed7a2f488438a5b60c69df53f5fec48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 07/50] fix: mass in the aperture uses the area of the pixels
 inside it

---
 pyHalo/Rendering/correlated_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Rendering/correlated_structure.py b/pyHalo/Rendering/correlated_structure.py
index 9575990..7999206 100644
--- a/pyHalo/Rendering/correlated_structure.py
+++ b/pyHalo/Rendering/correlated_structure.py
@@ -173,7 +173,7 @@ class CorrelatedStructure(RenderingClassBase):
         pdf[inds_zero] = 0.
         inds_nan = np.where(np.isnan(pdf))
         pdf[inds_nan] = 0.
-        npixels = len(inds_zero)
+        npixels = len(rr) - len(inds_zero)
         effective_area = np.pi * rendering_radius ** 2 / npixels
         mass_in_area = self._mass_in_area(pdf, z, effective_area)
         return pdf.reshape(shape0), mass_in_area, halo_indexes
-- 
2.43.0


From 907a4decd838b59def29e6e49cc7dda4597ccb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 08/50] fix: halos are rescaled when any image has correlated
 structure

---
 pyHalo/realization_extensions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 9b945c3..848a349 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -1025,10 +1025,13 @@ class RealizationExtensions(object):
                  self._realization.geometry, self._realization.lens_cosmo, lens_plane_redshifts,
                                                    delta_z_list, self._realization)
         rescale_indicies = []
+        rescale_factor = 1.
         for image_index, (x_image_interp, y_image_interp) in enumerate(zip(x_image_interp_list, y_image_interp_list)):
-            masses, x, y, r3d, redshifts, subhalo_flag, rescale_factor, _rescale_indicies = correlated_structure.render(
+            masses, x, y, r3d, redshifts, subhalo_flag, _rescale_factor, _rescale_indicies = correlated_structure.render(
                 r_max, x_image_interp, y_image_interp, arcsec_per_pixel)
             rescale_indicies += list(_rescale_indicies)
+            if len(masses) > 0:
+                rescale_factor = _rescale_factor
             mdefs = [mass_definition] * len(masses)
             kwargs_halo_model = {'truncation_model': None, 'concentration_model': None, 'kwargs_density_profile': {}}
             if image_index==0:
-- 
2.43.0


From d981e1ab077dea8faf6389e1fd8b833cae1ce19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 09/50] fix: clustered primordial black holes follow the
 requested mass function

---
 pyHalo/realization_extensions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 848a349..c3c927b 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -1144,17 +1144,19 @@ class RealizationExtensions(object):
                                          mass_sheet_correction=False)
         kwargs_pbh_mass_function = {}
         if mass_function_type == 'DELTA':
+            mass_function_model = DeltaFunction
             kwargs_pbh_mass_function['mass_fraction'] = mass_fraction_clumpy
             kwargs_pbh_mass_function['logM'] = logM_pbh
             kwargs_pbh_mass_function['mass_function_type'] = mass_function_type
         elif mass_function_type == 'GAUSSIAN':
+            mass_function_model = Gaussian
             kwargs_pbh_mass_function['mass_fraction'] = mass_fraction_clumpy
             kwargs_pbh_mass_function['logM'] = logM_pbh
             kwargs_pbh_mass_function['logM_sigma'] = logM_pbh_sigma
             kwargs_pbh_mass_function['mass_function_type'] = mass_function_type
         else:
             raise ValueError('mass_function_type must be either DELTA or GAUSSIAN')
-        realization_with_clustering = self.add_correlated_structure(DeltaFunction,
+        realization_with_clustering = self.add_correlated_structure(mass_function_model,
                                                                          kwargs_pbh_mass_function,
                                                                          mass_definition,
                                                                         x_image_interp_list,
-- 
2.43.0


From 2fd582aaf45ffb95594d4892c4b6a862a36939cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 10/50] fix: clustered primordial black holes use the rendering
 radius of each image

---
 pyHalo/realization_extensions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index c3c927b..6ad77f0 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -1026,9 +1026,10 @@ class RealizationExtensions(object):
                                                    delta_z_list, self._realization)
         rescale_indicies = []
         rescale_factor = 1.
+        r_max_list = np.full(len(x_image_interp_list), r_max)
         for image_index, (x_image_interp, y_image_interp) in enumerate(zip(x_image_interp_list, y_image_interp_list)):
             masses, x, y, r3d, redshifts, subhalo_flag, _rescale_factor, _rescale_indicies = correlated_structure.render(
-                r_max, x_image_interp, y_image_interp, arcsec_per_pixel)
+                r_max_list[image_index], x_image_interp, y_image_interp, arcsec_per_pixel)
             rescale_indicies += list(_rescale_indicies)
             if len(masses) > 0:
                 rescale_factor = _rescale_factor
@@ -1162,7 +1163,7 @@ class RealizationExtensions(object):
                                                                         x_image_interp_list,
                                                                         y_image_interp_list,
                                                                          arcsec_per_pixel,
-                                                                            r_max,
+                                                                            r_max_arcsec,
                                                                          rescale_normalizations)
         return realization_with_clustering.join(realization_smooth)
 
-- 
2.43.0


From 9df715195313d34a1dddf6f1ee1a88aacedade8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:34 +0000
Subject: [PATCH 11/50] fix: the emulator preset model name loads the emulator
 subhalo function

---
 pyHalo/preset_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/preset_models.py b/pyHalo/preset_models.py
index 3138a40..9d45fd2 100644
--- a/pyHalo/preset_models.py
+++ b/pyHalo/preset_models.py
@@ -34,8 +34,8 @@ def preset_model_from_name(name, custom_function=None):
         from pyHalo.PresetModels.uldm import ULDM
         return ULDM
     elif name == 'DMEmulator':
-        from pyHalo.PresetModels.external import DMFromEmulator
-        return DMFromEmulator
+        from pyHalo.PresetModels.external import DMSubhalosFromEmulator
+        return DMSubhalosFromEmulator
     elif name == 'WDM_mixed':
         from pyHalo.PresetModels.wdm import WDM_mixed
         return WDM_mixed
-- 
2.43.0


From ea1e661de67c8b8fa158e7c24adbafd304cda2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 12/50] fix: concentration models do not share or modify their
 CDM options

---
 pyHalo/Halos/concentration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyHalo/Halos/concentration.py b/pyHalo/Halos/concentration.py
index 8147402..144dbd1 100644
--- a/pyHalo/Halos/concentration.py
+++ b/pyHalo/Halos/concentration.py
@@ -363,6 +363,7 @@ class ConcentrationWDMPolynomial(_ConcentrationTurnover):
         :param scatter_dex: scatter in concentration in dex
         :param kwargs_cdm: keyword arguments for the CDM concentration class
         """
+        kwargs_cdm = dict(kwargs_cdm)
         if 'scatter' not in kwargs_cdm.keys():
             kwargs_cdm['scatter'] = scatter
         if 'scatter_dex' not in kwargs_cdm.keys():
@@ -407,6 +408,7 @@ class ConcentrationWDMHyperbolic(_ConcentrationTurnover):
         :param concentration_cdm_class:
         :param kwargs_cdm:
         """
+        kwargs_cdm = dict(kwargs_cdm)
         if 'scatter' not in kwargs_cdm.keys():
             kwargs_cdm['scatter'] = scatter
         if 'scatter_dex' not in kwargs_cdm.keys():
-- 
2.43.0


From b7d5bacccb66d5f8e94fe0f4d773921a26e9f065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:23 +0000
Subject: [PATCH 13/50] fix: approximate CDM truncation radii can be computed
 from halo parameters

---
 pyHalo/Halos/tidal_truncation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/tidal_truncation.py b/pyHalo/Halos/tidal_truncation.py
index 3196f6a..c02a84a 100644
--- a/pyHalo/Halos/tidal_truncation.py
+++ b/pyHalo/Halos/tidal_truncation.py
@@ -571,7 +571,7 @@ class TruncationGalacticusApproxCDM(object):
         :param z_eval:
         :return:
         """
-        m_bound = self.calculate_mbound(halo_mass)
+        m_bound = halo_mass * self.compute_f_bound
         _, rs, r200 = self._lens_cosmo.NFW_params_physical(halo_mass,
                                                         infall_concentration,
                                                         z_eval,
-- 
2.43.0


From b15d91e51a185e51b5c71431b7380a0098ab1c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:23 +0000
Subject: [PATCH 14/50] fix: the radius of the largest circular velocity is
 defined for all supported profiles

---
 .../transfer_function_density_profile.py                     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
index bead454..83ffca1 100644
--- a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
+++ b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
@@ -4,6 +4,7 @@ import numpy as np
 from scipy.special import hyp2f1
 from scipy.integrate import quad
 from scipy.interpolate import interp1d
+from scipy.optimize import newton
 
 
 # Implement the transfer function of subhalo density profile.
@@ -447,7 +448,7 @@ def _R_max_generalized_NFW_dimensionless(alpha=1.0, beta=3.0, gamma=1.0):
         if (beta == 3.0):
             if (gamma < 2.0):
                 if (gamma == 0.0):
-                    Rmx = 2.919847688299723
+                    Rmax = 2.919847688299723
                 else:
                     status = 0
             else:
@@ -455,7 +456,7 @@ def _R_max_generalized_NFW_dimensionless(alpha=1.0, beta=3.0, gamma=1.0):
         elif (beta == 4.0):
             if (gamma < 2.0):
                 if (gamma == 0.0):
-                    Rmx = 1.825255642519694
+                    Rmax = 1.825255642519694
                 else:
                     status = 0
             else:
-- 
2.43.0


From 54c36c26766670647e224896edab94e9dba4c9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:25 +0000
Subject: [PATCH 15/50] fix: setting up the infall redshift model does not
 modify the caller's options

---
 pyHalo/Halos/lens_cosmo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyHalo/Halos/lens_cosmo.py b/pyHalo/Halos/lens_cosmo.py
index 794680e..27ffc82 100644
--- a/pyHalo/Halos/lens_cosmo.py
+++ b/pyHalo/Halos/lens_cosmo.py
@@ -88,6 +88,7 @@ class LensCosmo(object):
         :return:
         """
         self._infall_pdf_set = True
+        kwargs_infall_model = dict(kwargs_infall_model or {}) # the options of the caller are not modified
         if infall_redshift_model in ['DIRECT_INFALL', 'HYBRID_INFALL']:
             if 'm_host' in list(kwargs_infall_model.keys()):
                 kwargs_infall_model['log_m_host'] = numpy.log10(kwargs_infall_model['m_host'])
-- 
2.43.0


From cb6804852b033d98e8c7ab6169896903ecc5d2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 16/50] fix: the maximum circular velocity of a halo follows a
 rescaling of its normalization

---
 pyHalo/Halos/halo_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyHalo/Halos/halo_base.py b/pyHalo/Halos/halo_base.py
index 9d01995..7e5df70 100644
--- a/pyHalo/Halos/halo_base.py
+++ b/pyHalo/Halos/halo_base.py
@@ -79,6 +79,8 @@ class Halo(ABC):
                 delattr(self, '_kwargs_lenstronomy')
             if hasattr(self, '_nfw_params'):
                 delattr(self, '_nfw_params')
+            if hasattr(self, '_vmax'):
+                delattr(self, '_vmax')
         elif self._rescaled_once:
             pass
         else:
@@ -91,6 +93,8 @@ class Halo(ABC):
                 delattr(self, '_kwargs_lenstronomy')
             if hasattr(self, '_nfw_params'):
                 delattr(self, '_nfw_params')
+            if hasattr(self, '_vmax'):
+                delattr(self, '_vmax')
 
     @property
     @abstractmethod
-- 
2.43.0


From d4a0d5fb04840120b0c03b8014ab71a88d14a9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 17/50] fix: the mass of a TNFW subhalo does not depend on
 which property is read first

---
 pyHalo/Halos/HaloModels/TNFW.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/TNFW.py b/pyHalo/Halos/HaloModels/TNFW.py
index 3bdfca7..8d892fb 100644
--- a/pyHalo/Halos/HaloModels/TNFW.py
+++ b/pyHalo/Halos/HaloModels/TNFW.py
@@ -140,9 +140,10 @@ class TNFWFieldHalo(Halo):
         """
         if rmax == 'r200':
             rmax = self.nfw_params[1] * self.c
+        # the truncation model can rescale the normalization, evaluate it first
+        r_trunc = self.profile_args[1]
         rs = self.nfw_params[1]
         rho0 = self.nfw_params[0] * self._rescale_norm
-        r_trunc = self.profile_args[1]
         return self.tnfw_lenstronomy.mass_3d(rmax, rs, rho0, r_trunc/rs)
 
     def density_profile_3d_lenstronomy(self, r, profile_args=None):
-- 
2.43.0


From b332e9eb54f583997ceef15ac36b4e06b58fbe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 18/50] fix: projected mass of TNFW halos with current numpy
 versions

---
 pyHalo/Halos/HaloModels/TNFW.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/TNFW.py b/pyHalo/Halos/HaloModels/TNFW.py
index 8d892fb..75bd6fc 100644
--- a/pyHalo/Halos/HaloModels/TNFW.py
+++ b/pyHalo/Halos/HaloModels/TNFW.py
@@ -94,7 +94,7 @@ class TNFWFieldHalo(Halo):
         sigma_crit_mpc = self._lens_cosmo.get_sigma_crit_lensing(self.z, self._lens_cosmo.z_source)
         sigma_crit_kpc = sigma_crit_mpc * 1e-6
         sigma_crit_arcsec = sigma_crit_kpc * kpc_per_arcsec ** 2
-        return np.trapz(kappa * 2 * np.pi * x, x) * sigma_crit_arcsec
+        return np.trapezoid(kappa * 2 * np.pi * x, x) * sigma_crit_arcsec
 
     def deflection_angle(self, r_arcsec):
         """
-- 
2.43.0


From 24cf3ac7d614367c15f889dc9dfe26c813bf9258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 19/50] fix: the density profiles of NFW and TNFW halos include
 the rescaling of their normalization, as their masses do

---
 pyHalo/Halos/HaloModels/NFW.py  | 2 +-
 pyHalo/Halos/HaloModels/TNFW.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/NFW.py b/pyHalo/Halos/HaloModels/NFW.py
index 3c40c16..34e3f02 100644
--- a/pyHalo/Halos/HaloModels/NFW.py
+++ b/pyHalo/Halos/HaloModels/NFW.py
@@ -33,7 +33,7 @@ class NFWFieldHalo(Halo):
         """
         rhos, rs, _ = self.lens_cosmo.NFW_params_physical(self.mass, self.c, self.z_eval)
         x = r/rs
-        return scaling * rhos / x / (1 + x) ** 2
+        return scaling * self._rescale_norm * rhos / x / (1 + x) ** 2
 
     @property
     def lenstronomy_ID(self):
diff --git a/pyHalo/Halos/HaloModels/TNFW.py b/pyHalo/Halos/HaloModels/TNFW.py
index 75bd6fc..1eb791b 100644
--- a/pyHalo/Halos/HaloModels/TNFW.py
+++ b/pyHalo/Halos/HaloModels/TNFW.py
@@ -129,7 +129,7 @@ class TNFWFieldHalo(Halo):
         tau = rt / rs
         x = r / rs
         rho_nfw = rhos / x / (1 + x) ** 2
-        return scaling * rho_nfw * tau ** 2 / (tau ** 2 + x ** 2)
+        return scaling * self._rescale_norm * rho_nfw * tau ** 2 / (tau ** 2 + x ** 2)
 
     def mass_3d(self, rmax, profile_args=None):
         """
-- 
2.43.0


From 5af07edefa7cca03578546442969cf0d3f80dc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 20/50] fix: the central density of Pseudo-Jaffe halos is
 finite

---
 pyHalo/Halos/HaloModels/PsuedoJaffe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/PsuedoJaffe.py b/pyHalo/Halos/HaloModels/PsuedoJaffe.py
index ed33abc..d22bece 100644
--- a/pyHalo/Halos/HaloModels/PsuedoJaffe.py
+++ b/pyHalo/Halos/HaloModels/PsuedoJaffe.py
@@ -35,7 +35,7 @@ class PJaffeSubhalo(Halo):
             concentration = self.profile_args
             rhos, rs, r200 = self._lens_cosmo.NFW_params_physical(self.mass, concentration, self.z_eval)
             ra_kpc = 0.01 * rs
-            rho = self._rho(self.mass, ra_kpc, ra_kpc, self.c * rs)
+            rho = self._rho(self.mass, rs, ra_kpc, self.c * rs)
             self._params_physical = {'rhos': rhos, 'rs': rs, 'r200': r200, 'rho': rho}
 
         return self._params_physical
-- 
2.43.0


From fb3c3deb490ee6c46343da73d0f6e77b6ba3aca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 21/50] fix: generalized NFW halos do not share the scale
 radius of the first halo evaluated

---
 pyHalo/Halos/HaloModels/generalized_nfw.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/generalized_nfw.py b/pyHalo/Halos/HaloModels/generalized_nfw.py
index 81020d4..36ef01e 100644
--- a/pyHalo/Halos/HaloModels/generalized_nfw.py
+++ b/pyHalo/Halos/HaloModels/generalized_nfw.py
@@ -99,8 +99,7 @@ class GeneralNFWSubhalo(Halo):
         if not hasattr(self, '_rho0_norm'):
             (concentration, gamma_inner, gamma_outer) = self.profile_args
             rhos, rs_nfw, r200 = self._lens_cosmo.NFW_params_physical(self.mass, concentration, self.z_eval)
-            if 'r_transition' not in self._args.keys():
-                self._args['r_transition'] = rs_nfw
+            r_transition = self._args.get('r_transition', rs_nfw)
             kpc_per_arcsec = self._lens_cosmo.cosmo.kpc_proper_per_asec(self.z)
             if 'x_match' in self._args.keys():
                 if self._args['x_match'] == 'c':
@@ -110,13 +109,13 @@ class GeneralNFWSubhalo(Halo):
             else:
                 # r_vmax = 2.16 * rs
                 x_match = 2.16
-            rs_arcsec = self._args['r_transition'] / kpc_per_arcsec
-            r_match_arcsec = x_match * self._args['r_transition'] / kpc_per_arcsec
+            rs_arcsec = r_transition / kpc_per_arcsec
+            r_match_arcsec = x_match * r_transition / kpc_per_arcsec
             if 'mass_conservation' in self._args.keys():
                 m_match = self._args['mass_conservation']
             else:
                 fx = np.log(1 + x_match) - x_match / (1 + x_match)
-                m_match = 4 * np.pi * self._args['r_transition'] ** 3 * rhos * fx
+                m_match = 4 * np.pi * r_transition ** 3 * rhos * fx
             sigma_crit_arcsec = self._lens_cosmo.sigma_crit_arcsecond_interp(self.z)
             self._rho0_norm = m_match / self._prof.mass_3d(r_match_arcsec, rs_arcsec, sigma_crit_arcsec, gamma_inner, gamma_outer)
         return self._rho0_norm
-- 
2.43.0


From 6206c3ca3df1c961582e6c9504febca3095cfb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 22/50] fix: lens model keywords of massive galaxies can be
 computed more than once

---
 pyHalo/Halos/HaloModels/sis.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/sis.py b/pyHalo/Halos/HaloModels/sis.py
index 5e3e364..6573552 100644
--- a/pyHalo/Halos/HaloModels/sis.py
+++ b/pyHalo/Halos/HaloModels/sis.py
@@ -183,7 +183,7 @@ class MassiveGalaxy(Halo):
         Calculates the density normalization that conserves mass within x_match
         :return:
         """
-        if not hasattr(self, '_rho0_norm'):
+        if not hasattr(self, '_alpha_Rs_norm'):
             kpc_per_arcsec = self._lens_cosmo.cosmo.kpc_proper_per_asec(self.z)
             m_nfw = self._nfw_halo.mass_3d('r200')
             if self._nfw_halo.is_subhalo:
@@ -197,12 +197,12 @@ class MassiveGalaxy(Halo):
             gamma_outer = self._args['gamma_outer']
             sigma_crit_mpc = self._lens_cosmo.get_sigma_crit_lensing(self.z, self._lens_cosmo.z_source)
             sigma_crit_arcsec = sigma_crit_mpc * (0.001 * kpc_per_arcsec) ** 2
-            self._alphaRs = m_nfw / self._prof.mass_3d_lens(r_match_arcsec,
-                                                            rs_arcsec,
-                                                            1.0,
-                                                            gamma_inner,
-                                                            gamma_outer) / sigma_crit_arcsec
-        return self._alphaRs
+            self._alpha_Rs_norm = m_nfw / self._prof.mass_3d_lens(r_match_arcsec,
+                                                                  rs_arcsec,
+                                                                  1.0,
+                                                                  gamma_inner,
+                                                                  gamma_outer) / sigma_crit_arcsec
+        return self._alpha_Rs_norm
 
 
 
-- 
2.43.0


From ad8dbb7e690ed8b1f61a78da8674e3a212afc44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 23/50] fix: rescaling the normalization of parametric cored
 halos rescales their deflections

---
 pyHalo/Halos/HaloModels/NFW_core_trunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/NFW_core_trunc.py b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
index 710603f..5a24397 100644
--- a/pyHalo/Halos/HaloModels/NFW_core_trunc.py
+++ b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
@@ -133,7 +133,7 @@ class TNFWCHaloParametric(Halo):
             r_core_angle = rc_kpc / kpc_per_arcsec
             r_trunc_angle = rt_kpc / kpc_per_arcsec
             x, y = np.round(self.x, 4), np.round(self.y, 4)
-            kwargs = [{'alpha_Rs': alpha_Rs,
+            kwargs = [{'alpha_Rs': self._rescale_norm * alpha_Rs,
                        'Rs': Rs_angle,
                        'center_x': x, 'center_y': y,
                        'r_trunc': r_trunc_angle,
-- 
2.43.0


From 7d6317479dd1f247962d2a3853e7d8d5f1385dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 24/50] fix: physical parameters of emulated subhalos include
 the rescaling of their normalization

---
 pyHalo/Halos/HaloModels/TNFWemulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/TNFWemulator.py b/pyHalo/Halos/HaloModels/TNFWemulator.py
index cd8b8e9..c8472c9 100644
--- a/pyHalo/Halos/HaloModels/TNFWemulator.py
+++ b/pyHalo/Halos/HaloModels/TNFWemulator.py
@@ -134,7 +134,7 @@ class TNFWSubhaloEmulator(Halo):
         if not hasattr(self, '_params_physical'):
             [concentration, rt] = self.profile_args
             rhos, rs, r200 = self._lens_cosmo.NFW_params_physical(self.mass, concentration, self.z)
-            self._params_physical = {'rhos': rhos, 'rs': rs, 'r200': r200, 'r_trunc_kpc': rt}
+            self._params_physical = {'rhos': rhos * self._rescale_norm, 'rs': rs, 'r200': r200, 'r_trunc_kpc': rt}
 
         return self._params_physical
 
-- 
2.43.0


From e3c632d7905955c7d09b5f6cfded1f55ec3228e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:51 +0000
Subject: [PATCH 25/50] fix: halos defined by physical parameters can be
 rescaled

---
 pyHalo/Halos/HaloModels/TNFWFromParams.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/TNFWFromParams.py b/pyHalo/Halos/HaloModels/TNFWFromParams.py
index b56cde4..9b2b476 100644
--- a/pyHalo/Halos/HaloModels/TNFWFromParams.py
+++ b/pyHalo/Halos/HaloModels/TNFWFromParams.py
@@ -24,8 +24,8 @@ class TNFWFromParams(TNFWSubhalo):
         x = x_kpc / self._kpc_per_arcsec_at_z
         y = y_kpc / self._kpc_per_arcsec_at_z
         keys_physical = (self.KEY_RV,self.KEY_RS,self.KEY_RHO_S,self.KEY_RV,self.KEY_RT)
-        self._params_physical = {key:args[key] for key in keys_physical}
-        self._c = self._params_physical[self.KEY_RV] / self._params_physical[self.KEY_RS]
+        self._params_input = {key:args[key] for key in keys_physical}
+        self._c = self._params_input[self.KEY_RV] / self._params_input[self.KEY_RS]
         self.id = args.get(self.KEY_ID)
         self._z_infall = args.get(self.KEY_Z_INFALL)
         super(TNFWFromParams, self).__init__(mass,x,y,r3d,z,sub_flag,lens_cosmo_instance,args,None,None,unique_tag)
@@ -37,7 +37,7 @@ class TNFWFromParams(TNFWSubhalo):
         :return: the density profile in units M_sun / kpc^3
         """
 
-        _params = self._params_physical if params_physical is None else params_physical
+        _params = self.params_physical if params_physical is None else params_physical
 
         r_t = _params[self.KEY_RT]
         r_s = _params[self.KEY_RS]
@@ -53,6 +53,16 @@ class TNFWFromParams(TNFWSubhalo):
         return density_nfw * (tau**2 / (tau**2 + x**2))**n
 
 
+    @property
+    def params_physical(self):
+        """
+        The physical parameters passed in the args argument, with the density rescaled by the normalization factor
+        """
+        if not hasattr(self, '_params_physical'):
+            self._params_physical = dict(self._params_input)
+            self._params_physical[self.KEY_RHO_S] = self._rescale_norm * self._params_input[self.KEY_RHO_S]
+        return self._params_physical
+
     @property
     def profile_args(self):
         """
@@ -75,7 +85,7 @@ class TNFWFromParams(TNFWSubhalo):
 
             r_t = self.params_physical[self.KEY_RT]
             r_s = self.params_physical[self.KEY_RS]
-            rho_s = self.params_physical[self.KEY_RHO_S]
+            rho_s = self._params_input[self.KEY_RHO_S]
 
             Rs_angle, theta_Rs = self.lens_cosmo.nfw_physical2angle_fromNFWparams(rho_s *1 / KPC_TO_MPC**3,r_s * KPC_TO_MPC,self.z)
 
-- 
2.43.0


From 0cdeadfd2992b07903ce6274a1027627dc1414cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:51 +0000
Subject: [PATCH 26/50] fix: hybrid halos can be moved and rescaled

---
 pyHalo/Halos/HaloModels/NFW_core_trunc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/NFW_core_trunc.py b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
index 5a24397..1737e99 100644
--- a/pyHalo/Halos/HaloModels/NFW_core_trunc.py
+++ b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
@@ -335,8 +335,9 @@ class Hybrid(Halo):
             self._c = self.tnfw_halo.c
         return self._c
 
+    @property
     def profile_args(self):
-        return [self.tnfw_halo.profile_args(), self.tnfwc_halo.profile_args()]
+        return [self.tnfw_halo.profile_args, self.tnfwc_halo.profile_args]
 
     @property
     def lenstronomy_params(self):
@@ -346,8 +347,11 @@ class Hybrid(Halo):
         if not hasattr(self, '_kwargs_lenstronomy'):
             lenstronomy_params_tnfw = deepcopy(self.tnfw_halo.lenstronomy_params[0])
             lenstronomy_params_tnfwc = deepcopy(self.tnfwc_halo.lenstronomy_params[0])
-            lenstronomy_params_tnfw[0]['alpha_Rs'] *= 1-self._rescaling_factor
-            lenstronomy_params_tnfwc[0]['alpha_Rs'] *= self._rescaling_factor
+            lenstronomy_params_tnfw[0]['alpha_Rs'] *= self._rescale_norm * (1-self._rescaling_factor)
+            lenstronomy_params_tnfwc[0]['alpha_Rs'] *= self._rescale_norm * self._rescaling_factor
+            x, y = np.round(self.x, 4), np.round(self.y, 4)
+            for kwargs in (lenstronomy_params_tnfw[0], lenstronomy_params_tnfwc[0]):
+                kwargs['center_x'], kwargs['center_y'] = x, y
             self._kwargs_lenstronomy = lenstronomy_params_tnfw + lenstronomy_params_tnfwc
         return self._kwargs_lenstronomy, None
 
-- 
2.43.0


From c9fd011a1fa447a021072ac6f912fa6176fd95a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 27/50] fix: projected mass of core collapsed halos in
 consistent units

---
 pyHalo/Halos/HaloModels/core_collapsed_halo.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/core_collapsed_halo.py b/pyHalo/Halos/HaloModels/core_collapsed_halo.py
index 564cb73..cb750eb 100644
--- a/pyHalo/Halos/HaloModels/core_collapsed_halo.py
+++ b/pyHalo/Halos/HaloModels/core_collapsed_halo.py
@@ -106,9 +106,7 @@ class CoreCollapsedHalo(Halo):
         kappa = self.kappa(r)
         sigma_crit_mpc = self._lens_cosmo.get_sigma_crit_lensing(self.z, self._lens_cosmo.z_source)
         sigma_crit_kpc = sigma_crit_mpc * 1e-6
-        sigma_crit_arcsec = (sigma_crit_kpc *
-                             self._lens_cosmo.cosmo.kpc_proper_per_asec(self.z) ** 2)
-        return np.trapezoid(kappa * 2 * np.pi * r, r) * sigma_crit_arcsec
+        return np.trapezoid(kappa * 2 * np.pi * r, r) * sigma_crit_kpc
 
     @property
     def c(self):
-- 
2.43.0


From 2aac41dd677e3bc38757ed15b52c30ec85011e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 28/50] fix: the components of a core collapsed halo with a
 black hole do not replace its lens model keywords

---
 pyHalo/Halos/HaloModels/core_collapsed_halo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/core_collapsed_halo.py b/pyHalo/Halos/HaloModels/core_collapsed_halo.py
index cb750eb..7645718 100644
--- a/pyHalo/Halos/HaloModels/core_collapsed_halo.py
+++ b/pyHalo/Halos/HaloModels/core_collapsed_halo.py
@@ -321,9 +321,9 @@ class CoreCollapsedHaloBH(CoreCollapsedHalo):
                                'Rs': Rs_angle,
                         'alpha_Rs': alpha_Rs_envelope,
                         'r_trunc': r_trunc_arcsec}
-            kwargs_center = {'theta_E': theta_E_inner, 'center_x': x, 'cetner_y': y}
-            self._lenstronomy_args = [kwargs_center, kwargs_envelope]
-        return self._lenstronomy_args, None
+            kwargs_center = {'theta_E': theta_E_inner, 'center_x': x, 'center_y': y}
+            self._lenstronomy_args_split = [kwargs_center, kwargs_envelope]
+        return self._lenstronomy_args_split, None
 
     @property
     def lenstronomy_params(self):
-- 
2.43.0


From a5d4081ebefef3aff4f51faeb1166023527beece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:43 +0000
Subject: [PATCH 29/50] fix: rescaling the normalization of a halo applies to
 its lens model for all extended profiles

---
 pyHalo/Halos/HaloModels/PsuedoJaffe.py         |  5 +++--
 pyHalo/Halos/HaloModels/core_collapsed_halo.py | 14 +++++++-------
 pyHalo/Halos/HaloModels/generalized_nfw.py     |  2 +-
 pyHalo/Halos/HaloModels/powerlaw.py            |  2 +-
 pyHalo/Halos/HaloModels/sis.py                 |  4 ++--
 pyHalo/Halos/halo_base.py                      | 10 ++++++----
 6 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/PsuedoJaffe.py b/pyHalo/Halos/HaloModels/PsuedoJaffe.py
index d22bece..bb747b8 100644
--- a/pyHalo/Halos/HaloModels/PsuedoJaffe.py
+++ b/pyHalo/Halos/HaloModels/PsuedoJaffe.py
@@ -36,7 +36,8 @@ class PJaffeSubhalo(Halo):
             rhos, rs, r200 = self._lens_cosmo.NFW_params_physical(self.mass, concentration, self.z_eval)
             ra_kpc = 0.01 * rs
             rho = self._rho(self.mass, rs, ra_kpc, self.c * rs)
-            self._params_physical = {'rhos': rhos, 'rs': rs, 'r200': r200, 'rho': rho}
+            self._params_physical = {'rhos': rhos, 'rs': rs, 'r200': r200,
+                                     'rho': self._rescale_norm * rho}
 
         return self._params_physical
 
@@ -80,7 +81,7 @@ class PJaffeSubhalo(Halo):
                                       'center_y': self.y,
                                       'Ra': ra_arcsec,
                                       'Rs': rs_arcsec,
-                                      'sigma0': sigma0}]
+                                      'sigma0': self._rescale_norm * sigma0}]
 
         return self._lenstronomy_args, None
 
diff --git a/pyHalo/Halos/HaloModels/core_collapsed_halo.py b/pyHalo/Halos/HaloModels/core_collapsed_halo.py
index 7645718..bfe8411 100644
--- a/pyHalo/Halos/HaloModels/core_collapsed_halo.py
+++ b/pyHalo/Halos/HaloModels/core_collapsed_halo.py
@@ -131,7 +131,7 @@ class CoreCollapsedHalo(Halo):
             Rs_angle = np.round(Rs_angle, 10)
             alpha_Rs_center = np.round(alpha_Rs_center, 10)
             Rs_angle_inner = np.round(Rs_angle_inner, 10)
-            kwargs_collpsed_center = {'alpha_Rs': alpha_Rs_center,
+            kwargs_collpsed_center = {'alpha_Rs': self._rescale_norm * alpha_Rs_center,
                                       'Rs': Rs_angle_inner,
                                       'center_x': x,
                                       'center_y': y,
@@ -140,7 +140,7 @@ class CoreCollapsedHalo(Halo):
 
             r_trunc_arcsec = np.round(r_trunc_arcsec, 10)
             alpha_Rs_envelope = np.round(alpha_Rs_envelope, 10)
-            kwargs_envelope = {'alpha_Rs': alpha_Rs_envelope,
+            kwargs_envelope = {'alpha_Rs': self._rescale_norm * alpha_Rs_envelope,
                                'Rs': Rs_angle,
                                'center_x': x,
                                'center_y': y,
@@ -164,7 +164,7 @@ class CoreCollapsedHalo(Halo):
             r_trunc_arcsec = round(float(r_trunc_arcsec), 10)
             alpha_Rs_envelope = round(float(alpha_Rs_envelope), 10)
             kwargs = {'center_x': x, 'center_y': y, 'Rs_inner': Rs_angle_inner, 'Rs_outer': Rs_angle,
-                      'alpha_Rs_inner': alpha_Rs_center, 'alpha_Rs_outer': alpha_Rs_envelope,
+                      'alpha_Rs_inner': self._rescale_norm * alpha_Rs_center, 'alpha_Rs_outer': self._rescale_norm * alpha_Rs_envelope,
                       'r_trunc': r_trunc_arcsec, 'gamma_inner': gamma_inner, 'gamma_outer': gamma_outer}
             self._lenstronomy_args = [kwargs]
         return self._lenstronomy_args, None
@@ -319,9 +319,9 @@ class CoreCollapsedHaloBH(CoreCollapsedHalo):
             kwargs_envelope = {'center_x': x,
                                'center_y': y,
                                'Rs': Rs_angle,
-                        'alpha_Rs': alpha_Rs_envelope,
+                        'alpha_Rs': self._rescale_norm * alpha_Rs_envelope,
                         'r_trunc': r_trunc_arcsec}
-            kwargs_center = {'theta_E': theta_E_inner, 'center_x': x, 'center_y': y}
+            kwargs_center = {'theta_E': np.sqrt(self._rescale_norm) * theta_E_inner, 'center_x': x, 'center_y': y}
             self._lenstronomy_args_split = [kwargs_center, kwargs_envelope]
         return self._lenstronomy_args_split, None
 
@@ -340,8 +340,8 @@ class CoreCollapsedHaloBH(CoreCollapsedHalo):
             theta_E_inner = np.round(theta_E_inner, 10)
             kwargs = {'center_x': x, 'center_y': y,
                       'Rs_outer': Rs_angle,
-                      'theta_E_inner': theta_E_inner,
-                      'alpha_Rs_outer': alpha_Rs_envelope,
+                      'theta_E_inner': np.sqrt(self._rescale_norm) * theta_E_inner,
+                      'alpha_Rs_outer': self._rescale_norm * alpha_Rs_envelope,
                       'r_trunc': r_trunc_arcsec}
             self._lenstronomy_args = [kwargs]
         return self._lenstronomy_args, None
diff --git a/pyHalo/Halos/HaloModels/generalized_nfw.py b/pyHalo/Halos/HaloModels/generalized_nfw.py
index 36ef01e..5077b95 100644
--- a/pyHalo/Halos/HaloModels/generalized_nfw.py
+++ b/pyHalo/Halos/HaloModels/generalized_nfw.py
@@ -66,7 +66,7 @@ class GeneralNFWSubhalo(Halo):
             x, y = np.round(self.x, 4), np.round(self.y, 4)
             rs_arcsec = np.round(rs_arcsec, 10)
             alpha_Rs = np.round(alpha_Rs, 10)
-            self._lenstronomy_args = [{'alpha_Rs': alpha_Rs, 'Rs': rs_arcsec, 'gamma_inner': gamma_inner, 'center_x': x, 'center_y': y,
+            self._lenstronomy_args = [{'alpha_Rs': self._rescale_norm * alpha_Rs, 'Rs': rs_arcsec, 'gamma_inner': gamma_inner, 'center_x': x, 'center_y': y,
                                       'gamma_outer': gamma_outer}]
         return self._lenstronomy_args, None
 
diff --git a/pyHalo/Halos/HaloModels/powerlaw.py b/pyHalo/Halos/HaloModels/powerlaw.py
index 698dbc8..6001683 100644
--- a/pyHalo/Halos/HaloModels/powerlaw.py
+++ b/pyHalo/Halos/HaloModels/powerlaw.py
@@ -48,7 +48,7 @@ class PowerLawSubhalo(Halo):
             sigma_crit_arcsec = sigma_crit_mpc * (0.001 * kpc_per_arcsec) ** 2
             rho0 = m/self._prof.mass_3d(r_match_arcsec, sigma_crit_arcsec, r_core_arcsec, gamma)
             sigma0 = rho0 * r_core_arcsec
-            self._lenstronomy_args = [{'sigma0': sigma0, 'gamma': gamma, 'center_x': self.x, 'center_y': self.y,
+            self._lenstronomy_args = [{'sigma0': self._rescale_norm * sigma0, 'gamma': gamma, 'center_x': self.x, 'center_y': self.y,
                                       'r_core': r_core_arcsec}]
 
         return self._lenstronomy_args, None
diff --git a/pyHalo/Halos/HaloModels/sis.py b/pyHalo/Halos/HaloModels/sis.py
index 6573552..7ad4748 100644
--- a/pyHalo/Halos/HaloModels/sis.py
+++ b/pyHalo/Halos/HaloModels/sis.py
@@ -65,7 +65,7 @@ class SIS(Halo):
             theta_E = self._lens_cosmo.thetaE_from_sigma(self.z, sigma_v)
             #mass3d = sis_lenstronomy.mass_3d_lens(rs, thetaE) * nfw_field_halo.lens_cosmo.sigmacrit
             x, y = np.round(self.x, 4), np.round(self.y, 4)
-            kwargs = [{'theta_E': theta_E, 'center_x': x,  'center_y': y}]
+            kwargs = [{'theta_E': self._rescale_norm * theta_E, 'center_x': x,  'center_y': y}]
             self._kwargs_lenstronomy = kwargs
         return self._kwargs_lenstronomy, None
 
@@ -150,7 +150,7 @@ class MassiveGalaxy(Halo):
             x, y = np.round(self.x, 4), np.round(self.y, 4)
             rs_arcsec = np.round(rs_arcsec, 10)
             alpha_Rs = np.round(alpha_Rs, 10)
-            self._lenstronomy_args = [{'alpha_Rs': alpha_Rs, 'Rs': rs_arcsec,
+            self._lenstronomy_args = [{'alpha_Rs': self._rescale_norm * alpha_Rs, 'Rs': rs_arcsec,
                                        'gamma_inner': gamma_inner,
                                        'center_x': x, 'center_y': y,
                                       'gamma_outer': gamma_outer}]
diff --git a/pyHalo/Halos/halo_base.py b/pyHalo/Halos/halo_base.py
index 7e5df70..83fd79b 100644
--- a/pyHalo/Halos/halo_base.py
+++ b/pyHalo/Halos/halo_base.py
@@ -75,8 +75,9 @@ class Halo(ABC):
             self._rescale_norm *= factor
             if hasattr(self, '_params_physical'):
                 delattr(self, '_params_physical')
-            if hasattr(self, '_kwargs_lenstronomy'):
-                delattr(self, '_kwargs_lenstronomy')
+            for attr in ('_kwargs_lenstronomy', '_lenstronomy_args', '_lenstronomy_args_split'):
+                if hasattr(self, attr):
+                    delattr(self, attr)
             if hasattr(self, '_nfw_params'):
                 delattr(self, '_nfw_params')
             if hasattr(self, '_vmax'):
@@ -89,8 +90,9 @@ class Halo(ABC):
             self._rescale_norm *= factor
             if hasattr(self, '_params_physical'):
                 delattr(self, '_params_physical')
-            if hasattr(self, '_kwargs_lenstronomy'):
-                delattr(self, '_kwargs_lenstronomy')
+            for attr in ('_kwargs_lenstronomy', '_lenstronomy_args', '_lenstronomy_args_split'):
+                if hasattr(self, attr):
+                    delattr(self, attr)
             if hasattr(self, '_nfw_params'):
                 delattr(self, '_nfw_params')
             if hasattr(self, '_vmax'):
-- 
2.43.0


From 4b5bc082691c7445c68345950060d749ba897b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:43 +0000
Subject: [PATCH 30/50] fix: shifting a point mass that is not fixed discards
 its lens model keywords

---
 pyHalo/single_realization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index b86c8ac..82fb9d9 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -425,7 +425,7 @@ class Realization(object):
                 halo.x += float(xs)
                 halo.y += float(ys)
                 # the lens model keywords hold the position before the shift
-                for attr in ('_kwargs_lenstronomy', '_lenstronomy_args', '_lenstronomy_args_split'):
+                for attr in ('_kwargs_lenstronomy', '_lenstronomy_args', '_lenstronomy_args_split', '_lenstronomy_params'):
                     if hasattr(halo, attr):
                         delattr(halo, attr)
 
-- 
2.43.0


From 646cc5df8f8ad9cfcfcbde84c2154ae8a61fef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:10 +0000
Subject: [PATCH 31/50] fix: galaxies that replace a subhalo keep its infall
 redshift

---
 pyHalo/Halos/HaloModels/sis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyHalo/Halos/HaloModels/sis.py b/pyHalo/Halos/HaloModels/sis.py
index 7ad4748..74513dd 100644
--- a/pyHalo/Halos/HaloModels/sis.py
+++ b/pyHalo/Halos/HaloModels/sis.py
@@ -29,6 +29,8 @@ class SIS(Halo):
                                   args=nfw_halo._args,
                                   unique_tag=nfw_halo.unique_tag,
                                   fixed_position=nfw_halo.fixed_position)
+        if nfw_halo.is_subhalo:
+            self.set_infall_redshift(nfw_halo.z_infall)
 
     @property
     def profile_args(self):
@@ -92,6 +94,8 @@ class MassiveGalaxy(Halo):
                                   args=halo_args,
                                   unique_tag=nfw_halo.unique_tag,
                                   fixed_position=nfw_halo.fixed_position)
+        if nfw_halo.is_subhalo:
+            self.set_infall_redshift(nfw_halo.z_infall)
 
     def density_profile_3d_lenstronomy(self, r, profile_args=None):
         """
-- 
2.43.0


From d840e8bc88adbf0e27f77de778cd9de245b733f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:10 +0000
Subject: [PATCH 32/50] fix: the mass range of black hole seeds applies to the
 black holes of unresolved halos

---
 pyHalo/realization_extensions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 6ad77f0..ca28ed1 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -143,9 +143,10 @@ class RealizationExtensions(object):
             kpc_per_arcsec = self._realization.lens_cosmo.cosmo.kpc_proper_per_asec(zi)
             x = x_kpc / kpc_per_arcsec
             y = y_kpc / kpc_per_arcsec
-            for m_bh, x_bh, y_bh in zip(mass_sub_resolution, x, y):
+            for m_halo, x_bh, y_bh in zip(mass_sub_resolution, x, y):
+                m_bh = min(10 ** log10_mass_maximum, m_halo * 10 ** log10_mass_ratio)
                 if m_bh > 10 ** log10_min_mbh:
-                    mbh = BlackHole(m_bh * 10 ** log10_mass_ratio,
+                    mbh = BlackHole(m_bh,
                                     x_bh,
                                     y_bh,
                                     r3d=None,
-- 
2.43.0


From 630cebdccd0976cd6772e7d50529cf479297d585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:10 +0000
Subject: [PATCH 33/50] fix: ULDM fluctuations appear around the image they
 were drawn for when another image has none

---
 pyHalo/realization_extensions.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index ca28ed1..b3785e6 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -1206,7 +1206,6 @@ def _get_number_flucs(realization, de_Broglie_wavelength, fluctuation_size_scale
         area_aperture = np.pi*r_kpc**2 # aperture area
         n_flucs_expected = n_fluc_scale*area_aperture/fluc_area #number of expected fluctuations per aperture
         n_flucs = np.random.poisson(n_flucs_expected,n_images) #draw number of fluctuations from poisson distribution for each image
-        n_flucs = n_flucs[n_flucs!=0] #get rid of aperture if zero fluctuations within it
 
     return n_flucs
 
-- 
2.43.0


From 6dfdafc5c48d289bb6f5693d103837aa7a32db6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:10 +0000
Subject: [PATCH 34/50] fix: only the requested halos become cored, whichever
 the cored profile

---
 pyHalo/realization_extensions.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index b3785e6..ec0d025 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -275,20 +275,20 @@ class RealizationExtensions(object):
         truncation_class = None
         args = {'beta': beta}
         for i, halo in enumerate(self._realization.halos):
+            if i not in halo_index_list:
+                new_halo_list.append(halo)
+                continue
             concentration_class = ConcentrationConstant(self._realization.lens_cosmo.cosmo,
                                                         halo.c)
             if core_density_profile == 'CNFW':
-                if i in halo_index_list:
-                    r3d = None
-                    new_halo = CoreNFWHalo(halo.mass, halo.x, halo.y, r3d, halo.z,
-                                           halo.is_subhalo, self._realization.lens_cosmo, args,
-                                           truncation_class, concentration_class, halo.unique_tag)
-                    if halo.is_subhalo:
-                        new_halo.set_bound_mass(halo.bound_mass)
-                        new_halo.set_infall_redshift(halo.z_infall)
-                    new_halo_list.append(new_halo)
-                else:
-                    new_halo_list.append(halo)
+                r3d = None
+                new_halo = CoreNFWHalo(halo.mass, halo.x, halo.y, r3d, halo.z,
+                                       halo.is_subhalo, self._realization.lens_cosmo, args,
+                                       truncation_class, concentration_class, halo.unique_tag)
+                if halo.is_subhalo:
+                    new_halo.set_bound_mass(halo.bound_mass)
+                    new_halo.set_infall_redshift(halo.z_infall)
+                new_halo_list.append(new_halo)
             else:
                 new_halo = self.toSIDM_single_halo(halo,
                                                    None,
-- 
2.43.0


From a9af90277822e408b30ce045e0cfda714dba9335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:46 +0000
Subject: [PATCH 35/50] fix: collapsed halos do not write their profile options
 into the halos they replace

---
 pyHalo/realization_extensions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index ec0d025..81cc306 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -888,7 +888,7 @@ class RealizationExtensions(object):
                 else:
                     truncation_class = halo._truncation_class
                     concentration_class = halo._concentration_class
-                    halo.update_args(kwargs_halo)
+                    args_profile = {**halo.args_profile, **kwargs_halo}
                     if is_subhalo:
                         new_halo = subhalo_model(halo.mass,
                                                halo.x,
@@ -897,7 +897,7 @@ class RealizationExtensions(object):
                                                halo.z,
                                                is_subhalo,
                                                halo.lens_cosmo,
-                                               halo.args_profile,
+                                               args_profile,
                                                truncation_class,
                                                concentration_class,
                                                halo.unique_tag)
@@ -909,7 +909,7 @@ class RealizationExtensions(object):
                                                  halo.z,
                                                  is_subhalo,
                                                  halo.lens_cosmo,
-                                                 halo.args_profile,
+                                                 args_profile,
                                                  truncation_class,
                                                  concentration_class,
                                                  halo.unique_tag)
-- 
2.43.0


From ce0facd94e6c58386b938ecd8dccfc0f9c66d3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:46 +0000
Subject: [PATCH 36/50] fix: collapsed subhalos keep their infall redshift and
 bound mass, whichever the profile

---
 pyHalo/realization_extensions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 81cc306..867f1f6 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -913,6 +913,10 @@ class RealizationExtensions(object):
                                                  truncation_class,
                                                  concentration_class,
                                                  halo.unique_tag)
+                    if is_subhalo:
+                        new_halo.set_infall_redshift(halo.z_infall)
+                        if halo.mdef == 'TNFW':
+                            new_halo.set_bound_mass(halo.bound_mass)
                 new_halos.append(new_halo)
             else:
                 new_halos.append(halo)
-- 
2.43.0


From b10e543bc89b804321019c726e960492d3edca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:59 +0000
Subject: [PATCH 37/50] fix: subhalos and field halos get their own mass
 definition when a realization is rendered

---
 pyHalo/pyhalo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/pyhalo.py b/pyHalo/pyhalo.py
index c516ed1..611f2f7 100644
--- a/pyHalo/pyhalo.py
+++ b/pyHalo/pyhalo.py
@@ -125,9 +125,9 @@ class pyHalo(object):
         mdefs = []
         for i in range(0, len(masses)):
             if subhalo_flag[i]:
-                mdefs += [mdef_field_halos]
-            else:
                 mdefs += [mdef_subhalos]
+            else:
+                mdefs += [mdef_field_halos]
         realization = Realization(masses, x_arcsec, y_arcsec, r3d, mdefs, redshifts, subhalo_flag, self.lens_cosmo,
                                   kwargs_halo_model=kwargs_halo_model,
                                   mass_sheet_correction=True,
-- 
2.43.0


From 252345495d2619485c8783462a343600a9c4ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:59 +0000
Subject: [PATCH 38/50] fix: the TNFWC_SIDM halo profile can be loaded by name

---
 pyHalo/single_realization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index 82fb9d9..5cbf0b0 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -5,6 +5,7 @@ from pyHalo.Halos.HaloModels.NFW import NFWSubhhalo, NFWFieldHalo
 from pyHalo.Halos.HaloModels.TNFW import TNFWFieldHalo, TNFWSubhalo
 from pyHalo.Halos.HaloModels.generalized_nfw import GeneralNFWFieldHalo, GeneralNFWSubhalo
 from pyHalo.Halos.HaloModels.powerlaw import PowerLawFieldHalo, PowerLawSubhalo
+from pyHalo.Halos.HaloModels.NFW_core_trunc import TNFWCHaloEvolving
 from pyHalo.Halos.HaloModels.PsuedoJaffe import PJaffeSubhalo
 from pyHalo.Halos.HaloModels.blackhole import BlackHole
 from pyHalo.Halos.HaloModels.ULDM import ULDMFieldHalo, ULDMSubhalo
-- 
2.43.0


From 9023075fadf4edf00334f9f1967988050333ab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:59 +0000
Subject: [PATCH 39/50] fix: preset models do not write into the option
 dictionaries of their caller, or into their own defaults

---
 pyHalo/PresetModels/cdm.py | 18 ++++++++++--------
 pyHalo/PresetModels/wdm.py | 18 ++++++++++--------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/pyHalo/PresetModels/cdm.py b/pyHalo/PresetModels/cdm.py
index 27d4927..20dfe28 100644
--- a/pyHalo/PresetModels/cdm.py
+++ b/pyHalo/PresetModels/cdm.py
@@ -82,6 +82,7 @@ def CDM(z_lens, z_source, sigma_sub=0.025, log_mlow=6., log_mhigh=10., log10_sig
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
     geometry = Geometry(pyhalo.cosmology, z_lens, z_source,
                         cone_opening_angle_arcsec, geometry_type)
+    kwargs_infall_model = dict(kwargs_infall_model or {})
     if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER']:
         kwargs_infall_model['log_m_host'] = log_m_host
     pyhalo.lens_cosmo.setup_infall_model(infall_redshift_model, kwargs_infall_model)
@@ -96,8 +97,8 @@ def CDM(z_lens, z_source, sigma_sub=0.025, log_mlow=6., log_mhigh=10., log10_sig
     mdef_subhalos = halo_mass_profile
     mdef_field_halos = halo_mass_profile
 
-    kwargs_concentration_model_subhalos['cosmo'] = pyhalo.astropy_cosmo
-    kwargs_concentration_model_fieldhalos['cosmo'] = pyhalo.astropy_cosmo
+    kwargs_concentration_model_subhalos = dict(kwargs_concentration_model_subhalos, cosmo=pyhalo.astropy_cosmo)
+    kwargs_concentration_model_fieldhalos = dict(kwargs_concentration_model_fieldhalos, cosmo=pyhalo.astropy_cosmo)
 
     # SET THE CONCENTRATION-MASS RELATION FOR SUBHALOS AND FIELD HALOS
     model_subhalos, kwargs_mc_subs = preset_concentration_models(concentration_model_subhalos,
@@ -115,8 +116,8 @@ def CDM(z_lens, z_source, sigma_sub=0.025, log_mlow=6., log_mhigh=10., log10_sig
         c_host = concentration_model_fieldhalos.nfw_concentration(10 ** log_m_host, z_lens)
 
     # SET THE TRUNCATION RADIUS FOR SUBHALOS AND FIELD HALOS
-    kwargs_truncation_model_subhalos['lens_cosmo'] = pyhalo.lens_cosmo
-    kwargs_truncation_model_fieldhalos['lens_cosmo'] = pyhalo.lens_cosmo
+    kwargs_truncation_model_subhalos = dict(kwargs_truncation_model_subhalos, lens_cosmo=pyhalo.lens_cosmo)
+    kwargs_truncation_model_fieldhalos = dict(kwargs_truncation_model_fieldhalos, lens_cosmo=pyhalo.lens_cosmo)
 
     model_subhalos, kwargs_trunc_subs = truncation_models(truncation_model_subhalos)
     kwargs_trunc_subs.update(kwargs_truncation_model_subhalos)
@@ -245,14 +246,14 @@ def CDMCorrelatedStructure(z_lens, z_source, log_mlow=6., log_mhigh=10.,
     mdef_subhalos = 'TNFW'
     mdef_field_halos = 'TNFW'
 
-    kwargs_concentration_model['cosmo'] = pyhalo.astropy_cosmo
+    kwargs_concentration_model = dict(kwargs_concentration_model, cosmo=pyhalo.astropy_cosmo)
 
     # SET THE CONCENTRATION-MASS RELATION MODEL
     model, kwargs_mc = preset_concentration_models(concentration_model, kwargs_concentration_model)
     concentration_model = model(**kwargs_mc)
 
     # SET THE TRUNCATION RADIUS MODEL
-    kwargs_truncation_model['lens_cosmo'] = pyhalo.lens_cosmo
+    kwargs_truncation_model = dict(kwargs_truncation_model, lens_cosmo=pyhalo.lens_cosmo)
     model, kwargs_trunc = truncation_models(truncation_model)
     kwargs_trunc.update(kwargs_truncation_model)
     truncation_model = model(**kwargs_trunc)
@@ -357,6 +358,7 @@ def CDMBinned(z_lens, z_source,
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
     geometry = Geometry(pyhalo.cosmology, z_lens, z_source,
                         cone_opening_angle_arcsec, geometry_type)
+    kwargs_infall_model = dict(kwargs_infall_model or {})
     if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER']:
         kwargs_infall_model['log_m_host'] = log_m_host
     pyhalo.lens_cosmo.setup_infall_model(infall_redshift_model, kwargs_infall_model)
@@ -394,8 +396,8 @@ def CDMBinned(z_lens, z_source,
     concentration_model_fieldhalos = model_fieldhalos(**kwargs_mc_field)
 
     # SET THE TRUNCATION RADIUS FOR SUBHALOS AND FIELD HALOS
-    kwargs_truncation_model_subhalos['lens_cosmo'] = pyhalo.lens_cosmo
-    kwargs_truncation_model_fieldhalos['lens_cosmo'] = pyhalo.lens_cosmo
+    kwargs_truncation_model_subhalos = dict(kwargs_truncation_model_subhalos, lens_cosmo=pyhalo.lens_cosmo)
+    kwargs_truncation_model_fieldhalos = dict(kwargs_truncation_model_fieldhalos, lens_cosmo=pyhalo.lens_cosmo)
 
     model_subhalos, kwargs_trunc_subs = truncation_models(truncation_model_subhalos)
     kwargs_trunc_subs.update(kwargs_truncation_model_subhalos)
diff --git a/pyHalo/PresetModels/wdm.py b/pyHalo/PresetModels/wdm.py
index ac55575..a5ccc68 100644
--- a/pyHalo/PresetModels/wdm.py
+++ b/pyHalo/PresetModels/wdm.py
@@ -90,6 +90,7 @@ def WDM(z_lens, z_source, log_mc, sigma_sub=0.025, log_mlow=6., log_mhigh=10.,
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
     geometry = Geometry(pyhalo.cosmology, z_lens, z_source,
                         cone_opening_angle_arcsec, geometry_type)
+    kwargs_infall_model = dict(kwargs_infall_model or {})
     if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER']:
         kwargs_infall_model['log_m_host'] = log_m_host
     pyhalo.lens_cosmo.setup_infall_model(infall_redshift_model, kwargs_infall_model)
@@ -105,10 +106,8 @@ def WDM(z_lens, z_source, log_mc, sigma_sub=0.025, log_mlow=6., log_mhigh=10.,
     kwargs_mass_function_fieldhalos['log_mc'] = log_mc
 
     # SET THE CONCENTRATION-MASS RELATION FOR SUBHALOS AND FIELD HALOS
-    kwargs_concentration_model_subhalos['cosmo'] = pyhalo.astropy_cosmo
-    kwargs_concentration_model_subhalos['log_mc'] = log_mc
-    kwargs_concentration_model_fieldhalos['cosmo'] = pyhalo.astropy_cosmo
-    kwargs_concentration_model_fieldhalos['log_mc'] = log_mc
+    kwargs_concentration_model_subhalos = dict(kwargs_concentration_model_subhalos, cosmo=pyhalo.astropy_cosmo, log_mc=log_mc)
+    kwargs_concentration_model_fieldhalos = dict(kwargs_concentration_model_fieldhalos, cosmo=pyhalo.astropy_cosmo, log_mc=log_mc)
 
     model_subhalos, kwargs_mc_subs = preset_concentration_models(concentration_model_subhalos,
                                                                  kwargs_concentration_model_subhalos)
@@ -127,8 +126,8 @@ def WDM(z_lens, z_source, log_mc, sigma_sub=0.025, log_mlow=6., log_mhigh=10.,
         c_host = concentration_model_fieldhalos.nfw_concentration(10 ** log_m_host, z_lens)
 
     # SET THE TRUNCATION RADIUS FOR SUBHALOS AND FIELD HALOS
-    kwargs_truncation_model_subhalos['lens_cosmo'] = pyhalo.lens_cosmo
-    kwargs_truncation_model_fieldhalos['lens_cosmo'] = pyhalo.lens_cosmo
+    kwargs_truncation_model_subhalos = dict(kwargs_truncation_model_subhalos, lens_cosmo=pyhalo.lens_cosmo)
+    kwargs_truncation_model_fieldhalos = dict(kwargs_truncation_model_fieldhalos, lens_cosmo=pyhalo.lens_cosmo)
     model_subhalos, kwargs_trunc_subs = truncation_models(truncation_model_subhalos)
     kwargs_trunc_subs.update(kwargs_truncation_model_subhalos)
     if truncation_model_subhalos in ['TRUNCATION_GALACTICUS_KEELEY24',
@@ -264,6 +263,8 @@ def WDM_mixed(z_lens, z_source, log_mc, mixed_DM_frac, sigma_sub=0.025, log_mlow
     :param include_prompt_cusps: bool; include prompt cusps inside halos
     :return:
     """
+    kwargs_mass_function_subhalos = dict(kwargs_mass_function_subhalos)
+    kwargs_mass_function_fieldhalos = dict(kwargs_mass_function_fieldhalos)
     params = ['a_wdm', 'b_wdm', 'c_wdm']
     values_keeley_2023 = [0.5, 0.8, -3.0]
     for i, param in enumerate(params):
@@ -364,6 +365,7 @@ def WDMGeneral(z_lens, z_source, log_mc, dlogT_dlogk, sigma_sub=0.025, log_mlow=
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
     geometry = Geometry(pyhalo.cosmology, z_lens, z_source,
                         cone_opening_angle_arcsec, geometry_type)
+    kwargs_infall_model = dict(kwargs_infall_model or {})
     if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER']:
         kwargs_infall_model['log_m_host'] = log_m_host
     pyhalo.lens_cosmo.setup_infall_model(infall_redshift_model, kwargs_infall_model)
@@ -390,8 +392,8 @@ def WDMGeneral(z_lens, z_source, log_mc, dlogT_dlogk, sigma_sub=0.025, log_mlow=
     if c_host is None:
         c_host = concentration_model_CDM.nfw_concentration(10 ** log_m_host, z_lens)
     # SET THE TRUNCATION RADIUS FOR SUBHALOS AND FIELD HALOS
-    kwargs_truncation_model_subhalos['lens_cosmo'] = pyhalo.lens_cosmo
-    kwargs_truncation_model_fieldhalos['lens_cosmo'] = pyhalo.lens_cosmo
+    kwargs_truncation_model_subhalos = dict(kwargs_truncation_model_subhalos, lens_cosmo=pyhalo.lens_cosmo)
+    kwargs_truncation_model_fieldhalos = dict(kwargs_truncation_model_fieldhalos, lens_cosmo=pyhalo.lens_cosmo)
     model_subhalos, kwargs_trunc_subs = truncation_models(truncation_model_subhalos)
     kwargs_trunc_subs.update(kwargs_truncation_model_subhalos)
     if truncation_model_subhalos in ['TRUNCATION_GALACTICUS_KEELEY24',
-- 
2.43.0


From 2fc989633dc77231f7da087e65dc053de67e3097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:59 +0000
Subject: [PATCH 40/50] fix: the DIRECT_INFALL model of preset models uses the
 host halo mass of the preset

---
 pyHalo/PresetModels/cdm.py | 4 ++++
 pyHalo/PresetModels/wdm.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyHalo/PresetModels/cdm.py b/pyHalo/PresetModels/cdm.py
index 20dfe28..32131e1 100644
--- a/pyHalo/PresetModels/cdm.py
+++ b/pyHalo/PresetModels/cdm.py
@@ -85,6 +85,8 @@ def CDM(z_lens, z_source, sigma_sub=0.025, log_mlow=6., log_mhigh=10., log10_sig
     kwargs_infall_model = dict(kwargs_infall_model or {})
     if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER']:
         kwargs_infall_model['log_m_host'] = log_m_host
+    elif infall_redshift_model == 'DIRECT_INFALL' and 'm_host' not in kwargs_infall_model:
+        kwargs_infall_model.setdefault('log_m_host', log_m_host)
     pyhalo.lens_cosmo.setup_infall_model(infall_redshift_model, kwargs_infall_model)
     # NOW WE SET THE MASS FUNCTION CLASSES FOR SUBHALOS AND FIELD HALOS
     # NOTE: MASS FUNCTION CLASSES SHOULD NOT BE INSTANTIATED HERE
@@ -361,6 +363,8 @@ def CDMBinned(z_lens, z_source,
     kwargs_infall_model = dict(kwargs_infall_model or {})
     if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER']:
         kwargs_infall_model['log_m_host'] = log_m_host
+    elif infall_redshift_model == 'DIRECT_INFALL' and 'm_host' not in kwargs_infall_model:
+        kwargs_infall_model.setdefault('log_m_host', log_m_host)
     pyhalo.lens_cosmo.setup_infall_model(infall_redshift_model, kwargs_infall_model)
     # NOW WE SET THE MASS FUNCTION CLASSES FOR SUBHALOS AND FIELD HALOS
     # NOTE: MASS FUNCTION CLASSES SHOULD NOT BE INSTANTIATED HERE
diff --git a/pyHalo/PresetModels/wdm.py b/pyHalo/PresetModels/wdm.py
index a5ccc68..1d60634 100644
--- a/pyHalo/PresetModels/wdm.py
+++ b/pyHalo/PresetModels/wdm.py
@@ -93,6 +93,8 @@ def WDM(z_lens, z_source, log_mc, sigma_sub=0.025, log_mlow=6., log_mhigh=10.,
     kwargs_infall_model = dict(kwargs_infall_model or {})
     if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER']:
         kwargs_infall_model['log_m_host'] = log_m_host
+    elif infall_redshift_model == 'DIRECT_INFALL' and 'm_host' not in kwargs_infall_model:
+        kwargs_infall_model.setdefault('log_m_host', log_m_host)
     pyhalo.lens_cosmo.setup_infall_model(infall_redshift_model, kwargs_infall_model)
 
     # SET THE MASS FUNCTION MODELS FOR SUBHALOS AND FIELD HALOS
@@ -368,6 +370,8 @@ def WDMGeneral(z_lens, z_source, log_mc, dlogT_dlogk, sigma_sub=0.025, log_mlow=
     kwargs_infall_model = dict(kwargs_infall_model or {})
     if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER']:
         kwargs_infall_model['log_m_host'] = log_m_host
+    elif infall_redshift_model == 'DIRECT_INFALL' and 'm_host' not in kwargs_infall_model:
+        kwargs_infall_model.setdefault('log_m_host', log_m_host)
     pyhalo.lens_cosmo.setup_infall_model(infall_redshift_model, kwargs_infall_model)
 
     kwargs_model_dlogT_dlogk = {'dlogT_dlogk': dlogT_dlogk}
-- 
2.43.0


From 135b2a20aeb1e2aa4018e8558bd56f73ba582152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:59 +0000
Subject: [PATCH 41/50] fix: WDM keeps the CDM concentration model that the
 requested relation comes with

---
 pyHalo/PresetModels/wdm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/PresetModels/wdm.py b/pyHalo/PresetModels/wdm.py
index 1d60634..3780bae 100644
--- a/pyHalo/PresetModels/wdm.py
+++ b/pyHalo/PresetModels/wdm.py
@@ -114,7 +114,7 @@ def WDM(z_lens, z_source, log_mc, sigma_sub=0.025, log_mlow=6., log_mhigh=10.,
     model_subhalos, kwargs_mc_subs = preset_concentration_models(concentration_model_subhalos,
                                                                  kwargs_concentration_model_subhalos)
     concentration_model_CDM = preset_concentration_models('DIEMERJOYCE19')[0]
-    kwargs_mc_subs['concentration_cdm_class'] = concentration_model_CDM
+    kwargs_mc_subs.setdefault('concentration_cdm_class', concentration_model_CDM)
     concentration_model_subhalos = model_subhalos(**kwargs_mc_subs)
 
     model_fieldhalos, kwargs_mc_field = preset_concentration_models(concentration_model_fieldhalos,
@@ -122,7 +122,7 @@ def WDM(z_lens, z_source, log_mc, sigma_sub=0.025, log_mlow=6., log_mhigh=10.,
     kwargs_mc_field['cosmo'] = pyhalo.astropy_cosmo
     kwargs_mc_field['log_mc'] = log_mc
     concentration_model_CDM = preset_concentration_models('DIEMERJOYCE19')[0]
-    kwargs_mc_field['concentration_cdm_class'] = concentration_model_CDM
+    kwargs_mc_field.setdefault('concentration_cdm_class', concentration_model_CDM)
     concentration_model_fieldhalos = model_fieldhalos(**kwargs_mc_field)
     if c_host is None:
         c_host = concentration_model_fieldhalos.nfw_concentration(10 ** log_m_host, z_lens)
-- 
2.43.0


From 50d591522bbbdd2eabf3b86e797254f66f21662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:59 +0000
Subject: [PATCH 42/50] fix: CDM respects a requested scatter of the
 concentration-mass relation

---
 pyHalo/PresetModels/cdm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/PresetModels/cdm.py b/pyHalo/PresetModels/cdm.py
index 32131e1..fe21af1 100644
--- a/pyHalo/PresetModels/cdm.py
+++ b/pyHalo/PresetModels/cdm.py
@@ -106,13 +106,13 @@ def CDM(z_lens, z_source, sigma_sub=0.025, log_mlow=6., log_mhigh=10., log10_sig
     model_subhalos, kwargs_mc_subs = preset_concentration_models(concentration_model_subhalos,
                                                                  kwargs_concentration_model_subhalos)
     scatter_dex_subhalos = 0.2
-    kwargs_mc_subs['scatter_dex'] = scatter_dex_subhalos
+    kwargs_mc_subs.setdefault('scatter_dex', scatter_dex_subhalos)
     concentration_model_subhalos = model_subhalos(**kwargs_mc_subs)
 
     model_fieldhalos, kwargs_mc_field = preset_concentration_models(concentration_model_fieldhalos,
                                                                     kwargs_concentration_model_fieldhalos)
     scatter_dex_fieldhalos = 0.2
-    kwargs_mc_field['scatter_dex'] = scatter_dex_fieldhalos
+    kwargs_mc_field.setdefault('scatter_dex', scatter_dex_fieldhalos)
     concentration_model_fieldhalos = model_fieldhalos(**kwargs_mc_field)
     if c_host is None:
         c_host = concentration_model_fieldhalos.nfw_concentration(10 ** log_m_host, z_lens)
-- 
2.43.0


From 1bf6fb77cefbbab8d919955b04d520fec8b23016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:59 +0000
Subject: [PATCH 43/50] fix: line-of-sight halos that join emulated subhalos
 fill the requested rendering area

---
 pyHalo/PresetModels/external.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/PresetModels/external.py b/pyHalo/PresetModels/external.py
index b890f98..6cbc574 100644
--- a/pyHalo/PresetModels/external.py
+++ b/pyHalo/PresetModels/external.py
@@ -242,6 +242,6 @@ def JointLOSWithEmulator(z_lens,
     emulator_subhalos = DMSubhalosFromEmulator(z_lens, z_source, emulator_data_function, cone_opening_angle_arcsec)
     from pyHalo.preset_models import preset_model_from_name
     preset_model_function = preset_model_from_name(preset_model_name_LOS)
-    los = preset_model_function(z_lens, z_source, **kwargs_preset_model)
+    los = preset_model_function(z_lens, z_source, cone_opening_angle_arcsec=cone_opening_angle_arcsec, **kwargs_preset_model)
     return emulator_subhalos.join(los)
 
-- 
2.43.0


From e51dae89e109c7876f777dcd764ac8907024048e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:05 +0000
Subject: [PATCH 44/50] fix: CDM tilts the subhalo mass function as documented

delta_power_law_index is documented to tilt the subhalo and field halo mass
functions; the subhalo mass function was always rendered without the tilt.
---
 pyHalo/PresetModels/cdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/PresetModels/cdm.py b/pyHalo/PresetModels/cdm.py
index fe21af1..7d952b7 100644
--- a/pyHalo/PresetModels/cdm.py
+++ b/pyHalo/PresetModels/cdm.py
@@ -141,7 +141,7 @@ def CDM(z_lens, z_source, sigma_sub=0.025, log_mlow=6., log_mhigh=10., log10_sig
                             'm_pivot': 10 ** 8,
                             'power_law_index': shmf_log_slope,
                             'log_m_host': log_m_host,
-                            'delta_power_law_index': 0.0,
+                            'delta_power_law_index': delta_power_law_index,
                             'host_scaling_factor': host_scaling_factor,
                             'redshift_scaling_factor': redshift_scaling_factor,
                             'draw_poisson': draw_poisson}
-- 
2.43.0


From d396b6caddc0c25bdef7063a22780211f9eb1e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:30 +0000
Subject: [PATCH 45/50] fix: nodedata_select_subhalo returns the node with the
 requested id

---
 pyHalo/Halos/galacticus_util/galacticus_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/galacticus_util/galacticus_filter.py b/pyHalo/Halos/galacticus_util/galacticus_filter.py
index cf5d97b..f228dfb 100644
--- a/pyHalo/Halos/galacticus_util/galacticus_filter.py
+++ b/pyHalo/Halos/galacticus_util/galacticus_filter.py
@@ -9,7 +9,7 @@ def nodedata_apply_filter(nodedata,nodefilter,galacticus_util = None):
 def nodedata_select_subhalo(nodedata,id, galacticus_util = None):
     """Selects a subhalo specified by an id, returns a dictionary of the subhalo's properties"""
     gutil = GalacticusUtil() if galacticus_util is None else galacticus_util
-    idfilter = nodedata[nodedata[gutil.PARAM_NODE_ID] == id]
+    idfilter = nodedata[gutil.PARAM_NODE_ID] == id
     return {key:val[idfilter][0] for key,val in nodedata.items()}
 
 def nodedata_filter_tree(nodedata, treeindex,galacticus_util = None):
-- 
2.43.0


From 086744280a0b8193d71f3dc2d2fe585f9ccd9f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:30 +0000
Subject: [PATCH 46/50] fix: galacticus node filters use the caller's parameter
 names throughout

---
 pyHalo/Halos/galacticus_util/galacticus_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/galacticus_util/galacticus_filter.py b/pyHalo/Halos/galacticus_util/galacticus_filter.py
index f228dfb..ca8f2d9 100644
--- a/pyHalo/Halos/galacticus_util/galacticus_filter.py
+++ b/pyHalo/Halos/galacticus_util/galacticus_filter.py
@@ -24,7 +24,7 @@ def nodedata_filter_subhalos(nodedata,galacticus_util= None):
 
 def nodedata_filter_halos(nodedata,galacticus_util = None):
     """Returns a filter that excludes all but halo (excludes sub-halos)"""
-    return np.logical_not(nodedata_filter_subhalos(nodedata))
+    return np.logical_not(nodedata_filter_subhalos(nodedata,galacticus_util))
 
 def nodedata_filter_range(nodedata,range,key,galacticus_util=None):
     """Returns a filter that excludes nodes not within the given range for a specified parameter"""
@@ -43,7 +43,7 @@ def nodedata_filter_virialized(nodedata,galacticus_util= None):
     r = np.linalg.norm(rvec,axis=0)
 
     #Filter halos and get there virial radii
-    filtered_halos = nodedata_filter_halos(nodedata)
+    filtered_halos = nodedata_filter_halos(nodedata,gutil)
     rv_halos = nodedata[gutil.PARAM_RADIUS_VIRIAL][filtered_halos]
     halo_output_n = nodedata[gutil.PARAM_TREE_ORDER]
 
-- 
2.43.0


From 9a1eac2d362f40be2b9fbc69f4bfdcaf75f26b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:30 +0000
Subject: [PATCH 47/50] fix: galacticus files with a single merger tree can be
 read

---
 pyHalo/Halos/galacticus_util/galacticus_util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/galacticus_util/galacticus_util.py b/pyHalo/Halos/galacticus_util/galacticus_util.py
index 3e2849c..47186b2 100644
--- a/pyHalo/Halos/galacticus_util/galacticus_util.py
+++ b/pyHalo/Halos/galacticus_util/galacticus_util.py
@@ -143,8 +143,10 @@ class GalacticusUtil():
             node_tree_order[start:stop] = n - 1
             node_tree_index[start:stop] = tree_index[n - 1] 
 
-        node_tree_order[stop:] = n
-        node_tree_index[stop:] = tree_index[n]
+        # the last tree (which may also be the only one) extends to the end of the output
+        if len(tree_start) > 0:
+            node_tree_order[tree_start[-1]:] = len(tree_start) - 1
+            node_tree_index[tree_start[-1]:] = tree_index[-1]
 
         node_index = np.arange(total_count)
 
-- 
2.43.0


From 30c01123c22b72ff46ee45690e3d7e8eb4fd9b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:48 +0000
Subject: [PATCH 48/50] fix: batched galacticus mass loss clips the host
 concentration as the per-halo model

---
 pyHalo/Halos/batch_halo_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/batch_halo_util.py b/pyHalo/Halos/batch_halo_util.py
index 3462efe..e83833f 100644
--- a/pyHalo/Halos/batch_halo_util.py
+++ b/pyHalo/Halos/batch_halo_util.py
@@ -270,7 +270,7 @@ def galacticus_mass_loss_vectorized(mass_loss_interp, log10c, t_or_dz, chost):
     if cls == 'InterpGalacticus':
         log10c = np.clip(log10c, np.log10(2.), np.log10(384.))
         t_or_dz = np.clip(t_or_dz, 0.0, 8.1)
-        chost = min(max(chost, 4.0), 9.0)
+        chost = min(max(chost, 4.0), 8.0)
     elif cls == 'InterpGalacticusZinfall':
         log10c = np.clip(log10c, np.log10(2.), np.log10(384.))
         t_or_dz = np.clip(t_or_dz, 0.001, 9.5)
-- 
2.43.0


From 354fc05fdb38e624b5c6176a4baf442563ce96e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:58 +0000
Subject: [PATCH 49/50] fix: precomputing a realization leaves halos with their
 own truncation untouched

---
 pyHalo/Halos/batch_halo_util.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyHalo/Halos/batch_halo_util.py b/pyHalo/Halos/batch_halo_util.py
index e83833f..adac188 100644
--- a/pyHalo/Halos/batch_halo_util.py
+++ b/pyHalo/Halos/batch_halo_util.py
@@ -625,17 +625,20 @@ def precompute_realization(realization, kwargs_halo_model=None):
         key = 'truncation_model_subhalos' if is_subhalo else 'truncation_model_field_halos'
         return kwargs_halo_model.get(key, None)
 
-    tnfw_subs = [h for h in realization.halos if h.mdef == 'TNFW' and h.is_subhalo]
-    tnfw_field = [h for h in realization.halos if h.mdef == 'TNFW' and not h.is_subhalo]
+    # halos with their own truncation, or parameters given directly, are left untouched
+    t_sub = _truncation_for(True)
+    tnfw_subs = [h for h in realization.halos if h.mdef == 'TNFW' and h.is_subhalo
+                 and getattr(h, '_truncation_class', None) is t_sub]
+    t_field = _truncation_for(False)
+    tnfw_field = [h for h in realization.halos if h.mdef == 'TNFW' and not h.is_subhalo
+                  and getattr(h, '_truncation_class', None) is t_field]
     tnfwc = [h for h in realization.halos if h.mdef == 'TNFWC'
              and 'sidm_timescale' in getattr(h, '_args', {})]
     nfw = [h for h in realization.halos if h.mdef == 'NFW']
 
-    t_sub = _truncation_for(True)
     if len(tnfw_subs) > 0 and t_sub is not None and \
             getattr(t_sub, 'name', None) in ('TruncationGalacticus', 'TruncationGalacticusZinfall'):
         precompute_tnfw_subhalos(tnfw_subs, t_sub)
-    t_field = _truncation_for(False)
     if len(tnfw_field) > 0 and t_field is not None:
         precompute_tnfw_field_halos(tnfw_field, t_field)
     if len(tnfwc) > 0:
-- 
2.43.0


From fcde2d2f925da0bf9aa8b0af156747dd684c6272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:31 +0000
Subject: [PATCH 50/50] fix: the bound mass of a galacticus subhalo is the one
 its profile is truncated with

---
 pyHalo/Halos/HaloModels/TNFW.py  |  5 ++++-
 pyHalo/Halos/tidal_truncation.py | 16 ++++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/TNFW.py b/pyHalo/Halos/HaloModels/TNFW.py
index 1eb791b..bbcb4a3 100644
--- a/pyHalo/Halos/HaloModels/TNFW.py
+++ b/pyHalo/Halos/HaloModels/TNFW.py
@@ -340,7 +340,10 @@ class TNFWSubhalo(TNFWFieldHalo):
         See documentation in base class (Halos/halo_base.py)
         """
         if not hasattr(self, '_profile_args'):
-            if self._truncation_class.name == 'TruncationGalacticus':
+            if self._truncation_class.name in ['TruncationGalacticus',
+                                               'TruncationGalacticusZinfall',
+                                               'TruncationGalacticusKeeley24',
+                                               'TruncationGalacticusApproxCDM']:
                 mbound = self.bound_mass_galacticus_definition
                 truncation_radius_kpc = self._truncation_class.truncation_radius_from_bound_mass(self, mbound)
             else:
diff --git a/pyHalo/Halos/tidal_truncation.py b/pyHalo/Halos/tidal_truncation.py
index c02a84a..f06cefa 100644
--- a/pyHalo/Halos/tidal_truncation.py
+++ b/pyHalo/Halos/tidal_truncation.py
@@ -244,6 +244,15 @@ class TruncationGalacticusKeeley24(object):
         return self.truncation_radius(halo.mass, halo.c,
                                       halo.time_since_infall, self._chost, halo.z_eval)
 
+    def truncation_radius_from_bound_mass(self, halo, m_bound):
+        """
+        This method computes the truncation radius given the bound mass of a halo
+        :param halo: an instance of a Halo class
+        :param m_bound: the bound mass in solar masses
+        :return: the truncation radius in physical kpc
+        """
+        return self._truncation_radius(halo.mass, halo.c, np.log10(m_bound / halo.mass), halo.z_eval)
+
     def truncation_radius(self, halo_mass, infall_concentration,
                           time_since_infall, chost, z_eval):
         """
@@ -257,6 +266,13 @@ class TruncationGalacticusKeeley24(object):
         """
         log10c = np.log10(infall_concentration)
         log10mbound_over_minfall = self._mass_loss_interp(log10c, time_since_infall, chost)
+        return self._truncation_radius(halo_mass, infall_concentration, log10mbound_over_minfall, z_eval)
+
+    def _truncation_radius(self, halo_mass, infall_concentration, log10mbound_over_minfall, z_eval):
+        """
+        Computes the truncation radius from the bound mass fraction
+        """
+        log10c = np.log10(infall_concentration)
         point = self._make_params_in_bounds_tau_evaluate((log10c, log10mbound_over_minfall))
         log10tau = float(self._tau_mf_interpolation(point))
         tau = 10 ** log10tau
-- 
2.43.0

