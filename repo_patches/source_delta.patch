From 7e2147e2ea8daf99ec337c3f48a2194e5ea57a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 01/35] fix: QGFieldNHN22 uses each hemisphere's own mean
 temperature for PTref

upward_sweep was given the northern hemispheric mean for both hemispheres, so the
Southern Hemisphere ptref did not average to the Southern Hemisphere mean and
mirroring the input about the equator did not mirror ptref.
---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 82aadbb..b925b6e 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1875,7 +1875,7 @@ class QGFieldNHN22(QGFieldBase):
             sjk=sjk,
             tjk=tjk,
             ckref=ckref,
-            tb=self._domain_average_storage.tn0,
+            tb=t0,
             qref_over_cor=qref_over_sin,
             a=self.planet_radius,
             om=self.omega,
-- 
2.43.0


From 1dd32d8bfc9d896d2980aadf830a2da404affaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 02/35] fix: QGDataset.static_stability labels the hemispheres
 the right way round

QGFieldNHN22.static_stability is (south, north); QGDataset named the southern
profile static_stability_n and the northern one static_stability_s.
---
 src/falwa/xarrayinterface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 55d6442..b0b1724 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -488,8 +488,8 @@ class QGDataset:
         elif stability.ndim == 3 and stability.shape[-2] == 2:
             # Two vertical profiles of static stability per field: hemispheric
             return (
-                self.metadata.as_dataarray(stability[:,0,:], "static_stability_n"),
-                self.metadata.as_dataarray(stability[:,1,:], "static_stability_s")
+                self.metadata.as_dataarray(stability[:,0,:], "static_stability_s"),
+                self.metadata.as_dataarray(stability[:,1,:], "static_stability_n")
             )
         else:
             raise ValueError(f"cannot process shape of returned static stability field: {stability.shape}")
-- 
2.43.0


From 6bf0464c5e05e4876e6db904f31a6bf297c9a251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 03/35] fix: compute_layerwise_lwa_fluxes works on grids with
 an even number of latitudes

The default (zero) ncforce had the input latitude dimension instead of that of the
analysis grid, so the call failed on every grid without an equator row.
---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index b925b6e..d193b45 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1075,7 +1075,7 @@ class QGFieldBase(ABC):
 
         # *** The chunk below has duplication. TODO: think of ways to refactor ***
         if ncforce is None:
-            ncforce = np.zeros((self.nlon, self.nlat, self.kmax))  # fortran indexing
+            ncforce = np.zeros((self.nlon, self._nlat_analysis, self.kmax))  # fortran indexing
         else:  # There is input
             ncforce = np.swapaxes(ncforce, 0, 2)
             assert ncforce.shape == self._interpolated_field_storage.interpolated_theta.shape
-- 
2.43.0


From 1d76352f00232bc66cab924d6be316b2f4a80698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 04/35] fix: compute_lwa_only stores the Southern Hemisphere's
 cyclonic/anticyclonic LWA

It was assigned to attributes the storage does not have, so astar1/astar2 stayed
zero in the Southern Hemisphere.
---
 src/falwa/oopinterface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index d193b45..c95bd76 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -686,8 +686,8 @@ class QGFieldBase(ABC):
                     cp=self.cp,
                     prefac=self.prefactor)
             self._layerwise_flux_terms_storage.lwa_shem = np.abs(astar1 + astar2)
-            self._layerwise_flux_terms_storage.astar1_baro_shem = np.abs(astar1)
-            self._layerwise_flux_terms_storage.astar2_baro_shem = np.abs(astar2)
+            self._layerwise_flux_terms_storage.astar1_shem = np.abs(astar1)
+            self._layerwise_flux_terms_storage.astar2_shem = np.abs(astar2)
 
     @staticmethod
     def _prepare_coordinates_and_ref_states(
-- 
2.43.0


From b72aa262d5e99d962aa69314ddb49f09fc0fee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 05/35] fix: a converged compute_reference_states clears an
 earlier non-convergence

After one non-convergent solve (e.g. maxit too small) the flag stayed set, so the
flux methods were refused for good even once the reference states had been solved.
---
 src/falwa/oopinterface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index c95bd76..38a86ab 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -600,6 +600,9 @@ class QGFieldBase(ABC):
         if self.qgpv is None:
             raise ValueError("QGField.interpolate_fields has to be called before QGField.compute_reference_states.")
 
+        # Forget the outcome of any earlier call, e.g. one made before maxit or tol was changed
+        self._nonconvergent_uref = False
+        self._reference_states_computed = False
         self._compute_reference_states()
 
         if not self._nonconvergent_uref:  # Successfully compute reference states
-- 
2.43.0


From e25011931b3a1dfa1805968e730c506cff263ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 06/35] fix: compute_lwa_only and compute_layerwise_lwa_fluxes
 check for their prerequisites

Without reference states both silently computed wave activity against Qref = 0, and
the layerwise fluxes were computed from the zeroed Uref of a failed solve.
---
 src/falwa/oopinterface.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 38a86ab..3b03022 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -643,6 +643,9 @@ class QGFieldBase(ABC):
         >>> lwa = QGField.lwa       # 3-D LWA
         """
 
+        if not (self._reference_states_computed or self._nonconvergent_uref):
+            raise ValueError("Reference states have not been computed yet.")
+
         ylat_input = self._ylat[-self.equator_idx:] if self.northern_hemisphere_results_only else self._ylat
         qref_correct_unit = self._reference_states_storage.qref_correct_unit(
             ylat=ylat_input, omega=self.omega, python_indexing=False)
@@ -1071,6 +1074,12 @@ class QGFieldBase(ABC):
         ----------
         ncforce : np.ndarray of dimension (kmax, nlat, nlon) which is output from self.compute_ncforce_from_heating_rate
         """
+        if self._nonconvergent_uref:
+            raise ValueError("Uref was not properly solved. This method cannot be called.")
+
+        if not self._reference_states_computed:
+            raise ValueError("Reference states have not been computed yet.")
+
         # Turn qref back to correct unit
         ylat_input, qref_correct_unit = self._prepare_coordinates_and_ref_states(
             self._ylat, self._interpolated_field_storage, self._reference_states_storage,
-- 
2.43.0


From 8e952f932e9242b6bd1bdc61c8ed7407013d4ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 07/35] fix: reading an output before it is computed raises the
 documented ValueError

The storage is created as zeros, never None, so the guards of qref, uref, ptref, lwa,
lwa_baro, u_baro and ncforce_baro could not fire and zeros were returned instead.
---
 src/falwa/oopinterface.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 3b03022..74d00e4 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -185,6 +185,8 @@ class QGFieldBase(ABC):
         # === Stage completion indicator ===
         self._reference_states_computed: bool = False
         self._layerwise_fluxes_computed: bool = False
+        self._barotropic_lwa_computed: bool = False
+        self._barotropic_fluxes_computed: bool = False
 
     def _initialize_storage(self):
         """
@@ -694,6 +696,7 @@ class QGFieldBase(ABC):
             self._layerwise_flux_terms_storage.lwa_shem = np.abs(astar1 + astar2)
             self._layerwise_flux_terms_storage.astar1_shem = np.abs(astar1)
             self._layerwise_flux_terms_storage.astar2_shem = np.abs(astar2)
+        self._barotropic_lwa_computed = True
 
     @staticmethod
     def _prepare_coordinates_and_ref_states(
@@ -910,6 +913,8 @@ class QGFieldBase(ABC):
             assert ncforce.shape == self._interpolated_field_storage.interpolated_theta.shape
 
         self._compute_intermediate_barotropic_flux_terms(ncforce=ncforce)
+        self._barotropic_lwa_computed = True
+        self._barotropic_fluxes_computed = True
 
         # === Compute named fluxes in NH18 ===
         clat = self._clat[-self.equator_idx:] if self.northern_hemisphere_results_only else self._clat
@@ -1282,7 +1287,7 @@ class QGFieldBase(ABC):
         """
         Reference state of QGPV (Qref).
         """
-        if self._reference_states_storage.qref is None:
+        if not (self._reference_states_computed or self._nonconvergent_uref):
             raise ValueError('qref is not computed yet.')
         return self._return_interp_variables(
             variable=self._reference_states_storage.qref_correct_unit(
@@ -1293,7 +1298,7 @@ class QGFieldBase(ABC):
         """
         Reference state of zonal wind (Uref).
         """
-        if self._reference_states_storage.uref is None:
+        if not (self._reference_states_computed or self._nonconvergent_uref):
             raise ValueError('uref is not computed yet.')
         return self._return_interp_variables(
             variable=self._reference_states_storage.fortran_to_python(self._reference_states_storage.uref),
@@ -1304,7 +1309,7 @@ class QGFieldBase(ABC):
         """
         Reference state of potential temperature (\\Theta_ref).
         """
-        if self._reference_states_storage.ptref is None:
+        if not (self._reference_states_computed or self._nonconvergent_uref):
             raise ValueError('ptref is not computed yet.')
         return self._return_interp_variables(
             variable=self._reference_states_storage.fortran_to_python(self._reference_states_storage.ptref),
@@ -1398,7 +1403,7 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of barotropic local wave activity (with cosine weighting).
         """
-        if self._barotropic_flux_terms_storage.lwa_baro is None:
+        if not self._barotropic_lwa_computed:
             raise ValueError('lwa_baro is not computed yet.')
         return self._return_interp_variables(
             variable=self._barotropic_flux_terms_storage.fortran_to_python(
@@ -1412,7 +1417,7 @@ class QGFieldBase(ABC):
         corresponding barotropic component of non-conservative force contribution with respect to the wave
         activity budget equation in Lubis et al (2025, Nature Comm) Eq.(11).
         """
-        if self._barotropic_flux_terms_storage.ncforce_baro is None:
+        if not self._barotropic_fluxes_computed:
             raise ValueError('ncforce_baro is not computed yet.')
         return self._return_interp_variables(
             variable=self._barotropic_flux_terms_storage.fortran_to_python(
@@ -1424,7 +1429,7 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of barotropic zonal wind (without cosine weighting).
         """
-        if self._barotropic_flux_terms_storage.u_baro is None:
+        if not self._barotropic_lwa_computed:
             raise ValueError('u_baro is not computed yet.')
         return self._return_interp_variables(
             variable=self._barotropic_flux_terms_storage.fortran_to_python(
@@ -1436,7 +1441,7 @@ class QGFieldBase(ABC):
         """
         Three-dimensional array of local wave activity
         """
-        if self._layerwise_flux_terms_storage.lwa is None:
+        if not (self._barotropic_lwa_computed or self._layerwise_fluxes_computed):
             raise ValueError('lwa is not computed yet.')
         return self._return_interp_variables(
             variable=self._layerwise_flux_terms_storage.fortran_to_python(self._layerwise_flux_terms_storage.lwa),
-- 
2.43.0


From 59462e77883ad028411f952167d88e49df460694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 08/35] fix: barotropic flux outputs are refused before they
 are computed

Like lwa_baro and ua1, which already raise ValueError; these eight returned zeros.
---
 src/falwa/oopinterface.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 74d00e4..9eb142a 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1320,6 +1320,8 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of the second-order eddy term in zonal advective flux, i.e. F1 in equation 3 of NH18
         """
+        if not self._barotropic_fluxes_computed:
+            raise ValueError('adv_flux_f1 is not computed yet.')
         return self._return_interp_variables(
             variable=self._output_barotropic_flux_terms_storage.adv_flux_f1,
             interp_axis=0)
@@ -1329,6 +1331,8 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of the third-order eddy term in zonal advective flux, i.e. F2 in equation 3 of NH18
         """
+        if not self._barotropic_fluxes_computed:
+            raise ValueError('adv_flux_f2 is not computed yet.')
         return self._return_interp_variables(
             variable=self._output_barotropic_flux_terms_storage.adv_flux_f2,
             interp_axis=0)
@@ -1338,6 +1342,8 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of the remaining term in zonal advective flux, i.e. F3 in equation 3 of NH18
         """
+        if not self._barotropic_fluxes_computed:
+            raise ValueError('adv_flux_f3 is not computed yet.')
         return self._return_interp_variables(
             variable=self._output_barotropic_flux_terms_storage.adv_flux_f3,
             interp_axis=0)
@@ -1347,6 +1353,8 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of the convergence of zonal advective flux, i.e. -div(F1+F2+F3) in equation 3 of NH18
         """
+        if not self._barotropic_fluxes_computed:
+            raise ValueError('convergence_zonal_advective_flux is not computed yet.')
         return self._return_interp_variables(
             variable=self._output_barotropic_flux_terms_storage.convergence_zonal_advective_flux,
             interp_axis=0)
@@ -1356,6 +1364,8 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of the divergence of eddy momentum flux, i.e. (II) in equation 2 of NH18
         """
+        if not self._barotropic_fluxes_computed:
+            raise ValueError('divergence_eddy_momentum_flux is not computed yet.')
         return self._return_interp_variables(
             variable=self._output_barotropic_flux_terms_storage.divergence_eddy_momentum_flux,
             interp_axis=0)
@@ -1365,6 +1375,8 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of the low-level meridional heat flux, i.e. (III) in equation 2 of NH18
         """
+        if not self._barotropic_fluxes_computed:
+            raise ValueError('meridional_heat_flux is not computed yet.')
         return self._return_interp_variables(
             variable=self._output_barotropic_flux_terms_storage.meridional_heat_flux,
             interp_axis=0)
@@ -1380,6 +1392,8 @@ class QGFieldBase(ABC):
         :math:`\\langle \\text{adv\_f2} \\rangle \\equiv - a \\langle \\int_0^{\\Delta\\phi} u_e q_e \\cos(\\phi + \\phi') \\mathrm{d}\\phi^\\prime \\rangle`,
         :math:`\\langle \\text{adv\_f3} \\rangle \\equiv \\frac{\\cos(\\phi)}{2} \\left\\langle v_e^2 - u_e^2 - \\frac{R}{H} \\frac{e^{-\\kappa z / H} \\theta_e^2}{\\partial \\tilde\\theta / \\partial z} \\right\\rangle`
         """
+        if not self._barotropic_fluxes_computed:
+            raise ValueError('flux_vector_lambda_baro is not computed yet.')
         return self._return_interp_variables(
             variable=self._output_barotropic_flux_terms_storage.flux_vector_lambda_baro,
             interp_axis=0)
@@ -1394,6 +1408,8 @@ class QGFieldBase(ABC):
 
         Computed as -0.5 * (ep2baro + ep3baro) / cos(phi).
         """
+        if not self._barotropic_fluxes_computed:
+            raise ValueError('flux_vector_phi_baro is not computed yet.')
         return self._return_interp_variables(
             variable=self._output_barotropic_flux_terms_storage.flux_vector_phi_baro,
             interp_axis=0)
-- 
2.43.0


From 194db0fd24e00561f45b22e3b53f2a226c31af7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 09/35] fix: compute_lwa_and_barotropic_fluxes returns its
 tuple on the user's latitudes

On a grid with an even number of latitudes the named tuple had the nlat+1 rows of
the analysis grid, unlike the documented dimensions and the properties.
---
 src/falwa/oopinterface.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 9eb142a..060cdf7 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -961,15 +961,15 @@ class QGFieldBase(ABC):
                 ['adv_flux_f1', 'adv_flux_f2', 'adv_flux_f3', 'convergence_zonal_advective_flux',
                  'divergence_eddy_momentum_flux', 'meridional_heat_flux', 'lwa_baro', 'u_baro', 'lwa'])
             lwa_and_fluxes = LWA_and_fluxes(
-                self._output_barotropic_flux_terms_storage.adv_flux_f1,
-                self._output_barotropic_flux_terms_storage.adv_flux_f2,
-                self._output_barotropic_flux_terms_storage.adv_flux_f3,
-                self._output_barotropic_flux_terms_storage.convergence_zonal_advective_flux,
-                self._output_barotropic_flux_terms_storage.divergence_eddy_momentum_flux,
-                self._output_barotropic_flux_terms_storage.meridional_heat_flux,
-                self._barotropic_flux_terms_storage.fortran_to_python(self._barotropic_flux_terms_storage.lwa_baro),
-                self._barotropic_flux_terms_storage.fortran_to_python(self._barotropic_flux_terms_storage.u_baro),
-                self._layerwise_flux_terms_storage.fortran_to_python(self._layerwise_flux_terms_storage.lwa))
+                self.adv_flux_f1,
+                self.adv_flux_f2,
+                self.adv_flux_f3,
+                self.convergence_zonal_advective_flux,
+                self.divergence_eddy_momentum_flux,
+                self.meridional_heat_flux,
+                self.lwa_baro,
+                self.u_baro,
+                self.lwa)
             return lwa_and_fluxes
 
     def _compute_flux_vector_phi_baro(self):
-- 
2.43.0


From f0965ba5b090930d1e24b91c63e6aa14d0e9a3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 10/35] fix: compute_flux_dirinv_nshem no longer writes row 0
 of ep2 and ep3 when jb = 0

With the equatorial boundary at the equator (QGFieldNH18) the boundary-row assignment
went out of bounds and landed on the pole of the level below, so
divergence_eddy_momentum_flux was of order 1e12 at the poles.
---
 src/falwa/f90_modules/compute_flux_dirinv.f90 | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/falwa/f90_modules/compute_flux_dirinv.f90 b/src/falwa/f90_modules/compute_flux_dirinv.f90
index 519c4db..89d13c3 100644
--- a/src/falwa/f90_modules/compute_flux_dirinv.f90
+++ b/src/falwa/f90_modules/compute_flux_dirinv.f90
@@ -174,8 +174,10 @@ SUBROUTINE compute_flux_dirinv_nshem( &
       phi0 = dp*(jb-1)
       cosp = cos(phip)          ! cosine for one grid north
       cos0 = cos(phi0)          ! cosine for latitude grid
-      ep2(i,jb,k) = (uu(i,nd+jb+1,k)-uref(2,k))*cosp*cosp*vv(i,nd+jb+1,k)
-      ep3(i,jb,k) = (uu(i,nd+jb,k)-uref(1,k))*cos0*cos0*vv(i,nd+jb,k)
+      if (jb.ge.1) then  ! there is no row jb when the domain starts at the equator
+        ep2(i,jb,k) = (uu(i,nd+jb+1,k)-uref(2,k))*cosp*cosp*vv(i,nd+jb+1,k)
+        ep3(i,jb,k) = (uu(i,nd+jb,k)-uref(1,k))*cos0*cos0*vv(i,nd+jb,k)
+      endif
     enddo
   enddo
 
-- 
2.43.0


From af1736a931730855a935f5c16b516d66cda1013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 11/35] fix: barotropic_input_qref_to_compute_lwa returns the
 wave activity array

It returned basis.lwa's (lwa, None) pair instead of the documented array.
---
 src/falwa/wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index b0d669a..a37cfb7 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -82,7 +82,7 @@ def barotropic_input_qref_to_compute_lwa(ylat, qref, vort, area, dmu, planet_rad
     """
     nlat = vort.shape[0]
     nlon = vort.shape[1]
-    lwa_result = basis.lwa(nlon, nlat, vort, qref, dmu)
+    lwa_result, _ = basis.lwa(nlon, nlat, vort, qref, dmu)
     return lwa_result
 
 
-- 
2.43.0


From f1c4083152cedb959004a01a7d5769c1077697f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 12/35] fix: eqvlat_hemispheric restores the sign of the
 Northern Hemisphere's Qref

The Northern Hemisphere is solved on the negated mirror image, and its Qref was put
back without the minus sign that qgpv_eqlat_lwa has.
---
 src/falwa/wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index a37cfb7..5f1e454 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -130,7 +130,7 @@ def eqvlat_hemispheric(ylat, vort, area, nlat_s=None, n_points=None, planet_radi
     vort2 = -vort[::-1, :]
     qref2, _ = basis.eqvlat_fawa(ylat[:nlat_s], vort2[:nlat_s, :], area[:nlat_s, :],
                             n_points, planet_radius=planet_radius)
-    qref[-nlat_s:] = qref2[::-1]
+    qref[-nlat_s:] = -qref2[::-1]
 
     return qref
 
-- 
2.43.0


From 303cb965a9f3c00b3082269a4145ca44455b5b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 13/35] fix: hemispheric equivalent latitude with vgrad works
 again

eqvlat_bracket_hemispheric (always) and qgpv_eqlat_lwa_options (with vgrad) passed
vgrad to basis.eqvlat_fawa, which does not take it: TypeError. Use eqvlat_vgrad, on
the hemisphere's part of vgrad.
---
 src/falwa/wrapper.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index 5f1e454..c9ed1e1 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -177,23 +177,26 @@ def eqvlat_bracket_hemispheric(ylat, vort, area, nlat_s=None, n_points=None, pla
         n_points = nlat_s
 
     # --- Southern Hemisphere ---
-    qref1, brac1 = basis.eqvlat_fawa(ylat[:nlat_s], vort[:nlat_s, :],
+    qref1, brac1 = basis.eqvlat_vgrad(ylat[:nlat_s], vort[:nlat_s, :],
                                 area[:nlat_s, :],
                                 n_points, planet_radius=planet_radius,
-                                vgrad=vgrad)
+                                vgrad=vgrad[:nlat_s, :] if vgrad is not None else None)
     qref[:nlat_s] = qref1
 
     # --- Northern Hemisphere ---
     vort2 = -vort[::-1, :]
-    qref2, brac2 = basis.eqvlat_fawa(ylat[:nlat_s], vort2[:nlat_s, :],
+    qref2, brac2 = basis.eqvlat_vgrad(ylat[:nlat_s], vort2[:nlat_s, :],
                                 area[:nlat_s, :],
                                 n_points, planet_radius=planet_radius,
-                                vgrad=vgrad)
+                                vgrad=-vgrad[::-1, :][:nlat_s, :] if vgrad is not None else None)
 
-    qref[-nlat_s:] = qref2[::-1]
+    qref[-nlat_s:] = -qref2[::-1]
+
+    if vgrad is None:
+        return qref, None
 
     brac[:nlat_s] = brac1
-    brac[-nlat_s:] = brac2[::-1]
+    brac[-nlat_s:] = -brac2[::-1]
 
     return qref, brac
 
@@ -406,7 +409,7 @@ def qgpv_eqlat_lwa_options(ylat, vort, area, dmu, nlat_s=None, n_points=None, vg
                                    area[:nlat_s, :],
                                    n_points, planet_radius=planet_radius)
     else:
-        qref1, brac = basis.eqvlat_fawa(ylat[:nlat_s], vort[:nlat_s, :],
+        qref1, brac = basis.eqvlat_vgrad(ylat[:nlat_s], vort[:nlat_s, :],
                                    area[:nlat_s, :],
                                    n_points, planet_radius=planet_radius,
                                    vgrad=vgrad[:nlat_s, :])
@@ -435,7 +438,7 @@ def qgpv_eqlat_lwa_options(ylat, vort, area, dmu, nlat_s=None, n_points=None, vg
                                    n_points, planet_radius=planet_radius)
     else:
         vgrad2 = -vgrad[::-1, :]  # Is this correct?
-        qref2, brac = basis.eqvlat_fawa(ylat[:nlat_s], vort2[:nlat_s, :],
+        qref2, brac = basis.eqvlat_vgrad(ylat[:nlat_s], vort2[:nlat_s, :],
                                    area[:nlat_s, :],
                                    n_points, planet_radius=planet_radius,
                                    vgrad=vgrad2[:nlat_s, :])
-- 
2.43.0


From 4f7d65a661673983ae5344b79787925639c4797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 14/35] fix: QGDataset.compute_ncforce_from_heating_rate
 reorders the heating rate like u, v, t

With descending latitudes or ascending pressure in the input, the heating rate went in
unflipped and the forcing came out upside down.
---
 src/falwa/xarrayinterface.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index b0b1724..04c2991 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -396,6 +396,8 @@ class QGDataset:
             flip.append(-3)
         # Ordering of xlon doesn't matter here
         xlon = da_xlon.values
+        # Other data on the input grid must be reordered in the same way
+        self._flip = flip
         # Create a QGField object for each combination of timestep, ensemble
         # member, etc.
         self._fields = []
@@ -656,7 +658,10 @@ class QGDataset:
         ncforce_input_list = []
 
         for field, coord in zip(self._fields, self.metadata.iter_other()):
-            output = field.compute_ncforce_from_heating_rate(heating_rate=heating_rate.sel(coord))
+            heating_rate_sliced = heating_rate.sel(coord).values
+            if self._flip:
+                heating_rate_sliced = np.flip(heating_rate_sliced, axis=self._flip)
+            output = field.compute_ncforce_from_heating_rate(heating_rate=heating_rate_sliced)
             ncforce_input_list.append(output)
         return self.metadata.as_dataarray(ncforce_input_list, var="ncforce")
 
-- 
2.43.0


From bb7a27026e16af2ad1886cf243687f9d8e6ca654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 15/35] fix: QGDataset.compute_ncforce_from_heating_rate works
 with northern_hemisphere_results_only

The forcing always covers all latitudes (the flux methods require it), but it was
labelled with the latitudes of the hemispheric results: AssertionError.
---
 src/falwa/xarrayinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 04c2991..0da831a 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -229,7 +229,7 @@ _MetadataServiceProvider.register_var("flux_vector_lambda_baro", ("ylat", "xlon"
 _MetadataServiceProvider.register_var("flux_vector_phi_baro", ("ylat", "xlon"), dim_names=("ylat_ref_states", "xlon"))
 # 3-dimensional LWA (full x-y-z fields)
 _MetadataServiceProvider.register_var("lwa", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
-_MetadataServiceProvider.register_var("ncforce", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
+_MetadataServiceProvider.register_var("ncforce", ("height", "ylat", "xlon"), dim_names=("height", "ylat", "xlon"))
 _MetadataServiceProvider.register_var("ua1", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
 _MetadataServiceProvider.register_var("ua2", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
 _MetadataServiceProvider.register_var("ep1", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
-- 
2.43.0


From 0ccc9f97b33d331e7305c68cd53fc578b75faa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:15 +0000
Subject: [PATCH 16/35] fix: interpolated fields can be read on even grids with
 northern_hemisphere_results_only

---
 src/falwa/oopinterface.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 060cdf7..4ca99fc 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -375,7 +375,7 @@ class QGFieldBase(ABC):
                 fill_value='extrapolate'
             )(interp_to)
 
-    def _return_interp_variables(self, variable, interp_axis):
+    def _return_interp_variables(self, variable, interp_axis, is_global=False):
         """
         Private function to return interpolated variables from odd grid back to even grid if originally
         the data was given on an odd grid.
@@ -386,15 +386,15 @@ class QGFieldBase(ABC):
 
             interp_axis(int): the index of axis for interpolation
 
-            northern_hemisphere_results_only(bool): whether only to return northern hemispheric results.
-                Will be deprecated in upcoming release.
+            is_global(bool): whether the variable is always stored on the global grid, i.e. even if
+                northern_hemisphere_results_only=True (QGPV and the interpolated fields). Default = False.
 
         Returns
         -------
             The interpolated variable(numpy.ndarray)
         """
         if self.need_latitude_interpolation:
-            if self.northern_hemisphere_results_only:
+            if self.northern_hemisphere_results_only and not is_global:
                 return self._interp_back(
                     variable, self._ylat[-(self._nlat_analysis // 2 + 1):],
                     self._input_ylat[-(self.nlat // 2):],
@@ -1243,7 +1243,7 @@ class QGFieldBase(ABC):
         if self._interpolated_field_storage.qgpv is None:
             raise ValueError('QGPV field is not present in the QGField object.')
         return self._return_interp_variables(variable=self._interpolated_field_storage.fortran_to_python(
-            self._interpolated_field_storage.qgpv), interp_axis=1)
+            self._interpolated_field_storage.qgpv), interp_axis=1, is_global=True)
 
     @property
     def interpolated_u(self):
@@ -1253,7 +1253,7 @@ class QGFieldBase(ABC):
         if self._interpolated_field_storage.interpolated_u is None:
             raise ValueError('interpolated_u is not present in the QGField object.')
         return self._return_interp_variables(variable=self._interpolated_field_storage.fortran_to_python(
-            self._interpolated_field_storage.interpolated_u), interp_axis=1)
+            self._interpolated_field_storage.interpolated_u), interp_axis=1, is_global=True)
 
     @property
     def interpolated_v(self):
@@ -1263,7 +1263,7 @@ class QGFieldBase(ABC):
         if self._interpolated_field_storage.interpolated_v is None:
             raise ValueError('interpolated_v is not present in the QGField object.')
         return self._return_interp_variables(variable=self._interpolated_field_storage.fortran_to_python(
-            self._interpolated_field_storage.interpolated_v), interp_axis=1)
+            self._interpolated_field_storage.interpolated_v), interp_axis=1, is_global=True)
 
     @property
     def interpolated_theta(self):
@@ -1273,7 +1273,7 @@ class QGFieldBase(ABC):
         if self._interpolated_field_storage.interpolated_theta is None:
             raise ValueError('interpolated_theta is not present in the QGField object.')
         return self._return_interp_variables(variable=self._interpolated_field_storage.fortran_to_python(
-            self._interpolated_field_storage.interpolated_theta), interp_axis=1)
+            self._interpolated_field_storage.interpolated_theta), interp_axis=1, is_global=True)
 
     @property
     @abstractmethod
-- 
2.43.0


From 7602d5b1759c3bcb1bfc10350be34949162fa01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:08 +0000
Subject: [PATCH 17/35] fix: compute_ncforce_from_heating_rate works on grids
 with an even number of latitudes

---
 src/falwa/oopinterface.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 4ca99fc..2324a8b 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1015,6 +1015,8 @@ class QGFieldBase(ABC):
 
         # Interpolate potential temperature tendency onto regular z-grid first. Result has dimension (kmax, nlat, nlon)
         interpolated_heating_rate = self._vertical_interpolation(heating_rate, kind="linear", axis=0)
+        if self.need_latitude_interpolation:  # The hemispheres are told apart on the analysis grid
+            interpolated_heating_rate = self._interp_back(interpolated_heating_rate, self._input_ylat, self._ylat)
 
         # Calculate q_dot on regular z-grid (kmax, nlat, nlon)
         ncforce_input = z_derivative_of_prod(
@@ -1025,9 +1027,9 @@ class QGFieldBase(ABC):
             dz=self.dz,
             density_decay=np.exp(-self.height / self.scale_height),
             gfunc=interpolated_heating_rate,
-            multiplier=2 * self.omega * np.sin(np.deg2rad(self.ylat[np.newaxis, :])) * np.exp(
+            multiplier=2 * self.omega * np.sin(np.deg2rad(self._ylat[np.newaxis, :])) * np.exp(
                 self.height[:, np.newaxis] / self.scale_height))
-        return ncforce_input
+        return self._return_interp_variables(variable=ncforce_input, interp_axis=1, is_global=True)
 
     def _compute_stretch_term(self, stat_n, stat_s):
         """
-- 
2.43.0


From 9c559d2f1a40b46d1825ffe69331be2976dc76cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:31 +0000
Subject: [PATCH 18/35] fix: forcing given on the user's latitudes is accepted
 on even grids

---
 src/falwa/oopinterface.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 2324a8b..428c05c 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -404,6 +404,15 @@ class QGFieldBase(ABC):
         else:
             return variable
 
+    def _forcing_on_analysis_grid(self, ncforce):
+        """
+        Private function to bring non-conservative forcing given on the user's latitudes (kmax, nlat, nlon) to the
+        latitude grid used in the analysis, which has one more latitude if nlat is even.
+        """
+        if self.need_latitude_interpolation and ncforce.shape[1] == self.nlat:
+            return self._interp_back(ncforce, self._input_ylat, self._ylat)
+        return ncforce
+
     def _vertical_average(self, var_3d, lowest_layer_index=1, height_axis=-1):
         dc = self.dz / self.prefactor
 
@@ -909,6 +918,7 @@ class QGFieldBase(ABC):
             ncforce = np.zeros((self.nlon, self._nlat_analysis, self.kmax))  # fortran indexing
         else:  # There is input
             print("line 751: ncforce has values")
+            ncforce = self._forcing_on_analysis_grid(ncforce)
             ncforce = np.swapaxes(ncforce, 0, 2)  # Convert from python to fortran indexing
             assert ncforce.shape == self._interpolated_field_storage.interpolated_theta.shape
 
@@ -1096,6 +1106,7 @@ class QGFieldBase(ABC):
         if ncforce is None:
             ncforce = np.zeros((self.nlon, self._nlat_analysis, self.kmax))  # fortran indexing
         else:  # There is input
+            ncforce = self._forcing_on_analysis_grid(ncforce)
             ncforce = np.swapaxes(ncforce, 0, 2)
             assert ncforce.shape == self._interpolated_field_storage.interpolated_theta.shape
         # *** The chunk above has duplication. ***
-- 
2.43.0


From 159dcc604d3e8242484e12e53a700b519a0ae70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 19/35] fix: QGFieldNHN22 takes the Southern Hemisphere's
 boundary circulation from its own absolute vorticity

compute_qref_and_fawa_first expects fields mirrored into the northern frame.
QGPV is negated for the Southern Hemisphere, absolute vorticity was not, so
the boundary circulation of the Southern Hemisphere was the northern one.
---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 428c05c..8ef8494 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1846,7 +1846,7 @@ class QGFieldNHN22(QGFieldBase):
                 self._compute_reference_states_nhn22_hemispheric_wrapper(
                     qgpv=-self._interpolated_field_storage.qgpv[:, ::-1, :],
                     u=self._interpolated_field_storage.interpolated_u[:, ::-1, :],
-                    avort=self._interpolated_field_storage.interpolated_avort[:, ::-1, :],
+                    avort=-self._interpolated_field_storage.interpolated_avort[:, ::-1, :],
                     theta=self._interpolated_field_storage.interpolated_theta[:, ::-1, :],
                     t0=self._domain_average_storage.ts0,
                     static_stability=self._domain_average_storage.static_stability_s)
-- 
2.43.0


From 10d76b021cdb55cef870df29ba84b766eede60da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:42 +0000
Subject: [PATCH 20/35] fix: QGPV takes the zonal derivative of v with the
 longitude spacing, not the latitude spacing

---
 src/falwa/f90_modules/compute_qgpv.f90            | 9 +++++----
 src/falwa/f90_modules/compute_qgpv_direct_inv.f90 | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/falwa/f90_modules/compute_qgpv.f90 b/src/falwa/f90_modules/compute_qgpv.f90
index 1cbebfb..a626d28 100644
--- a/src/falwa/f90_modules/compute_qgpv.f90
+++ b/src/falwa/f90_modules/compute_qgpv.f90
@@ -16,12 +16,13 @@ SUBROUTINE compute_qgpv(nlon, nlat, kmax, ut, vt, theta, height, t0, stat, &
     REAL ::  st(nlon,nlat),zmst(nlat)
     REAL ::  zmav(nlat,kmax)
     REAL ::  zmpv(nlat,kmax)
-    REAL :: rkappa, pi, dphi
+    REAL :: rkappa, pi, dphi, dlambda
 
 
     rkappa = rr/cp
     pi = acos(-1.)
     dphi = pi/float(nlat-1)
+    dlambda = 2.*pi/float(nlon)
 
     !  **** compute zonal mean ****
     tz = 0.
@@ -67,17 +68,17 @@ SUBROUTINE compute_qgpv(nlon, nlat, kmax, ut, vt, theta, height, t0, stat, &
 
             do i = 2,nlon-1
                 av1 = 2.*omega*sin(phi0)
-                av2 = (vt(i+1,j,kk)-vt(i-1,j,kk))/(2.*aa*cos(phi0)*dphi)
+                av2 = (vt(i+1,j,kk)-vt(i-1,j,kk))/(2.*aa*cos(phi0)*dlambda)
                 av3 = -(ut(i,j+1,kk)*cos(phip)-ut(i,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)  
                 avort(i,j,kk) = av1+av2+av3
             enddo
 
             av1 = 2.*omega*sin(phi0)
-            av2 = (vt(2,j,kk)-vt(nlon,j,kk))/(2.*aa*cos(phi0)*dphi)
+            av2 = (vt(2,j,kk)-vt(nlon,j,kk))/(2.*aa*cos(phi0)*dlambda)
             av3 = -(ut(1,j+1,kk)*cos(phip)-ut(1,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)  
             avort(1,j,kk) = av1+av2+av3
             av4 = 2.*omega*sin(phi0)
-            av5 = (vt(1,j,kk)-vt(nlon-1,j,kk))/(2.*aa*cos(phi0)*dphi)
+            av5 = (vt(1,j,kk)-vt(nlon-1,j,kk))/(2.*aa*cos(phi0)*dlambda)
             av6 =   & 
             -(ut(nlon,j+1,kk)*cos(phip)-ut(nlon,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)
             avort(nlon,j,kk) = av4+av5+av6
diff --git a/src/falwa/f90_modules/compute_qgpv_direct_inv.f90 b/src/falwa/f90_modules/compute_qgpv_direct_inv.f90
index e53da8c..dd29944 100644
--- a/src/falwa/f90_modules/compute_qgpv_direct_inv.f90
+++ b/src/falwa/f90_modules/compute_qgpv_direct_inv.f90
@@ -19,6 +19,7 @@ SUBROUTINE compute_qgpv_direct_inv(nlon, nlat, kmax, jd, uq, vq, tq, height, &
    rkappa = rr/cp
    pi = acos(-1.)
    dphi = pi/float(nlat-1)
+   dlambda = 2.*pi/float(nlon)
 
   write(6,*) 'nlon, nlat, kmax, jd'
   write(6,*) nlon, nlat, kmax, jd
@@ -33,17 +34,17 @@ SUBROUTINE compute_qgpv_direct_inv(nlon, nlat, kmax, jd, uq, vq, tq, height, &
 
       do i = 2,nlon-1
         av1 = 2.*omega*sin(phi0)
-        av2 = (vq(i+1,j,kk)-vq(i-1,j,kk))/(2.*aa*cos(phi0)*dphi)
+        av2 = (vq(i+1,j,kk)-vq(i-1,j,kk))/(2.*aa*cos(phi0)*dlambda)
         av3 = -(uq(i,j+1,kk)*cos(phip)-uq(i,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)
         avort(i,j,kk) = av1+av2+av3
       enddo
 
       av1 = 2.*omega*sin(phi0)
-      av2 = (vq(2,j,kk)-vq(nlon,j,kk))/(2.*aa*cos(phi0)*dphi)
+      av2 = (vq(2,j,kk)-vq(nlon,j,kk))/(2.*aa*cos(phi0)*dlambda)
       av3 = -(uq(1,j+1,kk)*cos(phip)-uq(1,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)
       avort(1,j,kk) = av1+av2+av3
       av4 = 2.*omega*sin(phi0)
-      av5 = (vq(1,j,kk)-vq(nlon-1,j,kk))/(2.*aa*cos(phi0)*dphi)
+      av5 = (vq(1,j,kk)-vq(nlon-1,j,kk))/(2.*aa*cos(phi0)*dlambda)
       av6 =   &
       -(uq(nlon,j+1,kk)*cos(phip)-uq(nlon,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)
       avort(nlon,j,kk) = av4+av5+av6
-- 
2.43.0


From f03e111f386a7311573717909863b1e156ffdeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:02 +0000
Subject: [PATCH 21/35] fix: zonal_convergence and meridional_divergence return
 0 where the cosine of latitude vanishes, as documented

---
 src/falwa/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index 6724dd4..23f8573 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -229,6 +229,7 @@ def zonal_convergence(field, clat, dlambda, planet_radius=6.378e+6, tol=1.e-5):
 
     zonal_diff[finite_clat, :] = zonal_diff[finite_clat, :] * \
                                  (-1./(planet_radius * clat[finite_clat, np.newaxis] * 2. * dlambda))
+    zonal_diff[~finite_clat, :] = 0.
 
     return zonal_diff
 
@@ -276,6 +277,7 @@ def meridional_divergence(field, clat, dphi, planet_radius=6.378e+6, tol=1.e-5):
 
     meridional_diff[finite_clat, :] = \
         meridional_diff[finite_clat, :] / (planet_radius * clat[finite_clat, np.newaxis] * 2. * dphi)
+    meridional_diff[~finite_clat, :] = 0.
 
     return meridional_diff
 
-- 
2.43.0


From 8f96859f8b9b3c5b1f2994755a1db385e39ee51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:02 +0000
Subject: [PATCH 22/35] fix: meridional_divergence divides its one-sided edge
 differences by one grid spacing

---
 src/falwa/utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index 23f8573..ab01bc0 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -269,8 +269,9 @@ def meridional_divergence(field, clat, dphi, planet_radius=6.378e+6, tol=1.e-5):
 
     meridional_diff = np.zeros_like(field)
     meridional_diff[1:-1, :] = field[2:, :] * clat[2:, np.newaxis] - field[:-2, :] * clat[:-2, np.newaxis]
-    meridional_diff[0, :] = field[1, :] * clat[1] - field[0, :] * clat[0]
-    meridional_diff[-1, :] = field[-1, :] * clat[-1] - field[-2, :] * clat[-2]
+    # One-sided at the edges: one grid spacing rather than two
+    meridional_diff[0, :] = 2. * (field[1, :] * clat[1] - field[0, :] * clat[0])
+    meridional_diff[-1, :] = 2. * (field[-1, :] * clat[-1] - field[-2, :] * clat[-2])
 
     # This is to avoid divided by zero
     finite_clat = np.abs(clat) > tol
-- 
2.43.0


From d8020d1564f8462195f6d6026c2a685f1c742226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:04 +0000
Subject: [PATCH 23/35] fix: QGFieldNHN22 returns the reference wind its
 inversion used on the equatorward boundary row

---
 src/falwa/f90_modules/upward_sweep.f90 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/falwa/f90_modules/upward_sweep.f90 b/src/falwa/f90_modules/upward_sweep.f90
index e4e4c7d..96d0aa4 100644
--- a/src/falwa/f90_modules/upward_sweep.f90
+++ b/src/falwa/f90_modules/upward_sweep.f90
@@ -43,6 +43,9 @@ SUBROUTINE upward_sweep(jmax, kmax, nd, jb, jd, sjk, tjk, ckref, tb, qref_over_c
   ! *** Corner boundary conditions ***
   u(1,1) = 0.
   u(jd,1) = 0.
+  do k = 2,kmax-1  ! the equatorward boundary condition of the inversion, see matrix_b4_inversion
+    u(1,k) = ckref(1+jb,k)/(2.*pi*a)-om*a*cos(dp*float(jb))
+  enddo
   !        u(1,kmax) = ubar(1+jb,kmax)*cos(dp*float(jb))
   u(1,kmax) = ckref(1+jb,kmax)/(2.*pi*a)-om*a*cos(dp*float(jb))
   u(jd,kmax) = 0.
-- 
2.43.0


From 9d5fc4552ab7cc9323c5fe3253acc3f49509f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:04 +0000
Subject: [PATCH 24/35] fix: the boundary circulation of QGFieldNHN22 is
 computed at the top level too

---
 src/falwa/f90_modules/compute_qref_and_fawa_first.f90 | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90 b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
index 41de5f2..d0ae524 100644
--- a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
+++ b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
@@ -57,7 +57,6 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
 
   do k = 2,kmax-1
     pv2(:,:) = pv(:,:,k)
-    vort2(:,:) = vort(:,:,k)
 
     !  **** compute qref via area analysis ****
     qmax = maxval(pv2)
@@ -103,8 +102,12 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
       *a*dphi*2.*pi*a*cos(phi0)
     enddo
 
+  enddo
+
     ! **** compute Kelvin's circulation based on absolute vorticity (for b.c.) ****
 
+  do k = 2,kmax  ! the top level too: upward_sweep needs it in the corner
+    vort2(:,:) = vort(:,:,k)
 
     qmax = maxval(vort2)
     qmin = minval(vort2)
-- 
2.43.0


From fcf6fae21eb11645fb74c5a35512d794b2ee882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 25/35] fix: use each row's own temperature gradient for the
 top thermal wind of QGFieldNHN22

---
 src/falwa/f90_modules/compute_qref_and_fawa_first.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90 b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
index d0ae524..11cb18b 100644
--- a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
+++ b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
@@ -172,7 +172,7 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
     cos0 = cos(phi0)
     sin0 = sin(phi0)
     tjk(j-1,kmax-1) = -dz*rr*cos0*exp(-z(kmax-1)*rkappa/h)
-    tjk(j-1,kmax-1) = tjk(j-1,kmax-1)*(tbar(j+1,kmax)-tbar(j-1,kmax))
+    tjk(j-1,kmax-1) = tjk(j-1,kmax-1)*(tbar(jj+1,kmax)-tbar(jj-1,kmax))
     tjk(j-1,kmax-1) = tjk(j-1,kmax-1)/(4.*omega*sin0*dphi*h*a)
     sjk(j-1,j-1,kmax-1) = 1.
   enddo
-- 
2.43.0


From 78917dc9745bc38f2438807d706bde6426e7271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 26/35] fix: refuse a temperature field of the wrong shape with
 TypeError even if it can be broadcast

---
 src/falwa/oopinterface.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 8ef8494..5d62fd7 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -124,7 +124,11 @@ class QGFieldBase(ABC):
         # === Check whether the input field is masked array. If so, turn them to normal array ===
         u_field = self._convert_masked_data(u_field, "u_field")
         v_field = self._convert_masked_data(v_field, "v_field")
-        theta_field = self._convert_masked_data(t_field, "t_field") * np.exp(
+        t_field = self._convert_masked_data(t_field, "t_field")
+        # Checked here since a smaller array could be broadcast (or fail to) in the conversion to theta
+        self._check_dimension_of_fields(
+            field=t_field, field_name='t_field', expected_dim=(plev.size, ylat.size, xlon.size))
+        theta_field = t_field * np.exp(
             dry_gas_constant / cp * self._plev_to_height[:, np.newaxis, np.newaxis] / scale_height)
 
         # === Check if ylat is in ascending order and include the equator ===
@@ -142,7 +146,6 @@ class QGFieldBase(ABC):
         expected_dimension = (self.nlev, self.nlat, self.nlon)
         self._check_dimension_of_fields(field=u_field, field_name='u_field', expected_dim=expected_dimension)
         self._check_dimension_of_fields(field=v_field, field_name='v_field', expected_dim=expected_dimension)
-        self._check_dimension_of_fields(field=theta_field, field_name='theta_field', expected_dim=expected_dimension)
 
         # === Do Interpolation on latitude grid if needed ===
         if self.need_latitude_interpolation:
-- 
2.43.0


From b36a35ffa7488e93953ae0ac45f475558750b7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 27/35] fix: refuse ascending pressure levels also when they
 are the pseudoheight grid

---
 src/falwa/oopinterface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 5d62fd7..7475434 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -108,6 +108,8 @@ class QGFieldBase(ABC):
         # === Variables related to the Vertical grid ===
         self._data_on_evenly_spaced_pseudoheight_grid = data_on_evenly_spaced_pseudoheight_grid
         if self._data_on_evenly_spaced_pseudoheight_grid:
+            if np.diff(plev)[0] > 0:
+                raise TypeError("plev must be in decending order (i.e. from ground level to aloft)")
             self.plev = plev
             self.kmax = plev.size
             self._plev_to_height = -scale_height * np.log(plev / P_GROUND)
-- 
2.43.0


From 0938ed23e901a98028b92249e5c60ba53db386e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 28/35] fix: integration_seconds in integrate_budget is in
 seconds whatever the resolution of the time axis

---
 src/falwa/xarrayinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 0da831a..5240faf 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -736,7 +736,7 @@ def integrate_budget(ds, var_names=None):
     attrs = dict(ds.attrs)
     attrs["integration_start"] = str(start)
     attrs["integration_stop"] = str(stop)
-    attrs["integration_seconds"] = (stop - start) / np.timedelta64(1000000000)
+    attrs["integration_seconds"] = (stop - start) / np.timedelta64(1, "s")
     return xr.Dataset(data_vars, ds.coords, attrs)
 
 
-- 
2.43.0


From 1b7ee23484367d98ebe0982b82ffad098460e05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 29/35] fix: accept a Dataset for da_v and da_t when da_u is a
 DataArray

---
 src/falwa/xarrayinterface.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 5240faf..4761f18 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -330,18 +330,19 @@ class QGDataset:
             # priority to existing v and t fields from the args
             if da_v is None:
                 da_v = _get_dataarray(da_u, _NAMES_V, var_names)
-            elif isinstance(da_v, xr.Dataset):
-                da_v = _get_dataarray(da_v, _NAMES_V, var_names)
             # else: assume da_v is dataarray so there is no issue
 
             if da_t is None:
                 da_t = _get_dataarray(da_u, _NAMES_T, var_names)
-            elif isinstance(da_t, xr.Dataset):
-                da_t = _get_dataarray(da_t, _NAMES_T, var_names)
             # else: assume da_t is dataarray so there is no issue
 
             # Always take u
             da_u = _get_dataarray(da_u, _NAMES_U, var_names)
+        # Datasets given for v and t are accepted along with any kind of da_u
+        if isinstance(da_v, xr.Dataset):
+            da_v = _get_dataarray(da_v, _NAMES_V, var_names)
+        if isinstance(da_t, xr.Dataset):
+            da_t = _get_dataarray(da_t, _NAMES_T, var_names)
 
         # Assertions about da_u, da_v, da_t
         assert da_u is not None, "missing u field"
-- 
2.43.0


From 0c1180bc4e9a8e8cbb8c84d40395b279cad260d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:16 +0000
Subject: [PATCH 30/35] fix: stretching term of compute_qgpv_givenvort was
 uninitialised memory at the equator row

---
 src/falwa/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index ab01bc0..3f21ec9 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -158,7 +158,7 @@ def compute_qgpv_givenvort(omega, nlat, nlon, kmax, unih, ylat, avort,
         2*omega*np.sin(np.deg2rad(ylat[np.newaxis, :, np.newaxis]))
 
     # Calculate the z-divergence term
-    zdiv = np.empty_like(potential_temp)
+    zdiv = np.zeros_like(potential_temp)  # stays zero at the equator of odd grids
     dzdiv = np.empty_like(potential_temp)
     for kk in range(kmax):  # This is more efficient
         zdiv[kk, :nlat_s, :] = exp(-unih[kk]/scale_height)*(
-- 
2.43.0


From 83565ffd008bdfeb74dee5a2ee3ce873672cd27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:30 +0000
Subject: [PATCH 31/35] fix: hemisphere_to_globe gave a latitude dimension to
 variables that have none

---
 src/falwa/xarrayinterface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 4761f18..a623e96 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -794,4 +794,5 @@ def hemisphere_to_globe(ds, var_names=None):
     except KeyError:
         pass
     # Assemble global dataset
-    return xr.concat([sd, ds] if eq0 else [ds, sd], dim=ylat_name)
+    # Variables without latitude dimension are not concatenated
+    return xr.concat([sd, ds] if eq0 else [ds, sd], dim=ylat_name, data_vars="minimal")
-- 
2.43.0


From 72c3c4b87279cbb4f45ac75715fb41da30e505a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:45 +0000
Subject: [PATCH 32/35] fix: QGFieldNHN22 could not compute reference states
 for some level spacings

np.arange(0, kmax * dz, dz) has kmax + 1 elements when kmax * dz is rounded
up, e.g. for dz = 1000.2 and kmax = 12.
---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 7475434..af049ca 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1893,7 +1893,7 @@ class QGFieldNHN22(QGFieldBase):
                 jmax=self._nlat_analysis,
                 jb=self.eq_boundary_index,  # 5
                 jd=self.jd,
-                z=np.arange(0, self.kmax * self.dz, self.dz),
+                z=np.arange(self.kmax) * self.dz,
                 statn=static_stability,
                 qref=qref_over_sin,
                 ckref=ckref,
-- 
2.43.0


From bc649653a55347ab33feae2f482c478d93f5050b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:03 +0000
Subject: [PATCH 33/35] fix: even grids of some sizes (78, 156, ...) were
 refused with IndexError

np.linspace(-90, 90, nlat + 1) misses 0 by a rounding error for them, so the
equator was not found.
---
 src/falwa/oopinterface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index af049ca..1ae6c79 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -334,6 +334,7 @@ class QGFieldBase(ABC):
             # Even grid
             need_latitude_interpolation = True
             _ylat = np.linspace(-90., 90., ylat.size + 1, endpoint=True)
+            _ylat[ylat.size // 2] = 0.  # linspace may miss it by a rounding error
             equator_idx = \
                 np.argwhere(_ylat == 0)[0][0] + 1
             # Fortran indexing starts from 1
-- 
2.43.0


From 721a5986367893ee606904f8d2aad85f1e0b89a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:33 +0000
Subject: [PATCH 34/35] fix: difference utilities truncated their results for
 fields of integer type

---
 src/falwa/utilities.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index 3f21ec9..4e80b37 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -158,8 +158,8 @@ def compute_qgpv_givenvort(omega, nlat, nlon, kmax, unih, ylat, avort,
         2*omega*np.sin(np.deg2rad(ylat[np.newaxis, :, np.newaxis]))
 
     # Calculate the z-divergence term
-    zdiv = np.zeros_like(potential_temp)  # stays zero at the equator of odd grids
-    dzdiv = np.empty_like(potential_temp)
+    zdiv = np.zeros_like(potential_temp, dtype=np.result_type(potential_temp, float))  # stays zero at the equator of odd grids
+    dzdiv = np.empty_like(zdiv)
     for kk in range(kmax):  # This is more efficient
         zdiv[kk, :nlat_s, :] = exp(-unih[kk]/scale_height)*(
             potential_temp[kk, :nlat_s, :] - t0_cs[kk]
@@ -219,7 +219,7 @@ def zonal_convergence(field, clat, dlambda, planet_radius=6.378e+6, tol=1.e-5):
 
     """
 
-    zonal_diff = np.zeros_like(field)
+    zonal_diff = np.zeros_like(field, dtype=np.result_type(field, float))
     zonal_diff[:, 1:-1] = field[:, 2:] - field[:, :-2]
     zonal_diff[:, 0] = field[:, 1] - field[:, -1]
     zonal_diff[:, -1] = field[:, 0] - field[:, -2]
@@ -267,7 +267,7 @@ def meridional_divergence(field, clat, dphi, planet_radius=6.378e+6, tol=1.e-5):
 
     """
 
-    meridional_diff = np.zeros_like(field)
+    meridional_diff = np.zeros_like(field, dtype=np.result_type(field, float))
     meridional_diff[1:-1, :] = field[2:, :] * clat[2:, np.newaxis] - field[:-2, :] * clat[:-2, np.newaxis]
     # One-sided at the edges: one grid spacing rather than two
     meridional_diff[0, :] = 2. * (field[1, :] * clat[1] - field[0, :] * clat[0])
@@ -289,7 +289,7 @@ def curl_2d(ufield, vfield, clat, dlambda, dphi, planet_radius=6.378e+6):
     of velocity on a pressure level in spherical coordinates.
     """
 
-    ans = np.zeros_like(ufield)
+    ans = np.zeros_like(ufield, dtype=np.result_type(ufield, float))
     ans[1:-1, 1:-1] = (vfield[1:-1, 2:] - vfield[1:-1, :-2])/(2.*dlambda) - \
                       (ufield[2:, 1:-1] * clat[2:, np.newaxis] -
                        ufield[:-2, 1:-1] * clat[:-2, np.newaxis])/(2.*dphi)
-- 
2.43.0


From 19b85873d70be746ccd2093a19142c813f5c8a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:04 +0000
Subject: [PATCH 35/35] fix: equivalent latitude became NaN where rounding put
 the enclosed area above that of the sphere

---
 src/falwa/basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/basis.py b/src/falwa/basis.py
index 36f1b53..928bfa9 100644
--- a/src/falwa/basis.py
+++ b/src/falwa/basis.py
@@ -49,7 +49,7 @@ def eqvlat_fawa(
     cq = np.cumsum([0] + [np.multiply(area_flat, vort_flat)[np.where(inds == i)].sum()  # cumulative vort * area
                           for i in range(1, vort_bins.size)])
     eqv_gaussian_grid = aq / (2 * pi * planet_radius ** 2) - 1.0  # ascending from -1
-    eqv_latitude = np.rad2deg(np.arcsin(eqv_gaussian_grid))
+    eqv_latitude = np.rad2deg(np.arcsin(np.clip(eqv_gaussian_grid, -1.0, 1.0)))
     qref = np.interp(ylat, eqv_latitude, vort_bins)  # ascending. qref = np.interp(alat[::-1], aq, q_part_u) also works
 
     # *** Compute FAWA ***
@@ -123,7 +123,7 @@ def eqvlat_vgrad(ylat, vort, area, n_points, planet_radius=6.378e+6, vgrad=None)
         brac[1:-1] = 0.5 * (dp[:-2] + dp[2:])
 
     y_part = aq / (2 * pi * planet_radius**2) - 1.0
-    lat_part = np.rad2deg(np.arcsin(y_part))
+    lat_part = np.rad2deg(np.arcsin(np.clip(y_part, -1.0, 1.0)))
     q_part = np.interp(ylat, lat_part, q_part_u)
 
     if vgrad is not None:
-- 
2.43.0

