From 2282e99cd8b2ade539484ac0b32cd4c7c84ce128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 01/41] fix: compute_lwa_only stores the Southern Hemisphere
 astar1/astar2

---
 src/falwa/oopinterface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 82aadbb..b272bd6 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -686,8 +686,8 @@ class QGFieldBase(ABC):
                     cp=self.cp,
                     prefac=self.prefactor)
             self._layerwise_flux_terms_storage.lwa_shem = np.abs(astar1 + astar2)
-            self._layerwise_flux_terms_storage.astar1_baro_shem = np.abs(astar1)
-            self._layerwise_flux_terms_storage.astar2_baro_shem = np.abs(astar2)
+            self._layerwise_flux_terms_storage.astar1_shem = np.abs(astar1)
+            self._layerwise_flux_terms_storage.astar2_shem = np.abs(astar2)
 
     @staticmethod
     def _prepare_coordinates_and_ref_states(
-- 
2.43.0


From cc85e056445c56e1b18e274d47458641a94d6905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 02/41] fix: QGDataset labels hemispheric static stability with
 the right hemisphere

---
 src/falwa/xarrayinterface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 55d6442..b0b1724 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -488,8 +488,8 @@ class QGDataset:
         elif stability.ndim == 3 and stability.shape[-2] == 2:
             # Two vertical profiles of static stability per field: hemispheric
             return (
-                self.metadata.as_dataarray(stability[:,0,:], "static_stability_n"),
-                self.metadata.as_dataarray(stability[:,1,:], "static_stability_s")
+                self.metadata.as_dataarray(stability[:,0,:], "static_stability_s"),
+                self.metadata.as_dataarray(stability[:,1,:], "static_stability_n")
             )
         else:
             raise ValueError(f"cannot process shape of returned static stability field: {stability.shape}")
-- 
2.43.0


From 7b54e23092f706c2fe88e9a4519cf58a94d0c694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 03/41] fix: NHN22 reference theta uses the mean of its own
 hemisphere

---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index b272bd6..cf802ec 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1875,7 +1875,7 @@ class QGFieldNHN22(QGFieldBase):
             sjk=sjk,
             tjk=tjk,
             ckref=ckref,
-            tb=self._domain_average_storage.tn0,
+            tb=t0,
             qref_over_cor=qref_over_sin,
             a=self.planet_radius,
             om=self.omega,
-- 
2.43.0


From 72b4d0d3e6be627e5d2b2a31ad71a9191606e4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 04/41] fix: compute_layerwise_lwa_fluxes works on grids
 without the equator

---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index cf802ec..c95bd76 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1075,7 +1075,7 @@ class QGFieldBase(ABC):
 
         # *** The chunk below has duplication. TODO: think of ways to refactor ***
         if ncforce is None:
-            ncforce = np.zeros((self.nlon, self.nlat, self.kmax))  # fortran indexing
+            ncforce = np.zeros((self.nlon, self._nlat_analysis, self.kmax))  # fortran indexing
         else:  # There is input
             ncforce = np.swapaxes(ncforce, 0, 2)
             assert ncforce.shape == self._interpolated_field_storage.interpolated_theta.shape
-- 
2.43.0


From 5a8d4553d504a43672fefec6c97539a026fad2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 05/41] fix: global fields on grids without the equator with
 northern_hemisphere_results_only

---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index c95bd76..3b361e7 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -392,7 +392,7 @@ class QGFieldBase(ABC):
             The interpolated variable(numpy.ndarray)
         """
         if self.need_latitude_interpolation:
-            if self.northern_hemisphere_results_only:
+            if self.northern_hemisphere_results_only and variable.shape[interp_axis] != self._nlat_analysis:
                 return self._interp_back(
                     variable, self._ylat[-(self._nlat_analysis // 2 + 1):],
                     self._input_ylat[-(self.nlat // 2):],
-- 
2.43.0


From 17e21ab59183d20f44eced30824bbbe6f9f6350e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 06/41] fix: zonal derivative of v in QGPV uses the longitude
 spacing

---
 src/falwa/f90_modules/compute_qgpv.f90            | 9 +++++----
 src/falwa/f90_modules/compute_qgpv_direct_inv.f90 | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/falwa/f90_modules/compute_qgpv.f90 b/src/falwa/f90_modules/compute_qgpv.f90
index 1cbebfb..a626d28 100644
--- a/src/falwa/f90_modules/compute_qgpv.f90
+++ b/src/falwa/f90_modules/compute_qgpv.f90
@@ -16,12 +16,13 @@ SUBROUTINE compute_qgpv(nlon, nlat, kmax, ut, vt, theta, height, t0, stat, &
     REAL ::  st(nlon,nlat),zmst(nlat)
     REAL ::  zmav(nlat,kmax)
     REAL ::  zmpv(nlat,kmax)
-    REAL :: rkappa, pi, dphi
+    REAL :: rkappa, pi, dphi, dlambda
 
 
     rkappa = rr/cp
     pi = acos(-1.)
     dphi = pi/float(nlat-1)
+    dlambda = 2.*pi/float(nlon)
 
     !  **** compute zonal mean ****
     tz = 0.
@@ -67,17 +68,17 @@ SUBROUTINE compute_qgpv(nlon, nlat, kmax, ut, vt, theta, height, t0, stat, &
 
             do i = 2,nlon-1
                 av1 = 2.*omega*sin(phi0)
-                av2 = (vt(i+1,j,kk)-vt(i-1,j,kk))/(2.*aa*cos(phi0)*dphi)
+                av2 = (vt(i+1,j,kk)-vt(i-1,j,kk))/(2.*aa*cos(phi0)*dlambda)
                 av3 = -(ut(i,j+1,kk)*cos(phip)-ut(i,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)  
                 avort(i,j,kk) = av1+av2+av3
             enddo
 
             av1 = 2.*omega*sin(phi0)
-            av2 = (vt(2,j,kk)-vt(nlon,j,kk))/(2.*aa*cos(phi0)*dphi)
+            av2 = (vt(2,j,kk)-vt(nlon,j,kk))/(2.*aa*cos(phi0)*dlambda)
             av3 = -(ut(1,j+1,kk)*cos(phip)-ut(1,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)  
             avort(1,j,kk) = av1+av2+av3
             av4 = 2.*omega*sin(phi0)
-            av5 = (vt(1,j,kk)-vt(nlon-1,j,kk))/(2.*aa*cos(phi0)*dphi)
+            av5 = (vt(1,j,kk)-vt(nlon-1,j,kk))/(2.*aa*cos(phi0)*dlambda)
             av6 =   & 
             -(ut(nlon,j+1,kk)*cos(phip)-ut(nlon,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)
             avort(nlon,j,kk) = av4+av5+av6
diff --git a/src/falwa/f90_modules/compute_qgpv_direct_inv.f90 b/src/falwa/f90_modules/compute_qgpv_direct_inv.f90
index e53da8c..dd29944 100644
--- a/src/falwa/f90_modules/compute_qgpv_direct_inv.f90
+++ b/src/falwa/f90_modules/compute_qgpv_direct_inv.f90
@@ -19,6 +19,7 @@ SUBROUTINE compute_qgpv_direct_inv(nlon, nlat, kmax, jd, uq, vq, tq, height, &
    rkappa = rr/cp
    pi = acos(-1.)
    dphi = pi/float(nlat-1)
+   dlambda = 2.*pi/float(nlon)
 
   write(6,*) 'nlon, nlat, kmax, jd'
   write(6,*) nlon, nlat, kmax, jd
@@ -33,17 +34,17 @@ SUBROUTINE compute_qgpv_direct_inv(nlon, nlat, kmax, jd, uq, vq, tq, height, &
 
       do i = 2,nlon-1
         av1 = 2.*omega*sin(phi0)
-        av2 = (vq(i+1,j,kk)-vq(i-1,j,kk))/(2.*aa*cos(phi0)*dphi)
+        av2 = (vq(i+1,j,kk)-vq(i-1,j,kk))/(2.*aa*cos(phi0)*dlambda)
         av3 = -(uq(i,j+1,kk)*cos(phip)-uq(i,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)
         avort(i,j,kk) = av1+av2+av3
       enddo
 
       av1 = 2.*omega*sin(phi0)
-      av2 = (vq(2,j,kk)-vq(nlon,j,kk))/(2.*aa*cos(phi0)*dphi)
+      av2 = (vq(2,j,kk)-vq(nlon,j,kk))/(2.*aa*cos(phi0)*dlambda)
       av3 = -(uq(1,j+1,kk)*cos(phip)-uq(1,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)
       avort(1,j,kk) = av1+av2+av3
       av4 = 2.*omega*sin(phi0)
-      av5 = (vq(1,j,kk)-vq(nlon-1,j,kk))/(2.*aa*cos(phi0)*dphi)
+      av5 = (vq(1,j,kk)-vq(nlon-1,j,kk))/(2.*aa*cos(phi0)*dlambda)
       av6 =   &
       -(uq(nlon,j+1,kk)*cos(phip)-uq(nlon,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)
       avort(nlon,j,kk) = av4+av5+av6
-- 
2.43.0


From f204dfd30b7a54db41cfedd73799642cea578840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 07/41] fix: eddy momentum flux at the equatorward boundary row
 is stored in that row

---
 src/falwa/f90_modules/compute_flux_dirinv.f90 | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/falwa/f90_modules/compute_flux_dirinv.f90 b/src/falwa/f90_modules/compute_flux_dirinv.f90
index 519c4db..03a95ac 100644
--- a/src/falwa/f90_modules/compute_flux_dirinv.f90
+++ b/src/falwa/f90_modules/compute_flux_dirinv.f90
@@ -149,7 +149,7 @@ SUBROUTINE compute_flux_dirinv_nshem( &
         ! meridional eddy momentum flux one grid north and south
         if (is_nhem) then
           ep2(i,j,k) = (uu(i,j+nd,k)-uref(j-jb+1,k))*cosp*cosp * vv(i,j+nd,k)
-          ep3(i,j,k) = (uu(i,j+nd-2,k)-uref(j-jb-1,k))*cosm*cosm * vv(i,j+nd-2,k)
+          ep3(i,j,k) = (uu(i,j+nd-2,k)-uref(max(j-jb-1,1),k))*cosm*cosm * vv(i,j+nd-2,k)
         else
           ! TODO: double check.
           ep2(i,j,k) = (uu(i,j+1,k)-uref(j+1,k))*cosp*cosp * vv(i,j+1,k)
@@ -170,12 +170,12 @@ SUBROUTINE compute_flux_dirinv_nshem( &
           ep4(i,j) = ep41*(ep42+ep43)   ! low-level heat flux
         endif
       enddo
-      phip = dp*jb
-      phi0 = dp*(jb-1)
+      phip = dp*(jb+1)
+      phi0 = dp*jb
       cosp = cos(phip)          ! cosine for one grid north
       cos0 = cos(phi0)          ! cosine for latitude grid
-      ep2(i,jb,k) = (uu(i,nd+jb+1,k)-uref(2,k))*cosp*cosp*vv(i,nd+jb+1,k)
-      ep3(i,jb,k) = (uu(i,nd+jb,k)-uref(1,k))*cos0*cos0*vv(i,nd+jb,k)
+      ep2(i,jb+1,k) = (uu(i,nd+jb+1,k)-uref(2,k))*cosp*cosp*vv(i,nd+jb+1,k)
+      ep3(i,jb+1,k) = (uu(i,nd+jb,k)-uref(1,k))*cos0*cos0*vv(i,nd+jb,k)
     enddo
   enddo
 
-- 
2.43.0


From 73742d7a6a07bfbdf6f75b1742e0d9bc4ecb288f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 08/41] fix: NHN22 Uref carries its equatorward boundary value
 at every level

---
 src/falwa/f90_modules/compute_qref_and_fawa_first.f90 | 7 +++++--
 src/falwa/f90_modules/upward_sweep.f90                | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90 b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
index 41de5f2..7d39c9f 100644
--- a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
+++ b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
@@ -57,7 +57,6 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
 
   do k = 2,kmax-1
     pv2(:,:) = pv(:,:,k)
-    vort2(:,:) = vort(:,:,k)
 
     !  **** compute qref via area analysis ****
     qmax = maxval(pv2)
@@ -103,8 +102,12 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
       *a*dphi*2.*pi*a*cos(phi0)
     enddo
 
-    ! **** compute Kelvin's circulation based on absolute vorticity (for b.c.) ****
+  enddo
+
+  ! **** compute Kelvin's circulation based on absolute vorticity (for b.c.) ****
 
+  do k = 2,kmax
+    vort2(:,:) = vort(:,:,k)
 
     qmax = maxval(vort2)
     qmin = minval(vort2)
diff --git a/src/falwa/f90_modules/upward_sweep.f90 b/src/falwa/f90_modules/upward_sweep.f90
index e4e4c7d..8e02d30 100644
--- a/src/falwa/f90_modules/upward_sweep.f90
+++ b/src/falwa/f90_modules/upward_sweep.f90
@@ -44,7 +44,9 @@ SUBROUTINE upward_sweep(jmax, kmax, nd, jb, jd, sjk, tjk, ckref, tb, qref_over_c
   u(1,1) = 0.
   u(jd,1) = 0.
   !        u(1,kmax) = ubar(1+jb,kmax)*cos(dp*float(jb))
-  u(1,kmax) = ckref(1+jb,kmax)/(2.*pi*a)-om*a*cos(dp*float(jb))
+  do k = 2,kmax
+    u(1,k) = ckref(1+jb,k)/(2.*pi*a)-om*a*cos(dp*float(jb))
+  enddo
   u(jd,kmax) = 0.
 
   ! *** Divide by cos phi to recover Uref ****
-- 
2.43.0


From ddf68b66703f695c26390e5002f88b91931fe5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 09/41] fix: hemispheric wrappers accept vgrad again

---
 src/falwa/wrapper.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index b0d669a..0a8bb76 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -177,23 +177,27 @@ def eqvlat_bracket_hemispheric(ylat, vort, area, nlat_s=None, n_points=None, pla
         n_points = nlat_s
 
     # --- Southern Hemisphere ---
-    qref1, brac1 = basis.eqvlat_fawa(ylat[:nlat_s], vort[:nlat_s, :],
+    qref1, brac1 = basis.eqvlat_vgrad(ylat[:nlat_s], vort[:nlat_s, :],
                                 area[:nlat_s, :],
                                 n_points, planet_radius=planet_radius,
-                                vgrad=vgrad)
+                                vgrad=None if vgrad is None else vgrad[:nlat_s, :])
     qref[:nlat_s] = qref1
 
     # --- Northern Hemisphere ---
     vort2 = -vort[::-1, :]
-    qref2, brac2 = basis.eqvlat_fawa(ylat[:nlat_s], vort2[:nlat_s, :],
+    vgrad2 = None if vgrad is None else -vgrad[::-1, :]
+    qref2, brac2 = basis.eqvlat_vgrad(ylat[:nlat_s], vort2[:nlat_s, :],
                                 area[:nlat_s, :],
                                 n_points, planet_radius=planet_radius,
-                                vgrad=vgrad)
+                                vgrad=None if vgrad is None else vgrad2[:nlat_s, :])
 
     qref[-nlat_s:] = qref2[::-1]
 
+    if vgrad is None:
+        return qref, None
+
     brac[:nlat_s] = brac1
-    brac[-nlat_s:] = brac2[::-1]
+    brac[-nlat_s:] = -brac2[::-1]
 
     return qref, brac
 
@@ -406,7 +410,7 @@ def qgpv_eqlat_lwa_options(ylat, vort, area, dmu, nlat_s=None, n_points=None, vg
                                    area[:nlat_s, :],
                                    n_points, planet_radius=planet_radius)
     else:
-        qref1, brac = basis.eqvlat_fawa(ylat[:nlat_s], vort[:nlat_s, :],
+        qref1, brac = basis.eqvlat_vgrad(ylat[:nlat_s], vort[:nlat_s, :],
                                    area[:nlat_s, :],
                                    n_points, planet_radius=planet_radius,
                                    vgrad=vgrad[:nlat_s, :])
@@ -435,7 +439,7 @@ def qgpv_eqlat_lwa_options(ylat, vort, area, dmu, nlat_s=None, n_points=None, vg
                                    n_points, planet_radius=planet_radius)
     else:
         vgrad2 = -vgrad[::-1, :]  # Is this correct?
-        qref2, brac = basis.eqvlat_fawa(ylat[:nlat_s], vort2[:nlat_s, :],
+        qref2, brac = basis.eqvlat_vgrad(ylat[:nlat_s], vort2[:nlat_s, :],
                                    area[:nlat_s, :],
                                    n_points, planet_radius=planet_radius,
                                    vgrad=vgrad2[:nlat_s, :])
-- 
2.43.0


From ec764a6d3c18e9a11b27ed538bdf691c9b037aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 10/41] fix: eqvlat_hemispheric returns the Northern Hemisphere
 qref with its own sign

---
 src/falwa/wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index 0a8bb76..b9f8f82 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -130,7 +130,7 @@ def eqvlat_hemispheric(ylat, vort, area, nlat_s=None, n_points=None, planet_radi
     vort2 = -vort[::-1, :]
     qref2, _ = basis.eqvlat_fawa(ylat[:nlat_s], vort2[:nlat_s, :], area[:nlat_s, :],
                             n_points, planet_radius=planet_radius)
-    qref[-nlat_s:] = qref2[::-1]
+    qref[-nlat_s:] = -qref2[::-1]
 
     return qref
 
@@ -191,7 +191,7 @@ def eqvlat_bracket_hemispheric(ylat, vort, area, nlat_s=None, n_points=None, pla
                                 n_points, planet_radius=planet_radius,
                                 vgrad=None if vgrad is None else vgrad2[:nlat_s, :])
 
-    qref[-nlat_s:] = qref2[::-1]
+    qref[-nlat_s:] = -qref2[::-1]
 
     if vgrad is None:
         return qref, None
-- 
2.43.0


From f6d927a57e94aee40aa52c67dcd0b656448064d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 11/41] fix: barotropic_input_qref_to_compute_lwa returns the
 LWA array

---
 src/falwa/wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index b9f8f82..b861d29 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -82,7 +82,7 @@ def barotropic_input_qref_to_compute_lwa(ylat, qref, vort, area, dmu, planet_rad
     """
     nlat = vort.shape[0]
     nlon = vort.shape[1]
-    lwa_result = basis.lwa(nlon, nlat, vort, qref, dmu)
+    lwa_result, _ = basis.lwa(nlon, nlat, vort, qref, dmu)
     return lwa_result
 
 
-- 
2.43.0


From 936744eda1e21fbe7f8c606403bd310689a04487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 12/41] fix: theta_lwa accounts for theta decreasing poleward
 in the Northern Hemisphere

---
 src/falwa/wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index b861d29..33d86a8 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -571,8 +571,8 @@ def theta_lwa(ylat, theta, area, dmu, nlat_s=None, n_points=None, planet_radius=
                                n_points, planet_radius=planet_radius)
     qref[-nlat_s:] = qref2[::-1]
     lwa_result[-nlat_s:, :], dummy = basis.lwa(nlon, nlat_s,
-                                               theta[-nlat_s:, :],
-                                               qref[-nlat_s:],
+                                               -theta[-nlat_s:, :],
+                                               -qref[-nlat_s:],
                                                dmu[-nlat_s:])
 
     return qref, lwa_result
-- 
2.43.0


From b2067fef79605eda1af337d238aa70b4301258ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 13/41] fix: zonal_convergence and meridional_divergence are
 zero where clat is within tol

---
 src/falwa/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index 6724dd4..23f8573 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -229,6 +229,7 @@ def zonal_convergence(field, clat, dlambda, planet_radius=6.378e+6, tol=1.e-5):
 
     zonal_diff[finite_clat, :] = zonal_diff[finite_clat, :] * \
                                  (-1./(planet_radius * clat[finite_clat, np.newaxis] * 2. * dlambda))
+    zonal_diff[~finite_clat, :] = 0.
 
     return zonal_diff
 
@@ -276,6 +277,7 @@ def meridional_divergence(field, clat, dphi, planet_radius=6.378e+6, tol=1.e-5):
 
     meridional_diff[finite_clat, :] = \
         meridional_diff[finite_clat, :] / (planet_radius * clat[finite_clat, np.newaxis] * 2. * dphi)
+    meridional_diff[~finite_clat, :] = 0.
 
     return meridional_diff
 
-- 
2.43.0


From ea0703e77c835a92cd8ea2c218bc03f21ff7a000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 14/41] fix: meridional_divergence one-sided differences span
 one grid interval

---
 src/falwa/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index 23f8573..486d64f 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -269,8 +269,8 @@ def meridional_divergence(field, clat, dphi, planet_radius=6.378e+6, tol=1.e-5):
 
     meridional_diff = np.zeros_like(field)
     meridional_diff[1:-1, :] = field[2:, :] * clat[2:, np.newaxis] - field[:-2, :] * clat[:-2, np.newaxis]
-    meridional_diff[0, :] = field[1, :] * clat[1] - field[0, :] * clat[0]
-    meridional_diff[-1, :] = field[-1, :] * clat[-1] - field[-2, :] * clat[-2]
+    meridional_diff[0, :] = 2. * (field[1, :] * clat[1] - field[0, :] * clat[0])
+    meridional_diff[-1, :] = 2. * (field[-1, :] * clat[-1] - field[-2, :] * clat[-2])
 
     # This is to avoid divided by zero
     finite_clat = np.abs(clat) > tol
-- 
2.43.0


From 46b91ea64310633cb44121263cc940afbe48f8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 15/41] fix: column averages use the layers that the
 normalization prefactor counts

---
 src/falwa/oopinterface.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 3b361e7..b16f1e0 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -407,7 +407,7 @@ class QGFieldBase(ABC):
 
         # Build dynamic slicer for var_3d
         slicer = [slice(None)] * var_3d.ndim
-        slicer[height_axis] = slice(lowest_layer_index, None)
+        slicer[height_axis] = slice(lowest_layer_index, -1)  # same layers as in _compute_prefactor
 
         # Build dynamic shape for height broadcasting
         height_shape = [1] * var_3d.ndim
@@ -415,7 +415,7 @@ class QGFieldBase(ABC):
 
         var_baro = np.sum(
             var_3d[tuple(slicer)]
-            * np.exp(-self.height[lowest_layer_index:].reshape(height_shape) / self.scale_height) * dc,
+            * np.exp(-self.height[lowest_layer_index:-1].reshape(height_shape) / self.scale_height) * dc,
             axis=height_axis)
         return var_baro
 
@@ -459,7 +459,7 @@ class QGFieldBase(ABC):
         ncforce_baro = self._vertical_average(ncforce3d, lowest_layer_index=1)
 
         uref_baro = np.sum(
-            uref[-jd:, 1:] * np.exp(-self.height[np.newaxis, 1:] / self.scale_height) * self.dz / self.prefactor,axis=-1)
+            uref[-jd:, 1:-1] * np.exp(-self.height[np.newaxis, 1:-1] / self.scale_height) * self.dz / self.prefactor,axis=-1)
 
         return astar_baro, u_baro, uref_baro, ua1baro, ua2baro, ep1baro, ep2baro, ep3baro, ep4, \
             astar1, astar2, astar1_baro, astar2_baro, ncforce_baro
-- 
2.43.0


From d72e2871442f0308985712d0c5a3c70156d2b387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 16/41] fix: integrate_budget integration_seconds does not
 depend on the datetime resolution

---
 src/falwa/xarrayinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index b0b1724..55722f5 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -731,7 +731,7 @@ def integrate_budget(ds, var_names=None):
     attrs = dict(ds.attrs)
     attrs["integration_start"] = str(start)
     attrs["integration_stop"] = str(stop)
-    attrs["integration_seconds"] = (stop - start) / np.timedelta64(1000000000)
+    attrs["integration_seconds"] = (stop - start) / np.timedelta64(1, "s")
     return xr.Dataset(data_vars, ds.coords, attrs)
 
 
-- 
2.43.0


From 5884d427d52e86d311e725f2213a1a0e9848d4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 17/41] fix: NHN22 passes exactly kmax heights to the reference
 state solver

---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index b16f1e0..e337aeb 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1842,7 +1842,7 @@ class QGFieldNHN22(QGFieldBase):
                 jmax=self._nlat_analysis,
                 jb=self.eq_boundary_index,  # 5
                 jd=self.jd,
-                z=np.arange(0, self.kmax * self.dz, self.dz),
+                z=np.arange(self.kmax) * self.dz,
                 statn=static_stability,
                 qref=qref_over_sin,
                 ckref=ckref,
-- 
2.43.0


From c0e12254fa3f09e5095b191e4acd7c8b251c052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 18/41] fix: analysis grid always contains the equator exactly

---
 src/falwa/oopinterface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index e337aeb..472ba41 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -327,6 +327,7 @@ class QGFieldBase(ABC):
             # Even grid
             need_latitude_interpolation = True
             _ylat = np.linspace(-90., 90., ylat.size + 1, endpoint=True)
+            _ylat[ylat.size // 2] = 0.  # linspace may miss the equator by a rounding error
             equator_idx = \
                 np.argwhere(_ylat == 0)[0][0] + 1
             # Fortran indexing starts from 1
-- 
2.43.0


From db482970f47137dcb12964cb43879bb5ecf36b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 19/41] fix: QGDataset ncforce is global with
 northern_hemisphere_results_only

---
 src/falwa/xarrayinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 55722f5..d6ae9c7 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -229,7 +229,7 @@ _MetadataServiceProvider.register_var("flux_vector_lambda_baro", ("ylat", "xlon"
 _MetadataServiceProvider.register_var("flux_vector_phi_baro", ("ylat", "xlon"), dim_names=("ylat_ref_states", "xlon"))
 # 3-dimensional LWA (full x-y-z fields)
 _MetadataServiceProvider.register_var("lwa", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
-_MetadataServiceProvider.register_var("ncforce", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
+_MetadataServiceProvider.register_var("ncforce", ("height", "ylat", "xlon"))
 _MetadataServiceProvider.register_var("ua1", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
 _MetadataServiceProvider.register_var("ua2", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
 _MetadataServiceProvider.register_var("ep1", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
-- 
2.43.0


From 3b5bd8760ca77874fab1740b8b73aef47f022874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 20/41] fix: QGDataset reorders the heating rate like the other
 input fields

---
 src/falwa/xarrayinterface.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index d6ae9c7..0bec5b8 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -394,6 +394,7 @@ class QGDataset:
         if not _is_descending(plev):
             plev = np.flip(plev)
             flip.append(-3)
+        self._flip = flip
         # Ordering of xlon doesn't matter here
         xlon = da_xlon.values
         # Create a QGField object for each combination of timestep, ensemble
@@ -656,7 +657,9 @@ class QGDataset:
         ncforce_input_list = []
 
         for field, coord in zip(self._fields, self.metadata.iter_other()):
-            output = field.compute_ncforce_from_heating_rate(heating_rate=heating_rate.sel(coord))
+            # Same reordering as for the input fields
+            heating = np.flip(heating_rate.sel(coord).values, axis=self._flip)
+            output = field.compute_ncforce_from_heating_rate(heating_rate=heating)
             ncforce_input_list.append(output)
         return self.metadata.as_dataarray(ncforce_input_list, var="ncforce")
 
-- 
2.43.0


From 969e3d09d0ab50a5fadb11872d42296d14eab8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 21/41] fix: LWA computations refuse to run on reference states
 that were not computed

---
 src/falwa/oopinterface.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 472ba41..fcd1a2f 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -641,6 +641,9 @@ class QGFieldBase(ABC):
         >>> lwa = QGField.lwa       # 3-D LWA
         """
 
+        if not (self._reference_states_computed or self._nonconvergent_uref):
+            raise ValueError("Reference states have not been computed yet.")
+
         ylat_input = self._ylat[-self.equator_idx:] if self.northern_hemisphere_results_only else self._ylat
         qref_correct_unit = self._reference_states_storage.qref_correct_unit(
             ylat=ylat_input, omega=self.omega, python_indexing=False)
@@ -1069,6 +1072,12 @@ class QGFieldBase(ABC):
         ----------
         ncforce : np.ndarray of dimension (kmax, nlat, nlon) which is output from self.compute_ncforce_from_heating_rate
         """
+        # Check if previous steps have been done.
+        if self._nonconvergent_uref:
+            raise ValueError("Uref was not properly solved. This method cannot be called.")
+        if not self._reference_states_computed:
+            raise ValueError("Reference states have not been computed yet.")
+
         # Turn qref back to correct unit
         ylat_input, qref_correct_unit = self._prepare_coordinates_and_ref_states(
             self._ylat, self._interpolated_field_storage, self._reference_states_storage,
-- 
2.43.0


From 9fcd34b9999d4713174447e6120ec37e586e49ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 22/41] fix: a converged recomputation of the reference states
 clears nonconvergent_uref

---
 src/falwa/oopinterface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index fcd1a2f..66c41c1 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -601,6 +601,7 @@ class QGFieldBase(ABC):
         if self.qgpv is None:
             raise ValueError("QGField.interpolate_fields has to be called before QGField.compute_reference_states.")
 
+        self._nonconvergent_uref = False  # Forget the outcome of a previous call
         self._compute_reference_states()
 
         if not self._nonconvergent_uref:  # Successfully compute reference states
-- 
2.43.0


From 8eaf33e3d7a52ada3d9f1481d01737b6b0ec15b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 23/41] fix: compute_reference_states raises an error instead
 of crashing on non-finite QGPV

---
 src/falwa/oopinterface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 66c41c1..8bde5e5 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -601,6 +601,9 @@ class QGFieldBase(ABC):
         if self.qgpv is None:
             raise ValueError("QGField.interpolate_fields has to be called before QGField.compute_reference_states.")
 
+        if not np.isfinite(self._interpolated_field_storage.qgpv).all():
+            raise ValueError("QGPV contains non-finite values. Check for missing values in the input fields.")
+
         self._nonconvergent_uref = False  # Forget the outcome of a previous call
         self._compute_reference_states()
 
-- 
2.43.0


From 3598c3f35e96da8ab7317e53ec528ec5f1358cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 24/41] fix: NHN22 boundary circulation in the Southern
 Hemisphere uses its own absolute vorticity

---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 8bde5e5..934fe2d 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1814,7 +1814,7 @@ class QGFieldNHN22(QGFieldBase):
                 self._compute_reference_states_nhn22_hemispheric_wrapper(
                     qgpv=-self._interpolated_field_storage.qgpv[:, ::-1, :],
                     u=self._interpolated_field_storage.interpolated_u[:, ::-1, :],
-                    avort=self._interpolated_field_storage.interpolated_avort[:, ::-1, :],
+                    avort=-self._interpolated_field_storage.interpolated_avort[:, ::-1, :],
                     theta=self._interpolated_field_storage.interpolated_theta[:, ::-1, :],
                     t0=self._domain_average_storage.ts0,
                     static_stability=self._domain_average_storage.static_stability_s)
-- 
2.43.0


From 225245a9511f689992a886102bb49d4968d2f82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 25/41] fix: NHN22 top boundary condition uses the temperature
 gradient of its own latitude

---
 src/falwa/f90_modules/compute_qref_and_fawa_first.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90 b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
index 7d39c9f..7742b04 100644
--- a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
+++ b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
@@ -172,7 +172,7 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
     cos0 = cos(phi0)
     sin0 = sin(phi0)
     tjk(j-1,kmax-1) = -dz*rr*cos0*exp(-z(kmax-1)*rkappa/h)
-    tjk(j-1,kmax-1) = tjk(j-1,kmax-1)*(tbar(j+1,kmax)-tbar(j-1,kmax))
+    tjk(j-1,kmax-1) = tjk(j-1,kmax-1)*(tbar(jj+1,kmax)-tbar(jj-1,kmax))
     tjk(j-1,kmax-1) = tjk(j-1,kmax-1)/(4.*omega*sin0*dphi*h*a)
     sjk(j-1,j-1,kmax-1) = 1.
   enddo
-- 
2.43.0


From 0a5989ec7040ad4ae221687bdeb78c9d01304e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 26/41] fix: LWA_and_fluxes named tuple holds the fields on the
 input latitude grid

On grids without the equator the tuple held the arrays of the internal analysis grid
(one more latitude than documented), unlike the tuples of the other two steps and the attributes.
---
 src/falwa/oopinterface.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 934fe2d..b2d3fd9 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -958,15 +958,15 @@ class QGFieldBase(ABC):
                 ['adv_flux_f1', 'adv_flux_f2', 'adv_flux_f3', 'convergence_zonal_advective_flux',
                  'divergence_eddy_momentum_flux', 'meridional_heat_flux', 'lwa_baro', 'u_baro', 'lwa'])
             lwa_and_fluxes = LWA_and_fluxes(
-                self._output_barotropic_flux_terms_storage.adv_flux_f1,
-                self._output_barotropic_flux_terms_storage.adv_flux_f2,
-                self._output_barotropic_flux_terms_storage.adv_flux_f3,
-                self._output_barotropic_flux_terms_storage.convergence_zonal_advective_flux,
-                self._output_barotropic_flux_terms_storage.divergence_eddy_momentum_flux,
-                self._output_barotropic_flux_terms_storage.meridional_heat_flux,
-                self._barotropic_flux_terms_storage.fortran_to_python(self._barotropic_flux_terms_storage.lwa_baro),
-                self._barotropic_flux_terms_storage.fortran_to_python(self._barotropic_flux_terms_storage.u_baro),
-                self._layerwise_flux_terms_storage.fortran_to_python(self._layerwise_flux_terms_storage.lwa))
+                self.adv_flux_f1,
+                self.adv_flux_f2,
+                self.adv_flux_f3,
+                self.convergence_zonal_advective_flux,
+                self.divergence_eddy_momentum_flux,
+                self.meridional_heat_flux,
+                self.lwa_baro,
+                self.u_baro,
+                self.lwa)
             return lwa_and_fluxes
 
     def _compute_flux_vector_phi_baro(self):
-- 
2.43.0


From 3515fb618e6c9a4d3a811f00ab20ab72b969505a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 27/41] fix: QGFieldNHN22 refuses non-finite vorticity instead
 of crashing

Non-finite wind at the highest level does not reach the QGPV, but its vorticity is the boundary
condition: the bin index computed from it was out of bounds (segmentation fault).
---
 src/falwa/oopinterface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index b2d3fd9..36de719 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1791,6 +1791,9 @@ class QGFieldNHN22(QGFieldBase):
 
         .. versionadded:: 0.6.0
         """
+        # The boundary condition is taken from the absolute vorticity above the lowest level
+        if not np.isfinite(self._interpolated_field_storage.interpolated_avort[:, :, 1:]).all():
+            raise ValueError("Vorticity contains non-finite values. Check for missing values in the input fields.")
 
         # === Compute reference states in Northern Hemisphere ===
         self._reference_states_storage.qref_nhem, \
-- 
2.43.0


From c7154c04daa2bd6302bf4b97ed9c736f4318c5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:02 +0000
Subject: [PATCH 28/41] fix: refuse ascending pressure levels also on a
 declared pseudoheight grid

---
 src/falwa/oopinterface.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 36de719..e4c6ce3 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -108,6 +108,7 @@ class QGFieldBase(ABC):
         # === Variables related to the Vertical grid ===
         self._data_on_evenly_spaced_pseudoheight_grid = data_on_evenly_spaced_pseudoheight_grid
         if self._data_on_evenly_spaced_pseudoheight_grid:
+            self._check_plev_order(plev)
             self.plev = plev
             self.kmax = plev.size
             self._plev_to_height = -scale_height * np.log(plev / P_GROUND)
@@ -278,6 +279,19 @@ class QGFieldBase(ABC):
             variable = variable.data
         return variable
 
+    @staticmethod
+    def _check_plev_order(plev):
+        """
+        Private function. Check if plev is in decending order.
+
+        Parameters
+        ----------
+        plev : numpy.ndarray
+               Array of pressure level (in hPa) of size nlev.
+        """
+        if np.diff(plev)[0] > 0:
+            raise TypeError("plev must be in decending order (i.e. from ground level to aloft)")
+
     def _check_valid_plev(self, plev, scale_height, kmax, dz):
         """
         Private function. Check the validity of plev to see
@@ -296,8 +310,7 @@ class QGFieldBase(ABC):
                Size of uniform pseudoheight grids (in meters).
         """
         # Check if plev is in decending order
-        if np.diff(plev)[0] > 0:
-            raise TypeError("plev must be in decending order (i.e. from ground level to aloft)")
+        self._check_plev_order(plev)
         self.plev = plev
         self._plev_to_height = -scale_height * np.log(plev / P_GROUND)
 
-- 
2.43.0


From 7defa93810342277532c92f8986b853e05cd07a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:24 +0000
Subject: [PATCH 29/41] fix: compare_two_fields_on_map accepts diff_factor=None
 as documented

---
 src/falwa/plot_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/falwa/plot_utils.py b/src/falwa/plot_utils.py
index 4925810..9274412 100644
--- a/src/falwa/plot_utils.py
+++ b/src/falwa/plot_utils.py
@@ -67,8 +67,9 @@ def compare_two_fields_on_map(
     cs2 = map_on_axis(ax2, x_coord, y_coord, field_b, levels=np.linspace(cmin, cmax, 31), title=b_title,
                       colorbar_label='')
     ax3 = fig.add_subplot(1, 3, 3, projection=ccrs.PlateCarree(180))
+    diff_levels = np.linspace(0, diff_factor * max([np.abs(cmin), np.abs(cmax)]), 31) if diff_factor else None
     cs3 = map_on_axis(ax3, x_coord, y_coord, np.abs(field_a - field_b),
-                      levels=np.linspace(0, diff_factor * max([np.abs(cmin), np.abs(cmax)]), 31),
+                      levels=diff_levels,
                       title=f'Abs difference',
                       colorbar_label='')
     plt.suptitle(title)
@@ -88,7 +89,7 @@ def map_on_axis(ax_obj, xlon, ylat, field, levels, title, colorbar_label='ua2 (m
     lat_formatter = LatitudeFormatter()
     ax_obj.xaxis.set_major_formatter(lon_formatter)
     ax_obj.yaxis.set_major_formatter(lat_formatter)
-    ott = ax_obj.contourf(xlon, ylat, field, levels, transform=ccrs.PlateCarree(), cmap='rainbow')
+    ott = ax_obj.contourf(xlon, ylat, field, levels=levels, transform=ccrs.PlateCarree(), cmap='rainbow')
     ax_obj.set_title(title)
     plt.colorbar(ott, ax=ax_obj, label=colorbar_label)
     return ott
-- 
2.43.0


From ea53741a42d917580a7ae8e4c16b9a9fb889d4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:24 +0000
Subject: [PATCH 30/41] fix: compare_two_fields_on_map uses its argument cmap

---
 src/falwa/plot_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/falwa/plot_utils.py b/src/falwa/plot_utils.py
index 9274412..315672a 100644
--- a/src/falwa/plot_utils.py
+++ b/src/falwa/plot_utils.py
@@ -62,16 +62,16 @@ def compare_two_fields_on_map(
     fig = plt.figure(figsize=figsize)
     ax1 = fig.add_subplot(1, 3, 1, projection=ccrs.PlateCarree(180))
     cs1 = map_on_axis(ax1, x_coord, y_coord, field_a, levels=np.linspace(cmin, cmax, 31), title=a_title,
-                      colorbar_label='')
+                      colorbar_label='', cmap=cmap)
     ax2 = fig.add_subplot(1, 3, 2, projection=ccrs.PlateCarree(180))
     cs2 = map_on_axis(ax2, x_coord, y_coord, field_b, levels=np.linspace(cmin, cmax, 31), title=b_title,
-                      colorbar_label='')
+                      colorbar_label='', cmap=cmap)
     ax3 = fig.add_subplot(1, 3, 3, projection=ccrs.PlateCarree(180))
     diff_levels = np.linspace(0, diff_factor * max([np.abs(cmin), np.abs(cmax)]), 31) if diff_factor else None
     cs3 = map_on_axis(ax3, x_coord, y_coord, np.abs(field_a - field_b),
                       levels=diff_levels,
                       title=f'Abs difference',
-                      colorbar_label='')
+                      colorbar_label='', cmap=cmap)
     plt.suptitle(title)
     plt.tight_layout()
     if savefig_fname:
@@ -79,7 +79,7 @@ def compare_two_fields_on_map(
     plt.show()
 
 
-def map_on_axis(ax_obj, xlon, ylat, field, levels, title, colorbar_label='ua2 (m/s**2)'):
+def map_on_axis(ax_obj, xlon, ylat, field, levels, title, colorbar_label='ua2 (m/s**2)', cmap='rainbow'):
     # ax_obj.set_extent([0, 360, ylat.min(), ylat.max()], ccrs.PlateCarree())
     ax_obj.coastlines(color='black', alpha=1)
     ax_obj.set_aspect('auto')
@@ -89,7 +89,7 @@ def map_on_axis(ax_obj, xlon, ylat, field, levels, title, colorbar_label='ua2 (m
     lat_formatter = LatitudeFormatter()
     ax_obj.xaxis.set_major_formatter(lon_formatter)
     ax_obj.yaxis.set_major_formatter(lat_formatter)
-    ott = ax_obj.contourf(xlon, ylat, field, levels=levels, transform=ccrs.PlateCarree(), cmap='rainbow')
+    ott = ax_obj.contourf(xlon, ylat, field, levels=levels, transform=ccrs.PlateCarree(), cmap=cmap)
     ax_obj.set_title(title)
     plt.colorbar(ott, ax=ax_obj, label=colorbar_label)
     return ott
-- 
2.43.0


From 199fd8abc7c154c735e9e13484ea885a29566c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:36 +0000
Subject: [PATCH 31/41] fix: difference operators and QGPV from vorticity of
 integer fields are not truncated

---
 src/falwa/utilities.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index 486d64f..2ac8f7b 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -158,8 +158,8 @@ def compute_qgpv_givenvort(omega, nlat, nlon, kmax, unih, ylat, avort,
         2*omega*np.sin(np.deg2rad(ylat[np.newaxis, :, np.newaxis]))
 
     # Calculate the z-divergence term
-    zdiv = np.empty_like(potential_temp)
-    dzdiv = np.empty_like(potential_temp)
+    zdiv = np.empty_like(potential_temp, dtype=np.result_type(potential_temp, np.float32))  # float for integer fields
+    dzdiv = np.empty_like(zdiv)
     for kk in range(kmax):  # This is more efficient
         zdiv[kk, :nlat_s, :] = exp(-unih[kk]/scale_height)*(
             potential_temp[kk, :nlat_s, :] - t0_cs[kk]
@@ -219,7 +219,7 @@ def zonal_convergence(field, clat, dlambda, planet_radius=6.378e+6, tol=1.e-5):
 
     """
 
-    zonal_diff = np.zeros_like(field)
+    zonal_diff = np.zeros_like(field, dtype=np.result_type(field, np.float32))  # float for integer fields
     zonal_diff[:, 1:-1] = field[:, 2:] - field[:, :-2]
     zonal_diff[:, 0] = field[:, 1] - field[:, -1]
     zonal_diff[:, -1] = field[:, 0] - field[:, -2]
@@ -267,7 +267,7 @@ def meridional_divergence(field, clat, dphi, planet_radius=6.378e+6, tol=1.e-5):
 
     """
 
-    meridional_diff = np.zeros_like(field)
+    meridional_diff = np.zeros_like(field, dtype=np.result_type(field, np.float32))  # float for integer fields
     meridional_diff[1:-1, :] = field[2:, :] * clat[2:, np.newaxis] - field[:-2, :] * clat[:-2, np.newaxis]
     meridional_diff[0, :] = 2. * (field[1, :] * clat[1] - field[0, :] * clat[0])
     meridional_diff[-1, :] = 2. * (field[-1, :] * clat[-1] - field[-2, :] * clat[-2])
@@ -288,7 +288,7 @@ def curl_2d(ufield, vfield, clat, dlambda, dphi, planet_radius=6.378e+6):
     of velocity on a pressure level in spherical coordinates.
     """
 
-    ans = np.zeros_like(ufield)
+    ans = np.zeros_like(ufield, dtype=np.result_type(ufield, vfield, np.float32))  # float for integer fields
     ans[1:-1, 1:-1] = (vfield[1:-1, 2:] - vfield[1:-1, :-2])/(2.*dlambda) - \
                       (ufield[2:, 1:-1] * clat[2:, np.newaxis] -
                        ufield[:-2, 1:-1] * clat[:-2, np.newaxis])/(2.*dphi)
-- 
2.43.0


From 5785b1c3e9e1f9978eb321c7f9f3c60316571012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 32/41] fix: equivalent latitude is not NaN when the cell areas
 add up to more than the sphere

---
 src/falwa/basis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/falwa/basis.py b/src/falwa/basis.py
index 36f1b53..115fe00 100644
--- a/src/falwa/basis.py
+++ b/src/falwa/basis.py
@@ -48,7 +48,8 @@ def eqvlat_fawa(
     aq = np.cumsum([0] + [area_flat[np.where(inds == i)].sum() for i in range(1, vort_bins.size)])  # cumulative area
     cq = np.cumsum([0] + [np.multiply(area_flat, vort_flat)[np.where(inds == i)].sum()  # cumulative vort * area
                           for i in range(1, vort_bins.size)])
-    eqv_gaussian_grid = aq / (2 * pi * planet_radius ** 2) - 1.0  # ascending from -1
+    # ascending from -1; cell areas may add up to slightly more than the area of the sphere
+    eqv_gaussian_grid = np.minimum(aq / (2 * pi * planet_radius ** 2) - 1.0, 1.0)
     eqv_latitude = np.rad2deg(np.arcsin(eqv_gaussian_grid))
     qref = np.interp(ylat, eqv_latitude, vort_bins)  # ascending. qref = np.interp(alat[::-1], aq, q_part_u) also works
 
@@ -122,7 +123,8 @@ def eqvlat_vgrad(ylat, vort, area, n_points, planet_radius=6.378e+6, vgrad=None)
         brac = np.zeros_like(aa)
         brac[1:-1] = 0.5 * (dp[:-2] + dp[2:])
 
-    y_part = aq / (2 * pi * planet_radius**2) - 1.0
+    # cell areas may add up to slightly more than the area of the sphere
+    y_part = np.minimum(aq / (2 * pi * planet_radius**2) - 1.0, 1.0)
     lat_part = np.rad2deg(np.arcsin(y_part))
     q_part = np.interp(ylat, lat_part, q_part_u)
 
-- 
2.43.0


From 7ec984a500dbfba196b851acf6a4f35008a738e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:13 +0000
Subject: [PATCH 33/41] fix: default latitude spacing of BarotropicField is
 that of the given latitudes

---
 src/falwa/barotropic_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/barotropic_field.py b/src/falwa/barotropic_field.py
index b610b72..2308026 100644
--- a/src/falwa/barotropic_field.py
+++ b/src/falwa/barotropic_field.py
@@ -79,7 +79,7 @@ class BarotropicField(object):
         self.planet_radius = planet_radius
         self.return_partitioned_lwa = return_partitioned_lwa
         if dphi is None:
-            self.dphi = pi/(self.nlat-1) * np.ones((self.nlat))
+            self.dphi = np.deg2rad(ylat[-1]-ylat[0])/(self.nlat-1) * np.ones((self.nlat))
         else:
             self.dphi = dphi
 
-- 
2.43.0


From 57d69ef50b71e2ee1d6d89f23660763fb2939c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:19 +0000
Subject: [PATCH 34/41] fix: refuse latitude grids without the equator in the
 middle instead of corrupting memory

---
 src/falwa/oopinterface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index e4c6ce3..88f65e0 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -346,6 +346,8 @@ class QGFieldBase(ABC):
             # Fortran indexing starts from 1
         elif sum(ylat == 0) == 1:
             # Odd grid
+            if ylat.size % 2 == 0 or ylat[ylat.size // 2] != 0:
+                raise TypeError("ylat must be global: the equator must be the latitude in the middle.")
             need_latitude_interpolation = False
             _ylat = ylat
             equator_idx = np.argwhere(ylat == 0)[0][0] + 1  # Fortran indexing starts from 1
-- 
2.43.0


From 9c893e22ef00a06e7f0b47553a7b8e47cc1422b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:09 +0000
Subject: [PATCH 35/41] fix: hemisphere_to_globe leaves variables without
 latitude as they are

---
 src/falwa/xarrayinterface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 0bec5b8..595ac08 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -791,4 +791,5 @@ def hemisphere_to_globe(ds, var_names=None):
     except KeyError:
         pass
     # Assemble global dataset
-    return xr.concat([sd, ds] if eq0 else [ds, sd], dim=ylat_name)
+    # Variables without latitude are the same on both hemispheres
+    return xr.concat([sd, ds] if eq0 else [ds, sd], dim=ylat_name, data_vars="minimal")
-- 
2.43.0


From 707b794786d6445ad1ee7b5b82356d82ec7c87dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:04 +0000
Subject: [PATCH 36/41] fix: legacy temperature correction uses the Coriolis
 parameter of the row of the wind and reaches the pole

---
 src/falwa/legacy/beta_version.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/legacy/beta_version.py b/src/falwa/legacy/beta_version.py
index 84fbced..61bca66 100644
--- a/src/falwa/legacy/beta_version.py
+++ b/src/falwa/legacy/beta_version.py
@@ -366,10 +366,10 @@ def solve_uref_both_bc(tstamp, zmum, FAWA_cos, ylat, ephalf2, Delta_PT,
         # ---- Back out temperature correction here -----
         T_MassCorr = np.zeros_like(u_MassCorr)
         for k in range(1,kmax-2):
-            for j in range(2,jmax1,2): # This is temperature not potential temperature!!! Need to check.
+            for j in range(2,jmax1+2,2): # This is temperature not potential temperature!!! Need to check.
                 # print 'alat['+str(j)+']=',alat[j]
                 # T_MassCorr[j,k] = T_MassCorr[j-2,k] - (2.*om*gl[j])*aa*hh*dmdz / (r0 * cosl[j]) * (u_MassCorr[j,k+1]-u_MassCorr[j,k-1])
-                T_MassCorr[j,k] = T_MassCorr[j-2,k] - (2.*om*gl[j-1])*aa*hh*dmdz / (r0 * cosl[j-1]) * (u_MassCorr[j-1,k+1]-u_MassCorr[j-1,k-1])
+                T_MassCorr[j,k] = T_MassCorr[j-2,k] - (2.*om*gl[j-2])*aa*hh*dmdz / (r0 * cosl[j-2]) * (u_MassCorr[j-1,k+1]-u_MassCorr[j-1,k-1])
             # ---- First do interpolation (gl is regular grid) ----
             # f_Todd = interpolate.interp1d(gl[:-1:2],T_MassCorr[1:-1:2,k])    #[jmax x kmax]
             #f_Todd = interpolate.interp1d(gl_2[::2],T_MassCorr[::2,k])    #[jmax x kmax]
-- 
2.43.0


From 613a1bf48d816748d4dc2e26bd9da43d56d9c3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:03 +0000
Subject: [PATCH 37/41] fix: scripts/lubis_et_al_2025 flip the fields together
 with the coordinates

---
 scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py | 10 +++++++---
 scripts/lubis_et_al_2025/cal_ncforce_loop.py     | 12 ++++++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py b/scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py
index 3f0a54e..a2f8722 100755
--- a/scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py
+++ b/scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py
@@ -38,15 +38,19 @@ for i in year:
     
     # latitude has to be in ascending order
     ylat = u_file.variables['lat'][:]
+    lat_order = slice(None)
     if np.diff(ylat)[0]<0:
         print('Flip ylat.')
         ylat = ylat[::-1]
+        lat_order = slice(None, None, -1)  # the fields have to be flipped together with the coordinate
     
     # pressure level has to be in descending order (ascending height)
     plev = u_file.variables['level'][:] #/100.
+    plev_order = slice(None)
     if np.diff(plev)[0]>0:
         print('Flip plev.')    
         plev = plev[::-1]
+        plev_order = slice(None, None, -1)
     
     nlon = xlon.size
     nlat = ylat.size
@@ -133,9 +137,9 @@ for i in year:
     
     for tstep in range(ntimes):  # or ntimes
         
-        uu = u_file.variables['U'][tstep, :, :, :].data
-        vv = v_file.variables['V'][tstep, :, :, :].data
-        tt = t_file.variables['T'][tstep, :, :, :].data
+        uu = u_file.variables['U'][tstep, plev_order, lat_order, :].data
+        vv = v_file.variables['V'][tstep, plev_order, lat_order, :].data
+        tt = t_file.variables['T'][tstep, plev_order, lat_order, :].data
     
         qgfield_object = QGFieldNHN22(xlon, ylat, plev, uu, vv, tt, eq_boundary_index=eq_boundary_index, northern_hemisphere_results_only=False)
         equator_idx = qgfield_object.equator_idx
diff --git a/scripts/lubis_et_al_2025/cal_ncforce_loop.py b/scripts/lubis_et_al_2025/cal_ncforce_loop.py
index 28852e8..e27a6bf 100755
--- a/scripts/lubis_et_al_2025/cal_ncforce_loop.py
+++ b/scripts/lubis_et_al_2025/cal_ncforce_loop.py
@@ -41,15 +41,19 @@ for i in years:
 
     # Latitude must be in ascending order
     ylat = u_file.variables['lat'][:]
+    lat_order = slice(None)
     if np.diff(ylat)[0] < 0:
         print('Flip ylat.')
         ylat = ylat[::-1]
+        lat_order = slice(None, None, -1)  # the fields have to be flipped together with the coordinate
 
     # Pressure levels must be in descending order (ascending height)
     plev = u_file.variables['level'][:] #/ 100.0  # Convert to hPa
+    plev_order = slice(None)
     if np.diff(plev)[0] > 0:
         print('Flip plev.')
         plev = plev[::-1]
+        plev_order = slice(None, None, -1)
 
     nlon = xlon.size
     nlat = ylat.size
@@ -91,10 +95,10 @@ for i in years:
 
     # Process and compute ncforce_3D for each timestep
     for tstep in range(ntimes):
-        uu = u_file.variables['U'][tstep, :, :, :]
-        vv = v_file.variables['V'][tstep, :, :, :]
-        tt = t_file.variables['T'][tstep, :, :, :]
-        dtdt = dtdt_file.variables['DTDTMST'][tstep, :, :, :]
+        uu = u_file.variables['U'][tstep, plev_order, lat_order, :]
+        vv = v_file.variables['V'][tstep, plev_order, lat_order, :]
+        tt = t_file.variables['T'][tstep, plev_order, lat_order, :]
+        dtdt = dtdt_file.variables['DTDTMST'][tstep, plev_order, lat_order, :]
 
         # Initialize QGFieldNHN22 object
         qgfield = QGFieldNHN22(
-- 
2.43.0


From 585f80c5f336a13088ac50740f281868d63d10d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:03 +0000
Subject: [PATCH 38/41] fix: interpolation of hybrid levels does not depend on
 a name of the script's main block

---
 ...nterpolation_hybrid_to_pressure_poisson_filled_below_topo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py b/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py
index 848dcea..6130c83 100644
--- a/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py
+++ b/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py
@@ -88,7 +88,7 @@ def vertical_interpolation_to_pressure(ds, variable, save_topography=False, logg
             ## save a copy for topography file where there no values for certain pressure cooridinates.
             topography[t, ...] = new_variable[t, ...]
 
-        new_variable[t, ...] = gridfill_all_levels_each_time(new_variable[t, ...], logging_object)
+        new_variable[t, ...] = gridfill_all_levels_each_time(new_variable[t, ...], logging_method)
 
     if save_topography:
         topography[~np.isnan(topography)] = 1
-- 
2.43.0


From 206f6f573cec09fdcbeccceddfb46c5e11ec7960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:03 +0000
Subject: [PATCH 39/41] fix: variables on pressure levels keep the attributes
 of the source, which stay as they were

---
 ...nterpolation_hybrid_to_pressure_poisson_filled_below_topo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py b/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py
index 6130c83..9adf1b6 100644
--- a/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py
+++ b/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py
@@ -142,7 +142,7 @@ def update_new_variable_to_pressure(var, new_data, ds, ds_copy, default_attrs=No
     ds_copy[var]   = xr.DataArray(new_data, \
             dims   = tuple(new_coordinate_system), \
             coords = {key:ds_copy.coords[key].values for key in new_coordinate_system}, \
-            attrs  = default_attrs.update({'description': '%s interpolated from model levels to pressure coords in hPa'%(var)}))   
+            attrs  = {**default_attrs, 'description': '%s interpolated from model levels to pressure coords in hPa'%(var)})   
     
     del new_data
     gc.collect()
-- 
2.43.0


From 426f0f7a53cb57b942c452f8ae19446641c7be6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:21 +0000
Subject: [PATCH 40/41] fix: variables on pressure levels do not strip the
 attributes of the coordinates

---
 ...nterpolation_hybrid_to_pressure_poisson_filled_below_topo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py b/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py
index 9adf1b6..6ef6da1 100644
--- a/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py
+++ b/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py
@@ -141,7 +141,7 @@ def update_new_variable_to_pressure(var, new_data, ds, ds_copy, default_attrs=No
         
     ds_copy[var]   = xr.DataArray(new_data, \
             dims   = tuple(new_coordinate_system), \
-            coords = {key:ds_copy.coords[key].values for key in new_coordinate_system}, \
+            coords = {key:ds_copy.coords[key] for key in new_coordinate_system}, \
             attrs  = {**default_attrs, 'description': '%s interpolated from model levels to pressure coords in hPa'%(var)})   
     
     del new_data
-- 
2.43.0


From 0da59dfb1603d053f21cb219927a9b61051adac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:44 +0000
Subject: [PATCH 41/41] fix: _compute_lwa_flux_dirinv returns the column
 averages it documents (used by scripts/nhn_grl2022)

---
 src/falwa/oopinterface.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 88f65e0..85dce52 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1941,19 +1941,16 @@ class QGFieldNHN22(QGFieldBase):
 
         .. versionadded:: 0.6.0
         """
-        ans = compute_flux_dirinv_nshem(
+        ans = self._compute_lwa_and_barotropic_fluxes_wrapper(
             pv=self._interpolated_field_storage.qgpv,
             uu=self._interpolated_field_storage.interpolated_u,
             vv=self._interpolated_field_storage.interpolated_v,
             pt=self._interpolated_field_storage.interpolated_theta,
+            ncforce=np.zeros((self.nlon, self._nlat_analysis, self.kmax)),
             tn0=self._domain_average_storage.tn0,
             qref=qref,
             uref=uref,
             tref=tref,
-            jb=self.eq_boundary_index,
-            is_nhem=True,
-            a=self.planet_radius,
-            om=self.omega,
-            dz=self.dz, h=self.scale_height, rr=self.dry_gas_constant, cp=self.cp, prefac=self.prefactor)
+            jb=self.eq_boundary_index)
         # astarbaro, u_baro, urefbaro, ua1baro, ua2baro, ep1baro, ep2baro, ep3baro, ep4baro, astar1, astar2 = ans
-        return ans
+        return ans[:11]
-- 
2.43.0

