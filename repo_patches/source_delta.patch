From d4ea58fc41538ac4feb9011dd9e70e9a6eb8c2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:03 +0000
Subject: [PATCH 01/31] fix: randoms_1d returns the drawn sample (NameError on
 an undefined name)

---
 magpie/randoms/cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/randoms/cart.py b/magpie/randoms/cart.py
index 93ccb5c..58a025a 100644
--- a/magpie/randoms/cart.py
+++ b/magpie/randoms/cart.py
@@ -19,7 +19,7 @@ def randoms_1d(size, xmin=0., xmax=1.):
         Uniform randoms in 1D.
     """
     xrands = (xmax - xmin)*np.random.random_sample(size) + xmin
-    return xrand
+    return xrands
 
 
 def randoms_2d(size, mins=[0., 0.], maxs=[1., 1.]):
-- 
2.43.0


From 672b4c4617ca3cd40dc76b630a3946d3bf784507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:03 +0000
Subject: [PATCH 02/31] fix: randoms_2d and randoms_3d use the x maximum (x was
 constant at the minimum)

---
 magpie/randoms/cart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/randoms/cart.py b/magpie/randoms/cart.py
index 58a025a..386b28c 100644
--- a/magpie/randoms/cart.py
+++ b/magpie/randoms/cart.py
@@ -39,7 +39,7 @@ def randoms_2d(size, mins=[0., 0.], maxs=[1., 1.]):
     xrands, yrands : array
         Uniform randoms in 2D.
     """
-    xrands = randoms_1d(size, xmin=mins[0], xmax=mins[0])
+    xrands = randoms_1d(size, xmin=mins[0], xmax=maxs[0])
     yrands = randoms_1d(size, xmin=mins[1], xmax=maxs[1])
     return xrands, yrands
 
@@ -61,7 +61,7 @@ def randoms_3d(size, mins=[0., 0., 0], maxs=[1., 1., 1.]):
     xrands, yrands, zrands : array
         Uniform randoms in 3D.
     """
-    xrands = randoms_1d(size, xmin=mins[0], xmax=mins[0])
+    xrands = randoms_1d(size, xmin=mins[0], xmax=maxs[0])
     yrands = randoms_1d(size, xmin=mins[1], xmax=maxs[1])
     zrands = randoms_1d(size, xmin=mins[2], xmax=maxs[2])
     return xrands, yrands, zrands
-- 
2.43.0


From b141fbc613cb4686891d0bdc9da9782c1a9c9a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:47 +0000
Subject: [PATCH 03/31] fix: rotate_polar rotates phi (it used only the
 rotation angle, and failed on it)

---
 magpie/coords/polar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/coords/polar.py b/magpie/coords/polar.py
index 49a0222..1f6f2b4 100644
--- a/magpie/coords/polar.py
+++ b/magpie/coords/polar.py
@@ -18,7 +18,7 @@ def rotate_polar(phi, rotate):
     """
     assert rotate > 0. and rotate < 2.*np.pi, \
         "Rotation angles must have lie between [0, 2pi]."
-    rot_phi = rotate
+    rot_phi = phi + rotate
     cond = np.where(rot_phi >= 2.*np.pi)[0]
     rot_phi[cond] -= 2.*np.pi
     cond = np.where(rot_phi < 0.)[0]
-- 
2.43.0


From 854422a97d1c5934284b4a073e8934a45d118b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:47 +0000
Subject: [PATCH 04/31] fix: the ring classes' rotate_polar calls
 rotate_polar_grid (it called the 1D function with three arguments)

---
 magpie/coords/__init__.py      | 1 +
 magpie/densegrid/box2ring.py   | 2 +-
 magpie/densegrid/heal2ring.py  | 2 +-
 magpie/montecarlo/box2ring.py  | 2 +-
 magpie/montecarlo/heal2ring.py | 2 +-
 5 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/magpie/coords/__init__.py b/magpie/coords/__init__.py
index f2365eb..93fc355 100644
--- a/magpie/coords/__init__.py
+++ b/magpie/coords/__init__.py
@@ -13,6 +13,7 @@ from .usphere_util import sphere2lonlat
 from .usphere_util import lonlat2sphere
 
 from .polar import rotate_polar
+from .polar import rotate_polar_grid
 
 from .usphere import usphere_rotate
 from .usphere import usphere_phi_shift
diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 2c7c427..2b94cf7 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -229,7 +229,7 @@ class Box2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.pedges, f_polar, phi_shift)
+        return coords.rotate_polar_grid(self.pedges, f_polar, phi_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 93b94aa..7f023a0 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -188,7 +188,7 @@ class Heal2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.beta2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.beta_edges, f_polar, beta_shift)
+        return coords.rotate_polar_grid(self.beta_edges, f_polar, beta_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index aceb8ab..6461550 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -321,7 +321,7 @@ class Box2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.pedges, f_polar, phi_shift)
+        return coords.rotate_polar_grid(self.pedges, f_polar, phi_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 3d9414f..3c45f8c 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -182,7 +182,7 @@ class Heal2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.beta2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.beta_edges, f_polar, beta_shift)
+        return coords.rotate_polar_grid(self.beta_edges, f_polar, beta_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
-- 
2.43.0


From 5f8cda41488f87f6adf223e67900b4683cfb01c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:47 +0000
Subject: [PATCH 05/31] fix: rotate_polar_grid interpolates with the right
 weights, wraps with the unmodified first row, and leaves its input alone

---
 magpie/coords/polar.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/magpie/coords/polar.py b/magpie/coords/polar.py
index 1f6f2b4..bd7cf99 100644
--- a/magpie/coords/polar.py
+++ b/magpie/coords/polar.py
@@ -54,11 +54,12 @@ def rotate_polar_grid(pedges, f_polar, phi_shift):
         f_polar_rot[-ind_shift:] = f_polar[:ind_shift]
         f_polar_rot[:-ind_shift] = f_polar[ind_shift:]
     else:
-        f_polar_rot = f_polar
-    f_polar_rot[:-1] = w_shift*f_polar_rot[:-1] + (1.-w_shift)*f_polar_rot[1:]
+        f_polar_rot[:] = f_polar
+    f_first = np.copy(f_polar_rot[0])
+    f_polar_rot[:-1] = (1.-w_shift)*f_polar_rot[:-1] + w_shift*f_polar_rot[1:]
     # check if polar grid has the range 0 to 2pi, if it does wrap the rotation
     if pedges[-1] - pedges[0] == 2.*np.pi:
-        f_polar_rot[-1] = w_shift*f_polar_rot[-1] + (1.-w_shift)*f_polar_rot[0]
+        f_polar_rot[-1] = (1.-w_shift)*f_polar_rot[-1] + w_shift*f_first
     else:
-        f_polar_rot[-1] *= w_shift
+        f_polar_rot[-1] *= 1.-w_shift
     return f_polar_rot
-- 
2.43.0


From a641ecad2d0746a240877491f636031bf4a46a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:47 +0000
Subject: [PATCH 06/31] fix: Heal2Ring and Heal2Polar call usphere_area
 (sky_area does not exist)

---
 magpie/densegrid/heal2polar.py | 2 +-
 magpie/densegrid/heal2ring.py  | 4 ++--
 magpie/montecarlo/heal2ring.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index d0ba898..524e313 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -136,7 +136,7 @@ class Heal2Polar:
         f_box_highres = np.zeros(np.shape(self.rebin_x2d))
         f_box_highres[self.rebin_xind, self.rebin_yind] = f[self.rebin_pix]
         dx = self.rebin_xedges[1] - self.rebin_xedges[0]
-        area = np.array([coords.sky_area(0., dx, self.rebin_yedges[i]+np.pi/2., self.rebin_yedges[i+1]+np.pi/2.) for i in range(0, len(self.rebin_yedges)-1)])
+        area = np.array([coords.usphere_area(0., dx, self.rebin_yedges[i]+np.pi/2., self.rebin_yedges[i+1]+np.pi/2.) for i in range(0, len(self.rebin_yedges)-1)])
         y_bin_weights = area
         _, y_bin_weights_2d = np.meshgrid(self.rebin_xmid, y_bin_weights)
         f_box_highres *= y_bin_weights_2d
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 7f023a0..37ed844 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -135,7 +135,7 @@ class Heal2Ring:
         f_polar_highres = np.zeros(np.shape(self.rebin_alpha2d))
         f_polar_highres[self.rebin_alpha_ind, self.rebin_beta_ind] = f[self.rebin_pix]
         dbeta = self.rebin_beta_edges[1] - self.rebin_beta_edges[0]
-        area = np.array([coords.sky_area(0., dbeta, self.rebin_alpha_edges[i], self.rebin_alpha_edges[i+1]) for i in range(0, len(self.rebin_alpha_edges)-1)])
+        area = np.array([coords.usphere_area(0., dbeta, self.rebin_alpha_edges[i], self.rebin_alpha_edges[i+1]) for i in range(0, len(self.rebin_alpha_edges)-1)])
         alpha_bin_weights = area
         alpha_bin_weights_2d, _ = np.meshgrid(alpha_bin_weights, self.rebin_beta_mid)
         f_polar_highres *= alpha_bin_weights_2d
@@ -216,7 +216,7 @@ class Heal2Ring:
         """
         if self.area2d is None:
             dbeta = self.beta_edges[1] - self.beta_edges[0]
-            area = np.array([coords.sky_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
+            area = np.array([coords.usphere_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
             self.area2d = np.array([area for i in range(0, len(self.beta_edges)-1)])
         if self.pixarea is None:
             self.pixarea = hp.nside2pixarea(self.nside)
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 3c45f8c..89065a6 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -210,7 +210,7 @@ class Heal2Ring:
         """
         if self.area2d is None:
             dbeta = self.beta_edges[1] - self.beta_edges[0]
-            area = np.array([coords.sky_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
+            area = np.array([coords.usphere_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
             self.area2d = np.array([area for i in range(0, len(self.beta_edges)-1)])
         if self.pixarea is None:
             self.pixarea = hp.nside2pixarea(self.nside)
-- 
2.43.0


From 11079ff480bf4fac8bbb46d4803b92252f722c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:47 +0000
Subject: [PATCH 07/31] fix: Monte Carlo Heal2Ring and Heal2Polar call
 randoms_usphere (randoms_sky does not exist)

---
 magpie/montecarlo/heal2polar.py | 2 +-
 magpie/montecarlo/heal2ring.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index 65d118d..8759a75 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -111,7 +111,7 @@ class Heal2Polar:
                 y_max, y_min = self.yedges[i], self.yedges[i+1]
                 y_min = np.pi/2. - y_min
                 y_max = np.pi/2. - y_max
-                x_rand, y_rand = randoms.randoms_sky(mc_size, phi_min=x_min, phi_max=x_max, theta_min=y_min, theta_max=y_max)
+                x_rand, y_rand = randoms.randoms_usphere(mc_size, phi_min=x_min, phi_max=x_max, theta_min=y_min, theta_max=y_max)
                 if self.alpha != 0.:
                     x_rand, y_rand = coords.usphere_spin(x_rand, y_rand, 0., np.pi/2., self.alpha)
                 x_rand, y_rand = coords.usphere_shift(x_rand, y_rand, 0., np.pi/2., self.center[0], self.center[1])
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 89065a6..5edc1da 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -107,7 +107,7 @@ class Heal2Ring:
             for j in range(0, len(self.alpha2d[0])):
                 alpha_min, alpha_max = self.alpha_edges[j], self.alpha_edges[j+1]
                 beta_min, beta_max = self.beta_edges[i], self.beta_edges[i+1]
-                beta_rand, alpha_rand = randoms.randoms_sky(mc_size, phi_min=beta_min, phi_max=beta_max,
+                beta_rand, alpha_rand = randoms.randoms_usphere(mc_size, phi_min=beta_min, phi_max=beta_max,
                                                             theta_min=alpha_min, theta_max=alpha_max)
                 if self.beta_shift != 0.:
                     beta_rand, alpha_rand = coords.usphere_spin(beta_rand, alpha_rand, 0., 0., self.beta_shift)
-- 
2.43.0


From 81263e1f612e6580819c461e4b882918afb08529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:47 +0000
Subject: [PATCH 08/31] fix: Monte Carlo Heal2Ring and Heal2Polar accept a
 weight map (a shape tuple was compared with an int)

---
 magpie/montecarlo/heal2polar.py | 2 +-
 magpie/montecarlo/heal2ring.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index 8759a75..4d70df0 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -148,7 +148,7 @@ class Heal2Polar:
         """
         assert len(f) == hp.nside2npix(self.nside), "HEALPix map f is not the correct nside."
         if w is not None:
-            assert np.shape(w) ==hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
+            assert len(w) == hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
         f_box = np.zeros(np.shape(self.x2d))
         for i in range(0, len(self.x2d)):
             for j in range(0, len(self.x2d[0])):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 5edc1da..eb2e768 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -145,7 +145,7 @@ class Heal2Ring:
         """
         assert len(f) == hp.nside2npix(self.nside), "HEALPix map f is not the correct nside."
         if w is not None:
-            assert np.shape(w) ==hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
+            assert len(w) == hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
         f_polar = np.zeros(np.shape(self.beta2d))
         for i in range(0, len(self.alpha2d)):
             for j in range(0, len(self.alpha2d[0])):
-- 
2.43.0


From 71e11b00c6d053462bfd3fb50b1dfa7d30e28860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:47 +0000
Subject: [PATCH 09/31] fix: usphere_phi_shift leaves the caller's phi alone

---
 magpie/coords/usphere.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index 290f7d9..f3964f8 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -100,9 +100,7 @@ def usphere_phi_shift(phi, dphi):
     assert dphi > -2.*np.pi and dphi < 2.*np.pi, \
         "dphi must be within the range [-2pi, 2pi]."
     # shift phi
-    # phi_new = np.copy(phi)
-    phi_new = phi
-    phi_new += dphi
+    phi_new = phi + dphi
     if np.isscalar(phi_new) is False:
         condition = np.where(phi_new > 2.*np.pi)[0]
         phi_new[condition] -= 2.*np.pi
-- 
2.43.0


From 29e829f6f0e2d6f0efc444d06deea190db94f58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:12 +0000
Subject: [PATCH 10/31] fix: Box2Ring.polar2radial gives no weight to pixels it
 discards, and leaves the caller's weights alone

---
 magpie/densegrid/box2ring.py  | 7 ++++---
 magpie/montecarlo/box2ring.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 2b94cf7..35f63c0 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -262,7 +262,7 @@ class Box2Ring:
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
         if self.mask_in_bound is None:
             self.get_mask_in_bound(verbose=verbose)
-        if self.mask_in_bound.all() != 1.:
+        if np.any(self.mask_in_bound != 1.):
             condition = np.where(self.mask_in_bound != 1.)
             f_polar = np.copy(f_polar)
             f_polar[condition] = 0.
@@ -270,9 +270,10 @@ class Box2Ring:
                 sigma = np.copy(sigma)
                 sigma[condition] = 0.
             if w is not None:
-                w *= self.mask_in_bound
+                w = np.copy(w)
             else:
-                w = self.mask_in_bound
+                w = np.ones(np.shape(f_polar))
+            w[condition] = 0.
         if sigma is None:
             f_radial = polar.polar2radial(f_polar, self.area2d, self.pixarea, sigma=sigma, w=w)
             return f_radial
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index 6461550..91996d4 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -354,7 +354,7 @@ class Box2Ring:
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
         if self.mask_in_bound is None:
             self.get_mask_in_bound(verbose=verbose)
-        if self.mask_in_bound.all() != 1.:
+        if np.any(self.mask_in_bound != 1.):
             condition = np.where(self.mask_in_bound != 1.)
             f_polar = np.copy(f_polar)
             f_polar[condition] = 0.
@@ -362,9 +362,10 @@ class Box2Ring:
                 sigma = np.copy(sigma)
                 sigma[condition] = 0.
             if w is not None:
-                w *= self.mask_in_bound
+                w = np.copy(w)
             else:
-                w = self.mask_in_bound
+                w = np.ones(np.shape(f_polar))
+            w[condition] = 0.
         if sigma is None:
             f_radial = polar.polar2radial(f_polar, self.area2d, self.pixarea, sigma=sigma, w=w)
             return f_radial
-- 
2.43.0


From 60bd129d51be4347d0d83fe00ae76fe88395d245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:12 +0000
Subject: [PATCH 11/31] fix: PointOfView.reverse undoes a spin (usphere_spin
 rejects a negative angle)

---
 magpie/densegrid/pointofview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/pointofview.py b/magpie/densegrid/pointofview.py
index e43db72..e2ebb78 100644
--- a/magpie/densegrid/pointofview.py
+++ b/magpie/densegrid/pointofview.py
@@ -103,7 +103,7 @@ class PointOfView:
         dz = by / f
         r, phi, theta = coords.cart2sphere(dx, dy, dz)
         if self.spin != 0.:
-            phi, theta = coords.usphere_spin(phi, theta, 0., np.pi/2., -self.spin)
+            phi, theta = coords.usphere_spin(phi, theta, 0., np.pi/2., 2.*np.pi - self.spin)
         phi = coords.usphere_phi_shift(phi, self.phi_point_towards)
         if self.theta_point_towards != np.pi/2.:
             phi, theta = coords.usphere_rotate(phi, theta, self.phi_point_towards, self.theta_point_towards, phi_start=self.phi_point_towards, theta_start=np.pi/2.)
-- 
2.43.0


From 8941cd2a83630fe635c375e5f7ff84047d657a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:12 +0000
Subject: [PATCH 12/31] fix: a new bin that covers all the old bins counts each
 of them once

---
 magpie/one_d/one_d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 414f87d..5d0accc 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -42,7 +42,7 @@ def rebin_1d_single_bin_weights(bin_edges, bin_min, bin_max):
         if condition[-1] == len(bin_edges)-1:
             w = w[:-1]
             index = index[:-1]
-        elif condition[0] == 0:
+        if condition[0] == 0:
             w = w[1:]
             index = index[1:]
         if condition[0] != 0:
@@ -96,7 +96,7 @@ def _rebin_1d_single_bin(bin_edges, data, bin_min, bin_max):
         if condition[-1] == len(bin_edges)-1:
             w = w[:-1]
             index = index[:-1]
-        elif condition[0] == 0:
+        if condition[0] == 0:
             w = w[1:]
             index = index[1:]
         if condition[0] != 0:
@@ -172,7 +172,7 @@ def _rebin_1d_single_bin_sigma(bin_edges, sigma, bin_min, bin_max):
         if condition[-1] == len(bin_edges)-1:
             w = w[:-1]
             index = index[:-1]
-        elif condition[0] == 0:
+        if condition[0] == 0:
             w = w[1:]
             index = index[1:]
         length = lengths[index]
-- 
2.43.0


From 695033a822b8a5b59064bcab83e70926a455b241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:12 +0000
Subject: [PATCH 13/31] fix: the partially covered end bins are weighted by
 their own lengths

---
 magpie/one_d/one_d.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 5d0accc..2305d18 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -50,7 +50,7 @@ def rebin_1d_single_bin_weights(bin_edges, bin_min, bin_max):
             w[0] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
         if condition[-1] != len(bin_edges)-1:
             # Alter last weight to account for the fact that the new bin intesrsects the last bin.
-            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]] - bin_edges[condition[-1]-1])
+            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]+1] - bin_edges[condition[-1]])
         weights[index] = w
     return weights
 
@@ -104,7 +104,7 @@ def _rebin_1d_single_bin(bin_edges, data, bin_min, bin_max):
             w[0] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
         if condition[-1] != len(bin_edges)-1:
             # Alter last weight to account for the fact that the new bin intesrsects the last bin.
-            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]] - bin_edges[condition[-1]-1])
+            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]+1] - bin_edges[condition[-1]])
         return np.sum(w*data[index])/np.sum(w)
 
 
@@ -176,14 +176,14 @@ def _rebin_1d_single_bin_sigma(bin_edges, sigma, bin_min, bin_max):
             w = w[1:]
             index = index[1:]
         length = lengths[index]
-        if index[0] != 0:
+        if condition[0] != 0:
             # Alter first weight to account for the fact that the new bin intersects the first bin.
-            w[0] = (bin_edges[index[0]] - bin_min)/(bin_edges[index[0]] - bin_edges[index[0]-1])
-            length[0] = bin_edges[index[0]] - bin_min
-        if index[-1] != len(bin_edges)-1:
+            w[0] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
+            length[0] = bin_edges[condition[0]] - bin_min
+        if condition[-1] != len(bin_edges)-1:
             # Alter last weight to account for the fact that the new bin intesrsects the last bin.
-            w[-1] = (bin_max - bin_edges[index[-1]])/(bin_edges[index[-1]] - bin_edges[index[-1]-1])
-            length[-1] = bin_max - bin_edges[index[-1]]
+            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]+1] - bin_edges[condition[-1]])
+            length[-1] = bin_max - bin_edges[condition[-1]]
         condition2 = np.where(length > 0.)[0]
         index = index[condition2]
         w = w[condition2]
-- 
2.43.0


From 6335e202a80ae495037b41bfc2dd669b93098426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:12 +0000
Subject: [PATCH 14/31] fix: weighted errors are normalised by the mean weight,
 as the data are

---
 magpie/one_d/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 2305d18..c45c501 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -230,7 +230,7 @@ def rebin_1d(bin_edges, data, new_bin_edges, w=None, sigma=None):
             sigma_new = np.array([_rebin_1d_single_bin_sigma(bin_edges, sigma, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
         else:
             sigma_new = np.array([_rebin_1d_single_bin_sigma(bin_edges, sigma*w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
-            sigma_new /= np.array([_rebin_1d_single_bin_sigma(bin_edges, w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
+            sigma_new /= np.array([_rebin_1d_single_bin(bin_edges, w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
     # Return rebinned data
     if sigma is None:
         return data_new
-- 
2.43.0


From 07c0d003f5d04538e8c9e750dd72d86aec219c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:12 +0000
Subject: [PATCH 15/31] fix: rebin_1d_single_bin_weights puts the weights on
 the bins that the new bin covers

---
 magpie/one_d/one_d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index c45c501..e6c7c78 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -27,13 +27,13 @@ def rebin_1d_single_bin_weights(bin_edges, bin_min, bin_max):
     elif len(condition) == 1:
         # To ensure we are not looking at the edges
         if condition[0] > 0 and condition[0] < len(bin_edges)-1:
-            weights[condition[0]] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
-            weights[condition[0]+1] = (bin_max - bin_edges[condition[0]])/(bin_edges[condition[0]+1] - bin_edges[condition[0]])
+            weights[condition[0]-1] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
+            weights[condition[0]] = (bin_max - bin_edges[condition[0]])/(bin_edges[condition[0]+1] - bin_edges[condition[0]])
         # To deal with edges
         elif condition[0] == 0:
             weights[condition[0]] = 1.
         elif condition[0] == len(bin_edges)-1:
-            weights[condition[0]] = 1.
+            weights[condition[0]-1] = 1.
     else:
         # General case
         # Create weights equal to one
-- 
2.43.0


From 03da9444f97eda740d1e07eccaa5d449fc5a2adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:12 +0000
Subject: [PATCH 16/31] fix: grid2grid1D's default boxsizeout is the input box
 size, as in 2D and 3D

---
 magpie/remap/grid2grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/magpie/remap/grid2grid.py b/magpie/remap/grid2grid.py
index 4a92cb9..a0b8777 100644
--- a/magpie/remap/grid2grid.py
+++ b/magpie/remap/grid2grid.py
@@ -25,6 +25,8 @@ def grid2grid1D(f1, boxsize, ngridout, origin=0., originout=0., boxsizeout=None)
     -------
     f2 : array
         The remapped pixel values for the output 1D grid."""
+    if boxsizeout is None:
+        boxsizeout = boxsize
     x1min = origin
     x1max = origin + boxsize
     x2min = originout
-- 
2.43.0


From e0fd5f880a58fee7084a262c55cd6df2c88adf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:12 +0000
Subject: [PATCH 17/31] fix: grid2grid3D accepts a list of output grid sizes

---
 magpie/remap/grid2grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/remap/grid2grid.py b/magpie/remap/grid2grid.py
index a0b8777..c49bc69 100644
--- a/magpie/remap/grid2grid.py
+++ b/magpie/remap/grid2grid.py
@@ -173,7 +173,7 @@ def grid2grid3D(f1, boxsize, ngridout, origin=0., originout=0., boxsizeout=None)
     if np.isscalar(ngridout) is True:
         x2grid, y2grid, z2grid = ngridout, ngridout, ngridout
     else:
-        x2grid, y2grid = ngridout[0], ngridout[1], ngridout[2]
+        x2grid, y2grid, z2grid = ngridout[0], ngridout[1], ngridout[2]
     xpixlen = src.get_remap_pix_len(x1min=x1min, x1max=x1max, grid1=x1grid, x2min=x2min, x2max=x2max, grid2=x2grid)
     ypixlen = src.get_remap_pix_len(x1min=y1min, x1max=y1max, grid1=y1grid, x2min=y2min, x2max=y2max, grid2=y2grid)
     zpixlen = src.get_remap_pix_len(x1min=z1min, x1max=z1max, grid1=z1grid, x2min=z2min, x2max=z2max, grid2=z2grid)
-- 
2.43.0


From c97ab575d19a5340e302162b91daaac3756376e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:12 +0000
Subject: [PATCH 18/31] fix: remap_1d_grid2grid_pixel sets its outputs for a
 pixel in the cell just below the grid (they were left uninitialised)

---
 magpie/src/remap_utils.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/src/remap_utils.f90 b/magpie/src/remap_utils.f90
index 69e6be8..809627a 100644
--- a/magpie/src/remap_utils.f90
+++ b/magpie/src/remap_utils.f90
@@ -263,7 +263,7 @@ subroutine remap_1d_grid2grid_pixel(x1min, x1max, grid1, x2min, x2max, grid2, wh
       end if
 
     end do
-  else if (pix1 .NE. -1) then
+  else
     do i = 1, pixlen
       pix(i) = pix1 + i-1
       if ((pix(i) .GE. 0) .AND. (pix(i) .LT. grid1)) then
-- 
2.43.0


From d22872f99d6131fd2b62e9429e2a88d39ea2e22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 19/31] fix: the dense remaps average rows and columns by their
 own rebin factors (they were swapped)

---
 magpie/densegrid/box2ring.py   | 8 ++++----
 magpie/densegrid/heal2ortho.py | 8 ++++----
 magpie/densegrid/heal2polar.py | 8 ++++----
 magpie/densegrid/heal2ring.py  | 8 ++++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 35f63c0..005edac 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -160,10 +160,10 @@ class Box2Ring:
         rbin_weights = self.rebin_redges[1:]**2 - self.rebin_redges[:-1]**2
         rbin_weights_2d, _ = np.meshgrid(rbin_weights, self.rebin_pmid)
         f_polar_highres *= rbin_weights_2d
-        f_polar = np.sum(f_polar_highres.reshape(len(self.r2d), self.rebin_r, len(self.rebin_p2d[0])), axis=1)
-        f_polar = np.mean(f_polar.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_p), axis=2)
-        rbin_weights_2d = np.sum(rbin_weights_2d.reshape(len(self.r2d), self.rebin_r, len(self.rebin_p2d[0])), axis=1)
-        rbin_weights_2d = np.mean(rbin_weights_2d.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_p), axis=2)
+        f_polar = np.sum(f_polar_highres.reshape(len(self.r2d), self.rebin_p, len(self.rebin_p2d[0])), axis=1)
+        f_polar = np.mean(f_polar.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_r), axis=2)
+        rbin_weights_2d = np.sum(rbin_weights_2d.reshape(len(self.r2d), self.rebin_p, len(self.rebin_p2d[0])), axis=1)
+        rbin_weights_2d = np.mean(rbin_weights_2d.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_r), axis=2)
         f_polar /= rbin_weights_2d
         return f_polar
 
diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index f8b2785..711d7f8 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -144,10 +144,10 @@ class Heal2Ortho:
         dx = self.rebin_xedges[1] - self.rebin_xedges[0]
         weights = self.rebin_onsphere
         f_box_highres *= weights
-        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_x, len(self.rebin_x2d[0])), axis=1)
-        f_box = np.sum(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
-        weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_x, len(self.rebin_y2d[0])), axis=1)
-        weights_2d = np.mean(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
+        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
+        f_box = np.sum(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
+        weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
+        weights_2d = np.mean(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         condition = np.where(weights_2d != 0.)
         f_box[condition] /= weights_2d[condition]
         f_box *= self.onsphere
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index 524e313..b8c4bd6 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -140,10 +140,10 @@ class Heal2Polar:
         y_bin_weights = area
         _, y_bin_weights_2d = np.meshgrid(self.rebin_xmid, y_bin_weights)
         f_box_highres *= y_bin_weights_2d
-        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_x, len(self.rebin_x2d[0])), axis=1)
-        f_box = np.mean(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
-        y_bin_weights_2d = np.sum(y_bin_weights_2d.reshape(len(self.x2d), self.rebin_x, len(self.rebin_y2d[0])), axis=1)
-        y_bin_weights_2d = np.mean(y_bin_weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
+        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
+        f_box = np.mean(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
+        y_bin_weights_2d = np.sum(y_bin_weights_2d.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
+        y_bin_weights_2d = np.mean(y_bin_weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         f_box /= y_bin_weights_2d
         return f_box
 
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 37ed844..ab415f7 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -139,10 +139,10 @@ class Heal2Ring:
         alpha_bin_weights = area
         alpha_bin_weights_2d, _ = np.meshgrid(alpha_bin_weights, self.rebin_beta_mid)
         f_polar_highres *= alpha_bin_weights_2d
-        f_polar = np.sum(f_polar_highres.reshape(len(self.alpha2d), self.rebin_alpha, len(self.rebin_beta2d[0])), axis=1)
-        f_polar = np.mean(f_polar.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_beta), axis=2)
-        alpha_bin_weights_2d = np.sum(alpha_bin_weights_2d.reshape(len(self.alpha2d), self.rebin_alpha, len(self.rebin_beta2d[0])), axis=1)
-        alpha_bin_weights_2d = np.mean(alpha_bin_weights_2d.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_beta), axis=2)
+        f_polar = np.sum(f_polar_highres.reshape(len(self.alpha2d), self.rebin_beta, len(self.rebin_beta2d[0])), axis=1)
+        f_polar = np.mean(f_polar.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_alpha), axis=2)
+        alpha_bin_weights_2d = np.sum(alpha_bin_weights_2d.reshape(len(self.alpha2d), self.rebin_beta, len(self.rebin_beta2d[0])), axis=1)
+        alpha_bin_weights_2d = np.mean(alpha_bin_weights_2d.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_alpha), axis=2)
         f_polar /= alpha_bin_weights_2d
         return f_polar
 
-- 
2.43.0


From b02281f13d8602a731a6d4cfb548c5ab6dc1cbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 20/31] fix: Heal2Ortho averages (a constant map came out
 multiplied by a rebin factor)

---
 magpie/densegrid/heal2ortho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 711d7f8..31c8de0 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -145,7 +145,7 @@ class Heal2Ortho:
         weights = self.rebin_onsphere
         f_box_highres *= weights
         f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
-        f_box = np.sum(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
+        f_box = np.mean(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
         weights_2d = np.mean(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         condition = np.where(weights_2d != 0.)
-- 
2.43.0


From 07ef7525c0333878bd21321ae62055ab7ca8abdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 21/31] fix: the dense Cube2Shell reads f in the layout of x3d,
 y3d, z3d (x and y were transposed)

---
 magpie/densegrid/cube2shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index 3401320..e3c7918 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -151,7 +151,7 @@ class Cube2Shell:
                 yind = np.floor(yind).astype(int)
                 zind = np.floor(zind).astype(int)
                 condition = np.where((xind >= 0) & (xind < len(self.xmid)) & (yind >= 0) & (yind < len(self.ymid)) & (zind >= 0) & (zind < len(self.zmid)))[0]
-                f_shell_highres[pix[condition]] = f[xind[condition], yind[condition], zind[condition]]
+                f_shell_highres[pix[condition]] = f[yind[condition], xind[condition], zind[condition]]
             f_sphere[i] = hp.ud_grade(f_shell_highres, self.nside)
             if verbose == True:
                 utils.progress_bar(i, len(self.rebin_rmid), explanation='Remapping')
-- 
2.43.0


From e4b35fdbd15ba2177c53f82a6ecab76ea030a5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 22/31] fix: grids with a single bin along an axis can be set
 up (the bin width was read from a second bin)

---
 magpie/densegrid/box2ring.py    | 4 ++--
 magpie/densegrid/cube2shell.py  | 2 +-
 magpie/densegrid/heal2ortho.py  | 4 ++--
 magpie/densegrid/heal2polar.py  | 4 ++--
 magpie/densegrid/heal2ring.py   | 4 ++--
 magpie/montecarlo/box2ring.py   | 6 +++---
 magpie/montecarlo/cube2shell.py | 2 +-
 magpie/montecarlo/heal2polar.py | 4 ++--
 magpie/montecarlo/heal2ring.py  | 4 ++--
 9 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 005edac..65e4192 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -113,8 +113,8 @@ class Box2Ring:
         self.pedges = np.linspace(pmin, pmax, nump+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.pmid = 0.5*(self.pedges[1:] + self.pedges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
-        self.dp = self.pmid[1] - self.pmid[0]
+        self.dr = self.redges[1] - self.redges[0]
+        self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index e3c7918..9a003b9 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -101,7 +101,7 @@ class Cube2Shell:
         assert rebin_r >= 1, "rebin_r must be greater or equal to 1."
         self.redges = np.linspace(rmin, rmax, numr+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
+        self.dr = self.redges[1] - self.redges[0]
         self.nside = nside
         self.center = center
         self.rebin_shell = rebin_shell
diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 31c8de0..5a9a77e 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -89,8 +89,8 @@ class Heal2Ortho:
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
         self.ymid = 0.5*(self.yedges[1:] + self.yedges[:-1])
-        self.dx = self.xmid[1] - self.xmid[0]
-        self.dy = self.ymid[1] - self.ymid[0]
+        self.dx = self.xedges[1] - self.xedges[0]
+        self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.radius = radius
         self.z2d = coords.ortho2cart(self.x2d, self.y2d, r=self.radius, fill_value=np.nan)
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index b8c4bd6..2a5ff2b 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -94,8 +94,8 @@ class Heal2Polar:
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
         self.ymid = 0.5*(self.yedges[1:] + self.yedges[:-1])
-        self.dx = self.xmid[1] - self.xmid[0]
-        self.dy = self.ymid[1] - self.ymid[0]
+        self.dx = self.xedges[1] - self.xedges[0]
+        self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.center = center
         self.alpha = alpha
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index ab415f7..d2c8161 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -94,8 +94,8 @@ class Heal2Ring:
         self.beta_edges = np.linspace(beta_min, beta_max, num_beta+1)
         self.alpha_mid = 0.5*(self.alpha_edges[1:] + self.alpha_edges[:-1])
         self.beta_mid = 0.5*(self.beta_edges[1:] + self.beta_edges[:-1])
-        self.dalpha = self.alpha_mid[1] - self.alpha_mid[0]
-        self.dbeta = self.beta_mid[1] - self.beta_mid[0]
+        self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
+        self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.center = center
         self.beta_shift = beta_shift
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index 91996d4..829ad28 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -137,8 +137,8 @@ class Box2Ring:
         self.pedges = np.linspace(pmin, pmax, nump+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.pmid = 0.5*(self.pedges[1:] + self.pedges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
-        self.dp = self.pmid[1] - self.pmid[0]
+        self.dr = self.redges[1] - self.redges[0]
+        self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
@@ -189,7 +189,7 @@ class Box2Ring:
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.pmid = 0.5*(self.pedges[1:] + self.pedges[:-1])
         self.dr = self.redges[1:] - self.redges[:-1]
-        self.dp = self.pmid[1] - self.pmid[0]
+        self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index 8ce32f4..2e523b0 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -90,7 +90,7 @@ class Cube2Shell:
         assert len(center) == 3, "center list must have length 3."
         self.redges = np.linspace(rmin, rmax, numr+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
+        self.dr = self.redges[1] - self.redges[0]
         self.nside = nside
         self.center = center
 
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index 4d70df0..afe1cf5 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -81,8 +81,8 @@ class Heal2Polar:
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
         self.ymid = 0.5*(self.yedges[1:] + self.yedges[:-1])
-        self.dx = self.xmid[1] - self.xmid[0]
-        self.dy = self.ymid[1] - self.ymid[0]
+        self.dx = self.xedges[1] - self.xedges[0]
+        self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.center = center
         self.alpha = alpha
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index eb2e768..d2aa7b3 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -79,8 +79,8 @@ class Heal2Ring:
         self.beta_edges = np.linspace(beta_min, beta_max, num_beta+1)
         self.alpha_mid = 0.5*(self.alpha_edges[1:] + self.alpha_edges[:-1])
         self.beta_mid = 0.5*(self.beta_edges[1:] + self.beta_edges[:-1])
-        self.dalpha = self.alpha_mid[1] - self.alpha_mid[0]
-        self.dbeta = self.beta_mid[1] - self.beta_mid[0]
+        self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
+        self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.center = center
         self.beta_shift = beta_shift
-- 
2.43.0


From 86cb1b8ae853f7fd140f46b19415dc8f02fcf13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 23/31] fix: usphere_rotate handles coincident and antipodal
 points (the rotation axis was rounding noise or NaN)

---
 magpie/coords/usphere.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index f3964f8..fd4a9d2 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -51,6 +51,12 @@ def usphere_rotate(phi, theta, phi_end, theta_end, phi_start=0.,
     # calculate other dummy variables (n, t, alpha, Rn, T, invT) to do the
     # rotation, see notes to see how these are determined.
     n = np.cross(u, v)
+    if np.sqrt(np.sum(n**2.)) < 1e-12:
+        # same or opposite points, any axis perpendicular to u will do
+        if abs(u[2]) < 0.9:
+            n = np.cross(u, np.array([0., 0., 1.]))
+        else:
+            n = np.cross(u, np.array([1., 0., 0.]))
     n /= np.sqrt(np.sum(n**2.))
     t = np.cross(n, u)
     alpha = np.arctan2(v.dot(t), v.dot(u))
-- 
2.43.0


From 05d66b93cbab7f3390a385f21933f5d3d7e5985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 24/31] fix: healpix_ijs_neighbours keeps its i and j neighbour
 indices paired

---
 magpie/pixel/healpix_index.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/magpie/pixel/healpix_index.py b/magpie/pixel/healpix_index.py
index 3f64c60..e5a9eab 100644
--- a/magpie/pixel/healpix_index.py
+++ b/magpie/pixel/healpix_index.py
@@ -352,8 +352,7 @@ def healpix_ijs_neighbours(istar, jstar, nside):
     istar_neigh[cond] = istar_neigh[cond] + 4*nside
     jstar_neigh[cond] = jstar_neigh[cond] + 4*nside
 
-    istar_neigh = np.unique(istar_neigh)
-    jstar_neigh = np.unique(jstar_neigh)
+    istar_neigh, jstar_neigh = np.unique(np.array([istar_neigh, jstar_neigh]), axis=1)
     return istar_neigh, jstar_neigh
 
 
-- 
2.43.0


From 24a7b1f8deb01580dda66676b0a295f70cdba2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 25/31] fix: healpix_ijs_neighbours wraps the neighbours that
 lie just past the last meridian

---
 magpie/pixel/healpix_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/pixel/healpix_index.py b/magpie/pixel/healpix_index.py
index e5a9eab..1fd9104 100644
--- a/magpie/pixel/healpix_index.py
+++ b/magpie/pixel/healpix_index.py
@@ -344,7 +344,7 @@ def healpix_ijs_neighbours(istar, jstar, nside):
     istar_neigh = np.array(istar_neigh)
     jstar_neigh = np.array(jstar_neigh)
 
-    cond = np.where(istar_neigh + jstar_neigh > 9*nside-1)[0]
+    cond = np.where(istar_neigh + jstar_neigh >= 9*nside-1)[0]
     istar_neigh[cond] = istar_neigh[cond] - 4*nside
     jstar_neigh[cond] = jstar_neigh[cond] - 4*nside
 
-- 
2.43.0


From bf4e494c1c2099a8a45ce62a95782a69ec2e6742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 26/31] fix: healpix_ijs_neighbours finds the right neighbours
 across the north-west edge of a polar base pixel

---
 magpie/pixel/healpix_index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/pixel/healpix_index.py b/magpie/pixel/healpix_index.py
index 1fd9104..823fd91 100644
--- a/magpie/pixel/healpix_index.py
+++ b/magpie/pixel/healpix_index.py
@@ -303,9 +303,9 @@ def healpix_ijs_neighbours(istar, jstar, nside):
         jstar_neigh = [jstar - 1, jstar - 1, jstar, jstar, jstar + 1, jstar + 1, jstar + 1]
     elif istar % nside == 0 and jstar + 1 - nside*(np.floor(istar/nside) + 1) > 0:
         istar_neigh = [istar, istar + 1, istar + 1, istar, istar + 1,
+                       istar - ((jstar+2)-nside*np.floor(jstar/nside)),
                        istar - ((jstar+1)-nside*np.floor(jstar/nside)),
-                       istar - ((jstar)-nside*np.floor(jstar/nside)),
-                       istar - ((jstar-1)-nside*np.floor(jstar/nside))]
+                       istar - ((jstar)-nside*np.floor(jstar/nside))]
         jstar_neigh = [jstar - 1, jstar - 1, jstar, jstar + 1, jstar + 1,
                        nside*np.floor(jstar/nside)-1,
                        nside*np.floor(jstar/nside)-1,
-- 
2.43.0


From 443819509938a964c93b79c2c3cc6a8d45de55ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 27/31] fix: healpix_ijs_neighbours of an equatorial base pixel
 at nside 1 (it listed a pixel that does not exist)

---
 magpie/pixel/healpix_index.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/magpie/pixel/healpix_index.py b/magpie/pixel/healpix_index.py
index 823fd91..a048ae0 100644
--- a/magpie/pixel/healpix_index.py
+++ b/magpie/pixel/healpix_index.py
@@ -295,6 +295,9 @@ def healpix_ijs_neighbours(istar, jstar, nside):
     elif istar - jstar + 1 == 2*nside:
         istar_neigh = [istar, istar - 1, istar - 1, istar - nside, istar - nside, istar + nside, istar - 1 + nside, istar-2*nside]
         jstar_neigh = [jstar + 1,  jstar + 1, jstar, jstar + 1 - nside, jstar - nside, jstar + nside, jstar + nside, jstar-2*nside]
+    elif nside == 1 and istar == jstar:
+        istar_neigh = [istar - 1, istar, istar - 1, istar + 1, istar, istar + 1]
+        jstar_neigh = [jstar - 1, jstar - 1, jstar, jstar, jstar + 1, jstar + 1]
     elif jstar - istar + 1 == nside and istar % nside == 0:
         istar_neigh = [istar - 1, istar, istar + 1,  istar - 1, istar + 1, istar, istar + 1]
         jstar_neigh = [jstar - 1, jstar - 1, jstar - 1, jstar, jstar, jstar + 1, jstar + 1]
-- 
2.43.0


From e5a5089b2b6a12b863fdf4034cc214be73b0861e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 28/31] fix: Monte Carlo weights of cells with equally many hit
 pixels (they were stacked into arrays that cannot index a map)

---
 magpie/montecarlo/box2ring.py   | 24 +++++++++---------------
 magpie/montecarlo/cube2shell.py | 32 ++++++++++++--------------------
 magpie/montecarlo/heal2polar.py | 16 ++++++----------
 magpie/montecarlo/heal2ring.py  | 16 ++++++----------
 4 files changed, 33 insertions(+), 55 deletions(-)

diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index 829ad28..c88dc8c 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -208,13 +208,10 @@ class Box2Ring:
             If true will output a progress bar.
         """
         assert mc_size > 1, "mc_size must be greater than 1, ideally greater than 100."
-        ind_xs = []
-        ind_ys = []
-        ind_ws = []
+        ind_xs = np.empty(np.shape(self.r2d), dtype=object)
+        ind_ys = np.empty(np.shape(self.r2d), dtype=object)
+        ind_ws = np.empty(np.shape(self.r2d), dtype=object)
         for i in range(0, len(self.r2d)):
-            _ind_xs = []
-            _ind_ys = []
-            _ind_ws = []
             for j in range(0, len(self.r2d[0])):
                 rmin, rmax = self.redges[j], self.redges[j+1]
                 pmin, pmax = self.pedges[i], self.pedges[i+1]
@@ -232,17 +229,14 @@ class Box2Ring:
                 ind_x = condition[1]
                 ind_y = condition[0]
                 ind_w = H[condition]/float(mc_size)
-                _ind_xs.append(ind_x)
-                _ind_ys.append(ind_y)
-                _ind_ws.append(ind_w)
-            ind_xs.append(np.array(_ind_xs, dtype=object))
-            ind_ys.append(np.array(_ind_ys, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+                ind_xs[i, j] = ind_x
+                ind_ys[i, j] = ind_y
+                ind_ws[i, j] = ind_w
             if verbose == True:
                 utils.progress_bar(i, len(self.r2d), explanation='Calculating weights')
-        self.ind_xs = np.array(ind_xs, dtype=object)
-        self.ind_ys = np.array(ind_ys, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_xs = ind_xs
+        self.ind_ys = ind_ys
+        self.ind_ws = ind_ws
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index 2e523b0..cf7d6c5 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -140,15 +140,11 @@ class Cube2Shell:
         verbose : bool
             If true will output a progress bar.
         """
-        ind_xs = []
-        ind_ys = []
-        ind_zs = []
-        ind_ws = []
+        ind_xs = np.empty((len(self.rmid), hp.nside2npix(self.nside)), dtype=object)
+        ind_ys = np.empty((len(self.rmid), hp.nside2npix(self.nside)), dtype=object)
+        ind_zs = np.empty((len(self.rmid), hp.nside2npix(self.nside)), dtype=object)
+        ind_ws = np.empty((len(self.rmid), hp.nside2npix(self.nside)), dtype=object)
         for i in range(0, len(self.rmid)):
-            _ind_xs = []
-            _ind_ys = []
-            _ind_zs = []
-            _ind_ws = []
             for j in range(0, hp.nside2npix(self.nside)):
                 pix = j
                 rmin, rmax = self.redges[i], self.redges[i+1]
@@ -162,20 +158,16 @@ class Cube2Shell:
                 ind_y = condition[0]
                 ind_z = condition[2]
                 ind_w = H[condition]/float(mc_size)
-                _ind_xs.append(ind_x)
-                _ind_ys.append(ind_y)
-                _ind_zs.append(ind_z)
-                _ind_ws.append(ind_w)
-            ind_xs.append(np.array(_ind_xs, dtype=object))
-            ind_ys.append(np.array(_ind_ys, dtype=object))
-            ind_zs.append(np.array(_ind_zs, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+                ind_xs[i, j] = ind_x
+                ind_ys[i, j] = ind_y
+                ind_zs[i, j] = ind_z
+                ind_ws[i, j] = ind_w
             if verbose == True:
                 utils.progress_bar(i, len(self.rmid), explanation='Calculating weights')
-        self.ind_xs = np.array(ind_xs, dtype=object)
-        self.ind_ys = np.array(ind_ys, dtype=object)
-        self.ind_zs = np.array(ind_zs, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_xs = ind_xs
+        self.ind_ys = ind_ys
+        self.ind_zs = ind_zs
+        self.ind_ws = ind_ws
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index afe1cf5..fe0936f 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -101,11 +101,9 @@ class Heal2Polar:
             If true will output a progress bar.
         """
         assert mc_size > 1, "mc_size must be greater than 1, ideally greater than 100."
-        ind_pixs = []
-        ind_ws = []
+        ind_pixs = np.empty(np.shape(self.x2d), dtype=object)
+        ind_ws = np.empty(np.shape(self.x2d), dtype=object)
         for i in range(0, len(self.x2d)):
-            _ind_pixs = []
-            _ind_ws = []
             for j in range(0, len(self.x2d[0])):
                 x_min, x_max = self.xedges[j], self.xedges[j+1]
                 y_max, y_min = self.yedges[i], self.yedges[i+1]
@@ -119,14 +117,12 @@ class Heal2Polar:
                 pix_uniq, pix_counts = np.unique(pix_rand, return_counts=True)
                 ind_pix = pix_uniq
                 ind_w = (pix_counts.astype('float'))/float(mc_size)
-                _ind_pixs.append(ind_pix)
-                _ind_ws.append(ind_w)
-            ind_pixs.append(np.array(_ind_pixs, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+                ind_pixs[i, j] = ind_pix
+                ind_ws[i, j] = ind_w
             if verbose == True:
                 utils.progress_bar(i, len(self.x2d), explanation='Calculating weights')
-        self.ind_pixs = np.array(ind_pixs, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_pixs = ind_pixs
+        self.ind_ws = ind_ws
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index d2aa7b3..f3104af 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -99,11 +99,9 @@ class Heal2Ring:
             If true will output a progress bar.
         """
         assert mc_size > 1, "mc_size must be greater than 1, ideally greater than 100."
-        ind_pixs = []
-        ind_ws = []
+        ind_pixs = np.empty(np.shape(self.alpha2d), dtype=object)
+        ind_ws = np.empty(np.shape(self.alpha2d), dtype=object)
         for i in range(0, len(self.alpha2d)):
-            _ind_pixs = []
-            _ind_ws = []
             for j in range(0, len(self.alpha2d[0])):
                 alpha_min, alpha_max = self.alpha_edges[j], self.alpha_edges[j+1]
                 beta_min, beta_max = self.beta_edges[i], self.beta_edges[i+1]
@@ -116,14 +114,12 @@ class Heal2Ring:
                 pix_uniq, pix_counts = np.unique(pix_rand, return_counts=True)
                 ind_pix = pix_uniq
                 ind_w = (pix_counts.astype('float'))/float(mc_size)
-                _ind_pixs.append(ind_pix)
-                _ind_ws.append(ind_w)
-            ind_pixs.append(np.array(_ind_pixs, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+                ind_pixs[i, j] = ind_pix
+                ind_ws[i, j] = ind_w
             if verbose == True:
                 utils.progress_bar(i, len(self.alpha2d), explanation='Calculating weights')
-        self.ind_pixs = np.array(ind_pixs, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_pixs = ind_pixs
+        self.ind_ws = ind_ws
 
 
     def remap(self, f, w=None, verbose=True):
-- 
2.43.0


From d1eca990c41c97eef695e21581accd75ca5f1ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 29/31] fix: setting up a ring class again drops the areas and
 mask cached for the previous grid

---
 magpie/densegrid/box2ring.py   | 4 ++++
 magpie/densegrid/heal2ring.py  | 2 ++
 magpie/montecarlo/box2ring.py  | 7 +++++++
 magpie/montecarlo/heal2ring.py | 2 ++
 4 files changed, 15 insertions(+)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 65e4192..2417235 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -70,6 +70,8 @@ class Box2Ring:
         self.dx = self.xedges[1] - self.xedges[0]
         self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
+        self.pixarea = None
+        self.mask_in_bound = None
 
 
     def setup_polar(self, rmin, rmax, numr, nump, pmin=0., pmax=2.*np.pi, center=[0., 0.], rebin_r=2, rebin_p=2, phi_shift=0.):
@@ -116,6 +118,8 @@ class Box2Ring:
         self.dr = self.redges[1] - self.redges[0]
         self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
+        self.area2d = None
+        self.mask_in_bound = None
         self.center = center
         self.phi_shift = phi_shift
         self.rebin_r = rebin_r
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index d2c8161..0f1b40b 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -49,6 +49,7 @@ class Heal2Ring:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        self.pixarea = None
 
 
     def setup_polar_cap(self, alpha_min, alpha_max, num_alpha,
@@ -97,6 +98,7 @@ class Heal2Ring:
         self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
         self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
+        self.area2d = None
         self.center = center
         self.beta_shift = beta_shift
         self.rebin_alpha = rebin_alpha
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index c88dc8c..e7c0417 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -97,6 +97,8 @@ class Box2Ring:
         self.dx = self.xedges[1] - self.xedges[0]
         self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
+        self.pixarea = None
+        self.mask_in_bound = None
 
 
     def setup_polar_lin(self, rmin, rmax, numr, nump, pmin=0., pmax=2.*np.pi,
@@ -140,6 +142,8 @@ class Box2Ring:
         self.dr = self.redges[1] - self.redges[0]
         self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
+        self.area2d = None
+        self.mask_in_bound = None
         self.center = center
         self.phi_shift = phi_shift
 
@@ -191,6 +195,8 @@ class Box2Ring:
         self.dr = self.redges[1:] - self.redges[:-1]
         self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
+        self.area2d = None
+        self.mask_in_bound = None
         self.center = center
         self.phi_shift = phi_shift
 
@@ -237,6 +243,7 @@ class Box2Ring:
         self.ind_xs = ind_xs
         self.ind_ys = ind_ys
         self.ind_ws = ind_ws
+        self.mask_in_bound = None
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index f3104af..a5971be 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -39,6 +39,7 @@ class Heal2Ring:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        self.pixarea = None
 
 
     def setup_polar_cap(self, alpha_min, alpha_max, num_alpha, num_beta, beta_min=0., beta_max=2.*np.pi,
@@ -82,6 +83,7 @@ class Heal2Ring:
         self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
         self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
+        self.area2d = None
         self.center = center
         self.beta_shift = beta_shift
 
-- 
2.43.0


From a1fec9aada33df3583e5b45a4e4e66e55f41bb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:49 +0000
Subject: [PATCH 30/31] fix: usphere_phi_shift accepts a shift by a full turn,
 as its message says (usphere_spin by 2pi and shifts from phi 0 to 2pi failed)

---
 magpie/coords/usphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index fd4a9d2..0bfa6e9 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -103,7 +103,7 @@ def usphere_phi_shift(phi, dphi):
         Shifted phi coordinates.
     """
     # sanity checks
-    assert dphi > -2.*np.pi and dphi < 2.*np.pi, \
+    assert dphi >= -2.*np.pi and dphi <= 2.*np.pi, \
         "dphi must be within the range [-2pi, 2pi]."
     # shift phi
     phi_new = phi + dphi
-- 
2.43.0


From 5e64a244967a33819fa87ed97cc01abf9eafce9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:49 +0000
Subject: [PATCH 31/31] fix: setting up another map or cube refreshes the
 pixels and centers found for the previous one

---
 magpie/densegrid/cube2shell.py | 29 +++++++++++++++++++++--------
 magpie/densegrid/heal2ortho.py |  7 +++++++
 magpie/densegrid/heal2polar.py |  7 +++++++
 magpie/densegrid/heal2ring.py  |  7 +++++++
 4 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index 9a003b9..3cc8725 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -32,6 +32,9 @@ class Cube2Shell:
         self.center = None
         self.rebin_shell = None
         self.rebin_r = None
+        self.periodicx = None
+        self.periodicy = None
+        self.periodicz = None
         self.centers = None
         self.rebin_redges = None
         self.rebin_rmid = None
@@ -66,6 +69,8 @@ class Cube2Shell:
         self.dy = self.yedges[1] - self.yedges[0]
         self.dz = self.zedges[1] - self.zedges[0]
         self.x3d, self.y3d, self.z3d = np.meshgrid(self.xmid, self.ymid, self.zmid)
+        if self.center is not None:
+            self._setup_centers()
 
 
     def setup_polar(self, rmin, rmax, numr, nside, center=[0., 0., 0.], rebin_shell=2,
@@ -106,18 +111,26 @@ class Cube2Shell:
         self.center = center
         self.rebin_shell = rebin_shell
         self.rebin_r = rebin_r
-        centers = []
-        for i in range(periodicx[0], periodicx[1]+1):
-            for j in range(periodicy[0], periodicy[1]+1):
-                for k in range(periodicz[0], periodicz[1]+1):
-                    centers.append([center[0] + i*(self.xedges[-1]-self.xedges[0]),
-                                    center[1] + j*(self.yedges[-1]-self.yedges[0]),
-                                    center[2] + k*(self.zedges[-1]-self.zedges[0])])
-        self.centers = centers
+        self.periodicx = periodicx
+        self.periodicy = periodicy
+        self.periodicz = periodicz
+        self._setup_centers()
         self.rebin_redges = np.linspace(self.redges[0], self.redges[-1], self.rebin_r*len(self.rmid) + 1)
         self.rebin_rmid = 0.5*(self.rebin_redges[1:] + self.rebin_redges[:-1])
 
 
+    def _setup_centers(self):
+        """Finds the centers of the periodic copies of the cube."""
+        centers = []
+        for i in range(self.periodicx[0], self.periodicx[1]+1):
+            for j in range(self.periodicy[0], self.periodicy[1]+1):
+                for k in range(self.periodicz[0], self.periodicz[1]+1):
+                    centers.append([self.center[0] + i*(self.xedges[-1]-self.xedges[0]),
+                                    self.center[1] + j*(self.yedges[-1]-self.yedges[0]),
+                                    self.center[2] + k*(self.zedges[-1]-self.zedges[0])])
+        self.centers = centers
+
+
     def remap(self, f, verbose=True):
         """Remaps 3d grid data f onto spherical polar coordinate grid.
 
diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 5a9a77e..1c31ea0 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -52,6 +52,8 @@ class Heal2Ortho:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        if self.center is not None:
+            self._setup_pix()
 
 
     def setup_box(self, x_length, x_grid, center=[0., 0.], y_length=None, y_grid=None,
@@ -118,6 +120,11 @@ class Heal2Ortho:
         self.rebin_yind, self.rebin_xind = np.meshgrid(self.rebin_xind, self.rebin_yind)
         self.rebin_xind = self.rebin_xind.flatten()
         self.rebin_yind = self.rebin_yind.flatten()
+        self._setup_pix()
+
+
+    def _setup_pix(self):
+        """Finds the HEALPix pixels below the box grid."""
         xx = self.rebin_x2d.flatten()
         yy = self.rebin_y2d.flatten()
         zz = self.rebin_z2d.flatten()
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index 2a5ff2b..243a444 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -46,6 +46,8 @@ class Heal2Polar:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        if self.center is not None:
+            self._setup_pix()
 
 
     def setup_box(self, x_length, x_grid, center=[0., 0.], alpha=0., y_length=None, y_grid=None,
@@ -111,6 +113,11 @@ class Heal2Polar:
         self.rebin_yind, self.rebin_xind = np.meshgrid(self.rebin_xind, self.rebin_yind)
         self.rebin_xind = self.rebin_xind.flatten()
         self.rebin_yind = self.rebin_yind.flatten()
+        self._setup_pix()
+
+
+    def _setup_pix(self):
+        """Finds the HEALPix pixels below the box grid."""
         xx = self.rebin_x2d.flatten()
         yy = self.rebin_y2d.flatten()
         yy = np.pi/2. - yy
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 0f1b40b..7f29414 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -50,6 +50,8 @@ class Heal2Ring:
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
         self.pixarea = None
+        if self.center is not None:
+            self._setup_pix()
 
 
     def setup_polar_cap(self, alpha_min, alpha_max, num_alpha,
@@ -113,6 +115,11 @@ class Heal2Ring:
         self.rebin_beta_ind, self.rebin_alpha_ind = np.meshgrid(self.rebin_beta_ind, self.rebin_alpha_ind)
         self.rebin_alpha_ind = self.rebin_alpha_ind.flatten()
         self.rebin_beta_ind = self.rebin_beta_ind.flatten()
+        self._setup_pix()
+
+
+    def _setup_pix(self):
+        """Finds the HEALPix pixels below the polar grid."""
         if self.beta_shift != 0.:
             phi, theta = coords.usphere_spin(self.rebin_beta2d.flatten(), self.rebin_alpha2d.flatten(), 0., 0., self.beta_shift)
         else:
-- 
2.43.0

