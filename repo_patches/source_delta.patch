From 96ddd1564ae539ab38b3f19c042a4964c8fee9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 01/57] fix: randoms_1d returned an undefined name

---
 magpie/randoms/cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/randoms/cart.py b/magpie/randoms/cart.py
index 93ccb5c..58a025a 100644
--- a/magpie/randoms/cart.py
+++ b/magpie/randoms/cart.py
@@ -19,7 +19,7 @@ def randoms_1d(size, xmin=0., xmax=1.):
         Uniform randoms in 1D.
     """
     xrands = (xmax - xmin)*np.random.random_sample(size) + xmin
-    return xrand
+    return xrands
 
 
 def randoms_2d(size, mins=[0., 0.], maxs=[1., 1.]):
-- 
2.43.0


From a7833b6f33ce3b54347e72c9968b10a7a4785e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 02/57] fix: randoms_2d and randoms_3d ignored the upper x
 limit

---
 magpie/randoms/cart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/randoms/cart.py b/magpie/randoms/cart.py
index 58a025a..386b28c 100644
--- a/magpie/randoms/cart.py
+++ b/magpie/randoms/cart.py
@@ -39,7 +39,7 @@ def randoms_2d(size, mins=[0., 0.], maxs=[1., 1.]):
     xrands, yrands : array
         Uniform randoms in 2D.
     """
-    xrands = randoms_1d(size, xmin=mins[0], xmax=mins[0])
+    xrands = randoms_1d(size, xmin=mins[0], xmax=maxs[0])
     yrands = randoms_1d(size, xmin=mins[1], xmax=maxs[1])
     return xrands, yrands
 
@@ -61,7 +61,7 @@ def randoms_3d(size, mins=[0., 0., 0], maxs=[1., 1., 1.]):
     xrands, yrands, zrands : array
         Uniform randoms in 3D.
     """
-    xrands = randoms_1d(size, xmin=mins[0], xmax=mins[0])
+    xrands = randoms_1d(size, xmin=mins[0], xmax=maxs[0])
     yrands = randoms_1d(size, xmin=mins[1], xmax=maxs[1])
     zrands = randoms_1d(size, xmin=mins[2], xmax=maxs[2])
     return xrands, yrands, zrands
-- 
2.43.0


From 6850493ff56b14ed647ac1d9ba6a9a08017d0aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 03/57] fix: grid2grid1D crashed when boxsizeout was left at
 its default

---
 magpie/remap/grid2grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/magpie/remap/grid2grid.py b/magpie/remap/grid2grid.py
index 4a92cb9..6b4186a 100644
--- a/magpie/remap/grid2grid.py
+++ b/magpie/remap/grid2grid.py
@@ -27,6 +27,8 @@ def grid2grid1D(f1, boxsize, ngridout, origin=0., originout=0., boxsizeout=None)
         The remapped pixel values for the output 1D grid."""
     x1min = origin
     x1max = origin + boxsize
+    if boxsizeout is None:
+        boxsizeout = boxsize
     x2min = originout
     x2max = originout + boxsizeout
     f1shape = np.shape(f1)
-- 
2.43.0


From 0dab22fc70d802bdc1e4d72929d914699177e297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 04/57] fix: grid2grid3D crashed when ngridout was given as a
 list

---
 magpie/remap/grid2grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/remap/grid2grid.py b/magpie/remap/grid2grid.py
index 6b4186a..531f6bb 100644
--- a/magpie/remap/grid2grid.py
+++ b/magpie/remap/grid2grid.py
@@ -173,7 +173,7 @@ def grid2grid3D(f1, boxsize, ngridout, origin=0., originout=0., boxsizeout=None)
     if np.isscalar(ngridout) is True:
         x2grid, y2grid, z2grid = ngridout, ngridout, ngridout
     else:
-        x2grid, y2grid = ngridout[0], ngridout[1], ngridout[2]
+        x2grid, y2grid, z2grid = ngridout[0], ngridout[1], ngridout[2]
     xpixlen = src.get_remap_pix_len(x1min=x1min, x1max=x1max, grid1=x1grid, x2min=x2min, x2max=x2max, grid2=x2grid)
     ypixlen = src.get_remap_pix_len(x1min=y1min, x1max=y1max, grid1=y1grid, x2min=y2min, x2max=y2max, grid2=y2grid)
     zpixlen = src.get_remap_pix_len(x1min=z1min, x1max=z1max, grid1=z1grid, x2min=z2min, x2max=z2max, grid2=z2grid)
-- 
2.43.0


From ecca8cdf9dd8d8f699629e7299610642143927f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 05/57] fix: remapping read uninitialised weights for output
 cells inside the cell just below the input grid

---
 magpie/src/remap_utils.f90 | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/magpie/src/remap_utils.f90 b/magpie/src/remap_utils.f90
index 69e6be8..b8c8f72 100644
--- a/magpie/src/remap_utils.f90
+++ b/magpie/src/remap_utils.f90
@@ -277,6 +277,11 @@ subroutine remap_1d_grid2grid_pixel(x1min, x1max, grid1, x2min, x2max, grid2, wh
         pix(i) = -1
       end if
     end do
+  else
+    do i = 1, pixlen
+      weights(i) = 0.
+      pix(i) = -1
+    end do
   end if
 
 end subroutine remap_1d_grid2grid_pixel
-- 
2.43.0


From 7a28b43d7e6e5271674439f8889ddf097a89dc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 06/57] fix: rebin_1d counted the last bin twice when a new bin
 spans all the old bins

---
 magpie/one_d/one_d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 414f87d..5d0accc 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -42,7 +42,7 @@ def rebin_1d_single_bin_weights(bin_edges, bin_min, bin_max):
         if condition[-1] == len(bin_edges)-1:
             w = w[:-1]
             index = index[:-1]
-        elif condition[0] == 0:
+        if condition[0] == 0:
             w = w[1:]
             index = index[1:]
         if condition[0] != 0:
@@ -96,7 +96,7 @@ def _rebin_1d_single_bin(bin_edges, data, bin_min, bin_max):
         if condition[-1] == len(bin_edges)-1:
             w = w[:-1]
             index = index[:-1]
-        elif condition[0] == 0:
+        if condition[0] == 0:
             w = w[1:]
             index = index[1:]
         if condition[0] != 0:
@@ -172,7 +172,7 @@ def _rebin_1d_single_bin_sigma(bin_edges, sigma, bin_min, bin_max):
         if condition[-1] == len(bin_edges)-1:
             w = w[:-1]
             index = index[:-1]
-        elif condition[0] == 0:
+        if condition[0] == 0:
             w = w[1:]
             index = index[1:]
         length = lengths[index]
-- 
2.43.0


From e5600a2700ac405edfb5521dbf84b4c3088e7e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 07/57] fix: rebin_1d used the width of the wrong bin for the
 last partial overlap

---
 magpie/one_d/one_d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 5d0accc..61bbe2e 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -50,7 +50,7 @@ def rebin_1d_single_bin_weights(bin_edges, bin_min, bin_max):
             w[0] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
         if condition[-1] != len(bin_edges)-1:
             # Alter last weight to account for the fact that the new bin intesrsects the last bin.
-            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]] - bin_edges[condition[-1]-1])
+            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]+1] - bin_edges[condition[-1]])
         weights[index] = w
     return weights
 
@@ -104,7 +104,7 @@ def _rebin_1d_single_bin(bin_edges, data, bin_min, bin_max):
             w[0] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
         if condition[-1] != len(bin_edges)-1:
             # Alter last weight to account for the fact that the new bin intesrsects the last bin.
-            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]] - bin_edges[condition[-1]-1])
+            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]+1] - bin_edges[condition[-1]])
         return np.sum(w*data[index])/np.sum(w)
 
 
-- 
2.43.0


From 06f70e1e52bb1f4eb651a739ce0db257f48288f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 08/57] fix: rebin_1d copied the edge bin into new bins that
 only touch the old range

---
 magpie/one_d/one_d.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 61bbe2e..5f414c7 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -85,9 +85,9 @@ def _rebin_1d_single_bin(bin_edges, data, bin_min, bin_max):
             return (w1*data[condition[0]-1] + w2*data[condition[0]])/(w1+w2)
         # To deal with edges
         elif condition[0] == 0:
-            return data[0]
+            return data[0] if bin_max > bin_edges[0] else np.nan
         elif condition[0] == len(bin_edges)-1:
-            return data[-1]
+            return data[-1] if bin_min < bin_edges[-1] else np.nan
     else:
         # General case
         # Create weights equal to one
@@ -154,12 +154,16 @@ def _rebin_1d_single_bin_sigma(bin_edges, sigma, bin_min, bin_max):
         # To deal with edges
         elif condition[0] == 0:
             length = bin_max - bin_edges[0]
+            if length <= 0.:
+                return np.nan
             new_sigma = sigma[0]**2.
             new_sigma *= lengths[0]/length
             new_sigma = np.sqrt(new_sigma)
             return new_sigma
         elif condition[0] == len(bin_edges)-1:
             length = bin_edges[-1] - bin_min
+            if length <= 0.:
+                return np.nan
             new_sigma = sigma[-1]**2.
             new_sigma *= lengths[-1]/length
             new_sigma = np.sqrt(new_sigma)
-- 
2.43.0


From fafd5da72fba66e4e2f64eff0b2692932ae6ab0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 09/57] fix: rebin_1d errors used shifted edges for the partial
 overlaps

---
 magpie/one_d/one_d.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 5f414c7..c2fabbf 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -180,14 +180,14 @@ def _rebin_1d_single_bin_sigma(bin_edges, sigma, bin_min, bin_max):
             w = w[1:]
             index = index[1:]
         length = lengths[index]
-        if index[0] != 0:
+        if condition[0] != 0:
             # Alter first weight to account for the fact that the new bin intersects the first bin.
-            w[0] = (bin_edges[index[0]] - bin_min)/(bin_edges[index[0]] - bin_edges[index[0]-1])
-            length[0] = bin_edges[index[0]] - bin_min
-        if index[-1] != len(bin_edges)-1:
+            w[0] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
+            length[0] = bin_edges[condition[0]] - bin_min
+        if condition[-1] != len(bin_edges)-1:
             # Alter last weight to account for the fact that the new bin intesrsects the last bin.
-            w[-1] = (bin_max - bin_edges[index[-1]])/(bin_edges[index[-1]] - bin_edges[index[-1]-1])
-            length[-1] = bin_max - bin_edges[index[-1]]
+            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]+1] - bin_edges[condition[-1]])
+            length[-1] = bin_max - bin_edges[condition[-1]]
         condition2 = np.where(length > 0.)[0]
         index = index[condition2]
         w = w[condition2]
-- 
2.43.0


From db03aa0e4a14e971e2f66ff8809aea49c5e8f351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 10/57] fix: rebin_1d normalised weighted errors by a
 quadrature sum of the weights

---
 magpie/one_d/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index c2fabbf..1993fb2 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -234,7 +234,7 @@ def rebin_1d(bin_edges, data, new_bin_edges, w=None, sigma=None):
             sigma_new = np.array([_rebin_1d_single_bin_sigma(bin_edges, sigma, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
         else:
             sigma_new = np.array([_rebin_1d_single_bin_sigma(bin_edges, sigma*w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
-            sigma_new /= np.array([_rebin_1d_single_bin_sigma(bin_edges, w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
+            sigma_new /= np.array([_rebin_1d_single_bin(bin_edges, w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
     # Return rebinned data
     if sigma is None:
         return data_new
-- 
2.43.0


From 457746e291c037e6237f353a1d3c5dc4d9bada52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 11/57] fix: rebin_1d_single_bin_weights was off by one when a
 new bin holds a single old edge

---
 magpie/one_d/one_d.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 1993fb2..8ead976 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -27,13 +27,17 @@ def rebin_1d_single_bin_weights(bin_edges, bin_min, bin_max):
     elif len(condition) == 1:
         # To ensure we are not looking at the edges
         if condition[0] > 0 and condition[0] < len(bin_edges)-1:
-            weights[condition[0]] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
-            weights[condition[0]+1] = (bin_max - bin_edges[condition[0]])/(bin_edges[condition[0]+1] - bin_edges[condition[0]])
+            weights[condition[0]-1] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
+            weights[condition[0]] = (bin_max - bin_edges[condition[0]])/(bin_edges[condition[0]+1] - bin_edges[condition[0]])
         # To deal with edges
         elif condition[0] == 0:
+            if bin_max <= bin_edges[0]:
+                return np.nan
             weights[condition[0]] = 1.
         elif condition[0] == len(bin_edges)-1:
-            weights[condition[0]] = 1.
+            if bin_min >= bin_edges[-1]:
+                return np.nan
+            weights[condition[0]-1] = 1.
     else:
         # General case
         # Create weights equal to one
-- 
2.43.0


From d71dee2f8da0c46a3eb967595002c6c0e692caba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 12/57] fix: rotate_polar ignored the input angles and crashed

---
 magpie/coords/polar.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/magpie/coords/polar.py b/magpie/coords/polar.py
index 49a0222..4ced467 100644
--- a/magpie/coords/polar.py
+++ b/magpie/coords/polar.py
@@ -18,11 +18,17 @@ def rotate_polar(phi, rotate):
     """
     assert rotate > 0. and rotate < 2.*np.pi, \
         "Rotation angles must have lie between [0, 2pi]."
-    rot_phi = rotate
-    cond = np.where(rot_phi >= 2.*np.pi)[0]
-    rot_phi[cond] -= 2.*np.pi
-    cond = np.where(rot_phi < 0.)[0]
-    rot_phi[cond] += 2.*np.pi
+    rot_phi = phi + rotate
+    if np.isscalar(rot_phi) is True:
+        if rot_phi >= 2.*np.pi:
+            rot_phi -= 2.*np.pi
+        elif rot_phi < 0.:
+            rot_phi += 2.*np.pi
+    else:
+        cond = np.where(rot_phi >= 2.*np.pi)
+        rot_phi[cond] -= 2.*np.pi
+        cond = np.where(rot_phi < 0.)
+        rot_phi[cond] += 2.*np.pi
     return rot_phi
 
 
-- 
2.43.0


From 5f87d90e80129e0cc7b5aa5e4b0acf30ebd9e321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 13/57] fix: rotate_polar_grid swapped its interpolation
 weights, wrapped partial grids and overwrote its input

---
 magpie/coords/polar.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/magpie/coords/polar.py b/magpie/coords/polar.py
index 4ced467..5394b8e 100644
--- a/magpie/coords/polar.py
+++ b/magpie/coords/polar.py
@@ -55,16 +55,14 @@ def rotate_polar_grid(pedges, f_polar, phi_shift):
     dp = pedges[1] - pedges[0]
     ind_shift = int(np.floor(phi_shift/dp))
     w_shift = phi_shift/dp - ind_shift
-    f_polar_rot = np.zeros(np.shape(f_polar))
-    if ind_shift != 0:
-        f_polar_rot[-ind_shift:] = f_polar[:ind_shift]
-        f_polar_rot[:-ind_shift] = f_polar[ind_shift:]
+    # pad the grid along phi with the values found beyond its last bin: if the
+    # polar grid has the range 0 to 2pi the rotation wraps, otherwise they are 0
+    if np.isclose(pedges[-1] - pedges[0], 2.*np.pi):
+        f_pad = np.concatenate([f_polar, f_polar, f_polar[:1]])
     else:
-        f_polar_rot = f_polar
-    f_polar_rot[:-1] = w_shift*f_polar_rot[:-1] + (1.-w_shift)*f_polar_rot[1:]
-    # check if polar grid has the range 0 to 2pi, if it does wrap the rotation
-    if pedges[-1] - pedges[0] == 2.*np.pi:
-        f_polar_rot[-1] = w_shift*f_polar_rot[-1] + (1.-w_shift)*f_polar_rot[0]
-    else:
-        f_polar_rot[-1] *= w_shift
+        ind_shift = min(ind_shift, len(f_polar))
+        f_pad = np.concatenate([f_polar, np.zeros((len(f_polar)+1,) + np.shape(f_polar)[1:])])
+    f_shift = f_pad[ind_shift:ind_shift+len(f_polar)]
+    f_shift_next = f_pad[ind_shift+1:ind_shift+1+len(f_polar)]
+    f_polar_rot = (1.-w_shift)*f_shift + w_shift*f_shift_next
     return f_polar_rot
-- 
2.43.0


From d36f7fb43f3d2c7aedc813738cf8d1c37fe63388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 14/57] fix: rotate_polar of the remapping classes called the
 wrong function and crashed

---
 magpie/coords/__init__.py      | 1 +
 magpie/densegrid/box2ring.py   | 2 +-
 magpie/densegrid/heal2ring.py  | 2 +-
 magpie/montecarlo/box2ring.py  | 2 +-
 magpie/montecarlo/heal2ring.py | 2 +-
 5 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/magpie/coords/__init__.py b/magpie/coords/__init__.py
index f2365eb..93fc355 100644
--- a/magpie/coords/__init__.py
+++ b/magpie/coords/__init__.py
@@ -13,6 +13,7 @@ from .usphere_util import sphere2lonlat
 from .usphere_util import lonlat2sphere
 
 from .polar import rotate_polar
+from .polar import rotate_polar_grid
 
 from .usphere import usphere_rotate
 from .usphere import usphere_phi_shift
diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 2c7c427..2b94cf7 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -229,7 +229,7 @@ class Box2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.pedges, f_polar, phi_shift)
+        return coords.rotate_polar_grid(self.pedges, f_polar, phi_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 93b94aa..7f023a0 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -188,7 +188,7 @@ class Heal2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.beta2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.beta_edges, f_polar, beta_shift)
+        return coords.rotate_polar_grid(self.beta_edges, f_polar, beta_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index aceb8ab..6461550 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -321,7 +321,7 @@ class Box2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.pedges, f_polar, phi_shift)
+        return coords.rotate_polar_grid(self.pedges, f_polar, phi_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 3d9414f..3c45f8c 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -182,7 +182,7 @@ class Heal2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.beta2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.beta_edges, f_polar, beta_shift)
+        return coords.rotate_polar_grid(self.beta_edges, f_polar, beta_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
-- 
2.43.0


From bd7998cd686adaa6df6a3bc8dbaad68aab0ddf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 15/57] fix: usphere_phi_shift overwrote its input and shifted
 whole rows of 2d input

---
 magpie/coords/usphere.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index 290f7d9..31c9b02 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -100,13 +100,11 @@ def usphere_phi_shift(phi, dphi):
     assert dphi > -2.*np.pi and dphi < 2.*np.pi, \
         "dphi must be within the range [-2pi, 2pi]."
     # shift phi
-    # phi_new = np.copy(phi)
-    phi_new = phi
-    phi_new += dphi
+    phi_new = phi + dphi
     if np.isscalar(phi_new) is False:
-        condition = np.where(phi_new > 2.*np.pi)[0]
+        condition = np.where(phi_new > 2.*np.pi)
         phi_new[condition] -= 2.*np.pi
-        condition = np.where(phi_new < 0.)[0]
+        condition = np.where(phi_new < 0.)
         phi_new[condition] += 2.*np.pi
     # scalar case
     else:
-- 
2.43.0


From fa23f95c4a5ef9228d45e2d7af7df356a137167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 16/57] fix: usphere_phi_shift rejected whole turns that
 usphere_spin and usphere_shift accept

---
 magpie/coords/usphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index 31c9b02..8ba505e 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -97,7 +97,7 @@ def usphere_phi_shift(phi, dphi):
         Shifted phi coordinates.
     """
     # sanity checks
-    assert dphi > -2.*np.pi and dphi < 2.*np.pi, \
+    assert dphi >= -2.*np.pi and dphi <= 2.*np.pi, \
         "dphi must be within the range [-2pi, 2pi]."
     # shift phi
     phi_new = phi + dphi
-- 
2.43.0


From 6bddc3810b721921bb8b04267e7628541951c46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 17/57] fix: cart2sphere only worked on one dimensional arrays

---
 magpie/coords/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/coords/conversions.py b/magpie/coords/conversions.py
index 3401676..15ad38d 100644
--- a/magpie/coords/conversions.py
+++ b/magpie/coords/conversions.py
@@ -88,8 +88,8 @@ def cart2sphere(x, y, z, center=[0., 0., 0.]):
     else:
         condition = np.where(phi < 0.)
         phi[condition] += 2.*np.pi
-        theta = np.zeros(len(phi))
-        condition = np.where(r != 0.)[0]
+        theta = np.zeros(np.shape(phi))
+        condition = np.where(r != 0.)
         theta[condition] = np.arccos((z[condition]-center[2])/r[condition])
     return r, phi, theta
 
-- 
2.43.0


From 41f1427348b448cd7b7a12eb248aaf3f050b83fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 18/57] fix: healpix_ijs_neighbours gave wrong neighbours
 across two base pixel seams

---
 magpie/pixel/healpix_index.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/magpie/pixel/healpix_index.py b/magpie/pixel/healpix_index.py
index 3f64c60..02517d4 100644
--- a/magpie/pixel/healpix_index.py
+++ b/magpie/pixel/healpix_index.py
@@ -303,9 +303,9 @@ def healpix_ijs_neighbours(istar, jstar, nside):
         jstar_neigh = [jstar - 1, jstar - 1, jstar, jstar, jstar + 1, jstar + 1, jstar + 1]
     elif istar % nside == 0 and jstar + 1 - nside*(np.floor(istar/nside) + 1) > 0:
         istar_neigh = [istar, istar + 1, istar + 1, istar, istar + 1,
+                       istar - ((jstar+2)-nside*np.floor(jstar/nside)),
                        istar - ((jstar+1)-nside*np.floor(jstar/nside)),
-                       istar - ((jstar)-nside*np.floor(jstar/nside)),
-                       istar - ((jstar-1)-nside*np.floor(jstar/nside))]
+                       istar - ((jstar)-nside*np.floor(jstar/nside))]
         jstar_neigh = [jstar - 1, jstar - 1, jstar, jstar + 1, jstar + 1,
                        nside*np.floor(jstar/nside)-1,
                        nside*np.floor(jstar/nside)-1,
@@ -344,7 +344,7 @@ def healpix_ijs_neighbours(istar, jstar, nside):
     istar_neigh = np.array(istar_neigh)
     jstar_neigh = np.array(jstar_neigh)
 
-    cond = np.where(istar_neigh + jstar_neigh > 9*nside-1)[0]
+    cond = np.where(istar_neigh + jstar_neigh >= 9*nside-1)[0]
     istar_neigh[cond] = istar_neigh[cond] - 4*nside
     jstar_neigh[cond] = jstar_neigh[cond] - 4*nside
 
-- 
2.43.0


From c00ca2047d85c26f5bc573c060bce1395619a3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 19/57] fix: healpix_ijs_neighbours returned a pixel that does
 not exist for nside=1

---
 magpie/pixel/healpix_index.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/magpie/pixel/healpix_index.py b/magpie/pixel/healpix_index.py
index 02517d4..04910fa 100644
--- a/magpie/pixel/healpix_index.py
+++ b/magpie/pixel/healpix_index.py
@@ -295,6 +295,9 @@ def healpix_ijs_neighbours(istar, jstar, nside):
     elif istar - jstar + 1 == 2*nside:
         istar_neigh = [istar, istar - 1, istar - 1, istar - nside, istar - nside, istar + nside, istar - 1 + nside, istar-2*nside]
         jstar_neigh = [jstar + 1,  jstar + 1, jstar, jstar + 1 - nside, jstar - nside, jstar + nside, jstar + nside, jstar-2*nside]
+    elif nside == 1 and istar == jstar:
+        istar_neigh = [istar - 1, istar, istar - 1, istar + 1, istar, istar + 1]
+        jstar_neigh = [jstar - 1, jstar - 1, jstar, jstar, jstar + 1, jstar + 1]
     elif jstar - istar + 1 == nside and istar % nside == 0:
         istar_neigh = [istar - 1, istar, istar + 1,  istar - 1, istar + 1, istar, istar + 1]
         jstar_neigh = [jstar - 1, jstar - 1, jstar - 1, jstar, jstar, jstar + 1, jstar + 1]
-- 
2.43.0


From ef785d3156ac951654dcb6c0300de8e62c3d2c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 20/57] fix: healpix_ijs_neighbours returned the unique i and
 the unique j, losing which belong together

---
 magpie/pixel/healpix_index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/pixel/healpix_index.py b/magpie/pixel/healpix_index.py
index 04910fa..e5e0d34 100644
--- a/magpie/pixel/healpix_index.py
+++ b/magpie/pixel/healpix_index.py
@@ -355,8 +355,8 @@ def healpix_ijs_neighbours(istar, jstar, nside):
     istar_neigh[cond] = istar_neigh[cond] + 4*nside
     jstar_neigh[cond] = jstar_neigh[cond] + 4*nside
 
-    istar_neigh = np.unique(istar_neigh)
-    jstar_neigh = np.unique(jstar_neigh)
+    # the same neighbour can be listed twice, so remove repeated (i, j) pairs
+    istar_neigh, jstar_neigh = np.unique([istar_neigh, jstar_neigh], axis=1).astype('int')
     return istar_neigh, jstar_neigh
 
 
-- 
2.43.0


From e56bb5acaebd91f809a8a5b950893ada89fffd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 21/57] fix: get_box missed hidden corners for centers far from
 the box

---
 magpie/pixel/basic_shapes.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/magpie/pixel/basic_shapes.py b/magpie/pixel/basic_shapes.py
index f8a175f..5f0396c 100644
--- a/magpie/pixel/basic_shapes.py
+++ b/magpie/pixel/basic_shapes.py
@@ -162,15 +162,15 @@ def get_box(xmin, xmax, ymin, ymax, zmin, zmax, steps=120,
         xc, yc, zc = corners[:, 0], corners[:, 1], corners[:, 2]
         remove_corner = []
         for i in range(0, len(corners)):
-            xx = np.linspace(0., 1., 100)*(xc[i] - center[0]) + center[0]
-            yy = np.linspace(0., 1., 100)*(yc[i] - center[1]) + center[1]
-            zz = np.linspace(0., 1., 100)*(zc[i] - center[2]) + center[2]
-            condition = np.where((xx > xmin) & (xx < xmax) & (yy > ymin) &
-                                 (yy < ymax) & (zz > zmin) & (zz < zmax))[0]
-            if len(condition) == 0:
-                remove_corner.append(False)
-            else:
+            # a corner is hidden if the line of sight reaches it from inside the
+            # box, i.e. the center is on the inner side of all of its faces.
+            xin = center[0] < xmax if xc[i] == xmax else center[0] > xmin
+            yin = center[1] < ymax if yc[i] == ymax else center[1] > ymin
+            zin = center[2] < zmax if zc[i] == zmax else center[2] > zmin
+            if xin and yin and zin:
                 remove_corner.append(True)
+            else:
+                remove_corner.append(False)
         xnew = []
         ynew = []
         znew = []
-- 
2.43.0


From a2d807f50978d9d9aee8c556618c99291d78d69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 22/57] fix: Monte Carlo get_weights crashed or stored unusable
 indices when pixels overlap equally many cells

---
 magpie/montecarlo/box2ring.py   | 12 ++++++------
 magpie/montecarlo/cube2shell.py | 16 ++++++++--------
 magpie/montecarlo/heal2polar.py |  8 ++++----
 magpie/montecarlo/heal2ring.py  |  8 ++++----
 magpie/utils/__init__.py        |  1 +
 magpie/utils/check.py           | 23 +++++++++++++++++++++++
 6 files changed, 46 insertions(+), 22 deletions(-)

diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index 6461550..e0e2f8e 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -235,14 +235,14 @@ class Box2Ring:
                 _ind_xs.append(ind_x)
                 _ind_ys.append(ind_y)
                 _ind_ws.append(ind_w)
-            ind_xs.append(np.array(_ind_xs, dtype=object))
-            ind_ys.append(np.array(_ind_ys, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+            ind_xs.append(_ind_xs)
+            ind_ys.append(_ind_ys)
+            ind_ws.append(_ind_ws)
             if verbose == True:
                 utils.progress_bar(i, len(self.r2d), explanation='Calculating weights')
-        self.ind_xs = np.array(ind_xs, dtype=object)
-        self.ind_ys = np.array(ind_ys, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_xs = utils.object_array2d(ind_xs)
+        self.ind_ys = utils.object_array2d(ind_ys)
+        self.ind_ws = utils.object_array2d(ind_ws)
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index 8ce32f4..c289b4c 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -166,16 +166,16 @@ class Cube2Shell:
                 _ind_ys.append(ind_y)
                 _ind_zs.append(ind_z)
                 _ind_ws.append(ind_w)
-            ind_xs.append(np.array(_ind_xs, dtype=object))
-            ind_ys.append(np.array(_ind_ys, dtype=object))
-            ind_zs.append(np.array(_ind_zs, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+            ind_xs.append(_ind_xs)
+            ind_ys.append(_ind_ys)
+            ind_zs.append(_ind_zs)
+            ind_ws.append(_ind_ws)
             if verbose == True:
                 utils.progress_bar(i, len(self.rmid), explanation='Calculating weights')
-        self.ind_xs = np.array(ind_xs, dtype=object)
-        self.ind_ys = np.array(ind_ys, dtype=object)
-        self.ind_zs = np.array(ind_zs, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_xs = utils.object_array2d(ind_xs)
+        self.ind_ys = utils.object_array2d(ind_ys)
+        self.ind_zs = utils.object_array2d(ind_zs)
+        self.ind_ws = utils.object_array2d(ind_ws)
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index 65d118d..7da9ed3 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -121,12 +121,12 @@ class Heal2Polar:
                 ind_w = (pix_counts.astype('float'))/float(mc_size)
                 _ind_pixs.append(ind_pix)
                 _ind_ws.append(ind_w)
-            ind_pixs.append(np.array(_ind_pixs, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+            ind_pixs.append(_ind_pixs)
+            ind_ws.append(_ind_ws)
             if verbose == True:
                 utils.progress_bar(i, len(self.x2d), explanation='Calculating weights')
-        self.ind_pixs = np.array(ind_pixs, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_pixs = utils.object_array2d(ind_pixs)
+        self.ind_ws = utils.object_array2d(ind_ws)
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 3c45f8c..4970ab0 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -118,12 +118,12 @@ class Heal2Ring:
                 ind_w = (pix_counts.astype('float'))/float(mc_size)
                 _ind_pixs.append(ind_pix)
                 _ind_ws.append(ind_w)
-            ind_pixs.append(np.array(_ind_pixs, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+            ind_pixs.append(_ind_pixs)
+            ind_ws.append(_ind_ws)
             if verbose == True:
                 utils.progress_bar(i, len(self.alpha2d), explanation='Calculating weights')
-        self.ind_pixs = np.array(ind_pixs, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_pixs = utils.object_array2d(ind_pixs)
+        self.ind_ws = utils.object_array2d(ind_ws)
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/utils/__init__.py b/magpie/utils/__init__.py
index 3743bb2..d372fab 100644
--- a/magpie/utils/__init__.py
+++ b/magpie/utils/__init__.py
@@ -1,3 +1,4 @@
 
 from .check import is_pos_monotonic
+from .check import object_array2d
 from .progress import progress_bar
diff --git a/magpie/utils/check.py b/magpie/utils/check.py
index 3e2346a..e95ae2a 100644
--- a/magpie/utils/check.py
+++ b/magpie/utils/check.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 
 
 def is_pos_monotonic(arr):
@@ -9,3 +11,24 @@ def is_pos_monotonic(arr):
         Array.
     """
     return all(arr[i] <= arr[i + 1] for i in range(len(arr) - 1))
+
+
+def object_array2d(rows):
+    """Stores the elements of a list of lists (e.g. arrays of varying length)
+    in a 2D array of objects, whatever their lengths.
+
+    Parameters
+    ----------
+    rows : list of lists
+        Elements to store.
+
+    Returns
+    -------
+    arr : 2darray
+        Array of objects.
+    """
+    arr = np.empty((len(rows), len(rows[0])), dtype=object)
+    for i in range(0, len(rows)):
+        for j in range(0, len(rows[i])):
+            arr[i, j] = rows[i][j]
+    return arr
-- 
2.43.0


From b2a1151abea12a0ed27317ad53bf467b7391478f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 23/57] fix: Monte Carlo Heal2Ring and Heal2Polar called a
 function that does not exist

---
 magpie/montecarlo/heal2polar.py | 2 +-
 magpie/montecarlo/heal2ring.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index 7da9ed3..bb6fe1d 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -111,7 +111,7 @@ class Heal2Polar:
                 y_max, y_min = self.yedges[i], self.yedges[i+1]
                 y_min = np.pi/2. - y_min
                 y_max = np.pi/2. - y_max
-                x_rand, y_rand = randoms.randoms_sky(mc_size, phi_min=x_min, phi_max=x_max, theta_min=y_min, theta_max=y_max)
+                x_rand, y_rand = randoms.randoms_usphere(mc_size, phi_min=x_min, phi_max=x_max, theta_min=y_min, theta_max=y_max)
                 if self.alpha != 0.:
                     x_rand, y_rand = coords.usphere_spin(x_rand, y_rand, 0., np.pi/2., self.alpha)
                 x_rand, y_rand = coords.usphere_shift(x_rand, y_rand, 0., np.pi/2., self.center[0], self.center[1])
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 4970ab0..b30cc7c 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -107,7 +107,7 @@ class Heal2Ring:
             for j in range(0, len(self.alpha2d[0])):
                 alpha_min, alpha_max = self.alpha_edges[j], self.alpha_edges[j+1]
                 beta_min, beta_max = self.beta_edges[i], self.beta_edges[i+1]
-                beta_rand, alpha_rand = randoms.randoms_sky(mc_size, phi_min=beta_min, phi_max=beta_max,
+                beta_rand, alpha_rand = randoms.randoms_usphere(mc_size, phi_min=beta_min, phi_max=beta_max,
                                                             theta_min=alpha_min, theta_max=alpha_max)
                 if self.beta_shift != 0.:
                     beta_rand, alpha_rand = coords.usphere_spin(beta_rand, alpha_rand, 0., 0., self.beta_shift)
-- 
2.43.0


From 9549b0efc009f9ddc0e32525b0a8db6d30bfe215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 24/57] fix: Heal2Ring and dense grid Heal2Polar called an area
 function that does not exist

---
 magpie/densegrid/heal2polar.py | 2 +-
 magpie/densegrid/heal2ring.py  | 4 ++--
 magpie/montecarlo/heal2ring.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index d0ba898..524e313 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -136,7 +136,7 @@ class Heal2Polar:
         f_box_highres = np.zeros(np.shape(self.rebin_x2d))
         f_box_highres[self.rebin_xind, self.rebin_yind] = f[self.rebin_pix]
         dx = self.rebin_xedges[1] - self.rebin_xedges[0]
-        area = np.array([coords.sky_area(0., dx, self.rebin_yedges[i]+np.pi/2., self.rebin_yedges[i+1]+np.pi/2.) for i in range(0, len(self.rebin_yedges)-1)])
+        area = np.array([coords.usphere_area(0., dx, self.rebin_yedges[i]+np.pi/2., self.rebin_yedges[i+1]+np.pi/2.) for i in range(0, len(self.rebin_yedges)-1)])
         y_bin_weights = area
         _, y_bin_weights_2d = np.meshgrid(self.rebin_xmid, y_bin_weights)
         f_box_highres *= y_bin_weights_2d
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 7f023a0..37ed844 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -135,7 +135,7 @@ class Heal2Ring:
         f_polar_highres = np.zeros(np.shape(self.rebin_alpha2d))
         f_polar_highres[self.rebin_alpha_ind, self.rebin_beta_ind] = f[self.rebin_pix]
         dbeta = self.rebin_beta_edges[1] - self.rebin_beta_edges[0]
-        area = np.array([coords.sky_area(0., dbeta, self.rebin_alpha_edges[i], self.rebin_alpha_edges[i+1]) for i in range(0, len(self.rebin_alpha_edges)-1)])
+        area = np.array([coords.usphere_area(0., dbeta, self.rebin_alpha_edges[i], self.rebin_alpha_edges[i+1]) for i in range(0, len(self.rebin_alpha_edges)-1)])
         alpha_bin_weights = area
         alpha_bin_weights_2d, _ = np.meshgrid(alpha_bin_weights, self.rebin_beta_mid)
         f_polar_highres *= alpha_bin_weights_2d
@@ -216,7 +216,7 @@ class Heal2Ring:
         """
         if self.area2d is None:
             dbeta = self.beta_edges[1] - self.beta_edges[0]
-            area = np.array([coords.sky_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
+            area = np.array([coords.usphere_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
             self.area2d = np.array([area for i in range(0, len(self.beta_edges)-1)])
         if self.pixarea is None:
             self.pixarea = hp.nside2pixarea(self.nside)
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index b30cc7c..a519f6c 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -210,7 +210,7 @@ class Heal2Ring:
         """
         if self.area2d is None:
             dbeta = self.beta_edges[1] - self.beta_edges[0]
-            area = np.array([coords.sky_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
+            area = np.array([coords.usphere_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
             self.area2d = np.array([area for i in range(0, len(self.beta_edges)-1)])
         if self.pixarea is None:
             self.pixarea = hp.nside2pixarea(self.nside)
-- 
2.43.0


From 4d0895205cfcbfeb1d2d7fd3f56d220fb6bdffcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 25/57] fix: Monte Carlo Heal2Ring and Heal2Polar rejected
 every weight map

---
 magpie/montecarlo/heal2polar.py | 2 +-
 magpie/montecarlo/heal2ring.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index bb6fe1d..a44e1d1 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -148,7 +148,7 @@ class Heal2Polar:
         """
         assert len(f) == hp.nside2npix(self.nside), "HEALPix map f is not the correct nside."
         if w is not None:
-            assert np.shape(w) ==hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
+            assert len(w) == hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
         f_box = np.zeros(np.shape(self.x2d))
         for i in range(0, len(self.x2d)):
             for j in range(0, len(self.x2d[0])):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index a519f6c..65ac513 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -145,7 +145,7 @@ class Heal2Ring:
         """
         assert len(f) == hp.nside2npix(self.nside), "HEALPix map f is not the correct nside."
         if w is not None:
-            assert np.shape(w) ==hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
+            assert len(w) == hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
         f_polar = np.zeros(np.shape(self.beta2d))
         for i in range(0, len(self.alpha2d)):
             for j in range(0, len(self.alpha2d[0])):
-- 
2.43.0


From cdfe896b425f1a1654ca051be4a4a00385547f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 26/57] fix: setting up a grid with a single bin along an axis
 crashed

---
 magpie/densegrid/box2ring.py    | 4 ++--
 magpie/densegrid/cube2shell.py  | 2 +-
 magpie/densegrid/heal2ortho.py  | 4 ++--
 magpie/densegrid/heal2polar.py  | 4 ++--
 magpie/densegrid/heal2ring.py   | 4 ++--
 magpie/montecarlo/box2ring.py   | 6 +++---
 magpie/montecarlo/cube2shell.py | 2 +-
 magpie/montecarlo/heal2polar.py | 4 ++--
 magpie/montecarlo/heal2ring.py  | 4 ++--
 9 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 2b94cf7..a1afc28 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -113,8 +113,8 @@ class Box2Ring:
         self.pedges = np.linspace(pmin, pmax, nump+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.pmid = 0.5*(self.pedges[1:] + self.pedges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
-        self.dp = self.pmid[1] - self.pmid[0]
+        self.dr = self.redges[1] - self.redges[0]
+        self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index 3401320..e84640d 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -101,7 +101,7 @@ class Cube2Shell:
         assert rebin_r >= 1, "rebin_r must be greater or equal to 1."
         self.redges = np.linspace(rmin, rmax, numr+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
+        self.dr = self.redges[1] - self.redges[0]
         self.nside = nside
         self.center = center
         self.rebin_shell = rebin_shell
diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index f8b2785..2c2bafc 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -89,8 +89,8 @@ class Heal2Ortho:
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
         self.ymid = 0.5*(self.yedges[1:] + self.yedges[:-1])
-        self.dx = self.xmid[1] - self.xmid[0]
-        self.dy = self.ymid[1] - self.ymid[0]
+        self.dx = self.xedges[1] - self.xedges[0]
+        self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.radius = radius
         self.z2d = coords.ortho2cart(self.x2d, self.y2d, r=self.radius, fill_value=np.nan)
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index 524e313..e730f25 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -94,8 +94,8 @@ class Heal2Polar:
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
         self.ymid = 0.5*(self.yedges[1:] + self.yedges[:-1])
-        self.dx = self.xmid[1] - self.xmid[0]
-        self.dy = self.ymid[1] - self.ymid[0]
+        self.dx = self.xedges[1] - self.xedges[0]
+        self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.center = center
         self.alpha = alpha
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 37ed844..85200d6 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -94,8 +94,8 @@ class Heal2Ring:
         self.beta_edges = np.linspace(beta_min, beta_max, num_beta+1)
         self.alpha_mid = 0.5*(self.alpha_edges[1:] + self.alpha_edges[:-1])
         self.beta_mid = 0.5*(self.beta_edges[1:] + self.beta_edges[:-1])
-        self.dalpha = self.alpha_mid[1] - self.alpha_mid[0]
-        self.dbeta = self.beta_mid[1] - self.beta_mid[0]
+        self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
+        self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.center = center
         self.beta_shift = beta_shift
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index e0e2f8e..15bbb37 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -137,8 +137,8 @@ class Box2Ring:
         self.pedges = np.linspace(pmin, pmax, nump+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.pmid = 0.5*(self.pedges[1:] + self.pedges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
-        self.dp = self.pmid[1] - self.pmid[0]
+        self.dr = self.redges[1] - self.redges[0]
+        self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
@@ -189,7 +189,7 @@ class Box2Ring:
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.pmid = 0.5*(self.pedges[1:] + self.pedges[:-1])
         self.dr = self.redges[1:] - self.redges[:-1]
-        self.dp = self.pmid[1] - self.pmid[0]
+        self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index c289b4c..a0ac674 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -90,7 +90,7 @@ class Cube2Shell:
         assert len(center) == 3, "center list must have length 3."
         self.redges = np.linspace(rmin, rmax, numr+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
+        self.dr = self.redges[1] - self.redges[0]
         self.nside = nside
         self.center = center
 
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index a44e1d1..d491a95 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -81,8 +81,8 @@ class Heal2Polar:
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
         self.ymid = 0.5*(self.yedges[1:] + self.yedges[:-1])
-        self.dx = self.xmid[1] - self.xmid[0]
-        self.dy = self.ymid[1] - self.ymid[0]
+        self.dx = self.xedges[1] - self.xedges[0]
+        self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.center = center
         self.alpha = alpha
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 65ac513..453dbd1 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -79,8 +79,8 @@ class Heal2Ring:
         self.beta_edges = np.linspace(beta_min, beta_max, num_beta+1)
         self.alpha_mid = 0.5*(self.alpha_edges[1:] + self.alpha_edges[:-1])
         self.beta_mid = 0.5*(self.beta_edges[1:] + self.beta_edges[:-1])
-        self.dalpha = self.alpha_mid[1] - self.alpha_mid[0]
-        self.dbeta = self.beta_mid[1] - self.beta_mid[0]
+        self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
+        self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.center = center
         self.beta_shift = beta_shift
-- 
2.43.0


From 7a9abf1aff6afd37179bb49dc8af7a255ddedb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 27/57] fix: dense grid remapping swapped the rebin factors of
 the two axes

---
 magpie/densegrid/box2ring.py   | 8 ++++----
 magpie/densegrid/heal2ortho.py | 8 ++++----
 magpie/densegrid/heal2polar.py | 8 ++++----
 magpie/densegrid/heal2ring.py  | 8 ++++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index a1afc28..6a4133c 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -160,10 +160,10 @@ class Box2Ring:
         rbin_weights = self.rebin_redges[1:]**2 - self.rebin_redges[:-1]**2
         rbin_weights_2d, _ = np.meshgrid(rbin_weights, self.rebin_pmid)
         f_polar_highres *= rbin_weights_2d
-        f_polar = np.sum(f_polar_highres.reshape(len(self.r2d), self.rebin_r, len(self.rebin_p2d[0])), axis=1)
-        f_polar = np.mean(f_polar.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_p), axis=2)
-        rbin_weights_2d = np.sum(rbin_weights_2d.reshape(len(self.r2d), self.rebin_r, len(self.rebin_p2d[0])), axis=1)
-        rbin_weights_2d = np.mean(rbin_weights_2d.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_p), axis=2)
+        f_polar = np.sum(f_polar_highres.reshape(len(self.r2d), self.rebin_p, len(self.rebin_p2d[0])), axis=1)
+        f_polar = np.mean(f_polar.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_r), axis=2)
+        rbin_weights_2d = np.sum(rbin_weights_2d.reshape(len(self.r2d), self.rebin_p, len(self.rebin_p2d[0])), axis=1)
+        rbin_weights_2d = np.mean(rbin_weights_2d.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_r), axis=2)
         f_polar /= rbin_weights_2d
         return f_polar
 
diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 2c2bafc..e9f4d8a 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -144,10 +144,10 @@ class Heal2Ortho:
         dx = self.rebin_xedges[1] - self.rebin_xedges[0]
         weights = self.rebin_onsphere
         f_box_highres *= weights
-        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_x, len(self.rebin_x2d[0])), axis=1)
-        f_box = np.sum(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
-        weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_x, len(self.rebin_y2d[0])), axis=1)
-        weights_2d = np.mean(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
+        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
+        f_box = np.sum(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
+        weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
+        weights_2d = np.mean(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         condition = np.where(weights_2d != 0.)
         f_box[condition] /= weights_2d[condition]
         f_box *= self.onsphere
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index e730f25..2a5ff2b 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -140,10 +140,10 @@ class Heal2Polar:
         y_bin_weights = area
         _, y_bin_weights_2d = np.meshgrid(self.rebin_xmid, y_bin_weights)
         f_box_highres *= y_bin_weights_2d
-        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_x, len(self.rebin_x2d[0])), axis=1)
-        f_box = np.mean(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
-        y_bin_weights_2d = np.sum(y_bin_weights_2d.reshape(len(self.x2d), self.rebin_x, len(self.rebin_y2d[0])), axis=1)
-        y_bin_weights_2d = np.mean(y_bin_weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
+        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
+        f_box = np.mean(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
+        y_bin_weights_2d = np.sum(y_bin_weights_2d.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
+        y_bin_weights_2d = np.mean(y_bin_weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         f_box /= y_bin_weights_2d
         return f_box
 
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 85200d6..d2c8161 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -139,10 +139,10 @@ class Heal2Ring:
         alpha_bin_weights = area
         alpha_bin_weights_2d, _ = np.meshgrid(alpha_bin_weights, self.rebin_beta_mid)
         f_polar_highres *= alpha_bin_weights_2d
-        f_polar = np.sum(f_polar_highres.reshape(len(self.alpha2d), self.rebin_alpha, len(self.rebin_beta2d[0])), axis=1)
-        f_polar = np.mean(f_polar.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_beta), axis=2)
-        alpha_bin_weights_2d = np.sum(alpha_bin_weights_2d.reshape(len(self.alpha2d), self.rebin_alpha, len(self.rebin_beta2d[0])), axis=1)
-        alpha_bin_weights_2d = np.mean(alpha_bin_weights_2d.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_beta), axis=2)
+        f_polar = np.sum(f_polar_highres.reshape(len(self.alpha2d), self.rebin_beta, len(self.rebin_beta2d[0])), axis=1)
+        f_polar = np.mean(f_polar.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_alpha), axis=2)
+        alpha_bin_weights_2d = np.sum(alpha_bin_weights_2d.reshape(len(self.alpha2d), self.rebin_beta, len(self.rebin_beta2d[0])), axis=1)
+        alpha_bin_weights_2d = np.mean(alpha_bin_weights_2d.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_alpha), axis=2)
         f_polar /= alpha_bin_weights_2d
         return f_polar
 
-- 
2.43.0


From e6ccc9e84f0e95937d9aa51394c6fa68df64c45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 28/57] fix: dense grid Heal2Ortho scaled the remapped values
 by the rebin factor

---
 magpie/densegrid/heal2ortho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index e9f4d8a..5a9a77e 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -145,7 +145,7 @@ class Heal2Ortho:
         weights = self.rebin_onsphere
         f_box_highres *= weights
         f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
-        f_box = np.sum(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
+        f_box = np.mean(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
         weights_2d = np.mean(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         condition = np.where(weights_2d != 0.)
-- 
2.43.0


From 3a60e3201f7a150bba578d28fbb6c00b8a030100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 29/57] fix: dense grid Cube2Shell indexed the data with x and
 y swapped relative to its own grid

---
 magpie/densegrid/cube2shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index e84640d..9a003b9 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -151,7 +151,7 @@ class Cube2Shell:
                 yind = np.floor(yind).astype(int)
                 zind = np.floor(zind).astype(int)
                 condition = np.where((xind >= 0) & (xind < len(self.xmid)) & (yind >= 0) & (yind < len(self.ymid)) & (zind >= 0) & (zind < len(self.zmid)))[0]
-                f_shell_highres[pix[condition]] = f[xind[condition], yind[condition], zind[condition]]
+                f_shell_highres[pix[condition]] = f[yind[condition], xind[condition], zind[condition]]
             f_sphere[i] = hp.ud_grade(f_shell_highres, self.nside)
             if verbose == True:
                 utils.progress_bar(i, len(self.rebin_rmid), explanation='Remapping')
-- 
2.43.0


From 921d3b97da35ecc4dff200128128ec0889ba8624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 30/57] fix: PointOfView.transform crashed on single points

---
 magpie/densegrid/pointofview.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/magpie/densegrid/pointofview.py b/magpie/densegrid/pointofview.py
index e43db72..ea6cb6b 100644
--- a/magpie/densegrid/pointofview.py
+++ b/magpie/densegrid/pointofview.py
@@ -69,7 +69,6 @@ class PointOfView:
             phi, theta = coords.usphere_spin(phi, theta, 0., np.pi/2., self.spin)
         dx, dy, dz = coords.sphere2cart(r, phi, theta)
         f = self.display/dx
-        condition = np.where(f >= 1.)[0]
         bx = dy*f
         by = dz*f
         dist = np.sqrt(dx**2. + dy**2. + dz**2.)
-- 
2.43.0


From af5c2ddcb1c91468c69ad968c5fcaa9a116ee783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 31/57] fix: PointOfView.reverse crashed whenever a spin was
 set

---
 magpie/densegrid/pointofview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/pointofview.py b/magpie/densegrid/pointofview.py
index ea6cb6b..7426f5b 100644
--- a/magpie/densegrid/pointofview.py
+++ b/magpie/densegrid/pointofview.py
@@ -102,7 +102,7 @@ class PointOfView:
         dz = by / f
         r, phi, theta = coords.cart2sphere(dx, dy, dz)
         if self.spin != 0.:
-            phi, theta = coords.usphere_spin(phi, theta, 0., np.pi/2., -self.spin)
+            phi, theta = coords.usphere_spin(phi, theta, 0., np.pi/2., 2.*np.pi - self.spin)
         phi = coords.usphere_phi_shift(phi, self.phi_point_towards)
         if self.theta_point_towards != np.pi/2.:
             phi, theta = coords.usphere_rotate(phi, theta, self.phi_point_towards, self.theta_point_towards, phi_start=self.phi_point_towards, theta_start=np.pi/2.)
-- 
2.43.0


From e1c7b758067c3922647b3c76e06dd319af9fd304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 32/57] fix: Box2Ring.polar2radial kept pixels partly outside
 the box and overwrote the caller weights

---
 magpie/densegrid/box2ring.py  | 9 +++++----
 magpie/montecarlo/box2ring.py | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 6a4133c..406ba75 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -262,17 +262,18 @@ class Box2Ring:
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
         if self.mask_in_bound is None:
             self.get_mask_in_bound(verbose=verbose)
-        if self.mask_in_bound.all() != 1.:
-            condition = np.where(self.mask_in_bound != 1.)
+        condition = np.where(self.mask_in_bound != 1.)
+        if len(condition[0]) > 0:
             f_polar = np.copy(f_polar)
             f_polar[condition] = 0.
             if sigma is not None:
                 sigma = np.copy(sigma)
                 sigma[condition] = 0.
             if w is not None:
-                w *= self.mask_in_bound
+                w = np.copy(w)
             else:
-                w = self.mask_in_bound
+                w = np.ones(np.shape(f_polar))
+            w[condition] = 0.
         if sigma is None:
             f_radial = polar.polar2radial(f_polar, self.area2d, self.pixarea, sigma=sigma, w=w)
             return f_radial
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index 15bbb37..5b4a5c1 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -354,17 +354,18 @@ class Box2Ring:
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
         if self.mask_in_bound is None:
             self.get_mask_in_bound(verbose=verbose)
-        if self.mask_in_bound.all() != 1.:
-            condition = np.where(self.mask_in_bound != 1.)
+        condition = np.where(self.mask_in_bound != 1.)
+        if len(condition[0]) > 0:
             f_polar = np.copy(f_polar)
             f_polar[condition] = 0.
             if sigma is not None:
                 sigma = np.copy(sigma)
                 sigma[condition] = 0.
             if w is not None:
-                w *= self.mask_in_bound
+                w = np.copy(w)
             else:
-                w = self.mask_in_bound
+                w = np.ones(np.shape(f_polar))
+            w[condition] = 0.
         if sigma is None:
             f_radial = polar.polar2radial(f_polar, self.area2d, self.pixarea, sigma=sigma, w=w)
             return f_radial
-- 
2.43.0


From 15ec3510cfaec67bbe134a55419e8cfd8d13bb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 33/57] fix: polar2radial used areas and masks of a previous
 setup of the object

---
 magpie/densegrid/box2ring.py   | 4 ++++
 magpie/densegrid/heal2ring.py  | 2 ++
 magpie/montecarlo/box2ring.py  | 7 +++++++
 magpie/montecarlo/heal2ring.py | 2 ++
 4 files changed, 15 insertions(+)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 406ba75..0e2b94d 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -70,6 +70,8 @@ class Box2Ring:
         self.dx = self.xedges[1] - self.xedges[0]
         self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
+        self.pixarea = None
+        self.mask_in_bound = None
 
 
     def setup_polar(self, rmin, rmax, numr, nump, pmin=0., pmax=2.*np.pi, center=[0., 0.], rebin_r=2, rebin_p=2, phi_shift=0.):
@@ -118,6 +120,8 @@ class Box2Ring:
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
+        self.area2d = None
+        self.mask_in_bound = None
         self.rebin_r = rebin_r
         self.rebin_p = rebin_p
         self.rebin_redges = np.linspace(self.redges[0], self.redges[-1], self.rebin_r*len(self.rmid) + 1)
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index d2c8161..be42e76 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -49,6 +49,7 @@ class Heal2Ring:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        self.pixarea = None
 
 
     def setup_polar_cap(self, alpha_min, alpha_max, num_alpha,
@@ -99,6 +100,7 @@ class Heal2Ring:
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.center = center
         self.beta_shift = beta_shift
+        self.area2d = None
         self.rebin_alpha = rebin_alpha
         self.rebin_beta = rebin_beta
         self.rebin_alpha_edges = np.linspace(self.alpha_edges[0], self.alpha_edges[-1], self.rebin_alpha*len(self.alpha_mid) + 1)
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index 5b4a5c1..c0622ab 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -97,6 +97,8 @@ class Box2Ring:
         self.dx = self.xedges[1] - self.xedges[0]
         self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
+        self.pixarea = None
+        self.mask_in_bound = None
 
 
     def setup_polar_lin(self, rmin, rmax, numr, nump, pmin=0., pmax=2.*np.pi,
@@ -142,6 +144,8 @@ class Box2Ring:
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
+        self.area2d = None
+        self.mask_in_bound = None
 
 
     def setup_polar_log(self, rmin, rmax, numr, nump, pmin=0., pmax=2.*np.pi,
@@ -193,6 +197,8 @@ class Box2Ring:
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
+        self.area2d = None
+        self.mask_in_bound = None
 
 
     def get_weights(self, mc_size=10000, verbose=True):
@@ -240,6 +246,7 @@ class Box2Ring:
             ind_ws.append(_ind_ws)
             if verbose == True:
                 utils.progress_bar(i, len(self.r2d), explanation='Calculating weights')
+        self.mask_in_bound = None
         self.ind_xs = utils.object_array2d(ind_xs)
         self.ind_ys = utils.object_array2d(ind_ys)
         self.ind_ws = utils.object_array2d(ind_ws)
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 453dbd1..8f906ca 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -39,6 +39,7 @@ class Heal2Ring:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        self.pixarea = None
 
 
     def setup_polar_cap(self, alpha_min, alpha_max, num_alpha, num_beta, beta_min=0., beta_max=2.*np.pi,
@@ -84,6 +85,7 @@ class Heal2Ring:
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.center = center
         self.beta_shift = beta_shift
+        self.area2d = None
 
 
     def get_weights(self, mc_size=10000, verbose=True):
-- 
2.43.0


From d4c22e636b75c41340f0a0f6505033ed005b2e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 34/57] fix: Heal2Ortho.transform ignored the radius of the
 projected sphere

---
 magpie/densegrid/heal2ortho.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 5a9a77e..cd27a1c 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -182,9 +182,9 @@ class Heal2Ortho:
     def transform(self, phi, theta):
         """Transforms coordinates from the original Healpix coordinate system to the orthographic projection"""
         if np.isscalar(phi) == True:
-            r = 1.
+            r = self.radius
         else:
-            r = np.ones(len(phi))
+            r = self.radius*np.ones(len(phi))
         phi, theta = coords.usphere_shift(phi, theta, self.center[0], self.center[1], self.end_center[0], self.end_center[1])
         x, y, z = coords.sphere2cart(r, phi, theta)
         if np.isscalar(phi) == True:
-- 
2.43.0


From 81ad63d7f4bcc33e98e714cf85bbfd82097dbc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 35/57] fix: stochastic weights were wrong for arrays of more
 than one dimension

---
 magpie/randoms/subsample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/randoms/subsample.py b/magpie/randoms/subsample.py
index 9f970cc..078a1e4 100644
--- a/magpie/randoms/subsample.py
+++ b/magpie/randoms/subsample.py
@@ -90,7 +90,7 @@ def stochastic_integer_weights(weights):
         if u_r < weights_SI - weights:
             weights_SI = np.floor(weights)
     else:
-        u_r = np.random.random_sample(len(weights))
+        u_r = np.random.random_sample(np.shape(weights))
         weights_SI = np.ceil(weights)
         cond = np.where(u_r < weights_SI - weights)
         weights_SI[cond] = np.floor(weights[cond])
@@ -118,6 +118,6 @@ def stochastic_binary_weights(weights):
         if weights_SI > 1:
             weights_SB = 1
     else:
-        cond = np.where(weights_SI > 1)[0]
+        cond = np.where(weights_SI > 1)
         weights_SB[cond] = 1
     return weights_SB
-- 
2.43.0


From ba8664843fc098bc0f0ab9cae40a1e023d4528a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 36/57] fix: plot_box, plot_circle and plot_polar_box called
 functions that do not exist

---
 magpie/plots/ortho.py  | 2 +-
 magpie/plots/shapes.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/magpie/plots/ortho.py b/magpie/plots/ortho.py
index 7c9352e..a90a844 100644
--- a/magpie/plots/ortho.py
+++ b/magpie/plots/ortho.py
@@ -341,7 +341,7 @@ class PlotOrtho:
             _t1, _t2 = theta_min, theta_max
             theta_min = np.pi/2. - _t2
             theta_max = np.pi/2. - _t1
-        phi_box, theta_box = shapes.get_box(phi_min, phi_max, theta_min, theta_max, divisions=divisions)
+        phi_box, theta_box = pixel.get_square(phi_min, phi_max, theta_min, theta_max, steps=4*divisions)
         x, y = self.heal2ortho.transform(phi_box, theta_box)
         if ax is None:
             plt.plot(x, y, **kwargs)
diff --git a/magpie/plots/shapes.py b/magpie/plots/shapes.py
index b7509f8..d5cfdd6 100644
--- a/magpie/plots/shapes.py
+++ b/magpie/plots/shapes.py
@@ -1,4 +1,4 @@
-import numpy
+import numpy as np
 import matplotlib.pylab as plt
 
 from .. import pixel
@@ -22,7 +22,7 @@ def plot_box(x_min, x_max, y_min, y_max, ax=None, divisions=100, **kwargs):
     divisions : int, optional
         Divisions in each line segment.
     """
-    x, y = shapes.get_box(x_min, x_max, y_min, y_max, divisions=divisions)
+    x, y = pixel.get_square(x_min, x_max, y_min, y_max, steps=4*divisions)
     if ax is None:
         plt.plot(x, y, **kwargs)
     else:
@@ -43,7 +43,7 @@ def plot_circle(radius=1., center=[0., 0.], length=1000, ax=None, **kwargs):
     ax : class, optional
         Axis to plot on.
     """
-    x, y = shapes.get_circle(radius, center=center, length=length)
+    x, y = pixel.get_arc(radius, center=center, steps=length)
     if ax is None:
         plt.plot(x, y, **kwargs)
     else:
-- 
2.43.0


From 74cd7c64fa4c822538dbee07367e6912fbfb8bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 37/57] fix: plot_labels called a function that does not exist
 and left some labels in radians

---
 magpie/plots/ortho.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/magpie/plots/ortho.py b/magpie/plots/ortho.py
index a90a844..07bb369 100644
--- a/magpie/plots/ortho.py
+++ b/magpie/plots/ortho.py
@@ -206,7 +206,7 @@ class PlotOrtho:
                 condition = np.where((theta_grid >= theta.min()) & (theta_grid <= theta.max()))[0]
                 f = interpolate.interp1d(theta, y)
                 y_ticks = f(theta_grid[condition])
-                y_labels = coords.polar2lonlat(theta_grid[condition])
+                y_labels = np.rad2deg(coords.sphere2lonlat(theta_grid[condition]))
             else:
                 if inbetween == 'min':
 
@@ -215,14 +215,14 @@ class PlotOrtho:
                     condition = np.where((theta_grid >= theta1.min()) & (theta_grid <= theta1.max()))[0]
                     f = interpolate.interp1d(theta1, y1)
                     y_ticks1 = f(theta_grid[condition])
-                    y_labels1 = coords.polar2lonlat(theta_grid[condition])
+                    y_labels1 = coords.sphere2lonlat(theta_grid[condition])
 
                     y2, theta2 = y[np.argmin(theta):-1], theta[np.argmin(theta):-1]
 
                     condition = np.where((theta_grid >= theta2.min()) & (theta_grid <= theta2.max()))[0]
                     f = interpolate.interp1d(theta2, y2)
                     y_ticks2 = f(theta_grid[condition])
-                    y_labels2 = coords.polar2lonlat(theta_grid[condition])
+                    y_labels2 = coords.sphere2lonlat(theta_grid[condition])
 
                 elif inbetween == 'max':
 
@@ -231,14 +231,14 @@ class PlotOrtho:
                     condition = np.where((theta_grid >= theta1.min()) & (theta_grid <= theta1.max()))[0]
                     f = interpolate.interp1d(theta1, y1)
                     y_ticks1 = f(theta_grid[condition])
-                    y_labels1 = coords.polar2lonlat(theta_grid[condition])
+                    y_labels1 = coords.sphere2lonlat(theta_grid[condition])
 
                     y2, theta2 = y[np.argmax(theta):-1], theta[np.argmax(theta):-1]
 
                     condition = np.where((theta_grid >= theta2.min()) & (theta_grid <= theta2.max()))[0]
                     f = interpolate.interp1d(theta2, y2)
                     y_ticks2 = f(theta_grid[condition])
-                    y_labels2 = coords.polar2lonlat(theta_grid[condition])
+                    y_labels2 = coords.sphere2lonlat(theta_grid[condition])
                 y_ticks = np.concatenate([y_ticks1, y_ticks2])
                 y_labels = np.rad2deg(np.concatenate([y_labels1, y_labels2]))
             y_labels = np.round(y_labels, decimals=0).astype('int')
-- 
2.43.0


From c5d46a936fb2c3b7338f9b0e470664cef1439170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:48 +0000
Subject: [PATCH 38/57] fix: rebin_1d weighted bins of different lengths
 equally instead of by their overlap

---
 magpie/one_d/one_d.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 8ead976..8dec2c4 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -84,8 +84,8 @@ def _rebin_1d_single_bin(bin_edges, data, bin_min, bin_max):
     elif len(condition) == 1:
         # To ensure we are not looking at the edges
         if condition[0] > 0 and condition[0] < len(bin_edges)-1:
-            w1 = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
-            w2 = (bin_max - bin_edges[condition[0]])/(bin_edges[condition[0]+1] - bin_edges[condition[0]])
+            w1 = bin_edges[condition[0]] - bin_min
+            w2 = bin_max - bin_edges[condition[0]]
             return (w1*data[condition[0]-1] + w2*data[condition[0]])/(w1+w2)
         # To deal with edges
         elif condition[0] == 0:
@@ -109,6 +109,8 @@ def _rebin_1d_single_bin(bin_edges, data, bin_min, bin_max):
         if condition[-1] != len(bin_edges)-1:
             # Alter last weight to account for the fact that the new bin intesrsects the last bin.
             w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]+1] - bin_edges[condition[-1]])
+        # weight by length, as the bins do not need to have the same length
+        w *= (bin_edges[1:] - bin_edges[:-1])[index]
         return np.sum(w*data[index])/np.sum(w)
 
 
@@ -142,10 +144,9 @@ def _rebin_1d_single_bin_sigma(bin_edges, sigma, bin_min, bin_max):
     elif len(condition) == 1:
         # To ensure we are not looking at the edges
         if condition[0] > 0 and condition[0] < len(bin_edges)-1:
-            w1 = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
-            w2 = (bin_max - bin_edges[condition[0]])/(bin_edges[condition[0]+1] - bin_edges[condition[0]])
             l1 = bin_edges[condition[0]] - bin_min
             l2 = bin_max - bin_edges[condition[0]]
+            w1, w2 = l1, l2
             if l1 != 0:
                 new_sigma = (lengths[condition[0]-1]/l1)*(w1*sigma[condition[0]-1])**2.
             else:
@@ -194,8 +195,8 @@ def _rebin_1d_single_bin_sigma(bin_edges, sigma, bin_min, bin_max):
             length[-1] = bin_max - bin_edges[condition[-1]]
         condition2 = np.where(length > 0.)[0]
         index = index[condition2]
-        w = w[condition2]
         length = length[condition2]
+        w = length
         new_sigma = (w*sigma[index])**2.
         new_sigma *= (lengths[index]/length)
         new_sigma = np.sum(new_sigma)/(np.sum(w)**2.)
-- 
2.43.0


From 0ee437b7e1294a95a4703e272d856a9ea1825a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 39/57] fix: rebin_1d errors truncated partial overlaps when
 the bin edges are integers

---
 magpie/one_d/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 8dec2c4..fc0d281 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -129,7 +129,7 @@ def _rebin_1d_single_bin_sigma(bin_edges, sigma, bin_min, bin_max):
         Maximum edge for the new bin.
     """
     condition = np.where((bin_edges >= bin_min) & (bin_edges <= bin_max))[0]
-    lengths = bin_edges[1:] - bin_edges[:-1]
+    lengths = (bin_edges[1:] - bin_edges[:-1]).astype('float')
     if len(condition) == 0:
         condition1 = np.where((bin_edges >= bin_min))[0]
         if len(condition1) != 0 and len(condition1) != len(bin_edges):
-- 
2.43.0


From aa49938ad2143327c3ff8688d3f717be7087f148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 40/57] fix: rebin_1d with integer data and integer weights
 raised a casting error

---
 magpie/one_d/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index fc0d281..24d8c7c 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -233,7 +233,7 @@ def rebin_1d(bin_edges, data, new_bin_edges, w=None, sigma=None):
         data_new = np.array([_rebin_1d_single_bin(bin_edges, data, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
     else:
         data_new = np.array([_rebin_1d_single_bin(bin_edges, data*w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
-        data_new /= np.array([_rebin_1d_single_bin(bin_edges, w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
+        data_new = data_new/np.array([_rebin_1d_single_bin(bin_edges, w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
     if sigma is not None:
         if w is None:
             sigma_new = np.array([_rebin_1d_single_bin_sigma(bin_edges, sigma, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
-- 
2.43.0


From 3f63964f2b3aabb99199a5282d60b9abd023d515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 41/57] fix: leave no gaps by rounding between periodic images
 in Cube2Shell

---
 magpie/densegrid/cube2shell.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index 9a003b9..a5bab3d 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -32,7 +32,7 @@ class Cube2Shell:
         self.center = None
         self.rebin_shell = None
         self.rebin_r = None
-        self.centers = None
+        self.images = None
         self.rebin_redges = None
         self.rebin_rmid = None
 
@@ -106,14 +106,12 @@ class Cube2Shell:
         self.center = center
         self.rebin_shell = rebin_shell
         self.rebin_r = rebin_r
-        centers = []
+        images = []
         for i in range(periodicx[0], periodicx[1]+1):
             for j in range(periodicy[0], periodicy[1]+1):
                 for k in range(periodicz[0], periodicz[1]+1):
-                    centers.append([center[0] + i*(self.xedges[-1]-self.xedges[0]),
-                                    center[1] + j*(self.yedges[-1]-self.yedges[0]),
-                                    center[2] + k*(self.zedges[-1]-self.zedges[0])])
-        self.centers = centers
+                    images.append([i, j, k])
+        self.images = images
         self.rebin_redges = np.linspace(self.redges[0], self.redges[-1], self.rebin_r*len(self.rmid) + 1)
         self.rebin_rmid = 0.5*(self.rebin_redges[1:] + self.rebin_redges[:-1])
 
@@ -139,17 +137,15 @@ class Cube2Shell:
             pix = np.arange(hp.nside2npix(self.nside*self.rebin_shell))
             theta, phi = hp.pix2ang(self.nside*self.rebin_shell, pix)
             r = np.ones(len(phi))*self.rebin_rmid[i]
-            for j in range(0, len(self.centers)):
-                x, y, z = coords.sphere2cart(r, phi, theta, center=self.centers[j])
-                x -= self.xedges[0]
-                y -= self.yedges[0]
-                z -= self.zedges[0]
-                xind = x / self.dx
-                yind = y / self.dy
-                zind = z / self.dz
-                xind = np.floor(xind).astype(int)
-                yind = np.floor(yind).astype(int)
-                zind = np.floor(zind).astype(int)
+            x, y, z = coords.sphere2cart(r, phi, theta, center=self.center)
+            x0ind = np.floor((x - self.xedges[0]) / self.dx).astype(int)
+            y0ind = np.floor((y - self.yedges[0]) / self.dy).astype(int)
+            z0ind = np.floor((z - self.zedges[0]) / self.dz).astype(int)
+            for j in range(0, len(self.images)):
+                # shifting by whole cells leaves no gaps between neighbouring images.
+                xind = x0ind + self.images[j][0]*len(self.xmid)
+                yind = y0ind + self.images[j][1]*len(self.ymid)
+                zind = z0ind + self.images[j][2]*len(self.zmid)
                 condition = np.where((xind >= 0) & (xind < len(self.xmid)) & (yind >= 0) & (yind < len(self.ymid)) & (zind >= 0) & (zind < len(self.zmid)))[0]
                 f_shell_highres[pix[condition]] = f[yind[condition], xind[condition], zind[condition]]
             f_sphere[i] = hp.ud_grade(f_shell_highres, self.nside)
-- 
2.43.0


From e21c04591c073c753db97aa5d8f72642d71f6176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:53 +0000
Subject: [PATCH 42/57] fix: look up the pixels again in DG Heal2Ring,
 Heal2Polar and Heal2Ortho after a new setup_map

---
 magpie/densegrid/heal2ortho.py | 9 ++++++++-
 magpie/densegrid/heal2polar.py | 9 ++++++++-
 magpie/densegrid/heal2ring.py  | 9 ++++++++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index cd27a1c..f091dbc 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -39,6 +39,8 @@ class Heal2Ortho:
         self.rebin_onsphere = None
         self.rebin_xind = None
         self.rebin_yind = None
+        self.rebin_phi = None
+        self.rebin_theta = None
         self.rebin_pix = None
 
 
@@ -52,6 +54,9 @@ class Heal2Ortho:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        # a grid which is already setup has to look up its pixels in the new map
+        if self.rebin_pix is not None:
+            self.rebin_pix = hp.ang2pix(self.nside, self.rebin_theta, self.rebin_phi)
 
 
     def setup_box(self, x_length, x_grid, center=[0., 0.], y_length=None, y_grid=None,
@@ -123,7 +128,9 @@ class Heal2Ortho:
         zz = self.rebin_z2d.flatten()
         rr, phi, theta = coords.cart2sphere(xx, yy, zz)
         phi, theta = coords.usphere_shift(phi, theta, self.end_center[0], self.end_center[1], self.center[0], self.center[1])
-        self.rebin_pix = hp.ang2pix(self.nside, theta, phi)
+        self.rebin_phi = phi
+        self.rebin_theta = theta
+        self.rebin_pix = hp.ang2pix(self.nside, self.rebin_theta, self.rebin_phi)
 
 
     def _remap(self, f):
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index 2a5ff2b..45350ae 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -33,6 +33,8 @@ class Heal2Polar:
         self.rebin_y2d = None
         self.rebin_xind = None
         self.rebin_yind = None
+        self.rebin_phi = None
+        self.rebin_theta = None
         self.rebin_pix = None
 
 
@@ -46,6 +48,9 @@ class Heal2Polar:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        # a grid which is already setup has to look up its pixels in the new map
+        if self.rebin_pix is not None:
+            self.rebin_pix = hp.ang2pix(self.nside, self.rebin_theta, self.rebin_phi)
 
 
     def setup_box(self, x_length, x_grid, center=[0., 0.], alpha=0., y_length=None, y_grid=None,
@@ -117,7 +122,9 @@ class Heal2Polar:
         if self.alpha != 0.:
             xx, yy = coords.usphere_spin(xx, yy, 0., np.pi/2., self.alpha)
         xx, yy = coords.usphere_shift(xx, yy, 0., np.pi/2., self.center[0], self.center[1])
-        self.rebin_pix = hp.ang2pix(self.nside, yy, xx)
+        self.rebin_phi = xx
+        self.rebin_theta = yy
+        self.rebin_pix = hp.ang2pix(self.nside, self.rebin_theta, self.rebin_phi)
 
 
     def _remap(self, f):
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index be42e76..f713510 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -34,6 +34,8 @@ class Heal2Ring:
         self.rebin_beta2d = None
         self.rebin_alpha_ind = None
         self.rebin_beta_ind = None
+        self.rebin_phi = None
+        self.rebin_theta = None
         self.rebin_pix = None
         self.area2d = None
         self.pixarea = None
@@ -49,6 +51,9 @@ class Heal2Ring:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        # a grid which is already setup has to look up its pixels in the new map
+        if self.rebin_pix is not None:
+            self.rebin_pix = hp.ang2pix(self.nside, self.rebin_theta, self.rebin_phi)
         self.pixarea = None
 
 
@@ -118,7 +123,9 @@ class Heal2Ring:
         else:
             phi, theta = self.rebin_beta2d.flatten(), self.rebin_alpha2d.flatten()
         phi, theta = coords.usphere_shift(phi, theta, 0., 0., self.center[0], self.center[1])
-        self.rebin_pix = hp.ang2pix(self.nside, theta, phi)
+        self.rebin_phi = phi
+        self.rebin_theta = theta
+        self.rebin_pix = hp.ang2pix(self.nside, self.rebin_theta, self.rebin_phi)
 
 
     def _remap(self, f):
-- 
2.43.0


From 2c32a44c2eae5047ed24828090732566b04d0cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:56 +0000
Subject: [PATCH 43/57] fix: forget the Monte Carlo weights of an earlier setup

---
 magpie/montecarlo/box2ring.py   |  9 +++++++++
 magpie/montecarlo/cube2shell.py | 12 ++++++++++++
 magpie/montecarlo/heal2polar.py |  4 ++++
 magpie/montecarlo/heal2ring.py  |  4 ++++
 4 files changed, 29 insertions(+)

diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index c0622ab..4caaf64 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -99,6 +99,9 @@ class Box2Ring:
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.pixarea = None
         self.mask_in_bound = None
+        self.ind_xs = None
+        self.ind_ys = None
+        self.ind_ws = None
 
 
     def setup_polar_lin(self, rmin, rmax, numr, nump, pmin=0., pmax=2.*np.pi,
@@ -146,6 +149,9 @@ class Box2Ring:
         self.phi_shift = phi_shift
         self.area2d = None
         self.mask_in_bound = None
+        self.ind_xs = None
+        self.ind_ys = None
+        self.ind_ws = None
 
 
     def setup_polar_log(self, rmin, rmax, numr, nump, pmin=0., pmax=2.*np.pi,
@@ -199,6 +205,9 @@ class Box2Ring:
         self.phi_shift = phi_shift
         self.area2d = None
         self.mask_in_bound = None
+        self.ind_xs = None
+        self.ind_ys = None
+        self.ind_ws = None
 
 
     def get_weights(self, mc_size=10000, verbose=True):
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index a0ac674..a9103db 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -66,6 +66,10 @@ class Cube2Shell:
         self.dy = self.yedges[1] - self.yedges[0]
         self.dz = self.zedges[1] - self.zedges[0]
         self.x3d, self.y3d, self.z3d = np.meshgrid(self.xmid, self.ymid, self.zmid)
+        self.ind_xs = None
+        self.ind_ys = None
+        self.ind_zs = None
+        self.ind_ws = None
 
 
     def setup_polar_lin(self, rmin, rmax, numr, nside, center=[0., 0., 0.]):
@@ -93,6 +97,10 @@ class Cube2Shell:
         self.dr = self.redges[1] - self.redges[0]
         self.nside = nside
         self.center = center
+        self.ind_xs = None
+        self.ind_ys = None
+        self.ind_zs = None
+        self.ind_ws = None
 
 
     def setup_polar_log(self, rmin, rmax, numr, nside, center=[0., 0., 0.], addzero=True):
@@ -126,6 +134,10 @@ class Cube2Shell:
         self.dr = self.redges[1:] - self.redges[:-1]
         self.nside = nside
         self.center = center
+        self.ind_xs = None
+        self.ind_ys = None
+        self.ind_zs = None
+        self.ind_ws = None
 
 
     def get_weights(self, mc_size=100, verbose=True):
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index d491a95..0832ba6 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -38,6 +38,8 @@ class Heal2Polar:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        self.ind_pixs = None
+        self.ind_ws = None
 
 
     def setup_box(self, x_length, x_grid, center=[0., 0.], alpha=0., y_length=None, y_grid=None):
@@ -86,6 +88,8 @@ class Heal2Polar:
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.center = center
         self.alpha = alpha
+        self.ind_pixs = None
+        self.ind_ws = None
 
 
     def get_weights(self, mc_size=10000, verbose=True):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 8f906ca..3682955 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -40,6 +40,8 @@ class Heal2Ring:
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
         self.pixarea = None
+        self.ind_pixs = None
+        self.ind_ws = None
 
 
     def setup_polar_cap(self, alpha_min, alpha_max, num_alpha, num_beta, beta_min=0., beta_max=2.*np.pi,
@@ -86,6 +88,8 @@ class Heal2Ring:
         self.center = center
         self.beta_shift = beta_shift
         self.area2d = None
+        self.ind_pixs = None
+        self.ind_ws = None
 
 
     def get_weights(self, mc_size=10000, verbose=True):
-- 
2.43.0


From cbd360197e97a7fca30a037c111fe393a8a53657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:14 +0000
Subject: [PATCH 44/57] fix: HEALPix ring indices and pixel numbers exact at
 large nside

---
 magpie/pixel/healpix_index.py | 41 +++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/magpie/pixel/healpix_index.py b/magpie/pixel/healpix_index.py
index e5e0d34..0713159 100644
--- a/magpie/pixel/healpix_index.py
+++ b/magpie/pixel/healpix_index.py
@@ -1,6 +1,27 @@
 import numpy as np
 
 
+def _cap_ring(p):
+    """Returns the ring, counted from the pole, of the pth pixel of a polar cap.
+
+    Parameters
+    ----------
+    p : int
+        Pixel index counted from the pole.
+
+    Returns
+    -------
+    i : int
+        Ring index.
+    """
+    ph = (p+1)/2
+    i = np.floor(np.sqrt(ph - np.sqrt(np.floor(ph)))).astype('int') + 1
+    # remove the rounding error of the square roots
+    i = i + (2*i*(i+1) <= p)
+    i = i - (2*i*(i-1) > p)
+    return i
+
+
 def healpix_pix2ij(p, nside):
     """Returns the healpix ring i and pixel along the ring j.
 
@@ -21,38 +42,34 @@ def healpix_pix2ij(p, nside):
     if np.isscalar(p) == True:
         if p <= 2*nside*(nside+1):
             # top polar cap
-            ph = (p+1)/2
-            i = np.floor(np.sqrt(ph - np.sqrt(np.floor(ph))))+1
+            i = _cap_ring(p)
             j = p + 1 - 2*i*(i-1)
             ringi, ringj = int(i), int(j)
         elif p > 2*nside*(nside+1) and p < 2*nside*(5*nside-1):
             # equatorial sector
             pd = p - 2*nside*(nside-1)
-            i = np.floor(pd/(4*nside)) + nside
+            i = pd//(4*nside) + nside
             j = (pd % (4*nside)) + 1
             ringi, ringj = int(i), int(j)
         elif p >= 2*nside*(5*nside-1) and p <= 12*nside**2:
             # bottom polar cap
-            ph = (12*nside**2 - p)/2
-            i = np.floor(np.sqrt(ph-np.sqrt(np.floor(ph))))+1
+            i = _cap_ring(12*nside**2 - 1 - p)
             j = p + 2*i*(i + 1) + 1 - 12*nside**2
             ringi, ringj = int(4*nside-i), int(j)
     else:
-        i, j = np.zeros(len(p)), np.zeros(len(p))
+        i, j = np.zeros(len(p), dtype='int'), np.zeros(len(p), dtype='int')
         # top polar cap
         cond = np.where(p <= 2*nside*(nside+1))[0]
-        ph = (p[cond]+1)/2
-        i[cond] = np.floor(np.sqrt(ph - np.sqrt(np.floor(ph)))) + 1
+        i[cond] = _cap_ring(p[cond])
         j[cond] = p[cond] + 1 - 2*i[cond]*(i[cond]-1)
         # equatorial sector
         cond = np.where((p > 2*nside*(nside+1)) & (p < 2*nside*(5*nside-1)))[0]
         pd = p[cond] - 2*nside*(nside-1)
-        i[cond] = np.floor(pd/(4*nside)) + nside
+        i[cond] = pd//(4*nside) + nside
         j[cond] = (pd % (4*nside)) + 1
         # bottom polar cap
         cond = np.where((p >= 2*nside*(5*nside-1)) & (p <= 12*nside**2))[0]
-        ph = (12*nside**2 - p[cond])/2
-        i[cond] = np.floor(np.sqrt(ph-np.sqrt(np.floor(ph)))) + 1
+        i[cond] = _cap_ring(12*nside**2 - 1 - p[cond])
         j[cond] = p[cond] + 2*i[cond]*(i[cond] + 1) + 1 - 12*nside**2
         i[cond] = 4*nside - i[cond]
         ringi = i.astype('int')
@@ -90,7 +107,7 @@ def healpix_ij2pix(ringi, ringj, nside):
             p = 12*nside**2 + ringj - 2*i*(i + 1) - 1
         p = int(p)
     else:
-        p = np.zeros(len(ringi))
+        p = np.zeros(len(ringi), dtype='int')
         # top polar cap
         cond = np.where(ringi <= nside)[0]
         p[cond] = 2*ringi[cond]*(ringi[cond] - 1) + ringj[cond] - 1
-- 
2.43.0


From 506e8cecd02b70515c618df1b81c83dbe77500fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:49 +0000
Subject: [PATCH 45/57] fix: Cube2Shell.setup_cube rejects a non-positive numz

---
 magpie/densegrid/cube2shell.py  | 1 +
 magpie/montecarlo/cube2shell.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index a5bab3d..1987b88 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -56,6 +56,7 @@ class Cube2Shell:
         """
         assert numx > 0, "numx must be greater than zero."
         assert numy > 0, "numy must be greater than zero."
+        assert numz > 0, "numz must be greater than zero."
         self.xedges = np.linspace(xmin, xmax, numx+1)
         self.yedges = np.linspace(ymin, ymax, numy+1)
         self.zedges = np.linspace(zmin, zmax, numz+1)
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index a9103db..d2f6dff 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -56,6 +56,7 @@ class Cube2Shell:
         """
         assert numx > 0, "numx must be greater than zero."
         assert numy > 0, "numy must be greater than zero."
+        assert numz > 0, "numz must be greater than zero."
         self.xedges = np.linspace(xmin, xmax, numx+1)
         self.yedges = np.linspace(ymin, ymax, numy+1)
         self.zedges = np.linspace(zmin, zmax, numz+1)
-- 
2.43.0


From 40f31d484ecab0231520e748a080a70312431d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:49 +0000
Subject: [PATCH 46/57] fix: remap rejects fields and weights which do not
 match the grid

---
 magpie/densegrid/box2ring.py    | 2 ++
 magpie/densegrid/cube2shell.py  | 1 +
 magpie/densegrid/heal2ortho.py  | 2 ++
 magpie/densegrid/heal2polar.py  | 2 ++
 magpie/densegrid/heal2ring.py   | 2 ++
 magpie/montecarlo/cube2shell.py | 3 +++
 6 files changed, 12 insertions(+)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 0e2b94d..4cbc2bd 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -190,9 +190,11 @@ class Box2Ring:
         f_polar : 2darray
             Remapped 2d data onto polar coordinate grid.
         """
+        assert np.shape(f) == np.shape(self.x2d), "Shape of f does not match stored cartesian grid."
         if w is None:
             f_polar = self._remap(f)
         else:
+            assert np.shape(w) == np.shape(self.x2d), "Shape of w does not match stored cartesian grid."
             f_polar = self._remap(f*w)/self._remap(w)
         return f_polar
 
diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index 1987b88..6b87586 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -132,6 +132,7 @@ class Cube2Shell:
         f_sphere : 2darray
             Remapped 3d grid data on to spherical polar coordinates (in healpix shells).
         """
+        assert np.shape(f) == np.shape(self.x3d), "Shape of f does not match stored cartesian grid."
         f_sphere = np.zeros((len(self.rebin_rmid), hp.nside2npix(self.nside)))
         for i in range(0, len(self.rebin_rmid)):
             f_shell_highres = np.zeros(hp.nside2npix(self.nside*self.rebin_shell))
diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index f091dbc..fb320d8 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -179,9 +179,11 @@ class Heal2Ortho:
         f_box : 2darray
             Remapped 2d data onto polar coordinate grid.
         """
+        assert len(f) == hp.nside2npix(self.nside), "HEALPix map f is not the correct nside."
         if w is None:
             f_box = self._remap(f)
         else:
+            assert len(w) == hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
             f_box = self._remap(f*w)/self._remap(w)
         return f_box
 
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index 45350ae..e629fb6 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -173,9 +173,11 @@ class Heal2Polar:
         f_box : 2darray
             Remapped 2d data onto polar coordinate grid.
         """
+        assert len(f) == hp.nside2npix(self.nside), "HEALPix map f is not the correct nside."
         if w is None:
             f_box = self._remap(f)
         else:
+            assert len(w) == hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
             f_box = self._remap(f*w)/self._remap(w)
         return f_box
 
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index f713510..0379d7a 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -174,9 +174,11 @@ class Heal2Ring:
         f_polar : 2darray
             Remapped 2d data onto polar coordinate grid.
         """
+        assert len(f) == hp.nside2npix(self.nside), "HEALPix map f is not the correct nside."
         if w is None:
             f_polar = self._remap(f)
         else:
+            assert len(w) == hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
             f_polar = self._remap(f*w)/self._remap(w)
         return f_polar
 
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index d2f6dff..5617f9b 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -208,6 +208,9 @@ class Cube2Shell:
         f_sphere : 2darray
             Remapped 3d grid data on to spherical polar coordinates (in healpix shells).
         """
+        assert np.shape(f) == np.shape(self.x3d), "Shape of f does not match stored cartesian grid."
+        if w is not None:
+            assert np.shape(w) == np.shape(self.x3d), "Shape of w does not match stored cartesian grid."
         f_sphere = np.zeros((len(self.rmid), hp.nside2npix(self.nside)))
         for i in range(0, len(self.rmid)):
             for j in range(0, hp.nside2npix(self.nside)):
-- 
2.43.0


From 7eb28bbf49b51d5395b8e26d73ad95ea094321d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:49 +0000
Subject: [PATCH 47/57] fix: Heal2Ring rejects polar caps beyond the opposite
 pole

---
 magpie/densegrid/heal2ring.py  | 1 +
 magpie/montecarlo/heal2ring.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 0379d7a..807c2f0 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -88,6 +88,7 @@ class Heal2Ring:
         """
         assert alpha_min >= 0., "alpha_min must be greater or equal to zero."
         assert alpha_min < alpha_max, "alpha_min must be smaller than alpha_max."
+        assert alpha_max <= np.pi, "alpha_max must be smaller or equal to pi."
         assert num_alpha > 0, "num_alpha must be greater than zero."
         assert beta_min >= 0., "beta_min must be greater or equal to zero."
         assert beta_min < 2.*np.pi, "beta_min must be smaller than 2pi."
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 3682955..568f619 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -70,6 +70,7 @@ class Heal2Ring:
         """
         assert alpha_min >= 0., "alpha_min must be greater or equal to zero."
         assert alpha_min < alpha_max, "alpha_min must be smaller than alpha_max."
+        assert alpha_max <= np.pi, "alpha_max must be smaller or equal to pi."
         assert num_alpha > 0, "num_alpha must be greater than zero."
         assert beta_min >= 0., "beta_min must be greater or equal to zero."
         assert beta_min < 2.*np.pi, "beta_min must be smaller than 2pi."
-- 
2.43.0


From d117fe48cb810b9029c54350647a9353d18b4fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:49 +0000
Subject: [PATCH 48/57] fix: dense grids reject rebin factors below 1

---
 magpie/densegrid/box2ring.py   | 2 ++
 magpie/densegrid/heal2ortho.py | 2 ++
 magpie/densegrid/heal2polar.py | 2 ++
 magpie/densegrid/heal2ring.py  | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 4cbc2bd..2e69cc4 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -111,6 +111,8 @@ class Box2Ring:
         assert pmax <= 2.*np.pi, "pmax must be smaller of equal to 2pi."
         assert nump > 0, "nump must be greater than zero."
         assert len(center) == 2, "center list must have length 2."
+        assert rebin_r >= 1, "rebin_r must be greater or equal to 1."
+        assert rebin_p >= 1, "rebin_p must be greater or equal to 1."
         self.redges = np.linspace(rmin, rmax, numr+1)
         self.pedges = np.linspace(pmin, pmax, nump+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index fb320d8..f2c3ef2 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -89,6 +89,8 @@ class Heal2Ortho:
         if y_grid is None:
             y_grid = x_grid
         assert len(center) == 2, "center list must have length 2."
+        assert rebin_x >= 1, "rebin_x must be greater or equal to 1."
+        assert rebin_y >= 1, "rebin_y must be greater or equal to 1."
         # compute grid info
         self.xedges = np.linspace(-x_length/2., x_length/2., x_grid+1)
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index e629fb6..e412f01 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -94,6 +94,8 @@ class Heal2Polar:
         else:
             assert y_grid > 0, "y_grid must be greater than zero."
         assert len(center) == 2, "center list must have length 2."
+        assert rebin_x >= 1, "rebin_x must be greater or equal to 1."
+        assert rebin_y >= 1, "rebin_y must be greater or equal to 1."
         # compute grid info
         self.xedges = np.linspace(-x_length/2., x_length/2., x_grid+1)
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 807c2f0..5eb4847 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -97,6 +97,8 @@ class Heal2Ring:
         assert beta_max <= 2.*np.pi, "beta_max must be smaller of equal to 2pi."
         assert num_beta > 0, "nump must be greater than zero."
         assert len(center) == 2, "center list must have length 2."
+        assert rebin_alpha >= 1, "rebin_alpha must be greater or equal to 1."
+        assert rebin_beta >= 1, "rebin_beta must be greater or equal to 1."
         self.alpha_edges = np.linspace(alpha_min, alpha_max, num_alpha+1)
         self.beta_edges = np.linspace(beta_min, beta_max, num_beta+1)
         self.alpha_mid = 0.5*(self.alpha_edges[1:] + self.alpha_edges[:-1])
-- 
2.43.0


From ebbc279be8574b7765bc71a31e7b2eea1158a32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:49 +0000
Subject: [PATCH 49/57] fix: Heal2Ortho.setup_box rejects negative lengths and
 a non-positive y_grid

---
 magpie/densegrid/heal2ortho.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index f2c3ef2..589d9e3 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -83,11 +83,16 @@ class Heal2Ortho:
             Radius of sphere.
         """
         # sanity checks
+        assert x_length >= 0., "x_length must be greater or equal to zero."
         assert x_grid > 0, "x_grid must be greater than zero."
         if y_length is None:
             y_length = x_length
+        else:
+            assert y_length >= 0., "y_length must be greater or equal to zero."
         if y_grid is None:
             y_grid = x_grid
+        else:
+            assert y_grid > 0, "y_grid must be greater than zero."
         assert len(center) == 2, "center list must have length 2."
         assert rebin_x >= 1, "rebin_x must be greater or equal to 1."
         assert rebin_y >= 1, "rebin_y must be greater or equal to 1."
-- 
2.43.0


From 56bc67ebd9cfdf57fa5469fe019904a8c4624973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:05 +0000
Subject: [PATCH 50/57] fix: radial profiles reject weights which do not match
 the polar grid

---
 magpie/densegrid/box2ring.py   | 2 ++
 magpie/densegrid/heal2ring.py  | 2 ++
 magpie/montecarlo/box2ring.py  | 2 ++
 magpie/montecarlo/heal2ring.py | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 2e69cc4..fbc9567 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -268,6 +268,8 @@ class Box2Ring:
         if self.pixarea is None:
             self.pixarea = polar.get_pixarea(self.xedges, self.yedges)
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
+        if w is not None:
+            assert np.shape(w) == np.shape(self.p2d), "Shape of w does not match stored polar coordinate grid."
         if self.mask_in_bound is None:
             self.get_mask_in_bound(verbose=verbose)
         condition = np.where(self.mask_in_bound != 1.)
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 5eb4847..832a832 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -235,6 +235,8 @@ class Heal2Ring:
         if self.pixarea is None:
             self.pixarea = hp.nside2pixarea(self.nside)
         assert np.shape(f_polar) == np.shape(self.alpha2d), "Shape of f_polar does not match stored polar-cap coordinate grid."
+        if w is not None:
+            assert np.shape(w) == np.shape(self.alpha2d), "Shape of w does not match stored polar-cap coordinate grid."
         if sigma is None:
             f_radial = polar.polar2radial(f_polar, self.area2d, self.pixarea, sigma=sigma, w=w)
             return f_radial
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index 4caaf64..e744d31 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -368,6 +368,8 @@ class Box2Ring:
         if self.pixarea is None:
             self.pixarea = polar.get_pixarea(self.xedges, self.yedges)
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
+        if w is not None:
+            assert np.shape(w) == np.shape(self.p2d), "Shape of w does not match stored polar coordinate grid."
         if self.mask_in_bound is None:
             self.get_mask_in_bound(verbose=verbose)
         condition = np.where(self.mask_in_bound != 1.)
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 568f619..76fdd15 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -222,6 +222,8 @@ class Heal2Ring:
         if self.pixarea is None:
             self.pixarea = hp.nside2pixarea(self.nside)
         assert np.shape(f_polar) == np.shape(self.alpha2d), "Shape of f_polar does not match stored polar-cap coordinate grid."
+        if w is not None:
+            assert np.shape(w) == np.shape(self.alpha2d), "Shape of w does not match stored polar-cap coordinate grid."
         if sigma is None:
             f_radial = polar.polar2radial(f_polar, self.area2d, self.pixarea, sigma=sigma, w=w)
             return f_radial
-- 
2.43.0


From 9c00ece355f33eb102dabaf72143a64b38caa912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:05 +0000
Subject: [PATCH 51/57] fix: Monte Carlo Cube2Shell rejects invalid nside and
 mc_size like the other classes

---
 magpie/montecarlo/cube2shell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index 5617f9b..0964754 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -92,6 +92,7 @@ class Cube2Shell:
         assert rmin >= 0., "rmin must be greater or equal to zero."
         assert rmin < rmax, "rmin must be smaller than rmax."
         assert numr > 0, "numr must be greater than zero."
+        assert hp.isnsideok(nside) == True, "Incompatible nside."
         assert len(center) == 3, "center list must have length 3."
         self.redges = np.linspace(rmin, rmax, numr+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
@@ -125,6 +126,7 @@ class Cube2Shell:
         assert rmin > 0., "rmin must be greater than zero."
         assert rmin < rmax, "rmin must be smaller than rmax."
         assert numr > 0, "numr must be greater than zero."
+        assert hp.isnsideok(nside) == True, "Incompatible nside."
         assert len(center) == 3, "center list must have length 3."
         if addzero == True:
             self.redges = np.zeros(numr+1)
@@ -153,6 +155,7 @@ class Cube2Shell:
         verbose : bool
             If true will output a progress bar.
         """
+        assert mc_size > 1, "mc_size must be greater than 1, ideally greater than 100."
         ind_xs = []
         ind_ys = []
         ind_zs = []
-- 
2.43.0


From 8327e31142aeced5477be837751800915b4c6f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:15 +0000
Subject: [PATCH 52/57] fix: labels of PlotOrtho keep the decimals asked for

---
 magpie/plots/ortho.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/plots/ortho.py b/magpie/plots/ortho.py
index 07bb369..173c208 100644
--- a/magpie/plots/ortho.py
+++ b/magpie/plots/ortho.py
@@ -138,7 +138,7 @@ class PlotOrtho:
         if onsphere == True:
             for ii in range(0, len(phi_grid)):
                 phi_val = phi_grid[ii]
-                phi_str = r'$ %s ^{\circ}$' % str(np.round(np.rad2deg(phi_val), decimals=decimals))[:-2]
+                phi_str = r'$ %.*f ^{\circ}$' % (max(decimals, 0), np.round(np.rad2deg(phi_val), decimals=decimals))
                 theta_val = zeropoint[1]
                 phi_val -= np.deg2rad(shift[0])
                 x, y = self.heal2ortho.transform(phi_val, theta_val)
@@ -161,7 +161,7 @@ class PlotOrtho:
                 theta_val = theta_grid[ii]
                 if lonlat == True:
                     theta_val = np.pi/2. - theta_val
-                theta_str = r'$ %s ^{\circ}$' % str(np.round(np.rad2deg(theta_val), decimals=decimals))[:-2]
+                theta_str = r'$ %.*f ^{\circ}$' % (max(decimals, 0), np.round(np.rad2deg(theta_val), decimals=decimals))
                 theta_val = theta_grid[ii]
                 phi_val = zeropoint[0]
                 theta_val -= np.deg2rad(shift[1])
-- 
2.43.0


From 70634af4050b39bdc1917e1358e9f8c67704c4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:55 +0000
Subject: [PATCH 53/57] fix: PlotOrtho labels can be rotated when the north
 pole is hidden

---
 magpie/plots/ortho.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/magpie/plots/ortho.py b/magpie/plots/ortho.py
index 173c208..5c92543 100644
--- a/magpie/plots/ortho.py
+++ b/magpie/plots/ortho.py
@@ -135,6 +135,10 @@ class PlotOrtho:
         nlines = int(180/dtheta)
         theta_grid = np.linspace(0., np.pi, nlines + 1)[1:-1]
         xc, yc = self.heal2ortho.transform(0., 0.)
+        if np.isfinite(xc) == False:
+            # the north pole is hidden, it lies opposite to the south pole
+            xc, yc = self.heal2ortho.transform(0., np.pi)
+            xc, yc = -xc, -yc
         if onsphere == True:
             for ii in range(0, len(phi_grid)):
                 phi_val = phi_grid[ii]
-- 
2.43.0


From 73232386fcb0632619925be21d5cfe4cf9bccfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:48 +0000
Subject: [PATCH 54/57] fix: PlotOrtho edge labels stand where the grid lines
 meet the edges

---
 magpie/plots/ortho.py | 139 +++++++++++-------------------------------
 1 file changed, 34 insertions(+), 105 deletions(-)

diff --git a/magpie/plots/ortho.py b/magpie/plots/ortho.py
index 5c92543..0ba01be 100644
--- a/magpie/plots/ortho.py
+++ b/magpie/plots/ortho.py
@@ -1,6 +1,5 @@
 import numpy as np
 import matplotlib.pylab as plt
-import scipy.interpolate as interpolate
 
 from . import shapes as plot_shapes
 from .. import coords
@@ -94,6 +93,36 @@ class PlotOrtho:
                 ax.plot(x, y, color=color, linestyle=linestyle, **kwargs)
 
 
+    def _get_edge_ticks(self, position, angle, angle_grid):
+        """Finds where along an edge of the plot an angle reaches the grid values.
+
+        Parameters
+        ----------
+        position : array
+            Positions along the edge.
+        angle : array
+            Angle at these positions.
+        angle_grid : array
+            Grid values of the angle.
+
+        Returns
+        -------
+        ticks, values : array
+            Positions of the grid values, and the grid values.
+        """
+        # parts of the edge may lie off the sphere, and phi may wrap around
+        condition = np.where(np.isfinite(angle))[0]
+        position, angle = position[condition], np.unwrap(angle[condition])
+        ticks, values = [], []
+        for value in angle_grid:
+            side = angle >= value
+            for i in np.where(side[1:] != side[:-1])[0]:
+                frac = (value - angle[i])/(angle[i+1] - angle[i])
+                ticks.append(position[i] + frac*(position[i+1] - position[i]))
+                values.append(value)
+        return np.array(ticks), np.array(values)
+
+
     def plot_labels(self, dtheta=15., dphi=None, decimals=0, lonlat=False, zeropoint=[0., np.pi/2.],
                     shift=[0., 0.], ax=None, onsphere=False, userotation=False, ha='left', va='top',
                     interpaxis=100, **kwargs):
@@ -196,55 +225,8 @@ class PlotOrtho:
             rr, phi, theta = coords.cart2sphere(x, y, z)
             phi, theta = coords.usphere_shift(phi, theta, self.heal2ortho.end_center[0], self.heal2ortho.end_center[1], self.heal2ortho.center[0], self.heal2ortho.center[1])
 
-            if np.argmax(theta) != 0 and np.argmax(theta) != len(theta)-1:
-                split = True
-                inbetween = 'max'
-            elif np.argmin(theta) != 0 and np.argmin(theta) != len(theta)-1:
-                split = True
-                inbetween = 'min'
-            else:
-                split = False
-                inbetween = None
-
-            if split == False:
-                condition = np.where((theta_grid >= theta.min()) & (theta_grid <= theta.max()))[0]
-                f = interpolate.interp1d(theta, y)
-                y_ticks = f(theta_grid[condition])
-                y_labels = np.rad2deg(coords.sphere2lonlat(theta_grid[condition]))
-            else:
-                if inbetween == 'min':
-
-                    y1, theta1 = y[0:np.argmin(theta)], theta[0:np.argmin(theta)]
-
-                    condition = np.where((theta_grid >= theta1.min()) & (theta_grid <= theta1.max()))[0]
-                    f = interpolate.interp1d(theta1, y1)
-                    y_ticks1 = f(theta_grid[condition])
-                    y_labels1 = coords.sphere2lonlat(theta_grid[condition])
-
-                    y2, theta2 = y[np.argmin(theta):-1], theta[np.argmin(theta):-1]
-
-                    condition = np.where((theta_grid >= theta2.min()) & (theta_grid <= theta2.max()))[0]
-                    f = interpolate.interp1d(theta2, y2)
-                    y_ticks2 = f(theta_grid[condition])
-                    y_labels2 = coords.sphere2lonlat(theta_grid[condition])
-
-                elif inbetween == 'max':
-
-                    y1, theta1 = y[0:np.argmax(theta)], theta[0:np.argmax(theta)]
-
-                    condition = np.where((theta_grid >= theta1.min()) & (theta_grid <= theta1.max()))[0]
-                    f = interpolate.interp1d(theta1, y1)
-                    y_ticks1 = f(theta_grid[condition])
-                    y_labels1 = coords.sphere2lonlat(theta_grid[condition])
-
-                    y2, theta2 = y[np.argmax(theta):-1], theta[np.argmax(theta):-1]
-
-                    condition = np.where((theta_grid >= theta2.min()) & (theta_grid <= theta2.max()))[0]
-                    f = interpolate.interp1d(theta2, y2)
-                    y_ticks2 = f(theta_grid[condition])
-                    y_labels2 = coords.sphere2lonlat(theta_grid[condition])
-                y_ticks = np.concatenate([y_ticks1, y_ticks2])
-                y_labels = np.rad2deg(np.concatenate([y_labels1, y_labels2]))
+            y_ticks, y_labels = self._get_edge_ticks(y, np.where(np.isfinite(z), theta, np.nan), theta_grid)
+            y_labels = np.rad2deg(coords.sphere2lonlat(y_labels))
             y_labels = np.round(y_labels, decimals=0).astype('int')
 
             # Get X-axis
@@ -254,61 +236,8 @@ class PlotOrtho:
             rr, phi, theta = coords.cart2sphere(x, y, z)
             phi, theta = coords.usphere_shift(phi, theta, self.heal2ortho.end_center[0], self.heal2ortho.end_center[1], self.heal2ortho.center[0], self.heal2ortho.center[1])
 
-            if np.argmax(phi) != 0 and np.argmax(phi) != len(phi)-1:
-                split = True
-                inbetween = 'max'
-            elif np.argmin(phi) != 0 and np.argmin(phi) != len(phi)-1:
-                split = True
-                inbetween = 'min'
-            else:
-                split = False
-                inbetween = None
-
-            phi_grid = np.linspace(0., 2.*np.pi, int(360./20.)+1)[:-1]
-
-            if split == False:
-                condition = np.where((phi_grid >= phi.min()) & (phi_grid <= phi.max()))[0]
-
-                f = interpolate.interp1d(phi, x)
-                x_ticks = f(phi_grid[condition])
-                x_labels = np.rad2deg(phi_grid[condition])
-
-            else:
-                if inbetween == 'min':
-
-                    x1, phi1 = x[0:np.argmin(phi)], phi[0:np.argmin(phi)]
-
-                    condition = np.where((phi_grid >= phi1.min()) & (phi_grid <= phi1.max()))[0]
-                    f = interpolate.interp1d(phi1, x1)
-                    x_ticks1 = f(phi_grid[condition])
-                    x_labels1 = phi_grid[condition]
-
-                    x2, phi2 = x[np.argmin(phi):-1], phi[np.argmin(phi):-1]
-
-                    condition = np.where((phi_grid >= phi2.min()) & (phi_grid <= phi2.max()))[0]
-                    f = interpolate.interp1d(phi2, x2)
-                    x_ticks2 = f(phi_grid[condition])
-                    x_labels2 = phi_grid[condition]
-
-                elif inbetween == 'max':
-
-                    x1, phi1 = x[0:np.argmax(phi)], phi[0:np.argmax(phi)]
-
-                    condition = np.where((phi_grid >= phi1.min()) & (phi_grid <= phi1.max()))[0]
-                    f = interpolate.interp1d(phi1, x1)
-                    x_ticks1 = f(phi_grid[condition])
-                    x_labels1 = phi_grid[condition]
-
-                    x2, phi2 = x[np.argmax(phi):-1], phi[np.argmax(phi):-1]
-
-                    condition = np.where((phi_grid >= phi2.min()) & (phi_grid <= phi2.max()))[0]
-                    f = interpolate.interp1d(phi2, x2)
-                    x_ticks2 = f(phi_grid[condition])
-                    x_labels2 = phi_grid[condition]
-
-                x_ticks = np.concatenate([x_ticks1, x_ticks2])
-                x_labels = np.rad2deg(np.concatenate([x_labels1, x_labels2]))
-            x_labels = np.round(x_labels, decimals=0).astype('int')
+            x_ticks, x_labels = self._get_edge_ticks(x, np.where(np.isfinite(z), phi, np.nan), np.concatenate([phi_grid - 2.*np.pi, phi_grid, phi_grid + 2.*np.pi]))
+            x_labels = np.round(np.rad2deg(x_labels), decimals=0).astype('int') % 360
 
             if ax is None:
                 plt.xticks(ticks=x_ticks, labels=x_labels, **kwargs)
-- 
2.43.0


From feddaca4473ff8e82c6ae7a60a4f8649c9f41f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:27 +0000
Subject: [PATCH 55/57] fix: rebin_1d spread NaNs into new bins that only touch
 their bin

---
 magpie/one_d/one_d.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 24d8c7c..64479fc 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -86,6 +86,11 @@ def _rebin_1d_single_bin(bin_edges, data, bin_min, bin_max):
         if condition[0] > 0 and condition[0] < len(bin_edges)-1:
             w1 = bin_edges[condition[0]] - bin_min
             w2 = bin_max - bin_edges[condition[0]]
+            # a bin which only touches does not contribute, even if it is a NaN
+            if w1 == 0 and w2 != 0:
+                return w2*data[condition[0]]/w2
+            elif w2 == 0 and w1 != 0:
+                return w1*data[condition[0]-1]/w1
             return (w1*data[condition[0]-1] + w2*data[condition[0]])/(w1+w2)
         # To deal with edges
         elif condition[0] == 0:
@@ -111,6 +116,9 @@ def _rebin_1d_single_bin(bin_edges, data, bin_min, bin_max):
             w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]+1] - bin_edges[condition[-1]])
         # weight by length, as the bins do not need to have the same length
         w *= (bin_edges[1:] - bin_edges[:-1])[index]
+        # a bin which only touches does not contribute, even if it is a NaN
+        condition2 = np.where(w != 0.)[0]
+        w, index = w[condition2], index[condition2]
         return np.sum(w*data[index])/np.sum(w)
 
 
-- 
2.43.0


From eccedb49231ec5b35be828f41229ae59db49a942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:28 +0000
Subject: [PATCH 56/57] fix: remapping spread NaNs into output cells inside a
 neighbouring input cell

---
 magpie/src/remap_utils.f90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/magpie/src/remap_utils.f90 b/magpie/src/remap_utils.f90
index b8c8f72..cbca98d 100644
--- a/magpie/src/remap_utils.f90
+++ b/magpie/src/remap_utils.f90
@@ -271,6 +271,7 @@ subroutine remap_1d_grid2grid_pixel(x1min, x1max, grid1, x2min, x2max, grid2, wh
           weights(i) = 1.
         else
           weights(i) = 0.
+          pix(i) = -1
         end if
       else
         weights(i) = 0.
-- 
2.43.0


From 0ce92188c45b763073911be17932b17f9e1236b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:45 +0000
Subject: [PATCH 57/57] fix: dense grid Heal2Ortho spread NaNs from subpixels
 off the sphere

---
 magpie/densegrid/heal2ortho.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 589d9e3..65518a9 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -157,7 +157,8 @@ class Heal2Ortho:
         f_box_highres[self.rebin_xind, self.rebin_yind] = f[self.rebin_pix]
         dx = self.rebin_xedges[1] - self.rebin_xedges[0]
         weights = self.rebin_onsphere
-        f_box_highres *= weights
+        # anything which is not on the sphere does not contribute, even if it is a NaN
+        f_box_highres[weights == 0.] = 0.
         f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
         f_box = np.mean(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
-- 
2.43.0

