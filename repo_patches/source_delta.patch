From 83c5c8cd87a21957b6de6d8d382e3498001f2e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:47 +0000
Subject: [PATCH 001/157] fix: findtp with wave definition raised IndexError
 when the threshold removed every cycle

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 296f95f..a486c22 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1489,7 +1489,7 @@ def findtp(x, h=0.0, kind=None, method='clib'):
         ind1 = findrfc(x[ind], h, method)
         ind = ind[ind1]
 
-    if kind in ('mw', 'Mw'):
+    if kind in ('mw', 'Mw') and ind.size > 1:
         # make sure that the first is a Max if wdef == 'Mw'
         # or make sure that the first is a min if wdef == 'mw'
         first_is_max = (x[ind[0]] > x[ind[1]])
-- 
2.43.0


From 9b4c7611a62c2a5f2ababac1ffab933d36c09122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:38 +0000
Subject: [PATCH 002/157] fix: rainflow counting read past the end of short or
 even-length turning point sequences

---
 source/c_library/c_functions.c | 14 +++++++++-----
 src/wafo/_misc_numba.py        |  4 ++--
 src/wafo/misc.py               |  6 ++++--
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/source/c_library/c_functions.c b/source/c_library/c_functions.c
index 352c0ad..708b8e6 100644
--- a/source/c_library/c_functions.c
+++ b/source/c_library/c_functions.c
@@ -17,10 +17,14 @@ void findrfc(double *y1,double hmin, int *ind, int n,int *info) {
    double xminus, xplus, Tpl, Tmi, *y, Tstart;
    int i, j, ix=0, NC, iy;
    info[0] = 0;
+   if (n<2){
+      return; /* No RFC cycles*/
+   }
    if (*(y1+0)> *(y1+1)){
    /* if first is a max , ignore the first max*/
       y=&(*(y1+1));
-      NC=floor((n-1)/2);
+      n=n-1;
+      NC=floor(n/2);
       Tstart=1;
    }
    else {
@@ -34,11 +38,11 @@ void findrfc(double *y1,double hmin, int *ind, int n,int *info) {
    }
 
 
-   if (( *(y+0) > *(y+1)) && ( *(y+1) > *(y+2)) ){
+   if ((2<n) && ( *(y+0) > *(y+1)) && ( *(y+1) > *(y+2)) ){
       info[0] = -1;
       return; /*This is not a sequence of turningpoints, exit */
    }
-   if ((*(y+0) < *(y+1)) && (*(y+1)< *(y+2))){
+   if ((2<n) && (*(y+0) < *(y+1)) && (*(y+1)< *(y+2))){
       info[0]=-1;
       return; /*This is not a sequence of turningpoints, exit */
    }
@@ -49,7 +53,7 @@ void findrfc(double *y1,double hmin, int *ind, int n,int *info) {
       Tmi=Tstart+2*i;
       Tpl=Tstart+2*i+2;
       xminus=*(y+2*i);
-      xplus=*(y+2*i+2);
+      xplus=(2*i+2<n) ? *(y+2*i+2) : xminus;
 
       if(i!=0){
      j=i-1;
@@ -74,7 +78,7 @@ void findrfc(double *y1,double hmin, int *ind, int n,int *info) {
       j=i+1;
       while((j<NC) ) {
      if (*(y+2*j+1) >= *(y+2*i+1)) goto L170;
-     if( (*(y+2*j+2) <= xplus) ){
+     if( (2*j+2<n) && (*(y+2*j+2) <= xplus) ){
         xplus=*(y+2*j+2);
         Tpl=(Tstart+2*j+2);
      }/*if*/
diff --git a/src/wafo/_misc_numba.py b/src/wafo/_misc_numba.py
index 9b3f85c..7c5af98 100644
--- a/src/wafo/_misc_numba.py
+++ b/src/wafo/_misc_numba.py
@@ -172,7 +172,7 @@ def _findrfc(ind, y, h):
         Tmi = t_start + 2 * i
         Tpl = t_start + 2 * i + 2
         xminus = y[2 * i]
-        xplus = y[2 * i + 2]
+        xplus = y[2 * i + 2] if 2 * i + 2 < n else xminus
 
         if(i != 0):
             j = i - 1
@@ -193,7 +193,7 @@ def _findrfc(ind, y, h):
             while (j < nc):
                 if (y[2 * j + 1] >= y[2 * i + 1]):
                     break  # goto L170
-                if((y[2 * j + 2] <= xplus)):
+                if 2 * j + 2 < n and y[2 * j + 2] <= xplus:
                     xplus = y[2 * j + 2]
                     Tpl = (t_start + 2 * j + 2)
                 j += 1
diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index a486c22..06ba340 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1318,6 +1318,8 @@ def findrfc(tp, h=0.0, method='clib'):
     findtp.
     '''
     y = np.atleast_1d(tp).ravel()
+    if y.size < 2:
+        return zeros(0, dtype=int)  # No RFC cycles*/
 
     t_start = int(y[0] > y[1])  # first is a max, ignore it
     y = y[t_start::]
@@ -1327,8 +1329,8 @@ def findrfc(tp, h=0.0, method='clib'):
     if nc < 1:
         return zeros(0, dtype=int)  # No RFC cycles*/
 
-    if (y[0] > y[1] and y[1] > y[2] or
-            y[0] < y[1] and y[1] < y[2]):
+    if n > 2 and (y[0] > y[1] and y[1] > y[2] or
+                  y[0] < y[1] and y[1] < y[2]):
         warnings.warn('This is not a sequence of turningpoints, exit')
         return zeros(0, dtype=int)
 
-- 
2.43.0


From 9f44e88bbef74b88c98c8b753620c2e59fe74bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:38 +0000
Subject: [PATCH 003/157] fix: rainflow filter and ASTM counting rejected
 integer, float32 and read-only signals

---
 src/wafo/_misc_numba.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wafo/_misc_numba.py b/src/wafo/_misc_numba.py
index 7c5af98..67347d5 100644
--- a/src/wafo/_misc_numba.py
+++ b/src/wafo/_misc_numba.py
@@ -241,6 +241,7 @@ def findrfc(y, h, method=0):
     Method 0 and 1 is the same implementation as found in rfcfilter.m in matlab.
     Method 2 is the same implementation as found in findrfc function found in c_functions.c.
     """
+    y = np.array(y, dtype=np.float64)
     n = len(y)
     t = np.zeros(n, dtype=np.int64)
     findrfc_ = [_findrfc_le, _findrfc_lt, _findrfc][method]
@@ -603,14 +604,14 @@ def findrfc_astm(tp, t=None):
         sig_rfc[:,4] cycle_period_time (only if t is given)
     """
 
-    y1 = np.atleast_1d(tp).ravel()
+    y1 = np.array(tp, dtype=np.float64).ravel()
     n = len(y1)
     a = np.zeros(n)
     if t is None:
         sig_rfc = np.zeros((n, 3))
         cnr = _findrfc3_astm(y1, a, sig_rfc)
     else:
-        t1 = np.atleast_1d(t).ravel()
+        t1 = np.array(t, dtype=np.float64).ravel()
         sig_rfc = np.zeros((n, 5))
         t2 = np.zeros(n)
         cnr = _findrfc5_astm(y1, t1, a, t2, sig_rfc)
-- 
2.43.0


From 1ef4dc2b74c97da1e1c77ee247513d669fd663fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:28 +0000
Subject: [PATCH 004/157] fix: cycle matrix placed every cycle one class too
 high and did not sort a reversed first pair

---
 src/wafo/objects.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index 9a494eb..7e997e0 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -1053,15 +1053,15 @@ class CyclePairs(PlotData):
 
         # Make so that minima is in first column
         ix = np.flatnonzero(cp1 > cp2)
-        if np.any(ix):
+        if ix.size > 0:
             cp1[ix], cp2[ix] = cp2[ix], cp1[ix]
 
         # Make discretization
         a, b, n = param
 
         delta = (b - a) / (n - 1)  # Discretization step
-        cp1 = (cp1 - a) / delta + 1
-        cp2 = (cp2 - a) / delta + 1
+        cp1 = (cp1 - a) / delta
+        cp2 = (cp2 - a) / delta
 
         if ddef == 0:
             cp1 = np.clip(np.round(cp1), 0, n - 1)
@@ -1075,7 +1075,7 @@ class CyclePairs(PlotData):
         else:
             raise ValueError('Undefined discretization definition, ddef = {}'.format(ddef))
 
-        if np.any(ix):
+        if ix.size > 0:
             cp1[ix], cp2[ix] = cp2[ix], cp1[ix]
         return np.asarray(cp1, dtype=int), np.asarray(cp2, dtype=int)
 
-- 
2.43.0


From 6f9a6a2dfd868d934c9aac28b34d574f35675923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:28 +0000
Subject: [PATCH 005/157] fix: mctp2tc normalised the caller's frequency matrix
 in place

---
 src/wafo/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/markov.py b/src/wafo/markov.py
index 8383c60..2830831 100644
--- a/src/wafo/markov.py
+++ b/src/wafo/markov.py
@@ -391,7 +391,7 @@ def mctp2tc(f_Mm, utc, param, f_mM=None):
     _check_discretization(param, ntc)
 
     # normalization of frequency matrices
-    f_Mm = _normalize_rows(f_Mm)
+    f_Mm = _normalize_rows(f_Mm * 1.0)
     P = np.fliplr(f_Mm)
     Ph = np.rot90(np.fliplr(f_mM * 1.0), -1)
     Ph = _normalize_rows(Ph)
-- 
2.43.0


From 22745714bc87d8f1feb55f328edd51c1d9f07940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:34 +0000
Subject: [PATCH 006/157] fix: n-dimensional cosine/sine transforms silently
 ignored negative axes

---
 src/wafo/dctpack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/dctpack.py b/src/wafo/dctpack.py
index 2f5e0c2..85c613f 100644
--- a/src/wafo/dctpack.py
+++ b/src/wafo/dctpack.py
@@ -176,7 +176,7 @@ def _get_axes(y, shape, axes):
     if len(axes) != len(shape):
         raise ValueError("when given, axes and shape arguments "
                          "have to be of the same length")
-    return list(axes)
+    return [range(y.ndim)[axis] for axis in axes]
 
 
 def _raw_dctn(y, type, shape, axes, norm, fun):  # @ReservedAssignment
-- 
2.43.0


From 5c1af21d0f14d5fa8c8ea2a7662d16d79bb6f555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:39 +0000
Subject: [PATCH 007/157] fix: findpeaks raised TypeError for rows without
 turning points

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 06ba340..2afda23 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1195,7 +1195,7 @@ def findpeaks(data, n=2, min_h=None, min_p=0.0):
     ind = []
     for iy in range(nrows):  # find all peaks
         tp = findtp(data1[iy], min_h)
-        if len(tp):
+        if tp is not None and len(tp):
             ind = tp[1::2]  # extract indices to maxima only
         else:  # did not find any , try maximum
             ind = np.atleast_1d(data1[iy].argmax())
-- 
2.43.0


From a467f869ece71457f0fba0b67652d2fd483a46eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:39 +0000
Subject: [PATCH 008/157] fix: lazyselect let the last matching condition win
 instead of the first as np.select does

---
 src/wafo/misc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 2afda23..bf29ae9 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -325,8 +325,7 @@ def lazyselect(condlist, choicelist, arrays, default=0):
     arrays = np.broadcast_arrays(*arrays)
     tcode = np.mintypecode([a.dtype.char for a in arrays])
     out = valarray(np.shape(arrays[0]), value=default, typecode=tcode)
-    for index, cond in enumerate(condlist):
-        func = choicelist[index]
+    for cond, func in reversed(list(zip(condlist, choicelist))):
         if np.all(cond is False):
             continue
         cond, _ = np.broadcast_arrays(cond, arrays[0])
-- 
2.43.0


From b45ad48defd8470ffa0801e450deb6ff236cd39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:22 +0000
Subject: [PATCH 009/157] fix: trangood extrapolated upwards from the original
 instead of the resampled points

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index bf29ae9..bf5a3fa 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2476,7 +2476,7 @@ def trangood(x, f, min_n=None, min_x=None, max_x=None, max_n=inf):
 
     if max_x > xo[-1]:
         x1 = dx * np.arange(1, np.ceil((max_x - xo[-1]) / dx) + 1)
-        f2 = f[-1] + x1 * (f[-1] - f[-2]) / (xo[-1] - xo[-2])
+        f2 = fo[-1] + x1 * (fo[-1] - fo[-2]) / (xo[-1] - xo[-2])
         fo = np.hstack((fo, f2))
         xo = np.hstack((xo, x1 + xo[-1]))
 
-- 
2.43.0


From e0a05a0d73c6b371b5ccfbf92b7e6b57154ef1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:42 +0000
Subject: [PATCH 010/157] fix: tranproc used x1*x2 instead of x1*x3 in the
 fourth derivative

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index bf5a3fa..af3d0e1 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2583,7 +2583,7 @@ def tranproc(x, f, x0, *xi):
         """
         return (fxder[3] * xi[0] ** 4. + fxder[0] * xi[3] +
                 6. * fxder[2] * xi[0] ** 2. * xi[1] +
-                fxder[1] * (3. * xi[1] ** 2. + 4. * xi[0] * xi[1]))
+                fxder[1] * (3. * xi[1] ** 2. + 4. * xi[0] * xi[2]))
 
     xo, fo, x0 = np.atleast_1d(x, f, x0)
     xi = np.atleast_1d(*xi)
-- 
2.43.0


From bcec452bfc0c23587c9dc3997328d896a6d7637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:06 +0000
Subject: [PATCH 011/157] fix: TrHermite raised TypeError or checked the wrong
 limits when the cubic is not monotone

---
 src/wafo/transform/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wafo/transform/models.py b/src/wafo/transform/models.py
index b470827..7174c12 100644
--- a/src/wafo/transform/models.py
+++ b/src/wafo/transform/models.py
@@ -7,7 +7,7 @@ TrLinear
 '''
 # !/usr/bin/env python
 from scipy.optimize import brentq  # @UnresolvedImport
-from numpy import (sqrt, atleast_1d, abs, imag, sign, where, cos, arccos, ceil,
+from numpy import (sqrt, atleast_1d, abs, imag, sign, where, cos, arccos,
                    expm1, log1p, pi)
 import numpy as np
 import warnings
@@ -211,12 +211,12 @@ class TrHermite(TrCommon2):
     def _set_x_limit(self, root, polynom):
         """Compute where it is possible to invert the polynomial"""
         if self.kurt <= 3.:
-            self._x_limit = root
+            self._x_limit = self.sigma * root + self.mean
         else:
             self._x_limit = self.sigma * polynom(root) + self.mean
         txt1 = '''
     The polynomial is not a strictly increasing function.
-    The derivative of g(x) is infinite at x = %g''' % self._x_limit
+    The derivative of g(x) is infinite at x = %s''' % self._x_limit
         warnings.warn(txt1)
 
     def _check_monotonicity(self, p):
@@ -344,7 +344,7 @@ class TrHermite(TrCommon2):
             d = sqrt(-p1)
             theta1 = arccos(-q0 / d ** 3) / 3
             th2 = np.r_[0, -2 * pi / 3, 2 * pi / 3]
-            x1 = abs(2 * d * cos(theta1[ceil(len(xn) / 2)] + th2) - x0)
+            x1 = abs(2 * d * cos(theta1[len(xn) // 2] + th2) - x0)
             ix = x1.argmin()  # choose the smallest solution
             return 2. * d * cos(theta1 + th2[ix]) - x0
         else:                # Only one real root exist
-- 
2.43.0


From f7b53c760fb0966be8d45e8c421dde5dc034e3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:10 +0000
Subject: [PATCH 012/157] fix: TrOchi kept using the old parameters after its
 skewness was changed

---
 src/wafo/transform/models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wafo/transform/models.py b/src/wafo/transform/models.py
index 7174c12..847197e 100644
--- a/src/wafo/transform/models.py
+++ b/src/wafo/transform/models.py
@@ -472,6 +472,7 @@ class TrOchi(TrCommon2):
 
         mean1 = self.mean
         sigma1 = self.sigma
+        self._phat_skew = skew
 
         if skew == 0:
             self._phat = [sigma1, mean1, 0, 0, 1, 0]
@@ -513,7 +514,8 @@ class TrOchi(TrCommon2):
         Returns ga, gb, sigma2, mean2
         '''
         if (self._phat is None or self.sigma != self._phat[0] or
-                self.mean != self._phat[1]):
+                self.mean != self._phat[1] or
+                self.skew != self._phat_skew):
             self._par_from_stats()
         # sigma1 = self._phat[0]
         # mean1 = self._phat[1]
-- 
2.43.0


From 1f73f0f0dd2ec3886ed2b0cc79010bb3a4ba1a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:55 +0000
Subject: [PATCH 013/157] fix: TrHermite returned nan where a non-monotone
 cubic has a single real root

---
 src/wafo/transform/models.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/wafo/transform/models.py b/src/wafo/transform/models.py
index 847197e..1822b23 100644
--- a/src/wafo/transform/models.py
+++ b/src/wafo/transform/models.py
@@ -342,11 +342,17 @@ class TrHermite(TrCommon2):
         # q0 = x0**3-1.5*b1*(x0+xn)
         if self._x_limit is not None:  # % Three real roots
             d = sqrt(-p1)
-            theta1 = arccos(-q0 / d ** 3) / 3
+            ratio = -q0 / d ** 3
+            theta1 = arccos(np.clip(ratio, -1, 1)) / 3
             th2 = np.r_[0, -2 * pi / 3, 2 * pi / 3]
             x1 = abs(2 * d * cos(theta1[len(xn) // 2] + th2) - x0)
             ix = x1.argmin()  # choose the smallest solution
-            return 2. * d * cos(theta1 + th2[ix]) - x0
+            # Only one real root exist where abs(ratio) > 1
+            r = np.maximum(abs(ratio), 1)
+            A0 = np.copysign(d * np.cbrt(r + sqrt(r ** 2 - 1)), ratio)
+            return where(abs(ratio) <= 1,
+                         2. * d * cos(theta1 + th2[ix]) - x0,
+                         A0 - p1 / A0 - x0)
         else:                # Only one real root exist
             q1 = sqrt((q0) ** 2 + p1 ** 3)
             # Find the real root of the monic polynomial
-- 
2.43.0


From d4cfadb1da38464f86e3ebced8e969e0acd6d6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:34 +0000
Subject: [PATCH 014/157] fix: TransferFunction ignored g, failed for negative
 frequencies and reshaped the caller's arrays

---
 src/wafo/wave_theory/core.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/wafo/wave_theory/core.py b/src/wafo/wave_theory/core.py
index c0ebefc..20a85c8 100644
--- a/src/wafo/wave_theory/core.py
+++ b/src/wafo/wave_theory/core.py
@@ -324,13 +324,12 @@ class TransferFunction(object):
         '''
         if kw is None:
             # wave number as function of angular frequency
-            kw, unusedkw2 = w2k(w, 0, self.h)
+            kw, unusedkw2 = w2k(w, 0, self.h, self.g)
 
-        w, theta, kw = np.atleast_1d(w, theta, kw)
         # make sure they have the correct orientation
-        theta.shape = (-1, 1)
-        kw.shape = (-1,)
-        w.shape = (-1,)
+        theta = np.reshape(theta, (-1, 1))
+        kw = np.array(kw).ravel()
+        w = np.array(w).ravel()
 
         tran_fun = self._tran_dict[self.sensortype]
         Hw, Gwt = tran_fun(w, theta, kw)
@@ -344,7 +343,7 @@ class TransferFunction(object):
         k0 = np.flatnonzero(sgn < 0)
         if len(k0):  # make sure Hw>=0 ie. transfer negative signs to Gwt
             Gwt[:, k0] = -Gwt[:, k0]
-            Hw[:, k0] = -Hw[:, k0]
+            Hw[k0] = -Hw[k0]
 
         if self.igam == 2:
             # pab 09 Oct.2002: bug fix
-- 
2.43.0


From 724029149278bbf047419c803a1e4bbc534f2004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:53 +0000
Subject: [PATCH 015/157] fix: TransferFunction gave zero pressure and particle
 motion in infinite depth

---
 src/wafo/wave_theory/core.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/wafo/wave_theory/core.py b/src/wafo/wave_theory/core.py
index 20a85c8..d16ea31 100644
--- a/src/wafo/wave_theory/core.py
+++ b/src/wafo/wave_theory/core.py
@@ -371,15 +371,20 @@ class TransferFunction(object):
         ee = exp((1j * (x * cthx + y * cthy)) * kw)
         return ee, cthx, cthy
 
+    def _get_hk(self, kw):
+        if np.isinf(self.h):
+            # deep water: ratios only depend on the difference zk-hk
+            return 1e3 * np.sign(kw)
+        return kw * self.h
+
     def _get_zk(self, kw):
-        h = self.h
         z = self.pos[2]
         if self.igam == 1:
             # z measured positive upward from mean water level (default)
-            zk = kw * (h + z)
+            zk = self._get_hk(kw) + kw * z
         elif self.igam == 2:
             # z measured positive downward from mean water level
-            zk = kw * (h - z)
+            zk = self._get_hk(kw) - kw * z
         else:
             zk = kw * z  # z measured positive upward from sea floor
         return zk
@@ -433,7 +438,7 @@ class TransferFunction(object):
     def _p(self, w, theta, kw):
         ''' pressure fluctuations'''
         ee, unused_cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
+        hk = self._get_hk(kw)
         zk = self._get_zk(kw)
         # hyperbolic_ratio =  cosh(zk)/cosh(hk)
         return self.rho * self.g * hyperbolic_ratio(zk, hk, 1, 1), ee
@@ -442,7 +447,7 @@ class TransferFunction(object):
     def _u(self, w, theta, kw):
         ''' U = x-velocity'''
         ee, cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
+        hk = self._get_hk(kw)
         zk = self._get_zk(kw)
         # w*cosh(zk)/sinh(hk), cos(theta)*ee
         return w * hyperbolic_ratio(zk, hk, 1, -1), cthx * ee
@@ -450,7 +455,7 @@ class TransferFunction(object):
     def _v(self, w, theta, kw):
         '''V = y-velocity'''
         ee, unused_cthx, cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
+        hk = self._get_hk(kw)
         zk = self._get_zk(kw)
         # w*cosh(zk)/sinh(hk), sin(theta)*ee
         return w * hyperbolic_ratio(zk, hk, 1, -1), cthy * ee
@@ -458,7 +463,7 @@ class TransferFunction(object):
     def _w(self, w, theta, kw):
         ''' W = z-velocity'''
         ee, unused_cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
+        hk = self._get_hk(kw)
         zk = self._get_zk(kw)
         # w*sinh(zk)/sinh(hk), -?
         return w * hyperbolic_ratio(zk, hk, -1, -1), -1j * ee
@@ -467,7 +472,7 @@ class TransferFunction(object):
     def _u_t(self, w, theta, kw):
         ''' U_t = x-acceleration'''
         ee, cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
+        hk = self._get_hk(kw)
         zk = self._get_zk(kw)
         # w^2*cosh(zk)/sinh(hk), ?
         return (w ** 2) * hyperbolic_ratio(zk, hk, 1, -1), -1j * cthx * ee
@@ -475,7 +480,7 @@ class TransferFunction(object):
     def _v_t(self, w, theta, kw):
         ''' V_t = y-acceleration'''
         ee, unused_cthx, cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
+        hk = self._get_hk(kw)
         zk = self._get_zk(kw)
         # w^2*cosh(zk)/sinh(hk), ?
         return (w ** 2) * hyperbolic_ratio(zk, hk, 1, -1), -1j * cthy * ee
@@ -483,7 +488,7 @@ class TransferFunction(object):
     def _w_t(self, w, theta, kw):
         ''' W_t = z-acceleration'''
         ee, unused_cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
+        hk = self._get_hk(kw)
         zk = self._get_zk(kw)
         # w*sinh(zk)/sinh(hk), ?
         return (w ** 2) * hyperbolic_ratio(zk, hk, -1, -1), -ee
@@ -492,7 +497,7 @@ class TransferFunction(object):
     def _x_p(self, w, theta, kw):
         ''' X_p = x-displacement'''
         ee, cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
+        hk = self._get_hk(kw)
         zk = self._get_zk(kw)
         # cosh(zk)./sinh(hk), ?
         return hyperbolic_ratio(zk, hk, 1, -1), 1j * cthx * ee
@@ -500,7 +505,7 @@ class TransferFunction(object):
     def _y_p(self, w, theta, kw):
         ''' Y_p = y-displacement'''
         ee, unused_cthx, cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
+        hk = self._get_hk(kw)
         zk = self._get_zk(kw)
         # cosh(zk)./sinh(hk), ?
         return hyperbolic_ratio(zk, hk, 1, -1), 1j * cthy * ee
@@ -508,7 +513,7 @@ class TransferFunction(object):
     def _z_p(self, w, theta, kw):
         ''' Z_p = z-displacement'''
         ee, unused_cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
+        hk = self._get_hk(kw)
         zk = self._get_zk(kw)
         return hyperbolic_ratio(zk, hk, -1, -1), ee  # sinh(zk)./sinh(hk), ee
 
-- 
2.43.0


From 4ef8292e6049d37974dca06c44715466c0dde1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:53 +0000
Subject: [PATCH 016/157] fix: TransferFunction rejected sensor types given by
 number; wave_pressure ignored g

---
 src/wafo/wave_theory/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/wave_theory/core.py b/src/wafo/wave_theory/core.py
index d16ea31..72f50c7 100644
--- a/src/wafo/wave_theory/core.py
+++ b/src/wafo/wave_theory/core.py
@@ -273,7 +273,7 @@ class TransferFunction(object):
                  bet=1, igam=1, thetax=90, thetay=0):
         self.pos = pos
         self.sensortype = sensortype if isinstance(
-            sensortype, str) else sensor_type(sensortype)
+            sensortype, str) else sensor_type(sensortype)[0]
         self.h = h
         self.g = g
         self.rho = rho
@@ -565,7 +565,7 @@ def wave_pressure(z, Hm0, h=10000, g=9.81, rho=1028):
     gam = _MODELS.jonswap_peakfact(Hm0, Tp)
     Tm02 = Tp / (1.30301 - 0.01698 * gam + 0.12102 / gam)
     w = 2 * np.pi / Tm02
-    kw, unused_kw2 = w2k(w, 0, h)
+    kw, unused_kw2 = w2k(w, 0, h, g)
 
     hk = kw * h
     zk1 = kw * z
-- 
2.43.0


From 3b02e89c955baee379a0d6c1aac432a7873a7977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:41 +0000
Subject: [PATCH 017/157] fix: qtf Langley sum-frequency kernel used 2*g
 instead of g**2

---
 src/wafo/spectrum/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index a17248f..65c9e2e 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -193,7 +193,7 @@ def qtf(w, h=inf, g=9.81, method='winterstein', rtol=1e-7, atol=0):
     if method.startswith('langley'):
         p_1 = (-2 * w1p2 * (k12 * g ** 2. - w12 ** 2.) +
                w_1 * (w_2 ** 4. - g ** 2 * k_2 ** 2) +
-               w_2 * (w_1 ** 4 - g * 2. * k_1 ** 2)) / (4. * w12 + _TINY)
+               w_2 * (w_1 ** 4 - g ** 2 * k_1 ** 2)) / (4. * w12 + _TINY)
 
         p_2 = w1p2 ** 2. * cosh((k1p2) * h) - g * (k1p2) * sinh((k1p2) * h)
         p_2 += _TINY * np.int_(p_2 == 0)
-- 
2.43.0


From a82e33ceef406b1a427aff0f39b51b4907d67bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:23 +0000
Subject: [PATCH 018/157] fix: bandwidth returned the peakedness for 'eps4' and
 failed for a scalar factor

---
 src/wafo/spectrum/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 65c9e2e..ae0a3cd 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -3627,9 +3627,9 @@ class SpecData1D(PlotData):
         '''
 
         m = self.moment(nr=4, even=False)[0]
-        if isinstance(factors, str):
+        if isinstance(factors, (str, int)):
             factors = [factors]
-        fact_dict = dict(alpha=0, eps2=1, eps4=3, qp=3, Qp=3)
+        fact_dict = dict(alpha=0, eps2=1, eps4=2, qp=3, Qp=3)
         fact = array([fact_dict.get(idx, idx)
                       for idx in list(factors)], dtype=int)
 
-- 
2.43.0


From 37c77bfaf2d1add71fd210c2f9d49f232a10acd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:24 +0000
Subject: [PATCH 019/157] fix: SpecData1D.sim raised TypeError when derivatives
 were asked for

---
 src/wafo/spectrum/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index ae0a3cd..0cfad5e 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -2691,7 +2691,7 @@ class SpecData1D(PlotData):
         x[:, 0] = linspace(0, T, ns)  # ' %(0:d_t:(np-1)*d_t).'
 
         if derivative:
-            xder = zeros(ns, cases + 1)
+            xder = zeros((ns, cases + 1))
             w = 2. * pi * hstack((0, f, 0., -f[-1::-1]))
             amp = -1j * amp * w[:, newaxis]
             xder[:, 1:(cases + 1)] = fft(amp, axis=0).real
-- 
2.43.0


From 050b69aeaf165f27e88af78b32382dc80282c42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:18 +0000
Subject: [PATCH 020/157] fix: CovData1D.tospecdata added the nugget to the
 object's own data

---
 src/wafo/covariance/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index b460e1e..0177fac 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -239,6 +239,7 @@ class CovData1D(PlotData):
 
         # add a nugget effect to ensure that round off errors
         # do not result in negative spectral estimates
+        acf = acf.copy()
         acf[0] = acf[0] + nugget
         n = acf.size
         # embedding a circulant vector and Fourier transform
-- 
2.43.0


From f11236b37a9d28918232d4f633480016e9053356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:18 +0000
Subject: [PATCH 021/157] fix: CovData1D.sim dropped the first lag when
 mirroring an ACF that ends in zero

---
 src/wafo/covariance/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index 0177fac..daa6ca9 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -390,7 +390,7 @@ class CovData1D(PlotData):
         else:  # ACF(n)==0
             m2 = 2 * n - 2
             nfft = 2 ** nextpow2(max(m2, 2 * ns))
-            acf = r_[acf, zeros((nfft - m2, 1)), acf[n - 1:1:-1, :]]
+            acf = r_[acf, zeros((nfft - m2, 1)), acf[n - 2:0:-1, :]]
 
         # m2=2*n-2
         spec = fft(acf, nfft, axis=0).real  # periodogram
-- 
2.43.0


From 6117d1fbbde3884daae36c04861394d14dcb1cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:18 +0000
Subject: [PATCH 022/157] fix: CovData1D.sim failed when the derivative was
 asked for

---
 src/wafo/covariance/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index daa6ca9..0628aa6 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -441,12 +441,12 @@ class CovData1D(PlotData):
         x[:, 0] = linspace(0, (ns - 1) * dt, ns)  # (0:dt:(dt*(np-1)))'
 
         if derivative:
-            sqrt_spec = sqrt_spec * \
-                r_[0:(nfft / 2 + 1), -(nfft / 2 - 1):0] * 2 * pi / nfft / dt
+            wn = r_[0:(nfft / 2 + 1), -(nfft / 2 - 1):0] * 2 * pi / nfft / dt
+            sqrt_spec = sqrt_spec * wn.reshape(-1, 1)
             ephat = epsi * sqrt_spec  # [:,newaxis]
             y = fft(ephat, nfft, axis=0)
-            xder[:, 1:(cases + 1)] = hstack((y[2:ns + 2, 0:cases2].imag -
-                                             y[2:ns + 2, 0:cases1].real))
+            xder[:, 1:(cases + 1)] = hstack((y[2:ns + 2, 0:cases2].imag,
+                                             -y[2:ns + 2, 0:cases1].real))
             xder[:, 0] = x[:, 0]
 
         if self.tr is not None:
-- 
2.43.0


From 4ae427d81f0e8cbf95f8e3a430babc9eb08e0f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:18 +0000
Subject: [PATCH 023/157] fix: CovData1D.sim raised TypeError for the default
 number of points

---
 src/wafo/covariance/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index 0628aa6..4c53b0d 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -368,6 +368,8 @@ class CovData1D(PlotData):
         acf.shape = (n, 1)
 
         dt = self.sampling_period()
+        if ns is None:
+            ns = n - 1
 
         x = zeros((ns, cases + 1))
 
-- 
2.43.0


From 4b3d6f6e2f03576de7faf7b7f5f8b8309b2b9e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:18 +0000
Subject: [PATCH 024/157] fix: CovData1D.simcond overwrote its inputs and
 failed when more than one window was needed

---
 src/wafo/covariance/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index 4c53b0d..8803160 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -512,7 +512,7 @@ class CovData1D(PlotData):
         start_max = num_x - num_sig
         if (nw == 0) and (num_restored < len(i_unknown)):
             # move to the next missing data
-            start_ix = min(i_unknown[num_restored + 1] - overlap, start_max)
+            start_ix = min(i_unknown[num_restored] - overlap, start_max)
         else:
             start_ix = min(idx[0] + num_acf, start_max)
 
@@ -572,8 +572,8 @@ class CovData1D(PlotData):
         reconstructed data"
         in Proceedings of 9th ISOPE Conference, Vol III, pp 66-73
         """
-        x = atleast_1d(xo).ravel()
-        acf = self._get_acf()
+        x = atleast_1d(xo).flatten()
+        acf = self._get_acf()[:len(x)].copy()
 
         num_x = len(x)
         num_acf = len(acf)
@@ -674,7 +674,7 @@ class CovData1D(PlotData):
                     # removing indices to data which has been simulated
                     mask_unknown[idx[:-overlap]] = False
                     # data we want to simulate once more
-                    nw = sum(mask_unknown[idx[-overlap:]] is True)
+                    nw = mask_unknown[idx[-overlap:]].sum()
                     num_restored += ns - nw  # update # points simulated so far
 
                     idx = self._update_window(idx, i_unknown, num_x, num_acf,
-- 
2.43.0


From 35be6bc79c5736ccce506bd5e711b5424013a255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:18 +0000
Subject: [PATCH 025/157] fix: CovarianceEstimator ignored missing values in
 the mean and failed for unbiased estimates

---
 src/wafo/covariance/estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/covariance/estimation.py b/src/wafo/covariance/estimation.py
index 985cdc5..8454418 100644
--- a/src/wafo/covariance/estimation.py
+++ b/src/wafo/covariance/estimation.py
@@ -132,7 +132,7 @@ class CovarianceEstimator(object):
         n = len(x)
         indnan = np.isnan(x)
         if any(indnan):
-            x = x - x[1 - indnan].mean()
+            x = x - x[~indnan].mean()
             Ncens = n - indnan.sum()
             x[indnan] = 0.
         else:
@@ -148,7 +148,7 @@ class CovarianceEstimator(object):
 
         if self.flag.startswith('unbiased'):
             # unbiased result, i.e. divide by n-abs(lag)
-            auto_cov = auto_cov[:Ncens] * Ncens / np.arange(Ncens, 1, -1)
+            auto_cov = auto_cov[:Ncens] * Ncens / np.arange(Ncens, 0, -1)
 
         if self.norm:
             auto_cov = auto_cov / auto_cov[0]
-- 
2.43.0


From 9a11c075832b11a67d874ccddb699e87d6a08474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:45 +0000
Subject: [PATCH 026/157] fix: SpecData1D.normalize scaled frequency spectra by
 a surplus factor 2*pi

---
 src/wafo/spectrum/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 0cfad5e..ca283fe 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -3584,8 +3584,8 @@ class SpecData1D(PlotData):
         B = SM2 / (SM0 * m0)
 
         if self.freqtype == 'f':
-            self.args = self.args * A / 2 / pi
-            self.data = self.data * B * 2 * pi
+            self.args = self.args * A
+            self.data = self.data * B
         elif self.freqtype == 'w':
             self.args = self.args * A
             self.data = self.data * B
-- 
2.43.0


From 7e9b587de3423c425c20eb4c360ed388d1a00d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:45 +0000
Subject: [PATCH 027/157] fix: SpecData1D.characteristic treated frequencies in
 Hz as angular frequencies

---
 src/wafo/spectrum/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index ca283fe..8183545 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -3778,6 +3778,8 @@ class SpecData1D(PlotData):
         # vari = self.freqtype
         f = self.args.ravel()
         S1 = self.data.ravel()
+        if self.freqtype == 'f':
+            f, S1 = f * 2 * pi, S1 / (2 * pi)  # angular frequency
         m, unused_mtxt = self.moment(nr=4, even=False)
 
         # moments corresponding to freq  in Hz
-- 
2.43.0


From 7dff6f13f7c688475128c4034ab8ef440797f3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:21 +0000
Subject: [PATCH 028/157] fix: changing SpecData1D.freqtype rescaled the
 caller's arrays in place

---
 src/wafo/spectrum/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 8183545..96c7eec 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -727,13 +727,13 @@ class SpecData1D(PlotData):
         if self._freqtype == freqtype:
             return  # do nothind
         if freqtype == 'w' and self._freqtype == 'f':
-            self.args *= 2 * np.pi
-            self.data /= 2 * np.pi
+            self.args = self.args * (2 * np.pi)
+            self.data = self.data / (2 * np.pi)
             self._freqtype = 'w'
             self.setlabels()
         elif freqtype == 'f' and self._freqtype == 'w':
-            self.args /= 2 * np.pi
-            self.data *= 2 * np.pi
+            self.args = self.args / (2 * np.pi)
+            self.data = self.data * (2 * np.pi)
             self._freqtype = 'f'
             self.setlabels()
 
-- 
2.43.0


From 11483eb7654bb794062df060a0b005c4177e6cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:21 +0000
Subject: [PATCH 029/157] fix: tocov_matrix raised TypeError instead of warning
 about a small step

---
 src/wafo/spectrum/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 96c7eec..fb52cb7 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -750,7 +750,7 @@ class SpecData1D(PlotData):
         if self.freqtype in 'f':
             checkdt *= 2 * pi
         if (checkdt < 2. ** -16 / dt):
-            print('Step dt = %g in computation of the density is ' +
+            print('Step dt = %g in computation of the density is '
                   'too small.' % dt)
             print('The computed covariance (by FFT(2^K)) may differ from the')
             print('theoretical. Solution:')
@@ -762,11 +762,11 @@ class SpecData1D(PlotData):
         if nt + 1 >= 5:
             cc2 = acfmat[0, 0] - acfmat[4, 0] * (acfmat[4, 0] / acfmat[0, 0])
             if (cc2 < eps0):
-                warnings.warn('Step dt = %g in computation of the density ' +
+                warnings.warn('Step dt = %g in computation of the density '
                               'is too small.' % dt)
         cc1 = acfmat[0, 0] - acfmat[1, 0] * (acfmat[1, 0] / acfmat[0, 0])
         if (cc1 < eps0):
-            warnings.warn('Step dt = %g is small, and may cause numerical ' +
+            warnings.warn('Step dt = %g is small, and may cause numerical '
                           'inaccuracies.' % dt)
 
     @property
-- 
2.43.0


From c3f9cdd7156b9d58f6ff2e31867cb370f7125732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:27 +0000
Subject: [PATCH 030/157] fix: CovarianceEstimator wrapped the covariance
 around for records longer than half the FFT

---
 src/wafo/covariance/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/estimation.py b/src/wafo/covariance/estimation.py
index 8454418..44f2d5b 100644
--- a/src/wafo/covariance/estimation.py
+++ b/src/wafo/covariance/estimation.py
@@ -141,7 +141,7 @@ class CovarianceEstimator(object):
         if hasattr(detrend, '__call__'):
             x = detrend(x)
 
-        nfft = 2 ** nextpow2(n)
+        nfft = 2 ** nextpow2(2 * n)
         raw_periodogram = abs(fft(x, nfft)) ** 2 / Ncens
         # ifft = fft/nfft since raw_periodogram is real!
         auto_cov = np.real(fft(raw_periodogram)) / nfft
-- 
2.43.0


From 43d7ac2b531e96fa4de2677b4cb3171a7e24fe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:50 +0000
Subject: [PATCH 031/157] fix: CovData1D.simcond failed for a single unknown
 value in a long record

---
 src/wafo/covariance/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index 8803160..a1ff175 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -609,7 +609,7 @@ class CovData1D(PlotData):
             if issparse(sigma):
                 so1 = so1.todense()
                 s11 = s11.todense()
-                s1o_sooinv = spsolve(soo + soo.T, 2 * so1).T
+                s1o_sooinv = spsolve(soo + soo.T, 2 * so1).reshape(so1.shape).T
             else:
                 sooinv_so1, _res, _rank, _s = lstsq(soo + soo.T, 2 * so1,
                                                     cond=1e-4)
-- 
2.43.0


From ea22e46273dcede3b546d6964d1404c6f907472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:59 +0000
Subject: [PATCH 032/157] fix: wrapped normal spreading is evaluated at the
 given angles

---
 src/wafo/spectrum/models.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 1b54893..9e5487e 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1667,18 +1667,10 @@ class Spreading(object):
 
         D1 = par ** 2. / 2.
 
-        ix = arange(1, Nt)
-        ix2 = ix ** 2
-        Nd2 = D1.size
-        Fcof = vstack((ones((1, Nd2)) / 2, exp(-ix2[:, newaxis] * D1))) / pi
-
-        cor = exp(1j * ix[:, newaxis] * TH[0, :])
-        # correction term to get
-        Pcor = vstack((ones((1, TH.shape[1])), cor))
-        # the correct integration limits
-        Fcof = Fcof * Pcor.conj()
-        D = real(fft(Fcof, axis=0))
-        D[D < 0] = 0
+        D = 0.5
+        for n in range(1, Nt):
+            D = D + exp(-n ** 2 * D1) * cos(n * TH)
+        D = maximum(D, 0) / pi
         return D, phi0
 
     def sech2(self, theta, w=1, wc=1):
-- 
2.43.0


From 509cda3295fd748cc58531fd036be3c2ad78c74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:21 +0000
Subject: [PATCH 033/157] fix: sech-2 spreading is uniform when the spreading
 parameter is zero

---
 src/wafo/spectrum/models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 9e5487e..0f9c060 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1698,9 +1698,10 @@ class Spreading(object):
 
         B, TH, phi0 = self.chk_input(theta, w, wc)[:3]
         NB = tanh(pi * B)  # % Normalization factor.
-        NB = where(NB == 0, 1.0, NB)  # Avoid division by zero
+        # BdNB -> 1/pi when B -> 0
+        BdNB = where(NB == 0, 1.0 / pi, B / where(NB == 0, 1.0, NB))
 
-        D = 0.5 * B * sech(B * TH) ** 2. / NB
+        D = 0.5 * BdNB * sech(B * TH) ** 2.
         return D, phi0
 
     def mises(self, theta, w=1, wc=1):
-- 
2.43.0


From 77b44a4375b9f283b3c9c56dddd60ecd5cda8097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:50 +0000
Subject: [PATCH 034/157] fix: donelan and banner spreading parameters

---
 src/wafo/spectrum/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 0f9c060..5478fea 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1899,7 +1899,7 @@ class Spreading(object):
         k = flatnonzero(wn_up < wn)
         s[k] = spb * (wn_up) ** mb
         # Convert to S-paramater in COS-2S distribution
-        r1 = self.r1ofsech2(s)
+        r1 = self._r1ofsech2(s)
         s = r1 / (1. - r1)
         return s
 
@@ -1912,8 +1912,8 @@ class Spreading(object):
         s3p = self._donelan(wn_up)
         #  Scale so that parametrization will be continous
         scale = s3m / s3p
-        s[k] = scale * self.donelan(wn[k])
-        r1 = self.r1ofsech2(s)
+        s[k] = scale * self._donelan(wn[k])
+        r1 = self._r1ofsech2(s)
         # Convert to S-paramater in COS-2S distribution
         s = r1 / (1. - r1)
 
@@ -1978,7 +1978,7 @@ class Spreading(object):
         """ R1OFSECH2   Computes R1 = pi./(2*B.*sinh(pi./(2*B)))
         """
         realmax = finfo(float).max
-        tiny = 1. / realmax
+        tiny = 4. / realmax  # pi / tiny must not overflow
         x = clip(2. * B, tiny, realmax)
         xk = pi / x
         return where(x < 100., xk / sinh(xk),
-- 
2.43.0


From b810413451bd26bf3412d10cb7550e44bd9d7359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:51 +0000
Subject: [PATCH 035/157] fix: accept the documented spreading names 'Box-car'
 and 'Poisson'

---
 src/wafo/spectrum/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 5478fea..ccf81a3 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1537,7 +1537,7 @@ class Spreading(object):
             raise ValueError(msg.format(method, str(methods.keys())))
 
     def __call__(self, theta, w=1, wc=1):
-        spreadfun = self._spreadfun[self.type[0]]
+        spreadfun = self._spreadfun[self.type[0].lower()]
         return spreadfun(theta, w, wc)
 
     def _normalize_angle(self, wn, theta, th0):
@@ -1788,7 +1788,7 @@ class Spreading(object):
                  sech-2 spreading   : R1 = pi/(2*B*sinh(pi/(2*B))
                  Wrapped Normal     : R1 = exp(-D1^2/2)
         """
-        fourierfun = self._fourierdispatch.get(self.type[0])
+        fourierfun = self._fourierdispatch.get(self.type[0].lower())
         return fourierfun(r1)
 
     @staticmethod
@@ -1956,7 +1956,7 @@ class Spreading(object):
         if np.any(s < 0):
             raise ValueError('The COS2S spread parameter, S(w), ' +
                              'value must be larger than 0')
-        if self.type[0] == 'c':  # cos2s
+        if self.type[0].lower() == 'c':  # cos2s
             s_par = s
         else:
             # First Fourier coefficient of the directional spreading function.
-- 
2.43.0


From bf0d3e203a8c58b4081af8c97156052c98a848c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:51 +0000
Subject: [PATCH 036/157] fix: McCormick and Torsethaugen spectra of a calm sea
 (Hm0=0)

---
 src/wafo/spectrum/models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index ccf81a3..48528bb 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -929,6 +929,9 @@ class Torsethaugen(ModelSpectrum):
         monitor = 0
         Hm0 = self.Hm0
         Tp = self.Tp
+        if Hm0 == 0:
+            self.wind = self.swell = Bretschneider(Hm0, Tp, chk_seastate=False)
+            return
         gravity1 = self.gravity  # m/s**2
 
         min = minimum  # @ReservedAssignment
@@ -1110,7 +1113,7 @@ class McCormick(Bretschneider):
             Tz = 0.8143 * Tp
         self.Tz = Tz
 
-        if M is None and Hm0 > 0:
+        if M is None:
             self._TpdTz = Tp / Tz
             M = 1.0 / optimize.fminbound(self._localoptfun, 0.01, 5)
         N = M + 1.0
-- 
2.43.0


From 14b86ced84d1f56858ab70cbf0f4039b11a89dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:51 +0000
Subject: [PATCH 037/157] fix: Torsethaugen ignored its wnc argument

---
 src/wafo/spectrum/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 48528bb..25c6a21 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1052,9 +1052,9 @@ class Torsethaugen(ModelSpectrum):
         # G0s=Ms/((Ns/Ms)**(-(Ns-1)/Ms)*gamma((Ns-1)/Ms )) #normalizing factor
 
         self.wind = Jonswap(Hm0=Hpw, Tp=Tpw, gamma=gammaw, N=Nw, M=Mw,
-                            method=self.method, chk_seastate=False)
+                            method=self.method, wnc=self.wnc, chk_seastate=False)
         self.swell = Jonswap(Hm0=Hps, Tp=Tps, gamma=gammas, N=Ns, M=Ms,
-                             method=self.method, chk_seastate=False)
+                             method=self.method, wnc=self.wnc, chk_seastate=False)
 
 
 class McCormick(Bretschneider):
-- 
2.43.0


From 85dc78205c7fda363694379df5b6c1437a72e7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:00 +0000
Subject: [PATCH 038/157] fix: gridcount failed for data on the upper end of
 the grid

---
 src/wafo/kdetools/gridding.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/kdetools/gridding.py b/src/wafo/kdetools/gridding.py
index f1bf7f7..6055fc1 100644
--- a/src/wafo/kdetools/gridding.py
+++ b/src/wafo/kdetools/gridding.py
@@ -353,6 +353,7 @@ def gridcount(data, X, y=1):
 
     dx = np.diff(x[:, :2], axis=1)
     binx = np.asarray(np.floor((dataset - xlo[:, np.newaxis]) / dx), dtype=int)
+    binx = binx.clip(max=inc - 2)  # data on the upper limit
     w = dx.prod()
     if d == 1:
         return _gridcount_1d(acfun, dataset, x, y, w, binx, inc)
-- 
2.43.0


From 913080207e9239782234a4fd2b59b316ef019e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:00 +0000
Subject: [PATCH 039/157] fix: gridcount reshaped the caller's grid

---
 src/wafo/kdetools/gridding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/kdetools/gridding.py b/src/wafo/kdetools/gridding.py
index 6055fc1..c8aa4c4 100644
--- a/src/wafo/kdetools/gridding.py
+++ b/src/wafo/kdetools/gridding.py
@@ -260,7 +260,7 @@ def _gridcount_nd(acfun, data, x, y, w, binx):
 
 
 def _gridcount_1d(acfun, data, x, y, w, binx, inc):
-    x.shape = -1,
+    x = x.ravel()
     c = (acfun(binx, (x[binx + 1] - data) * y, shape=(inc, )) +
          acfun(binx + 1, (data - x[binx]) * y, shape=(inc, ))).ravel()
     return c / w
-- 
2.43.0


From 1bc18dee96cc4f38b01c5f8a6445027890295605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:00 +0000
Subject: [PATCH 040/157] fix: accumsum_sparse failed for one-dimensional maps

---
 src/wafo/kdetools/gridding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/kdetools/gridding.py b/src/wafo/kdetools/gridding.py
index c8aa4c4..29a8cd5 100644
--- a/src/wafo/kdetools/gridding.py
+++ b/src/wafo/kdetools/gridding.py
@@ -63,9 +63,9 @@ def accumsum_sparse(accmap, a, shape=None, dtype=None):
             (a.ravel(), (binx, biny)), shape=shape, dtype=dtype).tocsr()
     else:
         binx = accmap.ravel()
-        zero = np.zeros(len(binx))
+        zero = np.zeros(len(binx), dtype=int)
         out = sparse.coo_matrix(
-            (a.ravel(), (binx, zero)), shape=(shape, 1), dtype=dtype).tocsr().T
+            (a.ravel(), (binx, zero)), shape=(shape[0], 1), dtype=dtype).tocsr().T
     return out
 
 
-- 
2.43.0


From 8ffd55845f8343ca166d984eef3f74560e44f01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:00 +0000
Subject: [PATCH 041/157] fix: TKDE truncated the transformed values of integer
 data

---
 src/wafo/kdetools/kdetools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index 4ba360a..b647ce2 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -390,7 +390,7 @@ class TKDE(_KDE):
 
         L2 = np.atleast_1d(self.L2) * np.ones(self.d)
 
-        tpoints = copy.copy(points)
+        tpoints = copy.copy(points) if isinstance(points, list) else np.array(points, dtype=float)
         for i, v2 in enumerate(L2.tolist()):
             tpoints[i] = np.log(points[i]) if v2 == 0 else points[i] ** v2
         return tpoints
-- 
2.43.0


From 1e0411ef79543d304413276a8591c429672556b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:00 +0000
Subject: [PATCH 042/157] fix: TKDE dropped the weights and moment order, so
 that transformed kernel regression was constant

---
 src/wafo/kdetools/kdetools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index b647ce2..4e09b66 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -450,7 +450,7 @@ class TKDE(_KDE):
             self.args = self.tkde.args
             return f
         targs = self._get_targs(args)
-        tf = self.tkde.eval_grid_fast(*targs)
+        tf = self.tkde.eval_grid_fast(*targs, **kwds)
 
         self.args = self._inverse_transform(list(self.tkde.args))
         points = meshgrid(*self.args)
@@ -489,10 +489,10 @@ class TKDE(_KDE):
 
         """
         if self.L2 is None:
-            return self.tkde.eval_points(points)
+            return self.tkde.eval_points(points, **kwds)
 
         tpoints = self._transform(points)
-        tf = self.tkde.eval_points(tpoints)
+        tf = self.tkde.eval_points(tpoints, **kwds)
         f = self._scale_pdf(tf, points)
         return f
 
-- 
2.43.0


From 773f4f39e28471175e5b9c30417c88e5178e645a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:00 +0000
Subject: [PATCH 043/157] fix: smoothing parameters passed in were overwritten

---
 src/wafo/kdetools/kdetools.py | 2 +-
 src/wafo/kdetools/kernels.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index 4e09b66..0c616fb 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -619,7 +619,7 @@ class KDE(_KDE):
 
     def _check_hs(self, h):
         """make sure it has the correct dimension and replace negative vals"""
-        h = np.atleast_1d(h)
+        h = np.array(h, dtype=float, ndmin=1)
         if (len(h.shape) == 1) or (self.d == 1):
             h = h * np.ones(self.d) if max(h.shape) == 1 else h.reshape(self.d)
             self._replace_negatives_with_default_hs(h)
diff --git a/src/wafo/kdetools/kernels.py b/src/wafo/kdetools/kernels.py
index 64845cb..6bc7818 100644
--- a/src/wafo/kdetools/kernels.py
+++ b/src/wafo/kdetools/kernels.py
@@ -805,7 +805,7 @@ class Kernel(object):
         if h0 is None:
             h0 = sigmaA * amise_constant
 
-        h = np.asarray(h0, dtype=float)
+        h = np.array(h0, dtype=float, ndmin=1)
 
         ax1, bx1 = self._get_grid_limits(A)
 
@@ -1005,7 +1005,7 @@ class Kernel(object):
         if h0 is None:
             h0 = sigmaA * amise_constant
 
-        h = np.asarray(h0, dtype=float)
+        h = np.array(h0, dtype=float, ndmin=1)
 
         ax1, bx1 = self._get_grid_limits(A)
 
-- 
2.43.0


From fc0b988a8c9112f76563a40a8b08526396f6ab46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:00 +0000
Subject: [PATCH 044/157] fix: hstt failed for the triangular and logistic
 kernels

---
 src/wafo/kdetools/kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/kdetools/kernels.py b/src/wafo/kdetools/kernels.py
index 6bc7818..566d611 100644
--- a/src/wafo/kdetools/kernels.py
+++ b/src/wafo/kdetools/kernels.py
@@ -275,7 +275,7 @@ class _Kernel(object):
 
     def norm_factor(self, d=1, n=None):
         _assert(0 < d, "D")
-        _assert(0 < n, "Number of samples too few (n={})".format(n))
+        _assert(n is None or 0 < n, "Number of samples too few (n={})".format(n))
         return 1.0
 
     @abstractmethod
-- 
2.43.0


From a09a634067d4eb8e804c596943a1025e1b399354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:16 +0000
Subject: [PATCH 045/157] fix: BKRegression.get_grid returned a matrix instead
 of a vector

---
 src/wafo/kdetools/kdetools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index 0c616fb..ce16558 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -1008,7 +1008,7 @@ class BKRegression(object):
         xmin, xmax = x.min(), x.max()
         ni = max(2 * int((xmax - xmin) / hs_e) + 3, 5)
         sml = hs_e  # *0.1
-        xi = np.linspace(xmin - sml, xmax + sml, ni).T
+        xi = np.linspace(xmin - sml, xmax + sml, ni).ravel()
         return xi
 
     def _wilson_score(self, n, p, alpha):
-- 
2.43.0


From 53b7a62a945af4bef30f010aa0f86a7ba66a5677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:53 +0000
Subject: [PATCH 046/157] fix: polyreloc truncated the relocated coefficients
 of integer polynomials

---
 src/wafo/polynomial.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 9a2be6c..e0f1a8c 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -477,7 +477,7 @@ def orthofit(x, y, n):
     # ys = np.dot(p[0, :], PL)  # smoothed y
 
 
-def polyreloc(p, x, y=0.0):
+def polyreloc(p, x, y=0):
     """
     Relocate polynomial
 
@@ -526,7 +526,8 @@ def polyreloc(p, x, y=0.0):
         return r
 
     def _relocate_with_horner(p, x, y):
-        r = np.atleast_1d(p).copy()
+        r = np.atleast_1d(p)
+        r = r.astype(np.result_type(r, x, y))
         n = r.shape[0]
         # Relocate polynomial using Horner's algorithm
         for ii in range(n, 1, -1):
-- 
2.43.0


From ee9b3d8d99b346ead83dbad5fac7858593035deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:53 +0000
Subject: [PATCH 047/157] fix: chebder doubled the constant term and failed for
 degree < 2

---
 src/wafo/polynomial.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index e0f1a8c..97fd48e 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1620,11 +1620,14 @@ def chebder(ck, a=-1, b=1):
     """
 
     n = len(ck) - 1
+    if n < 1:  # constant
+        return np.zeros(1)
     cder = np.zeros(n, dtype=np.asarray(ck).dtype)
-    cder[0] = 2 * n * ck[0]
-    cder[1] = 2 * (n - 1) * ck[1]
-    for j in range(2, n):
-        cder[j] = cder[j - 2] + 2 * (n - j) * ck[j]
+    for j in range(n):
+        cder[j] = 2 * (n - j) * ck[j]
+        if j > 1:
+            cder[j] += cder[j - 2]
+    cder = cder / np.where(np.arange(n) == n - 1, 2., 1.)  # T0 counts half
 
     return cder * 2. / (b - a)  # Normalize to the interval b-a.
 
-- 
2.43.0


From 3be5972bdae7a70e3fe40b64578bee295ab3f481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:53 +0000
Subject: [PATCH 048/157] fix: chebint did not return the integral of the
 polynomial

---
 src/wafo/polynomial.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 97fd48e..c6cd70a 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1687,23 +1687,17 @@ def chebint(ck, a=-1, b=1):
 # 0.5*sum cn *{Tn+1(x)/(n+1) - Tn-1(x)/(n-1)} = 0.5 sum (cn-1-cn+1)*Tn/n n>0
 
     n = len(ck)
-
-    cint = np.zeros(n)
     con = 0.25 * (b - a)
 
-    dif1 = np.diff(ck[-1::-2])
-    ix1 = np.r_[1:n - 1:2]
-    cint[ix1] = -(con * dif1) / ix1
-    if n > 3:
-        dif2 = np.diff(ck[-2::-2])
-        ix2 = np.r_[2:n - 1:2]
-        cint[ix2] = -(con * dif2) / ix2
-    cint = cint[::-1]
-    # cint(n) is a special case
-    cint[-1] = (con * ck[n - 2]) / (n - 1)
-    # Set integration constant
-    cint[0] = 2 * np.sum((-1) ** np.r_[0:n - 1] * cint[-2::-1])
-    return cint
+    cn = np.zeros(n + 2)  # coefficients in increasing order
+    cn[:n] = ck[::-1]
+    cn[0] *= 2  # int T0 = T1 is a special case
+    ix = np.arange(1, n + 1)
+    cint = np.zeros(n + 1)
+    cint[1:] = con * (cn[:-2] - cn[2:]) / ix
+    # Set integration constant so that the integral is zero at a
+    cint[0] = -np.sum((-1) ** ix * cint[1:])
+    return cint[::-1]
 
 
 class Cheb1d(object):
-- 
2.43.0


From bf2c7aa1c7f278d1a1a70106ccf5dce28f4f660e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:53 +0000
Subject: [PATCH 049/157] fix: chebval truncated the values for an integer fill
 value

---
 src/wafo/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index c6cd70a..937bb86 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1567,7 +1567,7 @@ def chebval(x, ck, a=-1, b=1, kind=1, fill=None):
         f = _chebval(y, ck, kind=kind)
     else:
         cond = (abs(y) <= 1)
-        f = np.where(cond, 0, fill)
+        f = np.where(cond, 0., fill)
         if np.any(cond):
             yk = np.extract(cond, y)
             f[cond] = _chebval(yk, ck, kind=kind)
-- 
2.43.0


From 3a9a8ff4799c4e2685d872c6e70ab5cebaa487b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:53 +0000
Subject: [PATCH 050/157] fix: poly2hstr dropped the power of the common factor

---
 src/wafo/polynomial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 937bb86..88bbb3c 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -720,6 +720,8 @@ def poly2hstr(p, variable='x'):
             s = _append_coef(s, coef, expon, var)
 
     # Now treat the special case where the polynomial is zero.
+    if ix > 2:  # Trailing zeros
+        s = '{0:s}**{1:d}'.format(s, ix - 1)
     if s == '':
         s = '0'
     return s
-- 
2.43.0


From bbc178398e9b323c980949f79b1254c2425fd957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:02 +0000
Subject: [PATCH 051/157] fix: Cheb1d objects could not be created and their
 arithmetic raised

---
 src/wafo/polynomial.py | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 88bbb3c..4da0576 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1714,9 +1714,12 @@ class Cheb1d(object):
             for key in ck.__dict__:
                 self.__dict__[key] = ck.__dict__[key]
             return
-        cki = trim_zeros(np.atleast_1d(ck), 'b')
+        cki = np.atleast_1d(ck)
         if len(cki.shape) > 1:
             raise ValueError("Polynomial must be 1d only.")
+        cki = np.trim_zeros(cki, 'f')
+        if len(cki) == 0:
+            cki = np.zeros(1)
         self.__dict__['coeffs'] = cki
         self.__dict__['order'] = len(cki) - 1
         self.__dict__['a'] = a
@@ -1740,42 +1743,35 @@ class Cheb1d(object):
     def __len__(self):
         return self.order
 
-    def __str__(self):
-        pass
+    def _new(self, coeffs):
+        return Cheb1d(coeffs, self.a, self.b, self.kind)
 
     def __neg__(self):
-        new = Cheb1d(self)
-        new.coeffs = -self.coeffs
-        return new
+        return self._new(-self.coeffs)
 
     def __pos__(self):
         return self
 
     def __add__(self, other):
         other = Cheb1d(other)
-        new = Cheb1d(self)
-        new.coeffs = polyadd(self.coeffs, other.coeffs)
-        return new
+        return self._new(polyadd(self.coeffs, other.coeffs))
 
     def __radd__(self, other):
         return self.__add__(other)
 
     def __sub__(self, other):
-        return self.__add__(-other)
+        return self.__add__(-Cheb1d(other))
 
     def __rsub__(self, other):
-        new = self.__sub__(other)
-        new.coeffs *= -1
-        return new
+        return -self.__sub__(other)
 
     def __eq__(self, other):
         other = Cheb1d(other)
-        return (np.all(self.coeffs == other.coeffs) and (self.a == other.a) and
+        return (np.array_equal(self.coeffs, other.coeffs) and (self.a == other.a) and
                 (self.b == other.b) and (self.kind == other.kind))
 
     def __ne__(self, other):
-        return np.any(self.coeffs != other.coeffs) or (self.a != other.a) or (
-            self.b != other.b) or (self.kind != other.kind)
+        return not self == other
 
     def __setattr__(self, key, val):
         raise ValueError("Attributes cannot be changed this way.")
@@ -1818,9 +1814,10 @@ class Cheb1d(object):
         chebint : equivalent function
 
         """
-        integ = Cheb1d(self)
-        integ.coeffs = chebint(self.coeffs, self.a, self.b)
-        return integ
+        ck = self.coeffs
+        for _ in range(m):
+            ck = chebint(ck, self.a, self.b)
+        return self._new(ck)
 
     def deriv(self, m=1):
         """
@@ -1833,9 +1830,10 @@ class Cheb1d(object):
         chebder : equivalent function
 
         """
-        der = Cheb1d(self)
-        der.coeffs = chebder(self.coeffs, self.a, self.b)
-        return der
+        ck = self.coeffs
+        for _ in range(m):
+            ck = chebder(ck, self.a, self.b)
+        return self._new(ck)
 
 
 def padefit(c, m=None):
-- 
2.43.0


From 1c69507ba54033a68c05db10ea11a1d5445a9dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:02 +0000
Subject: [PATCH 052/157] fix: chebfit_dct ignored the extra arguments of the
 function

---
 src/wafo/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 4da0576..741bb3c 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1355,7 +1355,7 @@ def chebfit_dct(f, n=(10, ), domain=None, args=()):
             xi = [map_to_interval(chebroot(ni), d[0], d[1])
                   for ni, d in _zip(n, domain)]
             Xi = np.meshgrid(*xi)
-            return f(*Xi) / np.product(n), len(n)
+            return f(*(tuple(Xi) + tuple(args))) / np.product(n), len(n)
         return f / np.product(f.shape), f.ndim
 
     ck, ndim = _init_ck(f, n, domain)
-- 
2.43.0


From b556c46f68a59834058812723ca054a1f172d884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:27 +0000
Subject: [PATCH 053/157] fix: chebfitnd mixed up right hand side and scale

---
 src/wafo/polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 741bb3c..a939039 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -2242,7 +2242,7 @@ def chebfitnd(xi, f, deg, rcond=None, full=False, w=None):
         if w is not None:
             w = np.asarray(w).ravel() + 0.0
             _check_size(w, len(lhs))
-            lhs = lhs * w
+            lhs = lhs * w[:, newaxis]
             rhs = rhs * w
         scl = _scale(lhs)
         return lhs, scl, rhs
@@ -2255,7 +2255,7 @@ def chebfitnd(xi, f, deg, rcond=None, full=False, w=None):
     orders = degrees + 1
     order = np.product(orders)
 
-    lhs, rhs, scl = _init(xi, z, w, degrees, order)
+    lhs, scl, rhs = _init(xi, z, w, degrees, order)
 
     if rcond is None:
         rcond = xi[0].size * np.finfo(xi[0].dtype).eps
-- 
2.43.0


From d9d15b27bb3a4e96d0ac02adba91c58a3f652fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:58 +0000
Subject: [PATCH 054/157] fix: chebfit_dct returned permuted coefficients in
 three or more dimensions

---
 src/wafo/polynomial.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index a939039..eb4096a 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1359,11 +1359,12 @@ def chebfit_dct(f, n=(10, ), domain=None, args=()):
         return f / np.product(f.shape), f.ndim
 
     ck, ndim = _init_ck(f, n, domain)
+    if ndim > 1:
+        ck = np.swapaxes(ck, 0, 1)  # from meshgrid order to x1, x2,..., xn
     for i in range(ndim):
         ck = dct(ck[..., ::-1])
         ck[..., 0] /= 2.
-        if i < ndim - 1:
-            ck = np.rollaxis(ck, axis=-1)
+        ck = np.rollaxis(ck, axis=-1)
     return ck
 
 
-- 
2.43.0


From 74cf2b748713b8bfd4b52758e839275fd947ba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:58 +0000
Subject: [PATCH 055/157] fix: chebinterpolate ignored the domain

---
 src/wafo/polynomial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index eb4096a..8e9b4af 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1437,7 +1437,8 @@ def chebinterpolate(func, deg, args=(), domain=None):
 #     Xi = np.meshgrid(*xi)
 
     xcheb = chebpts1(order)
-    yfunc = func(xcheb, *args)
+    x = xcheb if domain is None else map_to_interval(xcheb, *domain)
+    yfunc = func(x, *args)
     m = chebvander(xcheb, deg)
     c = np.dot(m.T, yfunc)
     c[0] /= order
-- 
2.43.0


From 0bdaa853b814ff5a53bdc4e78ac4a4e794685593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:58 +0000
Subject: [PATCH 056/157] fix: padefitlsq failed for tabulated functions of any
 other length

---
 src/wafo/polynomial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 8e9b4af..317fa1a 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -2015,6 +2015,7 @@ def padefitlsq(fun, m, k, a=-1, b=1, trace=False, x=None, end_points=True):
 
     x, fs = _init(fun, a, b, x, end_points, npt)
 
+    npt = len(fs)
     _cond_plot1(trace, x, fs)
 
     wt = np.ones((npt))
-- 
2.43.0


From b38b6f58285f38aa0a0e28f44114e5b8d31020f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:58 +0000
Subject: [PATCH 057/157] fix: polydeg divided by zero for short data

---
 src/wafo/polynomial.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 317fa1a..5a73c64 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -294,7 +294,7 @@ def polydeg(x, y):
     # required to take AIC noise into account and to ensure that this minimum
     # is a (likely) global minimum.
 
-    while nit < 8:
+    while nit < 8 and n < N - 2:
         p = orthofit(x, y, n)
         ys = orthoval(p, x)
         # -- Akaike's Information Criterion
@@ -308,9 +308,6 @@ def polydeg(x, y):
             AIC = aic
 
         n = n + 1
-
-        if n >= N:
-            break
     n = n - nit - 1
     return n
 
-- 
2.43.0


From ca4a8ad9e3b4fe21c0673763245f77cf97dd75d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:52 +0000
Subject: [PATCH 058/157] fix: PPform truncated its values at integer arguments

---
 src/wafo/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 34497ac..bb02933 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -348,7 +348,7 @@ class PPform(object):
     def __call__(self, xnew):
         saveshape = np.shape(xnew)
         xnew = np.ravel(xnew)
-        res = np.empty_like(xnew)
+        res = np.empty(xnew.shape, np.result_type(self.coeffs, xnew, float))
         mask = (self.a <= xnew) & (xnew <= self.b)
         res[~mask] = self.fill
         xx = xnew.compress(mask)
-- 
2.43.0


From 0337a4110d1673e16760b78ff310735253f60bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:52 +0000
Subject: [PATCH 059/157] fix: derivative and integral of a PPform lost its
 range of definition

---
 src/wafo/interpolate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index bb02933..9f867fc 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -428,7 +428,7 @@ class PPform(object):
 
         cof = pl.polyder(self.coeffs)
         brks = self.breaks.copy()
-        return PPform(cof, brks, fill=self.fill)
+        return PPform(cof, brks, fill=self.fill, a=self.a, b=self.b)
 
     def integrate(self):
         """
@@ -450,7 +450,7 @@ class PPform(object):
 
             cof[-1] = np.hstack((0, vv)).cumsum()
 
-        return PPform(cof, self.breaks, fill=self.fill)
+        return PPform(cof, self.breaks, fill=self.fill, a=self.a, b=self.b)
 
 #     def fromspline(self, xk, cvals, order, fill=0.0):
 #         N = len(xk) - 1
-- 
2.43.0


From 1fe3b9c570ed947ab47260302521869612a7e9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:52 +0000
Subject: [PATCH 060/157] fix: SmoothSpline failed for two data points

---
 src/wafo/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 9f867fc..9e145cc 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -637,7 +637,7 @@ class SmoothSpline(PPform):
         dydx = np.diff(y) / dx
 
         if (n == 2):  # straight line
-            coefs = np.vstack([dydx.ravel(), y[0, :]])
+            coefs = np.vstack([dydx.ravel(), y[..., 0].ravel()])
             return coefs, x
         D = sparse.spdiags(var * ones(n), 0, n, n)  # The variance
         coefs = self._poly_coefs(y, dx, dydx, n, nd, p, D)
-- 
2.43.0


From d112e381daa9c14f0c7188a16837822aea381ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:52 +0000
Subject: [PATCH 061/157] fix: SmoothSpline did not sort the variances with the
 data

---
 src/wafo/interpolate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 9e145cc..1d1d868 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -577,8 +577,10 @@ class SmoothSpline(PPform):
             ind = x.argsort()
             x = x[ind]
             y = y[..., ind]
+            if var.size == ind.size:
+                var = var.ravel()[ind]
             dx = np.diff(x)
-        return x, y, dx
+        return x, y, dx, var
 
     def _init_poly_coefs(self, dx, dydx, n, p, D):
         dx1 = 1. / dx
@@ -624,7 +626,7 @@ class SmoothSpline(PPform):
         return coefs
 
     def _compute_coefs(self, xx, yy, p=None, var=1):
-        x, y, dx = self._spacing(xx, yy, var)
+        x, y, dx, var = self._spacing(xx, yy, var)
         n = len(x)
 
         szy = y.shape
-- 
2.43.0


From ff502715aeacd1e32c5ccaada93d73c3ec843179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:52 +0000
Subject: [PATCH 062/157] fix: end slopes of the Steffen method had the wrong
 sign for decreasing data

---
 src/wafo/interpolate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 1d1d868..10f7bd6 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -843,8 +843,8 @@ def _steffen_slope(x, y, dx, dydx, *args):
         p1 = dydx[-1] * (1 + w1) - dydx[-2] * w1
         s0 = np.sign(p0) + np.sign(dydx[0])
         s1 = np.sign(p1) + np.sign(dydx[-1])
-        yp[0] = s0 * np.minimum(np.abs(dydx[0]), 0.5 * p0)
-        yp[-1] = s1 * np.minimum(np.abs(dydx[-1]), 0.5 * p1)
+        yp[0] = s0 * np.minimum(np.abs(dydx[0]), 0.5 * np.abs(p0))
+        yp[-1] = s1 * np.minimum(np.abs(dydx[-1]), 0.5 * np.abs(p1))
     else:
         yp[0] = 2.0 * dydx[0] - yp[1]
         yp[-1] = 2.0 * dydx[-1] - yp[-2]
-- 
2.43.0


From cadaef3df00ab6e81895a6067fe44fbc94e2e719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:52 +0000
Subject: [PATCH 063/157] fix: Catmull-Rom and cardinal slopes failed for
 several columns

---
 src/wafo/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 10f7bd6..41ee3e4 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -879,7 +879,7 @@ def _secant_slope(x, y, dx, dydx, *args):  # pylint: disable=unused-argument
 
 def _catmull_rom_slope(x, y, dx, dydx, *args):  # pylint: disable=unused-argument
     yp = np.zeros(y.shape, np.float_)
-    yp[1:-1] = (y[2:] - y[:-2]) / (x[2:] - x[:-2])
+    yp[1:-1] = (y[2:] - y[:-2]) / (dx[1:] + dx[:-1])
     if True:
         # original
         # At the endpoints - use one-sided differences
-- 
2.43.0


From a1ead98dd694389932952326e78a157b86066af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:52 +0000
Subject: [PATCH 064/157] fix: slopes of two data points

---
 src/wafo/interpolate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 41ee3e4..84fd87c 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -964,7 +964,10 @@ def slopes(x, y, method='stineman', tension=0, monotone=False, scale=False):
                      sti=_stineman_slope,
                      ste=_steffen_slope,
                      fri=_fritsch_carlson_slope)[method[:3]]
-    yp = slope_fun(x, y, dx, dydx, tension)
+    if len(x) == 2 and method[:3] != 'car':
+        yp = np.concatenate((dydx, dydx))
+    else:
+        yp = slope_fun(x, y, dx, dydx, tension)
 
     if monotone:
         # Special case: intervals where y[k] == y[k+1]
-- 
2.43.0


From bdabed99727c4ce6d463125501ea27e38b357eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:18 +0000
Subject: [PATCH 065/157] fix: monotone slopes kept end slopes of the wrong
 sign

---
 src/wafo/interpolate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 84fd87c..b040034 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -976,6 +976,9 @@ def slopes(x, y, method='stineman', tension=0, monotone=False, scale=False):
         ii, = (dydx == 0.0).nonzero()
         yp[ii] = 0.0
         yp[ii + 1] = 0.0
+        # Slopes of opposite sign to a neighbouring secant are set to zero
+        yp[:-1][yp[:-1] * dydx < 0] = 0.0
+        yp[1:][yp[1:] * dydx < 0] = 0.0
 
         with np.errstate(divide='ignore', invalid='ignore'):
             # ignore division by zero and NaN
-- 
2.43.0


From 5f3d2c51b06f3145d25537b1e155d8ceacbd5d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:55 +0000
Subject: [PATCH 066/157] fix: savitzky_golay derivatives had the wrong sign
 and scale

---
 src/wafo/interpolate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index b040034..692ab85 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -1,4 +1,5 @@
 #!/usr/bin/env python
+from math import factorial
 import numpy as np
 import scipy.sparse as sparse
 from numpy import ones, zeros, prod, sin, diff, pi, inf, vstack, linspace
@@ -97,13 +98,13 @@ def savitzky_golay(y, window_size, order, deriv=0):
     # precompute coefficients
     b = np.mat([[k ** i for i in order_range]
                 for k in range(-half_window, half_window + 1)])
-    m = np.linalg.pinv(b).A[deriv]
+    m = np.linalg.pinv(b).A[deriv] * factorial(deriv)
     # pad the signal at the extremes with
     # values taken from the signal itself
     firstvals = y[0] - np.abs(y[1:half_window + 1][::-1] - y[0])
     lastvals = y[-1] + np.abs(y[-half_window - 1:-1][::-1] - y[-1])
     y = np.concatenate((firstvals, y, lastvals))
-    return np.convolve(m, y, mode='valid')
+    return np.convolve(m[::-1], y, mode='valid')
 
 
 def _get_turnpoint(xvals):
-- 
2.43.0


From e51a365f7adb0f7456e48590942efc4a2be4b511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:18 +0000
Subject: [PATCH 067/157] fix: linear_extrapolate did not extrapolate piecewise
 linear functions

---
 src/wafo/interpolate.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 692ab85..9ffca35 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -376,9 +376,10 @@ class PPform(object):
 
         if self.order <= max_order:
             if output:
-                return self
-            else:
-                return
+                return PPform(self.coeffs, self.breaks, a=-inf, b=inf)
+            self.a = -inf
+            self.b = inf
+            return
         breaks = self.breaks.copy()
         coefs = self.coeffs.copy()
         # pieces = len(breaks) - 1
-- 
2.43.0


From d37b7f3382edb216d2649759cdc826b9e23a6b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:51 +0000
Subject: [PATCH 068/157] fix: clencurt truncated integer valued functions and
 changed the values of its argument

---
 src/wafo/integrate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index dc0b95f..03a371a 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -104,6 +104,7 @@ def clencurt(fun, a, b, n=5, trace=False):
     if trace:
         plt.plot(x, f, '+')
 
+    f = np.array(f, dtype=float)
     # using a Gauss-Lobatto variant, i.e., first and last
     # term f(a) and f(b) is multiplied with 0.5
     f[0, :] = f[0, :] / 2
-- 
2.43.0


From b9dfc52070b09ba493196adb7f149c7b7f0d79c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:51 +0000
Subject: [PATCH 069/157] fix: clencurt failed for tabulated functions

---
 src/wafo/integrate.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index 03a371a..d03e04c 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -94,9 +94,8 @@ def clencurt(fun, a, b, n=5, trace=False):
     if hasattr(fun, '__call__'):
         f = fun(x)
     else:
-        x_0 = np.flipud(fun[:, 0])
-        n_2 = len(x_0) - 1
-        _assert(abs(x - x_0) <= 1e-8,
+        x_0 = np.flipud(fun[:, :1])
+        _assert(len(x_0) == n_2 + 1 and np.all(abs(x - x_0) <= 1e-8),
                 'Input vector x must equal cos(pi*s/n_2)*(b-a)/2+(b+a)/2')
 
         f = np.flipud(fun[:, 1::])
-- 
2.43.0


From 46a5866c78a4b3804aa0ea52a714341b40371d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:51 +0000
Subject: [PATCH 070/157] fix: clencurt returned negative error estimates for
 reversed limits

---
 src/wafo/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index d03e04c..82c2895 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -125,7 +125,7 @@ def clencurt(fun, a, b, n=5, trace=False):
     c = c[0:n + 1, :] / ((s_2 - 1) * (s_2 + 1))
     q_val = (a - b) * np.sum(c, axis=0)
 
-    abserr = (b - a) * np.abs(c[n, :])
+    abserr = np.abs((b - a) * c[n, :])
 
     if a_size > 1:
         abserr = np.reshape(abserr, a_shape)
-- 
2.43.0


From 46f62dbb2b37d5c5de6c81b0f22b46c59bfd2c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:51 +0000
Subject: [PATCH 071/157] fix: romberg failed for short intervals and reversed
 limits

---
 src/wafo/integrate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index 82c2895..b7a3b76 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -170,7 +170,9 @@ def romberg(fun, a, b, releps=1e-3, abseps=1e-3):
     h = b - a
     h_min = 1.0e-9
     # Max size of extrapolation table
-    table_limit = max(min(np.round(np.log2(h / h_min)), 30), 3)
+    table_limit = 30
+    if h != 0:
+        table_limit = int(max(min(np.round(np.log2(abs(h) / h_min)), 30), 3))
 
     rom = zeros((2, table_limit))
 
-- 
2.43.0


From f03661f2c9fedb3dc3959d21fe25d72e493f7be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:19 +0000
Subject: [PATCH 072/157] fix: Gauss rules of one node had two nodes

---
 src/wafo/integrate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index b7a3b76..bbebc8e 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -638,8 +638,8 @@ def _expand_roots(x, w, n, m):
         x[m - 1] = 0.0
     if not (m + m) == n:
         m = m - 1
-    x = np.hstack((x, -x[m - 1::-1]))
-    w = np.hstack((w, w[m - 1::-1]))
+    x = np.hstack((x, -x[:m][::-1]))
+    w = np.hstack((w, w[:m][::-1]))
     return x, w
 
 
-- 
2.43.0


From b1aea0fec87a2ce92f2e59e53929ad967745a45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:19 +0000
Subject: [PATCH 073/157] fix: la_roots returned weights of another shape than
 the nodes

---
 src/wafo/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index bbebc8e..51d9e9d 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -534,7 +534,7 @@ def _la_roots_newton(n, alpha, releps=3e-14, max_iter=10):
 
     nodes = z
     weights = -np.exp(sp.gammaln(alpha + n) -
-                      sp.gammaln(n)) / (p_deriv * n * p_previous)
+                      sp.gammaln(n)) / (p_deriv * n * p_previous).ravel()
     return nodes, weights
 
 
-- 
2.43.0


From 2fd7f7c2296dc3dcc839a94256c8119111b423a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:19 +0000
Subject: [PATCH 074/157] fix: gaussq truncated integer valued functions

---
 src/wafo/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index 51d9e9d..ac82af8 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -1022,7 +1022,7 @@ class _Gaussq(object):
         # Break out of the iteration loop for three reasons:
         #  1) the last update is very small (compared to int and to releps)
         #  2) There are more than 11 iterations. This should NEVER happen.
-        dtype = np.result_type(fun((a_0 + b_0) * 0.5, *args))
+        dtype = np.result_type(fun((a_0 + b_0) * 0.5, *args), float)
         n_k = np.prod(a_shape)  # # of integrals we have to compute
         k = np.arange(n_k)
         opt = (n_k, dtype)
-- 
2.43.0


From 7ef3ddebb82b3fcc0997fd29b77c205f065bf9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:19 +0000
Subject: [PATCH 075/157] fix: quadgr failed for integer valued functions

---
 src/wafo/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index ac82af8..b9cdbf0 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -1193,7 +1193,7 @@ class _Quadgr(object):
         return q_val, err
 
     def _integrate(self, fun, a, b, abseps, max_iter):
-        dtype = np.result_type(fun((a + b) / 2), fun((a + b) / 4))
+        dtype = np.result_type(fun((a + b) / 2), fun((a + b) / 4), float)
 
         # Initiate vectors
         val0 = zeros(max_iter, dtype=dtype)  # Quadrature
-- 
2.43.0


From 0157c57288b128516cecdb9937067f5ca8699b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:19 +0000
Subject: [PATCH 076/157] fix: gaussq mixed up rules with almost equal alpha
 and beta

---
 src/wafo/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index b9cdbf0..d2a254e 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -940,7 +940,7 @@ class _Gaussq(object):
     @staticmethod
     def _nodes_and_weights(num_nodes, wfun, alpha, beta):
         global _NODES_AND_WEIGHTS
-        name = 'wfun{:d}_{:d}_{:g}_{:g}'.format(wfun, num_nodes, alpha, beta)
+        name = 'wfun{:d}_{:d}_{!r}_{!r}'.format(wfun, num_nodes, alpha, beta)
         nodes_and_weights = _NODES_AND_WEIGHTS[name]
         if len(nodes_and_weights) == 0:
             nodes_and_weights.extend(qrule(num_nodes, wfun, alpha, beta))
-- 
2.43.0


From ba10e24256aa8be1cd0a7fd5d946254a2b064fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:19 +0000
Subject: [PATCH 077/157] fix: chebychev integrated from zero instead of the
 first point

---
 src/wafo/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index d2a254e..bf1b0fd 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -1333,7 +1333,7 @@ def chebychev(y, x, n=None):
     if n is None:
         n = len(y)
     c_k = np.polynomial.chebyshev.chebfit(x, y, deg=min(n - 1, 36))
-    c_ki = np.polynomial.chebyshev.chebint(c_k)
+    c_ki = np.polynomial.chebyshev.chebint(c_k, lbnd=x[0])
     q = np.polynomial.chebyshev.chebval(x[-1], c_ki)
     return q
 
-- 
2.43.0


From 12e5828dbf2ffb9d0ad4812f13a2a8ea7fb0662d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:04 +0000
Subject: [PATCH 078/157] fix: QuadOsc refused infinite limits given as Python
 numbers

---
 src/wafo/integrate_oscillating.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/integrate_oscillating.py b/src/wafo/integrate_oscillating.py
index a5f33d7..f1b087f 100644
--- a/src/wafo/integrate_oscillating.py
+++ b/src/wafo/integrate_oscillating.py
@@ -216,7 +216,7 @@ class QuadOsc(_Integrator):
             pass
         elif np.isinf(a) | np.isinf(b):
             # Check real limits
-            if ~np.isreal(a) | ~np.isreal(b) | np.isnan(a) | np.isnan(b):
+            if not (np.isreal(a) and np.isreal(b)) or np.isnan(a) or np.isnan(b):
                 raise ValueError('Infinite intervals must be real.')
             # Change of variable
             if np.isfinite(a) & np.isinf(b):
-- 
2.43.0


From 6eae933bebfe845af35a05b8a7bcf630cfba666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:48 +0000
Subject: [PATCH 079/157] fix: cdfnorm2d mixed up strongly and weakly
 correlated components

---
 src/wafo/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/gaussian.py b/src/wafo/gaussian.py
index 08bc1ef..5c4bf15 100644
--- a/src/wafo/gaussian.py
+++ b/src/wafo/gaussian.py
@@ -901,7 +901,7 @@ def cdfnorm2d(b1, b2, r):
                                        (1 + c[k6] * xs[k6] *
                                         (1 + d[k6] * xs[k6]))))
 
-            bvn[k3] = -bvn[k3] / twopi
+            bvn[k13] = -bvn[k13] / twopi
 
         k7, = nonzero(r[k1] > 0)
         if len(k7):
-- 
2.43.0


From d17770ad173ae48eae5b64a1af0486bf2fb1babb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:48 +0000
Subject: [PATCH 080/157] fix: cdfnorm2d was inaccurate for negative
 correlations

---
 src/wafo/gaussian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/gaussian.py b/src/wafo/gaussian.py
index 5c4bf15..5a42af3 100644
--- a/src/wafo/gaussian.py
+++ b/src/wafo/gaussian.py
@@ -823,7 +823,7 @@ def cdfnorm2d(b1, b2, r):
     if len(k0) > 0:
         hs = (h[k0] ** 2 + k[k0] ** 2) / two
         asr = arcsin(r[k0])
-        k1, = nonzero(r[k0] >= 0.75)
+        k1, = nonzero(abs(r[k0]) >= 0.75)
         if len(k1) > 0:
             k01 = k0[k1]
             for i in range(10):
@@ -832,7 +832,7 @@ def cdfnorm2d(b1, b2, r):
                     bvn[k01] = bvn[k01] + _W20[i] * \
                         exp((sn * hk[k01] - hs[k1]) / (1 - sn * sn))
 
-        k1, = nonzero((0.3 <= r[k0]) & (r[k0] < 0.75))
+        k1, = nonzero((0.3 <= abs(r[k0])) & (abs(r[k0]) < 0.75))
         if len(k1) > 0:
             k01 = k0[k1]
             for i in range(6):
@@ -841,7 +841,7 @@ def cdfnorm2d(b1, b2, r):
                     bvn[k01] = bvn[k01] + _W12[i] * \
                         exp((sn * hk[k01] - hs[k1]) / (1 - sn * sn))
 
-        k1, = nonzero(r[k0] < 0.3)
+        k1, = nonzero(abs(r[k0]) < 0.3)
         if len(k1) > 0:
             k01 = k0[k1]
             for i in range(3):
-- 
2.43.0


From 9996480e7720fd5e8cfbebf8984cd24b047f7d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:48 +0000
Subject: [PATCH 081/157] fix: cdfnorm2d returned nan for infinite limits

---
 src/wafo/gaussian.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wafo/gaussian.py b/src/wafo/gaussian.py
index 5a42af3..c93cb97 100644
--- a/src/wafo/gaussian.py
+++ b/src/wafo/gaussian.py
@@ -810,7 +810,10 @@ def cdfnorm2d(b1, b2, r):
 
     b1, b2, r = np.broadcast_arrays(b1, b2, r)
     cshape = b1.shape
-    h, k, r = -b1.ravel(), -b2.ravel(), r.ravel()
+    infinity = 37
+    h = -np.clip(b1.ravel(), -infinity, infinity)
+    k = -np.clip(b2.ravel(), -infinity, infinity)
+    r = r.ravel()
 
     bvn = where(abs(r) > 1, nan, 0.0)
 
-- 
2.43.0


From aa6c14daa3f20078dbd683993b2c694939d2f57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:48 +0000
Subject: [PATCH 082/157] fix: prbnorm2d returned one when one of the variables
 is unbounded

---
 src/wafo/gaussian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wafo/gaussian.py b/src/wafo/gaussian.py
index c93cb97..85688a2 100644
--- a/src/wafo/gaussian.py
+++ b/src/wafo/gaussian.py
@@ -991,7 +991,9 @@ def prbnorm2d(a, b, r):
         return bvd(lower[0], lower[1], correl)
     elif (infin[0] == 0 and infin[1] == 0):
         return bvd(-upper[0], -upper[1], correl)
-    return 1
+    # one of the variables is unbounded
+    j = int(infin[0] < 0)
+    return cdfnorm(upper[j]) - cdfnorm(lower[j])
 
 
 def bvd(lo, up, r):
-- 
2.43.0


From 3cf2d3fa66699f1a45d829ab619a860a56d9eb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:48 +0000
Subject: [PATCH 083/157] fix: prbnormnd ignored allow_singular

---
 src/wafo/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/gaussian.py b/src/wafo/gaussian.py
index 85688a2..9aff907 100644
--- a/src/wafo/gaussian.py
+++ b/src/wafo/gaussian.py
@@ -719,7 +719,7 @@ def prbnormnd(correl, a, b, abseps=1e-4, releps=1e-3, maxpts=None, allow_singula
         raise ValueError('This is not a correlation matrix')
 
     return mvn.cdf(b, cov=correl,
-                   allow_singular=False,
+                   allow_singular=allow_singular,
                    maxpts=maxpts,
                    abseps=abseps,
                    releps=releps,
-- 
2.43.0


From 8f009f282b25335a1701d2c9441888257fb69b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:52 +0000
Subject: [PATCH 084/157] fix: edf sorted the data of the caller in place

---
 src/wafo/stats/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 7972265..b0d0e4b 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -82,8 +82,7 @@ def edf(x, method=2):
 
      See also edf, pdfplot, cumtrapz
     """
-    z = atleast_1d(x)
-    z.sort()
+    z = np.sort(atleast_1d(x))
 
     n = len(z)
     if method == 1:
-- 
2.43.0


From 0542d168525e193e9d171ca961e69941d92ca52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:52 +0000
Subject: [PATCH 085/157] fix: findpot kept peaks too close to each other when
 there are several clusters

---
 src/wafo/stats/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index b0d0e4b..4a88b13 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -445,7 +445,7 @@ def _remove_index_to_data_too_close_to_each_other(ix_e, is_too_small, di_e, ti_e
                               is_too_small[-1]))
     # Find opening (no) and closing (nc) index for data beeing to close:
     iy = findextrema(np.hstack([0, 0, is_too_small, 0]))
-    no = iy[:2] - 1
+    no = iy[::2] - 1
     nc = iy[1::2]
     for start, stop in zip(no, nc):
         iz = slice(start, stop)
-- 
2.43.0


From 80e63a7df6e5998b581b0eb2c653855181fc61de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:52 +0000
Subject: [PATCH 086/157] fix: decluster failed for lists

---
 src/wafo/stats/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 4a88b13..95119ae 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -434,8 +434,10 @@ def decluster(data, t=None, thresh=None, tmin=1):
     --------
     fitgenpar, findpot, extremalidx
     """
+    data = asarray(data)
     if t is None:
         t = np.arange(len(data))
+    t = asarray(t)
     i = findpot(data, t, thresh, tmin)
     return data[i], t[i]
 
-- 
2.43.0


From aa81a8f9740745777a7d866acb4794585f290775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:11 +0000
Subject: [PATCH 087/157] fix: returnperiod2sf and sf2returnperiod failed for
 scalars and integers

---
 src/wafo/stats/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 95119ae..0b6f74f 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -494,7 +494,7 @@ def returnperiod2sf(period, numevents_per_unit=1):
     returnperiod2sf
     """
     t, npu = np.broadcast_arrays(period, numevents_per_unit)
-    invprb = t*npu
+    invprb = np.array(t * npu, dtype=float)
     nan_mask = (npu <= 0) | (invprb < 1)
     invprb[nan_mask] = np.nan
     return 1./invprb
@@ -533,7 +533,7 @@ def sf2returnperiod(q, numevents_per_unit=1):
     """
 
     prbi, npu = np.broadcast_arrays(q, numevents_per_unit)
-    inv_period = npu * prbi
+    inv_period = np.array(npu * prbi, dtype=float)
     nan_mask = (npu < 0) | (prbi < 0) | (1 <= prbi)
     inv_period[nan_mask] = np.nan
     return 1./inv_period
-- 
2.43.0


From 39fe8a3a64dd7946c904accd6032e196009b2d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:11 +0000
Subject: [PATCH 088/157] fix: reslife and dispersion_idx failed for a list of
 thresholds

---
 src/wafo/stats/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 0b6f74f..b6673f3 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -213,6 +213,7 @@ def reslife(data, u=None, umin=None, umax=None, nu=None, nmin=3, alpha=0.05,
         nu = _check_nu(nu, nmin, n)
         u = linspace(umin, umax, nu)
 
+    u = asarray(u)
     nu = len(u)
 
     # mrl1 = valarray(nu)
@@ -355,6 +356,7 @@ def dispersion_idx(
         nu = _check_nu(nu, nmin, n)
         u = linspace(umin, umax, nu)
 
+    u = asarray(u)
     nu = len(u)
 
     di = np.zeros(nu)
-- 
2.43.0


From a40a329cddd8473b02f79ce775b29f7f186397d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:51 +0000
Subject: [PATCH 089/157] fix: link functions of burr did not invert the
 distribution

---
 src/wafo/stats/estimation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index e5c7194..13dddf7 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -71,11 +71,11 @@ def _burr_link(x, logsf, phat, i):
     if i == 1:
         return -log_cdf / log1p(x_norm**(-par_c))
     if i == 0:
-        return log1p(-np.exp(-log_cdf / par_d)) / log(x_norm)
+        return -log(expm1(-log_cdf / par_d)) / log(x_norm)
     if i == 2:
-        return x - scale * np.exp(log1p(-np.exp(-log_cdf / par_d)) / par_c)
+        return x - scale * expm1(-log_cdf / par_d) ** (-1. / par_c)
     if i == 3:
-        return (x - loc) / np.exp(log1p(-np.exp(-log_cdf / par_d)) / par_c)
+        return (x - loc) / expm1(-log_cdf / par_d) ** (-1. / par_c)
     raise IndexError('Index to the fixed parameter is out of bounds')
 
 
-- 
2.43.0


From 407a86e6c0a7db433694d292d9cd6ca1ebc53dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:51 +0000
Subject: [PATCH 090/157] fix: link functions of exponweib did not invert the
 distribution

---
 src/wafo/stats/estimation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index 13dddf7..00ca457 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -119,11 +119,11 @@ def _exponweib_link(x, logsf, phat, i):
     if i == 0:
         return - log_cdf / log(-expm1(-x_norm**c))
     if i == 1:
-        return log(-log1p(- log_cdf ** (1.0 / a))) / log(x_norm)
+        return log(-log1p(-np.exp(-log_cdf / a))) / log(x_norm)
     if i == 2:
-        return x - (-log1p(- log_cdf ** (1.0 / a))) ** (1.0 / c) * scale
+        return x - (-log1p(-np.exp(-log_cdf / a))) ** (1.0 / c) * scale
     if i == 3:
-        return (x - loc) / (-log1p(- log_cdf ** (1.0 / a))) ** (1.0 / c)
+        return (x - loc) / (-log1p(-np.exp(-log_cdf / a))) ** (1.0 / c)
     raise IndexError('Index to the fixed parameter is out of bounds')
 
 
-- 
2.43.0


From 085308531f1f60394def50735ebb4eb5df9ee4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:51 +0000
Subject: [PATCH 091/157] fix: link function for the location of genpareto and
 genextreme

---
 src/wafo/stats/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index 00ca457..f83bdb5 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -146,7 +146,7 @@ def _genpareto_link(x, logsf, phat, i):
         #   link = -(x-loc)*c/expm1(-c*logsf)
         return (x - loc) * c / expm1(-c * logsf)
     if i == 1:
-        return x + scale * expm1(c * logsf) / c
+        return x - scale * expm1(-c * logsf) / c
     raise IndexError('Index to the fixed parameter is out of bounds')
 
 
-- 
2.43.0


From d591302cee7b212b96950964a1f3e8777d26a14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:51 +0000
Subject: [PATCH 092/157] fix: link function for the location of gumbel_r was
 missing

---
 src/wafo/stats/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index f83bdb5..680198d 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -155,7 +155,7 @@ def _gumbel_r_link(x, logsf, phat, i):
     loglog_cdf = log(-log(-expm1(logsf)))
     if i == 1:
         return -(x - loc) / loglog_cdf
-    if i == 1:
+    if i == 0:
         return x + scale * loglog_cdf
     raise IndexError('Index to the fixed parameter is out of bounds')
 
-- 
2.43.0


From 02e9844ca3efa4c1557baa7d8d67e8289f8ae6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:51 +0000
Subject: [PATCH 093/157] fix: link functions of genexpon did not invert the
 distribution

---
 src/wafo/stats/estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index 680198d..7765d39 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -177,9 +177,9 @@ def _genexpon_link(x, logsf, phat, i):
     x_norm = (x - loc) / scale
     fact1 = (x_norm + expm1(-c * x_norm) / c)
     if i == 0:
-        return b * fact1 + logsf  # a
+        return -(logsf + b * fact1) / x_norm  # a
     if i == 1:
-        return (a - logsf) / fact1  # b
+        return -(logsf + a * x_norm) / fact1  # b
     if i in [2, 3, 4]:
         raise NotImplementedError('Only implemented for index in [0,1]!')
     raise IndexError('Index to the fixed parameter is out of bounds')
-- 
2.43.0


From f4be4a799d13672c4acb3e3317c054123fc8e98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:51 +0000
Subject: [PATCH 094/157] fix: link function for the scale of rayleigh

---
 src/wafo/stats/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index 7765d39..d3aa5f3 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -187,7 +187,7 @@ def _genexpon_link(x, logsf, phat, i):
 
 def _rayleigh_link(x, logsf, phat, i):
     if i == 1:
-        return x - phat[0] / np.sqrt(-2.0 * logsf)
+        return (x - phat[0]) / np.sqrt(-2.0 * logsf)
     if i == 0:
         return x - phat[1] * np.sqrt(-2.0 * logsf)
     raise IndexError('Index to the fixed parameter is out of bounds')
-- 
2.43.0


From 9f1a07cf6a48b8b70f3ff6ff2fcfc296ddea462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:51 +0000
Subject: [PATCH 095/157] fix: link functions of truncrayleigh were wrong and
 not found

---
 src/wafo/stats/estimation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index d3aa5f3..49a3ba4 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -197,9 +197,9 @@ def _trunclayleigh_link(x, logsf, phat, i):
     c, loc, scale = phat
     if i == 0:
         x_norm = (x - loc) / scale
-        return - 2 * logsf / x_norm - x_norm / 2.0
+        return -logsf / x_norm - x_norm / 2.0
     if i == 2:
-        return x - loc / (np.sqrt(c * c - 2 * logsf) - c)
+        return (x - loc) / (np.sqrt(c * c - 2 * logsf) - c)
     if i == 1:
         return x - scale * (np.sqrt(c * c - 2 * logsf) - c)
     raise IndexError('Index to the fixed parameter is out of bounds')
@@ -212,6 +212,7 @@ LINKS = dict(expon=_expon_link,
              genexpon=_genexpon_link,
              gumbel_r=_gumbel_r_link,
              rayleigh=_rayleigh_link,
+             truncrayleigh=_trunclayleigh_link,
              trunclayleigh=_trunclayleigh_link,
              genextreme=_genextreme_link,
              exponweib=_exponweib_link,
-- 
2.43.0


From ae5aaef6a5190eddf01702ddd8111cf7aacfe7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:51 +0000
Subject: [PATCH 096/157] fix: FitDistribution.fit ignored the method of the
 object

---
 src/wafo/stats/estimation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index 49a3ba4..9ef20b8 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -1169,6 +1169,7 @@ class FitDistribution(rv_frozen):
 
     def fit(self, *args, **kwds):
         """Fit the distribution to the data"""
+        self.method = kwds.setdefault('method', self.method)
         par, fixedn = self.dist._fit(self.data, *args, **kwds)
         super().__init__(self.dist, *par)
 
-- 
2.43.0


From aa80677d70cca7179ea72fc719e12d27cab46589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:26 +0000
Subject: [PATCH 097/157] fix: pbinom failed for floats and random numbers

---
 src/wafo/stats/distributions.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/wafo/stats/distributions.py b/src/wafo/stats/distributions.py
index 7593dc4..9ce5b40 100644
--- a/src/wafo/stats/distributions.py
+++ b/src/wafo/stats/distributions.py
@@ -272,19 +272,18 @@ class pbinom(rv_discrete):
         pass
 
 
-    def _rvs(self):
-        n = self._size
-        return sum((self._random_state.binomial(1, p) for p in self.probabilities))
+    def _rvs(self, size=None, random_state=None):
+        return sum(random_state.binomial(1, p, size=size) for p in self.probabilities)
 
     def _pmf(self, x):
-        return self._pmf_values[x]
+        return self._pmf_values[np.asarray(x, dtype=int)]
 
     def _sf(self, x):
         # val = super(pbinom, self)._sf(x)
-        return self._sf_values[x+1]
+        return self._sf_values[np.asarray(x, dtype=int) + 1]
 
     def _cdf(self, x):
-        return self._cdf_values[x]
+        return self._cdf_values[np.asarray(x, dtype=int)]
         # x = int(np.floor(x))
         # return sum((self._pmf(i) for i in range(0, x+1)))
 
-- 
2.43.0


From 6af83dade41dd2c595f569fd3e87f0c0d9517f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:26 +0000
Subject: [PATCH 098/157] fix: fit1 assumed sorted data for method mps and
 sorted the data of the caller for genextreme

---
 src/wafo/stats/_distn_infrastructure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/stats/_distn_infrastructure.py b/src/wafo/stats/_distn_infrastructure.py
index b15bbe4..9cd6d0d 100644
--- a/src/wafo/stats/_distn_infrastructure.py
+++ b/src/wafo/stats/_distn_infrastructure.py
@@ -415,6 +415,7 @@ def fit(self, data, *args, **kwargs):
 
 
 def _fit(self, data, *args, **kwargs):
+    data = np.sort(data, axis=None)
     args, kwds = _fitstart(self, data, args, kwargs.copy())
     x0, func, restore, args, fixedn = self._reduce_func2(args, kwds)
     if kwds.pop('search', True):
-- 
2.43.0


From b97d59d6169c23a45bf083f5ad66b3ff480c8f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:26 +0000
Subject: [PATCH 099/157] fix: fitting with the name of an optimizer failed

---
 src/wafo/stats/_distn_infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/_distn_infrastructure.py b/src/wafo/stats/_distn_infrastructure.py
index 9cd6d0d..d89d1be 100644
--- a/src/wafo/stats/_distn_infrastructure.py
+++ b/src/wafo/stats/_distn_infrastructure.py
@@ -275,7 +275,7 @@ def _reduce_func2(self, args, kwds):
 def _get_optimizer(kwds):
     optimizer = kwds.pop('optimizer', optimize.fmin)
     # convert string to function in scipy.optimize
-    if not callable(optimizer) and isinstance(optimizer, string_types):
+    if not callable(optimizer) and isinstance(optimizer, str):
         if not optimizer.startswith('fmin_'):
                 optimizer = '_'.join(("fmin", optimizer))
         try:
-- 
2.43.0


From 81353f61ea8e558b2f5ddb933f33fcd27b79e202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:18 +0000
Subject: [PATCH 100/157] fix: smoothn failed for missing values in matrices

---
 src/wafo/sg_filter/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index d5eb26b..b54c38b 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -368,7 +368,7 @@ class _Filter(object):
         if (1 - I).any():
             notI = ~I
             z, L = distance_transform_edt(notI, return_indices=True)
-            z[notI] = y[L.flat[notI]]
+            z[notI] = y[tuple(L)][notI]
 
         # coarse fast smoothing using one-tenth of the DCT coefficients
         shape = z.shape
-- 
2.43.0


From 6ae69f9c59ed830d993963ef9ba60fc1b4c51c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:18 +0000
Subject: [PATCH 101/157] fix: HampelFilter failed for integers

---
 src/wafo/sg_filter/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index b54c38b..639bdb3 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -1192,7 +1192,7 @@ class HampelFilter(object):
         return Y0, S0, ADX
 
     def __call__(self, y, x=None):
-        Y = np.atleast_1d(y).ravel()
+        Y = np.atleast_1d(y).ravel().astype(float)
         if x is None:
             x = range(len(Y))
         X = np.atleast_1d(x).ravel()
-- 
2.43.0


From ec9025b6634b14e134d45d324fa3e09596a37266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:18 +0000
Subject: [PATCH 102/157] fix: SavitzkyGolay failed for lists

---
 src/wafo/sg_filter/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index 639bdb3..21b6214 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -167,7 +167,7 @@ class SavitzkyGolay(object):
         return self.smooth(signal)
 
     def smooth(self, signal):
-        dtype = np.result_type(signal, float)
+        dtype = np.result_type(np.asarray(signal), float)
         x = np.asarray(signal, dtype=dtype)
 
         coeffs = self._coeff
-- 
2.43.0


From 2b102a58a2ac165380b210fe24580c4a124524b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:18 +0000
Subject: [PATCH 103/157] fix: SavitzkyGolay.smooth_last changed the filter and
 the sign of odd derivatives

---
 src/wafo/sg_filter/_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index 21b6214..14581d0 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -151,13 +151,13 @@ class SavitzkyGolay(object):
                                                     delta=delta)
 
     def smooth_last(self, signal, k=1):
-        coeff = self._coeff
+        coeff = self._coeff[::-1]
         n = (np.size(coeff) - 1) // 2
         y = np.squeeze(signal)
         if n == 0:
             return y
         if y.ndim > 1:
-            coeff.shape = (-1, 1)
+            coeff = coeff.reshape((-1,) + (1,) * (y.ndim - 1))
         first_vals = y[0] - np.abs(y[n:0:-1] - y[0])
         last_vals = y[-1] + np.abs(y[-2:-n - 2:-1] - y[-1])
         y = concatenate((first_vals, y, last_vals))
-- 
2.43.0


From ed11cdb7b3056d76d6bd9afe8bca2fabfc752164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:45 +0000
Subject: [PATCH 104/157] fix: PlotData.eval_points failed for surfaces

---
 src/wafo/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/containers.py b/src/wafo/containers.py
index 3371809..ff69af5 100644
--- a/src/wafo/containers.py
+++ b/src/wafo/containers.py
@@ -150,7 +150,7 @@ class PlotData(object):
                 Unless you fix this, the interpolation will not work!'''
                 warnings.warn(msg)
             else:
-                xi = np.meshgrid(*self.args)
+                xi = tuple(x.ravel() for x in np.meshgrid(*self.args))
                 return interpolate.griddata(xi, self.data.ravel(), points,
                                             **options)
         # One dimensional data
-- 
2.43.0


From af2185c0284c36180500c2f55bf870ad61ea2694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:45 +0000
Subject: [PATCH 105/157] fix: padua_fit failed for degree zero

---
 src/wafo/padua.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/padua.py b/src/wafo/padua.py
index 6cb6390..2f35e19 100644
--- a/src/wafo/padua.py
+++ b/src/wafo/padua.py
@@ -392,6 +392,8 @@ def padua_fit(Pad, fun, *args):
     # recover the degree n from N = (n+1)(n+2)/2
     n = int(round(-3 + np.sqrt(1 + 8 * N)) / 2)
     C0f = fun(Pad[0], Pad[1], *args)
+    if n == 0:
+        C0f = np.reshape(C0f, (1, 1))
     if (n > 0):
         ix = _find_m(n)
         GfT = np.zeros((n + 2) * (n + 1))
-- 
2.43.0


From cdfae89c71e4f69987b5a7fbcd4d0ad166cc124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:45 +0000
Subject: [PATCH 106/157] fix: names of the plot transformations

---
 src/wafo/containers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/containers.py b/src/wafo/containers.py
index ff69af5..cf8e122 100644
--- a/src/wafo/containers.py
+++ b/src/wafo/containers.py
@@ -506,9 +506,9 @@ def plotflag2transform_id(plotflag):
     transform_id = np.mod(plotflag // 10, 10)
     return ['f', '1-f',
             'cumtrapz(f)', '1-cumtrapz(f)',
-            'log(f)', 'log(1-f)'
-            'log(cumtrapz(f))', 'log(cumtrapz(f))',
-            'log10(f)'][transform_id]
+            'log(f)', 'log(1-f)',
+            'log(cumtrapz(f))', 'log(1-cumtrapz(f))',
+            '10log10(f)'][transform_id]
 
 
 def transform_id2plotflag2(transform_id):
-- 
2.43.0


From ec469d14d86bedae41a75ff30a1bdb0033ade15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:45 +0000
Subject: [PATCH 107/157] fix: plots of confidence intervals failed

---
 src/wafo/containers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/containers.py b/src/wafo/containers.py
index cf8e122..6c6b2ec 100644
--- a/src/wafo/containers.py
+++ b/src/wafo/containers.py
@@ -371,7 +371,7 @@ class Plotter_1d(object):
         x = wdata.args
         data = transformdata_1d(x, wdata.data, plotflag)
         dataCI = getattr(wdata, 'dataCI', ())
-        if dataCI:
+        if len(dataCI):
             dataCI = transformdata_1d(x, dataCI, plotflag)
         h1 = plot1d(axis, x, data, dataCI, plotflag, *args, **kwds)
         return h1
@@ -417,14 +417,14 @@ def plot1d(axis, args, data, dataCI, plotflag, *varargin, **kwds):
             h.extend(plotfun(args, dataCI, 'r--'))
     elif plottype == 4:
         h = axis.errorbar(args, data,
-                          yerr=[dataCI[:, 0] - data,
+                          yerr=[data - dataCI[:, 0],
                                 dataCI[:, 1] - data],
                           *varargin, **kwds)
     elif plottype == 6:
         h = axis.fill_between(args, data, 0, *varargin, **kwds)
     elif plottype == 7:
         h = axis.plot(args, data, *varargin, **kwds)
-        h.extend(axis.fill_between(args, dataCI[:, 0], dataCI[:, 1],
+        h.append(axis.fill_between(args, dataCI[:, 0], dataCI[:, 1],
                                    alpha=0.2, color='r'))
     fmax1 = data.max()
     set_plot_scale(axis, fmax1, plotflag)
-- 
2.43.0


From 05a3c1af2e8aee0ea607003ceff45da4b7809656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:47 +0000
Subject: [PATCH 108/157] fix: moving_average failed for lists and truncated
 integers

---
 src/wafo/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index af3d0e1..51da086 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -852,13 +852,13 @@ def moving_average(x, L, axis=0):
     _assert(L == np.round(L), 'L must be an integer')
 
     x1 = np.atleast_1d(x)
-    axes = np.arange(x.ndim)
+    axes = np.arange(x1.ndim)
 
     axes[0] = axis
     axes[axis] = 0
 
     x1 = np.transpose(x1, axes)
-    y = np.empty_like(x1)
+    y = np.empty_like(x1, dtype=np.result_type(x1, float))
 
     n = x1.shape[0]
     if n < 2 * L + 1:  # only able to remove the mean
-- 
2.43.0


From aa5cebd75c0c0d6b3e0d3db350dc487472913f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:47 +0000
Subject: [PATCH 109/157] fix: findoutliers reported missing values as good
 points

---
 src/wafo/misc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 51da086..1b2213d 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1718,7 +1718,7 @@ def findoutliers(x, zcrit=0.0, dcrit=None, ddcrit=None, verbose=False):
     _assert(2 < xn.size, 'The vector must have more than 2 elements!')
 
     i_missing = _find_nans(xn)
-    if np.any(i_missing):
+    if i_missing.size > 0:
         xn[i_missing] = 0.  # set NaN's to zero
     if dcrit is None:
         dcrit = 1.5 * xn.std()
@@ -1733,7 +1733,8 @@ def findoutliers(x, zcrit=0.0, dcrit=None, ddcrit=None, verbose=False):
     dxn = np.diff(xn)
     ddxn = np.diff(dxn)
 
-    ind = np.hstack((_find_spurious_jumps(dxn, dcrit, name='Dx'),
+    ind = np.hstack((i_missing,
+                     _find_spurious_jumps(dxn, dcrit, name='Dx'),
                      _find_spurious_jumps(ddxn, ddcrit, name='D^2x'),
                      _find_consecutive_equal_values(dxn, zcrit)))
 
-- 
2.43.0


From 8407e51a96ba344f5b026d87d61b3c6e8723de1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:47 +0000
Subject: [PATCH 110/157] fix: findoutliers kept single outliers among the good
 points

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 1b2213d..8f37566 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1739,7 +1739,7 @@ def findoutliers(x, zcrit=0.0, dcrit=None, ddcrit=None, verbose=False):
                      _find_consecutive_equal_values(dxn, zcrit)))
 
     indg = ones(xn.size, dtype=bool)
-    if ind.size > 1:
+    if ind.size > 0:
         ind = np.unique(ind)
         indg[ind] = 0
     indg, = np.nonzero(indg)
-- 
2.43.0


From 775f41ca3f70078302996573383a2ed13d284c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:47 +0000
Subject: [PATCH 111/157] fix: findoutliers missed the first of consecutive
 equal values

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 8f37566..35a3f92 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1710,7 +1710,7 @@ def findoutliers(x, zcrit=0.0, dcrit=None, ddcrit=None, verbose=False):
             # indices to consecutive equal points
             # removing the point before + all equal points + the point after
 
-            return np.hstack((i_step - 1, i_small, i_step, i_step + 1))
+            return np.hstack((i_step - 1, i_small - 1, i_small, i_step, i_step + 1))
         return i_small
 
     xn = np.asarray(x).flatten()
-- 
2.43.0


From 4329725e299cf4b67a6ed5f1d3a7880dbc5babdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:47 +0000
Subject: [PATCH 112/157] fix: getshipchar gave a deviation for a known
 deadweight

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 35a3f92..36fd66e 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1912,7 +1912,7 @@ def _get_max_deadweight(**ship_property):
     name = names[0]
     value = np.array(ship_property[name])
     valid_props = dict(le='length', be='beam', dr='draught',
-                       ma='max_deadweigth',
+                       ma='max_deadweight',
                        se='service_speed', pr='propeller_diameter')
     prop = valid_props[name[:2]]
     prop2max_dw = dict(length=lambda x: (x / 3.45) ** (2.5),
-- 
2.43.0


From fa925ba56dd42ec4b780429dce01337b00267dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:47 +0000
Subject: [PATCH 113/157] fix: fourier coefficients were scaled for period 2*pi
 only

---
 src/wafo/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 36fd66e..9453b65 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2906,8 +2906,8 @@ def fourier(data, t=None, period=None, m=None, method='trapz'):
         a[i] = intfun(x * cos(i * tmp), t, axis=-1)
         b[i] = intfun(x * sin(i * tmp), t, axis=-1)
 
-    a = a / pi
-    b = b / pi
+    a = a * 2 / period
+    b = b * 2 / period
 
     # Alternative:  faster for large M, but gives different results than above.
 #    nper = np.diff(t([1 end]))/period; # Number of periods given
-- 
2.43.0


From 248f5ab2355aff6899f8be32197ffd9176a55bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:47 +0000
Subject: [PATCH 114/157] fix: fourier changed the shape of the time vector

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 9453b65..f316763 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2895,7 +2895,7 @@ def fourier(data, t=None, period=None, m=None, method='trapz'):
     intfun = trapz if method.startswith('trapz') else simps
 
     # Define the vectors for computing the Fourier coefficients
-    t.shape = (1, -1)
+    t = t.reshape(1, -1)
     a = zeros((m, p))
     b = zeros((m, p))
     a[0] = intfun(x, t, axis=-1)
-- 
2.43.0


From ae04901c4ef1ef768188845aa108a61b5405f84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:47 +0000
Subject: [PATCH 115/157] fix: plot_histgrm changed the shape of the bins

---
 src/wafo/misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index f316763..f0c5ddf 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2724,6 +2724,7 @@ def _histogram(data, bins=None, range=None, density=False, weights=None):  # @Re
                                 range=range,
                                 weights=weights,
                                 density=density)
+    limits = limits.copy()
     xx, yy = _make_bars(limits, bin_)
     return xx, yy, limits
 
-- 
2.43.0


From df511fe27acd4af99cb8a4a24bf1c590a03c0af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:35 +0000
Subject: [PATCH 116/157] fix: texts of earlier plots were never deleted

---
 src/wafo/graphutil.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/wafo/graphutil.py b/src/wafo/graphutil.py
index 5e4052c..341fd80 100644
--- a/src/wafo/graphutil.py
+++ b/src/wafo/graphutil.py
@@ -51,11 +51,10 @@ def delete_text_object(gidtxt, figure=None, axis=None, verbose=False):
         msg = "Tried to delete a non-existing {0} from {1}".format(gidtxt,
                                                                    name)
         for obj in objs:
-            try:
-                handle.texts.remove(obj)
-            except:
-                if verbose:
-                    warnings.warn(msg)
+            if obj in handle.texts:
+                obj.remove()
+            elif verbose:
+                warnings.warn(msg)
 
     for handle in [axis, figure]:
         _delete_gid_objects(handle, gidtxt, verbose)
-- 
2.43.0


From 240516fbebb393d21bfd114b17da6149f0e156b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:35 +0000
Subject: [PATCH 117/157] fix: tallibing failed with current matplotlib

---
 src/wafo/graphutil.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wafo/graphutil.py b/src/wafo/graphutil.py
index 341fd80..2c55600 100644
--- a/src/wafo/graphutil.py
+++ b/src/wafo/graphutil.py
@@ -8,7 +8,6 @@ license BSD
 import warnings
 import numpy as np
 from .plotbackend import plotbackend
-from matplotlib import mlab
 __all__ = ['cltext', 'epcolor', 'tallibing', 'test_docstrings']
 
 _TALLIBING_GID = 'TALLIBING'
@@ -210,7 +209,7 @@ def tallibing(*args, **kwds):
         axis = plotbackend.gca()
 
     x, y, n = _parse_data(*args, **kwds)
-    if mlab.isvector(x) or mlab.isvector(y):
+    if np.ndim(x) == 1 or np.ndim(y) == 1:
         x, y = np.meshgrid(x, y)
 
     n = np.round(n)
-- 
2.43.0


From 4dd301926fad49d060ac18e1abb0179f0df291ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:35 +0000
Subject: [PATCH 118/157] fix: import of all names of graphutil failed

---
 src/wafo/graphutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/graphutil.py b/src/wafo/graphutil.py
index 2c55600..bc55e4d 100644
--- a/src/wafo/graphutil.py
+++ b/src/wafo/graphutil.py
@@ -8,7 +8,7 @@ license BSD
 import warnings
 import numpy as np
 from .plotbackend import plotbackend
-__all__ = ['cltext', 'epcolor', 'tallibing', 'test_docstrings']
+__all__ = ['cltext', 'tallibing', 'test_docstrings']
 
 _TALLIBING_GID = 'TALLIBING'
 _CLTEXT_GID = 'CLTEXT'
-- 
2.43.0


From 126188262399af0d216ea02eda7af01ae98bde80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:10 +0000
Subject: [PATCH 119/157] fix: tallibing failed for coordinate vectors

---
 src/wafo/graphutil.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/wafo/graphutil.py b/src/wafo/graphutil.py
index bc55e4d..6ae2bbf 100644
--- a/src/wafo/graphutil.py
+++ b/src/wafo/graphutil.py
@@ -239,10 +239,8 @@ def _parse_data(*args, **kwds):
         y = np.arange(M)
     elif nargin == 3:
         x, y = np.atleast_1d(*args[:-1])
-        if min(x.shape) != 1:
-            x = x[0]
-        if min(y.shape) != 1:
-            y = y[:, 0]
+        x = x[0] if x.ndim > 1 and min(x.shape) != 1 else x.ravel()
+        y = y[:, 0] if y.ndim > 1 and min(y.shape) != 1 else y.ravel()
     else:
         raise ValueError(
             'Requires 3 or 1 in arguments! (x,y,data) or (data)')
-- 
2.43.0


From 23c3b171649451a9b3f960ecee798c3ab8f5590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:10 +0000
Subject: [PATCH 120/157] fix: tallibing failed for positions given at the
 corners

---
 src/wafo/graphutil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wafo/graphutil.py b/src/wafo/graphutil.py
index 6ae2bbf..d763f45 100644
--- a/src/wafo/graphutil.py
+++ b/src/wafo/graphutil.py
@@ -208,7 +208,8 @@ def tallibing(*args, **kwds):
     if axis is None:
         axis = plotbackend.gca()
 
-    x, y, n = _parse_data(*args, **kwds)
+    mid_points = kwds.pop('mid_points', kwds.pop('mid_point', True))
+    x, y, n = _parse_data(*args, mid_point=mid_points)
     if np.ndim(x) == 1 or np.ndim(y) == 1:
         x, y = np.meshgrid(x, y)
 
-- 
2.43.0


From 0d35ac2b969aed682d65de2089c22a9e3ac27983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:31 +0000
Subject: [PATCH 121/157] fix: nt2fr took the last column for the first corner
 of each cell

---
 src/wafo/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/markov.py b/src/wafo/markov.py
index 2830831..c4fa2f0 100644
--- a/src/wafo/markov.py
+++ b/src/wafo/markov.py
@@ -26,7 +26,7 @@ def nt2fr(nt, kind=0):
     """
 
     n = len(nt)
-    fr_raw = (nt[:n - 1, :][:, n - 1] + nt[1:, :][:, 1:] -
+    fr_raw = (nt[:n - 1, :][:, :n - 1] + nt[1:, :][:, 1:] -
               nt[:n - 1, :][:, 1:] - nt[1:, :][:, :n - 1])
 
     fr = np.zeros(np.shape(nt))
-- 
2.43.0


From 9404eac9f9f9abd819798ad4265c583b9226fd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:31 +0000
Subject: [PATCH 122/157] fix: fr2nt failed for every matrix

---
 src/wafo/markov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/markov.py b/src/wafo/markov.py
index c4fa2f0..3ac1a79 100644
--- a/src/wafo/markov.py
+++ b/src/wafo/markov.py
@@ -58,9 +58,9 @@ def fr2nt(fr):
     if n != m:
         raise ValueError('The matrix is not square!')
 
-    m1 = np.cumsum(np.cumsum(fr, axis=1) - fr)
+    m1 = np.cumsum(np.cumsum(fr, axis=1) - fr, axis=0)
     m2 = np.zeros((n, n))
-    m2[1:, 1:] = m1[:n - 2, :][:, 1:]
+    m2[1:, 1:] = m1[:n - 1, :][:, 1:]
     nt = np.fliplr(np.triu(np.fliplr(m2), 0))
 
     return nt
-- 
2.43.0


From dc5900690551263dd3c7e10e6e739e4330114825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:31 +0000
Subject: [PATCH 123/157] fix: mktestmat did not set the diagonal to zero

---
 src/wafo/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/markov.py b/src/wafo/markov.py
index 3ac1a79..29fbf8d 100644
--- a/src/wafo/markov.py
+++ b/src/wafo/markov.py
@@ -802,7 +802,7 @@ def mktestmat(param=(-1, 1, 32), x0=None, s=None, lam=1, numsubzero=0):
                                  [lam**2 - 1, lam**2 + 1]])
     Sm1 = np.linalg.pinv(S)
     for i in range(min(n - 1 - numsubzero, n)):
-        for j in range(max(i + numsubzero, 0), n):
+        for j in range(max(i + 1 + numsubzero, 0), n):
             dx = np.array([u[i], u[j]]) - x0
             F[i, j] = np.exp(-1 / 2 * np.dot(np.dot(dx, Sm1), dx))
 
-- 
2.43.0


From 46ce1f7d2a4ba56b60dc26d1c0dc1a69a065bf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:37 +0000
Subject: [PATCH 124/157] fix: plots of cumulative integrals failed

---
 src/wafo/containers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/wafo/containers.py b/src/wafo/containers.py
index 6c6b2ec..8b94fb8 100644
--- a/src/wafo/containers.py
+++ b/src/wafo/containers.py
@@ -373,6 +373,7 @@ class Plotter_1d(object):
         dataCI = getattr(wdata, 'dataCI', ())
         if len(dataCI):
             dataCI = transformdata_1d(x, dataCI, plotflag)
+        x = x[len(x) - len(data):]  # cumtrapz leaves out the first point
         h1 = plot1d(axis, x, data, dataCI, plotflag, *args, **kwds)
         return h1
     __call__ = plot
@@ -523,12 +524,12 @@ def transformdata_1d(x, f, plotflag):
     transform_id = np.mod(plotflag // 10, 10)
     transform = [lambda f, x: f,
                  lambda f, x: 1 - f,
-                 cumtrapz,
-                 lambda f, x: 1 - cumtrapz(f, x),
+                 lambda f, x: cumtrapz(f, x, axis=0),
+                 lambda f, x: 1 - cumtrapz(f, x, axis=0),
                  lambda f, x: np.log(f),
                  lambda f, x: np.log1p(-f),
-                 lambda f, x: np.log(cumtrapz(f, x)),
-                 lambda f, x: np.log1p(-cumtrapz(f, x)),
+                 lambda f, x: np.log(cumtrapz(f, x, axis=0)),
+                 lambda f, x: np.log1p(-cumtrapz(f, x, axis=0)),
                  lambda f, x: 10 * np.log10(f)
                  ][transform_id]
     return transform(f, x)
-- 
2.43.0


From 91c72ee1c115837b8afa652ca29ec4a69d326864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:34 +0000
Subject: [PATCH 125/157] fix: entropy of truncrayleigh ignored the truncation

---
 src/wafo/stats/distributions.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/wafo/stats/distributions.py b/src/wafo/stats/distributions.py
index 9ce5b40..51e8301 100644
--- a/src/wafo/stats/distributions.py
+++ b/src/wafo/stats/distributions.py
@@ -16,7 +16,6 @@ except ImportError:
 
 from scipy.stats import _continuous_distns
 from scipy.stats import _discrete_distns
-from scipy.stats._constants import _EULER
 # from scipy.stats._continuous_distns import *
 # from scipy.stats._discrete_distns import *
 import scipy.special as sc
@@ -221,10 +220,6 @@ class truncrayleigh_gen(rv_continuous):
                 2 * (pi - 3) * np.sqrt(pi) / val ** 1.5,
                 6 * pi / val - 16 / val ** 2)
 
-    def _entropy(self, c):
-        # TODO: correct this it is wrong!
-        return _EULER / 2.0 + 1 - 0.5 * np.log(2)
-
 
 truncrayleigh = truncrayleigh_gen(a=0.0, name="truncrayleigh", shapes='c')
 truncrayleigh.__doc__ = truncrayleigh.__doc__.replace("scipy.stats", "wafo.stats")
-- 
2.43.0


From c1e17182467d080d871f9af8a7f81347a4f14b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:36 +0000
Subject: [PATCH 126/157] fix: TKDE failed for negative powers of the
 transformation

---
 src/wafo/kdetools/kdetools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index ce16558..68d3d19 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -392,7 +392,7 @@ class TKDE(_KDE):
 
         tpoints = copy.copy(points) if isinstance(points, list) else np.array(points, dtype=float)
         for i, v2 in enumerate(L2.tolist()):
-            tpoints[i] = np.log(points[i]) if v2 == 0 else points[i] ** v2
+            tpoints[i] = np.log(points[i]) if v2 == 0 else np.sign(v2) * points[i] ** v2
         return tpoints
 
     def _inverse_transform(self, tpoints):
@@ -404,7 +404,7 @@ class TKDE(_KDE):
         points = copy.copy(tpoints)
         for i, v2 in enumerate(L2.tolist()):
             points[i] = np.exp(
-                tpoints[i]) if v2 == 0 else tpoints[i] ** (1.0 / v2)
+                tpoints[i]) if v2 == 0 else (np.sign(v2) * tpoints[i]) ** (1.0 / v2)
         return points
 
     def _scale_pdf(self, pdf, points):
-- 
2.43.0


From df4a841e150453a8f7965b5fdf9d85a7535861c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:36 +0000
Subject: [PATCH 127/157] fix: k2w returned directions of another shape than
 the frequencies

---
 src/wafo/wave_theory/dispersion_relation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/wave_theory/dispersion_relation.py b/src/wafo/wave_theory/dispersion_relation.py
index 0690d5e..7faa5c1 100644
--- a/src/wafo/wave_theory/dispersion_relation.py
+++ b/src/wafo/wave_theory/dispersion_relation.py
@@ -79,7 +79,7 @@ def k2w(k1, k2=0e0, h=inf, g=9.81, u1=0e0, u2=0e0):
     ku1 = k1i * u1i
     ku2 = k2i * u2i
 
-    theta = arctan2(k2, k1)
+    theta = arctan2(k2i, k1i)
 
     k = sqrt(k1i ** 2 + k2i ** 2)
     w = where(k > 0, ku1 + ku2 + sqrt(gi * k * tanh(k * hi)), 0.0)
-- 
2.43.0


From 9af870a744025cd828bf1d953b045a9fb7832254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:36 +0000
Subject: [PATCH 128/157] fix: w2k and k2w returned one array only for empty
 input

---
 src/wafo/wave_theory/dispersion_relation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/wave_theory/dispersion_relation.py b/src/wafo/wave_theory/dispersion_relation.py
index 7faa5c1..bb56754 100644
--- a/src/wafo/wave_theory/dispersion_relation.py
+++ b/src/wafo/wave_theory/dispersion_relation.py
@@ -75,7 +75,7 @@ def k2w(k1, k2=0e0, h=inf, g=9.81, u1=0e0, u2=0e0):
     k1i, k2i, hi, gi, u1i, u2i = np.broadcast_arrays(k1, k2, h, g, u1, u2)
 
     if np.size(k1i) == 0:
-        return zeros_like(k1i)
+        return zeros_like(k1i), zeros_like(k1i)
     ku1 = k1i * u1i
     ku2 = k2i * u2i
 
@@ -146,7 +146,7 @@ def w2k(w, theta=0.0, h=inf, g=9.81, count_limit=100, rtol=1e-7, atol=1e-14):
     gi = atleast_1d(g)
     wi, th, hi = np.broadcast_arrays(w, theta, h)
     if wi.size == 0:
-        return zeros_like(wi)
+        return zeros_like(wi), zeros_like(wi)
 
     k = 1.0 * sign(wi) * wi ** 2.0 / gi[0]  # deep water
     if (hi > 1e25).all():
-- 
2.43.0


From 2751147352098a78765bec94835cbf2abeb3f7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:41 +0000
Subject: [PATCH 129/157] fix: check an estimated transformation against the
 raw one in the same units

The raw transformation from the crossings was given over normalised levels
and the smoothed one over levels, so the check for a strictly increasing
transformation failed with an interpolation range error for data with a mean.
---
 src/wafo/transform/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/transform/estimation.py b/src/wafo/transform/estimation.py
index 5cab43c..2395486 100644
--- a/src/wafo/transform/estimation.py
+++ b/src/wafo/transform/estimation.py
@@ -289,7 +289,7 @@ class TransformEstimator(object):
         g = TrData(slc22.copy(), g1.copy(), mean=mean, sigma=sigma)
 
         if self.chkder:
-            tr_raw = TrData(lc22[inds], lc11[inds], mean=mean, sigma=sigma)
+            tr_raw = TrData(lc22[inds], lc1[inds], mean=mean, sigma=sigma)
             g = self._check_tr(g, tr_raw)
 
         if self.plotflag > 0:
-- 
2.43.0


From a71d55b6bce08e735523cd403281c2722c7ffc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:41 +0000
Subject: [PATCH 130/157] fix: TimeSeries.trdata returns two transformations
 for every method

The Hermite and Ochi methods returned a single object, so the documented
unpacking and SpecData1D.testgaussian failed.
---
 src/wafo/transform/estimation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wafo/transform/estimation.py b/src/wafo/transform/estimation.py
index 2395486..6918591 100644
--- a/src/wafo/transform/estimation.py
+++ b/src/wafo/transform/estimation.py
@@ -445,9 +445,11 @@ class TransformEstimator(object):
             up = min(4 * (4 * ga1 / 3) ** 2, 13)
             lo = (ga1 ** 2) * 3 / 2
             kurt1 = min(up, max(ga2, lo)) + 3
-            return TrHermite(mean=ma, var=sa ** 2, skew=ga1, kurt=kurt1)
+            tr = TrHermite(mean=ma, var=sa ** 2, skew=ga1, kurt=kurt1)
+            return tr, tr
         elif method[0] == 'o':
             ga1 = skew(data)
-            return TrOchi(mean=ma, var=sa ** 2, skew=ga1)
+            tr = TrOchi(mean=ma, var=sa ** 2, skew=ga1)
+            return tr, tr
 
     __call__ = trdata
-- 
2.43.0


From 3b20bb4a044041fbe08da2644983bfa5c5e3d9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:01 +0000
Subject: [PATCH 131/157] fix: the upper limit of an extrapolated crossing
 spectrum belongs to a bounded tail

The generalised Pareto tail (1 + c*x/s)**(-1/c) ends at -s/c for c < 0; the
limit was reported for the unbounded case c > 0 only.
---
 src/wafo/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index 7e997e0..7c85a6c 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -288,8 +288,8 @@ class LevelCrossings(PlotData):
             # Calculate 90 # confidence region, an ellipse, for (k,s)
             D, B = np.linalg.eig(covar)
             b = phat.par[::2]
-            if b[0] > 0:
-                phat.upperlimit = u + b[1] / b[0]
+            if b[0] < 0:
+                phat.upperlimit = u - b[1] / b[0]
 
             r = sqrt(-2 * log(1 - 90 / 100))  # 90 # confidence sphere
             Nc = 16 + 1
-- 
2.43.0


From bb513c78cbe10b42a80bedd025da1b9c79a7e8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:01 +0000
Subject: [PATCH 132/157] fix: LevelCrossings.sim starts from the stationary
 distribution

The second value given the first was drawn with the variance of a process
whose correlation at lag one is r2 in place of r1.
---
 src/wafo/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index 7c85a6c..35a1220 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -432,7 +432,7 @@ class LevelCrossings(PlotData):
         e = randn(ns) * sqrt(sigma2)
         e[:2] = 0.0
         L0 = randn(1)
-        L0 = np.hstack((L0, r1 * L0 + sqrt(1 - r2 ** 2) * randn(1)))
+        L0 = np.hstack((L0, r1 * L0 + sqrt(1 - r1 ** 2) * randn(1)))
         # Simulate the process, starting in L0
         z0 = lfilter([1, a1, a2], np.ones(1), L0)
         L, unused_zf = lfilter(np.ones(1), [1, a1, a2], e, axis=0, zi=z0)
-- 
2.43.0


From d0cbc570d1da271eaf2422612a76a46d3889971a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:20 +0000
Subject: [PATCH 133/157] fix: check an estimated transformation of data
 outside the tabulated range

The smoothing variance was interpolated with a range error for observations
beyond param when the transformation is not increasing.
---
 src/wafo/transform/estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/transform/estimation.py b/src/wafo/transform/estimation.py
index 6918591..275c4c4 100644
--- a/src/wafo/transform/estimation.py
+++ b/src/wafo/transform/estimation.py
@@ -6,7 +6,7 @@ Created on 8. mai 2014
 from .core import TrData
 from .models import TrHermite, TrOchi, TrLinear
 from wafo.stats import edf, skew, kurtosis
-from ..interpolate import SmoothSpline, interp1d
+from ..interpolate import SmoothSpline
 from scipy.special import ndtri as invnorm
 from scipy.integrate import cumtrapz
 import warnings
@@ -108,7 +108,7 @@ class TransformEstimator(object):
             if (dy <= 0).any():
                 dy[dy > 0] = eps
                 gvar = -(np.hstack((dy, 0)) + np.hstack((0, dy))) / 2 + eps
-                gvar = interp1d(tr.args, gvar)(tr_raw.args)
+                gvar = np.interp(tr_raw.args, tr.args, gvar)
                 pp_tr = SmoothSpline(tr_raw.args, tr_raw.data, p=1,
                                      lin_extrap=self.linextrap,
                                      var=ix * gvar)
-- 
2.43.0


From 97646579be0066ede92d6c78959c4a752b9b2414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:12 +0000
Subject: [PATCH 134/157] fix: to_mm_pdf ignored the condition between the
 extremes for nit > 1

The flag that tells whether there is anything to condition on is set in the
first call only and was not kept between calls, so the later calls returned
the density without the condition (total probability about 1.7).
---
 source/mreg/mregmodule.f | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/mreg/mregmodule.f b/source/mreg/mregmodule.f
index ea63063..c2adb9e 100644
--- a/source/mreg/mregmodule.f
+++ b/source/mreg/mregmodule.f
@@ -438,8 +438,8 @@ C
       REAL*8, DIMENSION(NMAX), intent(inout) :: BU,DB, SQ
       INTEGER, intent(in) :: NIT,N,INFR
       REAL*8 SDER
-      INTEGER, save :: NNIT
-      INTEGER I,III
+      INTEGER, save :: NNIT, III
+      INTEGER I
 C     DIMENSION R(1),BU(1),SQ(1),DB(1)
 C     DIMENSION INF(10),INFO(10),HH(101)
 C     COMMON /TBR/ HH
-- 
2.43.0


From 9262116d0a37f2d150a1a068f66d242ec50c9f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:28 +0000
Subject: [PATCH 135/157] fix: to_t_pdf gave the density of crest periods for
 troughs

The kinds Tt and Lt returned the same density as Tc and Lc, which differs
from that of the troughs when the level is not the mean.
---
 src/wafo/spectrum/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index fb52cb7..c90180b 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -1398,6 +1398,9 @@ class SpecData1D(PlotData):
                 ceil(2 * pi * A * exp(z) * (0.5 + erf(z) / 2))
             paramt = [0, expectedMaxPeriod, 51]
 
+        # a trough below u is a crest above -u of the (symmetric) process -Y
+        un = sign(defnr) * un
+
         t0 = paramt[0]
         tn = paramt[1]
         Ntime = paramt[2]
-- 
2.43.0


From afdad58980fdfc26df872cecab0c82be2d8b0dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:31 +0000
Subject: [PATCH 136/157] fix: SpecData1D.normalize scales wave number spectra
 as well

---
 src/wafo/spectrum/core.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index c90180b..ab56a16 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -3586,12 +3586,9 @@ class SpecData1D(PlotData):
         A = SM0 / SM2
         B = SM2 / (SM0 * m0)
 
-        if self.freqtype == 'f':
-            self.args = self.args * A
-            self.data = self.data * B
-        elif self.freqtype == 'w':
-            self.args = self.args * A
-            self.data = self.data * B
+        self.args = self.args * A
+        self.data = self.data * B
+        if self.freqtype == 'w':
             m02 = m4 / gravity ** 2
             m20 = m02
             self.g = gravity * sqrt(m0 * m20) / m2
-- 
2.43.0


From 6a4e5d5cbfc4e1d58c1feea3feef45baa6a42b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:12 +0000
Subject: [PATCH 137/157] fix: to_t_pdf raised TypeError when paramt was not
 given

---
 src/wafo/spectrum/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index ab56a16..65fbafb 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -1384,10 +1384,11 @@ class SpecData1D(PlotData):
             g = self.tr
 
         if u is None:
-            u = g.gauss2dat(0)  # % most frequently crossed level
+            # % most frequently crossed level
+            u = float(np.ravel(g.gauss2dat(0))[0])
 
         # transform reference level into Gaussian level
-        un = g.dat2gauss(u)
+        un = float(np.ravel(g.dat2gauss(u))[0])
 
         # disp(['The level u for Gaussian process = ', num2str(u)])
 
-- 
2.43.0


From 7e357d519ca11fb8253ef1ba68f79158c3ff5754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:12 +0000
Subject: [PATCH 138/157] fix: to_mm_pdf returned the density upside down
 unless symmetric

---
 src/wafo/spectrum/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 65fbafb..f409e13 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -1286,7 +1286,7 @@ class SpecData1D(PlotData):
 
         cov2mod.initinteg(EPS, EPSS, EPS0, C, IAC, ISQ)
         uvdens = cov2mod.cov2mmpdfreg(t, R, h, h, Tg, Xg, nit)
-        uvdens = np.rot90(uvdens, -2)
+        uvdens = uvdens.T  # one column per maximum, one row per minimum
 
         dh = h[1] - h[0]
         uvdens *= dh * dh
-- 
2.43.0


From 0373c98bf191493eb5129c475d0e3b39ea3659ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:44 +0000
Subject: [PATCH 139/157] fix: default period range of to_t_pdf did not follow
 the mean excursion time

---
 src/wafo/spectrum/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index f409e13..fbd5048 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -1393,10 +1393,10 @@ class SpecData1D(PlotData):
         # disp(['The level u for Gaussian process = ', num2str(u)])
 
         if paramt is None:
-            # z2 = u^2/2
+            z2 = un ** 2 / 2
             z = -sign(defnr) * un / sqrt(2)
             expectedMaxPeriod = 2 * \
-                ceil(2 * pi * A * exp(z) * (0.5 + erf(z) / 2))
+                ceil(2 * pi * A * exp(z2) * (0.5 + erf(z) / 2))
             paramt = [0, expectedMaxPeriod, 51]
 
         # a trough below u is a crest above -u of the (symmetric) process -Y
-- 
2.43.0


From a6e29e5eedfd5f1d7518de938bec55531f7c7d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:57 +0000
Subject: [PATCH 140/157] fix: fitting betaprime raised ValueError (start
 values mixed arrays and scalars)

---
 src/wafo/stats/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/distributions.py b/src/wafo/stats/distributions.py
index 51e8301..de2fc4b 100644
--- a/src/wafo/stats/distributions.py
+++ b/src/wafo/stats/distributions.py
@@ -26,7 +26,7 @@ from scipy.stats.mstats_basic import mode
 
 def _betaprime_fitstart(self, data, fitstart):  # pab
     g1 = np.mean(data)
-    g2 = mode(data)[0]
+    g2 = np.ravel(mode(data)[0])[0]
 
     def func(x):
         a, b = x
-- 
2.43.0


From 31f0b4e2b3ae165a2335ce4a1cf0347bf611ea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:57 +0000
Subject: [PATCH 141/157] fix: fitting bradford raised ValueError (start value
 was an array)

---
 src/wafo/stats/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/distributions.py b/src/wafo/stats/distributions.py
index de2fc4b..179df13 100644
--- a/src/wafo/stats/distributions.py
+++ b/src/wafo/stats/distributions.py
@@ -43,7 +43,7 @@ def _bradford_fitstart(self, data, fitstart):  # pab
     m = np.mean((data - loc) / scale)
     fun = lambda c: (c - sc.log1p(c)) / (c * sc.log1p(c)) - m
     res = optimize.root(fun, 0.3)
-    c = res.x
+    c = res.x[0]
     return c, loc, scale
 
 
-- 
2.43.0


From 1c974af45de0f10d060f6a35556fb35a77028986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:57 +0000
Subject: [PATCH 142/157] fix: fitting nct raised ValueError (start value was
 an array)

---
 src/wafo/stats/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/distributions.py b/src/wafo/stats/distributions.py
index 179df13..5aeff8a 100644
--- a/src/wafo/stats/distributions.py
+++ b/src/wafo/stats/distributions.py
@@ -139,7 +139,7 @@ def _nct_fitstart(self, data, fitstart):  # pab
                                                  3 * df))
 
     df0 = np.maximum(2 * sa / (sa - 1), 1)
-    df = optimize.fsolve(func, df0)
+    df = optimize.fsolve(func, df0)[0]
     mu = me * (1 - 3 / (4 * df - 1))
     return fitstart(data, args=(df, mu))
 
-- 
2.43.0


From fc494efdb1fcaa65b412fcdead27dcb891d51c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:57 +0000
Subject: [PATCH 143/157] fix: fitting reciprocal raised TypeError

---
 src/wafo/stats/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/distributions.py b/src/wafo/stats/distributions.py
index 5aeff8a..e7ff14d 100644
--- a/src/wafo/stats/distributions.py
+++ b/src/wafo/stats/distributions.py
@@ -153,7 +153,7 @@ def _reciprocal_fitstart(self, data, fitstart):
         da = np.abs(a) + 0.001
         a += da
         b += da
-    return fitstart(data, args=(a, b))
+    return (a, b) + tuple(self._fit_loc_scale_support(data, a, b))
 
 
 class truncrayleigh_gen(rv_continuous):
-- 
2.43.0


From 03c4808665a3eced30210a500ba53d50474dedf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:57 +0000
Subject: [PATCH 144/157] fix: genextreme.fit sorted the data of the caller in
 place

---
 src/wafo/stats/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/distributions.py b/src/wafo/stats/distributions.py
index e7ff14d..c76a323 100644
--- a/src/wafo/stats/distributions.py
+++ b/src/wafo/stats/distributions.py
@@ -90,7 +90,7 @@ def _genextreme_fitstart(self, data, fitstart): # pab
     # Probability weighted moments
     log = np.log
     n = len(d)
-    d.sort()
+    d = np.sort(d)
     koeff1 = np.r_[0:n] / (n - 1)
     koeff2 = koeff1 * (np.r_[0:n] - 1) / (n - 2)
     b2 = np.dot(koeff2, d) / n
-- 
2.43.0


From e8b88ac0771175a56d6fdf19d36841f3f7292134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:20 +0000
Subject: [PATCH 145/157] fix: ncx2 fit started from negative degrees of
 freedom for shifted data and returned them

---
 src/wafo/stats/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/stats/distributions.py b/src/wafo/stats/distributions.py
index c76a323..6845cc0 100644
--- a/src/wafo/stats/distributions.py
+++ b/src/wafo/stats/distributions.py
@@ -122,8 +122,8 @@ def _ncx2_fitstart(self, data, fitstart): # pab
     m = data.mean()
     v = data.var()
     # Supply a starting guess with method of moments:
-    nc = (v / 2 - m) / 2
-    df = m - nc
+    nc = max((v / 2 - m) / 2, 0.1)
+    df = max(m - nc, 0.1)
     return fitstart(data, args=(df, nc))
 
 
-- 
2.43.0


From 300391e26bddf64039c5aa479f3c7e38fae805ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:30 +0000
Subject: [PATCH 146/157] fix: sim_nl left the topmost frequency out of the
 second order correction

---
 src/wafo/spectrum/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index fbd5048..0b80a4b 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -2965,8 +2965,9 @@ class SpecData1D(PlotData):
         f_limit_lo = sqrt(g * tanh(kbar * water_depth) *
                           amp_max / water_depth) / (2 * pi * water_depth)
 
-        nmax = min(flatnonzero(f <= f_limit_up).max(), nmax) + 1
-        nmin = max(flatnonzero(f_limit_lo <= f).min(), nmin) + 1
+        # disufq numbers the frequencies from 1, and f starts at its second one
+        nmax = min(flatnonzero(f <= f_limit_up).max(), nmax) + 2
+        nmin = max(flatnonzero(f_limit_lo <= f).min(), nmin) + 2
 
         # if isempty(nmax),nmax = np/2end
         # if isempty(nmin),nmin = 2end % Must always be greater than 1
-- 
2.43.0


From 56e8eea1a621fd5e935b450df617fbf5a97fc3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:59 +0000
Subject: [PATCH 147/157] fix: confidence limits of the estimated spectrum were
 in reversed order

---
 src/wafo/objects.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index 35a1220..e50e568 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -1535,8 +1535,9 @@ class TimeSeries(PlotData):
 
         if alpha is not None:
             # Confidence interval constants
-            spec.CI = [dof / _invchi2(1 - alpha / 2, dof),
-                       dof / _invchi2(alpha / 2, dof)]
+            # (lower and upper limit; _invchi2 inverts the upper tail)
+            spec.CI = [dof / _invchi2(alpha / 2, dof),
+                       dof / _invchi2(1 - alpha / 2, dof)]
         spec.freqtype = ftype
         spec.tr = tr
         spec.L = L
-- 
2.43.0


From 3b7f5f7e3fe2e2d27feb66f62e3ae4466ad21bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:00 +0000
Subject: [PATCH 148/157] fix: tospecdata raised TypeError or ValueError for
 all windows but parzen and bartlett

---
 src/wafo/objects.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index e50e568..cf52a60 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -1410,9 +1410,15 @@ class TimeSeries(PlotData):
         '''
         if isinstance(wname, tuple):
             wname = wname[0]
-        dof = int(dict(parzen=3.71,
-                       hanning=2.67,
-                       bartlett=3).get(wname, np.nan) * n / L)
+        if not isinstance(wname, str):  # window values
+            wname = ''
+        elif wname == 'hann':
+            wname = 'hanning'
+        dof = dict(parzen=3.71,
+                   hanning=2.67,
+                   bartlett=3).get(wname, np.nan) * n / L
+        if not np.isnan(dof):
+            dof = int(dof)
         Be = dict(parzen=1.33, hanning=1,
                   bartlett=1.33).get(wname, np.nan) * 2 * pi / (L * dt)
         if ftype == 'f':
-- 
2.43.0


From 25b19b727d072b8e36367b57a0cb51fc45595767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:41 +0000
Subject: [PATCH 149/157] fix: parametric JONSWAP normalization was used
 outside the range where it holds

---
 src/wafo/spectrum/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 25c6a21..4679d32 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -571,7 +571,7 @@ class Jonswap(ModelSpectrum):
         return Gf * _gengamspec(wn, self.N, self.M)
 
     def _check_parametric_ag(self, N, M, gammai):
-        parameters_ok = 3 <= N <= 50 or 2 <= M <= 9.5 and 1 <= gammai <= 20
+        parameters_ok = 3 <= N <= 50 and 2 <= M <= 9.5 and 1 <= gammai <= 20
         if not parameters_ok:
             raise ValueError('Not knowing the normalization because N, ' +
                              'M or peakedness parameter is out of bounds!')
-- 
2.43.0


From 4da684536925d75e568c54745ade9fa611258ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:28 +0000
Subject: [PATCH 150/157] fix: attributes a Cheb1d does not have raise
 AttributeError, so that it converts to an array

---
 src/wafo/polynomial.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 5a73c64..b4caad1 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1779,7 +1779,11 @@ class Cheb1d(object):
         name = dict(c='coeffs', coef='coeffs', coefficients='coeffs',
                     o='order', k='kind').get(key, key)
         # return getattr(self, name)
-        return self.__dict__[name]
+        try:
+            return self.__dict__[name]
+        except KeyError:
+            raise AttributeError(
+                "'Cheb1d' object has no attribute '{}'".format(key))
 
     def __getitem__(self, val):
         if val > self.order:
-- 
2.43.0


From 12133480bcec7def7940cd3abfe813e2009f7165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:54 +0000
Subject: [PATCH 151/157] fix: break points of prbnormndpc were taken in the
 wrong order and from the wrong array

---
 source/mvnprd/mvnprodcorrprb.f | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/mvnprd/mvnprodcorrprb.f b/source/mvnprd/mvnprodcorrprb.f
index 17054a7..b2e6283 100644
--- a/source/mvnprd/mvnprodcorrprb.f
+++ b/source/mvnprd/mvnprodcorrprb.f
@@ -3985,8 +3985,8 @@ c
                                 !then
             if ( den(kU) < 0.2) then
                distance = max(brkSplit*den(kU),hMin)
-               z1 = brk + distance
-               z2 = brk - distance
+               z1 = brk - distance
+               z2 = brk + distance
                if (Npts <= 0) then
                   if (xlo + distance < z1) then
                      Npts = Npts + 1
@@ -4024,18 +4024,18 @@ c
                else
                   val1 = 0.0d0
                   val2 = 0.0d0
-                  brkPts(Npts+1) = integrand(z1)
-                  brkPts(Npts+2) = integrand(z2)
+                  brkPtsVal(Npts+1) = integrand(z1)
+                  brkPtsVal(Npts+2) = integrand(z2)
                   if ((xlo+ distance < z1) .and. (z1 + distance < xup))
-     &                 val2 = brkPts(Npts +1)
+     &                 val2 = brkPtsVal(Npts +1)
                   if ((xlo+ distance < z2) .and. (z2 + distance < xup))
-     &                 val2 = max(val2,brkPts(Npts +2))
-                  val1 = breakPoints(Npts)
+     &                 val2 = max(val2,brkPtsVal(Npts +2))
+                  val1 = brkPtsVal(Npts)
                   Nprev = 1
                   if (Npts>1) then
                      if (indices2(Npts-1)==kL) then
                         Nprev = 2
-                        val1 = max(val1,breakPoints(Npts-1))
+                        val1 = max(val1,brkPtsVal(Npts-1))
                      endif
                   endif
                   if (val1 <  val2) then
-- 
2.43.0


From b62e12fa42640c79743a00de156e1da93ed86f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:27 +0000
Subject: [PATCH 152/157] fix: prbnormtndpc gave wrong probabilities when
 variables are unbounded

---
 source/mvnprd/mvnprd_interface.f | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/source/mvnprd/mvnprd_interface.f b/source/mvnprd/mvnprd_interface.f
index d97a1a1..1f3780c 100644
--- a/source/mvnprd/mvnprd_interface.f
+++ b/source/mvnprd/mvnprd_interface.f
@@ -10,6 +10,7 @@ C      double precision EPS
       double precision PRB, BOUND
       double precision, parameter :: infinity = 37.0d0
 Cf2py integer, intent(hide), depend(rho) :: N = len(rho)
+Cf2py intent(in,copy) rho
 Cf2py depend(N)  a
 Cf2py depend(N)  b
 Cf2py integer, optional :: NDF = 0
@@ -34,17 +35,13 @@ CCf2py intent(in) A,B,rho
 *            if INFIN(I) = 2, Ith limits are [LOWER(I), UPPER(I)].
       Ndim = 0
       DO K = 1,N
+           D(k) = 0.0
+           if (A(K).LE.-INFINITY .AND. B(K).GE.INFINITY) CYCLE
            Ndim = Ndim + 1
            INFIN(Ndim) = 2
-           D(k) = 0.0
-           if (A(K)-D(K).LE.-INFINITY) THEN
-              if (B(K)-D(K) .GE. INFINITY) THEN
-                 Ndim = Ndim - 1
-                 !INFIN(K) = -1
-              else
-                 INFIN(Ndim) = 1
-              endif
-           else if (B(K)-D(K).GE.INFINITY) THEN
+           if (A(K).LE.-INFINITY) THEN
+              INFIN(Ndim) = 1
+           else if (B(K).GE.INFINITY) THEN
               INFIN(Ndim) = 0
            endif
            if (ndim<k) then
@@ -54,6 +51,13 @@ CCf2py intent(in) A,B,rho
 C              D(Ndim) = D(K)
            endif
       ENDDO
+      if (N.GT.0 .AND. Ndim.EQ.0) then
+C        No limits at all
+         PRB = 1.0d0
+         BOUND = 0.0d0
+         IFAULT = 0
+         return
+      endif
       CALL MVSTUD(NDF,B,A,RHO,ABSEPS,Ndim,INFIN,D,IERC,HNC,
      & PRB,BOUND,IFAULT)
 
-- 
2.43.0


From 95e471cf2fc5be8b79695291f6f640f1c337b97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:31 +0000
Subject: [PATCH 153/157] fix: strict error control of prbnormtndpc used a
 wrong fourth derivative

---
 source/mvnprd/mvnprd.f | 129 +++++++++--------------------------------
 1 file changed, 28 insertions(+), 101 deletions(-)

diff --git a/source/mvnprd/mvnprd.f b/source/mvnprd/mvnprd.f
index a74a4c9..a78d297 100644
--- a/source/mvnprd/mvnprd.f
+++ b/source/mvnprd/mvnprd.f
@@ -399,13 +399,13 @@ C
       INTEGER NN
       PARAMETER (NN = 100)
       DOUBLE PRECISION A(*), B(*), BPD(*), FOU(NN), FOU1(4, NN), TMP(4),
-     &     GOU(NN), GOU1(4, NN), FF(4), GF(4), TERM(4), GERM(4)
+     &     GOU(NN), GOU1(4, NN), FF(4), GF(4)
       INTEGER INF(*)
       DOUBLE PRECISION ZERO, ONE, TWO, THREE, FOUR, SIX, EIGHT, TWELVE,
      &     SIXTN, SMALL, Z, U, U1, U2, BI, HI, HLI, BP, ADDN, DERIV,
      $     FUNCN,RESULT, RSLT1, RSLT2, DEN, SQRT2, SQRTPI, PHI, PHI1,
      $     PHI2,PHI3, PHI4, FRM, GRM
-      INTEGER N, NTM, IERC, INFI, I, J, K, M, L, IK
+      INTEGER N, NTM, IERC, INFI, I, IK
       DOUBLE PRECISION ALNORM
       EXTERNAL ALNORM
       DATA ZERO, ONE, TWO, THREE, FOUR, SIX, EIGHT, TWELVE, SIXTN,
@@ -506,92 +506,36 @@ C        IF 4TH DERIVATIVE IS NOT WANTED, STOP HERE.
 C        OTHERWISE, PROCEED TO COMPUTE 4TH DERIVATIVE.
 C
       IF (IERC .EQ. 0) RETURN
+      FRM = ONE
+      GRM = ONE
       DO 70 IK = 1, 4
          FF(IK) = ZERO
          GF(IK) = ZERO
    70 CONTINUE
-      DO 100 I = 1, N
-         FRM = ONE
-         GRM = ONE
-         DO 80 J = 1, N
-            IF (J .EQ. 1) GO TO 80
-            FRM = FRM * FOU(J)
-            GRM = GRM * GOU(J)
-            IF (FRM .LE. SMALL) FRM = ZERO
-            IF (GRM .LE. SMALL) GRM = ZERO
-   80    CONTINUE
-         DO 90 IK = 1, 4
-            FF(IK) = FF(IK) + FRM * FOU1(IK, I)
-            GF(IK) = GF(IK) + GRM * GOU1(IK, I)
-   90    CONTINUE
-  100 CONTINUE
-      IF (N .LE. 2) GO TO 230
-      DO 130 I = 1, N
-         DO 120 J = I + 1, N
-            TERM(2) = FOU1(1, I) * FOU1(1, J)
-            GERM(2) = GOU1(1, I) * GOU1(1, J)
-            TERM(3) = FOU1(2, I) * FOU1(1, J)
-            GERM(3) = GOU1(2, I) * GOU1(1, J)
-            TERM(4) = FOU1(3, I) * FOU1(1, J)
-            GERM(4) = GOU1(3, I) * GOU1(1, J)
-            TERM(1) = FOU1(2, I) * FOU1(2, J)
-            GERM(1) = GOU1(2, I) * GOU1(2, J)
-            DO 110 K = 1, N
-               IF (K .EQ. I .OR. K .EQ. J) GO TO 110
-               CALL TOOSML (1, TERM, FOU(K))
-               CALL TOOSML (1, GERM, GOU(K))
-  110       CONTINUE
-            FF(2) = FF(2) + TWO * TERM(2)
-            FF(3) = FF(3) + TWO * TERM(3) * THREE
-            FF(4) = FF(4) + TWO * (TERM(4) * FOUR + TERM(1) * THREE)
-            GF(2) = GF(2) + TWO * GERM(2)
-            GF(3) = GF(3) + TWO * GERM(3) * THREE
-            GF(4) = GF(4) + TWO * (GERM(4) * FOUR + GERM(1) * THREE)
-  120    CONTINUE
-  130 CONTINUE
-      DO 170 I = 1, N
-         DO 160 J = I + 1, N
-            DO 150 K = J + 1, N
-               TERM(3) = FOU1(1, I) * FOU1(1, J) * FOU1(1, K)
-               TERM(4) = FOU1(2, I) * FOU1(1, J) * FOU1(1, K)
-               GERM(3) = GOU1(1, I) * GOU1(1, J) * GOU1(1, K)
-               GERM(4) = GOU1(2, I) * GOU1(1, J) * GOU1(1, K)
-               IF (N .GT. 3) THEN
-                  DO 140 M = 1, N
-                  IF (M .EQ. I .OR. M .EQ. J .OR. M .EQ. K) GO TO  140
-                  CALL TOOSML (3, TERM, FOU(M))
-                  CALL TOOSML (3, GERM, GOU(M))
-  140             CONTINUE
-            END IF
-            FF(3) = FF(3) + SIX * TERM(3)
-            FF(4) = FF(4) + SIX * TERM(4) * SIX
-            GF(3) = GF(3) + SIX * GERM(3)
-            GF(4) = GF(4) + SIX * GERM(4) * SIX
-  150       CONTINUE
-  160    CONTINUE
-  170 CONTINUE
-      IF (N .LE. 3) GO TO 230
-      DO 220 I = 1, N
-         DO 210 J = I + 1, N
-            DO 200 K = J + 1, N
-               DO 190 M = K + 1, N
-      TERM(4) = FOU1(1, I) * FOU1(1, J) * FOU1(1, K) * FOU1(1, M)
-      GERM(4) = GOU1(1, I) * GOU1(1, J) * GOU1(1, K) * GOU1(1, M)
-               IF (N .GT. 4) THEN
-                  DO 180 L = 1, N
-         IF (L .EQ. I .OR. L .EQ. J .OR. L .EQ. K .OR. L .EQ. M)GOTO 180
-                     CALL TOOSML (4, TERM, FOU(L))
-                     CALL TOOSML (4, GERM, GOU(L))
-  180             CONTINUE
-               END IF
-               FF(4) = FF(4) + FOUR * SIX * TERM(4)
-               GF(4) = GF(4) + FOUR * SIX * GERM(4)
-  190          CONTINUE
-  200       CONTINUE
-  210    CONTINUE
-  220 CONTINUE
-C
-  230 CONTINUE
+C
+C        DERIVATIVES OF THE PRODUCTS, FACTOR BY FACTOR (LEIBNIZ' RULE).
+C
+      DO 80 I = 1, N
+         FF(4) = FF(4) * FOU(I) + FOUR * FF(3) * FOU1(1, I)
+     *     + SIX * FF(2) * FOU1(2, I) + FOUR * FF(1) * FOU1(3, I)
+     *     + FRM * FOU1(4, I)
+         GF(4) = GF(4) * GOU(I) + FOUR * GF(3) * GOU1(1, I)
+     *     + SIX * GF(2) * GOU1(2, I) + FOUR * GF(1) * GOU1(3, I)
+     *     + GRM * GOU1(4, I)
+         FF(3) = FF(3) * FOU(I) + THREE * (FF(2) * FOU1(1, I)
+     *     + FF(1) * FOU1(2, I)) + FRM * FOU1(3, I)
+         GF(3) = GF(3) * GOU(I) + THREE * (GF(2) * GOU1(1, I)
+     *     + GF(1) * GOU1(2, I)) + GRM * GOU1(3, I)
+         FF(2) = FF(2) * FOU(I) + TWO * FF(1) * FOU1(1, I)
+     *     + FRM * FOU1(2, I)
+         GF(2) = GF(2) * GOU(I) + TWO * GF(1) * GOU1(1, I)
+     *     + GRM * GOU1(2, I)
+         FF(1) = FF(1) * FOU(I) + FRM * FOU1(1, I)
+         GF(1) = GF(1) * GOU(I) + GRM * GOU1(1, I)
+         FRM = FRM * FOU(I)
+         GRM = GRM * GOU(I)
+   80 CONTINUE
+C
       PHI = EXP(-Z * Z) / SQRTPI
       PHI1 = -TWO * Z * PHI
       PHI2 = (FOUR * Z ** 2 - TWO) * PHI
@@ -653,23 +597,6 @@ C
       B2C = (W1 - W3) / QUAD / TWO
       IF (ABS(B2C) .GE. ONE) RETURN
       DLG = MAX( DLG, ABS(W2 - B2C * QUAD * B2C / TWO) )
-      RETURN
-      END
-      SUBROUTINE TOOSML (N, FF, F)
-      implicit none
-C
-C        ALGORITHM AS 251.5  APPL.STATIST. (1989), VOL.38, NO.3
-C
-C
-C        MULTIPLY FF(I) BY F FOR I = N TO 4.  SET TO ZERO IF TOO SMALL.
-C
-      DOUBLE PRECISION FF(4), F, ZERO, SMALL
-      INTEGER N, I
-      DATA ZERO, SMALL /0.0, 0.1E-12/
-      DO 10 I = N, 4
-         FF(I) = FF(I) * F
-         IF (ABS(FF(I)) .LE. SMALL) FF(I) = ZERO
-   10 CONTINUE
       RETURN
       END
       DOUBLE PRECISION FUNCTION ALNORM(X, UPPER)
-- 
2.43.0


From 3dedc78fe36f13f3cb98a07ed31638567d40265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:14 +0000
Subject: [PATCH 154/157] fix: prbnormtndpc stopped its integration too early
 when the integrand changes sign

---
 source/mvnprd/mvnprd.f | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/source/mvnprd/mvnprd.f b/source/mvnprd/mvnprd.f
index a78d297..85378c2 100644
--- a/source/mvnprd/mvnprd.f
+++ b/source/mvnprd/mvnprd.f
@@ -157,7 +157,7 @@ C
      *  Z, HINC, ADDN, EPS2, EPS1, EPS, ZU, Z2, Z3, Z4, Z5, ZZ,
      *  ERFAC, EL, EL1, BOUND, PART0, PART2, PART3, FUNC0, FUNC2,
      *  FUNCN, WT, CONTRB, DLG, DX, DA, ESTL, ESTR, TSUM, EXCESS, ERROR,
-     *  PROB1, SAFE, ONEP5,X2880
+     *  PROB1, SAFE, ONEP5,X2880, SUP
       INTEGER N, IERC, IFAULT, I, NTM, NMAX, LVL, NR, NDIM
       DOUBLE PRECISION ALNORM, PPND7
       EXTERNAL ALNORM, PPND7
@@ -229,6 +229,10 @@ C
 C        THE VALUE OF ADDN IS TO BE ADDED TO THE PRODUCT EXPRESSIONS IN
 C        THE INTEGRAND TO INSURE THAT THE LIMITING VALUE IS ZERO.
 C
+C        SUP IS AN UPPER BOUND ON THE ABSOLUTE VALUE OF THE INTEGRAND.
+C
+      SUP = TWO
+      IF (ADDN .NE. ZERO) SUP = ONE
       ESTR = ZERO
       PROB1 = ZERO
       NTM = 0
@@ -249,7 +253,7 @@ C
       NR = NINT(ZU / HINC) + 1
       ERFAC = ONE
       IF (IERC .NE. 0) ERFAC = X2880 / HINC ** 5
-      EL = (EPS - EPS2) / FLOAT(NR) * ERFAC
+      EL = (EPS - TWO * EPS2) / FLOAT(NR) * ERFAC
       EL1 = EL
 C
 C        START COMPUTATIONS FOR THE INTERVAL (Z, Z + HINC).
@@ -371,15 +375,15 @@ C
       EXCESS = EL - DLG
       EL = EL1
       IF (EXCESS .GT. ZERO) EL = EL1 + EXCESS
-      IF ((FUNC0 .GT. ZERO .AND. FUNC2 .LE. FUNC0) .OR.
-     *    (FUNC0 .LT. ZERO .AND. FUNC2 .GE. FUNC0)) THEN
-         ZZ = -SQRT2 * Z5
-         PART3 = ABS(FUNC2) * ALNORM(ZZ, .FALSE.) + BOUND / ERFAC
-         IF (PART3 .LE. EPS .OR. NTM .GE. NMAX .OR. Z5 .GE. ZU) GOTO 100
-      END IF
+C
+C        THE INTEGRAND MAY CHANGE SIGN OR BE ZERO AT Z5, SO ITS VALUE
+C        THERE DOES NOT BOUND WHAT IS LEFT OF THE INTEGRAL.
+C
+      ZZ = -SQRT2 * Z5
+      PART3 = SUP * ALNORM(ZZ, .FALSE.) + BOUND / ERFAC
+      IF (PART3 .LE. EPS .OR. NTM .GE. NMAX .OR. Z5 .GE. ZU) GOTO 100
       Z = Z5
       PART0 = PART2
-      FUNC0 = FUNC2
       IF (Z .LT. ZU .AND. NTM .LT. NMAX) GO TO 40
   100 PROB = (PROB1 - ADDN * HALF) * PROB
       BOUND = PART3
-- 
2.43.0


From b9e6f954e5036d57af9dce1ac4751092bd15185b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:56 +0000
Subject: [PATCH 155/157] fix: prbnormtndpc accepted the first, accidental
 agreement of two Simpson estimates

---
 source/mvnprd/mvnprd.f | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/mvnprd/mvnprd.f b/source/mvnprd/mvnprd.f
index 85378c2..c19e8b3 100644
--- a/source/mvnprd/mvnprd.f
+++ b/source/mvnprd/mvnprd.f
@@ -823,6 +823,7 @@ C
      $     ESTGL,ESTGR,CONTRB,TSUM,SUMG,DLG,ERRL,EXCESS,BND
       double precision :: ZERO,HALF,ONE,ONEP5,TWO,FOUR,SIX,DXMIN
       INTEGER :: IFLAG, IER, NDF,N, INF, IERC,LVL,IFLT
+      INTEGER, PARAMETER :: LVLMIN = 3
       DIMENSION A(*),B(*),BPD(*),INF(*),D(*),
      *   FV(5),F1T(30),F2T(30),F3T(30),
      *   LDIR(30),PSUM(30),ESTT(30),ERRR(30),GV(5),G1T(30),G2T(30),
@@ -873,9 +874,10 @@ C
       ERRL    =  DLG
 C
 C        STOP BISECTING WHEN ACCURACY SUFFICIENT, OR IF
-C        INTERVAL TOO NARROW OR BISECTED TOO OFTEN.
+C        INTERVAL TOO NARROW OR BISECTED TOO OFTEN. (THE FIRST
+C        ESTIMATES MAY AGREE BY ACCIDENT, AND ARE NOT TRUSTED.)
 C
-      IF (DLG .LE. EPS1) GO TO 50
+      IF (DLG .LE. EPS1 .AND. LVL .GE. LVLMIN) GO TO 50
       IF (ABS(DX) .LE. DXMIN .OR. LVL .GE. 30) GO TO 40
 C
 C        RAISE LEVEL.  STORE INFORMATION FOR RIGHT HALF
-- 
2.43.0


From 520bdb810ad0ffe4b338ce6420e7bb785bd8382b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:43 +0000
Subject: [PATCH 156/157] fix: SpecData2D.rotate failed, taking frequencies for
 directions

---
 src/wafo/spectrum/core.py | 62 +++++++++++++--------------------------
 1 file changed, 21 insertions(+), 41 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 0b80a4b..47108a2 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -12,7 +12,7 @@ from scipy.integrate import simps, trapz
 from scipy.special import erf
 from scipy.linalg import toeplitz
 import scipy.interpolate as interpolate
-from scipy.interpolate import interp1d, interp2d
+from scipy.interpolate import interp1d, RegularGridInterpolator
 from wafo.objects import TimeSeries, mat2timeseries
 from wafo.interpolate import stineman_interp
 from wafo.wave_theory.dispersion_relation import w2k  # , k2w
@@ -4068,58 +4068,38 @@ class SpecData2D(PlotData):
         if stype == 'dir':
             # any of the directinal types
             # Make sure theta is from -pi to pi
-            theta = self.args[0]
+            freq, theta = self.args
             phi0 = theta[0] + pi
-            self.args[0] = theta - phi0
+            theta = theta - phi0
 
             # make sure -pi<phi<pi
-            self.phi = mod(self.phi + phi0 + pi, 2 * pi) - pi
-            if (rotateGrid and (self.phi != 0)):
+            self.phi = mod(self.phi - phi0 + pi, 2 * pi) - pi
+            if rotateGrid and (self.phi != 0):
                 # Do a physical rotation of spectrum
-                # theta = Snew.args[0]
-                ntOld = len(theta)
-                if (mod(theta[0] - theta[-1], 2 * pi) == 0):
-                    nt = ntOld - 1
+                if mod(theta[0] - theta[-1], 2 * pi) == 0:
+                    # full circle: interpolate on the same directions
+                    data = np.vstack([self.data[:-1], self.data, self.data[1:]])
+                    angle = np.hstack([theta[:-1] - 2 * pi, theta, theta[1:] + 2 * pi])
+                    self.data = interp1d(angle, data, kind=method, axis=0)(theta + self.phi)
                 else:
-                    nt = ntOld
-
-                theta[0:nt] = mod(theta[0:nt] - self.phi + pi, 2 * pi) - pi
+                    theta = mod(theta - self.phi + pi, 2 * pi) - pi
+                    ind = theta.argsort()
+                    theta, self.data = theta[ind], self.data[ind, :]
                 self.phi = 0
-                ind = theta.argsort()
-                self.data = self.data[ind, :]
-                self.args[0] = theta[ind]
-                if (nt < ntOld):
-                    if (self.args[0][0] == -pi):
-                        self.data[ntOld, :] = self.data[0, :]
-                    else:
-                        # ftype = self.freqtype
-                        freq = self.args[1]
-                        theta = linspace(-pi, pi, ntOld)
-                        # [F, T] = meshgrid(freq, theta)
-
-                        dtheta = self.theta[1] - self.theta[0]
-                        self.theta[nt] = self.theta[nt - 1] + dtheta
-                        self.data[nt, :] = self.data[0, :]
-                        self.data = interp2d(freq,
-                                             np.vstack([self.theta[0] - dtheta,
-                                                        self.theta]),
-                                             np.vstack([self.data[nt, :],
-                                                        self.data]),
-                                             kind=method)(freq, theta)
-                        self.args[0] = theta
+            self.args = [freq, theta]
 
         elif stype == 'k2d':
             # any of the 2D wave number types
             # Snew.phi   = mod(Snew.phi+phi+pi,2*pi)-pi
-            if (rotateGrid and (self.phi != 0)):
+            if rotateGrid and (self.phi != 0):
                 # Do a physical rotation of spectrum
 
-                [k, k2] = meshgrid(*self.args)
-                [th, r] = cart2polar(k, k2)
-                [k, k2] = polar2cart(th + self.phi, r)
-                ki1, ki2 = self.args
-                Sn = interp2d(ki1, ki2, self.data, kind=method)(k, k2)
-                self.data = np.where(np.isnan(Sn), 0, Sn)
+                k_1, k_2 = self.args
+                th, r = cart2polar(*meshgrid(k_1, k_2))
+                k = polar2cart(th + self.phi, r)
+                interp = RegularGridInterpolator((k_2, k_1), self.data, method=method,
+                                                 bounds_error=False, fill_value=0)
+                self.data = interp(np.stack(k[::-1], axis=-1))
                 self.phi = 0
         else:
             raise ValueError('Can only rotate two dimensional spectra')
-- 
2.43.0


From b5ca9062f02835293ba50567bc7610b99da3015b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:31 +0000
Subject: [PATCH 157/157] fix: default lag of the covariance estimate took
 mirrored lags of short records for large ones

---
 src/wafo/covariance/estimation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wafo/covariance/estimation.py b/src/wafo/covariance/estimation.py
index 44f2d5b..302fc76 100644
--- a/src/wafo/covariance/estimation.py
+++ b/src/wafo/covariance/estimation.py
@@ -154,7 +154,8 @@ class CovarianceEstimator(object):
             auto_cov = auto_cov / auto_cov[0]
 
         if lag is None:
-            lag = self._estimate_lag(auto_cov, Ncens)
+            # lags n, n+1, ... of the transform mirror the small ones
+            lag = self._estimate_lag(auto_cov[:n], Ncens)
         lag = min(lag, n - 2)
         if isinstance(window, str) or type(window) is tuple:
             win = get_window(window, 2 * lag - 1)
-- 
2.43.0

