From 036237acbf7427795f6c9d157237cc9043c75105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 01/66] fix: leave covariance undefined when the fit's matrix
 is singular

---
 src/diffpy/srmise/modelparts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index d4d17ae..eefd072 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -211,8 +211,12 @@ class ModelParts(list):
             pcov = f[1]
             fvec = f[2]["fvec"]
             dof = len(r) - len(freepars)
-            cov.setcovariance(self, pcov * np.sum(fvec**2) / dof)
             try:
+                if pcov is None:
+                    # Singular matrix encountered, see notes below.
+                    cov.clear()
+                    raise SrMiseUndefinedCovarianceError("Covariance of fit is not defined.")
+                cov.setcovariance(self, pcov * np.sum(fvec**2) / dof)
                 cov.transform(in_format="internal", out_format=cov_format)
             except SrMiseUndefinedCovarianceError:
                 logger.warning("Covariance not defined.  Fit may not have converged.")
-- 
2.43.0


From 2034f871bfccfd8ea392ec47bb05922c44268c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 02/66] fix: count only the fitted points when checking and
 scaling a fit

---
 src/diffpy/srmise/modelparts.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index eefd072..de45768 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -94,13 +94,17 @@ class ModelParts(list):
         -------
         None
         """
+        if range is None:
+            range = slice(None)
+
         freepars = self.unpack_freepars()
-        if len(freepars) >= len(r):
+        npoints = len(r[range])
+        if len(freepars) >= npoints:
             emsg = (
                 "Cannot fit model with "
                 + str(len(freepars))
-                + " free parametersbut only "
-                + str(len(r))
+                + " free parameters but only "
+                + str(npoints)
                 + " data points."
             )
             raise SrMiseFitError(emsg)
@@ -109,9 +113,6 @@ class ModelParts(list):
             # raise SrMiseFitError(emsg)
             return
 
-        if range is None:
-            range = slice(None)
-
         args = (r, y, y_error, range)
 
         if srmiselog.liveplots:
@@ -210,7 +211,7 @@ class ModelParts(list):
         if cov is not None:
             pcov = f[1]
             fvec = f[2]["fvec"]
-            dof = len(r) - len(freepars)
+            dof = len(fvec) - len(freepars)
             try:
                 if pcov is None:
                     # Singular matrix encountered, see notes below.
-- 
2.43.0


From 599af3ce7a21e6c1ca12289ab7b5605cfcec37c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 03/66] fix: report errors of a fit without Jacobian as
 SrMiseFitError

---
 src/diffpy/srmise/modelparts.py | 45 +++++++++++++++++----------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index de45768..240f017 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -132,28 +132,29 @@ class ModelParts(list):
             plt.ion()
 
         try:
-            f = leastsq(
-                self.residual,  # minimize this function
-                freepars,  # initial parameters
-                args=args,  # arguments to residual, residual_jacobian
-                Dfun=self.residual_jacobian,  # explicit Jacobian
-                col_deriv=True,  # order of derivatives in Jacobian
-                full_output=True,
-                maxfev=ntrials,
-            )
-        except NotImplementedError:
-            # TODO: Figure out if is worth checking for residual_jacobian
-            # before leastsq().  This exception will either occur almost never
-            # or extremely frequently, and the extra evaluations will add up.
-            logger.info("One or more functions do not define residual_jacobian().")
-            f = leastsq(
-                self.residual,  # minimize this function
-                freepars,  # initial parameters
-                args=args,  # arguments to residual
-                col_deriv=True,  # order of derivatives in Jacobian
-                full_output=True,
-                maxfev=ntrials,
-            )
+            try:
+                f = leastsq(
+                    self.residual,  # minimize this function
+                    freepars,  # initial parameters
+                    args=args,  # arguments to residual, residual_jacobian
+                    Dfun=self.residual_jacobian,  # explicit Jacobian
+                    col_deriv=True,  # order of derivatives in Jacobian
+                    full_output=True,
+                    maxfev=ntrials,
+                )
+            except NotImplementedError:
+                # TODO: Figure out if is worth checking for residual_jacobian
+                # before leastsq().  This exception will either occur almost never
+                # or extremely frequently, and the extra evaluations will add up.
+                logger.info("One or more functions do not define residual_jacobian().")
+                f = leastsq(
+                    self.residual,  # minimize this function
+                    freepars,  # initial parameters
+                    args=args,  # arguments to residual
+                    col_deriv=True,  # order of derivatives in Jacobian
+                    full_output=True,
+                    maxfev=ntrials,
+                )
         except Exception:
             # Sadly, KeyboardInterrupt, etc. is reraised as minpack.error
             # Not much I can do about that, though.
-- 
2.43.0


From 46f5c30cf4503feb30e41f9c68eabcb5b1c9790b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 04/66] fix: propagate covariance as G V G^T for non-diagonal
 gradients

---
 src/diffpy/srmise/modelcluster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index c1a64c5..ab877e7 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -179,7 +179,7 @@ class ModelCovariance(object):
         else:
             parts = range(len(self.model))
 
-        # Calculate V_y = G Transpose(V_x) G
+        # Calculate V_y = G V_x Transpose(G)
         # where V_y is the covariance matrix in terms of the parameterization y,
         # V_x is the current covariance matrix, and G is the gradient matrix of
         # the variable transformation x->y.  That is, G_ij = dy_i/dx_j.
@@ -223,7 +223,7 @@ class ModelCovariance(object):
             g[start:stop, start:stop] = subg
 
         g = np.matrix(g)
-        self.cov = np.array(g * np.matrix(self.cov).transpose() * g)
+        self.cov = np.array(g * np.matrix(self.cov) * g.transpose())
 
         return
 
-- 
2.43.0


From 3a29dc85dd39034e15dce76917a1289666bc1d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 05/66] fix: forget the index maps of a previous model in
 setcovariance

---
 src/diffpy/srmise/modelcluster.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index ab877e7..bee071c 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -110,6 +110,9 @@ class ModelCovariance(object):
         free = np.concatenate([m.free for m in self.model]).ravel()
 
         # Create maps from model parts to index of corresponding covariance matrix row/column
+        self.mmap = {}
+        self.pmap = {}
+        self.ipmap = {}
         n = 0
         for i, m in enumerate(model):
             self.mmap[i] = n + np.arange(m.npars(True))
-- 
2.43.0


From 2d6b890dec78cc55d09539a68fe6f6abfe67f4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 06/66] fix: raise SrMiseUndefinedCovarianceError from every
 accessor of undefined covariance

---
 src/diffpy/srmise/modelcluster.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index bee071c..895e280 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -272,6 +272,10 @@ class ModelCovariance(object):
         component tuple of integers ``(part_idx, param_idx)`` indicating
         the ``param_idx``-th parameter of model part ``part_idx``.
         """
+        if self.model is None:
+            emsg = "Cannot get value of undefined model."
+            raise SrMiseUndefinedCovarianceError(emsg)
+
         part_idx, param_idx = i if i in self.pmap else self.ipmap[i]
         return self.model[part_idx][param_idx]
 
@@ -291,7 +295,6 @@ class ModelCovariance(object):
         float
             The uncertainty of variable at index i.
         """
-        part_idx, param_idx = i if i in self.pmap else self.ipmap[i]
         return np.sqrt(self.getcovariance(i, i))
 
     def getcovariance(self, i, j):
-- 
2.43.0


From c8bf83fd1fbb3402bff502bc283d4162f6495966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 07/66] fix: allow augmenting a model with non-removable peaks

---
 src/diffpy/srmise/modelcluster.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 895e280..c296be5 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1440,7 +1440,10 @@ class ModelCluster(object):
                 del source_model[args[-1]]
             else:
                 break  # Best possible model has been found.
-        self.replacepeaks(best_model, slice(len(self.model)))
+        # Every test model contains all the original peaks, so no peak of the
+        # original model (removable or not) is lost here.
+        self.model = best_model
+        self.model.sort(key="position")
 
         # TODO: Do I need this? If test_model contains peaks
         # by reference, the fit peaks will change as well.
-- 
2.43.0


From d156a3be08fd8e9bb168a87fc1c2724147113b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 08/66] fix: keep non-removable peaks when joining clusters

---
 src/diffpy/srmise/modelcluster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index c296be5..aa89e4e 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -856,6 +856,8 @@ class ModelCluster(object):
             # border_x are removed.  The highly unlikely case of two peaks
             # exactly at the border is also handled.
             for i in reversed(range(len(new_model))):
+                if not new_model[i].removable:
+                    continue
                 if new_model[i]["position"] == border_x and i > 0 and new_model[i - 1]["position"] == border_x:
                     del new_model[i]
                 elif new_ids[i] != i:
-- 
2.43.0


From 03063815a7dacdfc4cc95219c1abcfcdcfe42975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 09/66] fix: do not add external peaks to the caller's data
 array

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index aa89e4e..bf5c95c 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -533,7 +533,7 @@ class ModelCluster(object):
         None
         """
         self.replacepeaks(peaks)
-        self.y_data += peaks.value(self.r_data)
+        self.y_data = self.y_data + peaks.value(self.r_data)
         self.y_cluster = self.y_data[self.slice]
 
     def writestr(self, **kwds):
-- 
2.43.0


From 4c9d78a11912bdb3da074c7c8d77c433b7634496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 10/66] fix: do not order functions by their hash

---
 src/diffpy/srmise/modelcluster.py   | 4 ++--
 src/diffpy/srmise/peakextraction.py | 2 --
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index bf5c95c..a0f6628 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -552,7 +552,6 @@ class ModelCluster(object):
         else:
             pfbaselist = [p.owner() for p in self.model]
             pfbaselist.extend(self.peak_funcs)
-            pfbaselist = list(set(pfbaselist))
             pfbaselist = BaseFunction.safefunctionlist(pfbaselist)
             writepf = True
 
@@ -873,7 +872,8 @@ class ModelCluster(object):
         else:  # Only m2 has entries, or both are empty
             new_model = m2.model.copy()
 
-        peak_funcs = list(set(m1.peak_funcs) | set(m2.peak_funcs))  # "Union"
+        # "Union", in a reproducible order
+        peak_funcs = list(dict.fromkeys(list(m1.peak_funcs) + list(m2.peak_funcs)))
         return ModelCluster(
             new_model,
             m1.baseline,
diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 48e3419..56270f3 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -601,8 +601,6 @@ class PeakExtraction(object):
             allpf.extend([p.owner() for p in self.extracted.model])
             if self.extracted.baseline is not None:
                 allbf.append(self.extracted.baseline.owner())
-        allpf = list(set(allpf))
-        allbf = list(set(allbf))
         safepf = BaseFunction.safefunctionlist(allpf)
         safebf = BaseFunction.safefunctionlist(allbf)
 
-- 
2.43.0


From 4eae6e31199b1242f223e1972c17da1c7846cf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 11/66] fix: pass keywords of PeakExtraction.plot by name

---
 src/diffpy/srmise/peakextraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 56270f3..dd24be1 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -281,7 +281,7 @@ class PeakExtraction(object):
         """
         plt.clf()
         if self.extracted is not None:
-            plt.plot(*self.extracted.plottable(kwds))
+            plt.plot(*self.extracted.plottable(**kwds))
         else:
 
             # Make sure all required extraction variables have some value
@@ -301,7 +301,7 @@ class PeakExtraction(object):
                 self.error_method,
                 self.pf,
             )
-            plt.plot(*mcluster.plottable(kwds))
+            plt.plot(*mcluster.plottable(**kwds))
 
     def read(self, filename):
         """Load PeakExtraction object from file.
-- 
2.43.0


From c7e0d3072f1ee64aa17d987a52964830476effc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 12/66] fix: check all data lengths before setdata changes
 anything

---
 src/diffpy/srmise/peakextraction.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index dd24be1..d1b1299 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -121,19 +121,17 @@ class PeakExtraction(object):
         if len(x) != len(y):
             emsg = "Sequences x and y must have the same length."
             raise ValueError(emsg)
-        self.x = np.array(x)
-        self.y = np.array(y)
         if dx is None:
-            self.dx = np.zeros(len(x))
-        else:
-            self.dx = np.array(dx)
+            dx = np.zeros(len(x))
         if dy is None:
-            self.dy = np.zeros(len(x))
-        else:
-            self.dy = np.array(dy)
-        if len(self.x) != len(self.dx) or len(self.x) != len(self.dy):
+            dy = np.zeros(len(x))
+        if len(x) != len(dx) or len(x) != len(dy):
             emsg = "Sequences dx and dy (if present) must have the same length as x"
             raise ValueError(emsg)
+        self.x = np.array(x)
+        self.y = np.array(y)
+        self.dx = np.array(dx)
+        self.dy = np.array(dy)
         # self.defaultvars()
         return
 
-- 
2.43.0


From 97d5e16af2baa890c257fdd9351df1435e1573ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 13/66] fix: reject unknown extraction variables before setting
 any

---
 src/diffpy/srmise/peakextraction.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index d1b1299..8170646 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -158,15 +158,15 @@ class PeakExtraction(object):
             The sequence specifying the least and greatest x-values over which to extract peaks.
         """
         for k, v in kwds.items():
-            if k in self.extractvars:
-                if quiet:
-                    logger.debug("Setting variable %s=%s", k, v)
-                else:
-                    logger.info("Setting variable %s=%s", k, v)
-                setattr(self, k, v)
-            else:
+            if k not in self.extractvars:
                 emsg = "Invalid extraction variable: %s=%s" % (k, v)
                 raise ValueError(emsg)
+        for k, v in kwds.items():
+            if quiet:
+                logger.debug("Setting variable %s=%s", k, v)
+            else:
+                logger.info("Setting variable %s=%s", k, v)
+            setattr(self, k, v)
         self.defaultvars()
 
     def defaultvars(self, *args):
-- 
2.43.0


From b2899264133397476918e59a4e5d681f7de47f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 14/66] fix: complete a partial range in a copy of the caller's
 list

---
 src/diffpy/srmise/peakextraction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 8170646..f32fd78 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -220,6 +220,7 @@ class PeakExtraction(object):
         if self.rng is None or "rng" in args:
             self.rng = [self.x[0], self.x[-1]]
         else:
+            self.rng = list(self.rng)
             if self.rng[0] is None:
                 self.rng[0] = self.x[0]
             if self.rng[1] is None:
-- 
2.43.0


From 2d1ada4594d9eec0a823340871363aa3df61d960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 15/66] fix: locate the full boundary by its point index, not a
 cluster index

---
 src/diffpy/srmise/peakextraction.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index f32fd78..db015bd 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -955,8 +955,7 @@ class PeakExtraction(object):
                 full_cluster.fit(True)
 
                 # Estimate coordinate where clusters combine.
-                border_x = x[step.lastcluster_idx]
-                border_y = y[step.lastcluster_idx]
+                border_x = x[step.lastpoint_idx]
 
                 # Determine neighborhood appropriate for fitting (no larger than combined clusters)
                 if len(full_cluster.model) > 0:
-- 
2.43.0


From d2737138ab5b45a6bbf926bcc3ce46b7f37f60fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 16/66] fix: extract and fit copies of the initial peaks and
 baseline

---
 src/diffpy/srmise/peakextraction.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index db015bd..318cdf3 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -829,7 +829,9 @@ class PeakExtraction(object):
 
         # Make sure all required extraction variables have some value
         self.defaultvars()
-        bl = self.baseline
+
+        # Copy baseline, because it is fit along with the peaks.
+        bl = self.baseline.copy()
 
         # Copy initial_peaks
         # While it would be nice to integrate them into extracted model naturally
@@ -1378,8 +1380,8 @@ class PeakExtraction(object):
 
         # Set up ModelCluster
         ext = ModelCluster(
-            self.initial_peaks,
-            self.baseline,
+            self.initial_peaks.copy(),
+            self.baseline.copy(),
             x,
             y,
             dy,
-- 
2.43.0


From efaf98437148916b95da9717d0c565d5dafa6a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 17/66] fix: read saved extractions and traces as text

---
 src/diffpy/srmise/peakextraction.py | 6 ++++--
 src/diffpy/srmise/srmiselog.py      | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 318cdf3..9b418a0 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -315,8 +315,10 @@ class PeakExtraction(object):
         self
         """
         try:
-            self.readstr(open(filename, "rb").read())
-        except SrMiseDataFormatError as err:
+            with open(filename, "r") as f:
+                datastring = f.read()
+            self.readstr(datastring)
+        except (SrMiseDataFormatError, UnicodeDecodeError) as err:
             logger.exception("")
             basename = os.path.basename(filename)
             emsg = ("Could not open '%s' due to unsupported file format " + "or corrupted data. [%s]") % (
diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index d5fcd6f..1ce8dde 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -247,8 +247,10 @@ class TracePeaks(object):
         "recursion" - The recursion level of mc
         """
         try:
-            return self.readstr(open(filename, "rb").read())
-        except SrMiseDataFormatError as err:
+            with open(filename, "r") as f:
+                datastring = f.read()
+            return self.readstr(datastring)
+        except (SrMiseDataFormatError, UnicodeDecodeError) as err:
             logger.exception("")
             basename = os.path.basename(filename)
             emsg = ("Could not open '%s' due to unsupported file format " + "or corrupted data. [%s]") % (
-- 
2.43.0


From 18aaa33f9c128739271ac5d816f619a23c623b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 18/66] fix: recognize the effective_dy column of saved
 extractions

---
 src/diffpy/srmise/peakextraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 9b418a0..fc2b013 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -387,7 +387,7 @@ class PeakExtraction(object):
         res = re.search(r"\bdy\b", start_data_info)
         if res:
             hasdy = True
-        res = re.search(r"\edy\b", start_data_info)
+        res = re.search(r"\bedy\b", start_data_info)
         if res:
             hasedy = True
 
-- 
2.43.0


From 325501532065cb3a70e53931b3c707f0f8bf3567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 19/66] fix: find the model evaluator named in a saved file

---
 src/diffpy/srmise/modelcluster.py             | 3 ++-
 src/diffpy/srmise/modelevaluators/__init__.py | 5 +++++
 src/diffpy/srmise/peakextraction.py           | 3 ++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index a0f6628..5669449 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -719,7 +719,8 @@ class ModelCluster(object):
         res = re.search(r"^ModelEvaluator=(.*)$", header, re.M)
         __import__("diffpy.srmise.modelevaluators")
         module = sys.modules["diffpy.srmise.modelevaluators"]
-        error_method = getattr(module, res.groups()[0].strip())
+        name = res.groups()[0].strip()
+        error_method = None if name == "None" else getattr(module, name)
 
         # slice
         res = re.search(r"^slice=(.*)$", header, re.M)
diff --git a/src/diffpy/srmise/modelevaluators/__init__.py b/src/diffpy/srmise/modelevaluators/__init__.py
index 0efb8dc..c82f934 100644
--- a/src/diffpy/srmise/modelevaluators/__init__.py
+++ b/src/diffpy/srmise/modelevaluators/__init__.py
@@ -13,3 +13,8 @@
 ##############################################################################
 
 # __init__.py file for modelevalutors module
+
+from diffpy.srmise.modelevaluators.aic import AIC
+from diffpy.srmise.modelevaluators.aicc import AICc
+
+__all__ = ["AIC", "AICc"]
diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index fc2b013..35074d6 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -466,7 +466,8 @@ class PeakExtraction(object):
         res = re.search(r"^ModelEvaluator=(.*)$", srmisemetadata, re.M)
         __import__("diffpy.srmise.modelevaluators")
         module = sys.modules["diffpy.srmise.modelevaluators"]
-        self.error_method = getattr(module, res.groups()[0].strip())
+        name = res.groups()[0].strip()
+        self.error_method = None if name == "None" else getattr(module, name)
 
         # range
         res = re.search(r"^Range=(.*)$", srmisemetadata, re.M)
-- 
2.43.0


From 4e8fa1572869819ac29d3f219fcfed4f156eddb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 20/66] fix: let plain PeakExtraction objects save and load
 their (empty) metadata

---
 src/diffpy/srmise/peakextraction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 35074d6..1baac4a 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -707,10 +707,10 @@ class PeakExtraction(object):
 
     def writemetadata(self):
         """Return string for metadata not defined by srmise class."""
-        return
+        return ""
 
-    def readmetadata(self):
-        """Return string for metadata not defined by srmise class."""
+    def readmetadata(self, metastr):
+        """Read metadata not defined by srmise class from string."""
         return
 
     def writesummary(self):
-- 
2.43.0


From 85eed7139b81046318979140be797bd8bb747a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 21/66] fix: save and load extractions with unset clustering
 resolution

---
 src/diffpy/srmise/peakextraction.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 1baac4a..a1624ee 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -458,9 +458,10 @@ class PeakExtraction(object):
 
         # cres
         rx = {"f": r"[-+]?(\d+(\.\d*)?|\d*\.\d+)([eE][-+]?\d+)?"}
-        regexp = r"\bcres *= *(%(f)s)\b" % rx
+        regexp = r"\bcres *= *(None|%(f)s)\b" % rx
         res = re.search(regexp, srmisemetadata, re.I)
-        self.cres = float(res.groups()[0])
+        cres = res.groups()[0]
+        self.cres = None if cres == "None" else float(cres)
 
         # error_method
         res = re.search(r"^ModelEvaluator=(.*)$", srmisemetadata, re.M)
@@ -645,7 +646,10 @@ class PeakExtraction(object):
             lines.append("pf=%s" % repr([safepf.index(p) for p in self.pf]))
 
         # Clustering resolution
-        lines.append("cres=%g" % self.cres)
+        if self.cres is None:
+            lines.append("cres=None")
+        else:
+            lines.append("cres=%g" % self.cres)
         # Model evaluator
         if self.error_method is None:
             lines.append("ModelEvaluator=None")
-- 
2.43.0


From 121a1a889a6b9972a21c13fd5acdad1fc0969301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 22/66] fix: report data lines with the wrong number of fields
 as format errors

---
 src/diffpy/srmise/modelcluster.py   | 2 +-
 src/diffpy/srmise/peakextraction.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 5669449..702dfaf 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -766,7 +766,7 @@ class ModelCluster(object):
                 for a, v in zip(arrays, line.split()):
                     a.append(float(v))
         except (ValueError, IndexError) as err:
-            raise SrMiseDataFormatError(err)
+            raise SrMiseDataFormatError(str(err))
         if hasr:
             r_data = np.array(r_data)
         if hasy:
diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index a1624ee..a34267b 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -511,6 +511,7 @@ class PeakExtraction(object):
                 split_line = line.split()
                 if len(arrays) != len(split_line):
                     emsg = "Number of value fields does not match that given by '%s'" % start_data_info
+                    raise IndexError(emsg)
                 for a, v in zip(arrays, line.split()):
                     a.append(float(v))
         except (ValueError, IndexError) as err:
-- 
2.43.0


From 0fb99ecf2d962c17650c37c23f458fda8a68a5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 23/66] fix: raise SrMiseDataFormatError for any malformed
 saved extraction or cluster; write clusters without baseline

---
 src/diffpy/srmise/modelcluster.py   | 19 ++++++++++++++++++-
 src/diffpy/srmise/peakextraction.py | 13 +++++++++++++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 702dfaf..854d369 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -559,7 +559,10 @@ class ModelCluster(object):
             blfbaselist = kwds["blfbaselist"]
             writeblf = False
         else:
-            blfbaselist = BaseFunction.safefunctionlist([self.baseline.owner()])
+            if self.baseline is None:
+                blfbaselist = []
+            else:
+                blfbaselist = BaseFunction.safefunctionlist([self.baseline.owner()])
             writeblf = True
 
         lines = []
@@ -620,7 +623,21 @@ class ModelCluster(object):
         --------
         pfbaselist : List of peak function bases
         blfbaselist : List of baseline function bases
+
+        Raises SrMiseDataFormatError if any part of mcstr is missing or
+        cannot be interpreted.
         """
+        try:
+            return ModelCluster._factory(mcstr, **kwds)
+        except SrMiseDataFormatError:
+            raise
+        except Exception as err:
+            emsg = "Missing or invalid data (%s: %s)" % (type(err).__name__, err)
+            raise SrMiseDataFormatError(emsg)
+
+    @staticmethod
+    def _factory(mcstr, **kwds):
+        """Create ModelCluster from string."""
         from diffpy.srmise.basefunction import BaseFunction
 
         if "pfbaselist" in kwds:
diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index a34267b..2c3c94f 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -335,7 +335,20 @@ class PeakExtraction(object):
         ----------
         datastring : array-like
             The raw data to read
+
+        Raises SrMiseDataFormatError if any part of datastring is missing or
+        cannot be interpreted.
         """
+        try:
+            self._readstr(datastring)
+        except SrMiseDataFormatError:
+            raise
+        except Exception as err:
+            emsg = "Missing or invalid data (%s: %s)" % (type(err).__name__, err)
+            raise SrMiseDataFormatError(emsg)
+
+    def _readstr(self, datastring):
+        """Initialize members from string."""
         from diffpy.srmise.basefunction import BaseFunction
 
         self.clear()
-- 
2.43.0


From 8f015325614fd8b412d42661045a656cd13ce3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 24/66] fix: return the recursion level and counter stored in a
 trace file

---
 src/diffpy/srmise/srmiselog.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 1ce8dde..74a7393 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -298,14 +298,14 @@ class TracePeaks(object):
 
         res = re.search(r"^recursion=(.*)$", header, re.M)
         if res:
-            eval(res.groups()[0].strip())
+            recursion = int(res.groups()[0].strip())
         else:
             emsg = "Required field 'recursion' not found."
             raise SrMiseDataFormatError(emsg)
 
         res = re.search(r"^counter=(.*)$", header, re.M)
         if res:
-            eval(res.groups()[0].strip())
+            counter = int(res.groups()[0].strip())
         else:
             emsg = "Required field 'counter' not found."
             raise SrMiseDataFormatError(emsg)
@@ -313,8 +313,8 @@ class TracePeaks(object):
         return {
             "mc": mc,
             "clusters": clusters,
-            "recursion": self.recursion,
-            "counter": self.counter,
+            "recursion": recursion,
+            "counter": counter,
         }
 
     def pushr(self):
-- 
2.43.0


From 06077dd284a073ced9b706901c565b3d363e2075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 25/66] fix: store copies of the traced peaks

---
 src/diffpy/srmise/srmiselog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 74a7393..1dd04c2 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -205,7 +205,7 @@ class TracePeaks(object):
         for m in args:
             clusters.append(m.slice)
         for m in args[1:]:
-            mc.replacepeaks(m.model)
+            mc.replacepeaks(m.model.copy())
         return {
             "mc": mc,
             "clusters": clusters,
-- 
2.43.0


From b72ad7760addd9fd3c77b7885940a06c86e19aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 26/66] fix: read trace files with numpy cluster limits, and
 reject malformed ones

---
 src/diffpy/srmise/srmiselog.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 1dd04c2..96f8052 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -42,6 +42,8 @@ import logging
 import os.path
 import re
 
+import numpy as np
+
 from diffpy.srmise.srmiseerrors import SrMiseDataFormatError, SrMiseFileError, SrMiseLogError
 
 # Default settings ###
@@ -271,7 +273,20 @@ class TracePeaks(object):
         "counter" - The count when object was created
         "mc" - A ModelCluster instance
         "recursion" - The recursion level of mc
+
+        Raises SrMiseDataFormatError if any part of datastring is missing or
+        cannot be interpreted.
         """
+        try:
+            return self._readstr(datastring)
+        except SrMiseDataFormatError:
+            raise
+        except Exception as err:
+            emsg = "Missing or invalid data (%s: %s)" % (type(err).__name__, err)
+            raise SrMiseDataFormatError(emsg)
+
+    def _readstr(self, datastring):
+        """Read tracer ModelCluster from string."""
         # find where the ModelCluster section starts
         res = re.search(r"^#+ ModelCluster\s*(?:#.*\s+)*", datastring, re.M)
         if res:
@@ -291,7 +306,7 @@ class TracePeaks(object):
 
         res = re.search(r"^clusters=(.*)$", header, re.M)
         if res:
-            clusters = eval(res.groups()[0].strip())
+            clusters = eval(res.groups()[0].strip(), {"np": np})
         else:
             emsg = "Required field 'clusters' not found."
             raise SrMiseDataFormatError(emsg)
-- 
2.43.0


From b9b49382ca77b0cfd1860255c3703914954960b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 27/66] fix: reject function indices just past the end of the
 list

---
 src/diffpy/srmise/basefunction.py   | 2 +-
 src/diffpy/srmise/baselines/base.py | 2 +-
 src/diffpy/srmise/peaks/base.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/basefunction.py b/src/diffpy/srmise/basefunction.py
index 861a85d..dbb0328 100644
--- a/src/diffpy/srmise/basefunction.py
+++ b/src/diffpy/srmise/basefunction.py
@@ -487,7 +487,7 @@ class BaseFunction(object):
         # Correctly initialize the base function, if one exists.
         if pdict["base"] is not None:
             idx = pdict["base"]
-            if idx > len(baselist):
+            if idx >= len(baselist):
                 emsg = "Dependent base function not in baselist."
                 raise ValueError(emsg)
             pdict["base"] = baselist[idx]
diff --git a/src/diffpy/srmise/baselines/base.py b/src/diffpy/srmise/baselines/base.py
index fabf835..3ce3962 100644
--- a/src/diffpy/srmise/baselines/base.py
+++ b/src/diffpy/srmise/baselines/base.py
@@ -190,7 +190,7 @@ class Baseline(ModelPart):
 
         # Correctly initialize the base function, if one exists.
         idx = pdict["owner"]
-        if idx > len(ownerlist):
+        if idx >= len(ownerlist):
             emsg = "Dependent base function not in ownerlist."
             raise ValueError(emsg)
         pdict["owner"] = ownerlist[idx]
diff --git a/src/diffpy/srmise/peaks/base.py b/src/diffpy/srmise/peaks/base.py
index 7e57c10..40fb4e2 100644
--- a/src/diffpy/srmise/peaks/base.py
+++ b/src/diffpy/srmise/peaks/base.py
@@ -297,7 +297,7 @@ class Peak(ModelPart):
 
         # Correctly initialize the base function, if one exists.
         idx = pdict["owner"]
-        if idx > len(ownerlist):
+        if idx >= len(ownerlist):
             emsg = "Dependent base function not in ownerlist."
             raise ValueError(emsg)
         pdict["owner"] = ownerlist[idx]
-- 
2.43.0


From cf16e1e221c288edb0a7550d98b079c8b0cd5b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 28/66] fix: make the second attempt at matching peaks work,
 and its rollback exact

---
 src/diffpy/srmise/peaks/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peaks/base.py b/src/diffpy/srmise/peaks/base.py
index 40fb4e2..f6103c8 100644
--- a/src/diffpy/srmise/peaks/base.py
+++ b/src/diffpy/srmise/peaks/base.py
@@ -188,10 +188,10 @@ class Peaks(ModelParts):
 
             # Second attempt at scaling peaks.
             if not all_scaled and fixed_height < y and fixed_height < height:
-                self[:] = orig[:]
+                self[:] = orig.copy()
                 any_scaled = False
                 scale = (y - fixed_height) / (height - fixed_height)
-                for peak, s in (self, scaled):
+                for peak, s in zip(self, scaled):
                     if s:
                         # "or" is short-circuited, so scale_at() must be first
                         # to guarantee it is called.
-- 
2.43.0


From 27e5b814e56f1eeaf49ffdc67f774e7f993a8ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 29/66] fix: log why a peak cannot be scaled

---
 src/diffpy/srmise/peaks/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peaks/base.py b/src/diffpy/srmise/peaks/base.py
index f6103c8..2fc8a9d 100644
--- a/src/diffpy/srmise/peaks/base.py
+++ b/src/diffpy/srmise/peaks/base.py
@@ -260,7 +260,7 @@ class Peak(ModelPart):
         try:
             adj_pars = self._owner.scale_at(self.pars, x, scale)
         except SrMiseScalingError as err:
-            logger.debug("Cannot scale peak:", err)
+            logger.debug("Cannot scale peak: %s", err)
             return False
 
         # Check if a fixed parameter was changed.
-- 
2.43.0


From 47e1908881564d4e46cf832cf0947000077b0d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 30/66] fix: honour the reverse argument of Peaks.sort

---
 src/diffpy/srmise/peaks/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/peaks/base.py b/src/diffpy/srmise/peaks/base.py
index 2fc8a9d..afe74ee 100644
--- a/src/diffpy/srmise/peaks/base.py
+++ b/src/diffpy/srmise/peaks/base.py
@@ -206,6 +206,8 @@ class Peaks(ModelParts):
         """Sort peaks in order specified by key."""
         keypars = np.array([p[key] for p in self])
         order = keypars.argsort()
+        if reverse:
+            order = order[::-1]
         self[:] = [self[idx] for idx in order]
         return
 
-- 
2.43.0


From f069418c003f29a95f0a6bd922b89a6ebc1cb915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 31/66] fix: let the Jacobian of Gaussian be evaluated

---
 src/diffpy/srmise/peaks/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 2c9b713..83c322d 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -272,7 +272,7 @@ class Gaussian(PeakFunction):
             Only columns corresponding to `True` values in `free` are computed.
         """
         jacobian = [None, None, None]
-        if (free is False).sum() == self.npars:
+        if np.sum(np.logical_not(free)) == self.npars:
             return jacobian
 
         # Optimization
-- 
2.43.0


From 3d1df18df1c7f46f0d4c82ae65cd4eb42677db0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 32/66] fix: evaluate the rippled Jacobian at a single point

---
 src/diffpy/srmise/peaks/terminationripples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peaks/terminationripples.py b/src/diffpy/srmise/peaks/terminationripples.py
index 315e02a..98b1fe9 100644
--- a/src/diffpy/srmise/peaks/terminationripples.py
+++ b/src/diffpy/srmise/peaks/terminationripples.py
@@ -255,7 +255,7 @@ class TerminationRipples(PeakFunction):
             dr = 2 * np.pi / (self.supersample * self.qmax)
             (ext_r, ext_slice) = self.extend_grid(np.array([r]), dr)
             jac = self._jacobianraw(peak.pars, ext_r, peak.free)
-            for idx in range(len(output)):
+            for idx in range(len(jac)):
                 if jac[idx] is not None:
                     jac[idx] = self.cut_freq(jac[idx], dr)[ext_slice][0]
             return jac
-- 
2.43.0


From 59ddd0d13b1c5593865d2f05d140a6479faf0d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 33/66] fix: hold parameters as floats so integer input is not
 truncated

---
 src/diffpy/srmise/baselines/arbitrary.py     | 2 +-
 src/diffpy/srmise/baselines/fromsequence.py  | 2 +-
 src/diffpy/srmise/baselines/nanospherical.py | 2 +-
 src/diffpy/srmise/baselines/polynomial.py    | 2 +-
 src/diffpy/srmise/modelparts.py              | 2 +-
 src/diffpy/srmise/peaks/gaussian.py          | 2 +-
 src/diffpy/srmise/peaks/gaussianoverr.py     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/diffpy/srmise/baselines/arbitrary.py b/src/diffpy/srmise/baselines/arbitrary.py
index d0f8c99..0005bd0 100644
--- a/src/diffpy/srmise/baselines/arbitrary.py
+++ b/src/diffpy/srmise/baselines/arbitrary.py
@@ -207,7 +207,7 @@ class Arbitrary(BaselineFunction):
         numpy.ndarray
             The standard output of transformed parameters
         """
-        temp = np.array(pars)
+        temp = np.array(pars, dtype=float)
 
         # Convert to intermediate format "internal"
         if in_format == "internal":
diff --git a/src/diffpy/srmise/baselines/fromsequence.py b/src/diffpy/srmise/baselines/fromsequence.py
index 6333977..1aaa8d8 100644
--- a/src/diffpy/srmise/baselines/fromsequence.py
+++ b/src/diffpy/srmise/baselines/fromsequence.py
@@ -180,7 +180,7 @@ class FromSequence(BaselineFunction):
         array-like
             The sequence of parameters converted to out_format
         """
-        temp = np.array(pars)
+        temp = np.array(pars, dtype=float)
 
         # Convert to intermediate format "internal"
         if in_format == "internal":
diff --git a/src/diffpy/srmise/baselines/nanospherical.py b/src/diffpy/srmise/baselines/nanospherical.py
index c788b6b..d5d322c 100644
--- a/src/diffpy/srmise/baselines/nanospherical.py
+++ b/src/diffpy/srmise/baselines/nanospherical.py
@@ -206,7 +206,7 @@ class NanoSpherical(BaselineFunction):
         array-like
             The transformed parameter values with out_format.
         """
-        temp = np.array(pars)
+        temp = np.array(pars, dtype=float)
 
         # Convert to intermediate format "internal"
         if in_format == "internal":
diff --git a/src/diffpy/srmise/baselines/polynomial.py b/src/diffpy/srmise/baselines/polynomial.py
index df0f379..5f4611a 100644
--- a/src/diffpy/srmise/baselines/polynomial.py
+++ b/src/diffpy/srmise/baselines/polynomial.py
@@ -184,7 +184,7 @@ class Polynomial(BaselineFunction):
         array-like
             The transformed parameters in out_format
         """
-        temp = np.array(pars)
+        temp = np.array(pars, dtype=float)
 
         # Convert to intermediate format "internal"
         if in_format == "internal":
diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index 240f017..39792b1 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -533,7 +533,7 @@ class ModelPart(object):
         if len(pars) != owner.npars:
             emsg = "The length of pars must equal the number of parameters " + "specified by the model part owner."
             raise ValueError(emsg)
-        self.pars = np.array(pars[:])  # pars[:] in case pars is a ModelPart
+        self.pars = np.array(pars[:], dtype=float)  # pars[:] in case pars is a ModelPart
 
         if free is None:
             self.free = np.array([True for p in pars], dtype=bool)
diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 83c322d..4b792ad 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -330,7 +330,7 @@ class Gaussian(PeakFunction):
         array_like
             The transformed parameters in the `out_format`.
         """
-        temp = np.array(pars)
+        temp = np.array(pars, dtype=float)
 
         # Do I need to change anything?  The internal parameters may need to be
         # placed into the preferred range, even though their interpretation does
diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index c47191a..b74974a 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -397,7 +397,7 @@ class GaussianOverR(PeakFunction):
         array_like
             The transformed parameters in the `out_format`.
         """
-        temp = np.array(pars)
+        temp = np.array(pars, dtype=float)
 
         # Do I need to change anything?  The internal parameters may need to be
         # placed into the preferred range, even though their interpretation does
-- 
2.43.0


From 5495a4fb0824532d4ee8b32f1e051c14a9aed94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 34/66] fix: return new parameters from transformations between
 equal formats

---
 src/diffpy/srmise/peaks/gaussian.py      | 2 +-
 src/diffpy/srmise/peaks/gaussianoverr.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 4b792ad..d3339e0 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -336,7 +336,7 @@ class Gaussian(PeakFunction):
         # placed into the preferred range, even though their interpretation does
         # not change.
         if in_format == out_format and in_format != "internal":
-            return pars
+            return temp
 
         # Convert to intermediate format "internal"
         if in_format == "internal":
diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index b74974a..25536f3 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -403,7 +403,7 @@ class GaussianOverR(PeakFunction):
         # placed into the preferred range, even though their interpretation does
         # not change.
         if in_format == out_format and in_format != "internal":
-            return pars
+            return temp
 
         # Convert to intermediate format "internal"
         if in_format == "internal":
-- 
2.43.0


From bc2d9287ea20c95f1ff5bd7af2a16cff68fbf8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 35/66] fix: order the Jacobian of Polynomial like its
 parameters

---
 src/diffpy/srmise/baselines/polynomial.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/baselines/polynomial.py b/src/diffpy/srmise/baselines/polynomial.py
index 5f4611a..eb53a36 100644
--- a/src/diffpy/srmise/baselines/polynomial.py
+++ b/src/diffpy/srmise/baselines/polynomial.py
@@ -157,10 +157,11 @@ class Polynomial(BaselineFunction):
             return jacobian
 
         # The partial derivative with respect to the nth coefficient of a
-        # polynomial is just x^nth.
+        # polynomial is just x^nth.  The coefficient of the highest degree
+        # comes first.
         for idx in range(self.npars):
             if free[idx]:
-                jacobian[idx] = np.power(r, idx)
+                jacobian[idx] = np.power(r, self.npars - 1 - idx)
         return jacobian
 
     def _transform_parametersraw(self, pars, in_format, out_format):
-- 
2.43.0


From 695e8af3ef96b9f23e242f65a116e77b7f1c4f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 36/66] fix: make NanoSpherical and its Jacobian agree for
 negative parameters

---
 src/diffpy/srmise/baselines/nanospherical.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/baselines/nanospherical.py b/src/diffpy/srmise/baselines/nanospherical.py
index d5d322c..986ff51 100644
--- a/src/diffpy/srmise/baselines/nanospherical.py
+++ b/src/diffpy/srmise/baselines/nanospherical.py
@@ -115,7 +115,7 @@ class NanoSpherical(BaselineFunction):
             return jacobian
 
         if np.isscalar(r):
-            if r <= 0.0 or r >= 2.0 * pars[1]:
+            if r <= 0.0 or r >= 2.0 * np.abs(pars[1]):
                 if free[0]:
                     jacobian[0] = 0.0
                 if free[1]:
@@ -158,7 +158,7 @@ class NanoSpherical(BaselineFunction):
         # From abs'(s) in derivative, which is equivalent to sign(s) except at 0 where it
         # is undefined. Since s=0 is equivalent to the absence of a nanoparticle, sign will
         # be fine.
-        sign = np.sign(pars[1])
+        sign = np.sign(pars[0])
         return -sign * r * (1 - (3.0 / 4.0) * rdivR + (1.0 / 16.0) * rdivR**3)
 
     def _jacobianrawradius(self, pars, r):
@@ -247,7 +247,7 @@ class NanoSpherical(BaselineFunction):
             emsg = "Argument pars must have " + str(self.npars) + " elements."
             raise ValueError(emsg)
         if np.isscalar(r):
-            if r <= 0.0 or r >= 2.0 * pars[1]:
+            if r <= 0.0 or r >= 2.0 * np.abs(pars[1]):
                 return 0.0
             else:
                 return self._valueraw2(pars, r)
@@ -296,7 +296,7 @@ class NanoSpherical(BaselineFunction):
             The slice object for which r > 0 and r < twice the radius
         """
         low = r.searchsorted(0.0, side="right")
-        high = r.searchsorted(2.0 * pars[1], side="left")
+        high = r.searchsorted(2.0 * np.abs(pars[1]), side="left")
         return slice(low, high)
 
     def getmodule(self):
-- 
2.43.0


From 46a594ee641fa64b31250508f0d27890c341dbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 37/66] fix: give Arbitrary the requested number of parameters
 and a usable missing Jacobian

---
 src/diffpy/srmise/baselines/arbitrary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/baselines/arbitrary.py b/src/diffpy/srmise/baselines/arbitrary.py
index 0005bd0..8150530 100644
--- a/src/diffpy/srmise/baselines/arbitrary.py
+++ b/src/diffpy/srmise/baselines/arbitrary.py
@@ -68,7 +68,7 @@ class Arbitrary(BaselineFunction):
         # Define parameterdict
         # e.g. {"a_0":0, "a_1":1, "a_2":2, "a_3":3} if npars is 4.
         parameterdict = {}
-        for d in range(testnpars + 1):
+        for d in range(testnpars):
             parameterdict["a_" + str(d)] = d
         formats = ["internal"]
         default_formats = {
@@ -164,7 +164,7 @@ class Arbitrary(BaselineFunction):
         """
         nfree = None
         if self.jacobianf is None:
-            nfree = (pars is True).sum()
+            nfree = np.sum(free)
             if nfree != 0:
                 emsg = "No jacobian routine provided to Arbitrary."
                 raise NotImplementedError(emsg)
-- 
2.43.0


From a3750417e188ee56b759e07217d67c2cae3679f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 38/66] fix: keep the first character of a FromSequence data
 file

---
 src/diffpy/srmise/baselines/fromsequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/baselines/fromsequence.py b/src/diffpy/srmise/baselines/fromsequence.py
index 1aaa8d8..f338842 100644
--- a/src/diffpy/srmise/baselines/fromsequence.py
+++ b/src/diffpy/srmise/baselines/fromsequence.py
@@ -262,7 +262,7 @@ class FromSequence(BaselineFunction):
 
         res = re.search(rb"^[^#]", datastring, re.M)
         if res:
-            datastring = datastring[res.end() :].strip()
+            datastring = datastring[res.start() :].strip()
 
         x = []
         y = []
-- 
2.43.0


From 72fbca00c80dc825fea574eaac068e54658e16f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 39/66] fix: load the baselines of a saved peak stability run

---
 src/diffpy/srmise/peakstability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakstability.py b/src/diffpy/srmise/peakstability.py
index 77e3928..4e902ae 100644
--- a/src/diffpy/srmise/peakstability.py
+++ b/src/diffpy/srmise/peakstability.py
@@ -60,7 +60,7 @@ class PeakStability:
                 if r[2] is not None:
                     kwds = r[2]
                     if hasattr(bl, "estimate_parameters"):
-                        r[2] = bl.actualize(default_input="internal", **kwds)
+                        r[2] = bl.actualize(in_format="internal", **kwds)
                     else:
                         r[2] = bl.owner().actualize(in_format="internal", **kwds)
         finally:
-- 
2.43.0


From 94f3d1e875d46713f27db6ce7bfb010cea2db3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 40/66] fix: load AICs from a file

---
 src/diffpy/srmise/multimodelselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 91cd34c..4e00647 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -163,7 +163,7 @@ class MultimodelSelection(PeakStability):
         em = self.ppe.error_method
 
         self.aics = aics_in
-        self.dgs = np.sort(aics_in.keys())
+        self.dgs = np.sort(list(aics_in))
 
         for i, dg in enumerate(self.dgs):
             self.dgs_idx[dg] = i
-- 
2.43.0


From c98332bd4ec50637495bcd662c3b3aac8028f548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 41/66] fix: search only the given uncertainties for those a
 class is best at

---
 src/diffpy/srmise/multimodelselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 4e00647..36c6af0 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -544,7 +544,7 @@ class MultimodelSelection(PeakStability):
         if dgs is None:
             dgs = self.dgs
         bestdgs = []
-        for dg in self.dgs:
+        for dg in dgs:
             if self.sortedclassprobs[dg][-1] == cls:
                 bestdgs.append(dg)
         return bestdgs
-- 
2.43.0


From 48a4d36bdc073ec796917708ea1f875fbf392196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 42/66] fix: let MultimodelSelection.get return "dG" as
 documented

---
 src/diffpy/srmise/multimodelselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 36c6af0..912a7f0 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -918,7 +918,7 @@ class MultimodelSelection(PeakStability):
         fdict = {
             "aic": self.get_aic,
             "class": self.get_class,
-            "dg": lambda x: x,
+            "dG": lambda x, **kwds: x,
             "model": self.get_model,
             "nfree": self.get_nfree,
             "prob": self.get_prob,
-- 
2.43.0


From a26571aa3f365a649fd17e96600a34596cb724a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 43/66] fix: plot class probabilities with current matplotlib

---
 src/diffpy/srmise/multimodelselection.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 912a7f0..a117b9b 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -612,7 +612,7 @@ class MultimodelSelection(PeakStability):
         "cbaxis" - The colorbar axis, if it exists.
         "cb" - The colorbar, if it exists.
         """
-        from matplotlib import cm, colorbar, colors
+        from matplotlib import colorbar, colors
         from matplotlib.collections import PolyCollection
 
         fig = kwds.pop("figure", plt.gcf())
@@ -627,8 +627,8 @@ class MultimodelSelection(PeakStability):
         probfilter = kwds.pop("probfilter", [0.0, 1.0])
         class_size = kwds.pop("class_size", "number")
         norm = kwds.pop("norm", "auto")
-        cmap = kwds.pop("cmap", cm.get_cmap("jet"))
-        highlight_cmap = kwds.pop("highlight_cmap", cm.get_cmap("gray"))
+        cmap = kwds.pop("cmap", plt.get_cmap("jet"))
+        highlight_cmap = kwds.pop("highlight_cmap", plt.get_cmap("gray"))
         title = kwds.pop("title", True)
         p_alpha = kwds.pop("p_alpha", 0.7)
         scale = kwds.pop("scale", 1.0)
@@ -646,7 +646,7 @@ class MultimodelSelection(PeakStability):
                     (xs[0], 0),
                     (xs[-1], 0),
                 )  # points to close the vertices
-                verts.append(np.concatenate([[p0], zip(xs, ys), [p1], [p0]]))
+                verts.append(np.concatenate([[p0], list(zip(xs, ys)), [p1], [p0]]))
                 zlabels.append(i)
 
         #  Define face colors
@@ -752,7 +752,7 @@ class MultimodelSelection(PeakStability):
             cbaxis, kwds = colorbar.make_axes_gridspec(ax, **kwds)  # gridspec allows tight_layout
             plt.tight_layout()  # do it after cbaxis, so colorbar isn't ignored
 
-        cb = colorbar.ColorbarBase(cbaxis, cmap=cmap, norm=norm, **kwds)
+        cb = colorbar.Colorbar(cbaxis, cmap=cmap, norm=norm, **kwds)
 
         if class_size == "number":
             cb.set_label("Models in class")
-- 
2.43.0


From 56de30d1df7639509953ce56d3a5f9f4997bcc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 44/66] fix: find the cluster nearest to a coordinate past the
 last point

---
 src/diffpy/srmise/dataclusters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index c79d5fb..87a4330 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -255,8 +255,10 @@ class DataClusters:
             raise Exception("Cannot cluster next point while status is INIT.")
 
         idx = np.searchsorted(self.x, x)
-        if idx > 0 or idx >= len(self.x):
+        if idx == 0:
             return self.find_nearest_cluster(idx)
+        elif idx >= len(self.x):
+            return self.find_nearest_cluster(len(self.x) - 1)
         else:
             # Choose adjacent index nearest to x
             if (self.x[idx] - x) < (x - self.x[idx - 1]):
-- 
2.43.0


From 9e97c8034cf59b0892fa8c102a59a9b623a50d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 45/66] fix: return cluster boundaries as (x, y) pairs

---
 src/diffpy/srmise/dataclusters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index 87a4330..cd34aa2 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -452,13 +452,14 @@ class DataClusters:
         """Return sequence with (x,y) of all cluster boundaries."""
         boundaries = []
         for cluster in self.clusters:
-            xlo = np.mean(self.x[cluster[0] - 1 : cluster[0] + 1])
-            ylo = np.mean(self.y[cluster[0] - 1 : cluster[0] + 1])
+            low = max(cluster[0] - 1, 0)
+            xlo = np.mean(self.x[low : cluster[0] + 1])
+            ylo = np.mean(self.y[low : cluster[0] + 1])
             xhi = np.mean(self.x[cluster[1] : cluster[1] + 2])
             yhi = np.mean(self.y[cluster[1] : cluster[1] + 2])
             boundaries.append((xlo, ylo))
             boundaries.append((xhi, yhi))
-        return np.unique(boundaries)
+        return np.unique(boundaries, axis=0)
 
     def plot(self, *args, **kwds):
         """Plot the data with vertical lines at the cluster divisions.
-- 
2.43.0


From 620e25b837786d74b82514b14d65a9e2a1820efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 46/66] fix: find and combine groups of adjacent clusters of
 any length

---
 src/diffpy/srmise/dataclusters.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index cd34aa2..a465dc5 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -359,7 +359,9 @@ class DataClusters:
         None
         """
         # Ensure that the same clusters aren't combined multiple times.
-        combine_flat = np.array(combine).ravel()
+        if len(combine) == 0:
+            return
+        combine_flat = np.concatenate(combine)
         if len(combine_flat) != len(np.unique(combine_flat)):
             raise ValueError("Cannot combine a single cluster multiple times.")
 
@@ -372,9 +374,9 @@ class DataClusters:
                         "".join(
                             [
                                 "Clusters  ",
-                                str(c[i]),
+                                str(c[i - first]),
                                 " and ",
-                                str(c[i + 1]),
+                                str(c[i + 1 - first]),
                                 " are not contiguous and/or increasing.",
                             ]
                         )
@@ -384,17 +386,18 @@ class DataClusters:
                         "".join(
                             [
                                 "Clusters  ",
-                                str(c[i]),
+                                str(c[i - first]),
                                 " and ",
-                                str(c[i + 1]),
+                                str(c[i + 1 - first]),
                                 " have unclustered points between them.",
                             ]
                         )
                     )
 
-            # update cluster endpoints
+        # update cluster endpoints
+        for c in combine:
             self.clusters[c[0], 1] = self.clusters[c[-1], 1]
-        todelete = np.array([c[1:] for c in combine]).ravel()
+        todelete = np.concatenate([c[1:] for c in combine]).astype(int)
         self.clusters = np.delete(self.clusters, todelete, 0)
 
     def find_adjacent_clusters(self):
@@ -431,6 +434,11 @@ class DataClusters:
             if right_idx > left_idx:
                 adj.append(range(left_idx, right_idx + 1))
             left_idx = right_idx + 1  # set for next possible left_idx
+        if len(set(len(a) for a in adj)) > 1:
+            # numpy only makes an array of unequal groups if told to.
+            groups = np.empty(len(adj), dtype=object)
+            groups[:] = [np.array(a) for a in adj]
+            return groups
         return np.array(adj)
 
     def cut(self, idx):
-- 
2.43.0


From f7f73e19f61890503bb6125bf6ff03a9dc3830a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 47/66] fix: transform the covariance of the baseline alone

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 854d369..00c38b5 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -176,7 +176,7 @@ class ModelCovariance(object):
             if kwds["parts"] == "peaks":
                 parts = range(len(self.model) - 1)
             elif kwds["parts"] == "baseline":
-                parts = [-1]
+                parts = [len(self.model) - 1]
             else:
                 parts = kwds["parts"]
         else:
-- 
2.43.0


From 159c5d674ea25d233350782396748aae6882e92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 48/66] fix: transform the covariance of models with
 parameterless parts

---
 src/diffpy/srmise/modelcluster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 00c38b5..f4af2db 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -194,6 +194,8 @@ class ModelCovariance(object):
         g = np.identity(self.cov.shape[0])
 
         for i in parts:
+            if len(self.mmap[i]) == 0:
+                continue  # no parameters, no derivatives
             start = self.mmap[i][0]
             stop = self.mmap[i][-1] + 1
             p = self.model[i]
-- 
2.43.0


From ad3433d6bf7bf60fe472968c4ea9d7338fb8ca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 49/66] fix: do not order the functions of a pwa summary by
 their hash

---
 src/diffpy/srmise/pdfpeakextraction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index 3744bb8..822f8b6 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -858,8 +858,9 @@ class PDFPeakExtraction(PeakExtraction):
             allpf.extend([p.owner() for p in self.extracted.model])
             if self.extracted.baseline is not None:
                 allbf.append(self.extracted.baseline.owner())
-        allpf = list(set(allpf))
-        allbf = list(set(allbf))
+        # Remove duplicates, keeping the order
+        allpf = list(dict.fromkeys(allpf))
+        allbf = list(dict.fromkeys(allbf))
         safepf = BaseFunction.safefunctionlist(allpf)
         safebf = BaseFunction.safefunctionlist(allbf)
 
-- 
2.43.0


From c1fe12379daee069c3bc1dafcab2621ba024d1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 50/66] fix: forget the qmax estimated from previous data

---
 src/diffpy/srmise/pdfpeakextraction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index 822f8b6..480d10a 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -103,6 +103,8 @@ class PDFPeakExtraction(PeakExtraction):
         try:
             self.qmax_fromdata = find_qmax(self.x, self.y)[0]
         except Exception:
+            # Do not keep the qmax of previous data.
+            self.qmax_fromdata = None
             logger.info("Could not determine qmax from the data.")
 
     def clear(self):
-- 
2.43.0


From 29d440b7f8e375a02a95485b5c4aad6b90fb6c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 51/66] fix: let supersample be reset to its default

---
 src/diffpy/srmise/pdfpeakextraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index 480d10a..dbc7051 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -183,7 +183,7 @@ class PDFPeakExtraction(PeakExtraction):
                     emsg = "Qmax could not be automatically determined."
                     raise SrMiseQmaxError(emsg)
         if "supersample" in kwds:
-            if kwds["supersample"] < 1.0:
+            if kwds["supersample"] is not None and kwds["supersample"] < 1.0:
                 emsg = "Supersample must be a value greater than 1."
                 raise ValueError(emsg)
         PeakExtraction.setvars(self, quiet, **kwds)
-- 
2.43.0


From 03f07db6e7fbcd051edb43da7b893a280ab53b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 52/66] fix: count the free parameters of the extracted
 baseline in the pwa summary

---
 src/diffpy/srmise/pdfpeakextraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index dbc7051..0d90f5f 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -827,8 +827,8 @@ class PDFPeakExtraction(PeakExtraction):
         # Quality of fit
         lines.append("# Quality reported by ModelEvaluator: %s" % self.extracted.quality().stat)
         lines.append("# Free parameters in extracted peaks: %s" % self.extracted.model.npars(count_fixed=False))
-        if self.baseline is not None:
-            fblpars = self.baseline.npars(count_fixed=False)
+        if self.extracted.baseline is not None:
+            fblpars = self.extracted.baseline.npars(count_fixed=False)
         else:
             fblpars = 0
         lines.append("# Free parameters in baseline: %s" % fblpars)
-- 
2.43.0


From 4b2bbe4c73c5fd9630849b97ff49a496352aab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 53/66] fix: find the peak function and model evaluator named
 on the command line

---
 src/diffpy/srmise/applications/extract.py | 33 +++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 3dd4eaa..ac7d49a 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -33,6 +33,27 @@ def _baseline_namespace():
     }
 
 
+def _peak_namespace():
+    """Return the peak functions supported by the CLI."""
+    from diffpy.srmise.peaks.gaussian import Gaussian
+    from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
+    from diffpy.srmise.peaks.terminationripples import TerminationRipples
+
+    return {
+        "Gaussian": Gaussian,
+        "GaussianOverR": GaussianOverR,
+        "TerminationRipples": TerminationRipples,
+    }
+
+
+def _modelevaluator_namespace():
+    """Return the model evaluators supported by the CLI."""
+    from diffpy.srmise.modelevaluators.aic import AIC
+    from diffpy.srmise.modelevaluators.aicc import AICc
+
+    return {"AIC": AIC, "AICc": AICc}
+
+
 def main():
     """Default SrMise entry-point."""
     usage = (
@@ -447,7 +468,11 @@ def main():
 
     if options.peakfunction:
         try:
-            options.peakfunction = eval("peaks." + options.peakfunction)
+            options.peakfunction = eval(
+                options.peakfunction,
+                {"__builtins__": {}},
+                _peak_namespace(),
+            )
         except Exception as err:
             print(err)
             print(
@@ -463,7 +488,11 @@ def main():
 
     if options.modelevaluator:
         try:
-            options.modelevaluator = eval("modelevaluators." + options.modelevaluator)
+            options.modelevaluator = eval(
+                options.modelevaluator,
+                {"__builtins__": {}},
+                _modelevaluator_namespace(),
+            )
         except Exception as err:
             print(err)
             print(
-- 
2.43.0


From 301de87de20466d6aceed10d98cd11e658672c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 54/66] fix: honour command-line options with values that test
 false

---
 src/diffpy/srmise/applications/extract.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index ac7d49a..9eb8578 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -573,12 +573,12 @@ def main():
         pdict = {}
         if options.peakfunction:
             pdict["pf"] = [options.peakfunction]
-        if options.baseline:
+        if options.baseline is not None:
             pdict["baseline"] = options.baseline
-        if options.cres:
+        if options.cres is not None:
             pdict["cres"] = options.cres
         if options.dg_mode is None:
-            if options.dg:
+            if options.dg is not None:
                 options.dg_mode = "absolute"
             elif ext.dy is None:
                 options.dg_mode = "max-fraction"
@@ -598,11 +598,11 @@ def main():
             pdict["rng"] = list(options.rng)
         if options.qmax:
             pdict["qmax"] = options.qmax if options.qmax == "automatic" else float(options.qmax)
-        if options.nyquist:
+        if options.nyquist is not None:
             pdict["nyquist"] = options.nyquist
-        if options.supersample:
+        if options.supersample is not None:
             pdict["supersample"] = options.supersample
-        if options.scale:
+        if options.scale is not None:
             pdict["scale"] = options.scale
         if options.modelevaluator:
             pdict["error_method"] = options.modelevaluator
-- 
2.43.0


From 882ba0f251e9b69f3535bef5c22c9e8208de1f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 55/66] fix: use the documented default uncertainty for PDFs
 which report none

---
 src/diffpy/srmise/applications/extract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 9eb8578..0cd29be 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -580,7 +580,7 @@ def main():
         if options.dg_mode is None:
             if options.dg is not None:
                 options.dg_mode = "absolute"
-            elif ext.dy is None:
+            elif ext.dy is None or not np.all(ext.dy > 0):
                 options.dg_mode = "max-fraction"
             else:
                 options.dg_mode = "dG-fraction"
-- 
2.43.0


From 3bf30e3751071281dc229ae71624cad521c0aa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 56/66] fix: compute peak-to-peak uncertainty with current
 numpy

---
 src/diffpy/srmise/applications/extract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 0cd29be..d388562 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -591,7 +591,7 @@ def main():
         elif options.dg_mode == "max-fraction":
             pdict["effective_dy"] = options.dg * ext.y.max() * np.ones(len(ext.x))
         elif options.dg_mode == "ptp-fraction":
-            pdict["effective_dy"] = options.dg * ext.y.ptp() * np.ones(len(ext.y))
+            pdict["effective_dy"] = options.dg * np.ptp(ext.y) * np.ones(len(ext.y))
         elif options.dg_mode == "dG-fraction":
             pdict["effective_dy"] = options.dg * ext.dy
         if options.rng:
-- 
2.43.0


From 3acaef0769fde28aa80c690f2ef5c7ce40ce6274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 57/66] fix: require a value for absolute uncertainty

---
 src/diffpy/srmise/applications/extract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index d388562..22a347a 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -586,6 +586,8 @@ def main():
                 options.dg_mode = "dG-fraction"
         if options.dg is None:
             options.dg = dg_defaults[options.dg_mode]
+            if options.dg is None and options.dg_mode == "absolute":
+                parser.error("Option --dg is required if --dg-mode is absolute.")
         if options.dg_mode == "absolute":
             pdict["effective_dy"] = options.dg * np.ones(len(ext.x))
         elif options.dg_mode == "max-fraction":
-- 
2.43.0


From 34da1d681cd912b3b0961630db2cb17b9f8f7b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 58/66] fix: read the distances to compare with a plot

---
 src/diffpy/srmise/applications/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/plot.py b/src/diffpy/srmise/applications/plot.py
index b4d28c0..75c1bbc 100755
--- a/src/diffpy/srmise/applications/plot.py
+++ b/src/diffpy/srmise/applications/plot.py
@@ -560,7 +560,7 @@ def readcompare(filename):
     """
     # TODO: Make this safer
     try:
-        datastring = open(filename, "rb").read()
+        datastring = open(filename).read()
     except Exception as err:
         raise err
 
@@ -568,7 +568,7 @@ def readcompare(filename):
 
     res = re.search(r"^[^#]", datastring, re.M)
     if res:
-        datastring = datastring[res.end() :].strip()
+        datastring = datastring[res.start() :].strip()
 
     distances = []
 
-- 
2.43.0


From bcc61abfb67752d7c1cc161b9c48d960bb177d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 59/66] fix: forget stored traces when resetting

---
 src/diffpy/srmise/srmiselog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 96f8052..5af7411 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -358,7 +358,7 @@ class TracePeaks(object):
         self.call = 0
         self.counter = 0
         self.recursion = 0
-        self.stored = []
+        self.trace = []
 
     # filter property
     def setfilter(self, filter):
-- 
2.43.0


From dd4a5ace938ade599fd71cc6ac6a1a1eb5e2cf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 60/66] fix: copy the diameter of a PDF data set

---
 src/diffpy/srmise/pdfdataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/pdfdataset.py b/src/diffpy/srmise/pdfdataset.py
index 3965fe3..ba0dd65 100644
--- a/src/diffpy/srmise/pdfdataset.py
+++ b/src/diffpy/srmise/pdfdataset.py
@@ -438,6 +438,7 @@ class PDFDataSet(PDFComponent):
             "qmax",
             "qdamp",
             "qbroad",
+            "spdiameter",
             "dscale",
             "rmin",
             "rmax",
-- 
2.43.0


From 76eacbd70f22363640730f785941c40aefea9a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 61/66] fix: write the diameter of a PDF data set

---
 src/diffpy/srmise/pdfdataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/pdfdataset.py b/src/diffpy/srmise/pdfdataset.py
index ba0dd65..871ca9b 100644
--- a/src/diffpy/srmise/pdfdataset.py
+++ b/src/diffpy/srmise/pdfdataset.py
@@ -395,6 +395,8 @@ class PDFDataSet(PDFComponent):
         # qbroad
         lines.append("qbroad=%g" % self.qbroad)
         # dscale
+        if self.spdiameter is not None:
+            lines.append("spdiameter=%g" % self.spdiameter)
         lines.append("dscale=%g" % self.dscale)
         # metadata
         if len(self.metadata) > 0:
-- 
2.43.0


From e0a7f8f84ca78556de5de3e56201a42ad01a470a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 62/66] fix: Gaussian peaks transform the covariance together
 with the parameters

---
 src/diffpy/srmise/peaks/gaussian.py | 54 +++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index d3339e0..1ad6cb8 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -305,6 +305,60 @@ class Gaussian(PeakFunction):
                 jacobian[2] = -exp_p
         return jacobian
 
+    def _transform_derivativesraw(self, pars, in_format, out_format):
+        """Return gradient matrix for the pars converted from in_format
+        to out_format.
+
+        Parameters
+        ----------
+        pars: Sequence of parameters
+        in_format: A format defined for this class
+        out_format: A format defined for this class
+
+        Defined Formats
+        internal: [position, parameterized width-squared, area]
+        pwa: [position, full width at half maximum, area]
+        mu_sigma_area: [mu, sigma, area]
+        """
+        # With these three formats only the width-related parameter changes.
+        # Therefore the gradient matrix is the identity matrix with the possible
+        # exception of the element at [1,1].
+        g = np.identity(self.npars)
+
+        if in_format == out_format:
+            return g
+
+        if in_format == "internal":
+            if out_format == "pwa":
+                g[1, 1] = self.maxwidth / (2 * np.sqrt(2)) * np.cos(pars[1]) / np.sqrt(1 + np.sin(pars[1]))
+            elif out_format == "mu_sigma_area":
+                g[1, 1] = (
+                    self.maxwidth
+                    / (2 * np.sqrt(2) * self.sigma2fwhm)
+                    * np.cos(pars[1])
+                    / np.sqrt(1 + np.sin(pars[1]))
+                )
+            else:
+                raise ValueError("Argument 'out_format' must be one of %s." % self.parformats)
+        elif in_format == "pwa":
+            if out_format == "internal":
+                g[1, 1] = 2 / np.sqrt(self.maxwidth**2 - pars[1] ** 2)
+            elif out_format == "mu_sigma_area":
+                g[1, 1] = 1 / self.sigma2fwhm
+            else:
+                raise ValueError("Argument 'out_format' must be one of %s." % self.parformats)
+        elif in_format == "mu_sigma_area":
+            if out_format == "internal":
+                g[1, 1] = 2 * self.sigma2fwhm / np.sqrt(self.maxwidth**2 - (self.sigma2fwhm * pars[1]) ** 2)
+            elif out_format == "pwa":
+                g[1, 1] = self.sigma2fwhm
+            else:
+                raise ValueError("Argument 'out_format' must be one of %s." % self.parformats)
+        else:
+            raise ValueError("Argument 'in_format' must be one of %s." % self.parformats)
+
+        return g
+
     def _transform_parametersraw(self, pars, in_format, out_format):
         """Convert parameter values from one format to another.
 
-- 
2.43.0


From d24706579c6597bd10a9cbfe253a28aaab79e17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:30 +0000
Subject: [PATCH 63/66] fix: augment and prune keep the model whose quality was
 judged

---
 src/diffpy/srmise/modelcluster.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index f4af2db..1ffe822 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1453,6 +1453,8 @@ class ModelCluster(object):
             for i in range(len(test_models)):
                 self.model = test_models[i]
                 self.fit()
+                # A rejected fit leaves its result in the list it was given
+                test_models[i] = self.model
                 test_quals[i] = self.quality()
 
             args = test_quals.argsort()
@@ -1606,6 +1608,8 @@ class ModelCluster(object):
                     logger.debug("\n".join(msg), i, best_model[i], prune_mc.model)
 
                     prune_mc.fit(ntrials=int(np.sqrt(len(y)) + 50), estimate=False)
+                    # A rejected fit leaves its result in the list it was given
+                    check_models[i] = prune_mc.model
 
                     qual = prune_mc.quality(kshift=addpars)
                     check_qual = np.append(check_qual, qual)
-- 
2.43.0


From d3c15471849211ddec625766f48b3a2b80584ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:23 +0000
Subject: [PATCH 64/66] fix: prune counts the free parameters of every
 candidate alike

---
 src/diffpy/srmise/modelcluster.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 1ffe822..70093eb 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1583,7 +1583,11 @@ class ModelCluster(object):
                     ]
                     logger.debug("\n".join(msg), len(check_models), len(best_model), i)
 
-                    addpars = best_model.npars() - check_models[i].npars() - best_model[i].npars(count_fixed=False)
+                    addpars = (
+                        best_model.npars(count_fixed=False)
+                        - check_models[i].npars(count_fixed=False)
+                        - best_model[i].npars(count_fixed=False)
+                    )
 
                     # Remove contribution of (effectively) fixed peaks
                     y = np.array(y_nobl)
-- 
2.43.0


From 9c539bf8b587cbd1de95e779b05a9bde4a1ff4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:48 +0000
Subject: [PATCH 65/66] fix: refuse to scale a peak when its maximum cannot be
 kept

---
 src/diffpy/srmise/peaks/gaussian.py      | 5 +++++
 src/diffpy/srmise/peaks/gaussianoverr.py | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 1ad6cb8..f942043 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -230,6 +230,11 @@ class Gaussian(PeakFunction):
         area2 = np.sqrt(area1**2 / (2 * np.log(ratio) * sigma1**2 / (x - mu1) ** 2 + 1))
         sigma2 = sigma1 * area2 / area1
 
+        # No Gaussian with this maximum has the requested height at x.
+        if not sigma2 > 0:
+            emsg = "Cannot scale by %s at %s without changing the maximum." % (scale, x)
+            raise SrMiseScalingError(emsg)
+
         tpars[0] = mu2
         tpars[1] = sigma2
         tpars[2] = area2
diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index 25536f3..190ad40 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -236,6 +236,12 @@ class GaussianOverR(PeakFunction):
 
         # the semi-nasty algebra reduces to something nice
         sigma2 = np.sqrt(0.5 * rmax * (x - rmax) ** 2 / (x - rmax + rmax * log_ratio_prime))
+
+        # Otherwise no peak with its maximum at rmax has the requested height at x.
+        if not 0 < sigma2 < rmax:
+            emsg = "Cannot scale by %s at %s without changing the maximum." % (scale, x)
+            raise SrMiseScalingError(emsg)
+
         mu2 = (sigma2**2 + rmax**2) / rmax
         area2 = (
             area1
-- 
2.43.0


From 44c5ce43b43e1262dc04bd93e8116ef0e396d58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:04 +0000
Subject: [PATCH 66/66] fix: stop pruning when a fit dropped the last removable
 peak

---
 src/diffpy/srmise/modelcluster.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 70093eb..94294f6 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1626,6 +1626,10 @@ class ModelCluster(object):
                     if qual < best_qual:
                         check_models[i] = None
 
+            # The last removable peak may have been dropped by a fit
+            if len(check_qual) == 0:
+                break
+
             arg = check_qual.argsort()
 
             msg = [
-- 
2.43.0

