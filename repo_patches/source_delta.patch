From 5d17fca4b6259ebf840bb0c2578c256d8ea6b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 01/35] fix: resample with reflection folds samples at the
 boundaries, consistently with density

Images of the data were all removed again before sampling, so that the samples
followed the truncated instead of the reflected distribution.
---
 kalepy/kernels.py | 93 ++++++++++++-----------------------------------
 1 file changed, 23 insertions(+), 70 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 695bf76..404ba41 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -218,16 +218,8 @@ class Kernel(object):
 
         ndim, nvals = np.shape(data)
 
-        # Actually 'reflect' (append new, mirrored points) around the given reflection points
-        #   Also construct bounding box for valid data
-        data, bounds, weights = self._reflect_data(data, reflect, weights=weights)
-
-        # Remove data points outside of kernels (or truncated region)
-        data, weights = self._truncate_reflections(data, bounds, weights=weights)
-        if (data.size == 0):
-            err = "Empty data after reflection and truncation!"
-            logging.error(err)
-            raise ValueError(err)
+        # Construct bounding box for valid samples
+        bounds = self._reflect_bounds(reflect)
 
         if (self._chunk is not None) and (self._chunk < size):
             num_chunks = int(np.ceil(size/self._chunk))
@@ -247,6 +239,8 @@ class Kernel(object):
             # Draw candidate resample points
             #    set `keep` to None, `matrix` is already modified to account for it
             trial = self._resample_clear(data, draw, weights=weights, matrix=matrix, keep=None)
+            # Reflect the points that crossed a boundary, consistently with `density()`
+            trial = self._reflect_samples(trial, bounds)
             # Find the (boolean) indices of values within target boundaries
             idx = utils.bound_indices(trial, bounds)
 
@@ -287,75 +281,34 @@ class Kernel(object):
 
     # ==== Utilities ====
 
-    def _reflect_data(self, data, reflect, weights=None):
-        """Reflect the given data about the locations specified by `reflect`.
-
-        If input `weights` is None, then returned `weights` are None.
-
+    def _reflect_bounds(self, reflect):
+        """Convert from reflection specification to a bounding box, with infinity for no boundary.
         """
-        bounds = np.zeros((data.shape[0], 2))
-
-        old_data = np.copy(data)
-        if weights is not None:
-            old_weights = np.copy(weights)
-
+        bounds = np.array([[-np.inf, np.inf]] * len(reflect))
         for ii, reflect_dim in enumerate(reflect):
             if reflect_dim is None:
-                bounds[ii, 0] = -np.inf
-                bounds[ii, 1] = +np.inf
                 continue
 
             for jj, loc in enumerate(reflect_dim):
-                if loc is None:
-                    # j=0 : -inf,  j=1: +inf
-                    bounds[ii, jj] = np.inf * (2*jj - 1)
-                    continue
+                if loc is not None:
+                    bounds[ii, jj] = loc
 
-                bounds[ii, jj] = loc
-                new_data = np.array(old_data)
-                new_data[ii, :] = loc - (new_data[ii, :] - loc)
-                # NOTE: this returns a copy, so original `data` is *not* changed in-place
-                data = np.append(data, new_data, axis=-1)
-                if weights is not None:
-                    weights = np.append(weights, old_weights)
+        return bounds
 
-        # Re-normalize the weights
-        if weights is not None:
-            weights = weights / np.sum(weights)
-
-        return data, bounds, weights
-
-    def _truncate_reflections(self, data, bounds, weights=None):
-        # Determine the bounds outside of which we should truncate
-        # trunc = self._get_truncation_bounds(bounds)
-        trunc = bounds
-        # Find the data-points outside of those bounds
-        idx = utils.bound_indices(data, trunc)
-        # Select only points within truncation bounds
-        data = data[:, idx]
-        if weights is not None:
-            weights = weights[idx]
-            weights /= np.sum(weights)
-
-        return data, weights
-
-    def _get_truncation_bounds(self, bounds):
-        trunc = np.zeros_like(bounds)
+    def _reflect_samples(self, samps, bounds):
+        """Mirror the samples that are outside of the given bounds, in a single dimension.
 
-        bw = self.bandwidth.diagonal()
-        # If this kernel has finite-support, we only need to go out to 'bandwidth' on each side
-        if self.FINITE:
-            bw = bw * (1 + _NUM_PAD)
-            qnts = np.array([-bw, bw]).T
-        # If kernel has infinite-support, go to the quantile reaching the desired precision
-        else:
-            tol = _TRUNCATE_INFINITE_KERNELS
-            qnts = self.distribution.ppf([tol, 1-tol])
-            qnts = qnts[np.newaxis, :] * bw[:, np.newaxis]
-
-        # Expand the reflection bounds based on the bandwidth interval
-        trunc = bounds + qnts
-        return trunc
+        In `density()` there is one image of the data for each boundary.  The image is thus not
+        reflected in the other dimensions, and samples outside in multiple dimensions are not used.
+        """
+        lo, hi = bounds.T[..., np.newaxis]
+        below = (samps < lo)
+        above = (hi < samps)
+        outside = below | above
+        single = (np.count_nonzero(outside, axis=0) == 1)
+        samps = np.where(below & single, 2*lo - samps, samps)
+        samps = np.where(above & single, 2*hi - samps, samps)
+        return samps
 
     # ==== Properties ====
 
-- 
2.43.0


From 7e84ed4f780878e9fdcf78e056f508256a23f20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 02/35] fix: sample multi-dimensional Box, Parabola and
 Triweight kernels from their actual densities

---
 kalepy/kernels.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 404ba41..c1311c4 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -496,7 +496,7 @@ class Box(_Distribution):
         else:
             samps = np.random.normal(0.0, 1.0, (ndim, size))
             rads = np.sum(samps**2, axis=0) ** 0.5
-            norm = np.random.random((ndim, size)) ** (1.0 / ndim)
+            norm = np.random.random(size) ** (1.0 / ndim)
             samps = norm * samps / rads[np.newaxis, :]
         return samps
 
@@ -529,9 +529,12 @@ class Parabola(_Distribution):
 
     @classmethod
     def _sample(cls, size, ndim):
-        # Use the median trick to draw from the Epanechnikov distribution
-        samp = np.random.uniform(-1.0, 1.0, (ndim, size, 3))
-        samp = np.median(samp, axis=-1)
+        # Use the median trick to draw from the 1D Epanechnikov distribution
+        if ndim == 1:
+            samp = np.random.uniform(-1.0, 1.0, (ndim, size, 3))
+            samp = np.median(samp, axis=-1)
+        else:
+            samp = _sample_beta_nball(size, ndim, 1)
         return samp
 
     @staticmethod
@@ -560,10 +563,13 @@ class Triweight(_Distribution):
 
     @classmethod
     def _sample(cls, size, ndim):
-        samps = np.random.normal(0.0, 1.0, (ndim, size))
-        rads = np.linalg.norm(samps, axis=0)
-        norm = _triweight_inverse_func(np.random.random((ndim, size)))
-        samps = norm * samps / rads[np.newaxis, :]
+        if ndim == 1:
+            samps = np.random.normal(0.0, 1.0, (ndim, size))
+            rads = np.linalg.norm(samps, axis=0)
+            norm = _triweight_inverse_func(np.random.random((ndim, size)))
+            samps = norm * samps / rads[np.newaxis, :]
+        else:
+            samps = _sample_beta_nball(size, ndim, 3)
         return samps
 
     @staticmethod
@@ -634,6 +640,16 @@ def _nball_vol(ndim, rad=1.0):
     return vol
 
 
+def _sample_beta_nball(size, ndim, order):
+    """Sample from the spherically symmetric density ``(1 - r^2)^order`` within the unit n-ball.
+    """
+    samps = np.random.normal(0.0, 1.0, (ndim, size))
+    rads = np.linalg.norm(samps, axis=0)
+    # The squared-radius is distributed as a beta function
+    norm = np.sqrt(np.random.beta(ndim / 2.0, order + 1.0, size))
+    return norm * samps / rads
+
+
 def _beta_kernel_norm(order, ndim):
     """Note: this is the inverse normalization (i.e. divide by this).
 
-- 
2.43.0


From 37fc4f99fc70a75ed47b2bc4ede667b08d8f42c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 03/35] fix: resample with keep and reflect in different
 dimensions no longer fails

---
 kalepy/kernels.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index c1311c4..ed33805 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -212,9 +212,8 @@ class Kernel(object):
     def _resample_reflect(self, data, size, reflect, weights=None, keep=None):
         """Resample the given data using reflection.
         """
-        matrix = self.matrix
-        # Modify covariance-matrix for any `keep` dimensions
-        matrix = utils.cov_keep_vars(matrix, keep, reflect=reflect)
+        # Make sure that `keep` dimensions are not also being reflected
+        utils.cov_keep_vars(self.matrix, keep, reflect=reflect)
 
         ndim, nvals = np.shape(data)
 
@@ -237,8 +236,7 @@ class Kernel(object):
         fracs = []
         while (num_good < size) and (cnt < MAX * num_chunks):
             # Draw candidate resample points
-            #    set `keep` to None, `matrix` is already modified to account for it
-            trial = self._resample_clear(data, draw, weights=weights, matrix=matrix, keep=None)
+            trial = self._resample_clear(data, draw, weights=weights, keep=keep)
             # Reflect the points that crossed a boundary, consistently with `density()`
             trial = self._reflect_samples(trial, bounds)
             # Find the (boolean) indices of values within target boundaries
-- 
2.43.0


From 4b22b842e891f529f8eac7bb6fb13e8be7cb93f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 04/35] fix: reflect=True bounds enclose negative data, and
 reflect argument is not modified in place

---
 kalepy/kernels.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index ed33805..879eb95 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -695,15 +695,21 @@ def _check_reflect(reflect, data, weights=None, helper=False):
         err = "each row of `reflect` must be `None` or have shape (2,)!  '{}'".format(reflect)
         raise ValueError(err)
 
+    # Make a copy so that the given argument (owned by the caller) is never modified
+    reflect = [ref if (ref is None) or (ref is True) else list(ref) for ref in reflect]
+
     # Perform additional diagnostics
     for ii in range(ndim):
+        # `True` means just outside of the extrema of the data
+        lo, hi = np.min(data[ii]), np.max(data[ii])
+        lo, hi = lo - np.fabs(lo)*_NUM_PAD, hi + np.fabs(hi)*_NUM_PAD
         if (reflect[ii] is True):
-            reflect[ii] = [np.min(data[ii])*(1 - _NUM_PAD), np.max(data[ii])*(1 + _NUM_PAD)]
+            reflect[ii] = [lo, hi]
         elif (reflect[ii] is not None) and (True in reflect[ii]):
             if reflect[ii][0] is True:
-                reflect[ii][0] = np.min(data[ii])*(1 - _NUM_PAD)
+                reflect[ii][0] = lo
             if reflect[ii][1] is True:
-                reflect[ii][1] = np.max(data[ii])*(1 + _NUM_PAD)
+                reflect[ii][1] = hi
 
         if np.all(np.array(reflect[ii]) != None) and (reflect[ii][0] >= reflect[ii][1]):  # noqa
             err = "Reflect is out of order:  `reflect`[{}] = {}  !".format(ii, reflect[ii])
-- 
2.43.0


From 02b6970d79be9671a0eb1dd1fc8c64823c41ff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 05/35] fix: CDF does not extrapolate outside of the evaluation
 grid

---
 kalepy/kde.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 690c87a..7253d90 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -525,7 +525,9 @@ class KDE:
 
         # `scipy.interplate.RegularGridInterpolator` expects shape (N,D,) -- so transpose
         pnts = np.asarray(pnts).T
-        cdf = self._cdf_func(pnts)
+        # Outside of the grid the CDF is constant (i.e. do not extrapolate)
+        extr = np.array([[ee[0], ee[-1]] for ee in self._cdf_grid[0]]).T
+        cdf = self._cdf_func(np.clip(pnts, *extr))
         return cdf
 
     def resample(self, size=None, keep=None, reflect=None, squeeze=True):
-- 
2.43.0


From 9b032707756f10b6cee10812a9d848c635c32765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 06/35] fix: intrabin interpolation of grid samples is
 normalized within each bin and accurate for small gradients

---
 kalepy/sample.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index a9366c9..08486c5 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -130,11 +130,12 @@ class Sample_Grid:
             logging.info("`dens` is None, cannot interpolate sampling")
             interpolate = False
 
-        # ensure PDF `dens` is properly normalized for interpolation
+        # Average density in each bin, used to make sure the PDF `dens` is properly normalized for interpolation
         #     this normalization is based on each bin having a domain of [0.0, 1.0] during intrabin linear
-        #     interpolation sampling (`_intrabin_linear_interp()`)
+        #     interpolation sampling (`_intrabin_linear_interp()`), i.e. it must be unitary in *each* bin
         if interpolate:
-            dens = dens / (dens.sum() / dens.size)
+            dens_aves = utils.midpoints(dens, log=False, axis=None)
+            dens_aves = np.where(dens_aves > 0.0, dens_aves, 1.0)
 
         # If no number of samples are given, assume that the units of `self._mass` are number of samples, and choose
         # the total numbe of samples to be the total of this
@@ -182,7 +183,7 @@ class Sample_Grid:
                 edge = np.asarray(edge)
 
                 # Find the gradient along this dimension (using center-values in other dimensions)
-                _grad = _grad_along(dens, dim)
+                _grad = _grad_along(dens, dim) / dens_aves
                 # get the gradient for each sample
                 grad = _grad.flat[bin_numbers_flat]
                 # interpolate edge values in this dimension
@@ -536,8 +537,10 @@ def _intrabin_linear_interp(edge, wid, loc, bidx, grad):
     # calculate `y1` to ensure the CDF is unitary
     y1 = 1.0 - grad[sel] / 2.0
     # invert the CDF (``F(x) = y1*x + grad * x^2 / 2``) to sample from PDF (still on [0.0, to 1.0])
-    vals[sel] = 2 * loc[sel] * grad[sel] + y1 ** 2
-    vals[sel] = (np.sqrt(vals[sel]) - y1) / grad[sel]
+    # NOTE: this form of the quadratic solution is also accurate for small gradients
+    y2 = np.sqrt(np.maximum(2 * loc[sel] * grad[sel] + y1 ** 2, 0.0))
+    # the sum `y1 + y2` is only zero if `loc` is also
+    vals[sel] = 2 * loc[sel] / np.maximum(y1 + y2, np.finfo(float).tiny)
     # convert [0.0, 1.0] domain to the location and width of each bin
     vals = edge[bidx] + bw * vals
 
-- 
2.43.0


From 7f504b573504d3a81f8effcaed35eba3f3c8ad8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:23 +0000
Subject: [PATCH 07/35] fix: Corner plotting settings do not carry over between
 calls through dist1d/dist2d dicts

---
 kalepy/plot.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index fc84b59..e1e518f 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -296,6 +296,9 @@ class Corner:
         # If data is given, convert to KDE as needed
         kde, data, weights = _parse_kde_data(kde_data, weights=weights)
 
+        # Copy, so that settings do not carry over to other calls using the same `dict`
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
+
         # Set default 1D parameters
         dist1d.setdefault('density', True)
         dist1d.setdefault('confidence', False)
@@ -344,6 +347,9 @@ class Corner:
         # If KDE is given, retrieve the dataset from it
         kde, data, weights = _parse_kde_data(kde_data, weights=weights)
 
+        # Copy, so that settings do not carry over to other calls using the same `dict`
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
+
         # Set default 1D parameters
         dist1d.setdefault('density', False)
         dist1d.setdefault('confidence', False)
@@ -427,6 +433,9 @@ class Corner:
         # If data is given, construct KDE
         kde, data, weights = _parse_kde_data(kde_data, weights=weights)
 
+        # Copy, so that settings do not carry over to other calls using the same `dict`
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
+
         # Set default 1D parameters
         dist1d.setdefault('density', True)
         dist1d.setdefault('confidence', True)
@@ -528,6 +537,9 @@ class Corner:
             limit = self._limit_flag
 
         edges = utils.parse_edges(kde.dataset, edges=edges)
+        # Copy, so that settings do not carry over to other calls using the same `dict`
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
+
         # quantiles, _ = _default_quantiles(quantiles=quantiles)
         dist1d.setdefault('quantiles', quantiles)
         dist2d.setdefault('quantiles', quantiles)
-- 
2.43.0


From 9f96056d68cb74ee2babd17b71fde97c352c48d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:23 +0000
Subject: [PATCH 08/35] fix: Corner does not modify the given limits argument

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index e1e518f..5f2078f 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -258,7 +258,7 @@ class Corner:
         self._kde = kde
         self._data = data
         self._weights = weights
-        self._limits = limits
+        self._limits = list(limits)    # copy, limits may be updated during plotting
         self._limit_flag = limit_flag
         self._rotate = rotate
         self._labels = labels
-- 
2.43.0


From 97d83aae0a6a5a1b7c04b39707791bc5ddfb2f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:23 +0000
Subject: [PATCH 09/35] fix: do not swallow interrupts and unrelated errors in
 bare except clauses

---
 kalepy/kernels.py | 4 ++--
 kalepy/plot.py    | 4 ++--
 kalepy/utils.py   | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 879eb95..ac7c4f6 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -611,13 +611,13 @@ def get_distribution_class(arg=None):
     try:
         if issubclass(arg, _Distribution):
             return arg
-    except:
+    except TypeError:
         pass
 
     try:
         arg = arg.lower().strip()
         return DISTRIBUTIONS[arg]
-    except:
+    except (AttributeError, KeyError):
         pass
 
     raise ValueError("Argument '{}' is not a known distribution!".format(arg))
diff --git a/kalepy/plot.py b/kalepy/plot.py
index 5f2078f..c3cbde7 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1501,7 +1501,7 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
         try:
             data = kde_data
             kde = kale.KDE(data, weights=weights)
-        except:
+        except Exception:
             err = "Failed to construct KDE from given data!"
             logging.error(err)
             raise RuntimeError(err)
@@ -2095,7 +2095,7 @@ def _dfm_levels(data, quantiles=None, sigmas=None):
     for i, v0 in enumerate(quantiles):
         try:
             levels[i] = data[sm <= v0][-1]
-        except:
+        except IndexError:
             levels[i] = data[0]
 
     levels.sort()
diff --git a/kalepy/utils.py b/kalepy/utils.py
index bc07528..3b5073b 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1196,7 +1196,7 @@ def _ndim(vals):
         warnings.simplefilter("ignore")
         try:
             return np.ndim(vals)
-        except:
+        except ValueError:
             return np.ndim(np.asarray(vals, dtype=object))
 
 
-- 
2.43.0


From 60df6edf94baf89191278bc5f3e06d97c26050b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:23 +0000
Subject: [PATCH 10/35] fix: partially specified extrema are filled
 independently for each dimension

---
 kalepy/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 3b5073b..1f3a994 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1236,7 +1236,7 @@ def _parse_extrema(data, extrema=None, params=None, warn=True):
     else:
         # Convert from (2,) ==> (D, 2)
         if really1d(extrema) and (np.shape(extrema) == (2,)):
-            extrema = [extrema for ii in range(npars)]
+            extrema = [list(extrema) for ii in range(npars)]
         # If already (D, 2) we're good, keep going
         elif np.shape(np.array(extrema, dtype=object)) == (npars, 2):
             pass
@@ -1251,10 +1251,12 @@ def _parse_extrema(data, extrema=None, params=None, warn=True):
                 jshape(extrema), npars)
             raise ValueError(err)
 
+        extrema = list(extrema)
         # Fill in `None` values and check if given `extrema` is out of bounds for data
         for dd in range(npars):
             if extrema[dd] is None:
                 extrema[dd] = [None, None]
+            extrema[dd] = list(extrema[dd])
 
             for ii in range(2):
                 if extrema[dd][ii] is None:
-- 
2.43.0


From 8581af0c84da3f066aa086ac95b0fd3ca55cf85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:23 +0000
Subject: [PATCH 11/35] fix: samples keep their documented shape when drawing
 one sample or sampling scalars

---
 kalepy/kernels.py |  2 +-
 kalepy/sample.py  | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index ac7c4f6..19de16d 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -164,7 +164,7 @@ class Kernel(object):
             samples = self._resample_reflect(data, size, reflect, weights=weights, keep=keep)
 
         if (ndim == 1) and squeeze:
-            samples = samples.squeeze()
+            samples = samples[0]
 
         return samples
 
diff --git a/kalepy/sample.py b/kalepy/sample.py
index 08486c5..a171af1 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -435,7 +435,11 @@ def sample_grid(edges, dens, nsamp=None, mass=None, scalar_dens=None, scalar_mas
     sampler = Sample_Grid(edges, dens, mass=mass, scalar_dens=scalar_dens, scalar_mass=scalar_mass)
     samples = sampler.sample(nsamp=nsamp, **sample_kwargs)
     if squeeze:
-        samples = samples.squeeze()
+        # If scalar values are also being sampled, they are already 1D
+        if isinstance(samples, tuple):
+            samples = (_squeeze_samples(samples[0]), *samples[1:])
+        else:
+            samples = _squeeze_samples(samples)
     return samples
 
 
@@ -483,10 +487,16 @@ def sample_outliers(edges, data, threshold, nsamp=None, mass=None, **sample_kwar
         raise ValueError("`nsamp` is currently deprecated!")
     nsamp, vals, weights = outliers.sample(**sample_kwargs)
     if squeeze:
-        vals = vals.squeeze()
+        vals = _squeeze_samples(vals)
     return vals, weights
 
 
+def _squeeze_samples(vals):
+    """Convert 1D samples from shape (1, N) to (N,), for any number of samples `N`.
+    """
+    return vals[0] if (np.shape(vals)[0] == 1) else np.squeeze(vals)
+
+
 def _grad_along(data_edge, dim):
     grad = np.diff(data_edge, axis=dim)
     nums = list(np.arange(grad.ndim))
-- 
2.43.0


From 7924d5a012c569a5c5c1b079a665f0c58c21794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:23 +0000
Subject: [PATCH 12/35] fix: sample_grid_proportional passes mass, and avoids
 division by zero

---
 kalepy/sample.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index a171af1..7fdb838 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -444,10 +444,12 @@ def sample_grid(edges, dens, nsamp=None, mass=None, scalar_dens=None, scalar_mas
 
 
 def sample_grid_proportional(edges, dens, portion, nsamp, mass=None, **sample_kwargs):
-    scalar_dens = dens / portion
+    dens = np.asarray(dens)
+    portion = np.asarray(portion)
     # Avoid NaN values
-    scalar_dens[portion == 0.0] = 0.0
-    sampler = Sample_Grid(edges, portion, scalar_dens=scalar_dens)
+    zero = (portion == 0.0)
+    scalar_dens = np.where(zero, 0.0, dens / np.where(zero, 1.0, portion))
+    sampler = Sample_Grid(edges, portion, mass=mass, scalar_dens=scalar_dens)
     vals, weight = sampler.sample(nsamp, **sample_kwargs)
     return vals, weight
 
-- 
2.43.0


From 90809774ba3b6002b7faa7d98fb2d0945798ab21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 13/35] fix: kalepy.pdf and kalepy.density pass params to the
 density evaluation, instead of failing

---
 kalepy/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/__init__.py b/kalepy/__init__.py
index bbee33d..de567b6 100644
--- a/kalepy/__init__.py
+++ b/kalepy/__init__.py
@@ -68,7 +68,7 @@ del _path
 # High Level API Functions
 # -----------------------------------
 
-def density(data, points=None, weights=None, reflect=None, probability=False, grid=False, **kwargs):
+def density(data, points=None, weights=None, reflect=None, probability=False, grid=False, params=None, **kwargs):
     """Use a KDE to calculate the density of the given data.
 
     This function (1) constructs a kernel-density estimate of the distribution function from which
@@ -136,7 +136,7 @@ def density(data, points=None, weights=None, reflect=None, probability=False, gr
 
     """
     kde = KDE(data, weights=weights, reflect=reflect, **kwargs)
-    points, vals = kde.density(points, probability=probability, grid=grid)
+    points, vals = kde.density(points, params=params, probability=probability, grid=grid)
     return points, vals
 
 
-- 
2.43.0


From f32d049cc42e219bcea4a06c805686bdc350b374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:37 +0000
Subject: [PATCH 14/35] fix: automatic grid covers the data when the effective
 number of data points is small

---
 kalepy/kde.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 7253d90..97624a0 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -244,7 +244,8 @@ class KDE:
             out = (1.0 + _NUM_PAD)
         # If infinite kernel, how many standard-deviations can we expect values to lie at
         else:
-            out = sp.stats.norm.ppf(1.0 - 1.0/neff)
+            # NOTE: the effective number can be arbitrarily close to unity, make sure `out` stays positive
+            out = sp.stats.norm.ppf(1.0 - 1.0/max(neff, 3.0))
             # Extra to be double sure...
             out *= 1.2
 
-- 
2.43.0


From ca358ec1a238094c7e041d12908ad6969f1aa53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 15/35] fix: KDE weights can be given as a list

---
 kalepy/kde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 97624a0..07f77a9 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -201,10 +201,10 @@ class KDE:
                 err = "`weights` input (shape={}) should be shaped as (N,)=({},)!".format(np.shape(weights), ndata)
                 raise ValueError(err)
 
+            weights = np.asarray(weights).astype(float)
             if np.count_nonzero(weights) == 0 or np.any(~np.isfinite(weights) | (weights < 0)):
                 raise ValueError("Invalid `weights` entries, all must be finite and > 0!")
 
-            weights = np.asarray(weights).astype(float)
             weights_uniform = False
 
         if neff is None:
-- 
2.43.0


From 496c8fb16540949b7a2b96ed75337b1b50f7b6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 16/35] fix: density is zero outside of the reflection
 boundaries in every dimension

---
 kalepy/kernels.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 19de16d..ed84b4c 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -114,6 +114,7 @@ class Kernel(object):
                 np.shape(reflect), np.shape(data))
             raise ValueError(err)
 
+        outside = np.zeros(num_points, dtype=bool)
         for ii, reflect_dim in enumerate(reflect):
             if reflect_dim is None:
                 continue
@@ -129,9 +130,10 @@ class Kernel(object):
 
             lo = -np.inf if (reflect_dim[0] is None) else reflect_dim[0]
             hi = +np.inf if (reflect_dim[1] is None) else reflect_dim[1]
-            idx = (points[ii, :] < lo) | (hi < points[ii, :])
-            result[idx] = 0.0
+            outside = outside | (points[ii, :] < lo) | (hi < points[ii, :])
 
+        # Zero the result at the end, so that reflections in other dimensions are not added afterwards
+        result[outside] = 0.0
         result = result / norm
         return result
 
-- 
2.43.0


From 2f2f7c89c56531c4b40716f37fd04c9bb5b9e453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 17/35] fix: reflect=[True, value] for one-dimensional data
 does not use the number one as boundary

---
 kalepy/kde.py     | 2 +-
 kalepy/kernels.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 07f77a9..df29253 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -354,7 +354,7 @@ class KDE:
         if (reflect is not None) and (len(reflect) != np.shape(data)[0]):
             # If the data is 1D, and `reflect` is (2,) --- that's okay, convert `reflect` to (1, 2)
             if (ndim == 1) and (np.shape(reflect) == (2,)) and utils.really1d(reflect):
-                reflect = np.atleast_2d(reflect)
+                reflect = [reflect]
             else:
                 err = (
                     "length of `reflect` ({}) ".format(reflect),
diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index ed84b4c..fde0b4a 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -679,8 +679,9 @@ def _check_reflect(reflect, data, weights=None, helper=False):
     if reflect is True:
         reflect = [True for ii in range(ndim)]
 
+    # NOTE: do not convert to an array, which would convert `True` to a number
     if (len(reflect) == 2) and (ndim == 1):
-        reflect = np.atleast_2d(reflect)
+        reflect = [reflect]
 
     if (len(reflect) != ndim):  # and not ((len(reflect) == 2) and (ndim == 1)):
         err = "`reflect` ({},) must match the data with shape ({}) parameters!".format(
-- 
2.43.0


From 80b0d8ec4dcfb98081b471b9ce0b7e4143732946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 18/35] fix: grid sampling accepts masses and scalars given as
 lists

---
 kalepy/sample.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index 7fdb838..0abced8 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -67,6 +67,14 @@ class Sample_Grid:
             err = "Shape of `edges` ({}) inconsistent with `dens` ({})!".format(shape_edges, shape)
             raise ValueError(err)
 
+        # these can be given as lists, and (scalars) as integers
+        if mass is not None:
+            mass = np.asarray(mass)
+        if scalar_dens is not None:
+            scalar_dens = np.asarray(scalar_dens)
+        if scalar_mass is not None:
+            scalar_mass = np.asarray(scalar_mass, dtype=float)
+
         shape_bins = [sh - 1 for sh in shape_edges]
         # `scalar` must be shaped as either `data_cent` or `data_edge`
         #    if the latter, it will be converted to `data_cent` by averaging
-- 
2.43.0


From 3a5d3caa0343f1119bb4057d7c6c5c7a549e9243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:47 +0000
Subject: [PATCH 19/35] fix: density reflects the kernels at the boundaries,
 consistently with resample

The mirror images used the un-mirrored covariance, so that for correlated kernels the density was not
reflecting at the boundaries and differed from the distribution of the (folded) resampled values.
---
 kalepy/kernels.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index fde0b4a..8415976 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -123,10 +123,11 @@ class Kernel(object):
                 if loc is None:
                     continue
 
-                # shape (D,N) i.e. (dimensions, data-points)
-                refl_data = np.array(data)
-                refl_data[ii, :] = 2*loc - refl_data[ii, :]
-                result += _evaluate_numba(whitening, refl_data, points, weights, kfunc)
+                # Mirror the points instead of the data, so that the kernels (and not only their
+                # centers) are reflected; these differ if the `matrix` has off-diagonal elements
+                refl_points = np.array(points, dtype=float)
+                refl_points[ii, :] = 2*loc - refl_points[ii, :]
+                result += _evaluate_numba(whitening, data, refl_points, weights, kfunc)
 
             lo = -np.inf if (reflect_dim[0] is None) else reflect_dim[0]
             hi = +np.inf if (reflect_dim[1] is None) else reflect_dim[1]
-- 
2.43.0


From c031fbda5980d56ad4883fd48bfb89dd93094193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:06 +0000
Subject: [PATCH 20/35] fix: carpet works on axes whose upper limit is negative
 (e.g. when drawn repeatedly)

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index c3cbde7..41e8b2a 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1000,7 +1000,7 @@ def carpet(xx, weights=None, ax=None, ystd=None, yave=None, shift=0.0, limit=Non
     if ystd is None:
         if yave is None:
             get_lim_func = ax.get_xlim if rotate else ax.get_ylim
-            ystd = get_lim_func()[1] * 0.02
+            ystd = np.fabs(get_lim_func()[1]) * 0.02
         else:
             ystd = np.fabs(yave) / 5.0
 
-- 
2.43.0


From 29f3bb9b68f8bed8d5800443dea10e90de1058ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:32 +0000
Subject: [PATCH 21/35] fix: carpet and scatter drawing accept data and weights
 given as lists

---
 kalepy/plot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 41e8b2a..7ddd84c 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -987,6 +987,7 @@ def carpet(xx, weights=None, ax=None, ystd=None, yave=None, shift=0.0, limit=Non
     """
 
     xx = np.asarray(xx)
+    weights = weights if (weights is None) else np.asarray(weights)
     if (limit is not None) and (limit < xx.size):
         logging.debug("limiting carpet points from {:.2e} ==> {:.2e}".format(xx.size, limit))
         sel = np.random.choice(xx.size, limit, replace=False)
@@ -1901,6 +1902,7 @@ def draw_scatter(ax, xx, yy, alpha=None, s=4, limit=None, **kwargs):
     #     fc = ax._get_lines.get_next_color()
     # kwargs.setdefault('facecolor', color)
     # kwargs.setdefault('edgecolor', 'none')
+    xx, yy = np.asarray(xx), np.asarray(yy)
     if (limit is not None) and (limit < xx.size):
         logging.debug("limiting scatter points from {:.2e} ==> {:.2e}".format(xx.size, limit))
         sel = np.random.choice(xx.size, limit, replace=False)
-- 
2.43.0


From b92a9f4687fedf34c8eb4aa2617522b01f372aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:36 +0000
Subject: [PATCH 22/35] fix: carpet heights stay finite and sizes increase with
 weight, for wide weights and constant data

---
 kalepy/plot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 7ddd84c..413a86b 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1014,7 +1014,9 @@ def carpet(xx, weights=None, ax=None, ystd=None, yave=None, shift=0.0, limit=Non
         ww = 1.0
     else:
         if utils.iqrange(weights, log=True) > 1:
-            weights = np.log10(weights)
+            # Keep the logarithmic weights positive and increasing
+            wmin = np.min(weights[weights > 0.0])
+            weights = 1.0 + np.log10(np.maximum(weights, wmin) / wmin)
         ww = weights / np.median(weights)
 
     # General random y-values for the fuzz
@@ -1038,7 +1040,8 @@ def carpet(xx, weights=None, ax=None, ystd=None, yave=None, shift=0.0, limit=Non
     # Try to make point sizes proportional to 'outlier'-ness... EXPERIMENTAL
     if fancy:
         # Estimate the deviation of each point from the median
-        dev = np.fabs(xx - np.median(xx)) / np.std(xx)
+        std = np.std(xx)
+        dev = np.fabs(xx - np.median(xx)) / (std if std > 0.0 else 1.0)
         # Extend deviation based on weighting
         dev *= ww
         # Rescale the y-values based on their deviation from median
-- 
2.43.0


From 2c25c0d4d8386c5f8c080c2922e9bb381552287a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:12 +0000
Subject: [PATCH 23/35] fix: automatic corner limits contain integer data and
 never shrink

minmax kept the integer type of the data, so that the stretched limits
and the limits of earlier calls were truncated to whole numbers.
---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 1f3a994..9565b92 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -383,7 +383,7 @@ def minmax(data, positive=False, prev=None, stretch=None, log_stretch=None, limi
 
     # Find extrema
     idx = (data > 0.0) if positive else slice(None)
-    minmax = np.array([np.min(data[idx]), np.max(data[idx])])
+    minmax = np.array([np.min(data[idx]), np.max(data[idx])], dtype=float)
 
     # Add stretch (relative to center point)
     if (stretch is not None) or (log_stretch is not None):
-- 
2.43.0


From f537faaeebb6a7e19c3383c46bb7765ced6e96cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:40 +0000
Subject: [PATCH 24/35] fix: reflect and extrema accept None for every one of D
 parameters

For D != 2, [None]*D was refused as an unrecognized jagged specification.
---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 9565b92..15af712 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1242,7 +1242,7 @@ def _parse_extrema(data, extrema=None, params=None, warn=True):
             pass
         # If jagged (D,) array
         elif len(extrema) == npars:
-            if really1d(extrema) or not np.all([(ee is None) or (len(ee) == 2) for ee in extrema]):
+            if not np.all([(ee is None) or (np.size(ee) == 2) for ee in extrema]):
                 err = "Each element of jagged `extrema` must be `None` or have length 2!"
                 raise ValueError(err)
         # Otherwise bad
-- 
2.43.0


From 7869592a49acd0d49a7d1ad06f590c4ea5482394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:16 +0000
Subject: [PATCH 25/35] fix: an interrupt (or failure) while re-drawing samples
 is not replaced by a TypeError of the error message

---
 kalepy/kernels.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 8415976..bdeeef1 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -200,11 +200,12 @@ class Kernel(object):
 
         try:
             indices = np.random.choice(nvals, size=size, p=weights)
-        except:
+        except Exception:
             logging.error("`numpy.random.choice` failed.")
             # logging.error(f"{np.shape(data)=}, {size=}, {nvals=}, {utils.stats_str(weights)=}")
+            wstr = None if weights is None else utils.stats_str(weights)
             logging.error(
-                f"data.shape={np.shape(data)}, size={size}, nvals={nvals}, weights={utils.stats_str(weights)}"
+                f"data.shape={np.shape(data)}, size={size}, nvals={nvals}, weights={wstr}"
             )
             raise
         means = data[:, indices]
-- 
2.43.0


From 3ba79100edef77f94063da0e634815bc581f981d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:44 +0000
Subject: [PATCH 26/35] fix: utils._ndim changed the warning filters of the
 process in a way that is not thread-safe

---
 kalepy/utils.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 15af712..a2a6f67 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1191,13 +1191,11 @@ def _python_environment():
 
 
 def _ndim(vals):
-    import warnings
-    with warnings.catch_warnings():
-        warnings.simplefilter("ignore")
-        try:
-            return np.ndim(vals)
-        except ValueError:
-            return np.ndim(np.asarray(vals, dtype=object))
+    # NOTE: `warnings.catch_warnings` changes the filters of the whole process, which is not thread-safe
+    try:
+        return np.ndim(vals)
+    except ValueError:
+        return np.ndim(np.asarray(vals, dtype=object))
 
 
 def _parse_extrema(data, extrema=None, params=None, warn=True):
-- 
2.43.0


From 79b864a60a5a779ee5a1379f0d4d378099a3f509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 27/35] fix: KDE.density() without points gives copies of its
 grid, not the stored one

The automatic evaluation points were handed out as they are stored, so a
caller who modified them changed the points and values of all later
density() and cdf() calls.
---
 kalepy/kde.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index df29253..24f5500 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -363,7 +363,8 @@ class KDE:
                 raise ValueError(err)
 
         if points is None:
-            points = self.points
+            # Points are returned to the caller, so provide copies instead of the stored ones
+            points = copy.deepcopy(self.points)
             if params is not None:
                 points = [points[pp] for pp in params]
                 grid = (len(points) > 1)
-- 
2.43.0


From e774e21798a28495e5bd018589a92a6bcb6861c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:25 +0000
Subject: [PATCH 28/35] fix: Corner.hist and Corner.plot_data use the weights
 of the data they show

---
 kalepy/plot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 413a86b..c6ccc0b 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -364,7 +364,7 @@ class Corner:
         dist2d.setdefault('mask_below', False)
 
         # Plot
-        rv = self.plot_data(data, dist1d=dist1d, dist2d=dist2d, **kwargs)
+        rv = self.plot_data(data, weights=weights, dist1d=dist1d, dist2d=dist2d, **kwargs)
         return rv
 
     def plot(self, kde_data=None, edges=None, weights=None, quantiles=None,
@@ -647,6 +647,9 @@ class Corner:
             if data is None:
                 err = "kde or data required either during initialization or here!"
                 raise ValueError(err)
+            # Use the weights of the stored data
+            if weights is None:
+                weights = self._weights
 
         # If a KDE is given, extract the dataset
         kde, data, weights = _parse_kde_data(data, weights=weights)
-- 
2.43.0


From cb6a2b8259e7f8c6c22e4f23c749cf6f7e961fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:25 +0000
Subject: [PATCH 29/35] fix: dist1d draws the confidence intervals of weighted
 data with its weights

---
 kalepy/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index c6ccc0b..149ae9c 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1119,8 +1119,8 @@ def confidence(data, ax=None, weights=None, quantiles=[0.5, 0.9],
         cdf = np.arange(data.size) / (data.size - 1)
     else:
         idx = np.argsort(data)
-        data = data[idx]
-        weights = weights[idx]
+        data = np.asarray(data)[idx]
+        weights = np.asarray(weights)[idx]
         cdf = np.cumsum(weights) / np.sum(weights)
 
     # Get both the lower (left) and upper (right) values of quantiles
@@ -1374,7 +1374,7 @@ def dist1d(kde_data, ax=None, edges=None, weights=None, probability=True, param=
 
     # Draw Contours and Median Line
     if confidence:
-        hh = _confidence(data, ax=ax, color=color, quantiles=quantiles, rotate=rotate)
+        hh = _confidence(data, ax=ax, weights=weights, color=color, quantiles=quantiles, rotate=rotate)
         if handle is None:
             handle = hh
 
-- 
2.43.0


From 0d47084d7b3daf808542af192599f2d90e76a7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:25 +0000
Subject: [PATCH 30/35] fix: dist2d shows the requested params of
 two-dimensional KDEs, and accepts partially reflected KDEs

---
 kalepy/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 149ae9c..12095b0 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1499,7 +1499,7 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
         kde = kde_data
         data = kde.dataset
         ndim = np.shape(data)[0]
-        if ndim > 2:
+        if ndim > 1:
             if len(params) != 2:
                 raise ValueError("`dist2d` requires two chosen `params` (dimensions)!")
             data = np.vstack([data[ii] for ii in params])
@@ -1528,7 +1528,8 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
         mask_dense = (scatter is not None) and (hist or contour)
 
     # Calculate histogram
-    edges = utils.parse_edges(data, edges=edges, extrema=kde.reflect, params=params)
+    extrema = None if (kde.reflect is None) else [kde.reflect[ii] for ii in params]
+    edges = utils.parse_edges(data, edges=edges, extrema=extrema)
     hh, *_ = np.histogram2d(*data, bins=edges, weights=weights, density=True)
 
     _, levels, quantiles = _dfm_levels(hh, quantiles=quantiles, sigmas=sigmas)
-- 
2.43.0


From 386a99682f1a0d4d021c2db94917407360a0c5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:25 +0000
Subject: [PATCH 31/35] fix: histograms of weighted data can choose their bins
 automatically

---
 kalepy/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index a2a6f67..81d64b1 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -300,6 +300,9 @@ def cumtrapz(pdf, edges, prepend=True, axis=None):
 def histogram(data, bins=None, weights=None, density=False, probability=False):
     if bins is None:
         bins = 'auto'
+    # `numpy` cannot choose bins automatically for weighted data
+    if isinstance(bins, str) and (weights is not None):
+        bins = np.histogram_bin_edges(data, bins=bins)
     hist, edges = np.histogram(data, bins=bins, weights=weights, density=False)
     if density:
         hist = hist.astype(float) / np.diff(edges)
-- 
2.43.0


From 3e6c0bc25bc27fdcdc72f56bf12c65f728905031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:41 +0000
Subject: [PATCH 32/35] fix: Corner.target shades lower limits up to the upper
 end of the range in 2D panels, as in 1D ones

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 12095b0..d8fca3d 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -863,7 +863,7 @@ class Corner:
                 if upper_limits[kk] is not None:
                     func_lim(extr[kk][0], upper_limits[kk], **span_kw)
                 if lower_limits[kk] is not None:
-                    func_lim(lower_limits[kk], extr[kk][0], **span_kw)
+                    func_lim(lower_limits[kk], extr[kk][1], **span_kw)
 
         return
 
-- 
2.43.0


From 56ba35a5a3582e56ff2ab6f4408f098d721163c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:47 +0000
Subject: [PATCH 33/35] fix: histogram: data given as a list with
 probability=True

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 81d64b1..17a642a 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -307,7 +307,7 @@ def histogram(data, bins=None, weights=None, density=False, probability=False):
     if density:
         hist = hist.astype(float) / np.diff(edges)
     if probability:
-        tot = data.size if (weights is None) else np.sum(weights)
+        tot = np.size(data) if (weights is None) else np.sum(weights)
         hist = hist.astype(float) / tot
     return hist, edges
 
-- 
2.43.0


From 2135103cffe7638737134b82ed6870c70e8df448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:47 +0000
Subject: [PATCH 34/35] fix: draw_hist1d: joints=False with integer counts

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index d8fca3d..d1a5590 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1802,7 +1802,7 @@ def draw_hist1d(ax, edges, hist, renormalize=False, nonzero=False, positive=Fals
 
         outs = []
         for zz in [xval, yval]:
-            zz = np.atleast_2d(zz).T
+            zz = np.atleast_2d(zz).astype(float).T
             zz = np.reshape(zz, [half, 2], order='C')
             zz = np.pad(zz, [[0, 0], [0, 1]], constant_values=np.nan)
             zz = zz.reshape(size + half)
-- 
2.43.0


From 9e26c330affc0ff9bf56960ca558e949fdd27ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:47 +0000
Subject: [PATCH 35/35] fix: hist2d: mask_below=True excludes bins by their
 weight, not their density

---
 kalepy/plot.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index d1a5590..d5bceb6 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1774,12 +1774,19 @@ def hist2d(data, edges=None, ax=None, weights=None, mask_below=False, **kwargs):
     if ax is None:
         ax = plt.gca()
 
-    if mask_below is True:
-        mask_below = 0.9 / len(data[0])
-
     # Calculate histogram
     edges = utils.parse_edges(data, edges=edges)
     hist, *_ = np.histogram2d(*data, bins=edges, weights=weights, density=True)
+
+    # Exclude bins with less than the average weight of a data point; `hist` is a density, so this
+    #    has to be decided with the weight in each bin
+    if mask_below is True:
+        total, *_ = np.histogram2d(*data, bins=edges, weights=weights)
+        average = 1.0 if (weights is None) else np.mean(weights)
+        # allow for round-off in the sum of the weights
+        hist = np.ma.masked_where(total < average * (1.0 - 1e-8), hist)
+        mask_below = False
+
     # Draw
     rv = draw_hist2d(ax, edges, hist, mask_below=mask_below, **kwargs)
     return rv
-- 
2.43.0

