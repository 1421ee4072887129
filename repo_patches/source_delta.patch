From 36c74b16d3f5c1417d0de8fe33a1185d4fd486c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 01/26] fix: check timeline compatibility across all ufunc
 process operands

---
 sdepy/infrastructure.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index d722e2e..137b740 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -490,18 +490,22 @@ class process(np.ndarray):
         ufunc, inputs, domain = context
         assert hasattr(self, 't')
         assert any(self is a for a in inputs)
-        for a in inputs:
-            if isinstance(a, process):
-                if not hasattr(a, 't') or a.t is None:
-                    raise ValueError(
-                        'cannot operate on a process without a timeline. '
-                        'if this results from array operations on processes, '
-                        'try using their array views instead (x attribute)')
-                if not a._is_compatible(self):
+        p_inputs = [a for a in inputs if isinstance(a, process)]
+        for a in p_inputs:
+            if not hasattr(a, 't') or a.t is None:
+                raise ValueError(
+                    'cannot operate on a process without a timeline. '
+                    'if this results from array operations on processes, '
+                    'try using their array views instead (x attribute)')
+        # a constant process is compatible with any timeline:
+        # compatibility should be checked on each pair of inputs
+        for k, a in enumerate(p_inputs):
+            for b in p_inputs[:k]:
+                if not a._is_compatible(b):
                     raise ValueError(
                         'processes could not be broadcast '
                         'together due to incompatible shapes {}, {} and/or '
-                        'timelines'.format(a.shape, self.shape))
+                        'timelines'.format(a.shape, b.shape))
         return out_array
 
     def __array_wrap__(self, out_array, context=None):
-- 
2.43.0


From 65ccc98e63d10ef938379d41d50730ea9df6028e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 02/26] fix: sub-indexed true sources should index values, not
 time points

---
 sdepy/infrastructure.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 137b740..349c71a 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2172,7 +2172,10 @@ class _indexed_true_source:
 
     def __call__(self, t, dt=None):
         """See true_source class documentation."""
-        return self._source(t, dt)[self._index]
+        z = self._source(t, dt)
+        # index applies to values, after the time axes (if any)
+        t_ndim = z.ndim - len(self._source.vshape) - 1
+        return z[(slice(None),)*t_ndim + self._index]
 
     @property
     def size(self):
-- 
2.43.0


From 858e96f8f11e73eabed89a4c411e24e2b660f8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 03/26] fix: montecarlo indexing should reference, and not
 copy, parent statistics

---
 sdepy/infrastructure.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 349c71a..1974928 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -3031,7 +3031,7 @@ class montecarlo:
     # ------------------------------
     def __getitem__(self, i):
         """See montecarlo class documentation"""
-        a = montecarlo()
+        a = montecarlo(use=self._use, dtype=self.dtype, ctype=self.ctype)
         a._paths = self._paths
         if (self._bins is None) or isinstance(self._bins, (int, str)):
             a._bins = self._bins
@@ -3039,10 +3039,17 @@ class montecarlo:
         else:
             a._bins = self._bins[i]
         if self.paths != 0:
-            a._mean = self._mean[i]
-            a._moments = tuple(moment[i] for moment in self._moments)
-            a._counts = self._counts[i]
-            a._paths_outside = self._paths_outside[i]
+            # make sure a view is returned, and not a scalar copy,
+            # if a single value is addressed
+            k = i if isinstance(i, tuple) else (i,)
+            if not any(j is Ellipsis for j in k):
+                k += (Ellipsis,)
+            a._mean = self._mean[k]
+            a._moments = tuple(moment[k] for moment in self._moments)
+            a._center = self._center[k]
+            if self._bins is not None:
+                a._counts = self._counts[i]
+                a._paths_outside = self._paths_outside[k]
         return a
 
     # user access to statistics
-- 
2.43.0


From 1111ad9394b0f793e9ba29b71b415501ac56eb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 04/26] fix: montecarlo updates should broadcast subsequent
 samples, as documented

---
 sdepy/infrastructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 1974928..2185a60 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2922,6 +2922,8 @@ class montecarlo:
 
         # set flag to identify first run
         isfirst = (self.paths == 0)
+        if not isfirst:
+            sample = np.broadcast_to(sample, self.vshape + (sample_paths,))
 
         # compute/cumulate value, error and stats
         self._update_moments(isfirst, sample)
-- 
2.43.0


From b748a5c7ea0643cabf4349b0010f45cbe67a33c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 05/26] fix: double_exp_rv exp_mean with array parameters

---
 sdepy/infrastructure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 2185a60..d2d3c86 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1792,7 +1792,9 @@ class _double_exp_rv:
 
     def exp_mean(self):
         a, b, pa, pb = self._a, self._b, self._pa, self._pb
-        return (pa/(1 - a) if a < 1 else np.inf) + pb/(1 + b) + 0
+        # avoid evaluating 1/(1 - a) where the expectation diverges
+        a_finite = np.where(a < 1, a, 0)
+        return np.where(a < 1, pa/(1 - a_finite), np.inf) + pb/(1 + b) + 0
 
 
 # Convenience methods for handling distributions
-- 
2.43.0


From 4a8403385f24792cd25779f80b03f94470430cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 06/26] fix: true_cpoisson_source failing if jump sizes may be
 0

---
 sdepy/infrastructure.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index d2d3c86..388d90b 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2649,7 +2649,6 @@ class true_cpoisson_source(true_source):
 
     def _encode_y(self, dn_value, yy):
         nmax = dn_value.max()
-        assert nmax == (yy != 0).sum(axis=-1).max()
 
         y_value = []
         for i in range(1, nmax + 1):
-- 
2.43.0


From 206dbc0f41e35646ef4fa8a660606a4a9961fc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 07/26] fix: true_cpoisson_source neglecting jumps that add up
 to 0

---
 sdepy/infrastructure.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 388d90b..ec013df 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2670,15 +2670,14 @@ class true_cpoisson_source(true_source):
             return [j + dj, y_new]
 
     def new_inside(self, z1, z2, t1, t2, s):
-        j1, y1_value = z1
-        j2, _ = z2  # y2_value not needed
-
-        if (j1 == j2).all():
-            return None
+        j1, y1_value = z1  # z2 not needed
 
         dn = self._dj.dn
         n1, ns, n2 = dn(t1), dn(s), dn(t2)  # use memory of dn
 
+        if (n1 == n2).all():
+            return None
+
         dn_t2_t1 = n2 - n1
         dn_s_t1 = ns - n1
         dn_t2_s = n2 - ns
-- 
2.43.0


From 4025be0318069ea99c25f580352f3c52b9d4c33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 08/26] fix: true sources should match stored time points also
 from below

---
 sdepy/infrastructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index ec013df..e330d3a 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2284,6 +2284,8 @@ class true_source(source):
             k = bisect.bisect_right(t, s)
             if np.isclose(s, t[k-1], rtol=rtol, atol=0.):
                 return getvalue(z[k-1])
+            elif k < len(t) and np.isclose(s, t[k], rtol=rtol, atol=0.):
+                return getvalue(z[k])
             elif k == len(t):
                 z.append(self.new_outside(z[-1], t[-1], s))
                 t.append(s)
-- 
2.43.0


From 894cf43117386411c78f02f555920e2373845f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 09/26] fix: handle numpy integers in process-specific indexing

---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index e330d3a..41b5730 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -694,7 +694,7 @@ class process(np.ndarray):
             return cls(self.t, x=x[colon + key + colon])
         # 't' and 'p' modes - timeline an paths indexing
         assert len(key) <= 1  # only one index is expected
-        if len(key) == 1 and isinstance(key[0], int):
+        if len(key) == 1 and isinstance(key[0], (int, np.integer)):
             # an integer index is treated as a slice of 1
             i = key[0]
             key = (slice(i, None, None),) if i == -1 else \
-- 
2.43.0


From d27f4c8c03114104331ed7f8d8f2c6f995b13f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 10/26] fix: means, variances, derivatives and integrals of
 integer processes truncated

---
 sdepy/infrastructure.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 41b5730..91656b6 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -867,7 +867,6 @@ class process(np.ndarray):
         One path process exposing for each time point
         the mean of process values across paths.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.mean(axis=-1, dtype=dtype, out=out,
                                    keepdims=True))
@@ -877,7 +876,6 @@ class process(np.ndarray):
         One path process exposing for each time point
         the variance of process values across paths.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.var(axis=-1, dtype=dtype, out=out,
                                   ddof=ddof, keepdims=True))
@@ -887,7 +885,6 @@ class process(np.ndarray):
         One path process exposing for each time point
         the standard deviation of process values across paths.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.std(axis=-1, dtype=dtype, out=out,
                                   ddof=ddof, keepdims=True))
@@ -1005,7 +1002,6 @@ class process(np.ndarray):
         Constant process exposing for each path the mean of
         process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t[:1],
                        x=self.mean(axis=0, dtype=dtype, out=out,
                                    keepdims=True))
@@ -1015,7 +1011,6 @@ class process(np.ndarray):
         Constant process exposing for each path the variance of
         process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t[:1],
                        x=self.var(axis=0, dtype=dtype, out=out,
                                   ddof=ddof, keepdims=True))
@@ -1025,7 +1020,6 @@ class process(np.ndarray):
         Constant process exposing for each path the standard
         deviation of process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t[:1],
                        x=self.std(axis=0, dtype=dtype, out=out,
                                   ddof=ddof, keepdims=True))
@@ -1080,6 +1074,7 @@ class process(np.ndarray):
         t = self.t[:-1] if fwd else self.t[1:]
         x = np.diff(self, axis=0)
         if dt_exp:
+            x = x.astype(np.result_type(x, np.float16), copy=False)
             np.divide(x, self.dtx**dt_exp, out=x)
         return process(t=t, x=x)
 
@@ -1117,7 +1112,7 @@ class process(np.ndarray):
         ``p.tin().tder()`` equals, within rounding errors,
         ``p['t', :-1]``
         """
-        x = np.empty(self.shape, dtype=self.dtype)
+        x = np.empty(self.shape, dtype=np.result_type(self, np.float16))
         x[0] = 0
         x[1:] = self[:-1]*self.dtx
         return process(t=self.t,
-- 
2.43.0


From cdf0628be55e4f37eb11d778cf3f77f863b28f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:12 +0000
Subject: [PATCH 11/26] fix: SDEs integrated with log=True exponentiating the
 result twice

---
 sdepy/integration.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index e3a9f2a..b0295c7 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -1829,8 +1829,7 @@ class SDEs(SDE):
 
     def result(self, tt, XX):
         """See documentation of SDE.result"""
-        if self.log:
-            exp(XX, out=XX)
+        # if self.log, XX has already been exponentiated by SDE.exit
         xxs = self.unpack(XX)
         return tuple(process(t=tt, x=xx) for xx in xxs)
 
-- 
2.43.0


From 6896d5f89aeece1ec0f8f142b213e2ecfa69f664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:12 +0000
Subject: [PATCH 12/26] fix: wrong backwards integration along unsigned integer
 timelines

---
 sdepy/integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index b0295c7..87dff9c 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -526,7 +526,7 @@ class paths_generator:
         #   if tt is an integer type, the use of floats is forced in
         #   computations. the integer tt is finally passed to self.exit
         #   to be set as the timeline of the returned process
-        ttype = float if tt.dtype.kind == 'i' else tt.dtype
+        ttype = float if tt.dtype.kind in 'iu' else tt.dtype
         tt, tt_asis = tt.astype(ttype), tt
 
         # built the integration steps
-- 
2.43.0


From be75c4a30971fe98ce60515cfa72196431f74466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:12 +0000
Subject: [PATCH 13/26] fix: steps info should pertain to the forwards
 simulation only, as documented

---
 sdepy/integration.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index 87dff9c..98425f7 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -397,6 +397,11 @@ class paths_generator:
         self.itervars = dict(steps_tt=steps_tt, tt=tt, xx=xx,
                              sw=sw, xw=xw, reverse=reverse)
 
+        # initialize info on the current (backwards or forwards) simulation
+        # -------------------------------------------------------------
+        if self.getinfo:
+            self.info.update(computed_steps=0, stored_steps=0)
+
         # set steps iterator
         # ------------------
         st = iter(steps_tt)
@@ -558,8 +563,7 @@ class paths_generator:
         # ---------------------
         if self.getinfo:
             self.info.update(
-                t0=tt[i0], tmin=tt[0], tmax=tt[-1],
-                computed_steps=0, stored_steps=0
+                t0=tt[i0], tmin=tt[0], tmax=tt[-1]
             )
 
         # MAIN LOOP
-- 
2.43.0


From 26f11fec75cf63d6980907d93b79ddfb0a68f0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:17 +0000
Subject: [PATCH 14/26] fix: ndarray methods failing on process views without a
 timeline

---
 sdepy/infrastructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 91656b6..217a32d 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -476,7 +476,8 @@ class process(np.ndarray):
             self.t = None
         elif isinstance(obj, process):
             # handle new from template
-            if not hasattr(obj, 't') or obj.t.shape != self.shape[:1]:
+            t = getattr(obj, 't', None)
+            if t is None or t.shape != self.shape[:1]:
                 self.t = None
             else:
                 self.t = obj.t
-- 
2.43.0


From 22475be01c6d89de67954fd2b75cbc9fb875a15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:17 +0000
Subject: [PATCH 15/26] fix: reject ufuncs on process views with a mismatched
 timeline

---
 sdepy/infrastructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 217a32d..e7aa069 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -493,7 +493,8 @@ class process(np.ndarray):
         assert any(self is a for a in inputs)
         p_inputs = [a for a in inputs if isinstance(a, process)]
         for a in p_inputs:
-            if not hasattr(a, 't') or a.t is None:
+            t = getattr(a, 't', None)
+            if t is None or t.shape != a.shape[:1]:
                 raise ValueError(
                     'cannot operate on a process without a timeline. '
                     'if this results from array operations on processes, '
-- 
2.43.0


From 4226112ffe941712b9397f5b33c30e2ef4b72b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:44 +0000
Subject: [PATCH 16/26] fix: true_poisson_source failing if dtype is float and
 rng is a RandomState

---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index e7aa069..a576787 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2559,7 +2559,7 @@ class true_poisson_source(true_source):
         if (n1 == n2).all():
             return None
         p = (s - t1)/(t2 - t1)
-        n = n2 - n1
+        n = (n2 - n1).astype(int)
         return n1 + self.rng.binomial(n, p, n.shape)
 
 
-- 
2.43.0


From 6ecb4dc84f14e254dc015bb4729672a3bec8722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:35 +0000
Subject: [PATCH 17/26] fix: cir_pdf returned nan for small volatilities or
 times (overflow)

---
 sdepy/analytical.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sdepy/analytical.py b/sdepy/analytical.py
index 118949a..8c12290 100644
--- a/sdepy/analytical.py
+++ b/sdepy/analytical.py
@@ -543,13 +543,13 @@ def cir_pdf(t, x, *, x0=1., theta=1., k=1., xi=1.):
     --------
     cox_ingersoll_ross_process
     """
-    t, x0, theta, k, xi = np.broadcast_arrays(t, x0, theta, k, xi)
+    t, x, x0, theta, k, xi = np.broadcast_arrays(t, x, x0, theta, k, xi)
     alpha = exp(-k*t)
     c = 2*k / (1 - alpha) / (xi*xi)
     q = 2*k * theta / (xi*xi) - 1
-    return c*exp(-c * (x0*alpha + x)) * \
-        (x / (x0*alpha))**(q/2) * \
-        scipy.special.iv(q, 2*c * sqrt(x*x0*alpha))
+    # noncentral chi-squared distribution (a direct evaluation in terms
+    # of Bessel functions overflows for small xi and/or small t)
+    return 2*c*scipy.stats.ncx2.pdf(2*c*x, 2*(q + 1), 2*c*x0*alpha)
 
 
 # --------------------
-- 
2.43.0


From 3741f6191f24bed13b89e284ca2b8d06d93d4705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:56 +0000
Subject: [PATCH 18/26] fix: Black-Scholes formulae failed on array-like (non
 array) strikes and maturities

---
 sdepy/analytical.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sdepy/analytical.py b/sdepy/analytical.py
index 8c12290..6975fe2 100644
--- a/sdepy/analytical.py
+++ b/sdepy/analytical.py
@@ -980,7 +980,8 @@ def bscall(k, t, *, x0=1., r=0., q=0., sigma=1.):
 
         d2 = d1 - sigma*sqrt(t)
     """
-    r, q = np.asarray(r), np.asarray(q)
+    k, t, x0, r, q, sigma = np.broadcast_arrays(
+        k, t, x0, r, q, sigma)
     d1, d2 = bsd1d2(k, t, x0=x0, r=r, q=q, sigma=sigma)
     return x0 * exp(-q*t) * scipy.stats.norm.cdf(d1) - \
         k * exp(-r*t) * scipy.stats.norm.cdf(d2)
@@ -997,7 +998,8 @@ def bscall_delta(k, t, *, x0=1., r=0., q=0., sigma=1.):
     --------
     bscall
     """
-    r, q = np.asarray(r), np.asarray(q)
+    k, t, x0, r, q, sigma = np.broadcast_arrays(
+        k, t, x0, r, q, sigma)
     d1, d2 = bsd1d2(k, t, x0=x0, r=r, q=q, sigma=sigma)
     return exp(-q*t) * scipy.stats.norm.cdf(d1)
 
@@ -1013,7 +1015,8 @@ def bsput(k, t, *, x0=1., r=0., q=0., sigma=1.):
     --------
     bscall
     """
-    r, q = np.asarray(r), np.asarray(q)
+    k, t, x0, r, q, sigma = np.broadcast_arrays(
+        k, t, x0, r, q, sigma)
     d1, d2 = bsd1d2(k, t, x0=x0, r=r, q=q, sigma=sigma)
     return k * exp(-r*t) * scipy.stats.norm.cdf(-d2) - \
         x0 * exp(-q*t) * scipy.stats.norm.cdf(-d1)
@@ -1030,6 +1033,7 @@ def bsput_delta(k, t, *, x0=1., r=0., q=0., sigma=1.):
     --------
     bscall
     """
-    r, q = np.asarray(r), np.asarray(q)
+    k, t, x0, r, q, sigma = np.broadcast_arrays(
+        k, t, x0, r, q, sigma)
     d1, d2 = bsd1d2(k, t, x0=x0, r=r, q=q, sigma=sigma)
     return -exp(-q*t) * scipy.stats.norm.cdf(-d1)
-- 
2.43.0


From 51484176d677f6cae16910e23dceeb49ebacb1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:14 +0000
Subject: [PATCH 19/26] fix: true_wiener_source with time-dependent
 correlations having a trailing paths axis

---
 sdepy/infrastructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index a576787..7dfdc64 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2494,6 +2494,8 @@ dw, source of standard Wiener process (brownian motion) increments with memory.
         if callable(corr):
             a, b = (s - t1), (t2 - s)
             A, B = corr((t1+s)/2)*a, corr((s+t2)/2)*b
+            if A.ndim == 3:  # remove paths axis if present
+                A, B = A[..., 0], B[..., 0]
             Z = B @ np.linalg.inv(A + B)
             Id = np.eye(A.shape[0])
             dw.corr = (Z @ A)*np.sign(a)
-- 
2.43.0


From e4a05a861153e6b9e768c391ff7636e360de9e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 20/26] fix: psum, tsum, tcumsum of boolean (or small integer)
 processes

The sum of booleans was forced to a boolean, and the sum of small integers
overflowed, instead of following the numpy defaults as the other summary
operations do.
---
 sdepy/infrastructure.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 7dfdc64..71fe0a8 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -859,7 +859,6 @@ class process(np.ndarray):
         One path process exposing for each time point
         the sum of process values across paths.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.sum(axis=-1, dtype=dtype, out=out,
                                   keepdims=True))
@@ -985,7 +984,6 @@ class process(np.ndarray):
         Constant process exposing for each path the sum of
         process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t[:1],
                        x=self.sum(axis=0, dtype=dtype, out=out,
                                   keepdims=True))
@@ -995,7 +993,6 @@ class process(np.ndarray):
         Process exposing for each path and time point
         the cumulative sum of process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.cumsum(axis=0, dtype=dtype, out=out))
 
-- 
2.43.0


From 05b166ab1251b2d18e68403a26dc046ca0c54a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 21/26] fix: constant processes dropped the imaginary part of
 complex constants

---
 sdepy/infrastructure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 71fe0a8..d2b6ca9 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -441,7 +441,9 @@ class process(np.ndarray):
             if t.size == 1:
                 x = c[np.newaxis, ..., np.newaxis]
             else:
-                x = np.empty(shape=t.shape + c.shape + (1,), dtype=dtype)
+                x = np.empty(shape=t.shape + c.shape + (1,),
+                             dtype=np.result_type(c, float)
+                             if dtype is None else dtype)
                 x[...] = c[np.newaxis, ..., np.newaxis]
         else:
             assert False
-- 
2.43.0


From d436452581fb1c0db11a881ffd97b1b6bd0311a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:50 +0000
Subject: [PATCH 22/26] fix: exp_mean of double_exp_rv with no positive
 variates (pa == 0) and a >= 1 is finite

---
 sdepy/infrastructure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index d2b6ca9..71a9a6a 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1789,8 +1789,10 @@ class _double_exp_rv:
     def exp_mean(self):
         a, b, pa, pb = self._a, self._b, self._pa, self._pb
         # avoid evaluating 1/(1 - a) where the expectation diverges
+        # (if pa is 0, it does not, as there are no positive variates)
         a_finite = np.where(a < 1, a, 0)
-        return np.where(a < 1, pa/(1 - a_finite), np.inf) + pb/(1 + b) + 0
+        return np.where((a < 1) | (pa == 0), pa/(1 - a_finite), np.inf) + \
+            pb/(1 + b) + 0
 
 
 # Convenience methods for handling distributions
-- 
2.43.0


From 9db7a73242b40727d2ae93740a160631f8cc214c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:55 +0000
Subject: [PATCH 23/26] fix: kou_mean is infinite, not negative or finite, if a
 >= 1

---
 sdepy/analytical.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdepy/analytical.py b/sdepy/analytical.py
index 6975fe2..853a45d 100644
--- a/sdepy/analytical.py
+++ b/sdepy/analytical.py
@@ -827,12 +827,16 @@ def kou_mean(t, *, x0=1., mu=0., sigma=1., lam=1., a=0.5, b=0.5, pa=0.5):
         np.broadcast_arrays(t, x0, mu, sigma, lam, a, b, pa)
     pb = 1 - pa
 
+    # if a >= 1, the mean is infinite in presence of positive jumps
+    infinite = (a >= 1) & (pa > 0) & (lam > 0) & (t > 0)
+    a = np.where(a < 1, a, 0)
+
     # martingale correction *NOT* applied
     exp_mean = pa/(1 - a) + pb/(1 + b)
     nu = lam*(exp_mean - 1)
     mu1 = mu + nu
 
-    return x0*exp(mu1*t)
+    return x0*exp(mu1*t)*np.where(infinite, np.inf, 1)
 
 
 # @kfunc(nvar=2)
-- 
2.43.0


From 12e5b4fc4f20a8d72d9804c43e2eb0b864d7a81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:32 +0000
Subject: [PATCH 24/26] fix: montecarlo pdf by interpolation with integer bin
 edges truncated the midpoints of bins

---
 sdepy/infrastructure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 71a9a6a..2c7e865 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -3168,6 +3168,7 @@ class montecarlo:
         """Compute pdf or cdf, evaluated at x"""
 
         ncounts, bins = self.density_histogram()
+        bins = bins.astype(np.result_type(bins, float), copy=False)
         x = np.asarray(x)
 
         if method == 'gaussian_kde':
-- 
2.43.0


From 03e3a48df43ea1ad2ea95b69256b918040f80bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:30 +0000
Subject: [PATCH 25/26] fix: derivatives and integrals of narrow integer and
 boolean processes had half precision

---
 sdepy/infrastructure.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 2c7e865..9f1c5b8 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1075,8 +1075,9 @@ class process(np.ndarray):
         t = self.t[:-1] if fwd else self.t[1:]
         x = np.diff(self, axis=0)
         if dt_exp:
-            x = x.astype(np.result_type(x, np.float16), copy=False)
-            np.divide(x, self.dtx**dt_exp, out=x)
+            if x.dtype.kind in 'biu':
+                x = x.astype(float)
+            np.divide(x, self.dtx**float(dt_exp), out=x)
         return process(t=t, x=x)
 
     def tder(self):
@@ -1113,7 +1114,8 @@ class process(np.ndarray):
         ``p.tin().tder()`` equals, within rounding errors,
         ``p['t', :-1]``
         """
-        x = np.empty(self.shape, dtype=np.result_type(self, np.float16))
+        x = np.empty(self.shape,
+                     dtype=float if self.dtype.kind in 'biu' else self.dtype)
         x[0] = 0
         x[1:] = self[:-1]*self.dtx
         return process(t=self.t,
-- 
2.43.0


From 4c522c6ec8baca4cdf8436daf207c8ee84d0ec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 26/26] fix: an empty sample turned montecarlo statistics into
 nan

---
 sdepy/infrastructure.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 9f1c5b8..b39a28f 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2846,10 +2846,9 @@ class montecarlo:
         self._bins = bins
         self._range = range
         self._use = use
+        self._mean = self._moments = self._counts = None
         if sample is not None:
             self.update(sample=sample, axis=axis)
-        else:
-            self._mean = self._moments = self._counts = None
 
     @property
     def paths(self):
@@ -2929,6 +2928,10 @@ class montecarlo:
         if not isfirst:
             sample = np.broadcast_to(sample, self.vshape + (sample_paths,))
 
+        # an empty sample adds no data
+        if sample_paths == 0:
+            return
+
         # compute/cumulate value, error and stats
         self._update_moments(isfirst, sample)
         self._update_histogram(isfirst, sample)
-- 
2.43.0

