From 97b86d89eb031a7bdf88a9a235281ece8e1af254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:33 +0000
Subject: [PATCH 001/157] fix: use the magnitude of the value for the fallback
 truncation precision

With a zero weight the tolerance was fallback * val, which is negative for a
negative value and made the truncation wipe the value to zero.
---
 caput/util/truncate.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/util/truncate.pyx b/caput/util/truncate.pyx
index 970dca8..57180f2 100644
--- a/caput/util/truncate.pyx
+++ b/caput/util/truncate.pyx
@@ -104,7 +104,7 @@ def _bit_truncate_weights_float(float[:] val, float[:] inv_var, float fallback):
         if inv_var[i] != 0:
             val[i] = _bit_truncate_float(val[i], 1.0 / inv_var[i]**0.5)
         else:
-            val[i] = _bit_truncate_float(val[i], fallback * val[i])
+            val[i] = _bit_truncate_float(val[i], fabs(fallback * val[i]))
 
     return np.asarray(val)
 
@@ -126,7 +126,7 @@ def _bit_truncate_weights_double(double[:] val, double[:] inv_var, double fallba
         if inv_var[i] != 0:
             val[i] = _bit_truncate_double(val[i], 1.0 / inv_var[i]**0.5)
         else:
-            val[i] = _bit_truncate_double(val[i], fallback * val[i])
+            val[i] = _bit_truncate_double(val[i], fabs(fallback * val[i]))
 
     return np.asarray(val)
 
-- 
2.43.0


From 2ddd87187a7e32324a21bb1d0df27727631b9055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:33 +0000
Subject: [PATCH 002/157] fix: do not overflow the exponent when scaling the
 truncation error

For values in [2^-105, 2^-104) (float) and [2^-972, 2^-971) (double) the scale
factor overflowed to infinity, and the value was truncated to zero whatever the
tolerance, including a tolerance of zero.
---
 caput/util/truncate.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/caput/util/truncate.hpp b/caput/util/truncate.hpp
index b728e0d..5d76b36 100644
--- a/caput/util/truncate.hpp
+++ b/caput/util/truncate.hpp
@@ -147,14 +147,16 @@ inline int64_t count_zeros_64(int64_t x) {
 /**
  * @brief Fast power of two float.
  *
- * Result is undefined for e < -126.
+ * Result is undefined for e < -126. Exponents above the largest which can be
+ * represented (127) are clamped to it.
  *
  * @param   e   Exponent
  *
  * @returns The result of 2^e
  */
-inline float fast_pow(int8_t e) {
+inline float fast_pow(int32_t e) {
     float* out_f;
+    e = (e > 127) ? 127 : e;
     // Construct float bitwise
     uint32_t out_i = ((uint32_t)(127 + e) << 23);
     // Cast into float
@@ -166,14 +168,16 @@ inline float fast_pow(int8_t e) {
 /**
  * @brief Fast power of two double.
  *
- * Result is undefined for e < -1022 and e > 1023.
+ * Result is undefined for e < -1022. Exponents above the largest which can be
+ * represented (1023) are clamped to it.
  *
  * @param   e   Exponent
  *
  * @returns The result of 2^e
  */
-inline double fast_pow_double(int16_t e) {
+inline double fast_pow_double(int64_t e) {
     double* out_f;
+    e = (e > 1023) ? 1023 : e;
     // Construct float bitwise
     uint64_t out_i = ((uint64_t)(1023 + e) << 52);
     // Cast into float
-- 
2.43.0


From 80e972d986366212b5fbf6c68792817e79c68aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:33 +0000
Subject: [PATCH 003/157] fix: fill the output of invert_no_zero whatever its
 memory layout

An output which is not contiguous was never filled, and an output with a
different memory order from the input got the elements in the wrong places.
---
 caput/algorithms/_invert_no_zero/__init__.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/caput/algorithms/_invert_no_zero/__init__.py b/caput/algorithms/_invert_no_zero/__init__.py
index 19ccbd5..2cebe4b 100644
--- a/caput/algorithms/_invert_no_zero/__init__.py
+++ b/caput/algorithms/_invert_no_zero/__init__.py
@@ -45,8 +45,17 @@ def invert_no_zero(x: npt.ArrayLike, out: npt.ArrayLike | None = None) -> npt.Ar
     # In order to be able to flatten the arrays to do element by element operations, we
     # need to ensure the inputs are numpy arrays, and so we take a view which will work
     # even if `x` (and thus `out`) are MPIArray's
-    _invert_no_zero(
-        x.view(np.ndarray).ravel(order="A"), out.view(np.ndarray).ravel(order="A")
-    )
+    x_arr = x.view(np.ndarray)
+    out_arr = out.view(np.ndarray)
+
+    # Both must be flattened in the same order. Flattening may make a copy of the
+    # output if it has a different layout, in which case the result is copied back.
+    order = "F" if x_arr.flags.fnc else "C"
+    out_flat = out_arr.ravel(order=order)
+
+    _invert_no_zero(x_arr.ravel(order=order), out_flat)
+
+    if not np.may_share_memory(out_flat, out_arr):
+        out_arr[...] = out_flat.reshape(out_arr.shape, order=order)
 
     return out
-- 
2.43.0


From 7048c0da1c779ebb3275799f3317c00e186e42e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:33 +0000
Subject: [PATCH 004/157] fix: use the output array in invert_no_zero for
 integer input

The output array was ignored and left unfilled for integer input.
---
 caput/algorithms/_invert_no_zero/__init__.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/caput/algorithms/_invert_no_zero/__init__.py b/caput/algorithms/_invert_no_zero/__init__.py
index 2cebe4b..3ed93e6 100644
--- a/caput/algorithms/_invert_no_zero/__init__.py
+++ b/caput/algorithms/_invert_no_zero/__init__.py
@@ -31,7 +31,17 @@ def invert_no_zero(x: npt.ArrayLike, out: npt.ArrayLike | None = None) -> npt.Ar
     """
     if not isinstance(x, np.generic | np.ndarray) or np.issubdtype(x.dtype, np.integer):
         with np.errstate(divide="ignore", invalid="ignore", over="ignore"):
-            return np.where(x == 0, 0.0, 1.0 / x)
+            inverse = np.where(x == 0, 0.0, 1.0 / x)
+
+        if out is None:
+            return inverse
+
+        if inverse.shape != out.shape:
+            raise ValueError(
+                f"Input and output arrays don't have same shape: {inverse.shape} != {out.shape}."
+            )
+        out[...] = inverse
+        return out
 
     if out is not None:
         if x.shape != out.shape:
-- 
2.43.0


From 9fe10c4bb155d39cc04c0955bb3b62e7aea4fdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:19 +0000
Subject: [PATCH 005/157] fix: accept lists and a scalar zero in invert_no_zero

The input is documented as array_like, but lists raised a TypeError and a zero
scalar raised a ZeroDivisionError.
---
 caput/algorithms/_invert_no_zero/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/caput/algorithms/_invert_no_zero/__init__.py b/caput/algorithms/_invert_no_zero/__init__.py
index 3ed93e6..ec443e8 100644
--- a/caput/algorithms/_invert_no_zero/__init__.py
+++ b/caput/algorithms/_invert_no_zero/__init__.py
@@ -29,7 +29,10 @@ def invert_no_zero(x: npt.ArrayLike, out: npt.ArrayLike | None = None) -> npt.Ar
         if this cannot be preserved the output is C-contiguous. If `out` was not `None`,
         this is `out`.
     """
-    if not isinstance(x, np.generic | np.ndarray) or np.issubdtype(x.dtype, np.integer):
+    if not isinstance(x, np.generic | np.ndarray):
+        x = np.asarray(x)
+
+    if np.issubdtype(x.dtype, np.integer):
         with np.errstate(divide="ignore", invalid="ignore", over="ignore"):
             inverse = np.where(x == 0, 0.0, 1.0 / x)
 
-- 
2.43.0


From fe6443c81d4691b9ee67e9c7ae27f34a0f18fed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:20 +0000
Subject: [PATCH 006/157] fix: never select a zero-weighted element as the
 lower quantile

With method='lower' and a target at the very bottom (q=0), the zero-weighted
element below the boundary was returned instead of the weighted one above it.
---
 caput/algorithms/median/weighted.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index 5ffdfbd..9bd7203 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -102,9 +102,13 @@ cdef data_t _quickselect_weight(data_t[::1] A, weight_t[::1] W, double qs, char
             i = _max_non_zero(A, W, 0, jj)
             j = _min_non_zero(A, W, jj + 1, len(A) - 1)
 
-            if (W[j] == 0 and W[i] > 0) or method == "l":
+            if W[j] == 0 and W[i] > 0:
                 return A[i]
-            elif (W[i] == 0 and W[j] > 0) or method == "h":
+            elif W[i] == 0 and W[j] > 0:
+                return A[j]
+            elif method == "l":
+                return A[i]
+            elif method == "h":
                 return A[j]
             else:  # method == "s":
                 return <data_t>((A[i] + A[j]) / 2)
-- 
2.43.0


From 2e5e4766057378b215fe93834c3b30fd5dd9fa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:20 +0000
Subject: [PATCH 007/157] fix: do not read past the end for the upper quantile
 of a single element

For one element and q=1 the target weight equals the weight on the left, and
the minimum of an empty right hand partition was looked up.
---
 caput/algorithms/median/weighted.pyx | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index 9bd7203..dbf51fc 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -48,7 +48,8 @@ cdef data_t _quickselect_weight(data_t[::1] A, weight_t[::1] W, double qs, char
     cdef data_t min_d, max_d
     cdef data_t min_w, max_w
 
-    while True:
+    # When the list is a single element long, we're done and can just return it
+    while i < j:
         ii = i
         jj = j
         pivot = A[(ii + jj) // 2]
@@ -122,9 +123,7 @@ cdef data_t _quickselect_weight(data_t[::1] A, weight_t[::1] W, double qs, char
             i = jj + 1
             qs -= weights_left
 
-        # When the list is a single element long, we're done and can just return it
-        if i == j:
-            return A[i]
+    return A[i]
 
 
 @cython.wraparound(False)
-- 
2.43.0


From c3dcc939fe5d9c1f091644f20cced846f972b39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:20 +0000
Subject: [PATCH 008/157] fix: give NaN for a first window without weight in
 the 1D moving median

All other windows without any weight give NaN, the first gave zero.
---
 caput/algorithms/median/weighted.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index dbf51fc..3a14977 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -391,7 +391,8 @@ def _mwm_1D(
             node = dummy
         fifo.push_back(node)
 
-    medians[0] = avl.weighted_median(method)
+    # Get the median giving NaN if the tree if empty (all zero weights)
+    medians[0] = avl.weighted_median(method) if avl.size() else np.nan
 
     # move window over the rest of the data
     for i in range(1, len_data):
-- 
2.43.0


From 4f310f5b880cea2f539883fa2dfe812a0ed16295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:20 +0000
Subject: [PATCH 009/157] fix: walk in order for the lower and higher moving
 weighted median

The lower (higher) value was looked for among the left (right) children only,
without updating the weights passed, and so could be missed or overshot.
---
 caput/algorithms/median/MedianTree.hpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/caput/algorithms/median/MedianTree.hpp b/caput/algorithms/median/MedianTree.hpp
index e2d4bd1..7a27a87 100644
--- a/caput/algorithms/median/MedianTree.hpp
+++ b/caput/algorithms/median/MedianTree.hpp
@@ -594,20 +594,30 @@ template<typename T>
 T Tree<T>::weighted_median_higher(node_ptr<T> node, double previous_weights,
                                   double next_weights, double midpoint) {
     // Take the highest value that qualifies.
-    while (node->right_weight + next_weights <= midpoint
-           && node->left_weight + previous_weights + node->data->weight <= midpoint && node->right)
-        node = node->right;
-    return (double)node->data->value;
+    T median = node->data->value;
+    while (node->left_weight + previous_weights + node->data->weight <= midpoint) {
+        previous_weights += node->data->weight + node->left_weight;
+        node = in_order_successor(node);
+        if (!node)
+            break;
+        median = node->data->value;
+    }
+    return median;
 }
 
 template<typename T>
 T Tree<T>::weighted_median_lower(node_ptr<T> node, double previous_weights,
                                  double next_weights, double midpoint) {
     // Take the lowest value that qualifies.
-    while (node->left_weight + previous_weights <= midpoint
-           && node->right_weight + next_weights + node->data->weight <= midpoint && node->left)
-        node = node->left;
-    return (double)node->data->value;
+    T median = node->data->value;
+    while (node->right_weight + next_weights + node->data->weight <= midpoint) {
+        next_weights += node->data->weight + node->right_weight;
+        node = in_order_predecessor(node);
+        if (!node)
+            break;
+        median = node->data->value;
+    }
+    return median;
 }
 
 /* Get the vector of items */
-- 
2.43.0


From 6ac14c3dcdaee7599e0128b37212939b1f131562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:29 +0000
Subject: [PATCH 010/157] fix: return integers for parallel Poisson draws

Draws large enough to be made in parallel were returned as floats, while
smaller ones, as those of numpy, are integers.
---
 caput/algorithms/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/algorithms/random.py b/caput/algorithms/random.py
index d73c831..61542b8 100644
--- a/caput/algorithms/random.py
+++ b/caput/algorithms/random.py
@@ -80,7 +80,7 @@ class MultithreadedRNG(np.random.Generator):
         "uniform": (2, np.float64, False, False),
         "normal": (2, np.float64, False, False),
         "standard_normal": (0, np.float64, True, True),
-        "poisson": (1, np.float64, False, False),
+        "poisson": (1, np.int64, False, False),
         "power": (1, np.float64, False, False),
     }
 
-- 
2.43.0


From 4f83f690bc31aeb6a5d1f9b7869adc1bbe6ff273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:29 +0000
Subject: [PATCH 011/157] fix: do not drop positional arguments of parallel
 random draws

An output array given by position was ignored, as was a positional endpoint
argument of integers, and out=None raised an AttributeError.
---
 caput/algorithms/random.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/caput/algorithms/random.py b/caput/algorithms/random.py
index 61542b8..229135f 100644
--- a/caput/algorithms/random.py
+++ b/caput/algorithms/random.py
@@ -156,12 +156,16 @@ class MultithreadedRNG(np.random.Generator):
                 size = None
 
             # Try and get an out argument
-            if has_out and "out" in kwargs:
+            if has_out and len(args) > nparam + 2:
+                out = args[nparam + 2]
+            elif has_out and "out" in kwargs:
                 out = kwargs.pop("out")
-                size = out.shape
             else:
                 out = None
 
+            if out is not None:
+                size = out.shape
+
             # Try to figure out the dtype so we can pre-allocate the array for filling
             if has_dtype and len(args) > nparam + 1:
                 dtype = args[nparam + 1]
@@ -170,6 +174,9 @@ class MultithreadedRNG(np.random.Generator):
             else:
                 dtype = defdtype
 
+            # Any further positional arguments (e.g. `endpoint`) are not handled here
+            unhandled = len(args) > nparam + 1 + has_dtype + has_out
+
             # Trim any excess positional arguments
             args = args[:nparam]
 
@@ -183,7 +190,7 @@ class MultithreadedRNG(np.random.Generator):
             # directly.
             # Additionally if the distribution arguments are not scalars there may be
             # some complex broadcasting required, so we also drop out if that is true.
-            if (size is None and out is None) or not all_scalar:
+            if (size is None and out is None) or not all_scalar or unhandled:
                 return method(self, *orig_args, **orig_kwargs)
 
             flatsize = np.prod(size)
-- 
2.43.0


From 80fb035b5ce596a0d4f54f048b67df480bcaa4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:29 +0000
Subject: [PATCH 012/157] fix: fill the output array of parallel random draws
 whatever its layout

Flattening an output which is not C contiguous makes a copy, so the array given
was not filled. Fortran ordered arrays are now filled and, as in numpy, others
which are not contiguous are refused.
---
 caput/algorithms/random.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/caput/algorithms/random.py b/caput/algorithms/random.py
index 229135f..eff18e8 100644
--- a/caput/algorithms/random.py
+++ b/caput/algorithms/random.py
@@ -202,6 +202,11 @@ class MultithreadedRNG(np.random.Generator):
             # Create the output array if required
             if out is None:
                 out = np.empty(size, dtype)
+            elif not (out.flags.c_contiguous or out.flags.f_contiguous):
+                raise ValueError("Supplied output array must be contiguous.")
+
+            # A flat view in memory order
+            flat = out.ravel(order="A")
 
             # Figure out how to split up the array
             step = int(np.ceil(flatsize / self._threads))
@@ -231,7 +236,7 @@ class MultithreadedRNG(np.random.Generator):
                 self._executor.submit(
                     _fill,
                     self._random_generators[i],
-                    out.ravel()[(i * step) : ((i + 1) * step)],
+                    flat[(i * step) : ((i + 1) * step)],
                 )
                 for i in range(self._threads)
             ]
-- 
2.43.0


From daa2daaebb0fba412be74e8a4a66bd691abb0681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:46 +0000
Subject: [PATCH 013/157] fix: do not overwrite the previous input when reusing
 an FFTW object

An unaligned or non contiguous input was copied by pyfftw into its current
input array, which is the array the caller passed in the previous call.
---
 caput/algorithms/fft/fftw.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/caput/algorithms/fft/fftw.py b/caput/algorithms/fft/fftw.py
index 599f00b..7026144 100644
--- a/caput/algorithms/fft/fftw.py
+++ b/caput/algorithms/fft/fftw.py
@@ -127,6 +127,24 @@ class FFTW:
         """
         return self._params
 
+    def _prepare_input(self, fftobj, x):
+        """Get an input array which can be transformed without being copied.
+
+        An array with the wrong layout is copied by `pyfftw` into the input array
+        of the previous call. That array belongs to the caller and must not be changed.
+        """
+        if (
+            x.dtype == fftobj.input_dtype
+            and x.strides == fftobj.input_strides
+            and pyfftw.is_byte_aligned(x, n=self._nsimd)
+        ):
+            return x
+
+        buf = pyfftw.empty_aligned(x.shape, fftobj.input_dtype, n=self._nsimd)
+        buf[...] = x
+
+        return buf
+
     def fft(self, x):
         """Perform a forward FFT.
 
@@ -147,7 +165,7 @@ class FFTW:
         """
         try:
             return self._fft(
-                input_array=x,
+                input_array=self._prepare_input(self._fft, x),
                 output_array=pyfftw.empty_aligned(x.shape, x.dtype, n=self._nsimd),
             )
         except AttributeError:
@@ -176,7 +194,7 @@ class FFTW:
         """
         try:
             return self._ifft(
-                input_array=x,
+                input_array=self._prepare_input(self._ifft, x),
                 output_array=pyfftw.empty_aligned(x.shape, x.dtype, n=self._nsimd),
             )
         except AttributeError:
-- 
2.43.0


From b6b7f74d99e719360efaf04a8f3c2d8262cbb66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:33 +0000
Subject: [PATCH 014/157] fix: do not truncate the angles of integer vectors to
 integers

---
 caput/astro/coordinates/_spherical.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/caput/astro/coordinates/_spherical.pyx b/caput/astro/coordinates/_spherical.pyx
index 120bc84..769f3ea 100644
--- a/caput/astro/coordinates/_spherical.pyx
+++ b/caput/astro/coordinates/_spherical.pyx
@@ -56,6 +56,11 @@ def sph_to_cart(sph_coords):
 
 
 def cart_to_sph(cart_arr):
+    # The angles are not integers, whatever the type of the input
+    cart_arr = np.asarray(cart_arr)
+    if not np.issubdtype(cart_arr.dtype, np.inexact):
+        cart_arr = cart_arr.astype(np.float64)
+
     sph_arr = np.empty_like(cart_arr)
 
     sph_arr[..., 2] = np.arctan2(cart_arr[..., 1], cart_arr[..., 0])
-- 
2.43.0


From 5900de0a9e70946f3ab4c939275afd7569fec044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:33 +0000
Subject: [PATCH 015/157] fix: broadcast the scalar product of arrays of
 vectors as documented

---
 caput/astro/coordinates/_spherical.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/astro/coordinates/_spherical.pyx b/caput/astro/coordinates/_spherical.pyx
index 769f3ea..905bf25 100644
--- a/caput/astro/coordinates/_spherical.pyx
+++ b/caput/astro/coordinates/_spherical.pyx
@@ -73,7 +73,7 @@ def cart_to_sph(cart_arr):
 
 
 def sph_dot(arr1, arr2):
-    return np.inner(sph_to_cart(arr1), sph_to_cart(arr2))
+    return np.sum(sph_to_cart(arr1) * sph_to_cart(arr2), axis=-1)
 
 
 def thetaphi_plane(sph_arr):
-- 
2.43.0


From db476a96c66851224f5377459e8c01c71f0f9fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:33 +0000
Subject: [PATCH 016/157] fix: accept integer angles in thetaphi_plane

---
 caput/astro/coordinates/_spherical.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/astro/coordinates/_spherical.pyx b/caput/astro/coordinates/_spherical.pyx
index 905bf25..5769282 100644
--- a/caput/astro/coordinates/_spherical.pyx
+++ b/caput/astro/coordinates/_spherical.pyx
@@ -77,6 +77,10 @@ def sph_dot(arr1, arr2):
 
 
 def thetaphi_plane(sph_arr):
+    # The unit vectors are not at integer angles, whatever the type of the input
+    if not np.issubdtype(sph_arr.dtype, np.inexact):
+        sph_arr = sph_arr.astype(np.float64)
+
     thetahat = sph_arr.copy()
     thetahat[..., -2] += np.pi / 2.0
 
-- 
2.43.0


From 196007864149598d9774b758d1c42677216de4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:33 +0000
Subject: [PATCH 017/157] fix: normalise non-contiguous arrays of vectors in
 place

---
 caput/astro/coordinates/_spherical.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/caput/astro/coordinates/_spherical.pyx b/caput/astro/coordinates/_spherical.pyx
index 5769282..6d2c641 100644
--- a/caput/astro/coordinates/_spherical.pyx
+++ b/caput/astro/coordinates/_spherical.pyx
@@ -135,7 +135,9 @@ def norm_vec2(vec2):
     if not isinstance(vec2, np.ndarray) or vec2.shape[-1] != 2:
         raise ValueError("Argument must be a numpy array with last axis of length 2.")
 
-    vec_view = vec2.reshape(-1, 2)
+    # This is a copy if the input is not contiguous
+    vec_arr = np.ascontiguousarray(vec2).reshape(-1, 2)
+    vec_view = vec_arr
 
     n = vec_view.shape[0]
 
@@ -146,6 +148,9 @@ def norm_vec2(vec2):
             vec_view[i, 0] /= norm
             vec_view[i, 1] /= norm
 
+    if not np.may_share_memory(vec_arr, vec2):
+        vec2[...] = vec_arr.reshape(vec2.shape)
+
 
 def great_circle_points(sph1, sph2, npoints):
 
-- 
2.43.0


From 445f127f28e0c99790ceac7b6efdb4f3cd517bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:33 +0000
Subject: [PATCH 018/157] fix: do not return NaNs for a great circle between
 nearby points

---
 caput/astro/coordinates/_spherical.pyx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/caput/astro/coordinates/_spherical.pyx b/caput/astro/coordinates/_spherical.pyx
index 6d2c641..43c2861 100644
--- a/caput/astro/coordinates/_spherical.pyx
+++ b/caput/astro/coordinates/_spherical.pyx
@@ -164,11 +164,13 @@ def great_circle_points(sph1, sph2, npoints):
         raise Exception("Points antipodal, path undefined.")
 
     # Create difference unit vector
-    dcn = dc / np.dot(dc, dc) ** 0.5
+    dist = np.dot(dc, dc) ** 0.5
+    dcn = dc / dist if dist > 0.0 else dc
 
-    # Calculate central angle, and angle on corner O C1 C2
-    thc = np.arccos(np.dot(c1, c2))
-    alp = np.arccos(-np.dot(c1, dcn))
+    # Calculate central angle, and angle on corner O C1 C2. Going via the chord length
+    # is well defined for points which are (nearly) the same
+    thc = 2 * np.arcsin(min(dist / 2, 1.0))
+    alp = (np.pi - thc) / 2
 
     # Map regular angular intervals into distance along the displacement between
     # C1 and C2
-- 
2.43.0


From 84969f0c6f8dc007a8bd6067eb06fb60c249e91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:33 +0000
Subject: [PATCH 019/157] fix: do not return NaN for the distance between
 antipodal points

---
 caput/astro/coordinates/spherical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/astro/coordinates/spherical.py b/caput/astro/coordinates/spherical.py
index 599496a..2ca2fab 100644
--- a/caput/astro/coordinates/spherical.py
+++ b/caput/astro/coordinates/spherical.py
@@ -176,6 +176,7 @@ def sphdist(long1, lat1, long2, lat2):
         * (np.sin((long1.radians - long2.radians) / 2.0)) ** 2
     )
 
-    dist = np.arcsin(np.sqrt(dsinl + dsinb))
+    # Rounding can take this above one for antipodal points
+    dist = np.arcsin(np.sqrt(np.minimum(dsinl + dsinb, 1.0)))
 
     return Angle(radians=2 * dist)
-- 
2.43.0


From 8085083fe7a0b420bf58372fd9c2095b972ab67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:04 +0000
Subject: [PATCH 020/157] fix: return every value of the spherical Bessel
 function for list arguments

---
 caput/astro/coordinates/bessel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/astro/coordinates/bessel.py b/caput/astro/coordinates/bessel.py
index 1e29daa..0f9024c 100644
--- a/caput/astro/coordinates/bessel.py
+++ b/caput/astro/coordinates/bessel.py
@@ -52,7 +52,7 @@ def jl(l, z):
     jla[hza] = _jl_approx_highz(la[hza], za[hza])
     jla[gza] = ss.spherical_jn(la[gza], za[gza])
 
-    if isinstance(lt, np.ndarray) or isinstance(zt, np.ndarray):
+    if np.ndim(lt) > 0 or np.ndim(zt) > 0:
         return jla
     return jla[0]
 
-- 
2.43.0


From 14e91ec769c4e80397bbfca0a695cda9cc5df922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:04 +0000
Subject: [PATCH 021/157] fix: second derivative of the spherical Bessel
 function

---
 caput/astro/coordinates/bessel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/astro/coordinates/bessel.py b/caput/astro/coordinates/bessel.py
index 0f9024c..c35ec9e 100644
--- a/caput/astro/coordinates/bessel.py
+++ b/caput/astro/coordinates/bessel.py
@@ -93,7 +93,7 @@ def jl_d2(l, z):
     jl1 = jl(l + 1, z)
     jl2 = jl(l + 2, z)
 
-    return jl2 - (2 * l / z) * jl1 + ((l**2 - 1) / z**2) * jl0
+    return jl2 - ((2 * l + 1) / z) * jl1 + (l * (l - 1) / z**2) * jl0
 
 
 def _jl_approx_lowz(l, z):
-- 
2.43.0


From a85884769f9fab4d055ce9a090a690557883a058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:04 +0000
Subject: [PATCH 022/157] fix: broadcast all the arguments of
 projected_distance

---
 caput/astro/coordinates/spherical.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/caput/astro/coordinates/spherical.py b/caput/astro/coordinates/spherical.py
index 2ca2fab..10ad777 100644
--- a/caput/astro/coordinates/spherical.py
+++ b/caput/astro/coordinates/spherical.py
@@ -103,8 +103,12 @@ def projected_distance(ha, lat, dec, x, y, z=0.0):
     # We could use `sph_to_ground` here, but it's likely to be more memory
     # efficient to do this directly
     dist = x * (-1 * np.cos(dec) * np.sin(ha))
-    dist += y * (np.cos(lat) * np.sin(dec) - np.sin(lat) * np.cos(dec) * np.cos(ha))
-    dist += z * (np.sin(lat) * np.sin(dec) + np.cos(lat) * np.cos(dec) * np.cos(ha))
+    dist = dist + y * (
+        np.cos(lat) * np.sin(dec) - np.sin(lat) * np.cos(dec) * np.cos(ha)
+    )
+    dist = dist + z * (
+        np.sin(lat) * np.sin(dec) + np.cos(lat) * np.cos(dec) * np.cos(ha)
+    )
 
     return dist
 
-- 
2.43.0


From 9465323d122e0643a2f983b5f291aaeec0f9906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:11 +0000
Subject: [PATCH 023/157] fix: add the missing second order term of the low
 argument Bessel approximation

---
 caput/astro/coordinates/bessel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/caput/astro/coordinates/bessel.py b/caput/astro/coordinates/bessel.py
index c35ec9e..8a799ec 100644
--- a/caput/astro/coordinates/bessel.py
+++ b/caput/astro/coordinates/bessel.py
@@ -113,6 +113,7 @@ def _jl_approx_lowz(l, z):
             - 5.0 * nu**2 / (24 * nutanha**3)
             + 9.0 / (128 * nutanha**2)
             - 231.0 * nu**2 / (576 * nutanha**4)
+            + 1155.0 * nu**4 / (3456 * nutanha**6)
         )
         / (2 * (z * nutanha) ** 0.5)
     )
-- 
2.43.0


From 9adffd10607d6348aa3ac21baa5d0967b522ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:52 +0000
Subject: [PATCH 024/157] fix: an array does not equal a scalar with the same
 value as all its elements

---
 caput/util/objecttools.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/caput/util/objecttools.py b/caput/util/objecttools.py
index 33b9483..99c0579 100644
--- a/caput/util/objecttools.py
+++ b/caput/util/objecttools.py
@@ -96,6 +96,13 @@ def _assert_equal(obj1: Any, obj2: Any) -> None:
         obj1 = obj1.view(np.ndarray)
         obj2 = obj2.view(np.ndarray)
 
+        # Numpy would broadcast 0-dimensional arrays
+        assert obj1.shape == obj2.shape
+    elif isinstance(obj1, np.ndarray) and not isinstance(obj2, list | tuple):
+        assert obj1.ndim == 0
+    elif isinstance(obj2, np.ndarray) and not isinstance(obj1, list | tuple):
+        assert obj2.ndim == 0
+
     # Check all other built-in types and numpy types are equal
     np.testing.assert_equal(obj1, obj2)
 
-- 
2.43.0


From b0a739f98b79bc4c9d835aeffd3895ec63c74d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:52 +0000
Subject: [PATCH 025/157] fix: compare structured arrays field by field

---
 caput/util/objecttools.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/caput/util/objecttools.py b/caput/util/objecttools.py
index 99c0579..25f64a6 100644
--- a/caput/util/objecttools.py
+++ b/caput/util/objecttools.py
@@ -98,6 +98,16 @@ def _assert_equal(obj1: Any, obj2: Any) -> None:
 
         # Numpy would broadcast 0-dimensional arrays
         assert obj1.shape == obj2.shape
+
+        # Compare field by field, as numpy does not treat NaNs in structured
+        # types as equal and does not compare them to other types
+        if obj1.dtype.names or obj2.dtype.names:
+            assert obj1.dtype.names == obj2.dtype.names
+
+            for name in obj1.dtype.names:
+                _assert_equal(obj1[name], obj2[name])
+
+            return
     elif isinstance(obj1, np.ndarray) and not isinstance(obj2, list | tuple):
         assert obj1.ndim == 0
     elif isinstance(obj2, np.ndarray) and not isinstance(obj1, list | tuple):
-- 
2.43.0


From b606aef2df481ffab65039bdc13c8c2accef6adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:18 +0000
Subject: [PATCH 026/157] fix: keep sub-array shapes and skip padding when
 converting string types

---
 caput/util/typeutils.py | 40 +++++++++++++++-------------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/caput/util/typeutils.py b/caput/util/typeutils.py
index 4244302..bdf95dd 100644
--- a/caput/util/typeutils.py
+++ b/caput/util/typeutils.py
@@ -124,33 +124,23 @@ def _convert_dtype(
         A new datatype with the converted string types.
     """
 
-    def _conv(t):
-        # If we get a tuple that should mean it's a type with some extended metadata, extract the
-        # type and throw away the metadata
-        if isinstance(t, tuple):
-            t = t[0]
-        return t.replace(type_from, type_to)
-
-    # For compound types we must recurse over the full compound type structure
-    def _iter_conv(x):
-        items = []
-
-        for item in x:
-            name = item[0]
-            type_ = item[1]
-
-            # Recursively convert the type
-            newtype = _iter_conv(type_) if isinstance(type_, list) else _conv(type_)
-
-            items.append((name, newtype))
-
-        return items
+    # Sub-array types (e.g. in a compound type) keep their shape
+    if dt.subdtype is not None:
+        base, shape = dt.subdtype
+        return np.dtype((_convert_dtype(base, type_from, type_to), shape))
+
+    # For compound types we must recurse over the full compound type structure. Going
+    # by field skips any padding, and drops extended metadata
+    if dt.names:
+        return np.dtype(
+            [
+                (name, _convert_dtype(dt.fields[name][0], type_from, type_to))
+                for name in dt.names
+            ]
+        )
 
     # For scalar types the conversion is easy
-    if not dt.names:
-        return np.dtype(_conv(dt.str))
-    # For compound types we need to iterate through
-    return np.dtype(_iter_conv(dt.descr))
+    return np.dtype(dt.str.replace(type_from, type_to))
 
 
 def check_byteorder(arr_byteorder: np._ByteOrderChar) -> bool:
-- 
2.43.0


From 8d2c783b499b09cda2c5cf74ca38d56a29402fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:18 +0000
Subject: [PATCH 027/157] fix: finding the kinds within nested types

---
 caput/util/typeutils.py | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/caput/util/typeutils.py b/caput/util/typeutils.py
index bdf95dd..fb6fdbe 100644
--- a/caput/util/typeutils.py
+++ b/caput/util/typeutils.py
@@ -200,26 +200,16 @@ def has_kind(dt: npt.DTypeLike, kind: npt._DTypeKind) -> bool:
     dtype_has_kind : bool
         True if it contains the requested kind.
     """
-    # For scalar types the conversion is easy
-    if not dt.names:
-        return dt.kind == kind
+    # Look at the element type of any sub-array
+    if dt.subdtype is not None:
+        return has_kind(dt.subdtype[0], kind)
 
     # For compound types we must recurse over the full compound type structure
-    def _iter_conv(x):
-        for item in x:
-            type_ = item[1]
-
-            # Recursively convert the type
-            if isinstance(type_, list) and _iter_conv(type_):
-                return True
-            if isinstance(type_, tuple) and type_[0][1] == kind:
-                return True
-            if type_[1] == kind:
-                return True
-
-        return False
+    if dt.names:
+        return any(has_kind(dt.fields[name][0], kind) for name in dt.names)
 
-    return _iter_conv(dt.descr)
+    # For scalar types the test is easy
+    return dt.kind == kind
 
 
 def has_unicode(dt: npt.DTypeLike) -> bool:
-- 
2.43.0


From 1dfdf7e64266d932ce50e453f4f9249f44a7bd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:18 +0000
Subject: [PATCH 028/157] fix: keep normalised and unnormalised channel
 profiles apart

---
 caput/util/pfb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/caput/util/pfb.py b/caput/util/pfb.py
index 49d4023..d549998 100644
--- a/caput/util/pfb.py
+++ b/caput/util/pfb.py
@@ -112,7 +112,7 @@ class PFB:
         self.window = sinc_hamming if window is None else window
         self.oversample = oversample
 
-        self._profile_interp = None
+        self._profile_interp = {}
 
     def apply(self, timestream: npt.NDArray) -> np.ndarray[np.complex128]:
         """Apply the PFB to a timestream.
@@ -223,11 +223,11 @@ class PFB:
         profile : array_like
             The channel profile.
         """
-        if self._profile_interp is None:
+        if norm not in self._profile_interp:
             rel_freq, w = self.compute_channel_profile(norm=norm)
-            self._profile_interp = CubicSpline(rel_freq, w, extrapolate=False)
+            self._profile_interp[norm] = CubicSpline(rel_freq, w, extrapolate=False)
 
-        return self._profile_interp(channel_width_frac)
+        return self._profile_interp[norm](channel_width_frac)
 
     _decorr_interp = None
 
-- 
2.43.0


From eaa0d34b939aa37cced8739250fb6f5b90a26765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:30 +0000
Subject: [PATCH 029/157] fix: convert unicode strings of either byte order to
 bytes

---
 caput/util/typeutils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/caput/util/typeutils.py b/caput/util/typeutils.py
index fb6fdbe..672d9fa 100644
--- a/caput/util/typeutils.py
+++ b/caput/util/typeutils.py
@@ -123,7 +123,6 @@ def _convert_dtype(
     datatype : dtype
         A new datatype with the converted string types.
     """
-
     # Sub-array types (e.g. in a compound type) keep their shape
     if dt.subdtype is not None:
         base, shape = dt.subdtype
@@ -139,8 +138,8 @@ def _convert_dtype(
             ]
         )
 
-    # For scalar types the conversion is easy
-    return np.dtype(dt.str.replace(type_from, type_to))
+    # For scalar types the conversion is easy. Unicode may be of either byte order
+    return np.dtype(dt.str.replace(">U", "<U").replace(type_from, type_to))
 
 
 def check_byteorder(arr_byteorder: np._ByteOrderChar) -> bool:
-- 
2.43.0


From 6d7164139901fea6c08fc83dcd8a5bdaf34b55c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:45 +0000
Subject: [PATCH 030/157] fix: reject NaN as a number within a range

---
 caput/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/config.py b/caput/config.py
index a138da1..f03659c 100644
--- a/caput/config.py
+++ b/caput/config.py
@@ -345,7 +345,8 @@ def float_in_range(
     def _prop(val):
         val = float(val)
 
-        if val < start or val > end:
+        # This way around also rejects NaNs
+        if not start <= val <= end:
             raise CaputConfigError(f"Input {val:f} not in range [{start:f}, {end:f}]")
 
         return val
-- 
2.43.0


From 25a0e05cf7cf7d22be7ab726ca52f0bce5c07061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:45 +0000
Subject: [PATCH 031/157] fix: validate empty lists and zero lengths in
 list_type

---
 caput/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/caput/config.py b/caput/config.py
index f03659c..d2ab8b8 100644
--- a/caput/config.py
+++ b/caput/config.py
@@ -443,19 +443,19 @@ def list_type(  # noqa: D417
                         f"'{item!s}' of type '{type(item)!s}' at position {ii}"
                     )
 
-        if length and len(val) != length:
+        if length is not None and len(val) != length:
             raise CaputConfigError(
                 f"List expected to be of length {length}, but was actually length {len(val)}"
             )
 
-        if maxlength and len(val) > maxlength:
+        if maxlength is not None and len(val) > maxlength:
             raise CaputConfigError(
                 f"Maximum length of list is {maxlength} is, but list was actually length {len(val)}"
             )
 
         return val
 
-    if default:
+    if default is not None:
         try:
             _prop(default)
         except CaputConfigError as e:
-- 
2.43.0


From 08ada326c3b1cbdcee5e4dcf55403bd36902116a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:45 +0000
Subject: [PATCH 032/157] fix: the error for a logging config of the wrong type

---
 caput/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/config.py b/caput/config.py
index d2ab8b8..b1d1592 100644
--- a/caput/config.py
+++ b/caput/config.py
@@ -499,7 +499,7 @@ def logging_config(default: str | dict | None = None) -> Property[str | dict]:
         elif not isinstance(config, dict):
             raise ValueError(
                 f"Expected a string or YAML block for config value 'logging', got "
-                f"'{type(config.__name__)}'."
+                f"'{type(config).__name__}'."
             )
 
         # check entries, get module names and warn for duplicates when sorting into new
-- 
2.43.0


From 990b49b89444ca86f3660a6f03fd657d9d2383d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:45 +0000
Subject: [PATCH 033/157] fix: do not apply a property that a subclass has
 replaced

---
 caput/config.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/caput/config.py b/caput/config.py
index b1d1592..68ba7b8 100644
--- a/caput/config.py
+++ b/caput/config.py
@@ -260,8 +260,13 @@ class Reader:
         config_keys = list(config.keys())
         prop_keys = []
         for basecls in inspect.getmro(type(self))[::-1]:
-            for clsprop in basecls.__dict__.values():
+            for name, clsprop in basecls.__dict__.items():
                 if isinstance(clsprop, Property):
+                    # Skip properties which have been replaced in a subclass
+                    actual = inspect.getattr_static(type(self), name)
+                    if isinstance(actual, Property) and actual is not clsprop:
+                        continue
+
                     clsprop._from_config(self, config)
                     prop_keys.append(clsprop.key)
 
-- 
2.43.0


From eafec018b8e1ab6eb1f1490972526ca6bf2396c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:19 +0000
Subject: [PATCH 034/157] fix: accept the documented values of the file format
 property

---
 caput/pipeline/extensions/_configtypes.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/caput/pipeline/extensions/_configtypes.py b/caput/pipeline/extensions/_configtypes.py
index c82a5bf..3342cd9 100644
--- a/caput/pipeline/extensions/_configtypes.py
+++ b/caput/pipeline/extensions/_configtypes.py
@@ -45,7 +45,7 @@ def file_format(default=None):
         if val is None:
             return None
 
-        if issubclass(val, fileformats.FileFormat):
+        if isinstance(val, type) and issubclass(val, fileformats.FileFormat):
             return val
 
         if not isinstance(val, str):
@@ -62,9 +62,11 @@ def file_format(default=None):
 
         raise CaputConfigError(f"Input {val!r} needs to be one of {options})")
 
-    if default is not None and (
-        (not isinstance(default, str)) or (default.lower() not in options)
-    ):
-        raise CaputConfigError(f"Default value {default!r} must be in {options}")
+    try:
+        _prop(default)
+    except CaputConfigError as e:
+        raise CaputConfigError(
+            f"Default value {default!r} must be in {options}"
+        ) from e
 
     return Property(proptype=_prop, default=default)
-- 
2.43.0


From 37b26d44a2427b34107e37392a8fee22ac7c14bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:41 +0000
Subject: [PATCH 035/157] fix: count a negative distributed axis from the front

---
 caput/mpiarray.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 69bba87..b10d6c0 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -609,6 +609,9 @@ class MPIArray(np.ndarray):
         # Determine local section of distributed axis
         local_num, local_start, _ = mpitools.split_local(global_shape[axis], comm=comm)
 
+        # Count the distributed axis from the front
+        axis = axis % len(global_shape)
+
         # Figure out the local shape and offset
         lshape = list(global_shape)
         lshape[axis] = local_num
@@ -724,6 +727,9 @@ class MPIArray(np.ndarray):
                 f"Distributed axis {axis} does not exist in global shape {array.shape}"
             ) from e
 
+        # Count the distributed axis from the front
+        axis = axis % array.ndim
+
         totallen = mpitools.allreduce(axlen, comm=comm)
 
         # Figure out what the distributed layout should be
@@ -764,6 +770,10 @@ class MPIArray(np.ndarray):
         MemoryError
             If there is not enough memory to perform the redistribution.
         """
+        # Count the axis from the front
+        if -self.ndim <= axis < 0:
+            axis += self.ndim
+
         # Check to see if this is the current distributed axis
         if self.axis == axis or self.comm is None:
             return self
-- 
2.43.0


From b6ced7a1f685f94cb4b8e18233a6a635eed307cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:47 +0000
Subject: [PATCH 036/157] fix: gather local arrays of any memory layout in the
 right order

---
 caput/mpiarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index b10d6c0..d1f07bb 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1562,7 +1562,8 @@ class MPIArray(np.ndarray):
 
             # Send the data
             if self.comm.rank == ri:
-                request = self.comm.Isend(self._prep_buf(self.local_array), dest=rank)
+                send_buf = np.ascontiguousarray(self.local_array)
+                request = self.comm.Isend(self._prep_buf(send_buf), dest=rank)
 
                 # Wait until the data has been sent
                 stat = mpitools.MPI.Status()
-- 
2.43.0


From 9f8b40d55f475a02308fa076f8f9b774d8e40ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:47 +0000
Subject: [PATCH 037/157] fix: wait for the data a rank gathers from itself

---
 caput/mpiarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index d1f07bb..a76c035 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1558,7 +1558,7 @@ class MPIArray(np.ndarray):
                 tbuf = np.empty(tshape, dtype=self.dtype)
 
                 # Set up the non-blocking receive request
-                request = self.comm.Irecv(self._prep_buf(tbuf), source=ri)
+                recv_request = self.comm.Irecv(self._prep_buf(tbuf), source=ri)
 
             # Send the data
             if self.comm.rank == ri:
@@ -1577,7 +1577,7 @@ class MPIArray(np.ndarray):
             if self.comm.rank == rank:
                 # Wait until the data has arrived
                 stat = mpitools.MPI.Status()
-                request.Wait(status=stat)
+                recv_request.Wait(status=stat)
 
                 if stat.error != mpitools.MPI.SUCCESS:
                     raise RuntimeError(
-- 
2.43.0


From 9430988c1c145379f73b8f48dfe15aec6301ae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:11 +0000
Subject: [PATCH 038/157] fix: redistribute to a contiguous array on a single
 process too

---
 caput/mpiarray.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index a76c035..118b4b4 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -783,7 +783,9 @@ class MPIArray(np.ndarray):
         crank = self.comm.rank
 
         if csize == 1:
-            return MPIArray.wrap(self.local_array, axis, self.comm)
+            return MPIArray.wrap(
+                np.ascontiguousarray(self.local_array), axis, self.comm
+            )
 
         # Check to make sure there is enough memory to perform the redistribution.
         # Must be able to allocate the target array and 2 buffers. We allocate
-- 
2.43.0


From 4eb2fc45d10437006e0ecf0343518fc4a373a8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:29 +0000
Subject: [PATCH 039/157] fix: transpose distributed arrays with negative or no
 axes

---
 caput/mpiarray.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 118b4b4..5990a60 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1394,14 +1394,17 @@ class MPIArray(np.ndarray):
 
         if len(axes) == 1 and isinstance(axes[0], tuple | list):
             axes: list | tuple = axes[0]
-        elif axes is None or axes == ():
+        elif axes in {(), (None,)}:
             axes: list = list(range(self.ndim - 1, -1, -1))
 
+        # Count all axes from the front
+        axes: list = [ax % self.ndim for ax in axes]
+
         tdata._global_shape = tuple(self.global_shape[ax] for ax in axes)
         tdata._local_shape = tuple(self.local_shape[ax] for ax in axes)
         tdata._local_offset = tuple(self.local_offset[ax] for ax in axes)
 
-        tdata._axis = list(axes).index(self.axis)
+        tdata._axis = axes.index(self.axis)
         tdata._comm = self._comm
 
         return tdata
-- 
2.43.0


From 3d08192a5403e37e4748cc4f880100ce8b422ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:50 +0000
Subject: [PATCH 040/157] fix: reshape distributed arrays consistently on ranks
 without data

---
 caput/mpiarray.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 5990a60..e51ba39 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1481,18 +1481,21 @@ class MPIArray(np.ndarray):
         # We will check the reshaping in two steps so we can be sure that we are not
         # messing up the axis distribution. In both cases we will *include* the
         # distributed axis in the test as this takes care of cases where we are adding
-        # length-1 axes where there are currently no axes.
+        # length-1 axes where there are currently no axes. It counts as length-1, so
+        # that the outcome is the same on all ranks, even those with no data.
         # First, we test any axes after the distributed axis...
-        post_shape = self.local_shape[self.axis :]
-        new_post_shape: list = local_shape[new_axis:]
+        post_shape = (1, *self.local_shape[self.axis + 1 :])
+        new_post_shape: list = [1, *local_shape[new_axis + 1 :]]
         new_post_shape: tuple = _check_shapes(post_shape, new_post_shape)
         # Then, we test any axes before the distributed axis...
-        pre_shape = self.local_shape[: (self.axis + 1)]
-        new_pre_shape: list = local_shape[: (new_axis + 1)]
+        pre_shape = (*self.local_shape[: self.axis], 1)
+        new_pre_shape: list = [*local_shape[:new_axis], 1]
         new_pre_shape: tuple = _check_shapes(pre_shape, new_pre_shape)
 
         # Construct the new fleshed out local array shape
-        local_shape = new_pre_shape[:new_axis] + new_post_shape
+        local_shape = (
+            new_pre_shape[:new_axis] + (local_shape[new_axis],) + new_post_shape[1:]
+        )
 
         # Now we actually try the resize...
         new_data = self.local_array.reshape(local_shape, order=order)
-- 
2.43.0


From cf2a6ed698ea03bcf11ad8c2c9d63aff3ce1c346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:50 +0000
Subject: [PATCH 041/157] fix: keep track of the distributed axis in T and
 swapaxes

---
 caput/mpiarray.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index e51ba39..ed3a6c8 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1409,6 +1409,29 @@ class MPIArray(np.ndarray):
 
         return tdata
 
+    @property
+    def T(self) -> MPIArray:
+        """View of the array with its axes in reversed order."""
+        return self.transpose()
+
+    def swapaxes(self, axis1: int, axis2: int) -> MPIArray:
+        """Interchange two axes of the array.
+
+        Parameters
+        ----------
+        axis1, axis2 : int
+            Axes to interchange.
+
+        Returns
+        -------
+        swapped_array : MPIArray
+            :py:class:`MPIArray` view of the original data with the axes swapped.
+        """
+        axes = list(range(self.ndim))
+        axes[axis1], axes[axis2] = axes[axis2], axes[axis1]
+
+        return self.transpose(axes)
+
     def reshape(self, *shape: Sequence[int | None], order: str = "C") -> MPIArray:  # noqa: D417
         r"""Reshape the array.
 
-- 
2.43.0


From 4da3a09c52688af3297c26ef0af070581d7bd43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:01 +0000
Subject: [PATCH 042/157] fix: refuse accumulation over the distributed axis
 counted from the end

---
 caput/mpiarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index ed3a6c8..4e30c6f 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -2041,7 +2041,7 @@ class MPIArray(np.ndarray):
     ) -> tuple[int, 3]:
         """Validate and infer the final distributed axis for a ufunc accumulation."""
         # An accumulation should give an array the same shape as the input.
-        if axis == input_.axis:
+        if axis % input_.ndim == input_.axis:
             raise AxisException(
                 f"Can not accumulate over the distributed axis (axis={input_.axis})"
             )
-- 
2.43.0


From 64cbcf19e3ce9880d4826047674fd61d56151c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:24 +0000
Subject: [PATCH 043/157] fix: locate the distributed axis when indexing with
 arrays and lists

---
 caput/mpiarray.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 4e30c6f..5c5ade5 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -2500,6 +2500,19 @@ def sanitize_slice(
 
     axis_map = []
 
+    # Arrays and lists index together with any integers, and all of them are replaced
+    # by the axes of their broadcast shape. These are placed where the indices are if
+    # those are next to each other, and at the front otherwise.
+    arrays = [s for s in sl if s is not None and not isinstance(s, int | slice)]
+    n_array_axes = max((np.ndim(s) for s in arrays), default=0)
+    array_start = None
+
+    if arrays:
+        inds = [
+            ii for ii, s in enumerate(sl) if s is not None and not isinstance(s, slice)
+        ]
+        array_start = inds[0] if inds[-1] - inds[0] + 1 == len(inds) else 0
+
     final_positions = []
     output_ind = 0
 
@@ -2510,12 +2523,19 @@ def sanitize_slice(
         if s is not np.newaxis:
             axis_map.append(ii)
 
+        # Leave space for the axes from the array indices
+        if ii == array_start:
+            output_ind += n_array_axes
+
         # Exact integer indices will remove an axis from the final output
         if isinstance(s, int):
             final_positions.append(None)
-        else:
+        elif s is np.newaxis or isinstance(s, slice):
             final_positions.append(output_ind)
             output_ind += 1
+        else:
+            # The first of the axes given by the array indices
+            final_positions.append(array_start)
 
     if len(axis_map) > naxis:
         # Shouldn't actually hit this issue
-- 
2.43.0


From faf20cdf0f22605a563979196bff0103b79ace7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:51 +0000
Subject: [PATCH 044/157] fix: find the local part of strided, reversed and
 negative global indices

---
 caput/mpiarray.py | 82 ++++++++++++++++++++++-------------------------
 1 file changed, 38 insertions(+), 44 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 5c5ade5..c0ff241 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -304,12 +304,12 @@ class _global_resolver:
         ndim = self.array.ndim
         local_length = self.array.shape[self.axis]
 
-        # Expand a single integer or slice index
-        if isinstance(slobj, int | slice):
-            slobj: SelectionTupleLike = (slobj, Ellipsis)
+        # Expand a single index
+        if not isinstance(slobj, tuple):
+            slobj: SelectionTupleLike = (slobj,)
 
         # Add an ellipsis if length of slice object is too short
-        if isinstance(slobj, tuple) and len(slobj) < ndim:
+        if len(slobj) < ndim:
             # This is a workaround for the more straightforward
             # `Ellipsis not in slobj`. If one of the axes is indexed
             # by a numpy array, the simpler logic will check each element
@@ -331,55 +331,49 @@ class _global_resolver:
 
         # Process the parallel axis. Calculate the correct index for the
         # containing rank, and set None on all others.
-        if isinstance(slice_list[self.axis], int):
-            index = slice_list[self.axis] - self.offset
+        if isinstance(slice_list[self.axis], int | np.integer):
+            index = slice_list[self.axis]
+            # Resolve negative indices
+            index = index - self.offset + (self.length if index < 0 else 0)
             slice_list[self.axis] = (
                 None if (index < 0 or index >= local_length) else index
             )
             fullslice = False
 
-        # If it's a slice, then resolve any offsets
-        # If any of start or stop is defined then mark that this is not a complete slice
-        # Also mark if there is any actual data on this rank
+        # If it's a slice, then find the part of it that is on this rank
+        # If any of start, stop or step is defined then mark that this is not a
+        # complete slice
         elif isinstance(slice_list[self.axis], slice):
             s = slice_list[self.axis]
-            start = s.start
-            stop = s.stop
-            step = s.step
-
-            # Check if start is defined, and modify slice
-            if start is not None:
-                start = (
-                    start if start >= 0 else start + self.length
-                )  # Resolve negative indices
-                fullslice = False
-                start = start - self.offset
-            else:
-                start = 0
-
-            # Check if stop is defined and modify slice
-            if stop is not None:
-                stop = (
-                    stop if stop >= 0 else stop + self.length
-                )  # Resolve negative indices
-                fullslice = False
-                stop = stop - self.offset
-            else:
-                stop = local_length
-
-            # If step is defined we don't need to adjust this, but it's no longer a
-            # complete slice
-            if step is not None:
-                fullslice = False
-
-            # If there is no data on this node place None on the parallel axis
-            if start >= local_length or stop < 0:
+            fullslice = s.start is None and s.stop is None and s.step is None
+
+            start, stop, step = s.indices(self.length)
+            selection = range(start, stop, step)
+
+            # The number of selected elements that come before this rank's section,
+            # and before the end of it, in the order of the selection
+            first, last = self.offset, self.offset + local_length - 1
+            if step < 0:
+                first, last = last, first
+            before = max(-((start - first) // step), 0)
+            until = max((last - start) // step + 1, 0)
+            local_selection = selection[before:until]
+
+            if fullslice:
+                # All the local section is selected
+                slice_list[self.axis] = s
+            elif len(selection) == 0:
+                # Nothing is selected on any rank
+                slice_list[self.axis] = slice(0, 0)
+            elif len(local_selection) == 0:
+                # If there is no data on this node place None on the parallel axis
                 slice_list[self.axis] = None
             else:
-                # Normalise the indices and create slice
-                start = max(min(start, local_length), 0)
-                stop = max(min(stop, local_length), 0)
-                slice_list[self.axis] = slice(start, stop, step)
+                # Create the slice into the local section
+                stop = local_selection[-1] - self.offset + (1 if step > 0 else -1)
+                slice_list[self.axis] = slice(
+                    local_selection[0] - self.offset, None if stop < 0 else stop, step
+                )
 
         return tuple(slice_list), fullslice
 
-- 
2.43.0


From 240afa294a1ac489e6d236337dd72a76f11f9f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:07 +0000
Subject: [PATCH 045/157] fix: read lists of indices from distributed zarr
 arrays

---
 caput/mpiarray.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index c0ff241..d6e1f55 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1088,7 +1088,15 @@ class MPIArray(np.ndarray):
                 fh.close()
         else:
             # If using zarr we can directly read the full dataset into the final array
-            dset.get_basic_selection(sel, out=dist_arr.local_array)
+            if all(isinstance(sl, slice) for sl in sel):
+                dset.get_basic_selection(sel, out=dist_arr.local_array)
+            else:
+                # Lists of indices can be selected for each axis independently
+                sel = tuple(
+                    sl if isinstance(sl, slice) else np.asarray(sl, dtype=int)
+                    for sl in sel
+                )
+                dset.get_orthogonal_selection(sel, out=dist_arr.local_array)
 
         return dist_arr
 
-- 
2.43.0


From 55b1970cd52d431492b9b998832e3de3047aac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:07 +0000
Subject: [PATCH 046/157] fix: length of empty selections when reading
 distributed arrays

---
 caput/mpiarray.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index d6e1f55..e6cdfb8 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -2234,8 +2234,7 @@ def _partition_sel(
 def _len_slice(slice_: slice, n: int) -> int:
     """Calculate the output length of a slice applied to an axis of length n."""
     if isinstance(slice_, slice):
-        start, stop, step = slice_.indices(n)
-        return 1 + (stop - start - 1) // step
+        return len(range(*slice_.indices(n)))
 
     return len(slice_)
 
-- 
2.43.0


From a99427b2f4c392574a35ea3db5014ad4e30cf4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:29 +0000
Subject: [PATCH 047/157] fix: gather_local on a single process

---
 caput/util/mpitools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index fc4521c..ced645a 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -609,7 +609,7 @@ def gather_local(
     if comm is None or comm.size == 1:
         # only one process
         slc = [slice(s, s + n) for (s, n) in zip(local_start, local_size)]
-        global_array[slc] = local_array.copy()
+        global_array[tuple(slc)] = local_array.copy()
     else:
         local_sizes = comm.gather(local_size, root=root)
         local_starts = comm.gather(local_start, root=root)
-- 
2.43.0


From fc4689ad7e76adf64107ea7637b2f0dead81aefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:29 +0000
Subject: [PATCH 048/157] fix: use the same random partition of a list on all
 processes

---
 caput/util/mpitools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index ced645a..bb8eb44 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -490,6 +490,11 @@ def partition_list_mpi(
         r = comm.rank
         c = comm.size
 
+    if method == "rand" and c > 1:
+        # All processes must partition the same permutation of the list
+        order = bcast(np.random.permutation(len(full_list)), comm=comm)
+        return partition_list([full_list[i] for i in order], r, c, method="con")
+
     return partition_list(full_list, r, c, method=method)
 
 
-- 
2.43.0


From 5cdf465504b7d0051a853fb8f14f8abb9bf8f666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:29 +0000
Subject: [PATCH 049/157] fix: accept a list as shape in transpose_blocks on a
 single process

---
 caput/util/mpitools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index bb8eb44..8d3b46e 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -751,7 +751,7 @@ def transpose_blocks(
     """
     if comm is None or comm.size == 1:
         # only one process
-        if row_array.shape[:-1] == shape[:-1]:
+        if row_array.shape[:-1] == tuple(shape[:-1]):
             # We are working on a single node and being asked to do
             # a trivial transpose.
             # Note that to mimic the mpi behaviour we have to allow the
-- 
2.43.0


From e50d181e97dfd19e51094577d42e82548f7c61a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:29 +0000
Subject: [PATCH 050/157] fix: write rows in parallel at their place in the
 dataset

---
 caput/util/mpitools.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index 8d3b46e..3c94c56 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -897,7 +897,7 @@ def allocate_hdf5_dataset(
         plist.set_fill_time(h5py.h5d.FILL_TIME_NEVER)
 
         # Create the dataset
-        dset = h5py.h5d.create(f.id, dsetname, tp, sp, plist)
+        dset = h5py.h5d.create(f.id, dsetname.encode(), tp, sp, plist)
 
         # Get the offset of the dataset into the file.
         state = dset.get_offset(), dset.get_storage_size()
@@ -931,16 +931,16 @@ def lock_and_write_buffer(obj: object, fname: str, offset: int, size: int) -> No
 
     buf = memoryview(obj)
 
-    if len(buf) > size:
+    if buf.nbytes > size:
         raise Exception("Size doesn't match array length.")
 
     fd = os.open(fname, os.O_RDWR | os.O_CREAT)
 
     fcntl.lockf(fd, fcntl.LOCK_EX, size, offset, os.SEEK_SET)
 
-    nb = os.write(fd, buf)
+    nb = os.pwrite(fd, buf, offset)
 
-    if nb != len(buf):
+    if nb != buf.nbytes:
         raise Exception("Something funny happened with the reading.")
 
     fcntl.lockf(fd, fcntl.LOCK_UN)
@@ -962,6 +962,9 @@ def parallel_rows_write_hdf5(
 
     lr, sr, _ = split_local(shape[0], comm=comm)
 
-    nc = np.prod(shape[1:])
+    # Size of a row in bytes
+    nc = int(np.prod(shape[1:])) * local_data.dtype.itemsize
 
-    lock_and_write_buffer(local_data, fname, offset + sr * nc, lr * nc)
+    lock_and_write_buffer(
+        np.ascontiguousarray(local_data), fname, offset + sr * nc, lr * nc
+    )
-- 
2.43.0


From d925c3970f42e2c7e28f1e088e9c57256b3d971f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:54 +0000
Subject: [PATCH 051/157] fix: delete entries of a group by a path with extra
 slashes

---
 caput/memdata/_memh5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index a782107..88a10a3 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -302,7 +302,7 @@ class _BaseGroup(_MemObjMixin, Mapping):
         if name not in self:
             raise KeyError(f"Key {name} not present.")
 
-        path = posixpath.join(self.name, name)
+        path = format_abs_path(posixpath.join(self.name, name))
         parent_path, name = posixpath.split(path)
         parent = self._storage_root[parent_path]
 
-- 
2.43.0


From c69e709d8d839f8004fedbf2e7a50c6998006d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:08 +0000
Subject: [PATCH 052/157] fix: refuse to replace a group by a dataset

---
 caput/memdata/_memh5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 88a10a3..6348f1d 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -771,6 +771,10 @@ class MemGroup(_BaseGroup):
         parent_name = format_abs_path(parent_name)
         parent_storage = self.require_group(parent_name)._get_storage()
 
+        # Never replace a whole group
+        if isinstance(parent_storage.get(name), _Storage):
+            raise ValueError(f"Entry {name} exists and is not a Dataset.")
+
         # If distributed, synchronise to ensure that we create group collectively
         if self.distributed:
             self.comm.Barrier()
-- 
2.43.0


From adc13fe8fff19ed43ae9a945bd006ceb98a1ceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:50 +0000
Subject: [PATCH 053/157] fix: lookup of a path that goes through a dataset

---
 caput/memdata/_memh5.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 6348f1d..5083a5b 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -167,6 +167,8 @@ class _StorageRoot(_Storage):
         # Crawl the path.
         out = self
         for part in path_parts:
+            if isinstance(out, MemDataset):
+                raise KeyError(f"Key {key} goes through a dataset.")
             out = out[part]
         return out
 
-- 
2.43.0


From 41da082b6f9515cd80d946aac1d68fae5b73a48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:00 +0000
Subject: [PATCH 054/157] fix: save a container that lives on disk

---
 caput/memdata/_memh5.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 5083a5b..10531be 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2241,19 +2241,27 @@ class MemDiskGroup(_BaseGroup):
         if convert_dataset_strings is None:
             convert_dataset_strings = getattr(self, "convert_dataset_strings", False)
 
-        # Write out a hint as to what the class of this object is, do this by
-        # inserting it into the attributes before saving out.
-        if "__memh5_subclass" not in self.attrs:
-            clspath = self.__class__.__module__ + "." + self.__class__.__name__
+        # Write out a hint as to what the class of this object is
+        clspath = self.__class__.__module__ + "." + self.__class__.__name__
 
-            self.attrs["__memh5_subclass"] = clspath
-
-        if (zarr_available and isinstance(self._data, zarr.Group)) or isinstance(
-            self._data, h5py.File
-        ):
+        if self.ondisk:
+            kwargs.setdefault("mode", "w")
             with file_format.open(filename, **kwargs) as f:
-                deep_group_copy(self._data, f)
+                deep_group_copy(
+                    self._data,
+                    f,
+                    convert_attribute_strings=convert_attribute_strings,
+                    convert_dataset_strings=convert_dataset_strings,
+                    file_format=file_format,
+                )
+                # The source might not be writeable, so only put the hint in the copy
+                if "__memh5_subclass" not in f.attrs:
+                    f.attrs["__memh5_subclass"] = clspath
         else:
+            # Insert the hint into the attributes before saving out.
+            if "__memh5_subclass" not in self.attrs:
+                self.attrs["__memh5_subclass"] = clspath
+
             self._data.to_file(
                 filename,
                 convert_attribute_strings=convert_attribute_strings,
-- 
2.43.0


From 7b0bf2f532ed6a5f8ecda808f5c6cba98261717e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:14 +0000
Subject: [PATCH 055/157] fix: copy from and into groups other than the root

---
 caput/memdata/_memh5.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 10531be..3f876c2 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2526,6 +2526,10 @@ def deep_group_copy(
 
     to_file = isinstance(g2, file_format.module.Group)
 
+    def _relative_name(entry) -> str:
+        """Get the path of this entry relative to `g1` (empty for `g1` itself)."""
+        return "" if entry.name == g1.name else posixpath.relpath(entry.name, g1.name)
+
     # Define functions applied to each dataset
     def _get_selection(dset: DatasetLike) -> SelectionLike:
         """Get the selections associated with this dataset.
@@ -2534,9 +2538,8 @@ def deep_group_copy(
         """
         # Look for a selection for this dataset (also try without the leading "/")
         try:
-            selection = selections.get(
-                dset.name, selections.get(dset.name[1:], slice(None))
-            )
+            key = _relative_name(dset)
+            selection = selections.get("/" + key, selections.get(key, slice(None)))
         except AttributeError:
             selection = slice(None)
 
@@ -2654,16 +2657,16 @@ def deep_group_copy(
 
     while stack:
         entry = stack.pop()
-        key = entry.name
+        key = _relative_name(entry)
 
         if is_group(entry):
-            if key != g1.name:
+            if key:
                 # Only create group if we are above the starting level
                 g2.create_group(key)
 
             stack += [entry[k] for k in sorted(entry, reverse=True)]
 
-        elif shallow or (key in shared):
+        elif shallow or ("/" + key in shared):
             # Make sure that we aren't trying to apply a selection to this dataset
             if _get_selection(entry) != slice(None):
                 raise ValueError(
@@ -2673,7 +2676,7 @@ def deep_group_copy(
             parent_name, name = posixpath.split(posixpath.join(g2.name, key))
             parent_name = format_abs_path(parent_name)
             # Get the proper storage location for this dataset
-            g2[parent_name]._get_storage()[name] = g1._get_storage()[key]
+            g2[parent_name]._get_storage()[name] = g1._storage_root[entry.name]
 
         else:
             # Copy over this dataset. `_prepare_dataset` will make
@@ -2687,7 +2690,7 @@ def deep_group_copy(
                 **compression_kwargs,
             )
 
-        target = g2[key]
+        target = g2[key] if key else g2
         copyattrs(entry.attrs, target.attrs, convert_strings=convert_attribute_strings)
 
         if postprocess:
-- 
2.43.0


From 98b413fac2c389829d1a5afae34e48ecbfc4efcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:48 +0000
Subject: [PATCH 056/157] fix: write the selected data, also of datasets on
 disk, without string conversion

---
 caput/memdata/_memh5.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 3f876c2..2bf9893 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2588,10 +2588,12 @@ def deep_group_copy(
             else:
                 data = typeutils.ensure_unicode(data)
 
-        elif to_file:
+        elif to_file and typeutils.has_unicode(dset.dtype):
             # If we shouldn't convert we at least need to ensure there aren't any
             # Unicode characters before writing
-            data = typeutils.check_unicode(entry)
+            raise TypeError(
+                f'Can not write dataset "{dset.name!s}" of unicode type to file.'
+            )
 
         dset_args = {"dtype": data.dtype, "shape": data.shape, "data": data}
         # If we're copying memory to memory we can allow distributed datasets
-- 
2.43.0


From 1828eaa398deecd2c829a155578c6a4238ba1a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:48 +0000
Subject: [PATCH 057/157] fix: copy scalar datasets

---
 caput/memdata/_memh5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 2bf9893..bad2936 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2572,7 +2572,7 @@ def deep_group_copy(
             return {"dtype": dset.dtype, "shape": dset.shape, "data": None}
 
         # Extract the data for the selection
-        data = dset[selection]
+        data = dset[...] if dset.shape == () else dset[selection]
         # If copying memory to memory, make a deep copy of this dataset
         # We don't need to make a copy if writing to disk
         if not to_file:
-- 
2.43.0


From c0b7354e29b9abe0721f8a08e04e97dc5ddf91f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:14 +0000
Subject: [PATCH 058/157] fix: save numpy scalars within dictionary attributes

---
 caput/memdata/_memh5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index bad2936..59f4060 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2406,8 +2406,8 @@ def copyattrs(a1, a2, convert_strings=False):
             def default(self, o):
                 if isinstance(o, datetime.datetime):
                     return o.isoformat()
-                if isinstance(o, np.number):
-                    return o.data
+                if isinstance(o, np.number | np.bool_):
+                    return o.item()
                 if isinstance(o, np.ndarray):
                     if len(o) == 1:
                         return o.tolist()[0]
-- 
2.43.0


From 8c5ef1db6c8afa49a8f3c24d58cde242270faac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:14 +0000
Subject: [PATCH 059/157] fix: keep the shape of arrays saved as JSON
 attributes

---
 caput/memdata/_memh5.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 59f4060..15a4289 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2409,8 +2409,6 @@ def copyattrs(a1, a2, convert_strings=False):
                 if isinstance(o, np.number | np.bool_):
                     return o.item()
                 if isinstance(o, np.ndarray):
-                    if len(o) == 1:
-                        return o.tolist()[0]
                     return o.tolist()
                 if isinstance(o, bytes):  # pragma: py3
                     return o.decode()
-- 
2.43.0


From ae8e5d7408e73bc7a7ef4b9d804562f12ef3f5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:59 +0000
Subject: [PATCH 060/157] fix: copy datasets compressed by a plugin filter

---
 caput/memdata/_memh5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 15a4289..9ef4952 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2610,6 +2610,10 @@ def deep_group_copy(
         compression = getattr(dset, "compression", None)
         compression_opts = getattr(dset, "compression_opts", None)
 
+        # h5py doesn't tell which plugin filter is used, so it can't be copied
+        if isinstance(dset, h5py.Dataset) and compression == "unknown":
+            compression = compression_opts = None
+
         if to_file:
             # massage args according to file format
             compression_kwargs = file_format.compression_kwargs(
-- 
2.43.0


From 2d1797cd4bdee073e7f031709c4a2cd8f5910b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:31 +0000
Subject: [PATCH 061/157] fix: chunks of empty or downselected datasets

---
 caput/memdata/_memh5.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 9ef4952..652012d 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2602,8 +2602,8 @@ def deep_group_copy(
 
         return dset_args
 
-    def _prepare_compression_args(dset: DatasetLike) -> dict:
-        """Get compression options and chunking for this dataset.
+    def _prepare_compression_args(dset: DatasetLike, shape: tuple) -> dict:
+        """Get compression options and chunking for this dataset, written with `shape`.
 
         Returns: dict(compression, compression_opts, chunks)
         """
@@ -2626,7 +2626,17 @@ def deep_group_copy(
             compression_kwargs = fileformats.HDF5.compression_kwargs(
                 compression=compression, compression_opts=compression_opts
             )
-        compression_kwargs["chunks"] = getattr(dset, "chunks", None)
+        # Chunks can't be larger than what is actually written
+        chunks = getattr(dset, "chunks", None)
+        if chunks is not None and tuple(shape) != tuple(dset.shape):
+            if len(chunks) == len(shape):
+                chunks = tuple(map(min, chunks, shape))
+            else:
+                chunks = None
+        # ... and there are none in an empty dataset
+        if 0 in shape:
+            chunks = None
+        compression_kwargs["chunks"] = chunks
 
         return compression_kwargs
 
@@ -2686,7 +2696,9 @@ def deep_group_copy(
             # Copy over this dataset. `_prepare_dataset` will make
             # a deep copy of the dataset
             dset_args = _prepare_dataset(entry)
-            compression_kwargs = _prepare_compression_args(entry)
+            compression_kwargs = _prepare_compression_args(
+                entry, dset_args["shape"]
+            )
 
             g2.create_dataset(
                 key,
-- 
2.43.0


From 73b0575fe08b59d5010181bdbb9efa8fb596be35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:59 +0000
Subject: [PATCH 062/157] fix: load an open zarr group into memory

---
 caput/memdata/_memh5.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 652012d..aae7d3d 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -1920,10 +1920,10 @@ class MemDiskGroup(_BaseGroup):
         lockfile = None
 
         if not ondisk:
-            if (zarr_available and isinstance(file_, zarr.Group)) or isinstance(
-                file_, h5py.Group
-            ):
-                file_ = file_.filename
+            if zarr_available and isinstance(file_, zarr.Group):
+                file_, file_format = file_.store.path, fileformats.Zarr
+            elif isinstance(file_, h5py.Group):
+                file_, file_format = file_.filename, fileformats.HDF5
 
             kwargs.pop("mode", None)
 
-- 
2.43.0


From bcef9200cddb7dc17124e25a13c5702badbd44f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:28 +0000
Subject: [PATCH 063/157] fix: copy JSON attributes from file to file

---
 caput/memdata/_memh5.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index aae7d3d..2a83326 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2416,18 +2416,20 @@ def copyattrs(a1, a2, convert_strings=False):
                 # Let the default method raise the TypeError
                 return json.JSONEncoder.default(self, o)
 
+        to_zarr = zarr_available and isinstance(a2, zarr.attrs.Attributes)
+        to_hdf5 = isinstance(a2, h5py.AttributeManager)
+
         if (
-            isinstance(value, dict | np.ndarray | datetime.datetime)
-            and zarr_available
-            and isinstance(a2, zarr.attrs.Attributes)
-        ) or (
-            isinstance(value, dict | datetime.datetime)
-            and isinstance(a2, h5py.AttributeManager)
-        ):
+            isinstance(value, dict | np.ndarray | datetime.datetime) and to_zarr
+        ) or (isinstance(value, dict | datetime.datetime) and to_hdf5):
             # Save to JSON converting datetimes.
             encoder = Memh5JSONEncoder()
             value = json_prefix + encoder.encode(value)
-        elif isinstance(value, str) and value.startswith(json_prefix):
+        elif (
+            isinstance(value, str)
+            and value.startswith(json_prefix)
+            and not (to_zarr or to_hdf5)
+        ):
             # Read from JSON, keep serialised datetimes as strings
             value = json.loads(value[len(json_prefix) :])
         return value
-- 
2.43.0


From eedf89add8a6f981d0bbb4f2d9f5d8be8a153dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:58 +0000
Subject: [PATCH 064/157] fix: copy a zarr file into an HDF5 file

---
 caput/memdata/_memh5.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 2a83326..f81cf4d 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2621,7 +2621,12 @@ def deep_group_copy(
             compression_kwargs = file_format.compression_kwargs(
                 compression=compression,
                 compression_opts=compression_opts,
-                compressor=getattr(dset, "compressor", None),
+                # Only zarr can use the compressor of a zarr array
+                compressor=(
+                    getattr(dset, "compressor", None)
+                    if file_format == fileformats.Zarr
+                    else None
+                ),
             )
         else:
             # in-memory case; use HDF5 compression args format for this case
-- 
2.43.0


From ea4731750a4cd76a686268fed55f52f5e50034f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:39 +0000
Subject: [PATCH 065/157] fix: write structured data with text read from HDF5
 into zarr

---
 caput/memdata/_memh5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index f81cf4d..9e3d6a8 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2595,6 +2595,10 @@ def deep_group_copy(
                 f'Can not write dataset "{dset.name!s}" of unicode type to file.'
             )
 
+        # Structured types read from HDF5 carry metadata which zarr can't handle
+        if to_file and file_format == fileformats.Zarr and data.dtype.names:
+            data = data.view(np.lib.format.drop_metadata(data.dtype))
+
         dset_args = {"dtype": data.dtype, "shape": data.shape, "data": data}
         # If we're copying memory to memory we can allow distributed datasets
         if not to_file and isinstance(dset, MemDatasetDistributed):
-- 
2.43.0


From 7b832165fd36de555e02ff5c107ce6e65195c3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:29 +0000
Subject: [PATCH 066/157] fix: copy with a selection of a single element

---
 caput/memdata/_memh5.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 9e3d6a8..a931382 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2573,6 +2573,9 @@ def deep_group_copy(
 
         # Extract the data for the selection
         data = dset[...] if dset.shape == () else dset[selection]
+        # Selecting a single element gives a numpy scalar
+        if isinstance(data, np.generic):
+            data = np.array(data, dtype=dset.dtype)
         # If copying memory to memory, make a deep copy of this dataset
         # We don't need to make a copy if writing to disk
         if not to_file:
-- 
2.43.0


From de29b4722e2893f2d925ff95374806cc8f79bfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:04 +0000
Subject: [PATCH 067/157] fix: leave attributes of shared datasets as they are
 when copying

---
 caput/memdata/_memh5.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index a931382..1c9d3a0 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2721,7 +2721,11 @@ def deep_group_copy(
             )
 
         target = g2[key] if key else g2
-        copyattrs(entry.attrs, target.attrs, convert_strings=convert_attribute_strings)
+        # Shared datasets also share their attributes, which should be left alone
+        if target.attrs is not entry.attrs:
+            copyattrs(
+                entry.attrs, target.attrs, convert_strings=convert_attribute_strings
+            )
 
         if postprocess:
             postprocess(entry, target)
-- 
2.43.0


From 5fc00a27f16ebd4b9f1021fa6e57d38fd2141dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:06 +0000
Subject: [PATCH 068/157] fix: save a selection of a single element of a
 compressed dataset

---
 caput/memdata/_memh5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 1c9d3a0..6690c01 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2623,6 +2623,10 @@ def deep_group_copy(
         if isinstance(dset, h5py.Dataset) and compression == "unknown":
             compression = compression_opts = None
 
+        # A scalar can't be compressed
+        if len(shape) == 0:
+            compression = compression_opts = None
+
         if to_file:
             # massage args according to file format
             compression_kwargs = file_format.compression_kwargs(
-- 
2.43.0


From 2a9a2755c903dcdc9a7e3633bcb58419c84e71dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:09 +0000
Subject: [PATCH 069/157] fix: read scalar datasets into a distributed group

---
 caput/memdata/_memh5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 6690c01..ea0ffb2 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2982,7 +2982,7 @@ def _distributed_group_from_file(
                     cdata = None
                     if comm.rank == 0:
                         if selection is None:
-                            cdata = item[:]
+                            cdata = item[...]
                         else:
                             cdata = item[selection]
 
-- 
2.43.0


From 56ba9c4c75174f617409df08514a0e71dbc1b3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:09 +0000
Subject: [PATCH 070/157] fix: distribute a common dataset over an axis other
 than the first

---
 caput/memdata/_memh5.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index ea0ffb2..839d6bb 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -948,7 +948,9 @@ class MemGroup(_BaseGroup):
         md = mpiarray.MPIArray(
             dset_shape, axis=distributed_axis, comm=self.comm, dtype=dset_type
         )
-        md.local_array[:] = dset[sd:ed].copy()
+        local_sel = [slice(None)] * len(dset_shape)
+        local_sel[distributed_axis] = slice(sd, ed)
+        md.local_array[:] = dset[tuple(local_sel)]
         attr_dict = {}  # temporarily save attrs of this dataset
         copyattrs(dset.attrs, attr_dict)
         del dset
-- 
2.43.0


From 6c342eb872105b2b8fcd7982c84036f458aa0cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:20 +0000
Subject: [PATCH 071/157] fix: let hints override that a dataset in a file is
 distributed

---
 caput/memdata/_memh5.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 839d6bb..ba66e5e 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2953,9 +2953,8 @@ def _distributed_group_from_file(
             else:
                 dset_hints = hints_dict.get(item.name, {})
 
-                distributed = hints and (
-                    dset_hints.get("distributed", False)
-                    or item.attrs.get("__memh5_distributed_dset", False)
+                distributed = hints and dset_hints.get(
+                    "distributed", item.attrs.get("__memh5_distributed_dset", False)
                 )
                 # Check if we are in a distributed dataset
                 if distributed:
-- 
2.43.0


From e935a10000998c4ed070f4018ad9ba1e6f6fb4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:03 +0000
Subject: [PATCH 072/157] fix: gather local arrays of text and structured types

---
 caput/util/mpitools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index 3c94c56..d4a03d8 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -618,7 +618,11 @@ def gather_local(
     else:
         local_sizes = comm.gather(local_size, root=root)
         local_starts = comm.gather(local_start, root=root)
-        mpi_type = typemap(local_array.dtype)
+        # Text and structured types don't have an equivalent MPI type, just move the bytes
+        if local_array.dtype.kind in "SUV":
+            mpi_type = MPI.BYTE.Create_contiguous(local_array.dtype.itemsize).Commit()
+        else:
+            mpi_type = typemap(local_array.dtype)
 
         # Each process should send its local sections.
         if np.prod(local_size) > 0:
-- 
2.43.0


From c02e01441467b44f215445a295187da0f4ea4f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:12 +0000
Subject: [PATCH 073/157] fix: write distributed structured data with text read
 from HDF5 into zarr

---
 caput/memdata/_memh5.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index ba66e5e..edee6fa 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2547,6 +2547,13 @@ def deep_group_copy(
 
         return selection
 
+    def _file_dtype(data: DatasetLike) -> np.dtype:
+        """Get the type to write data with."""
+        # Structured types read from HDF5 carry metadata which zarr can't handle
+        if to_file and file_format == fileformats.Zarr and data.dtype.names:
+            return np.lib.format.drop_metadata(data.dtype)
+        return data.dtype
+
     def _prepare_dataset(dset: DatasetLike) -> dict:
         """Prepare a dataset for writing, applying selections and transforming datatypes.
 
@@ -2571,7 +2578,7 @@ def deep_group_copy(
             # If we get here, we should create the dataset, but not write out
             # any data into it (i.e. return None)
             distributed_dset_names.append(dset.name)
-            return {"dtype": dset.dtype, "shape": dset.shape, "data": None}
+            return {"dtype": _file_dtype(dset), "shape": dset.shape, "data": None}
 
         # Extract the data for the selection
         data = dset[...] if dset.shape == () else dset[selection]
@@ -2600,9 +2607,8 @@ def deep_group_copy(
                 f'Can not write dataset "{dset.name!s}" of unicode type to file.'
             )
 
-        # Structured types read from HDF5 carry metadata which zarr can't handle
-        if to_file and file_format == fileformats.Zarr and data.dtype.names:
-            data = data.view(np.lib.format.drop_metadata(data.dtype))
+        if _file_dtype(data) is not data.dtype:
+            data = data.view(_file_dtype(data))
 
         dset_args = {"dtype": data.dtype, "shape": data.shape, "data": data}
         # If we're copying memory to memory we can allow distributed datasets
-- 
2.43.0


From 950f2f6857ab597684b6bde30ef2e5be2268114d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:16 +0000
Subject: [PATCH 074/157] fix: remove the lock, and a temporary directory,
 whenever writing a file fails

---
 caput/memdata/_io.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/caput/memdata/_io.py b/caput/memdata/_io.py
index 09bddec..fe162bf 100644
--- a/caput/memdata/_io.py
+++ b/caput/memdata/_io.py
@@ -8,6 +8,8 @@ from __future__ import annotations
 
 import os
 
+from .fileformats import remove_file_or_dir
+
 
 def open_h5py_mpi(f, mode, use_mpi=True, comm=None):
     """Ensure that we have an h5py File object.
@@ -108,16 +110,18 @@ class lock_file:
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         if self.rank0:
-            # Check if exception was raised and delete the temp file if needed
-            if exc_type is not None:
-                if not self.preserve:
-                    os.remove(self.tmpfile)
-            # Otherwise things were successful and we should move the file over
-            else:
-                os.rename(self.tmpfile, self.filename)
-
-            # Finally remove the lock file
-            os.remove(self.lockfile)
+            try:
+                # Check if exception was raised and delete the temp file if needed.
+                # It might be a directory, or not have been created at all
+                if exc_type is not None:
+                    if not self.preserve:
+                        remove_file_or_dir(self.tmpfile)
+                # Otherwise things were successful and we should move the file over
+                else:
+                    os.rename(self.tmpfile, self.filename)
+            finally:
+                # Finally remove the lock file
+                os.remove(self.lockfile)
 
         return False
 
-- 
2.43.0


From ed48e83a570961fa0959408363409af8f823bc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:15 +0000
Subject: [PATCH 075/157] fix: copy the axis definitions taken from another
 container

---
 caput/containers/_core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/containers/_core.py b/caput/containers/_core.py
index 07b8ed9..1b88bd2 100644
--- a/caput/containers/_core.py
+++ b/caput/containers/_core.py
@@ -403,6 +403,10 @@ class ContainerPrototype(Container):
                 axis_map = axes_from.index_map.get(axis, None)
                 copy_axis_attrs = True
 
+                # Take a copy such that the two containers don't share the axis
+                if axis_map is not None:
+                    axis_map = np.array(axis_map)
+
             # Set the index_map[axis] if we have a definition, otherwise throw an error
             if axis_map is None:
                 raise RuntimeError(f"No definition of axis {axis} supplied.")
-- 
2.43.0


From 826e13d7e58789e921fa7fedfba3941f4fd49066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:15 +0000
Subject: [PATCH 076/157] fix: do not override a dataset or table with the
 declaration of a farther base class

---
 caput/containers/_core.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/caput/containers/_core.py b/caput/containers/_core.py
index 1b88bd2..b239ced 100644
--- a/caput/containers/_core.py
+++ b/caput/containers/_core.py
@@ -603,13 +603,9 @@ class ContainerPrototype(Container):
         # which get added to a temporary dict. We go over the reversed MRO so
         # that the `ddict.update` overrides datasets in base classes.`
         for cls in inspect.getmro(cls)[::-1]:
-            try:
-                # NOTE: this is a little ugly as the following line will drop
-                # down to base classes if dataset_spec isn't present, and thus
-                # try and `update` with the same values again.
-                ddict.update(cls._dataset_spec)
-            except AttributeError:
-                pass
+            # Only use the entries of the class itself, otherwise a class without any
+            # would again apply those of a base class over the ones overriding them
+            ddict.update(cls.__dict__.get("_dataset_spec", {}))
 
         # Ensure that the dataset_spec is the same order on all ranks
         return {k: ddict[k] for k in sorted(ddict)}
@@ -811,9 +807,6 @@ class TableSpec(ContainerPrototype):
         tdict = {}
 
         for cls in inspect.getmro(self.__class__)[::-1]:
-            try:
-                tdict.update(cls._table_spec)
-            except AttributeError:
-                pass
+            tdict.update(cls.__dict__.get("_table_spec", {}))
 
         return tdict
-- 
2.43.0


From 899b961696f935fb97302b2f88f19b2480eea74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:09 +0000
Subject: [PATCH 077/157] fix: create datasets and axes from lists

---
 caput/memdata/_memh5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index edee6fa..162804c 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -798,6 +798,10 @@ class MemGroup(_BaseGroup):
 
         # If data is set, copy out params from it.
         if data is not None:
+            # Allow anything that can be turned into an array, e.g. a list
+            if not hasattr(data, "shape"):
+                data = np.asarray(data)
+
             if shape is None:
                 shape = data.shape
             if dtype is None:
-- 
2.43.0


From 0ad34ea167c7515f9b67ef73eeea17fc59f6dd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:22 +0000
Subject: [PATCH 078/157] fix: make the tables known to the class, so that they
 are not added to its declaration and known to loaded containers

---
 caput/containers/_core.py | 61 ++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/caput/containers/_core.py b/caput/containers/_core.py
index b239ced..d311df5 100644
--- a/caput/containers/_core.py
+++ b/caput/containers/_core.py
@@ -754,42 +754,42 @@ class TableSpec(ContainerPrototype):
 
     _table_spec: ClassVar[dict[str, dict]] = {}
 
-    def __init__(self, *args: tuple, **kwargs: dict):
-        # Get the dataset specifiction for this class (not any base classes), or
-        # an empty dictionary if it does not exist. Do the same for the axes entry..
-        dspec = self.__class__.__dict__.get("_dataset_spec", {})
-        axes = self.__class__.__dict__.get("_axes", ())
+    @classmethod
+    def _class_dataset_spec(cls) -> dict[str, dict]:
+        """Get the inherited set of dataset spec entries, including the tables."""
+        ddict = super()._class_dataset_spec()
 
         # Iterate over all table_spec entries and construct dataset specifications for
         # them.
-        for name, spec in self.table_spec.items():
-            # Get the specifieid axis or if not present create a unique one for
-            # this table entry
-            axis = spec.get("axis", name + "_index")
+        for name, spec in cls._class_table_spec().items():
+            axis = cls._table_axis(name, spec)
 
-            dtype = self._create_dtype(spec["columns"])
-
-            _dataset = {
+            ddict[name] = {
                 "axes": [axis],
-                "dtype": dtype,
+                "dtype": cls._create_dtype(spec["columns"]),
                 "initialise": spec.get("initialise", True),
                 "distributed": spec.get("distributed", False),
                 "distributed_axis": axis,
             }
 
-            dspec[name] = _dataset
+        # Ensure that the dataset_spec is the same order on all ranks
+        return {k: ddict[k] for k in sorted(ddict)}
 
-            if axis not in axes:
-                axes += (axis,)
+    @classmethod
+    def _class_axes(cls) -> tuple[str, ...]:
+        """Get the set of axes, including the ones of the tables."""
+        axes = set(super()._class_axes())
+        axes |= {cls._table_axis(*item) for item in cls._class_table_spec().items()}
 
-        self._dataset_spec = dspec
-        self._axes = axes
+        return tuple(sorted(axes))
 
-        super().__init__(*args, **kwargs)
+    @staticmethod
+    def _table_axis(name: str, spec: dict) -> str:
+        """Get the specified axis, or if not present a unique one for this table."""
+        return spec.get("axis", name + "_index")
 
-    def _create_dtype(
-        self, columns: dict[str, npt.DTypeLike]
-    ) -> list[tuple[str, np.dtype]]:
+    @staticmethod
+    def _create_dtype(columns: dict[str, npt.DTypeLike]) -> list[tuple[str, np.dtype]]:
         """Take a dictionary of columns and turn into the appropriate compound data type."""
         dt = []
         for ci, (name, dtype) in enumerate(columns):
@@ -799,14 +799,17 @@ class TableSpec(ContainerPrototype):
 
         return dt
 
-    @property
-    def table_spec(self) -> dict[str, dict]:
-        """Return a copy of the fully resolved table specifiction as a dictionary."""
-        import inspect
-
+    @classmethod
+    def _class_table_spec(cls) -> dict[str, dict]:
+        """Get the inherited set of table spec entries."""
         tdict = {}
 
-        for cls in inspect.getmro(self.__class__)[::-1]:
-            tdict.update(cls.__dict__.get("_table_spec", {}))
+        for c in inspect.getmro(cls)[::-1]:
+            tdict.update(c.__dict__.get("_table_spec", {}))
 
         return tdict
+
+    @property
+    def table_spec(self) -> dict[str, dict]:
+        """Return a copy of the fully resolved table specifiction as a dictionary."""
+        return self._class_table_spec()
-- 
2.43.0


From 013f5ce1383aa5645ed6551f8eec3c7f60a430e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:01 +0000
Subject: [PATCH 079/157] fix: copy the datasets of another container that are
 distributed differently

---
 caput/containers/_core.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/caput/containers/_core.py b/caput/containers/_core.py
index d311df5..fd62671 100644
--- a/caput/containers/_core.py
+++ b/caput/containers/_core.py
@@ -11,6 +11,7 @@ from typing import TYPE_CHECKING
 import numpy as np
 
 from .. import memdata
+from ..mpiarray import MPIArray
 from ..util import typeutils
 
 if TYPE_CHECKING:
@@ -445,7 +446,21 @@ class ContainerPrototype(Container):
                 if name not in self:
                     self.add_dataset(name)
 
-                self[name][:] = source_dset[:]
+                dest_dset = self[name]
+                data = source_dset[:]
+
+                # Match the distribution of the data to the new dataset
+                if isinstance(dest_dset, memdata.MemDatasetDistributed):
+                    dist_axis = dest_dset.distributed_axis
+                    if isinstance(data, MPIArray):
+                        data = data.redistribute(dist_axis)
+                    else:
+                        local = dest_dset[:].local_bounds
+                        data = data[(slice(None),) * dist_axis + (local,)]
+                elif isinstance(data, MPIArray):
+                    data = data.allgather()
+
+                dest_dset[:] = data
 
         # Copy over attributes
         if attrs_from is not None:
-- 
2.43.0


From 2bcba8f5ade35417e87eaa88c02b7fc6998a5f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:19 +0000
Subject: [PATCH 080/157] fix: load selections with lists of indices on several
 axes, or an empty list

---
 caput/memdata/_memh5.py      |  9 +++++++--
 caput/memdata/fileformats.py | 38 ++++++++++++++++++++++++++++++++++++
 caput/mpiarray.py            |  5 ++++-
 3 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 162804c..f0f299d 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2585,7 +2585,12 @@ def deep_group_copy(
             return {"dtype": _file_dtype(dset), "shape": dset.shape, "data": None}
 
         # Extract the data for the selection
-        data = dset[...] if dset.shape == () else dset[selection]
+        if dset.shape == ():
+            data = dset[...]
+        elif isinstance(dset, MemDataset):
+            data = dset[selection]
+        else:
+            data = fileformats.read_selection(dset, selection)
         # Selecting a single element gives a numpy scalar
         if isinstance(data, np.generic):
             data = np.array(data, dtype=dset.dtype)
@@ -2995,7 +3000,7 @@ def _distributed_group_from_file(
                         if selection is None:
                             cdata = item[...]
                         else:
-                            cdata = item[selection]
+                            cdata = fileformats.read_selection(item, selection)
 
                         # Convert ascii string back to unicode if requested
                         if convert_dataset_strings:
diff --git a/caput/memdata/fileformats.py b/caput/memdata/fileformats.py
index 204a04d..06d6cba 100644
--- a/caput/memdata/fileformats.py
+++ b/caput/memdata/fileformats.py
@@ -38,6 +38,8 @@ from __future__ import annotations
 
 import abc
 
+import numpy as np
+
 # Check for availability of each supported filetype
 # At least one filetype must have a backend installed
 BACKENDS = {}
@@ -384,6 +386,42 @@ def remove_file_or_dir(name):
             pass
 
 
+def read_selection(dset, selection):
+    """Read a selection from a dataset in a file.
+
+    Lists of indices select along their own axis, independently of the other axes.
+    That's also what h5py and zarr do, but h5py only for a single list, and zarr only
+    if there are no slices or the list isn't empty.
+
+    Parameters
+    ----------
+    dset : h5py.Dataset | zarr.Array
+        Dataset to read from.
+    selection : SelectionLike
+        A selection for the first axis, or a tuple of selections for the first axes.
+
+    Returns
+    -------
+    data : np.ndarray
+        The selected data.
+    """
+    sel = selection if isinstance(selection, tuple) else (selection,)
+
+    # Find the lists, and leave anything less common to the file format
+    lists = [ax for ax, s in enumerate(sel) if isinstance(s, list)]
+    if not lists or not all(isinstance(s, list | slice) for s in sel):
+        return dset[selection]
+
+    # Read the selection of the first list, and apply all others to the result
+    later = lists[1:] if len(sel[lists[0]]) > 0 else lists
+    data = dset[tuple(slice(None) if ax in later else s for ax, s in enumerate(sel))]
+
+    for ax in later:
+        data = np.take(data, np.array(sel[ax], dtype=int), axis=ax)
+
+    return data
+
+
 def guess_file_format(name, default=HDF5):
     """Guess the file format from the file name.
 
diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index e6cdfb8..534fe73 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1072,7 +1072,10 @@ class MPIArray(np.ndarray):
                     islice, fslice = _partition_sel(
                         sel, split_axis, dshape[split_axis], part
                     )
-                    if dtype.byteorder == "=":
+                    if sum(isinstance(sl, list) for sl in islice) > 1:
+                        # h5py can only read one list of indices at a time
+                        dist_arr[fslice] = fileformats.read_selection(dset, islice)
+                    elif dtype.byteorder == "=":
                         # Native dtype so use `read_direct` to limit copies. This won't
                         # necessarily always be faster, but it should never be slower
                         dset.read_direct(dist_arr, islice, fslice)
-- 
2.43.0


From ab2576390758e241edd814af3afb782ccd670867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:19 +0000
Subject: [PATCH 081/157] fix: apply axis selections when loading through a
 base class

---
 caput/memdata/_memh5.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index f0f299d..16b218b 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -1946,8 +1946,14 @@ class MemDiskGroup(_BaseGroup):
                     "Cannot process axis selections as subclass is not known."
                 )
 
+            # The axes to select from are those of the actual class of the container
+            sel_cls = cls
+            if sel_args and detect_subclass:
+                with file_format.open(file_, "r") as fh:
+                    sel_cls = cls._resolve_subclass(cls._detect_subclass_path(fh))
+
             # Map selections to datasets
-            sel = cls._make_selections(sel_args)
+            sel = sel_cls._make_selections(sel_args)
 
             data = MemGroup.from_file(
                 file_,
-- 
2.43.0


From eb4f28efbf0884a681d24a2df86be4f8095cb3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:33 +0000
Subject: [PATCH 082/157] fix: write to zarr with gzip compression without a
 level

---
 caput/memdata/fileformats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/fileformats.py b/caput/memdata/fileformats.py
index 06d6cba..93efefa 100644
--- a/caput/memdata/fileformats.py
+++ b/caput/memdata/fileformats.py
@@ -309,7 +309,8 @@ class Zarr(FileFormat):
                 )
 
             if compression == "gzip":
-                return {"compressor": numcodecs.gzip.GZip(level=compression_opts)}
+                level = {} if compression_opts is None else {"level": compression_opts}
+                return {"compressor": numcodecs.gzip.GZip(**level)}
 
             if compression in (H5FILTER, str(H5FILTER), "bitshuffle"):
                 try:
-- 
2.43.0


From 4227229bff1c5e27e6e10c59e83c67c89d413e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:33 +0000
Subject: [PATCH 083/157] fix: filter datasets with arrays or empty lists of
 indices, without changing the arguments

---
 caput/containers/_util.py | 14 ++++++++------
 caput/mpiarray.py         |  2 +-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/caput/containers/_util.py b/caput/containers/_util.py
index 18560c8..6909293 100644
--- a/caput/containers/_util.py
+++ b/caput/containers/_util.py
@@ -91,16 +91,18 @@ def copy_datasets_filter(
             f"but selections for {list(selection.keys())}."
         )
 
-    # Try to clean up selections
+    # Try to clean up selections, without changing the ones passed in
+    selection = dict(selection)
     for ax in list(selection):
         sel = selection[ax]
+        # Convert any indexed selections to slices where possible
+        if type(sel) in {list, tuple, np.ndarray}:
+            sel = selection[ax] = list(sel)
+            if sel and sel == list(range(sel[0], sel[-1] + 1)):
+                selection[ax] = slice(sel[0], sel[-1] + 1)
         # Remove any unnecessary slices
-        if sel == slice(None):
+        elif sel == slice(None):
             del selection[ax]
-        # Convert any indexed selections to slices where possible
-        elif type(sel) in {list, tuple, np.ndarray}:
-            if list(sel) == list(range(sel[0], sel[-1])):
-                selection[ax] = slice(sel[0], sel[-1])
 
     stack = [source]
 
diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 534fe73..2db7981 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -2296,7 +2296,7 @@ def _apply_sel(
         return arr[sel]
 
     if type(sel) in {list, tuple}:
-        return np.take(arr, sel, axis=ax)
+        return np.take(arr, np.array(sel, dtype=int), axis=ax)
 
     raise ValueError(
         "Invalid selection type. Selection must be one of (slice, tuple, list). "
-- 
2.43.0


From 179cc8d074cfa7a5c536f2784571e31da62ac723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:33 +0000
Subject: [PATCH 084/157] fix: leave the distribution of the source as it is
 when filtering datasets

---
 caput/containers/_util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/caput/containers/_util.py b/caput/containers/_util.py
index 6909293..5d3125b 100644
--- a/caput/containers/_util.py
+++ b/caput/containers/_util.py
@@ -127,6 +127,7 @@ def copy_datasets_filter(
             dest.add_dataset(item.name)
 
         dest_dset = dest[item.name]
+        arr = item[:]
 
         # Make sure that both datasets are distributed to the same axis
         if isinstance(item, _memh5.MemDatasetDistributed):
@@ -155,12 +156,13 @@ def copy_datasets_filter(
                     )
                 new_ax_id = item_axes.index(ax_priority[-1])
 
-            # Make sure both datasets are distributed to the same axis.
-            item.redistribute(new_ax_id)
+            # Make sure both datasets are distributed to the same axis, leaving the
+            # source as it is
+            arr = arr.redistribute(new_ax_id)
             dest_dset.redistribute(new_ax_id)
 
         # Apply the selections
-        arr = item[:].view(np.ndarray)
+        arr = arr.view(np.ndarray)
 
         for ax, sel in selection.items():
             try:
-- 
2.43.0


From 88ed763fef8b0f6d8e593520b25e0f17eb83661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:33 +0000
Subject: [PATCH 085/157] fix: filter a common dataset into a distributed one

---
 caput/containers/_util.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/caput/containers/_util.py b/caput/containers/_util.py
index 5d3125b..23b319f 100644
--- a/caput/containers/_util.py
+++ b/caput/containers/_util.py
@@ -171,11 +171,17 @@ def copy_datasets_filter(
                 continue
             arr = _apply_sel(arr, sel, ax_ind)
 
+        # Only a part of a common dataset goes into the local part of a distributed one
+        from_common = not isinstance(item, _memh5.MemDatasetDistributed)
+        if from_common and isinstance(dest_dset, _memh5.MemDatasetDistributed):
+            local = dest_dset[:].local_bounds
+            arr = _apply_sel(arr, local, dest_dset.distributed_axis)
+
         dest_dset[:] = arr[:]
 
         # also copy attritutes
         _memh5.copyattrs(item.attrs, dest_dset.attrs)
 
-        if isinstance(dest_dset, _memh5.MemDatasetDistributed):
+        if isinstance(item, _memh5.MemDatasetDistributed):
             # Redistribute back to the original axis
             dest_dset.redistribute(original_ax_id)
-- 
2.43.0


From d7fada06f6e41e203b72bc210517ec73d068fbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:11 +0000
Subject: [PATCH 086/157] fix: skip datasets without the negative axis to
 redistribute over

---
 caput/containers/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/containers/_core.py b/caput/containers/_core.py
index fd62671..aaed101 100644
--- a/caput/containers/_core.py
+++ b/caput/containers/_core.py
@@ -252,7 +252,7 @@ class Container(memdata.MemDiskGroup):
                             axis = naxis + axis
 
                     # Check axis is within bounds
-                    if axis >= naxis:
+                    if not 0 <= axis < naxis:
                         continue
 
                     # Excellent, found a matching axis, time to redistribute
-- 
2.43.0


From e8ba8aa5b2b4feb0d48e2273c6ec2e57a0f791ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:51 +0000
Subject: [PATCH 087/157] fix: load containers of a class that cannot be
 imported as the class asked for

---
 caput/memdata/_memh5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 16b218b..946bed1 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -1727,8 +1727,9 @@ class MemDiskGroup(_BaseGroup):
         # Try to get a reference to the requested class (warn if we cannot find it)
         try:
             new_cls = importtools.import_class(clspath)
-        except (ImportError, KeyError):
+        except (ImportError, AttributeError, KeyError):
             warnings.warn(f"Could not import memh5 subclass {clspath}")
+            return cls
 
         # Check that it is a subclass of MemDiskGroup
         if not issubclass(new_cls, MemDiskGroup):
-- 
2.43.0


From 9dc1543ee01c652a76c85cea0a9b07ae95eac2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:47 +0000
Subject: [PATCH 088/157] fix: leave the start and stop passed to concatenate
 as they are

---
 caput/containers/tod.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index dd2df28..7f7de7c 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -377,11 +377,15 @@ def concatenate(
     first_data = data_list[0]
     concatenation_axes = first_data.time_axes
 
-    # Ensure *start* and *stop* are mappings.
+    # Ensure *start* and *stop* are mappings, that are not the ones passed in.
     if not hasattr(start, "__getitem__"):
         start = dict.fromkeys(concatenation_axes, start)
+    else:
+        start = dict(start)
     if not hasattr(stop, "__getitem__"):
         stop = dict.fromkeys(concatenation_axes, stop)
+    else:
+        stop = dict(stop)
 
     # Get the length of all axes for which we are concatenating.
     concat_index_lengths = dict.fromkeys(concatenation_axes, 0)
-- 
2.43.0


From 1139d301764810bac88ffe4a900c234d29d83883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:48 +0000
Subject: [PATCH 089/157] fix: concatenate any sequence of containers

---
 caput/containers/tod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index 7f7de7c..7379dd3 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -440,7 +440,7 @@ def concatenate(
         out.create_reverse_map(axis, reverse_map)
 
     all_dataset_names = _copy_non_time_data(
-        data_list,
+        first_data,
         out,
         convert_attribute_strings=convert_attribute_strings,
         convert_dataset_strings=convert_dataset_strings,
-- 
2.43.0


From b269fdc9fe310ebb7833a00bd4af721be7019033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:08 +0000
Subject: [PATCH 090/157] fix: concatenate with a start or stop out of range

---
 caput/containers/tod.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index 7379dd3..845d2bf 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -723,17 +723,9 @@ def _dset_has_axis(entry: Any, axes: tuple[str]) -> bool:
 def _start_stop_inds(
     start: np.number | None, stop: np.number | None, ntime: np.number
 ) -> tuple[np.number, np.number]:
-    if start is None:
-        start = 0
-    elif start < 0:
-        start = ntime + start
-    if stop is None:
-        stop = ntime
-    elif stop < 0:
-        stop = ntime + stop
-    elif stop > ntime:
-        stop = ntime
-    return start, stop
+    # Interpret them like a slice would, in particular if they are out of range
+    start, stop, _ = slice(start, stop).indices(ntime)
+    return start, max(start, stop)
 
 
 def _get_in_out_slice(
-- 
2.43.0


From 6fdff41beac191387d4794b2861db504f43b842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:08 +0000
Subject: [PATCH 091/157] fix: keep the datasets when concatenating an empty
 range of time

---
 caput/containers/tod.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index 845d2bf..f85de4e 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -503,7 +503,9 @@ def concatenate(
                 current_concat_index_start[axis] + current_concat_index_n[axis]
                 <= start[axis]
             )
-            if axis_finished or axis_not_started:
+            # If nothing is selected still create the (empty) dataset from the first one
+            is_empty = start[axis] == stop[axis] and data is first_data
+            if (axis_finished or axis_not_started) and not is_empty:
                 continue
             axis_rate = 1  # Place holder for eventual implementation.
             in_slice, out_slice = _get_in_out_slice(
-- 
2.43.0


From a4ae8b2d116208e3f2bb8e6cb787e7a7c0976095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:08 +0000
Subject: [PATCH 092/157] fix: write the time axis when concatenating into a
 file

---
 caput/containers/tod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index f85de4e..476aadd 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -472,7 +472,8 @@ def concatenate(
                 current_concat_index_start[axis],
                 current_concat_index_n[axis],
             )
-            out.index_map[axis][out_slice] = (
+            # Write to the actual dataset, as index_map is only a copy if on disk
+            out._data["index_map"][axis][out_slice] = (
                 typeutils.ensure_unicode(data.index_map[axis][in_slice])
                 if convert_attribute_strings
                 else data.index_map[axis][in_slice]
-- 
2.43.0


From 70d3c32126ee6453414f5867b447d21579c131a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:33 +0000
Subject: [PATCH 093/157] fix: copy the history when concatenating

---
 caput/containers/tod.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index 476aadd..cea2f28 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -435,6 +435,15 @@ def concatenate(
             )
         memdata.copyattrs(first_data.index_attrs[axis], out.index_attrs[axis])
 
+    # Copy over the history.
+    if "history" in first_data._data:
+        history = first_data._data["history"]
+        memdata.copyattrs(history.attrs, out._data["history"].attrs)
+        # Entries of the old format
+        for name, entry in history.items():
+            target = out._data["history"].require_group(name)
+            memdata.copyattrs(entry.attrs, target.attrs)
+
     # Copy over the reverse maps.
     for axis, reverse_map in first_data.reverse_map.items():
         out.create_reverse_map(axis, reverse_map)
-- 
2.43.0


From c775e5dd8a821d219c1d765cf9d25959082cfc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:57 +0000
Subject: [PATCH 094/157] fix: share nothing between the sources and the result
 of concatenate

---
 caput/containers/tod.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index cea2f28..d07e433 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -431,7 +431,7 @@ def concatenate(
                     typeutils.ensure_unicode(index_map)
                     if convert_dataset_strings
                     else index_map
-                ),
+                ).copy(),
             )
         memdata.copyattrs(first_data.index_attrs[axis], out.index_attrs[axis])
 
@@ -446,7 +446,7 @@ def concatenate(
 
     # Copy over the reverse maps.
     for axis, reverse_map in first_data.reverse_map.items():
-        out.create_reverse_map(axis, reverse_map)
+        out.create_reverse_map(axis, reverse_map.copy())
 
     all_dataset_names = _copy_non_time_data(
         first_data,
@@ -701,17 +701,11 @@ def _copy_non_time_data(
             if memdata.is_group(entry):
                 target = out if entry.name == "/" else out.require_group(entry.name)
             else:
-                arr = (
-                    typeutils.ensure_unicode(entry[:])
-                    if convert_dataset_strings
-                    else entry[:]
-                )
-                target = out.create_dataset(
-                    entry.name,
-                    shape=entry.shape,
-                    dtype=entry.dtype,
-                    data=arr,
-                )
+                arr = entry[...] if entry.shape == () else entry[:]
+                if convert_dataset_strings:
+                    arr = typeutils.ensure_unicode(arr)
+                # Take a copy such that nothing is shared with the input data
+                target = out.create_dataset(entry.name, data=arr.copy())
             memdata.copyattrs(
                 entry.attrs, target.attrs, convert_strings=convert_attribute_strings
             )
-- 
2.43.0


From a40a910326052439f34ef6f412eeea0d1523e243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:43 +0000
Subject: [PATCH 095/157] fix: find the time axes of datasets in zarr files

---
 caput/containers/tod.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index d07e433..454f245 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -500,7 +500,7 @@ def concatenate(
             attrs = dataset.attrs
 
             # Figure out which axis we are concatenating over.
-            for a in typeutils.bytes_to_unicode(attrs["axis"]):
+            for a in _get_axes(attrs):
                 if a in concatenation_axes:
                     axis = a
                     break
@@ -536,7 +536,7 @@ def concatenate(
                 attrs = dataset.attrs
 
             # Do this *after* the filter, in case filter changed axis order.
-            axis_ind = list(typeutils.bytes_to_unicode(attrs["axis"])).index(axis)
+            axis_ind = _get_axes(attrs).index(axis)
 
             # Slice input data if the filter doesn't do it.
             if not filter_time_slice:
@@ -718,11 +718,20 @@ def _dset_has_axis(entry: Any, axes: tuple[str]) -> bool:
     if memdata.is_group(entry):
         return False
 
-    # Assume is a dataset. We need to ensure the output strings are Unicode as h5py may
-    # return them as byte strings if the input is an h5py.Dataset
-    dset_axes = typeutils.bytes_to_unicode(entry.attrs.get("axis", ()))
+    # Assume is a dataset.
+    return len(set(_get_axes(entry.attrs)).intersection(axes)) > 0
 
-    return len(set(dset_axes).intersection(axes)) > 0
+
+def _get_axes(attrs: Any) -> list[str]:
+    """Get the names of the axes from the attributes of a dataset.
+
+    We need to ensure the output strings are Unicode as h5py may return them as byte
+    strings, and that they get decoded from the JSON that is written into zarr files.
+    """
+    out = {}
+    memdata.copyattrs({"axis": attrs.get("axis", ())}, out, convert_strings=True)
+
+    return list(out["axis"])
 
 
 # XXX andata still calls these.
-- 
2.43.0


From 0ba2c952c1d57dc848364812ad1f2911e3e7f976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:43 +0000
Subject: [PATCH 096/157] fix: convert the text of time ordered datasets when
 concatenating

---
 caput/containers/tod.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index 454f245..247a4b1 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -558,6 +558,8 @@ def concatenate(
             if name not in out:
                 shape = dataset.shape
                 dtype = dataset.dtype
+                if convert_dataset_strings:
+                    dtype = typeutils.dtype_to_unicode(dtype)
                 full_shape = shape[:axis_ind]
                 full_shape += ((stop[axis] - start[axis]) * axis_rate,)
                 full_shape += shape[axis_ind + 1 :]
-- 
2.43.0


From bdba0dac6b6422c8ce67709851c4a8714ee32a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:43 +0000
Subject: [PATCH 097/157] fix: select a time range that contains no samples

---
 caput/containers/tod.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index 247a4b1..24697a4 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -274,12 +274,16 @@ class TODReader:
         """
         if start_time is not None:
             start_time = self.data_class.convert_time(start_time)
-            start = np.where(self.time >= start_time)[0][0]
+            # If there's nothing after this time, start after the last sample
+            in_range = np.where(self.time >= start_time)[0]
+            start = in_range[0] if len(in_range) else len(self.time)
         else:
             start = self.time_sel[0]
         if stop_time is not None:
             stop_time = self.data_class.convert_time(stop_time)
-            stop = np.where(self.time < stop_time)[0][-1] + 1
+            # If there's nothing before this time, stop before the first sample
+            in_range = np.where(self.time < stop_time)[0]
+            stop = in_range[-1] + 1 if len(in_range) else 0
         else:
             stop = self.time_sel[1]
 
-- 
2.43.0


From c40af7f4248fc112dfdece78395e28710cc54d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:38 +0000
Subject: [PATCH 098/157] fix: pass array-like products through the pipeline

Looking for the output among the inputs compared them by value, which
raises for anything like a numpy array.
---
 caput/pipeline/_pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 36d921f..555f849 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -1142,7 +1142,7 @@ class Task(config.Reader):
                 # Let the user know if there's a chance that data has been
                 # modified in-place
                 for opt in out if isinstance(out, tuple | list) else (out,):
-                    if opt in args:
+                    if any(opt is arg for arg in args):
                         logger.debug(
                             f"Task {self!s} may have modified dataset {opt!r} in-place. "
                             "If you encounter unexpected results, check that this is "
-- 
2.43.0


From 653ef860b857a32e6e1bbe338586c44882ad123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:38 +0000
Subject: [PATCH 099/157] fix: check the number of outputs for a list of one
 output key

A product other than a sequence of length one was iterated over, and
only the first item (such as the name of a dataset) passed on.
---
 caput/pipeline/_pipeline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 555f849..eb8ce46 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -486,8 +486,11 @@ class Manager(config.Reader):
             if isinstance(task._out_keys, tuple):
                 if not isinstance(out, tuple):
                     out = (out,)
+            # A task with a single output may not wrap it
+            elif not isinstance(out, tuple | list):
+                out = (out,)
 
-        elif len(task._out_keys) != len(out):
+        if isinstance(task._out_keys, list) and len(task._out_keys) != len(out):
             raise exceptions.PipelineRuntimeError(
                 f"Found unexpected number of outputs in {task!s} "
                 f"(got {len(out)} expected {len(task._out_keys)})"
-- 
2.43.0


From caf1eeefe8a664dd8edac4c50cd9cc4e38db971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:59 +0000
Subject: [PATCH 100/157] fix: do not pass on missing outputs among several

A task with several outputs that drops one of them (as container tasks
do with outputs containing NaNs) had None passed on in its place.
---
 caput/pipeline/_pipeline.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index eb8ce46..a4d1308 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -356,6 +356,10 @@ class Manager(config.Reader):
                 # the allowed key pattern
                 if not self.key_match.search(key):
                     continue
+                # A task with several outputs may not have made this one,
+                # e.g. if it was dropped because it contains NaNs
+                if product is None:
+                    continue
                 # Try to pass this product to each task
                 received = [
                     recv._pipeline_queue_product(key, product)
-- 
2.43.0


From 0072090a535e146c695571952d06786a9544dc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:53 +0000
Subject: [PATCH 101/157] fix: apply the configured key pattern

The pattern was compiled before the configuration is read, so it was
always the default.
---
 caput/pipeline/_pipeline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index a4d1308..65768b1 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -145,8 +145,10 @@ class Manager(config.Reader):
 
         self._psutil_profiling = psutil_profiling
 
-        # Precompile the key pattern to skip
-        self.key_match = re.compile(self.key_pattern)
+    @property
+    def key_match(self):
+        """Pattern of the keys to pass to subsequent tasks."""
+        return re.compile(self.key_pattern)
 
     @classmethod
     def from_yaml_file(cls, file_name, lint=False, psutil_profiling=False):
-- 
2.43.0


From 1fff971f23b5bd58c37625b4c96f8264459a2d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:53 +0000
Subject: [PATCH 102/157] fix: take the inputs of a pipeline from an array

---
 caput/pipeline/extensions/_pytools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/extensions/_pytools.py b/caput/pipeline/extensions/_pytools.py
index ba450ee..b9e93fc 100644
--- a/caput/pipeline/extensions/_pytools.py
+++ b/caput/pipeline/extensions/_pytools.py
@@ -19,7 +19,7 @@ class Input(Task):
 
     def __init__(self, inputs=None):
         super().__init__()
-        self.inputs = inputs or []
+        self.inputs = [] if inputs is None else inputs
         self._iter = None
 
     def next(self):
-- 
2.43.0


From 29c5e3cdad6f41048e8e50a85a194231eb9b4453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:39 +0000
Subject: [PATCH 103/157] fix: allow pipelines which do not save the
 configuration

The missing configuration cannot be None, as tasks need a dictionary.
---
 caput/pipeline/_pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 65768b1..0bbcd9d 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -218,7 +218,7 @@ class Manager(config.Reader):
         self.all_params = yaml_params
         self.all_tasks_params = {
             "versions": self.versions,
-            "pipeline_config": self.all_params if self.save_config else None,
+            "pipeline_config": self.all_params if self.save_config else {},
         }
 
         self._setup_logging(lint)
-- 
2.43.0


From 17df03f57cd3a86cfb82128b1c8fb5e8eef69738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:39 +0000
Subject: [PATCH 104/157] fix: report a missing pipeline section as a
 configuration error

---
 caput/pipeline/_pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 0bbcd9d..1a8b905 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -206,7 +206,7 @@ class Manager(config.Reader):
                     f"`{type(yaml_params['pipeline']).__name__}` (expected a dict here).",
                     location=yaml_params,
                 )
-        except TypeError as e:
+        except (KeyError, TypeError) as e:
             raise config.CaputConfigError(
                 "Couldn't find key 'pipeline' in YAML configuration document.",
                 location=yaml_params,
-- 
2.43.0


From f1880cbb23872dda426ad71a4e0f12f4831e654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:39 +0000
Subject: [PATCH 105/157] fix: report any unknown task type as a configuration
 error

---
 caput/pipeline/_pipeline.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 1a8b905..e2c9077 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -588,7 +588,7 @@ class Manager(config.Reader):
 
         # Find the tasks class either in the local set, or by importing a fully
         # qualified class name
-        if task_path in local_tasks:
+        if isinstance(task_path, str) and task_path in local_tasks:
             task_cls = local_tasks[task_path]
         else:
             try:
@@ -596,12 +596,18 @@ class Manager(config.Reader):
             except (
                 config.CaputConfigError,
                 AttributeError,
-                ModuleNotFoundError,
+                ImportError,
+                KeyError,
+                TypeError,
+                ValueError,
             ) as exc:
                 raise config.CaputConfigError(
                     f"Error loading task `{task_path}`\n"
                 ) from exc
 
+        if not (inspect.isclass(task_cls) and issubclass(task_cls, Task)):
+            raise config.CaputConfigError(f"`{task_path}` is not a pipeline task.")
+
         # Get the parameters and initialize the class.
         params = {}
         if "params" in task_spec:
-- 
2.43.0


From 6d4ffa7375eadf29bd8b54cd85f7d674f73b8ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:39 +0000
Subject: [PATCH 106/157] fix: report malformed parameter groups as a
 configuration error

---
 caput/pipeline/_pipeline.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index e2c9077..3066e4b 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -626,11 +626,16 @@ class Manager(config.Reader):
                 # Locate param sections, and add to dict
                 for param_key in param_keys:
                     try:
-                        params.update(self.all_params[param_key])
-                    except KeyError as e:
+                        group = self.all_params[param_key]
+                    except (KeyError, TypeError) as e:
                         raise config.CaputConfigError(
                             f"Parameter group {param_key} not found in config."
                         ) from e
+                    if not isinstance(group, dict):
+                        raise config.CaputConfigError(
+                            f"Parameter group {param_key} is not a dictionary."
+                        )
+                    params.update(group)
 
         # add global params to params
         task_params = deepcopy(self.all_tasks_params)
-- 
2.43.0


From 4747a8335f6e96c34579dfd295f7d46403863bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:39 +0000
Subject: [PATCH 107/157] fix: give each task its own copy of the parameters

A task that modified its parameters changed those of any other task
using the same group, and the configuration to be saved.
---
 caput/pipeline/_pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 3066e4b..6610c37 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -639,7 +639,7 @@ class Manager(config.Reader):
 
         # add global params to params
         task_params = deepcopy(self.all_tasks_params)
-        task_params.update(params)
+        task_params.update(deepcopy(params))
 
         # Create and configure the task instance
         try:
-- 
2.43.0


From d58243c853839584150a82e1673041e6accd1847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:39 +0000
Subject: [PATCH 108/157] fix: validate the product keys of all tasks

Two tasks with an empty `out` were taken to produce the same key, and
keys which are not strings, or entries which are not tasks, raised
unrelated errors.
---
 caput/pipeline/_pipeline.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 6610c37..f009c8b 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -529,11 +529,12 @@ class Manager(config.Reader):
         """Make sure all in/requires values have corresponding out keys from another task."""
         all_out_values = []
         for t in self.task_specs:
-            if "out" in t:
-                if isinstance(t["out"], list | tuple):
-                    all_out_values.extend(t["out"])
-                else:
-                    all_out_values.append(t["out"])
+            if not isinstance(t, dict):
+                raise config.CaputConfigError(
+                    f"Found an entry of type `{type(t).__name__}` in the `tasks` "
+                    "list (expected a dict here)."
+                )
+            all_out_values.extend(_format_product_keys(t.get("out")))
 
         unique_out_values = set(all_out_values)
 
@@ -546,18 +547,11 @@ class Manager(config.Reader):
             )
 
         for task_spec in self.task_specs:
-            in_ = task_spec.get("in", None)
-            requires = task_spec.get("requires", None)
-
-            for key, value in (["in", in_], ["requires", requires]):
-                if value is None:
-                    continue
-                if not isinstance(value, list):
-                    value = [value]
-                for v in value:
+            for key in ("in", "requires"):
+                for v in _format_product_keys(task_spec.get(key)):
                     if v not in unique_out_values:
                         raise config.CaputConfigError(
-                            f"Value '{key}' for task {task_spec['type']} has no corresponding "
+                            f"Value '{key}' for task {task_spec.get('type')} has no corresponding "
                             f"`out` from another task (Value {v} is not in {unique_out_values})."
                         )
 
-- 
2.43.0


From 32046a0bc032494cce1fc31e90c3712ad9c91c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:39 +0000
Subject: [PATCH 109/157] fix: report modules without a version as a
 configuration error

---
 caput/pipeline/_pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index f009c8b..b36579f 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -68,7 +68,7 @@ def _get_versions(modules):
             )
         try:
             versions[module] = importlib.import_module(module).__version__
-        except ModuleNotFoundError as err:
+        except (ImportError, AttributeError) as err:
             raise config.CaputConfigError(
                 "Failure getting versions requested with config parameter "
                 "'save_versions'."
-- 
2.43.0


From 9cd35ce8ca4b5b9b936abb5d8f31f00754b7d237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:39 +0000
Subject: [PATCH 110/157] fix: find the packages of a virtual environment for
 python 3.10 and later

---
 caput/pipeline/runner/_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/pipeline/runner/_core.py b/caput/pipeline/runner/_core.py
index 88541d6..22f6268 100644
--- a/caput/pipeline/runner/_core.py
+++ b/caput/pipeline/runner/_core.py
@@ -182,7 +182,8 @@ def _load_venv(configfile: os.PathLike) -> None:
         logger.warning(f"Path defined in 'cluster'/'venv' doesn't exist ({base})")
         sys.exit(1)
 
-    site_packages = base / "lib" / f"python{sys.version[:3]}" / "site-packages"
+    pyver = f"python{sys.version_info[0]}.{sys.version_info[1]}"
+    site_packages = base / "lib" / pyver / "site-packages"
     prev_sys_path = list(sys.path)
 
     site.addsitedir(site_packages)
-- 
2.43.0


From 93115d3c0c10bbf0c2068135ffbebfd9c9343903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:00 +0000
Subject: [PATCH 111/157] fix: dispatch the setup arguments of grouped tasks

A member that does not define its own setup took an argument meant for
a later one.
---
 caput/pipeline/tasklib/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/pipeline/tasklib/base.py b/caput/pipeline/tasklib/base.py
index 9af355f..350165a 100644
--- a/caput/pipeline/tasklib/base.py
+++ b/caput/pipeline/tasklib/base.py
@@ -671,6 +671,10 @@ def group_tasks(*tasks):
             import inspect
 
             for t in tasks:
+                # The default `setup` takes an optional argument it does not use
+                if t.setup is Task.setup:
+                    continue
+
                 setup_argspec = inspect.getfullargspec(t.setup)
                 # Number of arguments excluding `self`
                 n_args = len(setup_argspec.args) - 1
-- 
2.43.0


From 07e0251831af477e16ccbdf69fbaa81cd93720b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:00 +0000
Subject: [PATCH 112/157] fix: stop processing in grouped tasks when there is
 no output

---
 caput/pipeline/tasklib/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/pipeline/tasklib/base.py b/caput/pipeline/tasklib/base.py
index 350165a..82e67de 100644
--- a/caput/pipeline/tasklib/base.py
+++ b/caput/pipeline/tasklib/base.py
@@ -693,6 +693,10 @@ def group_tasks(*tasks):
                 self.log.debug(f"Calling process for subtask {t!s}")
                 x = t.process(self, x)
 
+                # As in a pipeline, there is nothing left to process
+                if x is None:
+                    break
+
             return x
 
     return TaskGroup
-- 
2.43.0


From c800a6ea66571ce5b7e15e88af1adc430d013295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:00 +0000
Subject: [PATCH 113/157] fix: make the Delete and MakeCopy tasks do something

They are not container tasks, so their `process` was never called.
---
 caput/pipeline/tasklib/flow.py  | 4 ++--
 caput/pipeline/tasklib/flow.pyi | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/caput/pipeline/tasklib/flow.py b/caput/pipeline/tasklib/flow.py
index c0ea04d..3b15865 100644
--- a/caput/pipeline/tasklib/flow.py
+++ b/caput/pipeline/tasklib/flow.py
@@ -100,7 +100,7 @@ class GatherInputs(MPILoggedTask):
 class Delete(MPILoggedTask):
     """Delete pipeline products to free memory."""
 
-    def process(self, x):
+    def next(self, x):
         """Delete the input and collect garbage.
 
         Parameters
@@ -118,7 +118,7 @@ class Delete(MPILoggedTask):
 class MakeCopy(MPILoggedTask):
     """Make a copy of the passed object."""
 
-    def process(self, data):
+    def next(self, data):
         """Return a deep copy of the given object.
 
         Parameters
diff --git a/caput/pipeline/tasklib/flow.pyi b/caput/pipeline/tasklib/flow.pyi
index 6893819..5dbbde0 100644
--- a/caput/pipeline/tasklib/flow.pyi
+++ b/caput/pipeline/tasklib/flow.pyi
@@ -10,10 +10,10 @@ class AccumulateList(MPILoggedTask):
     def finish(self) -> Any | None: ...
 
 class Delete(MPILoggedTask):
-    def process(self, x: Any) -> None: ...
+    def next(self, x: Any) -> None: ...
 
 class MakeCopy(MPILoggedTask):
-    def process(self, data: Any) -> Any: ...
+    def next(self, data: Any) -> Any: ...
 
 class PassOn(MPILoggedTask):
     def next(self, input_: Any) -> Any: ...
-- 
2.43.0


From 0f28305d654ca0f2cfa0eecf80b1c90b55408511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:00 +0000
Subject: [PATCH 114/157] fix: tag outputs by count if the input has no tag

They were all tagged `None`, and so saved to the same file.
---
 caput/pipeline/tasklib/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/tasklib/base.py b/caput/pipeline/tasklib/base.py
index 82e67de..aa6cf93 100644
--- a/caput/pipeline/tasklib/base.py
+++ b/caput/pipeline/tasklib/base.py
@@ -350,7 +350,7 @@ class ContainerTask(MPILoggedTask, extensions.ContainerIOMixin):
 
         # Extract a list of the tags for all input arguments
         input_tags = [
-            (str(icont.attrs.get("tag")) if isinstance(icont, MemDiskGroup) else "")
+            (str(icont.attrs.get("tag", "")) if isinstance(icont, MemDiskGroup) else "")
             for icont in input
         ]
 
@@ -558,7 +558,7 @@ class ContainerTask(MPILoggedTask, extensions.ContainerIOMixin):
         idict = dict(output.attrs)
         if "tag" in output.attrs:
             tag = output.attrs["tag"]
-        elif "input_tags" in output.attrs and len(output.attrs["input_tags"]):
+        elif any(output.attrs.get("input_tags", [])[:1]):
             tag = output.attrs["input_tags"][0]
         else:
             tag = self._count
-- 
2.43.0


From 9a31962b4fdbf0700d0bdadc2b75c0a59ecb45f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:49 +0000
Subject: [PATCH 115/157] fix: do not give tasks a configuration which is not
 saved

The manager keeps None for it, as before, but tasks need a dictionary.
---
 caput/pipeline/_pipeline.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index b36579f..1c657fd 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -218,7 +218,7 @@ class Manager(config.Reader):
         self.all_params = yaml_params
         self.all_tasks_params = {
             "versions": self.versions,
-            "pipeline_config": self.all_params if self.save_config else {},
+            "pipeline_config": self.all_params if self.save_config else None,
         }
 
         self._setup_logging(lint)
@@ -631,8 +631,10 @@ class Manager(config.Reader):
                         )
                     params.update(group)
 
-        # add global params to params
-        task_params = deepcopy(self.all_tasks_params)
+        # add global params to params, apart from those which are not saved
+        task_params = {
+            k: deepcopy(v) for k, v in self.all_tasks_params.items() if v is not None
+        }
         task_params.update(deepcopy(params))
 
         # Create and configure the task instance
-- 
2.43.0


From 1ed78003e338b8eff46f5a067eaf3f456a98f9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:08 +0000
Subject: [PATCH 116/157] fix: keep files with special characters found by a
 pattern

The names found by a glob were expanded as patterns again, so that files
with brackets in their names were lost or replaced by others.
---
 caput/pipeline/tasklib/io.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 16a6995..61ca0c5 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -111,23 +111,26 @@ def list_or_glob(files):
             parsed_files = parsed_files + list_or_glob(f)
         return parsed_files
 
-    # If it's a glob we need to expand the glob and then call again
-    if isinstance(files, str) and any(c in files for c in "*?["):
-        return list_or_glob(sorted(glob.glob(files)))
-
-    # We presume a string is an actual path...
     if isinstance(files, str):
-        # Check that it exists and is a file (or dir if zarr format)
-        if files.endswith(".zarr"):
-            if not os.path.isdir(files):
-                raise config.CaputConfigError(
-                    f"Expected a zarr directory store, but directory not found: {files}"
-                )
+        # If it's a glob we need to expand the glob. The names found are actual paths,
+        # which may contain any character. Otherwise, we presume a string is a path...
+        if any(c in files for c in "*?["):
+            paths = sorted(glob.glob(files))
         else:
-            if not os.path.isfile(files):
-                raise config.CaputConfigError(f"File not found: {files!s}")
+            paths = [files]
+
+        # Check that each exists and is a file (or dir if zarr format)
+        for path in paths:
+            if path.endswith(".zarr"):
+                if not os.path.isdir(path):
+                    raise config.CaputConfigError(
+                        f"Expected a zarr directory store, but directory not found: {path}"
+                    )
+            else:
+                if not os.path.isfile(path):
+                    raise config.CaputConfigError(f"File not found: {path!s}")
 
-        return [files]
+        return paths
 
     raise config.CaputConfigError(
         f"Argument must be list, glob pattern, or file path, got {files!r}"
-- 
2.43.0


From e772c81eb175048718fc246cb6194286b0d26044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:08 +0000
Subject: [PATCH 117/157] fix: flatten lists of file lists

Lists within the list gave lists of lists (and changed the configuration),
patterns without an asterisk were refused, and files were in no order.
---
 caput/pipeline/tasklib/io.py | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 61ca0c5..75c39d2 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -65,23 +65,7 @@ def list_of_filelists(files):
     flattened_list : list[PathLike]
         The input file list. Any glob patterns will be flattened to file path string lists.
     """
-    import glob
-
-    f2 = []
-
-    for filelist in files:
-        if isinstance(filelist, str):
-            if "*" not in filelist and not os.path.isfile(filelist):
-                raise config.CaputConfigError(f"File not found: {filelist!s}")
-            filelist = glob.glob(filelist)
-        elif isinstance(filelist, list):
-            for i in range(len(filelist)):
-                filelist[i] = list_or_glob(filelist[i])
-        else:
-            raise config.CaputConfigError("Must be list or glob pattern.")
-        f2 = f2 + filelist
-
-    return f2
+    return list_or_glob(files)
 
 
 def list_or_glob(files):
-- 
2.43.0


From ffe520087206dc7fbdb82a66cdc07206fbe463fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:08 +0000
Subject: [PATCH 118/157] fix: expand all patterns in file groups

Patterns without an asterisk (like in the documentation) were refused, as
were zarr files, and files were in no order. The configuration is left as
it is.
---
 caput/pipeline/tasklib/io.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 75c39d2..3e6d269 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -141,14 +141,14 @@ def list_of_filegroups(groups):
     :py:exc:`~caput.config.CaputConfigError`
         If `groups` has the wrong format.
     """
-    import glob
-
     # Convert to list if the group was not included in a list
     if not isinstance(groups, list):
         groups = [groups]
 
     # Iterate over groups, set the tag if needed, and process the file list
     # through glob
+    new_groups = []
+
     for gi, group in enumerate(groups):
         try:
             files = group["files"]
@@ -159,22 +159,14 @@ def list_of_filegroups(groups):
                 f"Expected type dict in file groups (got {type(group)})."
             )
 
-        if "tag" not in group:
-            group["tag"] = f"group_{gi:d}"
-
-        flist = []
-
-        for fname in files:
-            if "*" not in fname and not os.path.isfile(fname):
-                raise config.CaputConfigError(f"File not found: {fname!s}")
-            flist += glob.glob(fname)
+        flist = list_or_glob(files)
 
         if not len(flist):
             raise config.CaputConfigError(f"No files in group exist ({files!s}).")
 
-        group["files"] = flist
+        new_groups.append({"tag": f"group_{gi:d}", **group, "files": flist})
 
-    return groups
+    return new_groups
 
 
 class FindFiles(MPILoggedTask):
-- 
2.43.0


From 6dabd453d7d77d1520a77da883acb7c04729ade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:11 +0000
Subject: [PATCH 119/157] fix: truncate with weights whose axes or precision
 differ from the data

The axes of the weights could be in another order than those of the data,
and weights of another precision were refused.
---
 caput/pipeline/tasklib/io.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 3e6d269..bbced66 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -730,10 +730,16 @@ class Truncate(ContainerTask):
             daxes = data.attrs.get("axis", [])
             # Add length-one axes
             slobj = tuple(slice(None) if ax in waxes else np.newaxis for ax in daxes)
-            weight = weight[:][slobj]
+            # The axes may be in a different order
+            order = sorted(
+                range(len(waxes)), key=lambda i: list(daxes).index(waxes[i])
+            )
+            weight = weight[:].view(np.ndarray).transpose(order)[slobj]
 
         # Broadcast `weight` against the shape of the truncation array
-        weight = np.broadcast_to(weight, data[:].shape).copy().reshape(-1)
+        weight = np.broadcast_to(weight, data[:].shape)
+        # The weights need the same precision as the data
+        weight = weight.astype(data[:].real.dtype).reshape(-1)
 
         if np.iscomplexobj(data):
             weight *= 2.0
-- 
2.43.0


From 9ede6273e502f99d00b06b7db24ee413f7de7fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:19 +0000
Subject: [PATCH 120/157] fix: make the Save task work

It could not be instantiated, and the containers have no to_hdf5 method.
---
 caput/pipeline/tasklib/io.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index bbced66..80e9c6b 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -577,7 +577,7 @@ class LoadFiles(LoadFilesFromParams):
 class Save(ContainerTask):
     """Save out the input, and pass it on.
 
-    Assumes that the input has a :py:meth:`to_hdf5` method. Appends a *tag* if there is
+    Assumes that the input has a :py:meth:`save` method. Appends a *tag* if there is
     a `tag` entry in the attributes, otherwise just appends a count.
 
     Attributes
@@ -590,15 +590,20 @@ class Save(ContainerTask):
 
     count = 0
 
-    def next(self, data):
+    def process(self, data):
         """Write out the data file.
 
-        Assumes it has a :py:class:`~caput.memdata.MemGroup` interface.
+        Assumes it has a :py:class:`~caput.memdata.MemDiskGroup` interface.
 
         Parameters
         ----------
-        data : MemGroup
+        data : MemDiskGroup
             Data to write out.
+
+        Returns
+        -------
+        data : MemDiskGroup
+            The same data.
         """
         if "tag" not in data.attrs:
             tag = self.count
@@ -608,7 +613,7 @@ class Save(ContainerTask):
 
         fname = f"{self.root}_{tag!s}.h5"
 
-        data.to_hdf5(fname)
+        data.save(fname)
 
         return data
 
-- 
2.43.0


From 29f734dfe36f24b1d0627f78d2e7b8f6d5dfe59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:31 +0000
Subject: [PATCH 121/157] fix: wait for no zipping jobs at all

---
 caput/pipeline/tasklib/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 80e9c6b..4bea038 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -1036,7 +1036,7 @@ class WaitZarrZip(MPILoggedTask):
 
     def finish(self):
         """Wait for all Zarr zipping jobs to complete."""
-        for h in self._handles:
+        for h in self._handles or []:
             self.log.debug(f"Waiting on job processing {h.filename}")
 
             if h.handle is not None:
-- 
2.43.0


From 2597a2d24321fe9e822a5bfdb5d842a6803f033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:56 +0000
Subject: [PATCH 122/157] fix: zip zarr files with special characters in their
 names

---
 caput/pipeline/tasklib/io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 4bea038..7ee7022 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -29,6 +29,7 @@ These are specified in the YAML file as a dictionary like below.
 from __future__ import annotations
 
 import os
+import shlex
 import shutil
 import subprocess
 from functools import partial
@@ -999,12 +1000,14 @@ class SaveZarrZip(ZipZarrContainers):
             # Run 7z to zip up the file
             dest_file = outfile + ".zip"
             src_dir = outfile + "/."
-            command = f"{self._path_7z} a -tzip -mx=0 {dest_file} {src_dir}"
+            command = shlex.join(
+                [self._path_7z, "a", "-tzip", "-mx=0", dest_file, src_dir]
+            )
 
             # If we are to remove the file get the background job to do it immediately
             # after zipping succeeds
             if self.remove:
-                command += f" && rm -r {outfile}"
+                command += f" && {shlex.join(['rm', '-r', outfile])}"
 
             bg_process = subprocess.Popen(
                 command, shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE
-- 
2.43.0


From f0fe8a3dc5df566fcbcfd0eeec449a8ae2b4f773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:59 +0000
Subject: [PATCH 123/157] fix: write groups from pipeline tasks

MemGroup was only imported for type checking, and a file in the working
directory could not be written.
---
 caput/pipeline/extensions/_extensions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/extensions/_extensions.py b/caput/pipeline/extensions/_extensions.py
index 047b938..1362c4d 100644
--- a/caput/pipeline/extensions/_extensions.py
+++ b/caput/pipeline/extensions/_extensions.py
@@ -132,7 +132,7 @@ class _OneAndOne(Task):
                 "%s writing data to file %s.", self.__class__.__name__, output_filename
             )
             output_dirname = os.path.dirname(output_filename)
-            if not os.path.isdir(output_dirname):
+            if output_dirname != "" and not os.path.isdir(output_dirname):
                 os.makedirs(output_dirname)
             self.write_output(
                 output_filename,
@@ -348,6 +348,8 @@ class GroupIOMixin:
         """
         import h5py
 
+        from ...memdata import MemGroup
+
         file_format = fileformats.check_file_format(filename, file_format, output)
 
         try:
@@ -358,7 +360,7 @@ class GroupIOMixin:
 
         # Ensure parent directory is present.
         dirname = os.path.dirname(filename)
-        if not os.path.isdir(dirname):
+        if dirname != "" and not os.path.isdir(dirname):
             try:
                 os.makedirs(dirname)
             except OSError as e:
-- 
2.43.0


From 062cb3518537fb9b68240070146f1725b9a09db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:36 +0000
Subject: [PATCH 124/157] fix: create groups from open files, as documented

---
 caput/memdata/_memh5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 946bed1..c70b967 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -433,7 +433,7 @@ class MemGroup(_BaseGroup):
         :py:exc:`RuntimeError`
             If the input group is not a supported type.
         """
-        if isinstance(group, MemGroup):
+        if is_group(group):
             self = cls()
             deep_group_copy(group, self)
             return self
@@ -444,7 +444,7 @@ class MemGroup(_BaseGroup):
 
         raise RuntimeError(
             f"Can't create an instance from type {type(group).__name__} "
-            f"(expected MemGroup, str or bytes)."
+            f"(expected a group, str or bytes)."
         )
 
     @classmethod
-- 
2.43.0


From a7beba629c6a3a59be3673bb7bffb4bfb6731402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:37 +0000
Subject: [PATCH 125/157] fix: write open groups to another file from pipeline
 tasks

---
 caput/pipeline/extensions/_extensions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/extensions/_extensions.py b/caput/pipeline/extensions/_extensions.py
index 1362c4d..8c81e17 100644
--- a/caput/pipeline/extensions/_extensions.py
+++ b/caput/pipeline/extensions/_extensions.py
@@ -387,7 +387,7 @@ class GroupIOMixin:
             else:
                 # Copy to memory then to disk
                 # XXX This can be made much more efficient using a direct copy.
-                out_copy = MemGroup.from_hdf5(output)
+                out_copy = MemGroup.from_group(output)
 
                 # Lock file as we write
                 with lock_file(filename, comm=out_copy.comm) as fn:
-- 
2.43.0


From ac7f8c792d545093bed74bdfc882e1c1cd1f2ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:47 +0000
Subject: [PATCH 126/157] fix: run templates from the command line

The arguments of run_pipeline were missing. Use the defaults of the run
command.
---
 caput/pipeline/runner/_cli.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/caput/pipeline/runner/_cli.py b/caput/pipeline/runner/_cli.py
index ecaeabe..8bdaa82 100644
--- a/caput/pipeline/runner/_cli.py
+++ b/caput/pipeline/runner/_cli.py
@@ -126,7 +126,14 @@ def template_run(templatefile, submit, var, overwrite, email=None, mailtype=None
     if submit:
         _scheduler.template_queue(templatefile, var, overwrite, email, mailtype)
     else:
-        _core.template_run(templatefile, var)
+        _core.template_run(
+            templatefile,
+            var,
+            profile=False,
+            profiler="cProfile",
+            mpi_abort=True,
+            psutil=False,
+        )
 
 
 @cli.command()
-- 
2.43.0


From 95a43d7e4b4c90b51a4f3a3f2c06409bea086ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:47 +0000
Subject: [PATCH 127/157] fix: report unknown queue systems

---
 caput/pipeline/runner/_scheduler/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index 083f55e..f73bf6d 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -305,7 +305,7 @@ def _resolve_system_config(conf: dict) -> dict:
             )
         else:
             raise ValueError(
-                f"Specified system `{system}`: is not known. "
+                f"Specified system `{sysname}`: is not known. "
                 f"Known systems are: {list(REGISTERED_SYSTEMS.keys())} "
                 f"and known clusters are: {list(REGISTERED_CLUSTERS.keys())}"
             )
-- 
2.43.0


From c93de4754158070cf758718c865fcd8b67cac76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:47 +0000
Subject: [PATCH 128/157] fix: make the script for PBS work

A variable had the wrong name, the number of processes and threads are
needed as well, and the profiling options were ignored.
---
 caput/pipeline/runner/_scheduler/_default_systems.toml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/_default_systems.toml b/caput/pipeline/runner/_scheduler/_default_systems.toml
index 7c98664..b08ae6d 100644
--- a/caput/pipeline/runner/_scheduler/_default_systems.toml
+++ b/caput/pipeline/runner/_scheduler/_default_systems.toml
@@ -58,7 +58,7 @@ options = "--mail-user={email} --mail-type={mailtype}"
 command = "qsub"
 invoke = "mpirun"
 invoke_args = "-np {mpiproc:d} -npernode {pernode:d} -bind-to none"
-required = ["name", "nodes", "time", "directory", "ppn", "queue"]
+required = ["name", "nodes", "time", "directory", "ompnum", "pernode", "ppn", "queue"]
 script = """#!/bin/bash
 #PBS -l nodes={nodes:d}:ppn={ppn:d}
 #PBS -q {queue:s}
@@ -78,14 +78,14 @@ function setCrashed {{
 
 trap setCrashed ERR
 
-{module:s}
+{modules:s}
 
 source {venv:s}
 
 cd {workdir:s}
 export OMP_NUM_THREADS={ompnum:d}
 
-{invoke:s} {invoke_args:s} caput-pipeline run {configpath:s} &> {logpath:s}
+{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} {configpath:s} &> {logpath:s}
 
 # Set the status
 echo FINISHED > {statuspath:s}
-- 
2.43.0


From 4f182222f7fbcf474bd6734e2b29b13106170148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:47 +0000
Subject: [PATCH 129/157] fix: use the default launcher arguments of the queue
 system

---
 caput/pipeline/runner/_scheduler/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index f73bf6d..e2b05be 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -434,9 +434,9 @@ def _resolve_job_script(conf: dict, directories: dict) -> str:
         conf["invoke"] = REGISTERED_SYSTEMS[system].get("invoke", "mpirun")
 
     if "invoke_args" not in conf:
-        # Nothing here, but still need an empty string to
+        # If there is nothing here, still need an empty string to
         # satisfy the script template
-        conf["invoke_args"] = ""
+        conf["invoke_args"] = REGISTERED_SYSTEMS[system].get("invoke_args", "")
 
     # Path does not support type specifiers, so convert all `Path`
     # objects to strings
-- 
2.43.0


From e3a219049aadd83c0924603cd6b4c22ccf40178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:47 +0000
Subject: [PATCH 130/157] fix: use the name of a profiler as the default

The run command does not accept the previous default.
---
 caput/pipeline/runner/_cli.py                | 2 +-
 caput/pipeline/runner/_scheduler/__init__.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/runner/_cli.py b/caput/pipeline/runner/_cli.py
index 8bdaa82..6bdb5a4 100644
--- a/caput/pipeline/runner/_cli.py
+++ b/caput/pipeline/runner/_cli.py
@@ -200,7 +200,7 @@ def queue(
     submit=False,
     lint=True,
     profile=False,
-    profiler="cProfiler",
+    profiler="cProfile",
     psutil=False,
     overwrite="never",
     email=None,
diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index e2b05be..c7f0bf9 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -112,7 +112,7 @@ def queue(
     submit: bool = False,
     lint: bool = True,
     profile: bool = False,
-    profiler: str | None = "cProfiler",
+    profiler: str | None = "cProfile",
     psutil: bool = False,
     overwrite: Literal["never", "failed"] = "never",
     email: str | None = None,
-- 
2.43.0


From 0bd0cd94b63508d2f8c6d653f1dd3f972d55c08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:06 +0000
Subject: [PATCH 131/157] fix: do not leave a job directory behind for a
 refused job

The remains of it prevented the corrected job from being queued.
---
 caput/pipeline/runner/_scheduler/__init__.py | 34 ++++++++++----------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index c7f0bf9..a21b375 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -219,19 +219,12 @@ def queue(
     system = resolved_config["system"]
     system_config = REGISTERED_SYSTEMS[system]
 
-    directories = _create_job_directories(resolved_config, overwrite)
+    directories = _resolve_job_directories(resolved_config, overwrite)
 
     if not directories:
         # The job already exists and we are not overwriting
         return
 
-    # Copy the config file to the job directory
-    sfile = _fix_path(configfile)
-    dfile = _fix_path(directories["jobdir"] / "config.yaml")
-
-    if sfile != dfile:
-        shutil.copyfile(sfile, dfile)
-
     # Forward profiler configuration
     resolved_config["profile"] = "--profile" if profile else ""
     resolved_config["profiler"] = f"--profiler={profiler}" if profile else ""
@@ -240,10 +233,6 @@ def queue(
     # Resolve the cluster job script based on the configuration
     jobscript = _resolve_job_script(resolved_config, directories)
 
-    # Write the job script to the job directory
-    with open(directories["jobdir"] / "jobscript.sh", "w") as f:
-        f.write(jobscript)
-
     # Resolve mail options, if available for the queue system
     extra_options = []
 
@@ -266,6 +255,19 @@ def queue(
                 mail_config["options"].format(email=email, mailtype=mailtype).split()
             )
 
+    # Everything is valid, so copy the config file to the job directory
+    directories["jobdir"].mkdir(parents=True, exist_ok=True)
+
+    sfile = _fix_path(configfile)
+    dfile = _fix_path(directories["jobdir"] / "config.yaml")
+
+    if sfile != dfile:
+        shutil.copyfile(sfile, dfile)
+
+    # Write the job script to the job directory
+    with open(directories["jobdir"] / "jobscript.sh", "w") as f:
+        f.write(jobscript)
+
     if submit:
         # NOTE: explicitly set the environment to what Python thinks it should
         # be. This is because mpi4py will incorrectly modify the environment
@@ -324,8 +326,8 @@ def _resolve_system_config(conf: dict) -> dict:
     return cluster_conf
 
 
-def _create_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | None:
-    """Create job directories based on a configuration dictionary."""
+def _resolve_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | None:
+    """Resolve job directories based on a configuration dictionary."""
     directories = {}
 
     # If no temporary directory set, just use the final directory
@@ -344,7 +346,7 @@ def _create_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | Non
     if not finaldir.is_absolute():
         raise ValueError(f"Final output directory path {finaldir} must be absolute")
 
-    # Create temporary directory if required
+    # Check whether the job exists already
     jobdir = workdir / "job/"
     statusfile = jobdir / "STATUS"
 
@@ -361,8 +363,6 @@ def _create_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | Non
                         f"Successful job already exists at {workdir}. Skipping."
                     )
                     return None
-    else:
-        jobdir.mkdir(parents=True)
 
     directories["jobdir"] = jobdir
     directories["workdir"] = workdir
-- 
2.43.0


From c7f7fe7325a3cfe76dfc2bb478193af018371ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:23 +0000
Subject: [PATCH 132/157] fix: quote the paths in job scripts

---
 .../runner/_scheduler/_default_systems.toml   | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/_default_systems.toml b/caput/pipeline/runner/_scheduler/_default_systems.toml
index b08ae6d..f42bc62 100644
--- a/caput/pipeline/runner/_scheduler/_default_systems.toml
+++ b/caput/pipeline/runner/_scheduler/_default_systems.toml
@@ -17,18 +17,18 @@ set -e
 
 # set status to crashed upon non-zero status of command
 function setCrashed {{
-    echo CRASHED > {statuspath:s}
+    echo CRASHED > \"{statuspath:s}\"
 }}
 
 trap setCrashed ERR
 
-echo RUNNING > {statuspath:s}
+echo RUNNING > \"{statuspath:s}\"
 
 {modules:s}
 
-source {venv:s}
+source \"{venv:s}\"
 
-cd {workdir:s}
+cd \"{workdir:s}\"
 export OMP_NUM_THREADS=$SLURM_CPUS_PER_TASK
 
 # Try to keep threads together - this is usually more optimal
@@ -36,15 +36,15 @@ export OMP_NUM_THREADS=$SLURM_CPUS_PER_TASK
 export OMP_PROC_BIND=close
 export OMP_PLACES=cores
 
-{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} {configpath:s} &> {logpath:s}
+{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} \"{configpath:s}\" &> \"{logpath:s}\"
 
 # Set the status
-echo FINISHED > {statuspath:s}
+echo FINISHED > \"{statuspath:s}\"
 
 # If the job was successful, then move the output to its final location
 if [ {usetemp:d} -eq 1 ]
 then
-    mkdir -p $(dirname \"{finaldir:s}\")
+    mkdir -p \"$(dirname \"{finaldir:s}\")\"
     mv \"{workdir:s}\" \"{finaldir:s}\"
 fi
 """
@@ -73,27 +73,27 @@ set -e
 
 # set status to crashed upon non-zero status of command
 function setCrashed {{
-    echo CRASHED > {statuspath:s}
+    echo CRASHED > \"{statuspath:s}\"
 }}
 
 trap setCrashed ERR
 
 {modules:s}
 
-source {venv:s}
+source \"{venv:s}\"
 
-cd {workdir:s}
+cd \"{workdir:s}\"
 export OMP_NUM_THREADS={ompnum:d}
 
-{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} {configpath:s} &> {logpath:s}
+{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} \"{configpath:s}\" &> \"{logpath:s}\"
 
 # Set the status
-echo FINISHED > {statuspath:s}
+echo FINISHED > \"{statuspath:s}\"
 
 # If the job was successful, then move the output to its final location
 if [ {usetemp:d} -eq 1 ]
 then
-    mkdir -p $(dirname \"{finaldir:s}\")
+    mkdir -p \"$(dirname \"{finaldir:s}\")\"
     mv \"{workdir:s}\" \"{finaldir:s}\"
 fi
 """
-- 
2.43.0


From d35628c5f3cff424d944ce501d931cd92399fcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:05 +0000
Subject: [PATCH 133/157] fix: find jobs which were moved to their final
 directory

A job using a temporary directory was queued again when it had finished,
whatever the overwrite option.
---
 caput/pipeline/runner/_scheduler/__init__.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index a21b375..e9ff016 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -346,13 +346,18 @@ def _resolve_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | No
     if not finaldir.is_absolute():
         raise ValueError(f"Final output directory path {finaldir} must be absolute")
 
-    # Check whether the job exists already
     jobdir = workdir / "job/"
-    statusfile = jobdir / "STATUS"
 
-    if jobdir.exists():
+    # Check whether the job exists already. If it was successful it will have been
+    # moved to the output directory.
+    for existing in (workdir, finaldir):
+        statusfile = existing / "job" / "STATUS"
+
+        if not (existing / "job").exists():
+            continue
+
         if overwrite == "never":
-            logger.info(f"Job already exists at {workdir}. Skipping.")
+            logger.info(f"Job already exists at {existing}. Skipping.")
             return None
 
         if overwrite == "failed" and statusfile.exists():
@@ -360,7 +365,7 @@ def _resolve_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | No
                 contents = fh.read()
                 if "FINISHED" in contents:
                     logger.info(
-                        f"Successful job already exists at {workdir}. Skipping."
+                        f"Successful job already exists at {existing}. Skipping."
                     )
                     return None
 
-- 
2.43.0


From ded57daa1aee57dcb36ed17bdd6f770f052a7823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:20 +0000
Subject: [PATCH 134/157] fix: accept no times in time_of_day

---
 caput/astro/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/astro/time.py b/caput/astro/time.py
index 1764c69..3c9138a 100644
--- a/caput/astro/time.py
+++ b/caput/astro/time.py
@@ -358,7 +358,7 @@ def naive_datetime_to_utc(dt):
     return dt
 
 
-@arraytools.vectorize()
+@arraytools.vectorize(otypes=[np.float64])
 def time_of_day(time):
     """Return the time since the start of the UTC day in seconds.
 
-- 
2.43.0


From 0c8427acd9ffd2b57a6215de7cb80e85792ba4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:20 +0000
Subject: [PATCH 135/157] fix: give the time string of a date in UTC, whatever
 its time zone

---
 caput/astro/time.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/caput/astro/time.py b/caput/astro/time.py
index 3c9138a..8d1b7c2 100644
--- a/caput/astro/time.py
+++ b/caput/astro/time.py
@@ -228,6 +228,9 @@ def datetime_to_timestr(dt):
     --------
     :py:func:`timestr_to_datetime`
     """
+    if dt.tzinfo is not None:
+        dt = dt.astimezone(timezone.utc)
+
     return dt.strftime("%Y%m%dT%H%M%SZ")
 
 
-- 
2.43.0


From 5441225778a2546f5445efc9bb17330bf9f408bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:38 +0000
Subject: [PATCH 136/157] fix: treat arrays without dimensions as scalars

---
 caput/util/arraytools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/util/arraytools.py b/caput/util/arraytools.py
index e048953..3f4a646 100644
--- a/caput/util/arraytools.py
+++ b/caput/util/arraytools.py
@@ -266,7 +266,8 @@ def scalarize(dtype: npt.DTypeLike = np.float64) -> Callable:
                     x = x.ts.tt_jd(np.array([x.tt]))
 
             elif isinstance(x, np.ndarray):
-                scalar = False
+                scalar = x.ndim == 0
+                x = np.atleast_1d(x)
 
             elif isinstance(x, list | tuple):
                 x = np.array(x)
-- 
2.43.0


From 5022625f73b23706a16decf10bf840cf469b0494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:38 +0000
Subject: [PATCH 137/157] fix: convert lists of Skyfield times and nested lists
 of dates

---
 caput/astro/time.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/caput/astro/time.py b/caput/astro/time.py
index 8d1b7c2..4b8ee64 100644
--- a/caput/astro/time.py
+++ b/caput/astro/time.py
@@ -310,17 +310,23 @@ def ensure_unix(time):
     unix_time : array_like
         Output time(s).
     """
-    if isinstance(time[0], datetime):
+    if isinstance(time, timelib.Time):
+        return datetime_to_unix(time.utc_datetime())
+
+    if time.size == 0 or np.issubdtype(time.dtype, np.number):
+        return time.astype(np.float64)
+
+    first = time.flat[0]
+
+    if isinstance(first, datetime):
         return datetime_to_unix(time)
 
-    if isinstance(time[0], str):
+    if isinstance(first, str):
         return datetime_to_unix(timestr_to_datetime(time))
 
-    if isinstance(time[0], timelib.Time):
-        return datetime_to_unix(time.utc_datetime())
-
-    if isinstance(time, np.ndarray) and np.issubdtype(time.dtype, np.number):
-        return time.astype(np.float64)
+    if isinstance(first, timelib.Time):
+        dt = np.array([t.utc_datetime() for t in time.flat], dtype=object)
+        return datetime_to_unix(dt.reshape(time.shape))
 
     raise TypeError(f"Could not convert {type(time)!r} into a UNIX time")
 
-- 
2.43.0


From 6e5e3106aed2859a0c71326c11ff7fb42cefa3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:44 +0000
Subject: [PATCH 138/157] fix: convert single precision times in double
 precision

---
 caput/astro/skyfield.py | 3 ++-
 caput/astro/time.py     | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/caput/astro/skyfield.py b/caput/astro/skyfield.py
index 19981ef..59619cb 100644
--- a/caput/astro/skyfield.py
+++ b/caput/astro/skyfield.py
@@ -15,6 +15,7 @@ from __future__ import annotations
 
 import warnings
 
+import numpy as np
 from skyfield import timelib
 from skyfield.starlib import Star
 from skyfield.units import Angle
@@ -215,7 +216,7 @@ def unix_to_skyfield_time(unix_time):
     """
     ts = skyfield_wrapper.timescale
 
-    days, seconds = divmod(unix_time, 24 * 3600.0)
+    days, seconds = divmod(unix_time.astype(np.float64), 24 * 3600.0)
 
     # Construct Julian day and convert to calendar day
     year, month, day = timelib.calendar_date(2440588 + days)
diff --git a/caput/astro/time.py b/caput/astro/time.py
index 4b8ee64..b49201f 100644
--- a/caput/astro/time.py
+++ b/caput/astro/time.py
@@ -174,7 +174,7 @@ def unix_to_datetime(unix_time):
     --------
     :py:func:`datetime_to_unix`
     """
-    dt = datetime.fromtimestamp(unix_time, timezone.utc)
+    dt = datetime.fromtimestamp(float(unix_time), timezone.utc)
 
     return naive_datetime_to_utc(dt)
 
-- 
2.43.0


From 6f260072378fe8ac71a464dcc3838b124fa0d962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:35 +0000
Subject: [PATCH 139/157] fix: observe from the current location of an observer

---
 caput/astro/observer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/caput/astro/observer.py b/caput/astro/observer.py
index 091ea6b..f9ea941 100644
--- a/caput/astro/observer.py
+++ b/caput/astro/observer.py
@@ -106,6 +106,7 @@ class Observer:
             self.lsd_start_day = lsd_start
 
     _obs = None
+    _obs_location = None
 
     def get_current_lsd(self):
         """Get the current LSD."""
@@ -125,12 +126,16 @@ class Observer:
 
         earth = self.skyfield.ephemeris["earth"]
 
-        if self._obs is None:
+        # Only reuse the object for as long as the location stays the same
+        location = (self.latitude, self.longitude, self.altitude)
+
+        if self._obs is None or self._obs_location != location:
             self._obs = earth + Topos(
                 latitude_degrees=self.latitude,
                 longitude_degrees=self.longitude,
                 elevation_m=self.altitude,
             )
+            self._obs_location = location
 
         return self._obs
 
-- 
2.43.0


From 7231d4f3a19286d09cccbc4f5b4d9ad4735dcd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:20 +0000
Subject: [PATCH 140/157] fix: search for events in steps which are not longer
 than asked for

---
 caput/astro/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/astro/observer.py b/caput/astro/observer.py
index f9ea941..04015e7 100644
--- a/caput/astro/observer.py
+++ b/caput/astro/observer.py
@@ -929,7 +929,7 @@ def _solve_all(
         If the gradient at the root is positive.
     """
     # Form a grid of points to find intervals to search over
-    x_init = np.linspace(x0, x1, int(np.ceil((x1 - x0) / dx)), endpoint=True)
+    x_init = np.linspace(x0, x1, int(np.ceil((x1 - x0) / dx)) + 1, endpoint=True)
     f_init = f(x_init)
 
     roots = []
-- 
2.43.0


From 81dc9a0c3c6550c78a77ebed135c1663284a5580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:20 +0000
Subject: [PATCH 141/157] fix: find transits with any step less than their
 spacing

---
 caput/astro/observer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/astro/observer.py b/caput/astro/observer.py
index 04015e7..c85d057 100644
--- a/caput/astro/observer.py
+++ b/caput/astro/observer.py
@@ -372,6 +372,10 @@ class Observer:
         # Convert interval to Julian Days and choose the initial search step if not set
         t0jd, t1jd, step = _fixup_interval_and_step(t0, t1, step)
 
+        # The hour angle wraps around half way between the transits, which has to end up
+        # in another search interval
+        step = min(step, 0.4)
+
         # Compute transits
         transits, _ = _solve_all(f, t0jd, t1jd, step, skip_decreasing=True, xtol=1e-8)
 
-- 
2.43.0


From 0550d347bf050621f649d24a3fd100c57b079655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:11 +0000
Subject: [PATCH 142/157] fix: keep type and shape of in-memory datasets
 converted to arrays

---
 caput/memdata/_memh5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index c70b967..34c8e28 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -1354,6 +1354,10 @@ class MemDatasetCommon(MemDataset):
         # np.array(dset)
         return self._data.__iter__()
 
+    def __array__(self, dtype=None, copy=None):
+        # Keep the type and the shape, including those of empty and scalar datasets
+        return np.array(self._data, dtype=dtype, copy=copy)
+
     def __repr__(self):
         return f'<memh5 common dataset {self._name!r}: shape {self.shape!r}, type "{self.dtype!r}">'
 
-- 
2.43.0


From 61ffac8fbbede06ba6725844e0052873c67e1187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:26 +0000
Subject: [PATCH 143/157] fix: use the canonical path of groups created in
 containers

---
 caput/memdata/_memh5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 34c8e28..2be6468 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2059,7 +2059,7 @@ class MemDiskGroup(_BaseGroup):
         method of the underlying storage, whether it be an :py:class:`h5py.Group` or a
         :py:class:`.MemGroup`.
         """
-        path = posixpath.join(self.name, name)
+        path = format_abs_path(posixpath.join(self.name, name))
         if not self.dataset_name_allowed(path):
             msg = f"Dataset name {path} not allowed."
             raise ValueError(msg)
@@ -2136,7 +2136,7 @@ class MemDiskGroup(_BaseGroup):
         :py:exc:`ValueError`
             If the group name is not allowed.
         """
-        path = posixpath.join(self.name, name)
+        path = format_abs_path(posixpath.join(self.name, name))
 
         if not self.group_name_allowed(path):
             raise ValueError(f"Group name {path} not allowed.")
-- 
2.43.0


From f3cb1fa5c2d0f65c6890ee32698a5ba787170ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:53 +0000
Subject: [PATCH 144/157] fix: let datasets of containers refer to their actual
 storage

---
 caput/memdata/_memh5.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 2be6468..cf44d02 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -293,7 +293,11 @@ class _BaseGroup(_MemObjMixin, Mapping):
         if isinstance(out, MemDataset):
             # Create back references for user facing mem datasets.
             out = out.view()
-            out._storage_root = self._storage_root
+            # ... to the actual storage, also if this wraps another group
+            storage_root = self._storage_root
+            while isinstance(storage_root, _BaseGroup):
+                storage_root = storage_root._storage_root
+            out._storage_root = storage_root
             return out
 
         # H5py dataset.
-- 
2.43.0


From 6cb0f4fb3ac412bf0aa4fcc986f36e974a218c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:35 +0000
Subject: [PATCH 145/157] fix: write the distributed datasets of a branch of a
 tree

---
 caput/memdata/_memh5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index cf44d02..02ff971 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2891,7 +2891,8 @@ def _distributed_group_to_file(
 
             data.to_file(
                 dest,
-                name,
+                # The name in the file, if this is only a branch of the tree
+                "/" + posixpath.relpath(name, group.name),
                 chunks=dset.chunks,
                 compression=dset.compression,
                 compression_opts=dset.compression_opts,
-- 
2.43.0


From f0f56fb39c82f9e8f5cad5ade882ee552595b93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:35 +0000
Subject: [PATCH 146/157] fix: write distributed files without hints

---
 caput/memdata/_memh5.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 02ff971..8fa98b1 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -680,6 +680,7 @@ class MemGroup(_BaseGroup):
                 self,
                 filename,
                 mode,
+                hints=hints,
                 convert_attribute_strings=convert_attribute_strings,
                 convert_dataset_strings=convert_dataset_strings,
                 file_format=file_format,
-- 
2.43.0


From 46881bb83829f3e4ce5d4a869b55ad3703397c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:54 +0000
Subject: [PATCH 147/157] fix: close and flush all containers on disk

---
 caput/memdata/_memh5.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 8fa98b1..390ebba 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -1691,8 +1691,6 @@ class MemDiskGroup(_BaseGroup):
             data_group, toclose = get_file(
                 data_group, mode="a", file_format=file_format
             )
-            # Zarr arrays are automatically flushed and closed
-            toclose = False if file_format == fileformats.HDF5 else toclose
 
         # Check the distribution settings
         if distributed:
@@ -1791,7 +1789,11 @@ class MemDiskGroup(_BaseGroup):
     def close(self):
         """Closes file if on disk if file was opened on initialization."""
         if self.ondisk and hasattr(self, "_toclose") and self._toclose:
-            self._storage_root.close()
+            if isinstance(self._storage_root, h5py.File):
+                self._storage_root.close()
+            else:
+                # It is the storage of a zarr group which may need to be closed
+                self._storage_root.store.close()
 
         if hasattr(self, "_lockfile") and (self.comm is None or self.comm.rank is None):
             fileformats.remove_file_or_dir(self._lockfile)
@@ -1832,7 +1834,7 @@ class MemDiskGroup(_BaseGroup):
     def ondisk(self):
         """Whether the data is stored on disk as opposed to in memory."""
         return hasattr(self, "_storage_root") and (
-            isinstance(self._storage_root, h5py.File)
+            isinstance(self._storage_root, h5py.Group)
             or (zarr_available and isinstance(self._storage_root, zarr.Group))
         )
 
@@ -1991,7 +1993,7 @@ class MemDiskGroup(_BaseGroup):
                 # case it's been passed indirectly
                 kwargs.pop("hints", None)
                 data = file_format.open(file_, **kwargs)
-                toclose = file_format == fileformats.HDF5
+                toclose = True
 
         # Here we explicitly avoid calling __init__ on any derived class. Like
         # with a pickle we want to restore the saved state only.
@@ -2196,9 +2198,12 @@ class MemDiskGroup(_BaseGroup):
         )
 
     def flush(self):
-        """Flush the buffers of the underlying hdf5 file if on disk."""
+        """Flush the buffers of the underlying file if on disk."""
         if self.ondisk:
-            self._data.flush()
+            if isinstance(self._data, h5py.Group):
+                self._data.file.flush()
+            elif hasattr(self._data.store, "flush"):
+                self._data.store.flush()
 
     def copy(self, shared=[], shallow=False):
         """Return a deep copy of this class or subclass.
-- 
2.43.0


From 1e0b7db20ad95fe75b28a52d128b0edd4d7fcfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:07 +0000
Subject: [PATCH 148/157] fix: do not load read-only datasets from zarr files
 in distributed mode

---
 caput/memdata/_memh5.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 390ebba..5ab26a0 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -3030,6 +3030,8 @@ def _distributed_group_from_file(
 
                         # only needed until fixed: https://github.com/mpi4py/mpi4py/issues/177
                         cdata = typeutils.ensure_native_byteorder(cdata)
+                        # Zarr may return arrays that can't be written to
+                        cdata = np.require(cdata, requirements="W")
 
                     cdata = comm.bcast(cdata, root=0)
 
-- 
2.43.0


From f7a7351a28e3286afa65120c267359ca5fbe934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:22 +0000
Subject: [PATCH 149/157] fix: check scalar datasets for NaNs in container
 tasks

---
 caput/pipeline/tasklib/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/tasklib/base.py b/caput/pipeline/tasklib/base.py
index aa6cf93..8a49417 100644
--- a/caput/pipeline/tasklib/base.py
+++ b/caput/pipeline/tasklib/base.py
@@ -597,7 +597,7 @@ class ContainerTask(MPILoggedTask, extensions.ContainerIOMixin):
             if isinstance(n, MemDataset):
                 # Try to test for NaN's and infs. This will fail for compound datatypes...
                 # casting to ndarray, bc MPI ranks may fall out of sync, if a nan or inf are found
-                arr = n[:].view(np.ndarray)
+                arr = (n[:] if n.shape else n[...]).view(np.ndarray)
                 try:
                     all_finite = np.isfinite(arr).all()
                 except TypeError:
-- 
2.43.0


From 8a45e2ff0dae652e14139dd81e998822ac613d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:51 +0000
Subject: [PATCH 150/157] fix: cast all inputs of tasks reading or writing
 files

---
 caput/pipeline/extensions/_extensions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/extensions/_extensions.py b/caput/pipeline/extensions/_extensions.py
index 8c81e17..5ab05f1 100644
--- a/caput/pipeline/extensions/_extensions.py
+++ b/caput/pipeline/extensions/_extensions.py
@@ -216,7 +216,7 @@ class SingleBase(_OneAndOne):
         except AttributeError:
             self.done = True
 
-        if input:
+        if input is not None:
             input = self.cast_input(input)
         return self.read_process_write(input, self.input_filename, self.output_filename)
 
@@ -288,7 +288,7 @@ class IterBase(_OneAndOne):
             input_filename = middle + self.input_ext
             output_filename = middle + self.output_ext
 
-        if input:
+        if input is not None:
             input = self.cast_input(input)
         output = self.read_process_write(input, input_filename, output_filename)
         self.iteration += 1
-- 
2.43.0


From 795f80bf26fdf616cb03111b809376d45f610b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:51 +0000
Subject: [PATCH 151/157] fix: copy zarr groups from several processes

---
 caput/pipeline/extensions/_extensions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/caput/pipeline/extensions/_extensions.py b/caput/pipeline/extensions/_extensions.py
index 5ab05f1..bafbc95 100644
--- a/caput/pipeline/extensions/_extensions.py
+++ b/caput/pipeline/extensions/_extensions.py
@@ -408,9 +408,11 @@ class GroupIOMixin:
                         zarr.DirectoryStore(filename),
                         source_path=output.path,
                     )
-                logger.debug(
-                    f"Copied {n_copied} items ({n_bytes_copied} bytes), skipped {n_skipped} items."
-                )
+                    logger.debug(
+                        f"Copied {n_copied} items ({n_bytes_copied} bytes), skipped {n_skipped} items."
+                    )
+                # Wait until the copy is there for everyone
+                mpitools.barrier()
 
 
 class ContainerIOMixin:
-- 
2.43.0


From 9bcec6ed76f513817b04e41323f7d3b084b3f659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:51 +0000
Subject: [PATCH 152/157] fix: accept log levels of tasks in any case

---
 caput/pipeline/tasklib/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/tasklib/base.py b/caput/pipeline/tasklib/base.py
index 8a49417..2ccab24 100644
--- a/caput/pipeline/tasklib/base.py
+++ b/caput/pipeline/tasklib/base.py
@@ -58,7 +58,7 @@ def _log_level(x):
     if isinstance(x, int):
         return x
 
-    if isinstance(x, str) and x in level_dict:
+    if isinstance(x, str) and x.upper() in level_dict:
         return level_dict[x.upper()]
 
     raise ValueError(f"Logging level {x!r} not understood")
-- 
2.43.0


From 22d6e0eea06f42ef40eb64d90e43383e04a78c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:14 +0000
Subject: [PATCH 153/157] fix: use the default log level when linting

---
 caput/pipeline/_pipeline.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 1c657fd..c00d299 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -239,13 +239,15 @@ class Manager(config.Reader):
             be provided as a string matching a :py:mod:`logging`
             alias for an integer log level. Default is "INFO".
         """
-        if lint or ("root" not in self.logging):
+        levels = self.logging
+
+        if lint or ("root" not in levels):
             # Default to INFO level logging
-            self.logging["root"] = "INFO"
+            levels["root"] = "INFO"
 
         lvldefault = getattr(logging, default)
 
-        for module, level in self.logging.items():
+        for module, level in levels.items():
             loglvl = getattr(logging, level, lvldefault)
             # Set the log level for each module
             logging.getLogger(module).setLevel(loglvl)
-- 
2.43.0


From 513ac44b2bdb9b072b6682f358d4ba5fef683c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:11 +0000
Subject: [PATCH 154/157] fix: use the file format asked for if the file name
 does not tell it

---
 caput/memdata/fileformats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/memdata/fileformats.py b/caput/memdata/fileformats.py
index 93efefa..db581d0 100644
--- a/caput/memdata/fileformats.py
+++ b/caput/memdata/fileformats.py
@@ -508,7 +508,7 @@ def check_file_format(filename, file_format, data):
 
     if file_format is None:
         file_format = file_format_guess
-    elif file_format != file_format_guess:
+    elif file_format_guess is not None and file_format != file_format_guess:
         raise ValueError(
             f"Value of <file_format> ({file_format}) doesn't match <filename> ({filename}) "
             f"and type of data ({type(data).__name__})."
-- 
2.43.0


From 1aabfe87dd1cedd14be8217e4a02e52c1451f89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:35 +0000
Subject: [PATCH 155/157] fix: divide the processors of a node between its
 processes

---
 caput/util/mpitools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index d4a03d8..7278ce3 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -165,7 +165,7 @@ def cpu_count(
             scomm = comm.Split_type(MPI.COMM_TYPE_SHARED)
 
     try:
-        nproc_per_node = comm.size // scomm.size
+        nproc_per_node = scomm.size
     except AttributeError:
         # This would happend if the default comm is None
         nproc_per_node = 1
@@ -173,7 +173,7 @@ def cpu_count(
     cpu_count = os.cpu_count()
 
     if cpu_count is not None:
-        cpu_count = int(cpu_count // nproc_per_node)
+        cpu_count = max(int(cpu_count // nproc_per_node), 1)
 
     return cpu_count
 
-- 
2.43.0


From c4f5fc281a603591bc6dbec9cf051f6ca42fbaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:28 +0000
Subject: [PATCH 156/157] fix: write profiles under the given path

---
 caput/util/profiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/util/profiler.py b/caput/util/profiler.py
index c87e70c..1e46faf 100644
--- a/caput/util/profiler.py
+++ b/caput/util/profiler.py
@@ -92,11 +92,11 @@ class Profiler:
 
         if self.profiler == "cprofile":
             self._pr.disable()
-            self._pr.dump_stats(f"profile_{rank:0{rank_length}}.prof")
+            self._pr.dump_stats(self.path / f"profile_{rank:0{rank_length}}.prof")
 
         elif self.profiler == "pyinstrument":
             self._pr.stop()
-            with open(f"profile_{rank:0{rank_length}}.txt", "w") as fh:
+            with open(self.path / f"profile_{rank:0{rank_length}}.txt", "w") as fh:
                 fh.write(self._pr.output_text(unicode=True))
 
 
-- 
2.43.0


From 3e07d0cff028f12a5c5fe8a12ca66b5a73791396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:28 +0000
Subject: [PATCH 157/157] fix: check the path given to the resource profiler,
 not one which is not set

---
 caput/util/profiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/util/profiler.py b/caput/util/profiler.py
index 1e46faf..5686de5 100644
--- a/caput/util/profiler.py
+++ b/caput/util/profiler.py
@@ -235,11 +235,11 @@ class PSUtilProfiler(psutil.Process):
         if path is None:
             self.path = Path.cwd()
         else:
+            self.path = Path(path)
             if not self.path.is_dir() or not self.path.exists():
                 raise ValueError(
                     f"Make sure {self.path} passed to PSUtillProfiler is a directory that exists."
                 )
-            self.path = Path(path)
 
         self.path = self.path / f"perf_{rank}.csv"
 
-- 
2.43.0

