From 8978dc740bddd7a968ae5c88716a3bdc035bb713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:08 +0000
Subject: [PATCH 01/15] fix: pairwise_distances(x, y) must be n x l, with entry
 (i, j) for x[i], y[j]

The generic implementation returned the transpose of the documented matrix.
---
 dcor/distances.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcor/distances.py b/dcor/distances.py
index 5a5c579..3e72cd9 100644
--- a/dcor/distances.py
+++ b/dcor/distances.py
@@ -27,8 +27,8 @@ def _cdist_naive(x: Array, y: Array, exponent: float = 1) -> Array:
     x = xp.asarray(x)
     y = xp.asarray(y)
 
-    x = xp.expand_dims(x, axis=0)
-    y = xp.expand_dims(y, axis=1)
+    x = xp.expand_dims(x, axis=1)
+    y = xp.expand_dims(y, axis=0)
 
     squared_norms = xp.sum(((x - y) ** 2), axis=-1)
 
-- 
2.43.0


From e0b12cab1b826c18559c62d87463cfac3d854c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:01 +0000
Subject: [PATCH 02/15] fix: compute NumPy distances in double precision as
 documented

The namespace check compared array_api_compat's NumPy namespace with NumPy
itself, so it always failed: integer data was subtracted and squared in its
own type, overflowing for narrow integers and wrapping around for unsigned
ones.
---
 dcor/_utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dcor/_utils.py b/dcor/_utils.py
index 4d41b8c..41d2ea1 100644
--- a/dcor/_utils.py
+++ b/dcor/_utils.py
@@ -153,7 +153,7 @@ def _can_be_numpy_double(x: ArrayType) -> bool:
     converted to double (if the roundtrip conversion works).
 
     """
-    if array_namespace(x) != np:
+    if array_namespace(x) != numpy_namespace:
         return False
 
     return (
@@ -161,8 +161,11 @@ def _can_be_numpy_double(x: ArrayType) -> bool:
             np.issubdtype(x.dtype, np.floating)
             and x.dtype.itemsize <= np.dtype(float).itemsize
         ) or (
-            np.issubdtype(x.dtype, np.signedinteger)
-            and np.can_cast(x, float)
+            (
+                np.issubdtype(x.dtype, np.integer)
+                or np.issubdtype(x.dtype, np.bool_)
+            )
+            and np.can_cast(x.dtype, float)
         )
     )
 
-- 
2.43.0


From 142cb242515ac5e281d6f6322abdc15568a74c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:24 +0000
Subject: [PATCH 03/15] fix: convert integers to float in the fast distance
 covariance algorithms

The uncompiled implementations used to multiply narrow integers (overflow),
subtract unsigned ones (wraparound), accumulate booleans as booleans, and the
mergesort one failed when only the second argument had an integer type.
---
 dcor/_fast_dcov_avl.py       |  5 ++++-
 dcor/_fast_dcov_mergesort.py | 10 ++++++++--
 dcor/_utils.py               |  5 +++++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/dcor/_fast_dcov_avl.py b/dcor/_fast_dcov_avl.py
index eb58932..2dc2ecc 100644
--- a/dcor/_fast_dcov_avl.py
+++ b/dcor/_fast_dcov_avl.py
@@ -29,7 +29,7 @@ from ._dcor_internals_numba import (
     NumbaVectorReadOnlyNonContiguous,
     _generate_distance_covariance_sqr_from_terms_impl,
 )
-from ._utils import CompileMode, _transform_to_1d
+from ._utils import CompileMode, _float_if_integer, _transform_to_1d
 
 if TYPE_CHECKING:
     NumpyArrayType = np.typing.NDArray[np.number[Any]]
@@ -535,6 +535,9 @@ def _distance_covariance_sqr_terms_avl(
     if not isinstance(x, np.ndarray):
         raise ValueError("AVL method is only implemented for NumPy arrays.")
 
+    x = _float_if_integer(x)
+    y = _float_if_integer(y)
+
     if compile_mode not in impls_dict:
         raise NotImplementedError(
             f"Compile mode {compile_mode} not implemented.",
diff --git a/dcor/_fast_dcov_mergesort.py b/dcor/_fast_dcov_mergesort.py
index 74aa299..18d40e8 100644
--- a/dcor/_fast_dcov_mergesort.py
+++ b/dcor/_fast_dcov_mergesort.py
@@ -27,7 +27,7 @@ from ._dcor_internals_numba import (
     NumbaVectorReadOnlyNonContiguous,
     _generate_distance_covariance_sqr_from_terms_impl,
 )
-from ._utils import CompileMode, _transform_to_1d
+from ._utils import CompileMode, _float_if_integer, _transform_to_1d
 
 if TYPE_CHECKING:
     NumpyArrayType = np.typing.NDArray[np.number[Any]]
@@ -44,7 +44,10 @@ def _compute_weight_sums(
 
     n_samples = y.shape[0]
 
-    weight_sums = np.zeros(weights.shape[1:] + (n_samples,), dtype=y.dtype)
+    weight_sums = np.zeros(
+        weights.shape[1:] + (n_samples,),
+        dtype=weights.dtype,
+    )
 
     # Buffer that contains the indexes of the current and
     # last iterations
@@ -394,6 +397,9 @@ def _distance_covariance_sqr_terms_mergesort(
     if not isinstance(x, np.ndarray):
         raise ValueError("AVL method is only implemented for NumPy arrays.")
 
+    x = _float_if_integer(x)
+    y = _float_if_integer(y)
+
     if compile_mode not in impls_dict:
         raise NotImplementedError(
             f"Compile mode {compile_mode} not implemented.",
diff --git a/dcor/_utils.py b/dcor/_utils.py
index 41d2ea1..2e4d066 100644
--- a/dcor/_utils.py
+++ b/dcor/_utils.py
@@ -170,6 +170,11 @@ def _can_be_numpy_double(x: ArrayType) -> bool:
     )
 
 
+def _float_if_integer(x: ArrayType) -> ArrayType:
+    """Convert NumPy integer and boolean arrays to double."""
+    return x.astype(float) if x.dtype.kind in "biu" else x
+
+
 def _random_state_init(
     random_state: RandomLike,
 ) -> np.random.RandomState | np.random.Generator:
-- 
2.43.0


From 8a4ad1195fa453b7e9c8db52f279877011d75fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:03 +0000
Subject: [PATCH 04/15] fix: exact result for constant variables in the fast
 distance covariance algorithms

---
 dcor/_fast_dcov_avl.py       | 11 ++++++++---
 dcor/_fast_dcov_mergesort.py | 12 ++++++++----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/dcor/_fast_dcov_avl.py b/dcor/_fast_dcov_avl.py
index 2dc2ecc..999dd40 100644
--- a/dcor/_fast_dcov_avl.py
+++ b/dcor/_fast_dcov_avl.py
@@ -204,12 +204,17 @@ def _get_impl_args(
     y: np.typing.NDArray[np.float64],
 ):
     """Get the parameters used in the algorithm."""
-    x = np.ascontiguousarray(x)
-    y = np.ascontiguousarray(y)
-
     n = x.shape[0]
     assert n > 3
     assert n == y.shape[0]
+
+    # Distances are invariant to translations. Using one of the samples as
+    # the origin reduces cancellation errors, and makes the result of a
+    # constant variable exact.
+    origin = n // 2
+    x = np.ascontiguousarray(x - x[origin:origin + 1])
+    y = np.ascontiguousarray(y - y[origin:origin + 1])
+
     temp = np.arange(n)
 
     argsort_x = np.argsort(x)
diff --git a/dcor/_fast_dcov_mergesort.py b/dcor/_fast_dcov_mergesort.py
index 18d40e8..8f298d1 100644
--- a/dcor/_fast_dcov_mergesort.py
+++ b/dcor/_fast_dcov_mergesort.py
@@ -221,8 +221,14 @@ def _generate_distance_covariance_sqr_terms_mergesort_impl(
         return_var_terms: bool = False,
     ) -> Any:
 
-        x = np.ascontiguousarray(x)
-        y = np.ascontiguousarray(y)
+        n = x.shape[0]
+
+        # Distances are invariant to translations. Using one of the samples as
+        # the origin reduces cancellation errors, and makes the result of a
+        # constant variable exact.
+        origin = n // 2
+        x = np.ascontiguousarray(x - x[origin:origin + 1])
+        y = np.ascontiguousarray(y - y[origin:origin + 1])
 
         compute_aijbij_term = (
             _compute_aijbij_term_compiled
@@ -235,8 +241,6 @@ def _generate_distance_covariance_sqr_terms_mergesort_impl(
             else _compute_row_sums
         )
 
-        n = x.shape[0]
-
         # Sort x in ascending order
         ordered_indexes = np.argsort(x)
         x = x[ordered_indexes]
-- 
2.43.0


From 1aafbc2ff74583778367bcfd8e97250a03b8fa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:01 +0000
Subject: [PATCH 05/15] fix: check the number of samples in the MERGESORT
 method

Otherwise the compiled code read out of bounds, or ignored samples.
---
 dcor/_fast_dcov_mergesort.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dcor/_fast_dcov_mergesort.py b/dcor/_fast_dcov_mergesort.py
index 8f298d1..5ad1520 100644
--- a/dcor/_fast_dcov_mergesort.py
+++ b/dcor/_fast_dcov_mergesort.py
@@ -19,6 +19,7 @@ import numpy as np
 from numba import boolean, float64
 from numba.types import Tuple as NumbaTuple
 
+from ._dcor_internals import _check_same_n_elements
 from ._dcor_internals_numba import (
     NumbaMatrix,
     NumbaMatrixReadOnly,
@@ -398,6 +399,8 @@ def _distance_covariance_sqr_terms_mergesort(
 
     x, y = _transform_to_1d(x, y)
 
+    _check_same_n_elements(x, y)
+
     if not isinstance(x, np.ndarray):
         raise ValueError("AVL method is only implemented for NumPy arrays.")
 
-- 
2.43.0


From b996e0c57a545946612ad27b19c0baeb8b76dff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:01 +0000
Subject: [PATCH 06/15] fix: overflow of the number of samples in compiled
 distance covariance

The cube of the number of samples does not fit in an int64 for more than
2097151 samples.
---
 dcor/_dcor_internals_numba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcor/_dcor_internals_numba.py b/dcor/_dcor_internals_numba.py
index 0dbddfd..cfe83d8 100644
--- a/dcor/_dcor_internals_numba.py
+++ b/dcor/_dcor_internals_numba.py
@@ -33,7 +33,7 @@ _dcov_from_terms_compiled = numba.njit(
         float64,
         NumbaVectorReadOnly,
         float64,
-        int64,
+        float64,
         boolean,
     ),
     cache=True,
-- 
2.43.0


From 822bd51257760c1fc8b8f452020d43ca6c451af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:01 +0000
Subject: [PATCH 07/15] fix: reshape with a tuple, as required by the array API
 standard

The U-statistic of the energy distance failed in strict libraries.
---
 dcor/_energy.py | 4 ++--
 dcor/_utils.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dcor/_energy.py b/dcor/_energy.py
index dc4eee7..227220a 100644
--- a/dcor/_energy.py
+++ b/dcor/_energy.py
@@ -79,8 +79,8 @@ def _get_flat_upper_matrix(x: Array, k: int) -> Array:
     """Get flat upper matrix from diagonal k."""
     xp = array_namespace(x)
     x_mask = xp.triu(xp.ones_like(x, dtype=xp.bool), k=k)
-    x_mask_flat = xp.reshape(x_mask, -1)
-    x_flat = xp.reshape(x, -1)
+    x_mask_flat = xp.reshape(x_mask, (-1,))
+    x_flat = xp.reshape(x, (-1,))
 
     return x_flat[x_mask_flat]
 
diff --git a/dcor/_utils.py b/dcor/_utils.py
index 2e4d066..9166669 100644
--- a/dcor/_utils.py
+++ b/dcor/_utils.py
@@ -123,7 +123,7 @@ def _transform_to_1d(*args: T) -> Iterable[T]:
 
         if dim == 2:
             assert array.shape[1] == 1
-            array = xp.reshape(array, -1)
+            array = xp.reshape(array, (-1,))
 
         yield array
 
-- 
2.43.0


From 5421eaceb4e6d69eb15fdfa4de714e3b297d5e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:25 +0000
Subject: [PATCH 08/15] fix: rowwise correlation must be zero if a variance is
 zero

As in the functions for one pair. It could be infinite otherwise.
---
 dcor/_rowwise.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dcor/_rowwise.py b/dcor/_rowwise.py
index ff5bbb3..401573f 100644
--- a/dcor/_rowwise.py
+++ b/dcor/_rowwise.py
@@ -69,13 +69,14 @@ def _generate_rowwise_distance_correlation_sqr(unbiased):
             return NotImplemented
 
         cov = res_covs[:n_comps]
-        x_std = _sqrt(res_covs[n_comps:2 * n_comps])
-        y_std = _sqrt(res_covs[2 * n_comps:])
+        x_var = res_covs[n_comps:2 * n_comps]
+        y_var = res_covs[2 * n_comps:]
+        denominator = _sqrt(np.abs(x_var * y_var))
 
         with np.errstate(divide='ignore', invalid='ignore'):
-            corr_sqr = cov / x_std / y_std
+            corr_sqr = cov / denominator
 
-        corr_sqr[np.isnan(corr_sqr)] = 0
+        corr_sqr[denominator == 0] = 0
 
         return corr_sqr
 
-- 
2.43.0


From ce8e60e263061f920c1ac83b05a2d96197203301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:05 +0000
Subject: [PATCH 09/15] fix: rowwise with integers, non-double dtypes or
 vectors of different shape

The optimized implementation failed for them. Integers are now supported,
and the others are computed one pair at a time.
---
 dcor/_fast_dcov_avl.py | 12 ++++++++++--
 dcor/_rowwise.py       | 10 ++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/dcor/_fast_dcov_avl.py b/dcor/_fast_dcov_avl.py
index 999dd40..42e1f55 100644
--- a/dcor/_fast_dcov_avl.py
+++ b/dcor/_fast_dcov_avl.py
@@ -29,7 +29,12 @@ from ._dcor_internals_numba import (
     NumbaVectorReadOnlyNonContiguous,
     _generate_distance_covariance_sqr_from_terms_impl,
 )
-from ._utils import CompileMode, _float_if_integer, _transform_to_1d
+from ._utils import (
+    CompileMode,
+    _can_be_numpy_double,
+    _float_if_integer,
+    _transform_to_1d,
+)
 
 if TYPE_CHECKING:
     NumpyArrayType = np.typing.NDArray[np.number[Any]]
@@ -636,7 +641,10 @@ def _rowwise_distance_covariance_sqr_avl_generic(
         assert y.shape[2] == 1
         y = y[..., 0]
 
-    res = np.zeros(x.shape[0], dtype=x.dtype)
+    if not (_can_be_numpy_double(x) and _can_be_numpy_double(y)):
+        return NotImplemented
+
+    res = np.zeros(x.shape[0])
 
     if compile_mode not in rowwise_impls_dict:
         return NotImplemented
diff --git a/dcor/_rowwise.py b/dcor/_rowwise.py
index 401573f..009efdf 100644
--- a/dcor/_rowwise.py
+++ b/dcor/_rowwise.py
@@ -14,12 +14,19 @@ from ._utils import ArrayType, RowwiseMode as RowwiseMode, _sqrt, array_namespac
 Array = TypeVar("Array", bound=ArrayType)
 
 
+def _have_same_shape(arrays):
+    return len({np.shape(array) for array in arrays}) <= 1
+
+
 def _generate_rowwise_distance_covariance_sqr(unbiased):
     def rowwise_distance_covariance_sqr(
             x, y, exponent=1, *,
             method=_dcor.DistanceCovarianceMethod.AUTO,
             **kwargs):
 
+        if not (_have_same_shape(x) and _have_same_shape(y)):
+            return NotImplemented
+
         if not _dcor._can_use_fast_algorithm(x[0], y[0],
                                              exponent=exponent):
             return NotImplemented
@@ -61,6 +68,9 @@ def _generate_rowwise_distance_correlation_sqr(unbiased):
 
         n_comps = len(x)
 
+        if not _have_same_shape((*x, *y)):
+            return NotImplemented
+
         concat_x = np.concatenate((x, x, y))
         concat_y = np.concatenate((y, x, y))
 
-- 
2.43.0


From f907c421457074ae47a9132d9e4ed7e246454ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:05 +0000
Subject: [PATCH 10/15] fix: pairwise_distances must not broadcast points of
 different dimension

---
 dcor/distances.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dcor/distances.py b/dcor/distances.py
index 3e72cd9..a684992 100644
--- a/dcor/distances.py
+++ b/dcor/distances.py
@@ -158,4 +158,12 @@ def pairwise_distances(
         return _pdist(x, exponent=exponent)
 
     x, y = _transform_to_2d(x, y)
+
+    if x.shape[1] != y.shape[1]:
+        raise ValueError(
+            f'x and y must have the same number of columns. The '
+            f'number of columns of x is {x.shape[1]} while the '
+            f'number of columns of y is {y.shape[1]}.'
+        )
+
     return _cdist(x, y, exponent=exponent)
-- 
2.43.0


From 07c53774d3d498f5d80af46eb69cc8cca951573f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:54 +0000
Subject: [PATCH 11/15] fix: compute the fast algorithms in double precision
 for narrower floats

Half precision data produced NaN, and the result did not agree with the
naive method.
---
 dcor/_fast_dcov_avl.py       | 6 +++---
 dcor/_fast_dcov_mergesort.py | 6 +++---
 dcor/_utils.py               | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/dcor/_fast_dcov_avl.py b/dcor/_fast_dcov_avl.py
index 42e1f55..d3a2d43 100644
--- a/dcor/_fast_dcov_avl.py
+++ b/dcor/_fast_dcov_avl.py
@@ -32,7 +32,7 @@ from ._dcor_internals_numba import (
 from ._utils import (
     CompileMode,
     _can_be_numpy_double,
-    _float_if_integer,
+    _to_double,
     _transform_to_1d,
 )
 
@@ -545,8 +545,8 @@ def _distance_covariance_sqr_terms_avl(
     if not isinstance(x, np.ndarray):
         raise ValueError("AVL method is only implemented for NumPy arrays.")
 
-    x = _float_if_integer(x)
-    y = _float_if_integer(y)
+    x = _to_double(x)
+    y = _to_double(y)
 
     if compile_mode not in impls_dict:
         raise NotImplementedError(
diff --git a/dcor/_fast_dcov_mergesort.py b/dcor/_fast_dcov_mergesort.py
index 5ad1520..1bbed96 100644
--- a/dcor/_fast_dcov_mergesort.py
+++ b/dcor/_fast_dcov_mergesort.py
@@ -28,7 +28,7 @@ from ._dcor_internals_numba import (
     NumbaVectorReadOnlyNonContiguous,
     _generate_distance_covariance_sqr_from_terms_impl,
 )
-from ._utils import CompileMode, _float_if_integer, _transform_to_1d
+from ._utils import CompileMode, _to_double, _transform_to_1d
 
 if TYPE_CHECKING:
     NumpyArrayType = np.typing.NDArray[np.number[Any]]
@@ -404,8 +404,8 @@ def _distance_covariance_sqr_terms_mergesort(
     if not isinstance(x, np.ndarray):
         raise ValueError("AVL method is only implemented for NumPy arrays.")
 
-    x = _float_if_integer(x)
-    y = _float_if_integer(y)
+    x = _to_double(x)
+    y = _to_double(y)
 
     if compile_mode not in impls_dict:
         raise NotImplementedError(
diff --git a/dcor/_utils.py b/dcor/_utils.py
index 9166669..7dea40d 100644
--- a/dcor/_utils.py
+++ b/dcor/_utils.py
@@ -170,9 +170,9 @@ def _can_be_numpy_double(x: ArrayType) -> bool:
     )
 
 
-def _float_if_integer(x: ArrayType) -> ArrayType:
-    """Convert NumPy integer and boolean arrays to double."""
-    return x.astype(float) if x.dtype.kind in "biu" else x
+def _to_double(x: ArrayType) -> ArrayType:
+    """Convert to double the NumPy arrays that can be safely converted."""
+    return np.asarray(x, dtype=float) if _can_be_numpy_double(x) else x
 
 
 def _random_state_init(
-- 
2.43.0


From 8ae5e6e85df8993562c0cf9f6095d12c3b11309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:48 +0000
Subject: [PATCH 12/15] fix: partial distance covariance must refuse samples of
 different sizes

---
 dcor/_partial_dcor.py | 7 +++++++
 dcor/independence.py  | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/dcor/_partial_dcor.py b/dcor/_partial_dcor.py
index e9b58f4..792c255 100644
--- a/dcor/_partial_dcor.py
+++ b/dcor/_partial_dcor.py
@@ -6,6 +6,7 @@ from typing import TypeVar
 import numpy as np
 
 from ._dcor_internals import (
+    _check_same_n_elements,
     _u_distance_matrix,
     u_complementary_projection,
     u_product,
@@ -78,6 +79,9 @@ def partial_distance_covariance(
         .. footbibliography::
 
     """
+    _check_same_n_elements(x, y)
+    _check_same_n_elements(x, z)
+
     a = _u_distance_matrix(x)
     b = _u_distance_matrix(y)
     c = _u_distance_matrix(z)
@@ -146,6 +150,9 @@ def partial_distance_correlation(
         .. footbibliography::
 
     """
+    _check_same_n_elements(x, y)
+    _check_same_n_elements(x, z)
+
     a = _u_distance_matrix(x)
     b = _u_distance_matrix(y)
     c = _u_distance_matrix(z)
diff --git a/dcor/independence.py b/dcor/independence.py
index 36fb521..7901791 100644
--- a/dcor/independence.py
+++ b/dcor/independence.py
@@ -209,6 +209,9 @@ def partial_distance_covariance_test(
         True
 
     """
+    _check_same_n_elements(x, y)
+    _check_same_n_elements(x, z)
+
     random_state = _random_state_init(random_state)
 
     # Compute U-centered matrices
-- 
2.43.0


From 5c7820f55d52853fe244f1296bd469a30bb03b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:22 +0000
Subject: [PATCH 13/15] fix: the members of DistanceCovarianceMethod can be
 pickled

---
 dcor/_dcor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dcor/_dcor.py b/dcor/_dcor.py
index 7b6922b..4975a09 100644
--- a/dcor/_dcor.py
+++ b/dcor/_dcor.py
@@ -17,6 +17,7 @@ from __future__ import annotations
 from dataclasses import astuple, dataclass
 from enum import Enum
 from typing import (
+    Any,
     Generic,
     Iterator,
     Literal,
@@ -419,6 +420,10 @@ class DistanceCovarianceMethod(Enum):
     def __repr__(self) -> str:
         return '%s.%s' % (self.__class__.__name__, self.name)
 
+    def __reduce_ex__(self, proto: object) -> Tuple[Any, ...]:
+        # The values have no equality, so the name identifies the method.
+        return getattr, (self.__class__, self.name)
+
 
 _DistanceCovarianceMethodName = Literal["auto", "naive", "avl", "mergesort"]
 DistanceCovarianceMethodLike = Union[
-- 
2.43.0


From dee512f0850700cf26b517ab9c004cd52aa07fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:39 +0000
Subject: [PATCH 14/15] fix: rowwise refuses lists of different length and
 accepts empty ones

---
 dcor/_rowwise.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dcor/_rowwise.py b/dcor/_rowwise.py
index 009efdf..5685a41 100644
--- a/dcor/_rowwise.py
+++ b/dcor/_rowwise.py
@@ -27,6 +27,9 @@ def _generate_rowwise_distance_covariance_sqr(unbiased):
         if not (_have_same_shape(x) and _have_same_shape(y)):
             return NotImplemented
 
+        if len(x) == 0 or len(x) != len(y):
+            return NotImplemented
+
         if not _dcor._can_use_fast_algorithm(x[0], y[0],
                                              exponent=exponent):
             return NotImplemented
@@ -200,5 +203,8 @@ def rowwise(
     xp = array_namespace(x, y)
 
     return xp.asarray(
-        [function(x_elem, y_elem, **kwargs) for x_elem, y_elem in zip(x, y)],
+        [
+            function(x_elem, y_elem, **kwargs)
+            for x_elem, y_elem in zip(x, y, strict=True)
+        ],
     )
-- 
2.43.0


From 5d47a6913f621a2763485b55707342191344a9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:43 +0000
Subject: [PATCH 15/15] fix: the affinely invariant correlation of NaN samples
 is NaN, not zero

---
 dcor/_dcor.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/dcor/_dcor.py b/dcor/_dcor.py
index 4975a09..e62372a 100644
--- a/dcor/_dcor.py
+++ b/dcor/_dcor.py
@@ -1099,21 +1099,13 @@ def distance_correlation_af_inv_sqr(
     x = _af_inv_scaled(x)
     y = _af_inv_scaled(y)
 
-    correlation = distance_correlation_sqr(
+    return distance_correlation_sqr(
         x,
         y,
         method=method,
         compile_mode=compile_mode,
     )
 
-    xp = array_namespace(x, y)
-
-    return (
-        xp.zeros_like(correlation)
-        if xp.isnan(correlation)
-        else correlation
-    )
-
 
 def distance_correlation_af_inv(
     x: Array,
-- 
2.43.0

