From b642bf9f88f74036e3ea88bc302ba6631a806798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 01/32] fix: mpi difference tensors are chunked once

The metrics' difference functions are only called by functions that
distribute their own result, so distributing inside them as well handed
out pieces of pieces.
---
 src/MuyGPyS/_src/gp/tensors/mpi.py | 30 ++----------------------------
 1 file changed, 2 insertions(+), 28 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/tensors/mpi.py b/src/MuyGPyS/_src/gp/tensors/mpi.py
index 31e0028..970ad34 100644
--- a/src/MuyGPyS/_src/gp/tensors/mpi.py
+++ b/src/MuyGPyS/_src/gp/tensors/mpi.py
@@ -11,8 +11,8 @@ from MuyGPyS._src.mpi_utils import (
     _chunk_function_tensor,
 )
 from MuyGPyS._src.gp.tensors.numpy import (
-    _crosswise_tensor as _crosswise_tensor_n,
-    _pairwise_tensor as _pairwise_tensor_n,
+    _crosswise_tensor,
+    _pairwise_tensor,
     _batch_features_tensor as _batch_features_tensor_n,
     _make_heteroscedastic_tensor as _make_heteroscedatic_tensor_n,
     _F2,
@@ -53,21 +53,6 @@ def _batch_features_tensor(
     )
 
 
-def _crosswise_tensor(
-    data: np.ndarray,
-    nn_data: np.ndarray,
-    data_indices: np.ndarray,
-    nn_indices: np.ndarray,
-) -> np.ndarray:
-    return _chunk_function_tensor(
-        _crosswise_tensor_n,
-        data,
-        nn_data,
-        data_indices,
-        nn_indices,
-    )
-
-
 def _crosswise_differences(
     locations: np.ndarray, points: np.ndarray
 ) -> np.ndarray:
@@ -76,17 +61,6 @@ def _crosswise_differences(
     )
 
 
-def _pairwise_tensor(
-    data: np.ndarray,
-    nn_indices: np.ndarray,
-) -> np.ndarray:
-    return _chunk_function_tensor(
-        _pairwise_tensor_n,
-        data,
-        nn_indices,
-    )
-
-
 def _pairwise_differences(points: np.ndarray) -> np.ndarray:
     raise NotImplementedError(
         'Function "muygps_pairwise_differences" does not support mpi!'
-- 
2.43.0


From c6c72a83f6294b362085007894213b37914171b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 02/32] fix: mpi lool_fn_unscaled calls the local loss, not
 itself

---
 src/MuyGPyS/_src/optimize/loss/mpi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/mpi.py b/src/MuyGPyS/_src/optimize/loss/mpi.py
index 1abe25b..1bda80d 100644
--- a/src/MuyGPyS/_src/optimize/loss/mpi.py
+++ b/src/MuyGPyS/_src/optimize/loss/mpi.py
@@ -11,6 +11,7 @@ from MuyGPyS._src.optimize.loss.numpy import (
     _mse_fn_unnormalized,
     _cross_entropy_fn as _cross_entropy_fn_n,
     _lool_fn as _lool_fn_n,
+    _lool_fn_unscaled as _lool_fn_unscaled_n,
     _pseudo_huber_fn as _pseudo_huber_fn_n,
     _looph_fn as _looph_fn_n,
 )
@@ -64,7 +65,7 @@ def _lool_fn_unscaled(
     variances: np.ndarray,
     **kwargs,
 ) -> float:
-    local_likelihoods = _lool_fn_unscaled(
+    local_likelihoods = _lool_fn_unscaled_n(
         predictions, targets, variances, **kwargs
     )
     global_likelihood = world.allreduce(local_likelihoods, op=MPI.SUM)
-- 
2.43.0


From 0645d605d12f60668a69293358b675c1be4186ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 03/32] fix: mpi cross entropy accepts ranks that own no batch
 elements

---
 src/MuyGPyS/_src/optimize/loss/mpi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/mpi.py b/src/MuyGPyS/_src/optimize/loss/mpi.py
index 1bda80d..66952b0 100644
--- a/src/MuyGPyS/_src/optimize/loss/mpi.py
+++ b/src/MuyGPyS/_src/optimize/loss/mpi.py
@@ -40,7 +40,11 @@ def _cross_entropy_fn(
     targets: np.ndarray,
     **kwargs,
 ) -> float:
-    local_log_loss = _cross_entropy_fn_n(predictions, targets, **kwargs)
+    if predictions.shape[0] > 0:
+        local_log_loss = _cross_entropy_fn_n(predictions, targets, **kwargs)
+    else:
+        # log_loss refuses empty input, but a rank might own no batch elements
+        local_log_loss = 0.0
     global_log_loss = world.allreduce(local_log_loss, op=MPI.SUM)
     return global_log_loss
 
-- 
2.43.0


From 6f230f2f19c225dd597a2d6d13761c9772339043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 04/32] fix: mpi Bayes optimization proposes the same points on
 every rank

---
 src/MuyGPyS/_src/optimize/chassis/mpi.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/_src/optimize/chassis/mpi.py b/src/MuyGPyS/_src/optimize/chassis/mpi.py
index 25b8847..2af81dd 100644
--- a/src/MuyGPyS/_src/optimize/chassis/mpi.py
+++ b/src/MuyGPyS/_src/optimize/chassis/mpi.py
@@ -3,7 +3,20 @@
 #
 # SPDX-License-Identifier: MIT
 
+import MuyGPyS._src.math.numpy as np
+from MuyGPyS import config
 from MuyGPyS._src.optimize.chassis.numpy import (
     _scipy_optimize,
-    _bayes_opt_optimize,
+    _bayes_opt_optimize as _bayes_opt_optimize_n,
 )
+
+world = config.mpi_state.comm_world
+
+
+def _bayes_opt_optimize(muygps, obj_fn, verbose=False, **kwargs):
+    # the ranks must propose the same points, so they have to agree on a seed
+    if kwargs.get("random_state") is None:
+        kwargs["random_state"] = world.bcast(
+            int(np.random.randint(2**31 - 1)), root=0
+        )
+    return _bayes_opt_optimize_n(muygps, obj_fn, verbose=verbose, **kwargs)
-- 
2.43.0


From 74f05289cfd96c14751350cff6294b432ca110cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 05/32] fix: DownSampleScale agrees across mpi ranks

---
 src/MuyGPyS/_src/mpi_utils.py          |  7 +++++++
 src/MuyGPyS/gp/hyperparameter/scale.py | 15 +++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/MuyGPyS/_src/mpi_utils.py b/src/MuyGPyS/_src/mpi_utils.py
index 633bdcf..5ee6da0 100644
--- a/src/MuyGPyS/_src/mpi_utils.py
+++ b/src/MuyGPyS/_src/mpi_utils.py
@@ -159,5 +159,12 @@ def _consistent_reduce_scalar(scalar):
         return scalar
 
 
+def _consistent_bcast(value):
+    if _is_mpi_mode() is True:
+        return world.bcast(value, root=0)
+    else:
+        return value
+
+
 def _is_mpi_mode() -> bool:
     return config.state.backend == "mpi"
diff --git a/src/MuyGPyS/gp/hyperparameter/scale.py b/src/MuyGPyS/gp/hyperparameter/scale.py
index 49ace1f..ed3c379 100644
--- a/src/MuyGPyS/gp/hyperparameter/scale.py
+++ b/src/MuyGPyS/gp/hyperparameter/scale.py
@@ -12,6 +12,10 @@ from typing import Callable
 
 import MuyGPyS._src.math as mm
 import MuyGPyS._src.math.numpy as np
+from MuyGPyS._src.mpi_utils import (
+    _consistent_bcast,
+    _consistent_reduce_scalar,
+)
 from MuyGPyS._src.optimize.scale import (
     _analytic_scale_optim,
     _analytic_scale_optim_unnormalized,
@@ -282,12 +286,19 @@ class DownSampleScale(ScaleFn):
                     replace=False,
                 )
                 sampled_indices.sort()
+                sampled_indices = _consistent_bcast(sampled_indices)
 
                 pK_down = pK[:, sampled_indices, :]
                 pK_down = pK_down[:, :, sampled_indices]
                 nn_targets_down = nn_targets[:, sampled_indices]
-                scales.append(self._fn(pK_down, nn_targets_down))
+                scales.append(
+                    _consistent_reduce_scalar(
+                        self._fn(pK_down, nn_targets_down)
+                    )
+                )
 
-            return np.median(scales, axis=0) / (self._down_count * batch_count)
+            return np.median(scales, axis=0) / (
+                self._down_count * _consistent_reduce_scalar(batch_count)
+            )
 
         return downsample_analytic_scale_opt_fn
-- 
2.43.0


From 5e6450c2d34dc7fc364ba895ab8b8052e6b08086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 06/32] fix: vector parameters keep their order when partially
 overridden

---
 src/MuyGPyS/gp/hyperparameter/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/vector.py b/src/MuyGPyS/gp/hyperparameter/vector.py
index 17262d2..aec7729 100644
--- a/src/MuyGPyS/gp/hyperparameter/vector.py
+++ b/src/MuyGPyS/gp/hyperparameter/vector.py
@@ -107,7 +107,7 @@ class NamedVectorParameter(VectorParameter):
             The current value of the hyperparameter.
         """
         params, kwargs = self.filter_kwargs(**kwargs)
-        return mm.array([param for _, param in params.items()])
+        return mm.array([params[p.name()] for p in self._params])
 
     def apply_fn(self, fn: Callable) -> Callable:
         def applied_fn(*args, **kwargs):
-- 
2.43.0


From a087daeed80066997592f02e6d94fc116d46f819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 07/32] fix: multivariate posterior variance applies the
 current scale once

---
 src/MuyGPyS/gp/multivariate_muygps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MuyGPyS/gp/multivariate_muygps.py b/src/MuyGPyS/gp/multivariate_muygps.py
index 2cae149..d6f2867 100644
--- a/src/MuyGPyS/gp/multivariate_muygps.py
+++ b/src/MuyGPyS/gp/multivariate_muygps.py
@@ -220,10 +220,9 @@ class MultivariateMuyGPS:
         for i, model in enumerate(self.models):
             Kin = model.kernel(pairwise_diffs)
             Kcross = model.kernel(crosswise_diffs)
-            ss = model.scale()
             diagonal_variance = mm.assign(
                 diagonal_variance,
-                model.posterior_variance(Kin, Kcross).reshape(batch_count) * ss,
+                model.posterior_variance(Kin, Kcross).reshape(batch_count),
                 slice(None),
                 i,
             )
@@ -380,6 +379,7 @@ class MultivariateMuyGPS:
                 nn_targets[:, :, i].reshape(batch_count, nn_count, 1),
             )
             model.scale._set(new_scale_val)
+            model._make()
         return self
 
     @mpi_chunk(return_count=3)
-- 
2.43.0


From 73573c55a5ba633220bfe79d3f24c649cb017380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 08/32] fix: multivariate fast posterior mean keeps what it
 computes

assign returns a copy, so the coefficients and cross-covariances stayed
zero; fast_coefficients perturbs with noise already.
---
 src/MuyGPyS/gp/multivariate_muygps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MuyGPyS/gp/multivariate_muygps.py b/src/MuyGPyS/gp/multivariate_muygps.py
index d6f2867..9a7265d 100644
--- a/src/MuyGPyS/gp/multivariate_muygps.py
+++ b/src/MuyGPyS/gp/multivariate_muygps.py
@@ -275,10 +275,10 @@ class MultivariateMuyGPS:
 
         for i, model in enumerate(self.models):
             Kin = model.kernel(pairwise_diffs_fast)
-            mm.assign(
+            coeffs_tensor = mm.assign(
                 coeffs_tensor,
                 model.fast_coefficients(
-                    model.noise.perturb(Kin),
+                    Kin,
                     train_nn_targets_fast[:, :, i],
                 ),
                 slice(None),
@@ -329,7 +329,7 @@ class MultivariateMuyGPS:
         """
         Kcross = mm.zeros(coeffs_tensor.shape)
         for i, model in enumerate(self.models):
-            mm.assign(
+            Kcross = mm.assign(
                 Kcross,
                 model.kernel(crosswise_diffs),
                 slice(None),
-- 
2.43.0


From a6b75c7f10952fc865f26abb2e7fe719588e45b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 09/32] fix: batch neighbors exclude the element itself
 wherever it is returned

---
 src/MuyGPyS/neighbors.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/MuyGPyS/neighbors.py b/src/MuyGPyS/neighbors.py
index 8e9baf8..f8f7c98 100644
--- a/src/MuyGPyS/neighbors.py
+++ b/src/MuyGPyS/neighbors.py
@@ -204,11 +204,23 @@ class NN_Wrapper:
             lists the distance to the batch element of the corresponding element
             in `batch_nn_indices`.
         """
-        batch_nn_indices, batch_nn_dists = self._get_nns(
+        nn_indices, nn_dists = self._query(
             self.train[batch_indices, :],
             self.nn_count + 1,
         )
-        return batch_nn_indices[:, 1:], batch_nn_dists[:, 1:]
+        # duplicated features or an approximate index can return the element
+        # itself anywhere in its row or not at all, in which case we drop the
+        # furthest neighbor.
+        is_self = nn_indices == np.iarray(batch_indices).reshape(-1, 1)
+        drop = np.where(
+            is_self.any(axis=1), np.argmax(is_self, axis=1), self.nn_count
+        )
+        keep = np.arange(0, self.nn_count + 1) != drop.reshape(-1, 1)
+        shape = (nn_indices.shape[0], self.nn_count)
+        return (
+            mm.iarray(nn_indices[keep].reshape(shape)),
+            mm.array(nn_dists[keep].reshape(shape)),
+        )
 
     def _get_nns(
         self,
@@ -236,6 +248,18 @@ class NN_Wrapper:
             lists the distance to the sample element of the corresponding
             element in `nn_indices`.
         """
+        nn_indices, nn_dists = self._query(samples, nn_count)
+        return mm.iarray(nn_indices), mm.array(nn_dists)
+
+    def _query(
+        self,
+        samples: mm.ndarray,
+        nn_count: int,
+    ) -> Tuple[np.ndarray, np.ndarray]:
+        """
+        Query the lookup structure. Same as `_get_nns`, save that the returned
+        matrices are numpy arrays irrespective of the backend.
+        """
         if samples.ndim == 1:
             samples = samples[:, None]
         if self.nn_method == "exact":
@@ -259,4 +283,4 @@ class NN_Wrapper:
                 f"Nearest Neighbor algorithm {self.nn_method} is not implemented."
             )
 
-        return mm.iarray(nn_indices), mm.array(nn_dists)
+        return nn_indices, nn_dists
-- 
2.43.0


From 36b236a299031f8c6d2348c21ba0c92f295382df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 10/32] fix: scale optimization uses the trial noise

Objectives whose loss depends on the scale evaluated it at the noise the
model started from instead of the noise under trial.
---
 src/MuyGPyS/gp/hyperparameter/scale.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/scale.py b/src/MuyGPyS/gp/hyperparameter/scale.py
index ed3c379..b2591ff 100644
--- a/src/MuyGPyS/gp/hyperparameter/scale.py
+++ b/src/MuyGPyS/gp/hyperparameter/scale.py
@@ -207,16 +207,14 @@ class AnalyticScale(ScaleFn):
         """
 
         def analytic_scale_opt_fn(Kin, nn_targets, *args, **kwargs):
-            scale = self._fn(muygps.noise.perturb(Kin), nn_targets, **kwargs)
+            pK = muygps.noise.perturb(Kin, **kwargs)
+            scale = self._fn(pK, nn_targets, **kwargs)
             if np.array(self.val).size != 1:
                 # iterative process only works for scalar responses
                 return scale
             for _ in range(1, self.iteration_count):
                 scale = 0.5 * (
-                    scale
-                    + self._fn(
-                        scale * muygps.noise.perturb(Kin), nn_targets, **kwargs
-                    )
+                    scale + self._fn(scale * pK, nn_targets, **kwargs)
                 )
             return scale
 
@@ -277,7 +275,7 @@ class DownSampleScale(ScaleFn):
                     f"bad attempt to downsample {self._down_count} elements "
                     f"from a set of only {nn_count} options"
                 )
-            pK = muygps.noise.perturb(Kin)
+            pK = muygps.noise.perturb(Kin, **kwargs)
             scales = []
             for _ in range(self._iteration_count):
                 sampled_indices = np.random.choice(
-- 
2.43.0


From d53249f807bfe6a6ca8ef7d5aa074640393d316b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 11/32] fix: set_params rebuilds the kernel function

A Matern kernel kept using the function chosen for its old smoothness.
---
 src/MuyGPyS/gp/kernels/kernel_fn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MuyGPyS/gp/kernels/kernel_fn.py b/src/MuyGPyS/gp/kernels/kernel_fn.py
index 9ecc869..8bc0cef 100644
--- a/src/MuyGPyS/gp/kernels/kernel_fn.py
+++ b/src/MuyGPyS/gp/kernels/kernel_fn.py
@@ -84,6 +84,7 @@ class KernelFn:
         """
         for name in kwargs:
             self._hyperparameters[name]._set(kwargs[name])
+        self._make()
 
     def __call__(self, diffs: mm.ndarray, **kwargs) -> mm.ndarray:
         raise NotImplementedError(
-- 
2.43.0


From fae9ab1b1c61e8ede2c62d51de7fd0956fe15dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 12/32] fix: default model components are not shared between
 models

Default deformations, noise and scale objects were created once, so
setting a parameter of one model changed every other default model.
---
 src/MuyGPyS/gp/kernels/matern.py | 8 ++++----
 src/MuyGPyS/gp/kernels/rbf.py    | 8 ++++----
 src/MuyGPyS/gp/muygps.py         | 8 ++++++--
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/MuyGPyS/gp/kernels/matern.py b/src/MuyGPyS/gp/kernels/matern.py
index 7143df4..0eeff62 100644
--- a/src/MuyGPyS/gp/kernels/matern.py
+++ b/src/MuyGPyS/gp/kernels/matern.py
@@ -37,7 +37,7 @@ Example:
     >>> Kcross = kern(crosswise_diffs)
 """
 
-from typing import Callable, List, Tuple
+from typing import Callable, List, Optional, Tuple
 
 import MuyGPyS._src.math as mm
 from MuyGPyS._src.gp.kernels import (
@@ -120,14 +120,14 @@ class Matern(KernelFn):
     def __init__(
         self,
         smoothness: ScalarParam = ScalarParam(0.5),
-        deformation: DeformationFn = Isotropy(
-            l2, length_scale=ScalarParam(1.0)
-        ),
+        deformation: Optional[DeformationFn] = None,
         _backend_ones: Callable = mm.ones,
         _backend_zeros: Callable = mm.zeros,
         _backend_squeeze: Callable = mm.squeeze,
         **_backend_fns,
     ):
+        if deformation is None:
+            deformation = Isotropy(l2, length_scale=ScalarParam(1.0))
         super().__init__(deformation=deformation)
         self.smoothness = NamedParam("smoothness", smoothness)
         self._backend_ones = _backend_ones
diff --git a/src/MuyGPyS/gp/kernels/rbf.py b/src/MuyGPyS/gp/kernels/rbf.py
index 761ad74..1434c0a 100644
--- a/src/MuyGPyS/gp/kernels/rbf.py
+++ b/src/MuyGPyS/gp/kernels/rbf.py
@@ -37,7 +37,7 @@ Example:
     >>> Kcross = kernel_fn(crosswise_diffs)
 """
 
-from typing import Callable
+from typing import Callable, Optional
 
 import MuyGPyS._src.math as mm
 from MuyGPyS._src.gp.kernels import _rbf_fn
@@ -71,14 +71,14 @@ class RBF(KernelFn):
 
     def __init__(
         self,
-        deformation: DeformationFn = Isotropy(
-            F2, length_scale=ScalarParam(1.0)
-        ),
+        deformation: Optional[DeformationFn] = None,
         _backend_fn: Callable = _rbf_fn,
         _backend_ones: Callable = mm.ones,
         _backend_zeros: Callable = mm.zeros,
         _backend_squeeze: Callable = mm.squeeze,
     ):
+        if deformation is None:
+            deformation = Isotropy(F2, length_scale=ScalarParam(1.0))
         super().__init__(deformation=deformation)
         self._backend_ones = _backend_ones
         self._backend_zeros = _backend_zeros
diff --git a/src/MuyGPyS/gp/muygps.py b/src/MuyGPyS/gp/muygps.py
index d1bf8f4..8a4531e 100644
--- a/src/MuyGPyS/gp/muygps.py
+++ b/src/MuyGPyS/gp/muygps.py
@@ -93,13 +93,17 @@ class MuyGPS:
     def __init__(
         self,
         kernel: KernelFn,
-        noise: NoiseFn = HomoscedasticNoise(0.0, "fixed"),
-        scale: ScaleFn = FixedScale(response_count=1),
+        noise: Optional[NoiseFn] = None,
+        scale: Optional[ScaleFn] = None,
         _backend_mean_fn: Callable = _muygps_posterior_mean,
         _backend_var_fn: Callable = _muygps_diagonal_variance,
         _backend_fast_mean_fn: Callable = _muygps_fast_posterior_mean,
         _backend_fast_precompute_fn: Callable = _muygps_fast_posterior_mean_precompute,
     ):
+        if noise is None:
+            noise = HomoscedasticNoise(0.0, "fixed")
+        if scale is None:
+            scale = FixedScale(response_count=1)
         self.kernel = kernel
         self.scale = scale
         self.noise = noise
-- 
2.43.0


From e9978fee1dcb0d4e388134af0f98b4f52554c9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 13/32] fix: a deep-copied model does not keep using its
 original's parameters

---
 src/MuyGPyS/gp/muygps.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/MuyGPyS/gp/muygps.py b/src/MuyGPyS/gp/muygps.py
index 8a4531e..7d8a26b 100644
--- a/src/MuyGPyS/gp/muygps.py
+++ b/src/MuyGPyS/gp/muygps.py
@@ -7,6 +7,7 @@
 MuyGPs implementation
 """
 
+from copy import deepcopy
 from typing import Callable, List, Optional, Tuple
 
 import MuyGPyS._src.math as mm
@@ -113,6 +114,16 @@ class MuyGPS:
         self._backend_fast_precompute_fn = _backend_fast_precompute_fn
         self._make()
 
+    def __deepcopy__(self, memo):
+        # the posterior functions close over this model's components, so a copy
+        # has to build its own
+        ret = self.__class__.__new__(self.__class__)
+        memo[id(self)] = ret
+        for name, val in self.__dict__.items():
+            setattr(ret, name, deepcopy(val, memo))
+        ret._make()
+        return ret
+
     def _make(self) -> None:
         self.kernel._make()
         self._mean_fn = PosteriorMean(
-- 
2.43.0


From afd8c3dabcf9299d5e08e8c9962faff1d8f707d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 14/32] fix: configuration contexts restore the state and stay
 in their thread

Leaving a context set the state the library consults to None for every
thread.
---
 src/MuyGPyS/_src/config.py | 49 ++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/src/MuyGPyS/_src/config.py b/src/MuyGPyS/_src/config.py
index a47d648..663a32b 100644
--- a/src/MuyGPyS/_src/config.py
+++ b/src/MuyGPyS/_src/config.py
@@ -12,6 +12,7 @@ except Exception:
 
 import itertools
 import sys
+import threading
 
 
 class MuyGPySConfig(JaxConfig):
@@ -39,8 +40,33 @@ class MuyGPySConfig(JaxConfig):
             self.state.already_configured_with_absl = True
 
 
+def _overridable(name):
+    def fget(self):
+        return getattr(self._overrides, name, self._values[name])
+
+    def fset(self, val):
+        self._values[name] = val
+
+    return property(fget, fset)
+
+
 class MuyGPySState:
+    """
+    The state that the library consults. Values set by a context manager are
+    visible to the thread that entered the context only.
+    """
+
+    jax_enabled = _overridable("jax_enabled")
+    torch_enabled = _overridable("torch_enabled")
+    hnswlib_enabled = _overridable("hnswlib_enabled")
+    gpu_enabled = _overridable("gpu_enabled")
+    mpi_enabled = _overridable("mpi_enabled")
+    backend = _overridable("backend")
+    ftype = _overridable("ftype")
+
     def __init__(self):
+        self._values = dict()
+        self._overrides = threading.local()
         self.jax_enabled = False
         self.torch_enabled = False
         self.hnswlib_enabled = False
@@ -50,6 +76,15 @@ class MuyGPySState:
         self.ftype = "64"
         self.already_configured_with_absl = False
 
+    def override(self, name, val):
+        """
+        Override a value for the calling thread. `None` removes the override.
+        """
+        if val is None:
+            self._overrides.__dict__.pop(name, None)
+        else:
+            setattr(self._overrides, name, val)
+
     def low_precision(self):
         return True if self.ftype == "32" else False
 
@@ -74,7 +109,7 @@ def _update_jax_global(val):
 
 
 def _update_jax_thread_local(val):
-    config.state.jax_enabled = val
+    config.state.override("jax_enabled", val)
 
 
 # JAX and GPU states
@@ -93,7 +128,7 @@ def _update_gpu_global(val):
 
 
 def _update_gpu_thread_local(val):
-    config.state.gpu_enabled = val
+    config.state.override("gpu_enabled", val)
 
 
 enable_gpu = config.define_bool_state(
@@ -125,7 +160,7 @@ def _update_hnswlib_global(val):
 
 
 def _update_hnswlib_thread_local(val):
-    config.state.hnswlib_enabled = val
+    config.state.override("hnswlib_enabled", val)
 
 
 enable_hnswlib = config.define_bool_state(
@@ -154,7 +189,7 @@ def _update_mpi_global(val):
 
 
 def _update_mpi_thread_local(val):
-    config.state.mpi_enabled = val
+    config.state.override("mpi_enabled", val)
 
 
 enable_mpi = config.define_bool_state(
@@ -187,7 +222,7 @@ def _update_torch_global(val):
 
 
 def _update_torch_thread_local(val):
-    config.state.torch_enabled = val
+    config.state.override("torch_enabled", val)
 
 
 enable_torch = config.define_bool_state(
@@ -215,7 +250,7 @@ def _update_backend_global(val):
 
 
 def _update_backend_thread_local(val):
-    config.state.backend = val
+    config.state.override("backend", val)
 
 
 backend = config.define_enum_state(
@@ -248,7 +283,7 @@ def _update_ftype_global(val):
 
 
 def _update_ftype_thread_local(val):
-    config.state.ftype = val
+    config.state.override("ftype", val)
 
 
 ftype = config.define_enum_state(
-- 
2.43.0


From 430da7fe59da2afac540b909a8c087c7ec54d743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 15/32] fix: default shear deformations are not shared between
 kernels

---
 src/MuyGPyS/gp/kernels/experimental/shear.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/MuyGPyS/gp/kernels/experimental/shear.py b/src/MuyGPyS/gp/kernels/experimental/shear.py
index 98737db..2998421 100644
--- a/src/MuyGPyS/gp/kernels/experimental/shear.py
+++ b/src/MuyGPyS/gp/kernels/experimental/shear.py
@@ -39,7 +39,7 @@ Note that the :class:`~MuyGPyS.gp.kernels.experimental.shear.ShearKernel`
 functor
 """
 
-from typing import Callable, List, Tuple
+from typing import Callable, List, Optional, Tuple
 
 import MuyGPyS._src.math as mm
 from MuyGPyS._src.gp.kernels.shear import (
@@ -77,13 +77,15 @@ class ShearKernel(KernelFn):
 
     def __init__(
         self,
-        deformation: DifferenceIsotropy = DifferenceIsotropy(
-            F2, length_scale=ScalarParam(1.0)
-        ),
+        deformation: Optional[DifferenceIsotropy] = None,
         _backend_fn: Callable = _shear_33_fn,
         _backend_zeros: Callable = mm.zeros,
         _backend_squeeze: Callable = mm.squeeze,
     ):
+        if deformation is None:
+            deformation = DifferenceIsotropy(
+                F2, length_scale=ScalarParam(1.0)
+            )
         super().__init__(deformation=deformation)
         if not isinstance(self.deformation, DifferenceIsotropy):
             raise ValueError(
@@ -187,15 +189,17 @@ class ShearKernel2in3out(KernelFn):
 
     def __init__(
         self,
-        deformation: DifferenceIsotropy = DifferenceIsotropy(
-            F2, length_scale=ScalarParam(1.0)
-        ),
+        deformation: Optional[DifferenceIsotropy] = None,
         _backend_Kin_fn: Callable = _shear_Kin23_fn,
         _backend_Kcross_fn: Callable = _shear_Kcross23_fn,
         _backend_Kout_fn: Callable = _shear_33_fn,
         _backend_zeros: Callable = mm.zeros,
         _backend_squeeze: Callable = mm.squeeze,
     ):
+        if deformation is None:
+            deformation = DifferenceIsotropy(
+                F2, length_scale=ScalarParam(1.0)
+            )
         super().__init__(deformation=deformation)
         if not isinstance(self.deformation, DifferenceIsotropy):
             raise ValueError(
-- 
2.43.0


From 3f099b292418b89d8a572869f92c0ef609a6bf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 16/32] fix: lool and looph apply a row's variance to its
 responses

---
 src/MuyGPyS/_src/optimize/loss/jax.py   | 9 +++++++++
 src/MuyGPyS/_src/optimize/loss/numpy.py | 9 +++++++++
 src/MuyGPyS/_src/optimize/loss/torch.py | 9 +++++++++
 3 files changed, 27 insertions(+)

diff --git a/src/MuyGPyS/_src/optimize/loss/jax.py b/src/MuyGPyS/_src/optimize/loss/jax.py
index 2fe9a5f..b701f33 100644
--- a/src/MuyGPyS/_src/optimize/loss/jax.py
+++ b/src/MuyGPyS/_src/optimize/loss/jax.py
@@ -70,6 +70,13 @@ def _lool_fn(
     return _lool_fn_unscaled(predictions, targets, scale * variances, **kwargs)
 
 
+def _match_responses(variances: jnp.ndarray, predictions: jnp.ndarray):
+    # the variance of a row applies to all of its responses
+    if variances.ndim == 1 and predictions.ndim == 2:
+        return variances[:, None]
+    return variances
+
+
 @jit
 def _lool_fn_unscaled(
     predictions: jnp.ndarray,
@@ -85,6 +92,7 @@ def _lool_fn_unscaled(
         logdet = jnp.linalg.slogdet(variances)
         return jnp.sum(quad_form + logdet)
     else:
+        variances = _match_responses(variances, predictions)
         return jnp.sum(
             jnp.divide((predictions - targets) ** 2, variances)
             + jnp.log(variances)
@@ -113,6 +121,7 @@ def _looph_fn_unscaled(
 ) -> float:
     boundary_scale_sq = boundary_scale**2
     if variances.ndim == 1:
+        variances = _match_responses(variances, predictions)
         return jnp.sum(
             2
             * boundary_scale_sq
diff --git a/src/MuyGPyS/_src/optimize/loss/numpy.py b/src/MuyGPyS/_src/optimize/loss/numpy.py
index bc198db..b4ad23f 100644
--- a/src/MuyGPyS/_src/optimize/loss/numpy.py
+++ b/src/MuyGPyS/_src/optimize/loss/numpy.py
@@ -31,6 +31,13 @@ def _mse_fn(predictions: np.ndarray, targets: np.ndarray, **kwargs) -> float:
     )
 
 
+def _match_responses(variances: np.ndarray, predictions: np.ndarray):
+    # the variance of a row applies to all of its responses
+    if variances.ndim == 1 and predictions.ndim == 2:
+        return variances[:, None]
+    return variances
+
+
 def _lool_fn_unscaled(
     predictions: np.ndarray,
     targets: np.ndarray,
@@ -38,6 +45,7 @@ def _lool_fn_unscaled(
     **kwargs,
 ) -> float:
     if variances.ndim == 1:
+        variances = _match_responses(variances, predictions)
         return np.sum(
             np.divide((predictions - targets) ** 2, variances)
             + np.log(variances)
@@ -81,6 +89,7 @@ def _looph_fn_unscaled(
 ) -> float:
     boundary_scale_sq = boundary_scale**2
     if variances.ndim == 1:
+        variances = _match_responses(variances, predictions)
         return np.sum(
             2
             * boundary_scale_sq
diff --git a/src/MuyGPyS/_src/optimize/loss/torch.py b/src/MuyGPyS/_src/optimize/loss/torch.py
index cbb7fb0..4fb1f30 100644
--- a/src/MuyGPyS/_src/optimize/loss/torch.py
+++ b/src/MuyGPyS/_src/optimize/loss/torch.py
@@ -45,6 +45,13 @@ def _lool_fn(
     return _lool_fn_unscaled(predictions, targets, scale * variances, **kwargs)
 
 
+def _match_responses(variances: torch.ndarray, predictions: torch.ndarray):
+    # the variance of a row applies to all of its responses
+    if variances.ndim == 1 and predictions.ndim == 2:
+        return variances[:, None]
+    return variances
+
+
 def _lool_fn_unscaled(
     predictions: torch.ndarray,
     targets: torch.ndarray,
@@ -59,6 +66,7 @@ def _lool_fn_unscaled(
         logdet = torch.linalg.slogdet(variances)
         return torch.sum(quad_form + logdet)
     else:
+        variances = _match_responses(variances, predictions)
         return torch.sum(
             torch.divide((predictions - targets) ** 2, variances)
             + torch.log(variances)
@@ -85,6 +93,7 @@ def _looph_fn_unscaled(
     **kwargs
 ) -> float:
     boundary_scale_sq = boundary_scale**2
+    variances = _match_responses(variances, predictions)
     return torch.sum(
         2
         * boundary_scale_sq
-- 
2.43.0


From 6bcb54a3ea5e9a50bf16ef93e2689dca18001089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 17/32] fix: set_params rebuilds the kernel when it fails
 midway

---
 src/MuyGPyS/gp/kernels/kernel_fn.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/MuyGPyS/gp/kernels/kernel_fn.py b/src/MuyGPyS/gp/kernels/kernel_fn.py
index 8bc0cef..7c8e063 100644
--- a/src/MuyGPyS/gp/kernels/kernel_fn.py
+++ b/src/MuyGPyS/gp/kernels/kernel_fn.py
@@ -82,9 +82,11 @@ class KernelFn:
             kwargs:
                 Hyperparameter kwargs.
         """
-        for name in kwargs:
-            self._hyperparameters[name]._set(kwargs[name])
-        self._make()
+        try:
+            for name in kwargs:
+                self._hyperparameters[name]._set(kwargs[name])
+        finally:
+            self._make()
 
     def __call__(self, diffs: mm.ndarray, **kwargs) -> mm.ndarray:
         raise NotImplementedError(
-- 
2.43.0


From 59ec57b3a193a8f8debe5e20f8402bc807d21cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 18/32] fix: multivariate lool uses the log determinant only

---
 src/MuyGPyS/_src/optimize/loss/jax.py   | 2 +-
 src/MuyGPyS/_src/optimize/loss/numpy.py | 2 +-
 src/MuyGPyS/_src/optimize/loss/torch.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/jax.py b/src/MuyGPyS/_src/optimize/loss/jax.py
index b701f33..1a253df 100644
--- a/src/MuyGPyS/_src/optimize/loss/jax.py
+++ b/src/MuyGPyS/_src/optimize/loss/jax.py
@@ -89,7 +89,7 @@ def _lool_fn_unscaled(
         quad_form = jnp.squeeze(
             residual.swapaxes(-2, -1) @ jnp.linalg.solve(variances, residual)
         )
-        logdet = jnp.linalg.slogdet(variances)
+        _, logdet = jnp.linalg.slogdet(variances)
         return jnp.sum(quad_form + logdet)
     else:
         variances = _match_responses(variances, predictions)
diff --git a/src/MuyGPyS/_src/optimize/loss/numpy.py b/src/MuyGPyS/_src/optimize/loss/numpy.py
index b4ad23f..1c79040 100644
--- a/src/MuyGPyS/_src/optimize/loss/numpy.py
+++ b/src/MuyGPyS/_src/optimize/loss/numpy.py
@@ -55,7 +55,7 @@ def _lool_fn_unscaled(
         quad_form = np.squeeze(
             residual.swapaxes(-2, -1) @ np.linalg.solve(variances, residual)
         )
-        logdet = np.linalg.slogdet(variances)
+        _, logdet = np.linalg.slogdet(variances)
         return np.sum(quad_form + logdet)
 
 
diff --git a/src/MuyGPyS/_src/optimize/loss/torch.py b/src/MuyGPyS/_src/optimize/loss/torch.py
index 4fb1f30..907105c 100644
--- a/src/MuyGPyS/_src/optimize/loss/torch.py
+++ b/src/MuyGPyS/_src/optimize/loss/torch.py
@@ -63,7 +63,7 @@ def _lool_fn_unscaled(
         quad_form = torch.squeeze(
             residual.swapaxes(-2, -1) @ torch.linalg.solve(variances, residual)
         )
-        logdet = torch.linalg.slogdet(variances)
+        _, logdet = torch.linalg.slogdet(variances)
         return torch.sum(quad_form + logdet)
     else:
         variances = _match_responses(variances, predictions)
-- 
2.43.0


From 45e440050ba26c3524b2c7643563f46ac838d63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 19/32] fix: posterior variance uses the prior variance at the
 current length scale

---
 src/MuyGPyS/gp/kernels/experimental/shear.py | 4 ++--
 src/MuyGPyS/gp/kernels/kernel_fn.py          | 2 +-
 src/MuyGPyS/gp/muygps.py                     | 6 ++++--
 src/MuyGPyS/gp/variance.py                   | 4 ++--
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/MuyGPyS/gp/kernels/experimental/shear.py b/src/MuyGPyS/gp/kernels/experimental/shear.py
index 2998421..9f92d49 100644
--- a/src/MuyGPyS/gp/kernels/experimental/shear.py
+++ b/src/MuyGPyS/gp/kernels/experimental/shear.py
@@ -132,7 +132,7 @@ class ShearKernel(KernelFn):
         return self._fn(diffs, **kwargs)
 
     def Kout(self, **kwargs) -> mm.ndarray:
-        return self.__call__(self._backend_zeros((1, 1, 2)))
+        return self.__call__(self._backend_zeros((1, 1, 2)), **kwargs)
 
     def get_opt_params(
         self,
@@ -269,7 +269,7 @@ class ShearKernel2in3out(KernelFn):
         return self._Kin_fn(diffs, **kwargs)
 
     def Kout(self, **kwargs) -> mm.ndarray:
-        return self._Kout_fn(self._backend_zeros((1, 1, 2)))
+        return self._Kout_fn(self._backend_zeros((1, 1, 2)), **kwargs)
 
     def get_opt_params(
         self,
diff --git a/src/MuyGPyS/gp/kernels/kernel_fn.py b/src/MuyGPyS/gp/kernels/kernel_fn.py
index 7c8e063..f463c95 100644
--- a/src/MuyGPyS/gp/kernels/kernel_fn.py
+++ b/src/MuyGPyS/gp/kernels/kernel_fn.py
@@ -98,7 +98,7 @@ class KernelFn:
             "get_opt_fn is not implemented for base KernelFn"
         )
 
-    def Kout(self) -> mm.ndarray:
+    def Kout(self, **kwargs) -> mm.ndarray:
         raise NotImplementedError("Kout is not implemented for base KernelFn")
 
     def get_opt_params(
diff --git a/src/MuyGPyS/gp/muygps.py b/src/MuyGPyS/gp/muygps.py
index 7d8a26b..d711b53 100644
--- a/src/MuyGPyS/gp/muygps.py
+++ b/src/MuyGPyS/gp/muygps.py
@@ -129,9 +129,11 @@ class MuyGPS:
         self._mean_fn = PosteriorMean(
             self.noise, _backend_fn=self._backend_mean_fn
         )
-        Kout = self.kernel.Kout()
         self._var_fn = PosteriorVariance(
-            Kout, self.noise, self.scale, _backend_fn=self._backend_var_fn
+            self.kernel.Kout,
+            self.noise,
+            self.scale,
+            _backend_fn=self._backend_var_fn,
         )
         self._fast_posterior_mean_fn = FastPosteriorMean(
             _backend_fn=self._backend_fast_mean_fn
diff --git a/src/MuyGPyS/gp/variance.py b/src/MuyGPyS/gp/variance.py
index d3de219..f87b389 100644
--- a/src/MuyGPyS/gp/variance.py
+++ b/src/MuyGPyS/gp/variance.py
@@ -22,7 +22,7 @@ from MuyGPyS.gp.noise import NoiseFn
 class PosteriorVariance:
     def __init__(
         self,
-        Kout: mm.ndarray,
+        Kout: Callable,
         noise: NoiseFn,
         scale: ScaleFn,
         _backend_fn: Callable = _muygps_diagonal_variance,
@@ -32,7 +32,7 @@ class PosteriorVariance:
 
         def fix_Kout_fn(fn: Callable) -> Callable:
             def fixed_Kout_fn(Kin, Kcross, *args, **kwargs):
-                return fn(Kin, Kcross, Kout, *args, **kwargs)
+                return fn(Kin, Kcross, Kout(**kwargs), *args, **kwargs)
 
             return fixed_Kout_fn
 
-- 
2.43.0


From 6995113e19b8f6cc5ea186b4f6a5a12cee1d58f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:15 +0000
Subject: [PATCH 20/32] fix: mini batch optimization rescales by the
 anisotropic length scales

---
 src/MuyGPyS/optimize/experimental/chassis.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/MuyGPyS/optimize/experimental/chassis.py b/src/MuyGPyS/optimize/experimental/chassis.py
index c1cbdb5..842d632 100644
--- a/src/MuyGPyS/optimize/experimental/chassis.py
+++ b/src/MuyGPyS/optimize/experimental/chassis.py
@@ -285,9 +285,8 @@ def optimize_from_tensors_mini_batch(
         if isinstance(muygps.kernel.deformation, Anisotropy) and (
             epoch < (num_epochs - 1)
         ):
-            length_scales = muygps.kernel.deformation._length_scale_array(
-                train_features.shape,
-                **optimizer.max["params"],
+            length_scales = muygps.kernel.deformation.length_scale(
+                **optimizer.max["params"]
             )
             train_features_scaled = train_features / length_scales
             new_nbrs_lookup = NN_Wrapper(
-- 
2.43.0


From c2c7c0130a110f6737148cf9bf7543a9d92879d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:15 +0000
Subject: [PATCH 21/32] fix: mini batch optimization assumes the default
 numbers of points

---
 src/MuyGPyS/optimize/experimental/chassis.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/MuyGPyS/optimize/experimental/chassis.py b/src/MuyGPyS/optimize/experimental/chassis.py
index 842d632..24a7ea2 100644
--- a/src/MuyGPyS/optimize/experimental/chassis.py
+++ b/src/MuyGPyS/optimize/experimental/chassis.py
@@ -199,6 +199,13 @@ def optimize_from_tensors_mini_batch(
         verbose=verbose,
         **kwargs,
     )
+
+    # set defaults
+    if "init_points" not in maximize_kwargs:
+        maximize_kwargs["init_points"] = 5
+    if "n_iter" not in maximize_kwargs:
+        maximize_kwargs["n_iter"] = 20
+
     total_pts_probed = num_epochs * maximize_kwargs["init_points"]
     total_opt_steps = num_epochs * maximize_kwargs["n_iter"]
 
-- 
2.43.0


From 2e060327f9f862a3aeac55e692517436adc8d820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:21 +0000
Subject: [PATCH 22/32] fix: null noise models answer as models with fixed
 noise

---
 src/MuyGPyS/gp/noise/null.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/MuyGPyS/gp/noise/null.py b/src/MuyGPyS/gp/noise/null.py
index 87addd2..f4bbc88 100644
--- a/src/MuyGPyS/gp/noise/null.py
+++ b/src/MuyGPyS/gp/noise/null.py
@@ -9,7 +9,7 @@ Noise modeling
 Defines data structures and functors that handle noise priors for MuyGPs models.
 """
 
-from typing import Callable
+from typing import Callable, List, Tuple
 
 import MuyGPyS._src.math as mm
 
@@ -23,8 +23,7 @@ class NullNoise(ScalarParam, NoiseFn):
     """
 
     def __init__(self, *args, **kwargs):
-        self.val = 0.0
-        self.bounds = "fixed"
+        super(NullNoise, self).__init__(0.0, "fixed")
 
     def __call__(self, *args, **kwargs):
         return 0.0
@@ -48,3 +47,11 @@ class NullNoise(ScalarParam, NoiseFn):
 
     def perturb_fn(self, fn: Callable) -> Callable:
         return fn
+
+    def append_lists(
+        self,
+        names: List[str],
+        params: List[float],
+        bounds: List[Tuple[float, float]],
+    ):
+        pass
-- 
2.43.0


From 7f70763dcd83c80502ac9911405b958ff9b1397c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 23/32] fix: the target mask selects the covariance of the
 masked outputs

---
 src/MuyGPyS/optimize/loss.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/optimize/loss.py b/src/MuyGPyS/optimize/loss.py
index 052b40b..cde9c75 100644
--- a/src/MuyGPyS/optimize/loss.py
+++ b/src/MuyGPyS/optimize/loss.py
@@ -169,7 +169,9 @@ def make_var_predict_and_loss_fn(
 
         if target_mask is not None:
             predictions = predictions[:, target_mask]
-            variances = variances[:, target_mask, target_mask]
+            # a single variance per element applies to all of its outputs
+            if variances.ndim == 3:
+                variances = variances[:, target_mask][:, :, target_mask]
 
         return -loss_fn(
             predictions, batch_targets, variances, scale, **loss_kwargs
-- 
2.43.0


From b2886718ed992be88714ae5580e45ed896b60b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:19 +0000
Subject: [PATCH 24/32] fix: Bayes optimization never returns a point whose
 objective is not a number

---
 src/MuyGPyS/_src/optimize/chassis/numpy.py   | 12 ++++++++++--
 src/MuyGPyS/optimize/experimental/chassis.py | 10 ++++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/MuyGPyS/_src/optimize/chassis/numpy.py b/src/MuyGPyS/_src/optimize/chassis/numpy.py
index 8fb0b5e..9e0ff6c 100644
--- a/src/MuyGPyS/_src/optimize/chassis/numpy.py
+++ b/src/MuyGPyS/_src/optimize/chassis/numpy.py
@@ -4,7 +4,8 @@
 # SPDX-License-Identifier: MIT
 
 from copy import deepcopy
-from typing import Callable, List, Tuple
+from math import isnan
+from typing import Callable, Dict, List, Tuple
 
 from bayes_opt import BayesianOptimization
 from scipy import optimize as opt
@@ -116,6 +117,13 @@ def _bayes_get_kwargs(verbose: bool = False, **kwargs):
     return optimizer_kwargs, maximize_kwargs
 
 
+def _best_params(optimizer: BayesianOptimization) -> Dict[str, float]:
+    # a trial whose objective is not a number is never the best one
+    trials = [t for t in optimizer.res if not isnan(t["target"])]
+    best = max(trials, key=lambda t: t["target"], default=optimizer.max)
+    return best["params"]
+
+
 def _bayes_opt_optimize(
     muygps: MuyGPS,
     obj_fn: Callable,
@@ -146,4 +154,4 @@ def _bayes_opt_optimize(
     optimizer.probe(x0_map, lazy=True)
     optimizer.maximize(**maximize_kwargs)
 
-    return _new_muygps(muygps, x0_names, bounds, optimizer.max["params"])
+    return _new_muygps(muygps, x0_names, bounds, _best_params(optimizer))
diff --git a/src/MuyGPyS/optimize/experimental/chassis.py b/src/MuyGPyS/optimize/experimental/chassis.py
index 24a7ea2..590e565 100644
--- a/src/MuyGPyS/optimize/experimental/chassis.py
+++ b/src/MuyGPyS/optimize/experimental/chassis.py
@@ -32,6 +32,7 @@ from typing import Dict, Optional, Tuple
 from bayes_opt import BayesianOptimization
 import MuyGPyS._src.math as mm
 from MuyGPyS._src.optimize.chassis.numpy import (
+    _best_params,
     _new_muygps,
     _get_opt_lists,
     _bayes_get_kwargs,
@@ -285,15 +286,16 @@ def optimize_from_tensors_mini_batch(
         optimizer.maximize(**maximize_kwargs)
 
         # Add explored points to be probed
-        to_probe.append(optimizer.max["params"])
-        optimized_values.append(f"{epoch}, {optimizer.max['params']}")
+        best_params = _best_params(optimizer)
+        to_probe.append(best_params)
+        optimized_values.append(f"{epoch}, {best_params}")
 
         # Update neighborhoods using the learned length scales
         if isinstance(muygps.kernel.deformation, Anisotropy) and (
             epoch < (num_epochs - 1)
         ):
             length_scales = muygps.kernel.deformation.length_scale(
-                **optimizer.max["params"]
+                **best_params
             )
             train_features_scaled = train_features / length_scales
             new_nbrs_lookup = NN_Wrapper(
@@ -310,7 +312,7 @@ def optimize_from_tensors_mini_batch(
             print(line)
 
     # Compute optimal variance scaling hyperparameter
-    new_muygpys = _new_muygps(muygps, x0_names, bounds, optimizer.max["params"])
+    new_muygpys = _new_muygps(muygps, x0_names, bounds, best_params)
 
     new_muygpys = new_muygpys.optimize_scale(
         batch_pairwise_diffs, batch_nn_targets
-- 
2.43.0


From ff85de3e6aa0bd2edb68221e98fde0909a806832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 25/32] fix: L-BFGS-B keeps the initial values when the search
 goes astray

---
 src/MuyGPyS/_src/optimize/chassis/numpy.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/MuyGPyS/_src/optimize/chassis/numpy.py b/src/MuyGPyS/_src/optimize/chassis/numpy.py
index 9e0ff6c..2da9c9e 100644
--- a/src/MuyGPyS/_src/optimize/chassis/numpy.py
+++ b/src/MuyGPyS/_src/optimize/chassis/numpy.py
@@ -65,9 +65,14 @@ def _scipy_optimize(
 
     # converting from kwargs representation to array representation
     array_obj_fn = _obj_fn_adapter(obj_fn, x0_names)
+    values = list()
+
+    def recorded_obj_fn(x_array, *args):
+        values.append(array_obj_fn(x_array, *args))
+        return values[-1]
 
     optres = opt.minimize(
-        array_obj_fn,
+        recorded_obj_fn,
         x0,
         method="L-BFGS-B",
         bounds=bounds,
@@ -77,7 +82,10 @@ def _scipy_optimize(
         print(f"optimizer results: \n{optres}")
 
     # converting back to kwargs representation
-    ret_dict = {n: optres.x[i] for i, n in enumerate(x0_names)}
+    # the search can go astray once it meets an objective that is not a number,
+    # in which case the initial values are kept
+    x = optres.x if optres.fun <= values[0] else x0
+    ret_dict = {n: x[i] for i, n in enumerate(x0_names)}
 
     return _new_muygps(muygps, x0_names, bounds, ret_dict)
 
-- 
2.43.0


From a115c51698578b42aeaf7cc473d1897051e04c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:03 +0000
Subject: [PATCH 26/32] fix: filtered batches compare class labels without
 truncating them

---
 src/MuyGPyS/optimize/batch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MuyGPyS/optimize/batch.py b/src/MuyGPyS/optimize/batch.py
index 09323e2..3a76383 100644
--- a/src/MuyGPyS/optimize/batch.py
+++ b/src/MuyGPyS/optimize/batch.py
@@ -102,8 +102,8 @@ def full_filtered_batch(
     # filter out indices whose neighors all belong to one class
     # What if the index is mislabeled? Currently assuming that constant nn
     # labels -> correctly classified.
-    nonconstant_mask = np.max(np.iarray(nn_labels), axis=1) != np.min(
-        np.iarray(nn_labels),
+    nonconstant_mask = np.max(np.copy(nn_labels), axis=1) != np.min(
+        np.copy(nn_labels),
         axis=1,
     )
 
@@ -148,8 +148,8 @@ def sample_balanced_batch(
     # filter out indices whose neighors all belong to one class
     # What if the index is mislabeled? Currently assuming that constant nn
     # labels -> correctly classified.
-    nonconstant_mask = np.max(np.iarray(nn_labels), axis=1) != np.min(
-        np.iarray(nn_labels),
+    nonconstant_mask = np.max(np.copy(nn_labels), axis=1) != np.min(
+        np.copy(nn_labels),
         axis=1,
     )
     classes = np.unique(labels)
-- 
2.43.0


From 45931b073fead45d84208688271234f5f5614cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:33 +0000
Subject: [PATCH 27/32] fix: shear kernels keep the batch dimension of a single
 prediction

---
 src/MuyGPyS/_src/gp/kernels/shear/numpy.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/kernels/shear/numpy.py b/src/MuyGPyS/_src/gp/kernels/shear/numpy.py
index 341901b..23ecc5a 100644
--- a/src/MuyGPyS/_src/gp/kernels/shear/numpy.py
+++ b/src/MuyGPyS/_src/gp/kernels/shear/numpy.py
@@ -101,6 +101,13 @@ def _g2g2_fn(
     )
 
 
+def _drop_point_dims(full_m):
+    # a single point has no dimension of its own, but a batch of one keeps it
+    return np.squeeze(
+        full_m, axis=tuple(i for i in (-3, -1) if full_m.shape[i] == 1)
+    )
+
+
 # compute the full covariance matrix for convergence, shear1 and shear2
 def _shear_33_fn(diffs, length_scale=1.0, **kwargs):
     assert diffs.ndim >= 3
@@ -159,7 +166,7 @@ def _shear_33_fn(diffs, length_scale=1.0, **kwargs):
         length_scale,
     )  # (2, 2)
 
-    return np.squeeze(full_m)
+    return _drop_point_dims(full_m)
 
 
 # compute the full covariance matrix for shear1 and shear2 only
@@ -202,7 +209,7 @@ def _shear_Kin23_fn(diffs, length_scale=1.0, **kwargs):
         length_scale,
     )  # (1, 1)
 
-    return np.squeeze(full_m)
+    return _drop_point_dims(full_m)
 
 
 # compute the crosscovariance matrix relating shear1 and shear2 only
@@ -257,4 +264,4 @@ def _shear_Kcross23_fn(diffs, length_scale=1.0, **kwargs):
         length_scale,
     )  # (1, 2)
 
-    return np.squeeze(full_m)
+    return _drop_point_dims(full_m)
-- 
2.43.0


From 13e610be66d5f603fd2e62cfbcd51f20a881ce44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:10 +0000
Subject: [PATCH 28/32] fix: a vector hyperparameter reports whether it is
 fixed

---
 src/MuyGPyS/gp/hyperparameter/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/vector.py b/src/MuyGPyS/gp/hyperparameter/vector.py
index aec7729..bac9a51 100644
--- a/src/MuyGPyS/gp/hyperparameter/vector.py
+++ b/src/MuyGPyS/gp/hyperparameter/vector.py
@@ -70,7 +70,7 @@ class VectorParameter:
         Returns:
             `True` if fixed, `False` otherwise.
         """
-        return mm.all(param._fixed for param in self._params)
+        return all(param.fixed() for param in self._params)
 
 
 class NamedVectorParameter(VectorParameter):
-- 
2.43.0


From 39352099a726f1160ba1aa4fa4959a01785ea8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:10 +0000
Subject: [PATCH 29/32] fix: a named hierarchical hyperparameter reports
 whether it is fixed

---
 src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py b/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
index 84579f8..ef4353e 100644
--- a/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
+++ b/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
@@ -104,6 +104,9 @@ class NamedHierarchicalParameter(HierarchicalParameter):
     def name(self) -> str:
         return self._name
 
+    def fixed(self) -> bool:
+        return self._params.fixed()
+
     def knot_values(self) -> mm.ndarray:
         return self._params()
 
-- 
2.43.0


From 44ca301ae74b2d5b33128fdab5920f1d593b89b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:09 +0000
Subject: [PATCH 30/32] fix: losses of several responses are a single number
 under torch

---
 src/MuyGPyS/_src/optimize/loss/torch.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/torch.py b/src/MuyGPyS/_src/optimize/loss/torch.py
index 907105c..ad8dabe 100644
--- a/src/MuyGPyS/_src/optimize/loss/torch.py
+++ b/src/MuyGPyS/_src/optimize/loss/torch.py
@@ -24,7 +24,7 @@ def _cross_entropy_fn(
 def _mse_fn_unnormalized(
     predictions: torch.ndarray, targets: torch.ndarray, **kwargs
 ) -> float:
-    return torch.sum((predictions - targets) ** 2)
+    return ((predictions - targets) ** 2).sum()
 
 
 def _mse_fn(
@@ -67,10 +67,10 @@ def _lool_fn_unscaled(
         return torch.sum(quad_form + logdet)
     else:
         variances = _match_responses(variances, predictions)
-        return torch.sum(
+        return (
             torch.divide((predictions - targets) ** 2, variances)
             + torch.log(variances)
-        )
+        ).sum()
 
 
 def _pseudo_huber_fn(
@@ -79,9 +79,14 @@ def _pseudo_huber_fn(
     boundary_scale: float = 1.5,
     **kwargs
 ) -> float:
-    return boundary_scale**2 * torch.sum(
-        torch.sqrt(1 + torch.divide(targets - predictions, boundary_scale) ** 2)
-        - 1
+    return (
+        boundary_scale**2
+        * (
+            torch.sqrt(
+                1 + torch.divide(targets - predictions, boundary_scale) ** 2
+            )
+            - 1
+        ).sum()
     )
 
 
@@ -94,7 +99,7 @@ def _looph_fn_unscaled(
 ) -> float:
     boundary_scale_sq = boundary_scale**2
     variances = _match_responses(variances, predictions)
-    return torch.sum(
+    return (
         2
         * boundary_scale_sq
         * (
@@ -107,7 +112,7 @@ def _looph_fn_unscaled(
             - 1
         )
         + torch.log(variances)
-    )
+    ).sum()
 
 
 def _looph_fn(
-- 
2.43.0


From 44faa030e0055fb26464eb08e0c917ce89dd296b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:09 +0000
Subject: [PATCH 31/32] fix: scipy optimisation judges the point it returns by
 that point's own objective

---
 src/MuyGPyS/_src/optimize/chassis/numpy.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/MuyGPyS/_src/optimize/chassis/numpy.py b/src/MuyGPyS/_src/optimize/chassis/numpy.py
index 2da9c9e..4f07774 100644
--- a/src/MuyGPyS/_src/optimize/chassis/numpy.py
+++ b/src/MuyGPyS/_src/optimize/chassis/numpy.py
@@ -65,11 +65,11 @@ def _scipy_optimize(
 
     # converting from kwargs representation to array representation
     array_obj_fn = _obj_fn_adapter(obj_fn, x0_names)
-    values = list()
+    trials = list()
 
     def recorded_obj_fn(x_array, *args):
-        values.append(array_obj_fn(x_array, *args))
-        return values[-1]
+        trials.append((list(x_array), array_obj_fn(x_array, *args)))
+        return trials[-1][1]
 
     optres = opt.minimize(
         recorded_obj_fn,
@@ -83,8 +83,10 @@ def _scipy_optimize(
 
     # converting back to kwargs representation
     # the search can go astray once it meets an objective that is not a number,
-    # in which case the initial values are kept
-    x = optres.x if optres.fun <= values[0] else x0
+    # and then report a value that is not that of the point it returns, in which
+    # case the initial values are kept
+    found = [val for x, val in trials if x == list(optres.x)]
+    x = optres.x if any(val <= trials[0][1] for val in found) else x0
     ret_dict = {n: x[i] for i, n in enumerate(x0_names)}
 
     return _new_muygps(muygps, x0_names, bounds, ret_dict)
-- 
2.43.0


From e00933068ff6fccd3ac5cf3d39fde065d1081e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:22 +0000
Subject: [PATCH 32/32] fix: drop the point dimension of single points in the
 torch shear kernel

---
 src/MuyGPyS/_src/gp/kernels/shear/torch.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/_src/gp/kernels/shear/torch.py b/src/MuyGPyS/_src/gp/kernels/shear/torch.py
index 470098c..9f16b24 100644
--- a/src/MuyGPyS/_src/gp/kernels/shear/torch.py
+++ b/src/MuyGPyS/_src/gp/kernels/shear/torch.py
@@ -101,6 +101,13 @@ def _g2g2_fn(
     )
 
 
+def _drop_point_dims(full_m):
+    # a single point has no dimension of its own, but a batch of one keeps it
+    return torch.squeeze(
+        full_m, tuple(i for i in (-3, -1) if full_m.shape[i] == 1)
+    )
+
+
 # compute the full covariance matrix
 def _shear_33_fn(diffs, length_scale=1, **kwargs):
     assert diffs.ndim >= 3
@@ -159,7 +166,7 @@ def _shear_33_fn(diffs, length_scale=1, **kwargs):
         length_scale,
     )  # (2, 2)
 
-    return full_m
+    return _drop_point_dims(full_m)
 
 
 def _shear_Kin23_fn(diffs, length_scale=1.0, **kwargs):
-- 
2.43.0

