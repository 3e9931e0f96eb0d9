From d53446f40e3d1610cc70778f118856c7471a2551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:12 +0000
Subject: [PATCH 01/20] fix: accept supervised data in kernel herding, Stein
 thinning and KSD

The leaves of a SupervisedData cannot be unpacked into (data, weights).
---
 coreax/metrics.py            | 3 +--
 coreax/solvers/coresubset.py | 7 ++++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/coreax/metrics.py b/coreax/metrics.py
index 7848bc5..cfde3b5 100644
--- a/coreax/metrics.py
+++ b/coreax/metrics.py
@@ -30,7 +30,6 @@ import equinox as eqx
 import jax
 import jax.numpy as jnp
 import jax.scipy as jsp
-import jax.tree_util as jtu
 from jaxtyping import Array, Shaped
 
 import coreax.util
@@ -246,7 +245,7 @@ class KSD(Metric[Data]):
         """
         del kwargs
         # Train Stein kernel with data from P
-        x, w_x = jtu.tree_leaves(reference_data)
+        x, w_x = reference_data.data, reference_data.weights
         kernel = convert_stein_kernel(x, self.kernel, self.score_matching)
 
         # Variable rename allows for nicer automatic formatting.
diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index bc1198b..7fa14e5 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -24,7 +24,6 @@ import jax
 import jax.numpy as jnp
 import jax.random as jr
 import jax.scipy as jsp
-import jax.tree_util as jtu
 from jaxtyping import Array, ArrayLike, Bool, Float, Scalar, Shaped
 from typing_extensions import override
 
@@ -161,7 +160,8 @@ def _greedy_kernel_selection(
     # The kernel similarity penalty must be computed for the initial coreset. If we did
     # not support refinement, the penalty could be initialised to the zeroes vector, and
     # the result would be invariant to the initial coresubset.
-    data, data_weights = jtu.tree_leaves(coresubset.pre_coreset_data)
+    data = coresubset.pre_coreset_data.data
+    data_weights = coresubset.pre_coreset_data.weights
     init_kernel_similarity_penalty = init_coreset_size * kernel.compute_mean(
         data,
         padded_coresubset.points,
@@ -502,7 +502,8 @@ class SteinThinning(
         :return: A refined coresubset and relevant intermediate solver state
             information.
         """
-        x, w_x = jtu.tree_leaves(coresubset.pre_coreset_data)
+        dataset = coresubset.pre_coreset_data
+        x, w_x = dataset.data, dataset.weights
         kernel = convert_stein_kernel(x, self.kernel, self.score_matching)
         stein_kernel_diagonal = jax.vmap(self.kernel.compute_elementwise)(x, x)
         if self.regularise:
-- 
2.43.0


From 5d8d005f40f28a63e9c2ebe77e378177717c569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:18 +0000
Subject: [PATCH 02/20] fix: Stein thinning ignores zero-weighted points when
 fitting the score

The default density-based score was fitted to zero-weighted (padding) points as
well, although the solver promises to be invariant to them.
---
 coreax/score_matching.py     | 20 ++++++++++++++++----
 coreax/solvers/coresubset.py |  2 +-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/coreax/score_matching.py b/coreax/score_matching.py
index e215568..d5f1bc6 100644
--- a/coreax/score_matching.py
+++ b/coreax/score_matching.py
@@ -47,6 +47,7 @@ from jaxtyping import Array, DTypeLike, Float, Shaped
 from tqdm import tqdm
 from typing_extensions import override
 
+from coreax.data import Data
 from coreax.kernels import ScalarValuedKernel, SquaredExponentialKernel, SteinKernel
 from coreax.networks import ScoreNetwork, _LearningRateOptimiser, create_train_state
 from coreax.util import KeyArrayLike
@@ -383,10 +384,14 @@ class KernelDensityMatching(ScoreMatching):
         the kernel density estimate.
 
         :param x: Set of :math:`n \times d` samples from the underlying distribution
-            that are used to build the kernel density estimate
+            that are used to build the kernel density estimate; if ``x`` is of type
+            :class:`~coreax.data.Data`, the density estimate is weighted
         :return: A function that applies the learned score function to input ``x``
         """
         kde_data = x
+        kde_points, kde_weights = (
+            (x.data, x.weights) if isinstance(x, Data) else (x, None)
+        )
 
         @overload
         def score_function(
@@ -423,7 +428,9 @@ class KernelDensityMatching(ScoreMatching):
             gram_matrix_row_means = self.kernel.compute_mean(x_, kde_data, axis=1)
 
             # Compute gradients with respect to x
-            gradients = self.kernel.grad_x(x_, kde_data).mean(axis=1)
+            gradients = jnp.average(
+                self.kernel.grad_x(x_, kde_points), axis=1, weights=kde_weights
+            )
 
             # Compute final evaluation of the score function
             score_result = gradients / gram_matrix_row_means[:, None]
@@ -439,14 +446,15 @@ class KernelDensityMatching(ScoreMatching):
 
 
 def convert_stein_kernel(
-    x: Shaped[Array, " n d"],
+    x: Shaped[Array, " n d"] | Data,
     kernel: ScalarValuedKernel,
     score_matching: ScoreMatching | None,
 ) -> SteinKernel:
     r"""
     Convert the kernel to a :class:`~coreax.kernels.SteinKernel`.
 
-    :param x: The data used to call `score_matching.match(x)`
+    :param x: The data used to call `score_matching.match(x)`; the weights of weighted
+        data are used by :class:`~coreax.score_matching.KernelDensityMatching` only
     :param kernel: :class:`~coreax.kernels.ScalarValuedKernel` instance implementing a
         kernel function
         :math:`k: \mathbb{R}^d \times \mathbb{R}^d \rightarrow \mathbb{R}`; if 'kernel'
@@ -460,6 +468,10 @@ def convert_stein_kernel(
        function is used.
     :return: The (potentially) converted/updated :class:`~coreax.kernels.SteinKernel`.
     """
+    if score_matching is not None and not isinstance(
+        score_matching, KernelDensityMatching
+    ):
+        x = x.data if isinstance(x, Data) else x
     if isinstance(kernel, SteinKernel):
         if score_matching is not None:
             _kernel = eqx.tree_at(
diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index 7fa14e5..82d3bd3 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -504,7 +504,7 @@ class SteinThinning(
         """
         dataset = coresubset.pre_coreset_data
         x, w_x = dataset.data, dataset.weights
-        kernel = convert_stein_kernel(x, self.kernel, self.score_matching)
+        kernel = convert_stein_kernel(dataset, self.kernel, self.score_matching)
         stein_kernel_diagonal = jax.vmap(self.kernel.compute_elementwise)(x, x)
         if self.regularise:
             kde = jsp.stats.gaussian_kde(x.T, weights=w_x, bw_method=self.kde_bw_method)
-- 
2.43.0


From 74f255b6b57fc762a243007b2e920f940c5817d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:13 +0000
Subject: [PATCH 03/20] fix: Stein thinning selects points with the induced
 Stein kernel

The diagonal and the greedy penalty were computed with the kernel passed by the
user rather than the Stein kernel converted from it.
---
 coreax/solvers/coresubset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index 82d3bd3..10ed59b 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -505,7 +505,7 @@ class SteinThinning(
         dataset = coresubset.pre_coreset_data
         x, w_x = dataset.data, dataset.weights
         kernel = convert_stein_kernel(dataset, self.kernel, self.score_matching)
-        stein_kernel_diagonal = jax.vmap(self.kernel.compute_elementwise)(x, x)
+        stein_kernel_diagonal = jax.vmap(kernel.compute_elementwise)(x, x)
         if self.regularise:
             kde = jsp.stats.gaussian_kde(x.T, weights=w_x, bw_method=self.kde_bw_method)
 
@@ -544,7 +544,7 @@ class SteinThinning(
             coresubset,
             selection_function,
             self.coreset_size,
-            self.kernel,
+            kernel,
             self.unique,
             self.block_size,
             self.unroll,
-- 
2.43.0


From 025f69c0cf463fb1becd5b3c44383306b5b2e603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:13 +0000
Subject: [PATCH 04/20] fix: gradients of constant kernels have the shape of
 the point

---
 coreax/kernels/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coreax/kernels/base.py b/coreax/kernels/base.py
index 0e4b74d..0a957ed 100644
--- a/coreax/kernels/base.py
+++ b/coreax/kernels/base.py
@@ -608,11 +608,11 @@ class _Constant(ScalarValuedKernel):
 
     @override
     def grad_x_elementwise(self, x, y):
-        return jnp.asarray(0)
+        return jnp.zeros_like(x)
 
     @override
     def grad_y_elementwise(self, x, y):
-        return jnp.asarray(0)
+        return jnp.zeros_like(y)
 
     @override
     def divergence_x_grad_y_elementwise(self, x, y):
-- 
2.43.0


From 7004ed477844aefa0fb5c54b980a18dc5982f1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:03 +0000
Subject: [PATCH 05/20] fix: first power of a kernel has the divergence of that
 kernel

'compute ** (n - 2)' gave NaN for a power of one where the kernel is zero.
---
 coreax/kernels/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coreax/kernels/base.py b/coreax/kernels/base.py
index 0a957ed..b4cc909 100644
--- a/coreax/kernels/base.py
+++ b/coreax/kernels/base.py
@@ -683,6 +683,9 @@ class PowerKernel(UniCompositeKernel, ScalarValuedKernel):
     @override
     def divergence_x_grad_y_elementwise(self, x, y):
         n = self.power
+        if n == 1:
+            # Avoids 'compute ** (n - 2)', undefined where the base kernel is zero
+            return self.base_kernel.divergence_x_grad_y_elementwise(x, y)
         compute = self.base_kernel.compute_elementwise(x, y)
         return n * (
             (
-- 
2.43.0


From 3068b63e430f8ac98dc392de4b0508b9de3c0ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:03 +0000
Subject: [PATCH 06/20] fix: probabilistic kernel herding supports
 zero-weighted points

Their undefined residual made every selection probability NaN.
---
 coreax/solvers/coresubset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index 10ed59b..a572375 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -342,6 +342,10 @@ class KernelHerding(
 
             # Apply softmax to the metric for probabilistic selection
             if self.probabilistic:
+                # Zero-weighted points have an undefined residual; never select them
+                valid_residuals = jnp.where(
+                    jnp.isnan(valid_residuals), -jnp.inf, valid_residuals
+                )
                 probs = jax.nn.softmax(valid_residuals / self.temperature)
                 key = jr.fold_in(self.random_key, i)
                 return jr.choice(
-- 
2.43.0


From 98d957f791c895b88fe2cfc03cfce1905fd47c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:03 +0000
Subject: [PATCH 07/20] fix: blocking padding never poisons the mean of a
 kernel

A kernel that is undefined at the zero-valued padding (such as a Stein kernel
whose score underflows there) turned the whole mean into NaN.
---
 coreax/kernels/base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/coreax/kernels/base.py b/coreax/kernels/base.py
index b4cc909..03efdbb 100644
--- a/coreax/kernels/base.py
+++ b/coreax/kernels/base.py
@@ -570,8 +570,13 @@ class ScalarValuedKernel(eqx.Module):  # noqa: PLR0904
                 """Block reduce/accumulate over ``y``."""
                 x_, w_x = x_block.data, x_block.weights
                 y_, w_y = y_block.data, y_block.weights
-                column_sum_slice = jnp.dot(self.compute(x_, y_), w_y)
-                accumulated_sum += jnp.dot(w_x, column_sum_slice)
+                # The kernel may be undefined (e.g. NaN) at zero-weighted padding
+                column_sum_slice = jnp.dot(
+                    jnp.where(w_y != 0, self.compute(x_, y_), 0), w_y
+                )
+                accumulated_sum += jnp.dot(
+                    w_x, jnp.where(w_x != 0, column_sum_slice, 0)
+                )
                 return accumulated_sum, column_sum_slice
 
             accumulated_sum, column_sum_slices = jax.lax.scan(
-- 
2.43.0


From 3497cec8aceecf3da1774a181da1963fbf3d5539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:03 +0000
Subject: [PATCH 08/20] fix: greedy kernel points never selects the padding
 index

---
 coreax/solvers/coresubset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index a572375..0d787f1 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -1014,6 +1014,9 @@ def _update_candidate_coresets_and_coreset_indices(
             coreset_indices.at[i].set(-1),
         )
         loss += jnp.where(already_chosen_indices_mask, jnp.inf, 0)
+    else:
+        # The padding index -1 is not a data pair, so it must never be chosen
+        loss += jnp.where(candidate_coresets[:, i] == -1, jnp.inf, 0)
     index_to_include_in_coreset = candidate_coresets[loss.argmin(), i]
 
     # Repeat the chosen coreset index into the ith column of the array of
-- 
2.43.0


From 5358ce8c3ba382ef2c15bd1acde209f31183c410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:03 +0000
Subject: [PATCH 09/20] fix: kernel halving copes with pairs of coinciding
 points

Such a pair made sigma NaN, so that no later pair was ever swapped.
---
 coreax/solvers/coresubset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index 0d787f1..6671a94 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -1475,11 +1475,14 @@ class KernelThinning(CoresubsetSolver[_Data, None], ExplicitSizeSolver):
             :param x2: The second data point.
             :return: The kernel distance between `x1` and `x2`.
             """
-            return jnp.sqrt(k(x1, x1) + k(x2, x2) - 2 * k(x1, x2))
+            squared_distance = k(x1, x1) + k(x2, x2) - 2 * k(x1, x2)
+            return jnp.sqrt(jnp.maximum(squared_distance, 0))
 
         def get_a_and_sigma(b, sigma):
             """Compute 'a' and new sigma parameter."""
             a = jnp.maximum(b * sigma * jnp.sqrt(2 * jnp.log(2 / self.delta)), b**2)
+            # If the points coincide, 'a' is zero and does not matter; avoid 0 / 0
+            a = jnp.where(a > 0, a, 1)
 
             # Update sigma
             new_sigma = jnp.sqrt(
-- 
2.43.0


From 241b9d6bd39211ed966b499268923925538870d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:53 +0000
Subject: [PATCH 10/20] fix: map-reduce terminates for leaf sizes below twice
 the coreset size

Partitions can be half as large as the leaf size, and so no larger than the
coreset; reducing them failed, or made no progress and never terminated.
---
 coreax/solvers/composite.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coreax/solvers/composite.py b/coreax/solvers/composite.py
index b66a4d6..a22c30c 100644
--- a/coreax/solvers/composite.py
+++ b/coreax/solvers/composite.py
@@ -161,8 +161,11 @@ class MapReduce(
                     return x.points, x.indices.data
                 return x.points, None
 
+            # Partitions may be as small as half the size passed here, but each must
+            # hold more than 'coreset_size' points for the recursion to terminate.
+            partition_size = max(self.leaf_size, 2 * self.base_solver.coreset_size)
             partitioned_dataset, partitioned_indices = _jit_tree(
-                data, self.leaf_size, self.tree_type
+                data, partition_size, self.tree_type
             )
             # Reduce each partition and get indices from each
             coreset_ensemble, ensemble_indices = jax.vmap(wrapper)(partitioned_dataset)
-- 
2.43.0


From 909dde611acb52863f002c0a9ae7581839c931be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:53 +0000
Subject: [PATCH 11/20] fix: map-reduce never selects padding

Padding the dataset before building the tree let the padding accumulate in some
leaves, which were then left with too few points to select from.
---
 coreax/solvers/composite.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/coreax/solvers/composite.py b/coreax/solvers/composite.py
index a22c30c..81b9009 100644
--- a/coreax/solvers/composite.py
+++ b/coreax/solvers/composite.py
@@ -205,14 +205,11 @@ def _jit_tree(
     :return: The partitioned dataset
     """
     # To enable JIT compatibility, we must know the number of points per-leaf a priori.
-    # Unfortunately, when the dataset size is not an integer power of two, the KDTree
-    # may produce variable sized leaves where the number of points in each leaf obeys:
-    # leaf_size <= n_points <= 2 * leaf_size
-    # It is not obvious in this case if 'n_points' can be determined a priori.
-    #
-    # A simple solution is to pad the dataset with zero valued and weighted points, up
-    # to the smallest integer power of two. An additional benefit of this padding is
-    # that all partitions will be perfectly balanced (of identical size).
+    # The BinaryTree recursively splits the (permuted) points in the middle, so that the
+    # sizes of its leaves differ by at most one. Each leaf that is one point short is
+    # padded with a zero valued and weighted point, such that all partitions have
+    # identical size. Padding the leaves, rather than the dataset that the tree is built
+    # from, ensures that the padding cannot accumulate in some of the leaves.
     #
     # IMPORTANT: the base solver should ignore/be invariant to these padding values;
     # ignorance is weaker condition than invariance. For example, due to implementation
@@ -224,16 +221,23 @@ def _jit_tree(
     # Divide by two so the leaf_size is the partition size.
     _leaf_size = max(1, leaf_size // 2)
     n_leaves = 2 ** max(0, math.floor(math.log2((len(dataset) - 1) / _leaf_size)))
-    padding = math.ceil(len(dataset) / n_leaves) * n_leaves - len(dataset)
-    padded_dataset = tree_zero_pad_leading_axis(dataset, padding)
-    shape = (n_leaves, len(padded_dataset) // n_leaves)
+    padded_dataset = tree_zero_pad_leading_axis(dataset, 1)
+    bounds = [0, len(dataset)]
+    while len(bounds) <= n_leaves:
+        middles = [(start + end) // 2 for start, end in zip(bounds, bounds[1:])]
+        bounds = sorted(bounds + middles)
+    shape = (n_leaves, math.ceil(len(dataset) / n_leaves))
     result_shape = jax.ShapeDtypeStruct(shape, jnp.int32)
 
     def _binary_tree(_input_data: Data) -> np.ndarray:
         _, node_indices, _, _ = tree_type(
             _input_data.data, leaf_size=_leaf_size, sample_weight=_input_data.weights
         ).get_arrays()
-        return node_indices.reshape(n_leaves, -1).astype(np.int32)
+        # All positions that are not filled below refer to the padding
+        leaf_indices = np.full(shape, len(dataset), dtype=np.int32)
+        for leaf, start, end in zip(leaf_indices, bounds, bounds[1:]):
+            leaf[: end - start] = node_indices[start:end]
+        return leaf_indices
 
-    indices = jax.pure_callback(_binary_tree, result_shape, padded_dataset)
+    indices = jax.pure_callback(_binary_tree, result_shape, dataset)
     return padded_dataset[indices], jnp.arange(len(dataset))[indices]
-- 
2.43.0


From 4c9c974526cecc1d2c164e151630d1227c144328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:07 +0000
Subject: [PATCH 12/20] fix: unique refinement excludes all other members of a
 padded coresubset

When the initial coresubset is smaller than the requested size it is padded with the
zero index, and the scatter that excludes the other members from selection wrote
conflicting values for index zero, such that a member at index zero could be selected
for another position.
---
 coreax/solvers/coresubset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index 6671a94..5e4be13 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -193,13 +193,15 @@ def _greedy_kernel_selection(
             data_weights > 0, kernel_similarity_penalty, jnp.nan
         )
         if unique:  # Temporarily exclude other coreset members from being selected
+            # NOTE: indices may be repeated (e.g. by the zero-weighted padding), so the
+            # update must not depend on the order in which the indices are visited.
             valid_kernel_similarity_penalty = valid_kernel_similarity_penalty.at[
                 coreset_indices
-            ].set(
+            ].add(
                 jnp.where(
                     (coreset_indices != coreset_indices[i]) & (coreset_weights > 0),
                     jnp.inf,
-                    valid_kernel_similarity_penalty[coreset_indices],
+                    0.0,
                 )
             )
         updated_coreset_index = selection_function(
-- 
2.43.0


From ba422ee35d2e65b89afd61f2da1c1eb5bdd37bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:07 +0000
Subject: [PATCH 13/20] fix: default Stein thinning regularisation is one over
 the coreset size

The documented default was only used when refining a coresubset that already has the
requested size; the size of the initial coresubset was used otherwise.
---
 coreax/solvers/coresubset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index 5e4be13..d45362c 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -517,7 +517,7 @@ class SteinThinning(
 
             if self.regulariser_lambda is None:
                 # Use regularisation parameter suggested in :cite:`benard2023kernel`
-                regulariser_lambda = 1 / len(coresubset)
+                regulariser_lambda = 1 / self.coreset_size
             else:
                 regulariser_lambda = self.regulariser_lambda
 
-- 
2.43.0


From 0d0b2087a67c9b6290af8f7903f24185dff86fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:17 +0000
Subject: [PATCH 14/20] fix: tree recombination only reports indices of dataset
 rows

---
 coreax/solvers/recombination.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coreax/solvers/recombination.py b/coreax/solvers/recombination.py
index a89579d..5ab6b9b 100644
--- a/coreax/solvers/recombination.py
+++ b/coreax/solvers/recombination.py
@@ -559,7 +559,10 @@ class TreeRecombination(RecombinationSolver[Data, None]):
             updated_indices = _indices[weight_update_indices.reshape(-1, order="F")]
             return updated_weights.reshape(-1, order="F"), updated_indices
 
-        in_state = (jnp.pad(weights, (0, padding)), jnp.arange(n + padding))
+        # The zero-weighted padding refers to the last node, rather than to rows beyond
+        # the end of the dataset, as padded indices can appear in the coresubset.
+        in_indices = jnp.pad(jnp.arange(n), (0, padding), mode="edge")
+        in_state = (jnp.pad(weights, (0, padding)), in_indices)
         out_weights, indices = jax.lax.fori_loop(0, depth, _tree_reduce, in_state)
         coresubset_nodes = _coresubset_nodes(
             push_forward_nodes, out_weights, indices, self.mode
-- 
2.43.0


From b8152438699165ab701704bd930b15b4903b60c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:45 +0000
Subject: [PATCH 15/20] fix: recombination never pivots on rounding errors

---
 coreax/solvers/recombination.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/coreax/solvers/recombination.py b/coreax/solvers/recombination.py
index 5ab6b9b..c44d425 100644
--- a/coreax/solvers/recombination.py
+++ b/coreax/solvers/recombination.py
@@ -239,8 +239,13 @@ class CaratheodoryRecombination(RecombinationSolver[Data, None]):
             _weights, null_space_basis, basis_index = state
             basis_vector = null_space_basis[basis_index]
             # Equation 3: Select the weight to eliminate.
+            # NOTE: Entries at the level of rounding error are treated as equal to zero;
+            # pivoting on these would destroy the null space basis.
+            rounding_error = jnp.finfo(basis_vector.dtype).eps * basis_vector.shape[0]
             elimination_condition = jnp.where(
-                basis_vector > 0, _weights / basis_vector, jnp.inf
+                basis_vector > rounding_error * jnp.max(jnp.abs(basis_vector)),
+                _weights / basis_vector,
+                jnp.inf,
             )
             elimination_index = jnp.argmin(elimination_condition)
             elimination_rescaling_factor = elimination_condition[elimination_index]
@@ -248,6 +253,7 @@ class CaratheodoryRecombination(RecombinationSolver[Data, None]):
             # NOTE: Equation 5 is implicit from Equation 4 and is performed outside
             # of `_eliminate` via `_coresubset_nodes`.
             updated_weights = _weights - elimination_rescaling_factor * basis_vector
+            updated_weights = jnp.maximum(updated_weights, 0)
             updated_weights = updated_weights.at[elimination_index].set(0)
             # Equations 6, 7 and 8: Update the Null space basis.
             null_space_basis_update = jnp.tensordot(
-- 
2.43.0


From 125fdf9b64b0b7e81ab9e7f8046ef16460225b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:03 +0000
Subject: [PATCH 16/20] fix: number of halving steps in kernel thinning is
 exact

---
 coreax/solvers/coresubset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index d45362c..faa71f3 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -1384,7 +1384,8 @@ class KernelThinning(CoresubsetSolver[_Data, None], ExplicitSizeSolver):
         if self.coreset_size > len(dataset):
             raise ValueError(MSG)
         n = len(dataset)
-        m = math.floor(math.log2(n) - math.log2(self.coreset_size))
+        # Largest 'm' with 'coreset_size * 2**m <= n' (not subject to rounding errors)
+        m = (n // self.coreset_size).bit_length() - 1
         clipped_original_dataset = dataset[: self.coreset_size * 2**m]
 
         partition = self.kt_half_recursive(clipped_original_dataset, m, dataset)
-- 
2.43.0


From abf8c5785d51ac3f4b45d6c97dc5e9a6c7feb6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:05 +0000
Subject: [PATCH 17/20] fix: weights optimisers respect the weights of the
 dataset

The optimised weights minimised the discrepancy to the unweighted data array, so
that solve_weights could increase the (weighted) metric of the coreset.
---
 coreax/weights.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coreax/weights.py b/coreax/weights.py
index 3ece129..a5ae592 100644
--- a/coreax/weights.py
+++ b/coreax/weights.py
@@ -136,9 +136,10 @@ def _prepare_kernel_system(
         and type(coreset) is Data
         and isinstance(kernel, ScalarValuedKernel)
     ):
-        x_d, x_c = dataset.data, coreset.data
+        x_c = coreset.data
+        # Pass 'dataset' rather than its array, so that its weights are respected
         kernel_cd = kernel.compute_mean(
-            x_d, x_c, axis=0, block_size=block_size, unroll=unroll
+            dataset, x_c, axis=0, block_size=block_size, unroll=unroll
         )
         kernel_cc = kernel.compute(x_c, x_c) + epsilon * jnp.eye(len(coreset))
     else:
-- 
2.43.0


From be2cf98e18ccd715b43d7f6653421943bb209bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:36 +0000
Subject: [PATCH 18/20] fix: kernel derivatives accept scalars and integers as
 documented

---
 coreax/kernels/base.py          | 16 ++++++++++++----
 coreax/kernels/scalar_valued.py | 11 ++++++-----
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/coreax/kernels/base.py b/coreax/kernels/base.py
index 03efdbb..fcd7312 100644
--- a/coreax/kernels/base.py
+++ b/coreax/kernels/base.py
@@ -64,6 +64,14 @@ from coreax.kernels.util import _block_data_convert
 from coreax.util import pairwise, tree_leaves_repeat
 
 
+def _as_floats(*arguments: Any) -> tuple[Array, ...]:
+    """Convert arguments to floating point arrays, as required to differentiate."""
+    return tuple(
+        x if jnp.issubdtype(jnp.result_type(x), jnp.inexact) else jnp.asarray(x, float)
+        for x in arguments
+    )
+
+
 class ScalarValuedKernel(eqx.Module):  # noqa: PLR0904
     """Abstract base class for scalar-valued kernels."""
 
@@ -292,7 +300,7 @@ class ScalarValuedKernel(eqx.Module):  # noqa: PLR0904
         :return: Jacobian
             :math:`\nabla_\mathbf{x} k(\mathbf{x}, \mathbf{y}) \in \mathbb{R}^d`
         """
-        return jax.grad(self.compute_elementwise, 0)(x, y)
+        return jax.grad(self.compute_elementwise, 0)(*_as_floats(x, y))
 
     @overload
     def grad_y_elementwise(
@@ -325,7 +333,7 @@ class ScalarValuedKernel(eqx.Module):  # noqa: PLR0904
         :return: Jacobian
             :math:`\nabla_\mathbf{y} k(\mathbf{x}, \mathbf{y}) \in \mathbb{R}^d`
         """
-        return jax.grad(self.compute_elementwise, 1)(x, y)
+        return jax.grad(self.compute_elementwise, 1)(*_as_floats(x, y))
 
     @overload
     def divergence_x_grad_y(
@@ -386,8 +394,8 @@ class ScalarValuedKernel(eqx.Module):  # noqa: PLR0904
         :param y: Second vector :math:`\mathbf{y} \in \mathbb{R}^d`
         :return: Trace of the Laplace-style operator; a real number
         """
-        pseudo_hessian = jax.jacrev(self.grad_y_elementwise, 0)(x, y)
-        return pseudo_hessian.trace()
+        pseudo_hessian = jax.jacrev(self.grad_y_elementwise, 0)(*_as_floats(x, y))
+        return jnp.atleast_2d(pseudo_hessian).trace()
 
     def gramian_row_mean(
         self,
diff --git a/coreax/kernels/scalar_valued.py b/coreax/kernels/scalar_valued.py
index 2488e5e..ab321dc 100644
--- a/coreax/kernels/scalar_valued.py
+++ b/coreax/kernels/scalar_valued.py
@@ -121,7 +121,7 @@ class PolynomialKernel(ScalarValuedKernel):
     def divergence_x_grad_y_elementwise(self, x, y):
         dot = jnp.dot(x, y)
         body = dot + self.constant
-        d = len(jnp.asarray(x))
+        d = len(jnp.atleast_1d(x))
 
         return (
             self.output_scale
@@ -223,7 +223,8 @@ class LaplacianKernel(ScalarValuedKernel):
     @override
     def compute_elementwise(self, x, y):
         return self.output_scale * jnp.exp(
-            -jnp.linalg.norm(jnp.subtract(x, y), ord=1) / (2 * self.length_scale**2)
+            -jnp.linalg.norm(jnp.atleast_1d(jnp.subtract(x, y)), ord=1)
+            / (2 * self.length_scale**2)
         )
 
     @override
@@ -241,7 +242,7 @@ class LaplacianKernel(ScalarValuedKernel):
     @override
     def divergence_x_grad_y_elementwise(self, x, y):
         k = self.compute_elementwise(x, y)
-        d = len(jnp.asarray(x))
+        d = len(jnp.atleast_1d(x))
         return -d * k / (4 * self.length_scale**4)
 
 
@@ -290,7 +291,7 @@ class SquaredExponentialKernel(ScalarValuedKernel):
     def divergence_x_grad_y_elementwise(self, x, y):
         k = self.compute_elementwise(x, y)
         scale = 1 / self.length_scale**2
-        d = len(jnp.asarray(x))
+        d = len(jnp.atleast_1d(x))
         return scale * k * (d - scale * squared_distance(x, y))
 
     def get_sqrt_kernel(self, dim: int) -> "SquaredExponentialKernel":
@@ -363,7 +364,7 @@ class PCIMQKernel(ScalarValuedKernel):
     def divergence_x_grad_y_elementwise(self, x, y):
         k = self.compute_elementwise(x, y) / self.output_scale
         scale = 2 * self.length_scale**2
-        d = len(jnp.asarray(x))
+        d = len(jnp.atleast_1d(x))
         return (
             self.output_scale
             / scale
-- 
2.43.0


From 896857baf617a657d3f18ffc008972ec6c16652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:56 +0000
Subject: [PATCH 19/20] fix: Monte Carlo approximate kernel uses the requested
 number of kernel points

---
 coreax/approximation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coreax/approximation.py b/coreax/approximation.py
index dd78e7d..cecef79 100644
--- a/coreax/approximation.py
+++ b/coreax/approximation.py
@@ -202,7 +202,7 @@ class MonteCarloApproximateKernel(RandomRegressionKernel):
 
         num_data_points = len(x)
         key = self.random_key
-        features_idx = _random_indices(key, num_data_points, self.num_kernel_points - 1)
+        features_idx = _random_indices(key, num_data_points, self.num_kernel_points)
         features = self.base_kernel.compute(x, x[features_idx])
         return _random_least_squares(
             key,
-- 
2.43.0


From 2fbc7b4c17f41ee58af65dae2f4b9bc395cf7a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:27 +0000
Subject: [PATCH 20/20] fix: greedy kernel points stays unique when a candidate
 batch is exhausted

---
 coreax/solvers/coresubset.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index faa71f3..4174c2a 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -1011,15 +1011,26 @@ def _update_candidate_coresets_and_coreset_indices(
     # we are refining (i.e. not reducing), we are allowed to keep the index that
     # currently exists in the coreset if it is the best one.
     if unique:
+        other_coreset_indices = coreset_indices.at[i].set(-1)
         already_chosen_indices_mask = jnp.isin(
-            candidate_coresets[:, i],
-            coreset_indices.at[i].set(-1),
+            candidate_coresets[:, i], other_coreset_indices
         )
         loss += jnp.where(already_chosen_indices_mask, jnp.inf, 0)
+        # A small batch of candidates may only hold indices already in the coreset, in
+        # which case we include the first index that is not. There is always such an
+        # index amongst the first 'coreset_size', as the coreset has one element less.
+        first_available_index = jnp.isin(
+            jnp.arange(len(coreset_indices)), other_coreset_indices
+        ).argmin()
+        index_to_include_in_coreset = jnp.where(
+            already_chosen_indices_mask.all(),
+            first_available_index,
+            candidate_coresets[loss.argmin(), i],
+        )
     else:
         # The padding index -1 is not a data pair, so it must never be chosen
         loss += jnp.where(candidate_coresets[:, i] == -1, jnp.inf, 0)
-    index_to_include_in_coreset = candidate_coresets[loss.argmin(), i]
+        index_to_include_in_coreset = candidate_coresets[loss.argmin(), i]
 
     # Repeat the chosen coreset index into the ith column of the array of
     # the candidate_batch_size x coreset_size candidate_coresets array. Replace the
-- 
2.43.0

