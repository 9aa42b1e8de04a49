From 7bdbcf9485a11491ed07028e039bdeaf01d7ef06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 01/42] fix: dense and Tucker sketches must contract right DRMs
 in their own mode order

---
 tt_sketch/sketching_methods/dense_sketch.py  | 7 +++++--
 tt_sketch/sketching_methods/tucker_sketch.py | 8 +++++---
 tt_sketch/utils.py                           | 9 +++++++++
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/tt_sketch/sketching_methods/dense_sketch.py b/tt_sketch/sketching_methods/dense_sketch.py
index 7d04138..cc6e7ec 100644
--- a/tt_sketch/sketching_methods/dense_sketch.py
+++ b/tt_sketch/sketching_methods/dense_sketch.py
@@ -1,7 +1,7 @@
 import numpy as np
 import numpy.typing as npt
 from tt_sketch.tensor import DenseTensor
-from tt_sketch.utils import matricize
+from tt_sketch.utils import matricize, reverse_right_modes
 
 
 def sketch_omega_dense(
@@ -12,7 +12,8 @@ def sketch_omega_dense(
     mu: int,
     **kwargs
 ) -> npt.NDArray:
-    X_mat = matricize(tensor.data, range(mu + 1), mat_shape=True)
+    X = reverse_right_modes(tensor.data, mu + 1)
+    X_mat = matricize(X, range(mu + 1), mat_shape=True)
     return left_sketch @ X_mat @ rigth_sketch.T
 
 
@@ -27,6 +28,7 @@ def sketch_psi_dense(
     ndim = tensor.ndim
     tensor_data = tensor.data
     if left_sketch is None:
+        tensor_data = reverse_right_modes(tensor_data, 1)
         tensor_mat = matricize(tensor_data, 0, mat_shape=True)
         Psi = tensor_mat @ right_sketch.T
         Psi = Psi.reshape((1,) + Psi.shape)
@@ -36,6 +38,7 @@ def sketch_psi_dense(
         Psi = Psi.reshape(Psi.shape + (1,))
     else:
         # Compute order 3 tensorisation of X
+        tensor_data = reverse_right_modes(tensor_data, mu + 1)
         tensor_ord3 = matricize(tensor_data, range(mu + 1), mat_shape=False)
         tensor_ord3 = tensor_ord3.reshape(
             np.prod(tensor_ord3.shape[:mu], dtype=int),
diff --git a/tt_sketch/sketching_methods/tucker_sketch.py b/tt_sketch/sketching_methods/tucker_sketch.py
index 96f4645..fe70b1f 100644
--- a/tt_sketch/sketching_methods/tucker_sketch.py
+++ b/tt_sketch/sketching_methods/tucker_sketch.py
@@ -3,7 +3,7 @@ from typing import Optional
 import numpy as np
 import numpy.typing as npt
 from tt_sketch.tensor import TuckerTensor
-from tt_sketch.utils import matricize
+from tt_sketch.utils import matricize, reverse_right_modes
 
 
 def sketch_omega_tucker(
@@ -15,7 +15,8 @@ def sketch_omega_tucker(
     **kwargs
 ):
     mode = tuple(range(mu + 1))
-    core_mat = matricize(tensor.core, mode, mat_shape=True)
+    core = reverse_right_modes(tensor.core, mu + 1)
+    core_mat = matricize(core, mode, mat_shape=True)
     return left_sketch.T @ core_mat @ right_sketch
 
 
@@ -29,7 +30,8 @@ def sketch_psi_tucker(
 ):
     left_dim = left_sketch.shape[0] if left_sketch is not None else 1
     right_dim = right_sketch.shape[0] if right_sketch is not None else 1
-    core_ord3 = tensor.core.reshape(left_dim, tensor.rank[mu], right_dim)
+    core = reverse_right_modes(tensor.core, mu + 1)
+    core_ord3 = core.reshape(left_dim, tensor.rank[mu], right_dim)
     if left_sketch is None:
         Psi = np.einsum("ijk,kl->ijl", core_ord3, right_sketch)  # type: ignore
     elif right_sketch is None:
diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 22d33a7..36c9e2c 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -83,6 +83,15 @@ def matricize(
     return A
 
 
+def reverse_right_modes(A: npt.NDArray, n_left: int) -> npt.NDArray:
+    """Reverse the order of all but the first ``n_left`` modes of ``A``.
+
+    Right DRMs sketch the transposed tensor, so the columns of their matrices
+    are ordered by the reversed modes."""
+    perm = tuple(range(n_left)) + tuple(range(n_left, A.ndim))[::-1]
+    return np.transpose(A, perm)
+
+
 def dematricize(A, mode, shape):
     """Undo matricization of ``A`` with respect to ``mode``. Needs ``shape`` of
     original tensor."""
-- 
2.43.0


From 404b67c7c8c5b00dc580ebaee06e9ae936b03eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 02/42] fix: transposed DRM must have reversed shape and the
 ranks of the original

---
 tt_sketch/drm_base.py        |  7 +++----
 tt_sketch/sketch_dispatch.py | 10 ++++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/tt_sketch/drm_base.py b/tt_sketch/drm_base.py
index 8d35da0..39f524c 100644
--- a/tt_sketch/drm_base.py
+++ b/tt_sketch/drm_base.py
@@ -66,10 +66,9 @@ class DRM(ABC):
     def T(self):
         transposed = deepcopy(self)
         transposed.transpose = not self.transpose
-        transposed.true_rank = transposed.true_rank[::-1]
-        transposed.rank_min = transposed.rank_min[::-1]
-        transposed.rank_max = transposed.rank_max[::-1]
-        transposed.rank = transposed.rank[::-1]
+        # Ranks are stored in the direction of the sketch, so only the shape
+        # needs to be reversed.
+        transposed.shape = self.shape[::-1]
         return transposed
 
     def __repr__(self) -> str:
diff --git a/tt_sketch/sketch_dispatch.py b/tt_sketch/sketch_dispatch.py
index 40f937e..33cd2aa 100644
--- a/tt_sketch/sketch_dispatch.py
+++ b/tt_sketch/sketch_dispatch.py
@@ -219,7 +219,9 @@ def general_sketch(
 
     if left_drm is None:
         # This is just required for shape information in the case of HMT
-        left_drm = right_drm.T
+        left_rank = right_drm.rank[::-1]
+    else:
+        left_rank = left_drm.rank
 
     Psi_cores: ArrayList = []
 
@@ -228,7 +230,7 @@ def general_sketch(
     if method != SketchMethod.hmt:
         omega_method = OMEGA_METHODS[type(tensor)]
         for mu in range(n_dims - 1):
-            omega_shape = (left_drm.rank[mu], right_drm.rank[::-1][mu])
+            omega_shape = (left_rank[mu], right_drm.rank[::-1][mu])
             Omega_mats.append(
                 omega_method(
                     left_contractions[mu],
@@ -240,7 +242,7 @@ def general_sketch(
             )
 
     if method in (SketchMethod.hmt, SketchMethod.orthogonal):
-        left_psi_drm = OrthogTTDRM(left_drm.rank, tensor)
+        left_psi_drm = OrthogTTDRM(left_rank, tensor)
 
     # Compute Psi cores
     psi_method = PSI_METHODS[type(tensor)]
@@ -251,7 +253,7 @@ def general_sketch(
                 left_sketch = next(left_psi_drm)
             else:
                 left_sketch = left_contractions[mu - 1]
-            r1 = left_drm.rank[mu - 1]
+            r1 = left_rank[mu - 1]
         else:
             left_sketch = None
             r1 = 1
-- 
2.43.0


From f97a9f7b387f1b66ca24baa35ff984ba9a8874f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 03/42] fix: hmt_sketch(return_drm=True) used an undefined name

---
 tt_sketch/sketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index 4a79abf..b6c4fd2 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -73,7 +73,7 @@ def hmt_sketch(
 
     sketched = TensorTrain(sketch.Psi_cores)
     if return_drm:  # this really is mostly for testing purposes
-        return sketched, drm, right_drm  # type: ignore
+        return sketched, drm  # type: ignore
     else:
         return sketched
 
-- 
2.43.0


From 6f5de8fe297eb7ba97dded1f0dc76eb0fc2b2000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 04/42] fix: sliced TensorTrainDRM must also slice dense and
 Tucker sketches

---
 tt_sketch/drm/tensor_train_drm.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tt_sketch/drm/tensor_train_drm.py b/tt_sketch/drm/tensor_train_drm.py
index 985ce5c..625398e 100644
--- a/tt_sketch/drm/tensor_train_drm.py
+++ b/tt_sketch/drm/tensor_train_drm.py
@@ -110,7 +110,7 @@ class TensorTrainDRM(
     def sketch_dense(self, tensor: DenseTensor) -> ArrayGenerator:
         n_dims = len(self.shape)
         partial_contraction = self.cores[0].reshape(-1, self.cores[0].shape[-1])
-        yield partial_contraction.T
+        yield partial_contraction.T[self.rank_min[0] : self.rank_max[0]]
         for mu in range(1, n_dims - 1):
             core = self.cores[mu]
             partial_contraction = np.einsum(
@@ -119,7 +119,7 @@ class TensorTrainDRM(
             partial_contraction = partial_contraction.reshape(
                 -1, partial_contraction.shape[-1]
             )
-            yield partial_contraction.T
+            yield partial_contraction.T[self.rank_min[mu] : self.rank_max[mu]]
 
     @handle_transpose
     def sketch_tucker(self, tensor: TuckerTensor) -> ArrayGenerator:
@@ -128,9 +128,9 @@ class TensorTrainDRM(
             "ijk,jl->ilk", self.cores[0], tensor.factors[0].T
         )
         partial_contraction = partial_contraction.reshape(
-            tensor.rank[0], self.rank[0]
+            -1, partial_contraction.shape[-1]
         )
-        yield partial_contraction
+        yield partial_contraction[:, self.rank_min[0] : self.rank_max[0]]
 
         for mu in range(1, n_dims - 1):
             core_reduced = np.einsum(
@@ -142,4 +142,4 @@ class TensorTrainDRM(
             partial_contraction = partial_contraction.reshape(
                 -1, partial_contraction.shape[-1]
             )
-            yield partial_contraction
+            yield partial_contraction[:, self.rank_min[mu] : self.rank_max[mu]]
-- 
2.43.0


From f4d9e2f7af2cc58945a4ec8ff5a05900ec6eed8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 05/42] fix: multiplying an MPO by a scalar must not modify the
 MPO

---
 tt_sketch/tt_gmres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index f02ae69..d209ad5 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -129,7 +129,7 @@ class MPO(Tensor, TTLinearMap):
         return cls(cores)
 
     def __mul__(self, other: float) -> MPO:
-        new_cores = self.cores
+        new_cores = list(self.cores)
         new_cores[0] = new_cores[0] * other
         return self.__class__(new_cores)
 
-- 
2.43.0


From 077d223f96653b957d8dfe50e0b6a098c70723a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 06/42] fix: CPTensor.size must be a property

---
 tt_sketch/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 75fb187..b6511a2 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -685,6 +685,7 @@ class CPTensor(Tensor):
         self.rank = cores[0].shape[1]
         self.shape = tuple(C.shape[0] for C in cores)
 
+    @property
     def size(self) -> int:
         return sum(C.size for C in self.cores)
 
-- 
2.43.0


From f5977511aa4ff13087e14a6ee642d4219e830c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 07/42] fix: power_decay_tensor used an undefined name

---
 tt_sketch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 36c9e2c..d6af383 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -46,7 +46,7 @@ def power_decay_tensor(
     unfolding decay with a power law."""
     # if seed is not None:
     #     np.random.seed(np.mod(seed, 2**32 - 1))
-    seq = SeedSequence(seed)
+    seq = np.random.SeedSequence(seed)
     A_seed = seq.generate_state(1)[0]
     A = random_normal(shape=shape, seed=A_seed)
     for mode in range(len(A.shape)):
-- 
2.43.0


From 805e06d869a89af54cfc5879b73965f5affc1490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 08/42] fix: sqrt_tensor must have the requested shape

---
 tt_sketch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index d6af383..8e6eace 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -33,7 +33,7 @@ def sqrt_tensor(shape: Tuple[int, ...], a=-0.2, b=2) -> npt.NDArray:
         return np.sqrt(np.abs(np.sum(X, axis=0)))
 
     vals = [np.linspace(a, b, s) for s in shape]
-    grid = np.stack(np.meshgrid(*vals))
+    grid = np.stack(np.meshgrid(*vals, indexing="ij"))
     X = sqrt_sum(grid)
     X /= np.linalg.norm(X)
     return X
-- 
2.43.0


From 9b750f8c98e5c5128de74640782e6cfe32f88b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 09/42] fix: increase_rank must refuse DRMs that cannot
 increase their rank

---
 tt_sketch/sketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index b6c4fd2..a45de53 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -316,7 +316,7 @@ class SketchedTensorTrain(Tensor):
             new_right_rank, tensor.shape, trim=False
         )
         for drm in (self.left_drm, self.right_drm):
-            if not isinstance(drm, CanSlice):
+            if not isinstance(drm, CanIncreaseRank):
                 drm_name = drm.__class__.__name__
                 raise ValueError(
                     f"Increasing rank is not supported for DRM {drm_name}"
-- 
2.43.0


From 44778bcb6947c330f8c70a7915cf2536ccfa47e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 10/42] fix: open-ended slices of right DRMs reversed the ranks

---
 tt_sketch/drm_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tt_sketch/drm_base.py b/tt_sketch/drm_base.py
index 39f524c..ca87e27 100644
--- a/tt_sketch/drm_base.py
+++ b/tt_sketch/drm_base.py
@@ -95,10 +95,12 @@ class CanSlice(DRM):
             # If transpose, the rank will be reversed during init.
             # To keep rank the same, need to reverse it here as well.
             new_true_rank = self.true_rank[::-1]
+            rank = self.rank[::-1]
         else:
             new_true_rank = self.true_rank
+            rank = self.rank
         return self.__class__(
-            rank=self.rank,
+            rank=rank,
             shape=self.shape,
             transpose=self.transpose,
             seed=self.seed,
-- 
2.43.0


From fa682eff9f83d7debe59039c5f62de61fe0048cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 11/42] fix: slices of a TensorTrainDRM with given cores must
 use these cores

---
 tt_sketch/drm/tensor_train_drm.py | 3 +++
 tt_sketch/drm_base.py             | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/tt_sketch/drm/tensor_train_drm.py b/tt_sketch/drm/tensor_train_drm.py
index 625398e..c6ee495 100644
--- a/tt_sketch/drm/tensor_train_drm.py
+++ b/tt_sketch/drm/tensor_train_drm.py
@@ -57,6 +57,9 @@ class TensorTrainDRM(
         else:
             self.cores = kwargs["cores"]
 
+    def _slice_kwargs(self):
+        return {"cores": self.cores}
+
     @handle_transpose
     def sketch_sparse(self, tensor: SparseTensor) -> ArrayGenerator:
         for mu, core in enumerate(self.cores):
diff --git a/tt_sketch/drm_base.py b/tt_sketch/drm_base.py
index ca87e27..339f9b0 100644
--- a/tt_sketch/drm_base.py
+++ b/tt_sketch/drm_base.py
@@ -107,8 +107,13 @@ class CanSlice(DRM):
             rank_min=start_rank,
             rank_max=end_rank,
             true_rank=new_true_rank,
+            **self._slice_kwargs(),
         )
 
+    def _slice_kwargs(self) -> Dict[str, Any]:
+        """Further arguments needed to construct a slice of this DRM"""
+        return {}
+
 
 class CanIncreaseRank(CanSlice):
     """Mixin telling that the DRM supports rank increase and slicing.
-- 
2.43.0


From ae94e71d6951d2facec6976cf352813786641078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 12/42] fix: SparseSignDRM must keep, orient and validate its
 number of non-zeros

---
 tt_sketch/drm/sparse_sign_drm.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/tt_sketch/drm/sparse_sign_drm.py b/tt_sketch/drm/sparse_sign_drm.py
index d38634e..01b4a80 100644
--- a/tt_sketch/drm/sparse_sign_drm.py
+++ b/tt_sketch/drm/sparse_sign_drm.py
@@ -5,7 +5,7 @@ from tt_sketch.drm.fast_lazy_gaussian import inds_to_sparse_sign  # type: ignore
 from tt_sketch.drm_base import CanSlice, handle_transpose
 from tt_sketch.sketching_methods.abstract_methods import CansketchSparse
 from tt_sketch.tensor import SparseTensor
-from tt_sketch.utils import ArrayGenerator
+from tt_sketch.utils import ArrayGenerator, process_tt_rank
 
 
 class SparseSignDRM(CansketchSparse, CanSlice):
@@ -28,8 +28,19 @@ class SparseSignDRM(CansketchSparse, CanSlice):
     ) -> None:
         super().__init__(rank, shape, transpose, seed=seed, **kwargs)
         if num_non_zero_per_row is None:
-            num_non_zero_per_row = self.true_rank
-        self.nnz = num_non_zero_per_row
+            self.nnz = self.true_rank
+        else:
+            nnz = process_tt_rank(num_non_zero_per_row, shape, trim=False)
+            self.nnz = nnz[::-1] if transpose else nnz
+        if any(n > r for n, r in zip(self.nnz, self.true_rank)):
+            raise ValueError(
+                f"Number of non-zeros per row {self.nnz} can't exceed the rank"
+                f" {self.true_rank}"
+            )
+
+    def _slice_kwargs(self):
+        nnz = self.nnz[::-1] if self.transpose else self.nnz
+        return {"num_non_zero_per_row": nnz}
 
     @handle_transpose
     def sketch_sparse(self, tensor: SparseTensor) -> ArrayGenerator:
-- 
2.43.0


From 8d664da63869cda3cbfc8bf1629611f3aef0b4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 13/42] fix: DenseGaussianDRM must not use or reseed the global
 generator

---
 tt_sketch/drm/dense_gaussian_drm.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/tt_sketch/drm/dense_gaussian_drm.py b/tt_sketch/drm/dense_gaussian_drm.py
index 6d637f1..57934aa 100644
--- a/tt_sketch/drm/dense_gaussian_drm.py
+++ b/tt_sketch/drm/dense_gaussian_drm.py
@@ -39,20 +39,18 @@ class DenseGaussianDRM(
         if transpose:
             shape_sketch = shape_sketch[::-1]
 
-        # seq = SeedSequence(self.seed)
-        # seeds = seq.generate_state(len(self.true_rank))
+        seq = SeedSequence(self.seed)
+        seeds = seq.generate_state(len(self.true_rank))
         for mu, (r, n) in enumerate(
             zip(self.true_rank, shape_sketch[:-1])
         ):
             dim_prod *= n
 
             # TODO: make this correctly work with rank_increase and random_normal
-            np.random.seed(seed)
-            seed_offset = hash(np.random.uniform(0, dim_prod))
-            np.random.seed(np.mod(self.seed + seed_offset, 2**32 - 1))
+            rng = np.random.RandomState(seeds[mu])
 
             # sketching_mat = random_normal(shape=(r, dim_prod), seed=seed)
-            sketching_mat = np.random.normal(size=(r, dim_prod))
+            sketching_mat = rng.normal(size=(r, dim_prod))
             sketching_mat = sketching_mat[self.rank_min[mu] : self.rank_max[mu]]
             self.sketching_mats.append(sketching_mat)
 
-- 
2.43.0


From 98f49143d0d714e449bf811088761a003c9c2a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 14/42] fix: SparseTensor.random must not reseed the global
 generator

---
 tt_sketch/tensor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index b6511a2..b0c7309 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -261,10 +261,9 @@ class SparseTensor(Tensor):
         """
         Generates a random sparse tensor with `nnz` non-zero gaussian entries
         """
-        if seed is not None:
-            np.random.seed(seed)
+        rng = np.random if seed is None else np.random.RandomState(seed)
         total_size = np.prod(shape)
-        indices_flat = np.random.choice(total_size, size=nnz, replace=False)
+        indices_flat = rng.choice(total_size, size=nnz, replace=False)
         indices = np.unravel_index(indices_flat, shape)
         entries = random_normal(shape=(nnz,), seed=seed)
         return cls(shape, indices, entries)
-- 
2.43.0


From 9e4fd5c880a14f93a91c6e9ff0b7a25a061df21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 15/42] fix: trim_ranks must iterate until the ranks are
 consistent

---
 tt_sketch/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 8e6eace..df70db9 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -146,7 +146,7 @@ def trim_ranks(
         ranks_trimmed[i] = min(r, dim_left, dim_right)
     changed = True
     ranks_trimmed = [1] + ranks_trimmed + [1]
-    for _ in range(100):
+    while changed:
         changed = False
         for i, d in enumerate(dims):
             if ranks_trimmed[i + 1] > ranks_trimmed[i] * d:
@@ -155,8 +155,6 @@ def trim_ranks(
             if ranks_trimmed[i] > d * ranks_trimmed[i + 1]:
                 changed = True
                 ranks_trimmed[i] = d * ranks_trimmed[i + 1]
-        if not changed:
-            break
 
     return tuple(ranks_trimmed[1:-1])
 
-- 
2.43.0


From c216c7af1116f11b4d5d49f3466b769ca73d2dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 16/42] fix: the seed of the right DRM must not depend on
 string hash randomisation

---
 tt_sketch/sketch.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index a45de53..f4eed8b 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -38,6 +38,9 @@ DEFAULT_DRM = {
     CansketchCP: TensorTrainDRM,
 }
 
+# Added to the seed of the left DRM to obtain the seed of the right DRM
+RIGHT_SEED_OFFSET = 0x5BD1E995
+
 BlockedSketch = Dict[Tuple[int, int], SketchContainer]
 
 
@@ -129,7 +132,7 @@ def orthogonal_sketch(
             else:
                 right_drm_type = TensorTrainDRM
         right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
-        right_seed = np.mod(seed + hash(str(d)), 2**32)
+        right_seed = np.mod(seed + RIGHT_SEED_OFFSET + d, 2**32)
         right_drm = right_drm_type(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
@@ -207,7 +210,7 @@ def stream_sketch(
         right_rank = process_tt_rank(
             right_rank, tensor.shape, trim=left_rank_bigger
         )
-        right_seed = np.mod(seed + hash(str(d)), 2**32)
+        right_seed = np.mod(seed + RIGHT_SEED_OFFSET + d, 2**32)
         right_drm = right_drm_type(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
-- 
2.43.0


From 0b9e2333e3c06e18e75c8e3c079dc4b92f3fdd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 17/42] fix: seeded random numbers must not depend on the
 number of processors

---
 tt_sketch/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index df70db9..a8af65f 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -1,6 +1,5 @@
 # %%
 import concurrent.futures
-import multiprocessing
 from functools import reduce
 from operator import mul
 from typing import Generator, List, Optional, Sequence, Tuple, Union
@@ -16,6 +15,9 @@ ArrayList = List[npt.NDArray[np.float64]]
 ArrayGenerator = Generator[npt.NDArray[np.float64], None, None]
 TTRank = Union[int, Tuple[int, ...]]
 
+# Fixed, because the numbers generated from a seed depend on it
+NUM_RNG_STREAMS = 8
+
 
 def hilbert_tensor(n_dims: int, size: int) -> npt.NDArray:
     """Create a Hilbert tensor of specified size and dimensionality."""
@@ -191,7 +193,7 @@ class MultithreadedRNG:
 
     def __init__(self, shape, seed=None, threads=None):
         if threads is None:
-            threads = multiprocessing.cpu_count()
+            threads = NUM_RNG_STREAMS
         self.threads = threads
 
         seq = np.random.SeedSequence(seed)
-- 
2.43.0


From ccf540623ef122f90afd5444fd7285aaf68efb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 18/42] fix: exceptions while generating random numbers must
 not be swallowed

---
 tt_sketch/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index a8af65f..29d8e56 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -223,6 +223,8 @@ class MultithreadedRNG:
             )
             futures[self.executor.submit(*args)] = i
         concurrent.futures.wait(futures)
+        for future in futures:
+            future.result()  # raise exceptions of the workers
         self.values = self.values.reshape(self.shape)
 
     # def __del__(self):
-- 
2.43.0


From 0492378f6342121847594a2ee06ee4c4d5bea459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 19/42] fix: multiplying a sketch by a scalar used an undefined
 name

---
 tt_sketch/sketch_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/sketch_container.py b/tt_sketch/sketch_container.py
index fed61f3..9bc3c89 100644
--- a/tt_sketch/sketch_container.py
+++ b/tt_sketch/sketch_container.py
@@ -75,7 +75,7 @@ class SketchContainer:
         return self.__class__(Psi_cores_new, Omega_mats_new)
 
     def __mul__(self, other: float) -> SketchContainer:
-        new_Psi_cores = [Psi * other for Psi in new_Psi_cores]
+        new_Psi_cores = [Psi * other for Psi in self.Psi_cores]
         new_Omega_mats = [Omega * other for Omega in self.Omega_mats]
         return self.__class__(new_Psi_cores, new_Omega_mats)
 
-- 
2.43.0


From 72345067fbc85e4d9bc83e657d56bf3fea22afbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 20/42] fix: TT-GMRES must stop on the residual norm, not its
 square

---
 tt_sketch/tt_gmres.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index d209ad5..53c6b4d 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -401,9 +401,10 @@ def tt_sum_gmres(
         H_red = H_matrix[: j + 2, : j + 1]
         e1 = np.zeros(j + 2)
         e1[0] = beta
-        y, (residual_norm,), _, _ = np.linalg.lstsq(H_red, e1, rcond=None)
+        y = np.linalg.lstsq(H_red, e1, rcond=None)[0]
+        residual_norm = np.linalg.norm(H_red @ y - e1)
         history["step_time_with_res_norm"].append(perf_counter() - current_time)
-        history["residual_norm"].append(np.sqrt(residual_norm) / b_norm)
+        history["residual_norm"].append(residual_norm / b_norm)
         history["rank"].append(w_rounded.rank)
         history["w_norm"].append(H_matrix[j + 1, j])
         history["delta"].append(delta)
-- 
2.43.0


From 740b15900c64699484375964d46e2ef274a16b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 21/42] fix: TT-GMRES with zero iterations must return the
 initial guess

---
 tt_sketch/tt_gmres.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index 53c6b4d..088458b 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -369,6 +369,7 @@ def tt_sum_gmres(
     history["residual_norm"].append(residual_norm / b_norm)
     history["step_time"].append(perf_counter() - initial_time)
 
+    j, y = 0, np.zeros(1)  # used if there are no iterations
     for j in range(maxiter):
         current_time = perf_counter()
         delta = tolerance / (residual_norm / beta)
-- 
2.43.0


From c8bbf231094dbff902f22fc14173b47b5c6cc029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 22/42] fix: core and first factor of a random Tucker tensor
 used the same seed

---
 tt_sketch/tensor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index b0c7309..ae322d7 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -804,10 +804,9 @@ class TuckerTensor(Tensor):
         rank_tuple = tuple(min(r1, r2) for r1, r2 in zip(rank_tuple, shape))
 
         seq = SeedSequence(seed)
-        core_seed = seq.generate_state(1)[0]
-        core = random_normal(shape=rank_tuple, seed=core_seed)
+        seeds = seq.generate_state(d + 1)
+        core = random_normal(shape=rank_tuple, seed=seeds[d])
         factors = []
-        seeds = seq.generate_state(d)
         for r, n, seed in zip(rank_tuple, shape, seeds):
             U = random_normal(shape=(r, n), seed=seed)
             U = np.linalg.qr(U.T)[0].T
-- 
2.43.0


From b316a46921ccff388a215ea38ba5c9ac2b603135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 23/42] fix: direct sum of tensor trains with one core

---
 tt_sketch/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index ae322d7..45fb562 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -523,6 +523,8 @@ class TensorTrain(Tensor):
         Note, this does not overload the addition operator ``+``; the addition
         operator instead returns a lazy ``TensorSum`` object.
         """
+        if self.ndim == 1:
+            return self.__class__([self.cores[0] + other.cores[0]])
         new_cores = [np.concatenate((self.cores[0], other.cores[0]), axis=2)]
         for C1, C2 in zip(self.cores[1:-1], other.cores[1:-1]):
             r1, d, r2 = C1.shape
-- 
2.43.0


From 0ed0856b9bbcade0088c4b5966d768eaa3631de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 24/42] fix: partial_dense must refuse unknown directions

---
 tt_sketch/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 45fb562..1035065 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -402,6 +402,8 @@ class TensorTrain(Tensor):
                 new_core = np.einsum("ijk,kl->ijl", core, partial_cores[-1])
                 new_core = new_core.reshape(new_core.shape[0], -1)
                 partial_cores.append(new_core)
+        else:
+            raise ValueError(f"Unknown direction: {dir}")
         return partial_cores
 
     def __getitem__(self, index: int) -> npt.NDArray:
-- 
2.43.0


From 852f54e6680319484f19f3c3b331e712232a8cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 25/42] fix: svdvals failed for tensor trains with too large
 ranks

---
 tt_sketch/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 1035065..10c1fce 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -500,7 +500,7 @@ class TensorTrain(Tensor):
             else:
                 C_mat = C.reshape(C.shape[0] * C.shape[1], C.shape[2])
 
-            U, S, _ = np.linalg.svd(C_mat)
+            U, S, _ = np.linalg.svd(C_mat, full_matrices=False)
             svdvals.append(S)
         svdvals = svdvals[::-1]
         return svdvals
-- 
2.43.0


From dab908186dac5f9c4233476223aaa6d9d32977a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 26/42] fix: refuse to sketch unsupported formats with a
 ValueError

---
 tt_sketch/sketch_dispatch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tt_sketch/sketch_dispatch.py b/tt_sketch/sketch_dispatch.py
index 33cd2aa..1e453d6 100644
--- a/tt_sketch/sketch_dispatch.py
+++ b/tt_sketch/sketch_dispatch.py
@@ -149,6 +149,10 @@ def sum_sketch(tensor: TensorSum, *, drm: DRM):
 
 def get_sketch_method(tensor: Tensor, drm: DRM) -> Callable:
     if type(tensor) in DRM_SKETCH_METHOD_DISPATCH:
+        if not isinstance(drm, ABSTRACT_TENSOR_SKETCH_DISPATCH[type(tensor)]):
+            raise ValueError(
+                f"DRM of type {type(drm)} can't sketch {type(tensor)}"
+            )
         drm_sketch_method = DRM_SKETCH_METHOD_DISPATCH[type(tensor)]
         return getattr(drm, drm_sketch_method)
     elif isinstance(tensor, TensorSum):
-- 
2.43.0


From df95859446b4cf3e47c928fd6a96f9dd782c6ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 27/42] fix: ranks matching a given DRM must be accepted in
 every notation

---
 tt_sketch/sketch.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index f4eed8b..6cf16d9 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -66,7 +66,7 @@ def hmt_sketch(
         rank = process_tt_rank(rank, tensor.shape, trim=True)
         drm = drm_type(rank, transpose=True, shape=tensor.shape, seed=seed)
     else:
-        if tuple(drm.rank[::-1]) != rank:
+        if drm.rank[::-1] != process_tt_rank(rank, tensor.shape, trim=False):
             raise ValueError(
                 f"Right rank {rank} does not match the rank of the DRM "
                 f"{drm.rank}."
@@ -119,7 +119,9 @@ def orthogonal_sketch(
             left_rank, transpose=False, shape=tensor.shape, seed=seed
         )
     else:
-        if left_drm.rank != left_rank:
+        if left_drm.rank != process_tt_rank(
+            left_rank, tensor.shape, trim=False
+        ):
             raise ValueError(
                 f"Left rank {left_rank} does not match the rank of the DRM "
                 f"{left_drm.rank}."
@@ -137,7 +139,9 @@ def orthogonal_sketch(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
     else:
-        if tuple(right_drm.rank[::-1]) != right_rank:
+        if right_drm.rank[::-1] != process_tt_rank(
+            right_rank, tensor.shape, trim=False
+        ):
             raise ValueError(
                 f"Right rank {right_rank} does not match the rank of the DRM "
                 f"{right_drm.rank}."
@@ -195,7 +199,9 @@ def stream_sketch(
             left_rank, transpose=False, shape=tensor.shape, seed=seed
         )
     else:
-        if left_drm.rank != left_rank:
+        if left_drm.rank != process_tt_rank(
+            left_rank, tensor.shape, trim=False
+        ):
             raise ValueError(
                 f"Left rank {left_rank} does not match the rank of the DRM "
                 f"{left_drm.rank}."
@@ -215,7 +221,9 @@ def stream_sketch(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
     else:
-        if tuple(right_drm.rank[::-1]) != right_rank:
+        if right_drm.rank[::-1] != process_tt_rank(
+            right_rank, tensor.shape, trim=False
+        ):
             raise ValueError(
                 f"Right rank {right_rank} does not match the rank of the DRM "
                 f"{right_drm.rank}."
-- 
2.43.0


From 52c79df38cd7ddb3adadbbececd0b6598932e276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 28/42] fix: saving an experiment must not add an index column

---
 scripts/experiment_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/experiment_base.py b/scripts/experiment_base.py
index c5343e9..322cb3d 100644
--- a/scripts/experiment_base.py
+++ b/scripts/experiment_base.py
@@ -35,7 +35,7 @@ class Experiment:
         return cls(filename, data)
 
     def save(self):
-        self.data.to_csv(self.filename)
+        self.data.to_csv(self.filename, index=False)
 
     def check_experiment_done(self, conds):
         masks = []
-- 
2.43.0


From a1d2541186195bd271647393be73ebfce7db9007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 29/42] fix: lazily hashed maps of large tensors must not
 overflow 32-bit integers

---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index a80f2d4..7b36fbb 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -24,7 +24,7 @@ cpdef hash_int_c(uint64[:] vals):
     cdef uint64 mult2 = 0x94D049BB133111EB
     cdef uint64 add1 = 0X4BE98134A5976FD3
 
-    cdef int i
+    cdef Py_ssize_t i
     cdef uint64 r
     for i in range(N):
         r = vals[i]
@@ -58,13 +58,13 @@ cpdef double[:] _inds_to_rand_double(
     uint64 seed,
 ):  
     cdef uint64[:] indices_flat = np.copy(indices[0])
-    cdef int N = indices.shape[1]
+    cdef Py_ssize_t N = indices.shape[1]
     cdef int n_dim = len(shape)
     cdef int rank = rank_max - rank_min
 
-    cdef int prod = shape[0]
-    cdef int i
-    cdef int j
+    cdef uint64 prod = shape[0]
+    cdef Py_ssize_t i
+    cdef Py_ssize_t j
     for i in range(1,n_dim):
         for j in range(N):
             indices_flat[j] += indices[i,j] * prod
@@ -131,8 +131,8 @@ cdef short[:] _inds_to_sparse_sign(
         indices, shape, 0, nnz, seed
     )
     cdef short[:] sparse_sign = np.zeros((N*rank), dtype=np.int16)
-    cdef int i
-    cdef int j
+    cdef Py_ssize_t i
+    cdef Py_ssize_t j
     cdef int e
     cdef short temp
     cdef int rand_num
-- 
2.43.0


From 86fad99354464ede68e2dcb432fb926b58dc9e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 30/42] fix: consecutive seeds of lazily hashed maps gave
 shifted copies of the same numbers

---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index 7b36fbb..223a7dd 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -75,8 +75,11 @@ cpdef double[:] _inds_to_rand_double(
     # print(np.array(size_salt)) (if we increase rank then first r size salts
     # are still the same)
     
+    # Hash the seed too, since the DRMs use consecutive seeds for their modes
+    cdef uint64[:] seed_salt = np.array([seed], dtype=np.uint64)
+    hash_int_c(seed_salt)
     for i in range(rank):
-        size_salt[i] += seed
+        size_salt[i] += seed_salt[0]
 
     cdef uint64[:,:] indices_flat_large = np.empty(
         (N, rank), dtype=np.uint64
-- 
2.43.0


From 9260962f184c6dd17f2008d79e6e970ba35b12c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 31/42] fix: TT-GMRES without rounding failed

---
 tt_sketch/tt_gmres.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index 088458b..cc96fef 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -254,6 +254,13 @@ class TTLinearMapSum:
 #     return x
 
 
+def flat_summands(tensor: Tensor) -> List[TensorTrain]:
+    """List all tensor trains in a (possibly nested) sum"""
+    if isinstance(tensor, TensorSum):
+        return [tt for summand in tensor.tensors for tt in flat_summands(summand)]
+    return [tensor]  # type: ignore
+
+
 ROUNDING_MODE = Literal["exact", "pairwise", "sketch", "orth_sketch", None]
 
 
@@ -273,6 +280,7 @@ def round_tt_sum(
     - "orth_sketch": Use orthogonal sketch for rounding.
     - ``None``: Do not round (for debugging purposes mostly).
     """
+    tt_sum = TensorSum(flat_summands(tt_sum))
     if method == "exact":
         summands = tt_sum.tensors
         tt = summands[0]
@@ -365,7 +373,8 @@ def tt_sum_gmres(
 
     history: Dict[str, Any] = defaultdict(list)
     history["w_norm"].append(nu_list[-1].norm())
-    history["rank"].append(residual_rounded.rank)
+    # Without rounding this is a sum, which has no rank
+    history["rank"].append(getattr(residual_rounded, "rank", None))
     history["residual_norm"].append(residual_norm / b_norm)
     history["step_time"].append(perf_counter() - initial_time)
 
@@ -406,7 +415,7 @@ def tt_sum_gmres(
         residual_norm = np.linalg.norm(H_red @ y - e1)
         history["step_time_with_res_norm"].append(perf_counter() - current_time)
         history["residual_norm"].append(residual_norm / b_norm)
-        history["rank"].append(w_rounded.rank)
+        history["rank"].append(getattr(w_rounded, "rank", None))
         history["w_norm"].append(H_matrix[j + 1, j])
         history["delta"].append(delta)
 
-- 
2.43.0


From b012cc03f778ae9cb2cde35bb0092e7a10951e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 32/42] fix: pairwise rounding of a sum with one summand must
 round it

---
 tt_sketch/tt_gmres.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index cc96fef..2f23f40 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -289,6 +289,8 @@ def round_tt_sum(
         return tt.round(eps, max_rank)
     elif method == "pairwise":
         tt = tt_sum.tensors[0]
+        if tt_sum.num_summands == 1:
+            tt = tt.round(eps=eps, max_rank=max_rank)
         for t in tt_sum.tensors[1:]:
             tt = tt.add(t).round(eps=eps, max_rank=max_rank)
     elif method == "sketch":
-- 
2.43.0


From 9d47d5f3e90d1ab441685bc594452b1f72b21db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 33/42] fix: reloading an experiment must not turn the text
 None into a missing value

---
 scripts/experiment_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/experiment_base.py b/scripts/experiment_base.py
index 322cb3d..8e6de59 100644
--- a/scripts/experiment_base.py
+++ b/scripts/experiment_base.py
@@ -23,7 +23,7 @@ class Experiment:
         self.filename = filename
         if data is None:
             if isfile(filename) and not force_overwrite:
-                data = pd.read_csv(filename)
+                data = pd.read_csv(filename, keep_default_na=False, na_values="")
             else:
                 data = pd.DataFrame(columns=["name", "error", "time_taken"])
 
@@ -31,7 +31,7 @@ class Experiment:
 
     @classmethod
     def load(cls, filename):
-        data = pd.read_csv(filename)
+        data = pd.read_csv(filename, keep_default_na=False, na_values="")
         return cls(filename, data)
 
     def save(self):
-- 
2.43.0


From 73755fb18e80f7bc089c66007eead413523c5165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 34/42] fix: finished experiments must be recognised in
 reloaded tables with mixed columns

---
 scripts/experiment_base.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/scripts/experiment_base.py b/scripts/experiment_base.py
index 8e6de59..7577812 100644
--- a/scripts/experiment_base.py
+++ b/scripts/experiment_base.py
@@ -1,5 +1,5 @@
 import time
-from functools import reduce
+from functools import partial, reduce
 from os.path import isfile
 from typing import Callable, Dict, Optional, Any
 
@@ -9,6 +9,14 @@ from tt_sketch.tensor import Tensor, TensorTrain
 from tt_sketch.tt_svd import tt_svd
 
 
+def same_value(value, cell) -> bool:
+    """Check if ``cell`` of a (possibly reloaded) table contains ``value``"""
+    try:
+        return float(cell) == float(value)
+    except (ValueError, TypeError):
+        return str(cell) == str(value)
+
+
 class Experiment:
     data: pd.DataFrame
     filename: str
@@ -41,7 +49,7 @@ class Experiment:
         masks = []
         for column, value in conds.items():
             try:
-                masks.append(self.data[column] == value)
+                masks.append(self.data[column].map(partial(same_value, value)))
             except KeyError:
                 return False
         mask = reduce(lambda x, y: x & y, masks)
-- 
2.43.0


From f6bc03f08f12c9438b9d7691a9014d953d67a716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 35/42] fix: orthogonal and HMT sketches with a seed leave the
 global generator alone

---
 tt_sketch/sketch_dispatch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tt_sketch/sketch_dispatch.py b/tt_sketch/sketch_dispatch.py
index 1e453d6..af95242 100644
--- a/tt_sketch/sketch_dispatch.py
+++ b/tt_sketch/sketch_dispatch.py
@@ -183,7 +183,10 @@ class OrthogTTDRM:
 
     def __init__(self, rank, tensor):
         self.rank = rank
-        self.drm = TensorTrainDRM(rank, tensor.shape, transpose=False, cores=[])
+        # The cores are given, so no random numbers are needed
+        self.drm = TensorTrainDRM(
+            rank, tensor.shape, transpose=False, seed=0, cores=[]
+        )
         self.generator = None
         self.tensor = tensor
         self.sketch_method = get_sketch_method(tensor, self.drm)
-- 
2.43.0


From 351b337742c83cc29d79883fe6a6bff4aa1c6f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:34 +0000
Subject: [PATCH 36/42] fix: right seeds of different seeds differ (DRM seeds
 are taken modulo 2**32 - 1)

---
 tt_sketch/sketch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index 6cf16d9..5fb871c 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -134,7 +134,7 @@ def orthogonal_sketch(
             else:
                 right_drm_type = TensorTrainDRM
         right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
-        right_seed = np.mod(seed + RIGHT_SEED_OFFSET + d, 2**32)
+        right_seed = np.mod(seed + RIGHT_SEED_OFFSET + d, 2**32 - 1)
         right_drm = right_drm_type(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
@@ -216,7 +216,7 @@ def stream_sketch(
         right_rank = process_tt_rank(
             right_rank, tensor.shape, trim=left_rank_bigger
         )
-        right_seed = np.mod(seed + RIGHT_SEED_OFFSET + d, 2**32)
+        right_seed = np.mod(seed + RIGHT_SEED_OFFSET + d, 2**32 - 1)
         right_drm = right_drm_type(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
-- 
2.43.0


From 348c6a706d1d07982b0c7407112a7f2a2853f6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:37 +0000
Subject: [PATCH 37/42] fix: fast error of two zero tensors is 0 instead of NaN

---
 tt_sketch/tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 10c1fce..64ab49a 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -69,7 +69,8 @@ class Tensor(ABC):
             self_norm = self.norm()
             dot = self.dot(other)
             norm_sum = self_norm**2 + other_norm**2
-            error = np.sqrt(norm_sum) * np.sqrt(np.abs(1 - 2 * dot / norm_sum))
+            # np.abs because of numerical errors
+            error = np.sqrt(np.abs(norm_sum - 2 * dot))
         else:
             error = np.linalg.norm(self.to_numpy() - other.to_numpy())
         if relative:
-- 
2.43.0


From 8b2c882ad103eec911da2e43b1a0fe97963cfd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 38/42] fix: RMSE of tensors with more than 2**63 entries

---
 tt_sketch/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 64ab49a..5807a84 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -78,7 +78,7 @@ class Tensor(ABC):
                 return np.inf
             error /= other_norm
         if rmse:
-            error /= np.sqrt(np.prod(self.shape))
+            error /= np.sqrt(np.prod(self.shape, dtype=float))
         return error
 
     @property
@@ -607,7 +607,7 @@ class TensorTrain(Tensor):
                     return np.inf
                 error /= other_norm
             if rmse:
-                error /= np.sqrt(np.prod(self.shape))
+                error /= np.sqrt(np.prod(self.shape, dtype=float))
             return error
         else:
             return super().error(other, relative=relative, rmse=rmse, fast=fast)
-- 
2.43.0


From e84d0e7c6fca8c709e1bd23d3b8baa21750d767e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:45 +0000
Subject: [PATCH 39/42] fix: sparse sign maps could permute an entry out of its
 row (random position rounding up to the rank)

---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index 223a7dd..58e2a80 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -149,8 +149,10 @@ cdef short[:] _inds_to_sparse_sign(
         
         # randomly permute
         for j in range(nnz):
-            # random int in [j,rank)
+            # random int in [j,rank), the sum can round up to rank
             rand_num = <int>(uniform_nums[i*nnz+j]*(rank-j) + j) 
+            if rand_num >= rank:
+                rand_num = rank - 1
             temp = sparse_sign[i*rank+j]
             sparse_sign[i*rank+j] = sparse_sign[i*rank+rand_num]
             sparse_sign[i*rank+rand_num]=temp
-- 
2.43.0


From 72298f2f0370e6e39b2277cc00caa74f69b2c7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:35 +0000
Subject: [PATCH 40/42] fix: a Gaussian map could have an infinite entry
 (all-zero mantissa)

---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index 58e2a80..0beac63 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -46,6 +46,8 @@ cdef uint_to_normal(double[:] nums):
     cdef double x
     for i in range(N): #prange here messes stuff up when parallelizing
         x = frexp(nums[i], &e) * 2 - 1
+        if x == 0:
+            x = 2.0**-53  # ndtri(0) is infinite
         x = scipy.special.cython_special.ndtri(x)
         nums[i] = x
 
-- 
2.43.0


From 62cd698a224530834f65feea50ac2457369da149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:44 +0000
Subject: [PATCH 41/42] fix: gather of a sparse tensor used entries from before
 they were changed

---
 tt_sketch/tensor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 5807a84..899fed7 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -4,7 +4,6 @@ from __future__ import annotations
 from abc import ABC, abstractmethod, abstractproperty
 from copy import deepcopy
 from dataclasses import dataclass
-from functools import cached_property
 from typing import (
     Iterable,
     List,
@@ -285,7 +284,7 @@ class SparseTensor(Tensor):
             out[i] = dic.get(ind, 0.0)
         return out
 
-    @cached_property
+    @property
     def dict(self) -> Dict[int, float]:
         dense_indices = np.ravel_multi_index(self.indices, self.shape)
         return {i: v for i, v in zip(dense_indices, self.entries)}
-- 
2.43.0


From f7bddf666121d840ae2a340884c3aece89422936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:14 +0000
Subject: [PATCH 42/42] fix: write an experiment table to another file first,
 so that an interrupted save doesn't lose recorded experiments

---
 scripts/experiment_base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scripts/experiment_base.py b/scripts/experiment_base.py
index 7577812..c07f5d1 100644
--- a/scripts/experiment_base.py
+++ b/scripts/experiment_base.py
@@ -1,6 +1,7 @@
+import os
 import time
 from functools import partial, reduce
-from os.path import isfile
+from os.path import isfile, join, split
 from typing import Callable, Dict, Optional, Any
 
 import pandas as pd
@@ -43,7 +44,12 @@ class Experiment:
         return cls(filename, data)
 
     def save(self):
-        self.data.to_csv(self.filename, index=False)
+        # Replace the file only once the table is written completely, since an
+        # interruption would otherwise lose all the experiments done so far
+        folder, name = split(self.filename)
+        new_filename = join(folder, "new_" + name)
+        self.data.to_csv(new_filename, index=False)
+        os.replace(new_filename, self.filename)
 
     def check_experiment_done(self, conds):
         masks = []
-- 
2.43.0

