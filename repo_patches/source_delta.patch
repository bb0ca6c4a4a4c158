From 5298fdd0b278ade9b0b8102e2ab5b44b3023307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 01/40] fix: use the batch size of the current input for output
 cores

With the output core first in the chain (label_site=0), the core was expanded
to the batch size left behind by the previous evaluation of any model: a fresh
process raised, a different batch size raised or returned the wrong number of
rows.
---
 torchmps/torchmps.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 3fdc570..6821536 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -7,6 +7,7 @@ import torch.nn as nn
 
 from .utils import init_tensor, svd_flex
 from .contractables import (
+    Contractable,
     SingleMat,
     MatRegion,
     OutputCore,
@@ -625,6 +626,10 @@ class LinearRegion(nn.Module):
         to_cuda = input_data.is_cuda
         device = f"cuda:{input_data.get_device()}" if to_cuda else "cpu"
 
+        # Cores without any inputs are expanded to the current batch size, which
+        # must not depend on whatever was evaluated previously
+        Contractable.global_bs = input_data.size(0)
+
         # For each module, pull out the number of pixels needed and call that
         # module's forward() method, putting the result in contractable_list
         ind = 0
-- 
2.43.0


From 8052e38c0ba893f9eaa3c4b38b3ef6f30cb3ba62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 02/40] fix: evaluate input regions with a single site

An InputRegion of length one was fed an input without site index, so any MPS
whose output is one site away from either end failed to evaluate.
---
 torchmps/torchmps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 6821536..e0b260f 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -636,7 +636,7 @@ class LinearRegion(nn.Module):
         contractable_list = []
         for module in self.module_list:
             mod_len = len(module)
-            if mod_len == 1:
+            if mod_len == 1 and not isinstance(module, InputRegion):
                 mod_input = input_data[:, ind]
             else:
                 mod_input = input_data[:, ind : (ind + mod_len)]
-- 
2.43.0


From ffa6549ce17f23cee85ce6b33f0f3b98712def0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 03/40] fix: allow adaptive MPS with a single input site

Merging the only input core with the output core leaves one core, for which
the merging sweep produced an empty list.
---
 torchmps/torchmps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index e0b260f..9fdac66 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -800,7 +800,7 @@ class MergedLinearRegion(LinearRegion):
 
         # Merge pairs of cores when possible (currently only with
         # InputSites), making sure to respect the offset for merging.
-        while True:
+        while len(merged_list) > 1:
             mod_num, site_num = 0, 0
             combined_list = []
 
-- 
2.43.0


From cb7a8b020ab8e7ee25fc52f21ff0e953ab209199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 04/40] fix: accept a tensor as the path of an MPS

Tensors are listed as an allowed type, but taking their truth value raises for
any path of more than one site (and dropped the one-site path [0]).
---
 torchmps/torchmps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 9fdac66..d10c870 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -433,7 +433,7 @@ class MPS(nn.Module):
             )
         assert len(self.linear_region) == input_dim
 
-        if path:
+        if path is not None:
             assert isinstance(path, (list, torch.Tensor))
             assert len(path) == input_dim
 
@@ -469,7 +469,7 @@ class MPS(nn.Module):
                                  which act on different parts of the input.
         """
         # For custom paths, rearrange our input into the desired order
-        if self.path:
+        if self.path is not None:
             path_inputs = []
             for site_num in self.path:
                 path_inputs.append(input_data[:, site_num])
-- 
2.43.0


From 076e4322bdde04330ad5851e21c9c356cead97d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 05/40] fix: allow a module feature map to be replaced by a
 function

---
 torchmps/torchmps.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index d10c870..4725074 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -271,6 +271,9 @@ class TI_MPS(nn.Module):
                     f"values of size {list(needed_shape)}"
                 )
 
+        # Remove the old map first, since nn.Module doesn't allow a registered
+        # submodule to be replaced by a plain function
+        del self.feature_map
         self.feature_map = feature_map
 
 
@@ -568,6 +571,9 @@ class MPS(nn.Module):
                     f"values of size {list(needed_shape)}"
                 )
 
+        # Remove the old map first, since nn.Module doesn't allow a registered
+        # submodule to be replaced by a plain function
+        del self.feature_map
         self.feature_map = feature_map
 
     def core_len(self):
-- 
2.43.0


From 369433fe74fac969ad138446382f51f3b318444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 06/40] fix: keep double precision in MPS, TI_MPS and svd_flex

---
 torchmps/torchmps.py | 17 +++++++++++------
 torchmps/utils.py    |  6 +++---
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 4725074..fb8eafa 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -182,7 +182,9 @@ class TI_MPS(nn.Module):
             if can_pad:
                 batch_size = len(input_data)
                 full_size = [batch_size, max_len, feature_dim]
-                batch_input = torch.zeros(full_size[: num_modes + 1])
+                batch_input = self.core_tensor.new_zeros(
+                    full_size[: num_modes + 1]
+                )
 
                 # Copy each sequence into batch_input
                 for i, seq in enumerate(input_data):
@@ -239,7 +241,7 @@ class TI_MPS(nn.Module):
                     f"self.feature_dim = {feature_dim}, but "
                     "default feature_map requires self.feature_dim = 2"
                 )
-            embedded_data = torch.empty(embedded_shape)
+            embedded_data = self.core_tensor.new_empty(embedded_shape)
 
             embedded_data[:, :, 0] = input_data
             embedded_data[:, :, 1] = 1 - input_data
@@ -685,7 +687,10 @@ class LinearRegion(nn.Module):
             ]
 
             # Build dummy end vectors and insert them at the ends of our list
-            end_vecs = [torch.zeros(dim).to(device) for dim in bond_dims]
+            end_vecs = [
+                torch.zeros(dim, dtype=item.tensor.dtype).to(device)
+                for (dim, item) in zip(bond_dims, end_items)
+            ]
 
             for vec in end_vecs:
                 vec[0] = 1
@@ -1202,7 +1207,7 @@ class MergedInput(nn.Module):
         # Split every one of the cores into two and add them both to core_list
         core_list, bond_list, sv_list = [], [None], [None]
         for merged_core in tensor:
-            sv_vec = torch.empty(max_D)
+            sv_vec = torch.empty(max_D, dtype=tensor.dtype)
             left_core, right_core, bond_dim = svd_flex(
                 merged_core, svd_string, max_D, cutoff, sv_vec=sv_vec
             )
@@ -1389,7 +1394,7 @@ class MergedOutput(nn.Module):
         if left_output:
             svd_string = "olri->olu,uri"
             max_D = tensor.size(2)
-            sv_vec = torch.empty(max_D)
+            sv_vec = torch.empty(max_D, dtype=tensor.dtype)
 
             output_core, input_core, bond_dim = svd_flex(
                 tensor, svd_string, max_D, cutoff, sv_vec=sv_vec
@@ -1403,7 +1408,7 @@ class MergedOutput(nn.Module):
         else:
             svd_string = "olri->our,lui"
             max_D = tensor.size(1)
-            sv_vec = torch.empty(max_D)
+            sv_vec = torch.empty(max_D, dtype=tensor.dtype)
 
             output_core, input_core, bond_dim = svd_flex(
                 tensor, svd_string, max_D, cutoff, sv_vec=sv_vec
diff --git a/torchmps/utils.py b/torchmps/utils.py
index 506cba2..f58ab34 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -93,11 +93,11 @@ def svd_flex(tensor, svd_string, max_D=None, cutoff=1e-10, sv_right=True, sv_vec
             left_mat = left_mat[:, :max_D]
             right_mat = right_mat[:max_D]
         elif max_D and len(svs) < max_D:
-            copy_svs = torch.zeros([max_D])
+            copy_svs = svs.new_zeros([max_D])
             copy_svs[: len(svs)] = svs
-            copy_left = torch.zeros([left_mat.size(0), max_D])
+            copy_left = left_mat.new_zeros([left_mat.size(0), max_D])
             copy_left[:, : left_mat.size(1)] = left_mat
-            copy_right = torch.zeros([max_D, right_mat.size(1)])
+            copy_right = right_mat.new_zeros([max_D, right_mat.size(1)])
             copy_right[: right_mat.size(0)] = right_mat
             svs, left_mat, right_mat = copy_svs, copy_left, copy_right
 
-- 
2.43.0


From be8fe33a1436e6c789798d024b2617d1bbb4ac39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 07/40] fix: pad TI_MPS sequences after embedding, so padding
 is neutral

---
 torchmps/torchmps.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index fb8eafa..1dfdfb1 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -178,13 +178,15 @@ class TI_MPS(nn.Module):
                     f"{self.use_bias}, self.fixed_bias={self.fixed_bias})"
                 )
 
+            # Embed everything (if needed), before any padding is added
+            if num_modes == 1:
+                input_data = [self.embed_input(s[None])[0] for s in input_data]
+
             # Pad the sequences with zeros (if needed), return as batch tensor
             if can_pad:
                 batch_size = len(input_data)
                 full_size = [batch_size, max_len, feature_dim]
-                batch_input = self.core_tensor.new_zeros(
-                    full_size[: num_modes + 1]
-                )
+                batch_input = self.core_tensor.new_zeros(full_size)
 
                 # Copy each sequence into batch_input
                 for i, seq in enumerate(input_data):
@@ -192,10 +194,6 @@ class TI_MPS(nn.Module):
             else:
                 batch_input = torch.stack(input_data)
 
-            # Embed everything (if needed) and return the batch tensor
-            if len(batch_input.shape) == 2:
-                batch_input = self.embed_input(batch_input)
-
             return batch_input
 
         else:
-- 
2.43.0


From 1bd2eb4361322e96534be90031402ae2f75d9069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 08/40] fix: make realify tolerance relative to the size of its
 input

---
 torchmps/utils2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torchmps/utils2.py b/torchmps/utils2.py
index a3fb72b..a6042be 100644
--- a/torchmps/utils2.py
+++ b/torchmps/utils2.py
@@ -183,7 +183,9 @@ def realify(tensor: Tensor) -> Tensor:
     Input must be approximately real, `realify` will raise error if not
     """
     if tensor.is_complex():
-        assert torch.allclose(tensor.imag, torch.zeros(()), atol=1e-4)
+        # Rounding errors scale with the magnitude of the (large) input
+        tol = 1e-4 * torch.clamp(tensor.abs(), min=1)
+        assert torch.all(tensor.imag.abs() <= tol)
         return tensor.real
     else:
         return tensor
-- 
2.43.0


From a4fb5955530d5889352cf6254375c8d2c3d3a549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 09/40] fix: compute trig_embed binomials without undeclared
 scipy dependency

---
 torchmps/embeddings.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 6cd17c8..d076d0e 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -20,7 +20,7 @@
 # CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 """Uniform and non-uniform probabilistic MPS classes"""
-from math import sqrt, pi
+from math import comb, sqrt, pi
 from functools import partial
 from typing import Union, Optional, Callable
 
@@ -242,15 +242,13 @@ def trig_embed(data, emb_dim=2):
 
     Written by Raphaëlle Tihon
     """
-    from scipy.special import binom
-
     emb_data = []
     for s in range(emb_dim):
         comp = (
             torch.cos(data * pi / 2) ** (emb_dim - s - 1)
             * torch.sin(data * pi / 2) ** s
         )
-        comp *= sqrt(binom(emb_dim - 1, s))
+        comp *= sqrt(comb(emb_dim - 1, s))
         emb_data.append(comp)
     emb_data = torch.stack(emb_data, dim=-1)
     assert emb_data.shape == data.shape + (emb_dim,)
-- 
2.43.0


From 755e32dcf245f0d96d1d573b7a919d34615c5feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 10/40] fix: load_HV_data uses the removed alias np.int

---
 torchmps/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index f58ab34..1cf4738 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -316,7 +316,7 @@ def load_HV_data(length):
         )
 
     images = np.empty([num_images, length, length], dtype=np.float32)
-    labels = np.empty(num_images, dtype=np.int)
+    labels = np.empty(num_images, dtype=int)
 
     # Used to generate the stripe pattern from integer i below
     template = "{:0" + str(length) + "b}"
-- 
2.43.0


From a454f12a0d7fdb903676d3a213d8b0b06992315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 11/40] fix: contractions with an exactly zero product give
 zero instead of NaN

---
 torchmps/mps_base.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 849bdde..c47181e 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -105,7 +105,7 @@ def slim_eval_fun(seq_input: Tensor, core_tensor: Tensor, bound_vecs: Tensor) ->
         vecs = torch.matmul(vecs, mats)
 
         # Rescale vectors, update log_scale
-        rescale = vecs.abs().sum(dim=-1, keepdim=True) / bond_dim
+        rescale = nonzero_scale(vecs.abs().sum(dim=-1, keepdim=True) / bond_dim)
         log_scale = log_scale + rescale.log()[:, 0, 0]
         vecs = vecs / rescale
 
@@ -293,6 +293,7 @@ def mat_reduce_par(matrices: Tensor) -> Tuple[Tensor, Tensor]:
 
         # Rescale matrices and update log_scale
         rescales = matrices.abs().sum(dim=(-2, -1), keepdim=True) / bond_dim
+        rescales = nonzero_scale(rescales)
         log_scale = log_scale + rescales.log().sum(dim=-3)
         matrices = matrices / rescales
 
@@ -326,6 +327,7 @@ def mat_reduce_seq(matrices: Sequence[Tensor]) -> Tensor:
         # Rescale and update the log scale factor
         target_norm = sqrt(product.shape[-2] * product.shape[-1])
         rescale = product.abs().sum(dim=(-2, -1), keepdim=True) / target_norm
+        rescale = nonzero_scale(rescale)
         log_scale = log_scale + torch.log(rescale)
         product = product / rescale
 
@@ -334,6 +336,13 @@ def mat_reduce_seq(matrices: Sequence[Tensor]) -> Tensor:
     return product, log_scale
 
 
+def nonzero_scale(scale: Tensor) -> Tensor:
+    """
+    Replace zeros by ones in rescaling factors, so zero products stay zero
+    """
+    return torch.where(scale == 0, torch.ones_like(scale), scale)
+
+
 def get_mat_slices(seq_input: Tensor, core_tensor: Tensor) -> Tensor:
     """
     Use sequential input and core tensor to get sequence of matrix slices
-- 
2.43.0


From d1d5f49798bfe69807c30694a9b42dd82b851f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 12/40] fix: refuse inputs of the wrong length or size instead
 of broadcasting

---
 torchmps/mps_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index c47181e..8bc6ba0 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -367,6 +367,8 @@ def get_mat_slices(seq_input: Tensor, core_tensor: Tensor) -> Tensor:
     uniform = core_tensor.ndim == 3
     input_dim, bond_dim = core_tensor.shape[-3:-1]
     seq_len = seq_input.shape[1]
+    assert uniform or core_tensor.shape[0] == seq_len
+    assert indexing or seq_input.shape[2] == input_dim
 
     # TODO: Deal with packing if/when we have variable-len sequences,
     #       likely using pad_mat_slices function
-- 
2.43.0


From 77b98f5fe5a62dffb0307fb4d4d25ffb22d06d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 13/40] fix: slim evaluation of batches of empty sequences

---
 torchmps/mps_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 8bc6ba0..da64e5b 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -99,7 +99,7 @@ def slim_eval_fun(seq_input: Tensor, core_tensor: Tensor, bound_vecs: Tensor) ->
 
     # Process input sequentially, from left to right
     log_scale = torch.zeros(batch)
-    vecs = bound_vecs[0][None, None]
+    vecs = bound_vecs[0].expand(batch, 1, bond_dim)
     for inps, core in zip(seq_input, all_cores):
         mats = slice_fun(inps, core)
         vecs = torch.matmul(vecs, mats)
-- 
2.43.0


From 785f5907727cb9829a9d8cf55ccfc63f0a476628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 14/40] fix: lambda matrices of a different precision than the
 core tensors

---
 torchmps/mps_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index da64e5b..39b0efd 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -446,6 +446,10 @@ def get_log_norm(
     if uniform and fixed_len:
         core_tensor = (core_tensor,) * length
 
+    # Lambda matrix must have the same precision as the core tensors
+    if lamb_mat is not None and (boundary_vecs.is_complex() or not lamb_mat.is_complex()):
+        lamb_mat = lamb_mat.to(boundary_vecs.dtype)
+
     # Define transfer operator function for different types of lambda matrix
     if lamb_mat is None:
         # In the following, "dm" = "density matrix", "ct" = "core tensor"
-- 
2.43.0


From fa6e6967e7d50bb801058359cc4c4886b4715c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 15/40] fix: log norm of models with very large or small
 boundary vectors

---
 torchmps/mps_base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 39b0efd..232edb2 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -440,9 +440,12 @@ def get_log_norm(
 
     # Initialize all variables needed for log norm calculation
     uniform = core_tensor.ndim == 3
-    left_vec, r_vec = boundary_vecs
+    # Boundary vectors are rescaled to avoid overflow of their squares
+    scales = boundary_vecs.detach().abs().amax(dim=-1, keepdim=True)
+    scales = nonzero_scale(scales)
+    left_vec, r_vec = boundary_vecs / scales
     dens_mat = left_vec[:, None] @ left_vec[None, :].conj()
-    log_norm = torch.zeros(())
+    log_norm = 2 * torch.log(scales).sum()
     if uniform and fixed_len:
         core_tensor = (core_tensor,) * length
 
-- 
2.43.0


From d2d90c7518b2af5c9ea200846bbc4aefeb3e3bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 16/40] fix: normalize models using both a bias matrix and an
 embedding

---
 torchmps/prob_mps.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/torchmps/prob_mps.py b/torchmps/prob_mps.py
index 9f840d8..7d28644 100644
--- a/torchmps/prob_mps.py
+++ b/torchmps/prob_mps.py
@@ -178,10 +178,13 @@ class ProbMPS(nn.Module):
                 input_data, self.core_tensors, self.edge_vecs
             )
         else:
-            # Contract inputs with core tensors and add bias matrices
-            mat_slices = get_mat_slices(input_data, self.core_tensors)
+            # Add bias matrices to core slices (as done for the normalization)
+            core_tensors = self.core_tensors
             if self.use_bias:
-                mat_slices = mat_slices + self.bias_mat[None, None]
+                core_tensors = core_tensors + self.bias_mat[None, None]
+
+            # Contract inputs with core tensors
+            mat_slices = get_mat_slices(input_data, core_tensors)
 
             #  Contract all bond dims to get (unnormalized) prob amplitudes
             psi_vals, log_scales = contract_matseq(
@@ -406,10 +409,13 @@ class ProbUnifMPS(ProbMPS):
                 input_data, self.core_tensors, self.edge_vecs
             )
         else:
-            # Contract inputs with core tensors and add bias matrices
-            mat_slices = get_mat_slices(input_data, self.core_tensors)
+            # Add bias matrices to core slices (as done for the normalization)
+            core_tensors = self.core_tensors
             if self.use_bias:
-                mat_slices = mat_slices + self.bias_mat[None]
+                core_tensors = core_tensors + self.bias_mat[None]
+
+            # Contract inputs with core tensors
+            mat_slices = get_mat_slices(input_data, core_tensors)
 
             #  Contract all bond dims to get (unnormalized) prob amplitudes
             psi_vals, log_scales = contract_matseq(
-- 
2.43.0


From 14d593e7376cf569e99b8cd57ee79b01202c31a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 17/40] fix: register and use the current parameters of
 trainable embeddings

---
 torchmps/embeddings.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index d076d0e..42e7a46 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -88,9 +88,21 @@ class TrainableEmbedding(nn.Module):
 
         # Save defining data
         self.domain = data_domain
+        self.emb_module = emb_fun
+
+    def emb_fun(self, input_data):
+        """
+        Apply the user-specified embedding function to tensor of values
+        """
         # Need to add on singleton dimension to agree with nn.Module format
-        self.emb_fun = lambda x: emb_fun(x[..., None])
-        # self.emb_fun = emb_fun
+        return self.emb_module(input_data[..., None])
+
+    @property
+    def lamb_mat(self):
+        """
+        Lambda matrix for the current parameters of the embedding function
+        """
+        return self.make_lambda()
 
     def make_lambda(self, num_points: int = 1000):
         """
@@ -99,7 +111,10 @@ class TrainableEmbedding(nn.Module):
         # Compute the raw lambda matrix, computing number of points if needed
         if self.domain.continuous:
             points = torch.linspace(
-                self.domain.min_val, self.domain.max_val, steps=num_points
+                self.domain.min_val,
+                self.domain.max_val,
+                steps=num_points,
+                dtype=next((p.real.dtype for p in self.parameters()), None),
             )
             self.num_points = num_points
             emb_vecs = self.emb_fun(points)
@@ -124,21 +139,14 @@ class TrainableEmbedding(nn.Module):
 
         assert lamb_mat.ndim == 2
         assert lamb_mat.shape[0] == lamb_mat.shape[1]
-        self.lamb_mat = lamb_mat
 
-        # Check if the computed matrix is diagonal or multiple of the identity
-        if torch.allclose(lamb_mat.diag().diag(), lamb_mat):
-            lamb_mat = lamb_mat.diag()
-            if torch.allclose(lamb_mat.mean(), lamb_mat):
-                self.lamb_mat = lamb_mat.mean()
-            else:
-                self.lamb_mat = lamb_mat
+        # Simpler diagonal or scalar forms would lose part of the gradient
+        return lamb_mat
 
     def forward(self, input_data):
         """
         Embed input data via the user-specified embedding function
         """
-        self.make_lambda()
         return self.emb_fun(input_data)
 
 
-- 
2.43.0


From adf9dc51129b1473403fa4ee048e85f09905d928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 18/40] fix: lambda matrix of small embeddings wrongly taken as
 diagonal

---
 torchmps/embeddings.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 42e7a46..9ba07e1 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -208,9 +208,14 @@ class FixedEmbedding(nn.Module):
         self.lamb_mat = lamb_mat
 
         # Check if the computed matrix is diagonal or multiple of the identity
-        if torch.allclose(lamb_mat.diag().diag(), lamb_mat):
+        # (up to rounding errors, which are relative to its largest element)
+        tol = {
+            "rtol": 0,
+            "atol": 4 * torch.finfo(lamb_mat.dtype).eps * lamb_mat.abs().max().item(),
+        }
+        if torch.allclose(lamb_mat.diag().diag(), lamb_mat, **tol):
             lamb_mat = lamb_mat.diag()
-            if torch.allclose(lamb_mat.mean(), lamb_mat):
+            if torch.allclose(lamb_mat.mean(), lamb_mat, **tol):
                 self.lamb_mat = lamb_mat.mean()
             else:
                 self.lamb_mat = lamb_mat
-- 
2.43.0


From 97c7f160e10175e51130ff82af54d967e77b57cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 19/40] fix: identity initialization of tensors with
 rectangular slices

---
 torchmps/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index 1cf4738..6ae4d73 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -223,6 +223,7 @@ def init_tensor(shape, bond_str, init_method):
                 bond_dims = [init_dim, init_dim]
             else:
                 init_dim = min(bond_dims)
+                bond_dims = [init_dim, init_dim]
 
             eye_shape = [init_dim if c in bond_chars else 1 for c in bond_str]
             expand_shape = [
@@ -237,7 +238,10 @@ def init_tensor(shape, bond_str, init_method):
             expand_shape = shape
             bond_dims = [shape[bond_str.index(c)] for c in bond_chars]
 
-        eye_tensor = torch.eye(bond_dims[0], bond_dims[1]).view(eye_shape)
+        eye_tensor = torch.eye(bond_dims[0], bond_dims[1])
+        if bond_str.index("r") < bond_str.index("l"):
+            eye_tensor = eye_tensor.t()
+        eye_tensor = eye_tensor.reshape(eye_shape)
         eye_tensor = eye_tensor.expand(expand_shape)
 
         tensor = torch.zeros(shape)
-- 
2.43.0


From b010ef49642dd52d1b7c8944d9a55c28526ede36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 20/40] fix: normal_init ignores rel_std

---
 torchmps/mps_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 232edb2..fb987b0 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -570,7 +570,7 @@ def normal_init(shape: tuple, is_complex: bool = False, rel_std: float = 1.0) ->
             )
 
     # Initialize core using size-adjusted value of variance
-    std = 1 / shape[-1]
+    std = rel_std / shape[-1]
     core_tensor = std * torch.randn(shape)
     if is_complex:
         core_tensor = phaseify(core_tensor)
-- 
2.43.0


From 9db84b8a63c8d16266df09c781ff60bd6764bdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 21/40] fix: svd_flex of complex tensors

---
 torchmps/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index 6ae4d73..8d62299 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -85,7 +85,7 @@ def svd_flex(tensor, svd_string, max_D=None, cutoff=1e-10, sv_right=True, sv_vec
         # Get SVD and format so that left_mat * diag(svs) * right_mat = tensor
         left_mat, svs, right_mat = torch.svd(tensor)
         svs, _ = torch.sort(svs, descending=True)
-        right_mat = torch.t(right_mat)
+        right_mat = torch.t(right_mat).conj()
 
         # Decrease or increase our tensor sizes in the presence of max_D
         if max_D and len(svs) > max_D:
@@ -136,9 +136,9 @@ def svd_flex(tensor, svd_string, max_D=None, cutoff=1e-10, sv_right=True, sv_vec
 
         # Merge the singular values into the appropriate matrix
         if sv_right:
-            right_mat = torch.einsum("l,lr->lr", [svs, right_mat])
+            right_mat = torch.einsum("l,lr->lr", [svs.to(right_mat.dtype), right_mat])
         else:
-            left_mat = torch.einsum("lr,r->lr", [left_mat, svs])
+            left_mat = torch.einsum("lr,r->lr", [left_mat, svs.to(left_mat.dtype)])
 
         # Reshape the matrices to make them proper tensors
         left_tensor = left_mat.view(left_shape + [max_D])
-- 
2.43.0


From df564528f376aaa4b29df56bce5cf9c85cbf1d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 22/40] fix: products of scalars and lists with other
 contractables

---
 torchmps/contractables.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index cc6a4e3..9457403 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -191,15 +191,15 @@ class ContractableList(Contractable):
         """
         # The input cannot be a composite contractable
         assert hasattr(contractable, "tensor")
-        output = contractable.tensor
+        output = contractable
 
         # Multiply by everything in ContractableList, in the correct order
         if rmul:
             for item in self.contractable_list:
-                output = item * output
+                output = output * item
         else:
             for item in self.contractable_list[::-1]:
-                output = output * item
+                output = item * output
 
         return output
 
@@ -371,7 +371,7 @@ class OutputMat(Contractable):
         Multiply with an edge vector along the shared linear index
         """
         if not isinstance(edge_vec, EdgeVec):
-            raise NotImplemented  # noqa: F901
+            return NotImplemented
         else:
             return super().__mul__(edge_vec, rmul)
 
@@ -428,7 +428,7 @@ class Scalar(Contractable):
     def __init__(self, scalar):
         # Add dummy dimension if we have a torch scalar
         shape = list(scalar.shape)
-        if shape is []:
+        if shape == []:
             scalar = scalar.view([1])
             shape = [1]
 
@@ -446,6 +446,10 @@ class Scalar(Contractable):
         """
         Multiply a contractable by our scalar and return the result
         """
+        # Composite contractables handle the multiplication themselves
+        if not hasattr(contractable, "tensor"):
+            return NotImplemented
+
         scalar = self.tensor
         tensor = contractable.tensor
         bond_str = contractable.bond_str
@@ -455,7 +459,9 @@ class Scalar(Contractable):
 
         # Wrap the result in the same class right_contractable belongs to
         contract_class = type(contractable)
-        if contract_class is not Contractable:
+        if contract_class in (EdgeVec, OutputMat):
+            return contract_class(out_tensor, "r" in bond_str)
+        elif contract_class is not Contractable:
             return contract_class(out_tensor)
         else:
             return Contractable(out_tensor, bond_str)
-- 
2.43.0


From 9d812ba1dc794680efb480eb0d1d6e58ccef98a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 23/40] fix: TI_MPS evaluation of empty sequences

---
 torchmps/contractables.py | 8 ++++++--
 torchmps/torchmps.py      | 4 ++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index 9457403..507067d 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -262,12 +262,11 @@ class MatRegion(Contractable):
             return NotImplemented
 
         mats = self.tensor
-        num_mats = mats.size(1)
 
         # Load our vector and matrix batches
         dummy_ind = 1 if rmul else 2
         vec = edge_vec.tensor.unsqueeze(dummy_ind)
-        mat_list = [mat.squeeze(1) for mat in torch.chunk(mats, num_mats, 1)]
+        mat_list = torch.unbind(mats, 1)
 
         # Do the repeated matrix-vector multiplications in the proper order
         for i, mat in enumerate(mat_list[:: (1 if rmul else -1)], 1):
@@ -293,6 +292,11 @@ class MatRegion(Contractable):
         shape = list(mats.shape)
         size, D = shape[1:3]
 
+        # The product of an empty collection of matrices is the identity
+        if size == 0:
+            eye = torch.eye(D, dtype=mats.dtype, device=mats.device)
+            return SingleMat(eye.expand(shape[0], D, D))
+
         # Iteratively multiply pairs of matrices until there is only one
         while size > 1:
             odd_size = size % 2 == 1
diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 1dfdfb1..a493526 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -222,6 +222,10 @@ class TI_MPS(nn.Module):
         feature_dim = self.feature_dim
         embedded_shape = [batch_dim, length, feature_dim]
 
+        # Empty sequences have nothing to embed
+        if input_data.numel() == 0:
+            return self.core_tensor.new_empty(embedded_shape)
+
         # Apply a custom embedding map if it has been defined by the user
         if self.feature_map is not None:
             f_map = self.feature_map
-- 
2.43.0


From b70131aec76eec28b6c31058effa500142ada988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 24/40] fix: concurrent evaluation in threads sharing the
 global batch size

---
 torchmps/contractables.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index 507067d..21332b6 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -1,7 +1,25 @@
+import threading
+
 import torch
 
 
-class Contractable:
+class _BatchSize(type):
+    """
+    Metaclass keeping a global batch size, separately for every thread
+    """
+
+    _local = threading.local()
+
+    @property
+    def global_bs(cls):
+        return getattr(_BatchSize._local, "batch_size", None)
+
+    @global_bs.setter
+    def global_bs(cls, batch_size):
+        _BatchSize._local.batch_size = batch_size
+
+
+class Contractable(metaclass=_BatchSize):
     """
     Container for tensors with labeled indices and a global batch size
 
@@ -19,11 +37,14 @@ class Contractable:
                             (number of modes) of our tensor
         global_bs (int):    The batch size associated with all Contractables.
                             This is shared between all Contractable instances
-                            and allows for automatic expanding of tensors
+                            in a thread and allows for automatic expanding of
+                            tensors
     """
 
-    # The global batch size
-    global_bs = None
+    @property
+    def global_bs(self):
+        # The global batch size
+        return Contractable.global_bs
 
     def __init__(self, tensor, bond_str):
         shape = list(tensor.shape)
-- 
2.43.0


From 30d4b4fedd2b531643af17c206ab4d5d686c9f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 25/40] fix: expand torch scalars to the global batch size

---
 torchmps/contractables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index 21332b6..2740e66 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -454,8 +454,8 @@ class Scalar(Contractable):
         # Add dummy dimension if we have a torch scalar
         shape = list(scalar.shape)
         if shape == []:
-            scalar = scalar.view([1])
-            shape = [1]
+            shape = [Contractable.global_bs or 1]
+            scalar = scalar.expand(shape)
 
         # Check the input shape
         if len(shape) != 1:
-- 
2.43.0


From d60f4865f06e6c60258127449dafbef3369c6f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 26/40] fix: rescaling of zero cores gives NaN when unmerging

---
 torchmps/torchmps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index a493526..24600de 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -927,7 +927,9 @@ class MergedLinearRegion(LinearRegion):
         # Find the average (log) norm of all of our cores
         log_norms = []
         for core in unmerged_list:
-            log_norms.append([torch.log(norm) for norm in core.get_norm()])
+            # Cores which are exactly zero aren't rescaled
+            norms = [n if n > 0 else torch.ones_like(n) for n in core.get_norm()]
+            log_norms.append([torch.log(norm) for norm in norms])
         log_scale = sum([sum(ns) for ns in log_norms])
         log_scale /= sum([len(ns) for ns in log_norms])
 
-- 
2.43.0


From 108f7e6afed6bcd0cb6e48db1b3f56396f6dd032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 27/40] fix: failed change of the merge state leaves adaptive
 MPS inconsistent

---
 torchmps/torchmps.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 24600de..fa0a058 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -2,6 +2,8 @@
 TODO:
     (1) Update master to include all the new features in dynamic_capacity
 """
+import copy
+
 import torch
 import torch.nn as nn
 
@@ -761,9 +763,15 @@ class MergedLinearRegion(LinearRegion):
         """
         # If we've hit our threshold, flip the merge state of our tensors
         if self.input_counter >= self.merge_threshold:
-            bond_list, sv_list = self._unmerge(cutoff=self.cutoff)
+            old_list = self.module_list
+            try:
+                bond_list, sv_list = self._unmerge(cutoff=self.cutoff)
+                self._merge(offset=(self.offset + 1) % 2)
+            except BaseException:
+                # Keep our current merge state when changing it has failed
+                self.module_list = old_list
+                raise
             self.offset = (self.offset + 1) % 2
-            self._merge(offset=self.offset)
             self.input_counter -= self.merge_threshold
 
             # Point self.module_list to the appropriate merged module
@@ -889,7 +897,8 @@ class MergedLinearRegion(LinearRegion):
                 sv_list.extend(new_svs[1:])
             else:
                 assert not isinstance(core, InputRegion)
-                unmerged_list.append(core)
+                # Copy the core, so that it isn't rescaled before we're done
+                unmerged_list.append(copy.deepcopy(core))
                 bond_list.append(None)
                 sv_list.append(None)
 
-- 
2.43.0


From c40655db690b5669744e3500082c8d749fa23810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 28/40] fix: state dicts of adaptive MPS can be loaded at every
 merge state

---
 torchmps/torchmps.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index fa0a058..92c6f3d 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -789,6 +789,26 @@ class MergedLinearRegion(LinearRegion):
         else:
             return output
 
+    def _save_to_state_dict(self, destination, prefix, keep_vars):
+        """
+        Add our merge state to the metadata of the state dict
+        """
+        super()._save_to_state_dict(destination, prefix, keep_vars)
+        if hasattr(destination, "_metadata"):
+            destination._metadata.setdefault(prefix[:-1], {}).update(
+                offset=self.offset, input_counter=self.input_counter
+            )
+
+    def _load_from_state_dict(self, state_dict, prefix, local_metadata, *args):
+        """
+        Restore our merge state from the metadata of the state dict (if present)
+        """
+        if "offset" in local_metadata:
+            self.offset = local_metadata["offset"]
+            self.input_counter = local_metadata["input_counter"]
+            self.module_list = getattr(self, f"module_list_{self.offset}")
+        super()._load_from_state_dict(state_dict, prefix, local_metadata, *args)
+
     @torch.no_grad()
     def _merge(self, offset):
         """
-- 
2.43.0


From 1bf72f8b6c816c8b04e5653d3f73e74a3fccf5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 29/40] fix: adaptive MPS with two input sites next to the
 output site

---
 torchmps/torchmps.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 92c6f3d..dcfedbb 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -998,21 +998,21 @@ class MergedLinearRegion(LinearRegion):
                 )
             return MergedOutput(new_tensor, left_output=(not left_site))
 
-        # Combine an InputRegion with a stray InputSite, return an InputRegion
+        # Combine an InputRegion with a stray InputSite, or a pair of stray
+        # InputSites, return an InputRegion
         elif not merging and (
             (isinstance(left_core, InputRegion) and isinstance(right_core, InputSite))
             or (
-                isinstance(left_core, InputSite) and isinstance(right_core, InputRegion)
+                isinstance(left_core, InputSite)
+                and isinstance(right_core, (InputRegion, InputSite))
             )
         ):
 
-            left_site = isinstance(left_core, InputSite)
-            if left_site:
-                left_tensor = left_core.tensor.unsqueeze(0)
-                right_tensor = right_core.tensor
-            else:
-                left_tensor = left_core.tensor
-                right_tensor = right_core.tensor.unsqueeze(0)
+            left_tensor, right_tensor = left_core.tensor, right_core.tensor
+            if isinstance(left_core, InputSite):
+                left_tensor = left_tensor.unsqueeze(0)
+            if isinstance(right_core, InputSite):
+                right_tensor = right_tensor.unsqueeze(0)
 
             assert left_tensor.shape[1:] == right_tensor.shape[1:]
             new_tensor = torch.cat([left_tensor, right_tensor])
-- 
2.43.0


From 4f1bf03869512739c919ffac8a9e6bee60593b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 30/40] fix: gradients of contractions of a boundary vector
 without matrices

---
 torchmps/mps_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index fb987b0..a799500 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -233,11 +233,11 @@ def contract_matseq(
 
     # Strip away dummy indices
     if real_vec[0]:
-        product.squeeze_(-2)
-        log_scale.squeeze_(-2)
+        product = product.squeeze(-2)
+        log_scale = log_scale.squeeze(-2)
     if real_vec[1]:
-        product.squeeze_(-1)
-        log_scale.squeeze_(-1)
+        product = product.squeeze(-1)
+        log_scale = log_scale.squeeze(-1)
 
     if log_format:
         return product, log_scale
-- 
2.43.0


From 1f14c8aace2814f89953e415630dec77f0951a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 31/40] fix: vector inputs of a different precision than the
 core tensors

---
 torchmps/mps_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index a799500..3d85f40 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -83,8 +83,8 @@ def slim_eval_fun(seq_input: Tensor, core_tensor: Tensor, bound_vecs: Tensor) ->
     if vec_input:
         assert seq_input.shape[-1] == core_tensor.shape[-3]
 
-    # Promote seq_input to complex dtype if core_tensor is complex
-    if core_tensor.is_complex() and seq_input.is_floating_point():
+    # Convert seq_input to the (maybe complex) dtype of core_tensor
+    if seq_input.is_floating_point():
         seq_input = seq_input.to(core_tensor.dtype)
 
     # Condition on cases of vector inputs and non-uniform MPS
@@ -373,8 +373,8 @@ def get_mat_slices(seq_input: Tensor, core_tensor: Tensor) -> Tensor:
     # TODO: Deal with packing if/when we have variable-len sequences,
     #       likely using pad_mat_slices function
 
-    # Promote seq_input to complex dtype if core_tensor is complex
-    if core_tensor.is_complex() and seq_input.is_floating_point():
+    # Convert seq_input to the (maybe complex) dtype of core_tensor
+    if seq_input.is_floating_point():
         seq_input = seq_input.to(core_tensor.dtype)
 
     # Perform the indexing/contraction on a case-by-case basis
-- 
2.43.0


From 07f344291a1abd4428f18b6df253341d6477e0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 32/40] fix: failing call of an adaptive MPS changes its merge
 state

---
 torchmps/torchmps.py | 45 ++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index dcfedbb..323a7f0 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -761,27 +761,36 @@ class MergedLinearRegion(LinearRegion):
             input_data (Tensor): Input with shape [batch_size, input_dim,
                                                    feature_dim]
         """
-        # If we've hit our threshold, flip the merge state of our tensors
-        if self.input_counter >= self.merge_threshold:
-            old_list = self.module_list
-            try:
+        # Save everything needed to undo a call which fails
+        old_state = (self.offset, self.input_counter, self.module_list)
+        new_list = getattr(self, f"module_list_{(self.offset + 1) % 2}")
+        old_tensors = None
+
+        try:
+            # If we've hit our threshold, flip the merge state of our tensors
+            if self.input_counter >= self.merge_threshold:
+                old_tensors = [core.tensor.detach().clone() for core in new_list]
                 bond_list, sv_list = self._unmerge(cutoff=self.cutoff)
                 self._merge(offset=(self.offset + 1) % 2)
-            except BaseException:
-                # Keep our current merge state when changing it has failed
-                self.module_list = old_list
-                raise
-            self.offset = (self.offset + 1) % 2
-            self.input_counter -= self.merge_threshold
-
-            # Point self.module_list to the appropriate merged module
-            self.module_list = getattr(self, f"module_list_{self.offset}")
-        else:
-            bond_list, sv_list = None, None
+                self.offset = (self.offset + 1) % 2
+                self.input_counter -= self.merge_threshold
 
-        # Increment our counter and call the LinearRegion's forward method
-        self.input_counter += input_data.size(0)
-        output = super().forward(input_data)
+                # Point self.module_list to the appropriate merged module
+                self.module_list = getattr(self, f"module_list_{self.offset}")
+            else:
+                bond_list, sv_list = None, None
+
+            # Increment our counter and call the LinearRegion's forward method
+            self.input_counter += input_data.size(0)
+            output = super().forward(input_data)
+        except BaseException:
+            # Keep our current merge state when evaluation has failed
+            self.offset, self.input_counter, self.module_list = old_state
+            if old_tensors is not None:
+                with torch.no_grad():
+                    for core, tensor in zip(new_list, old_tensors):
+                        core.tensor[:] = tensor
+            raise
 
         # If we flipped our merge state, then return the bond_list and output
         if bond_list:
-- 
2.43.0


From cc9ecd96f9c81f2aeee8415bff5868358fd20dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 33/40] fix: joint_shuffle corrupted data sharing memory and
 rearranged the caller's tensors

---
 torchmps/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index 8d62299..90b70cf 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -282,7 +282,8 @@ def joint_shuffle(input_data, input_labels):
     if use_gpu:
         input_data, input_labels = input_data.cpu(), input_labels.cpu()
 
-    data, labels = input_data.numpy(), input_labels.numpy()
+    # Shuffling happens in place, so work on copies of the caller's tensors
+    data, labels = input_data.numpy().copy(), input_labels.numpy().copy()
 
     # Shuffle relative to the same seed
     np.random.seed(0)
-- 
2.43.0


From cded3b4011aefaa1bdd47479c86ceaa067fae717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 34/40] fix: scale the product of a matrix region once instead
 of every matrix in it

---
 torchmps/contractables.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index 2740e66..0d4747e 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -479,6 +479,12 @@ class Scalar(Contractable):
         tensor = contractable.tensor
         bond_str = contractable.bond_str
 
+        # Scale the product of all matrices, rather than every one of them
+        if isinstance(contractable, MatRegion):
+            eye = torch.eye(tensor.size(-1), dtype=tensor.dtype, device=tensor.device)
+            scaled_eye = torch.einsum("b,lr->blr", [scalar, eye])
+            return MatRegion(torch.cat([scaled_eye.unsqueeze(1), tensor], 1))
+
         ein_string = f"{bond_str},b->{bond_str}"
         out_tensor = torch.einsum(ein_string, [tensor, scalar])
 
-- 
2.43.0


From 68b1e67fc33ddbaa5a8f0987488827a53788589d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:16 +0000
Subject: [PATCH 35/40] fix: log norm of complex models failed when rounding
 errors made the density matrix non-Hermitian

---
 torchmps/mps_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 3d85f40..27eec4c 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -468,6 +468,9 @@ def get_log_norm(
     def transfer_op(core_t, d_mat, l_norm, l_sum=None):
         # Update density operator, rescale to have unit trace
         d_mat = t_op(d_mat, core_t)
+        if d_mat.is_complex():
+            # Remove the non-Hermitian part, which comes from rounding errors
+            d_mat = (d_mat + d_mat.t().conj()) / 2
         trace = hermitian_trace(d_mat)
         l_norm = l_norm + torch.log(trace)
         d_mat = d_mat / trace
-- 
2.43.0


From af8cc92433d9a28eb5f06876ac8026a30a5a79bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:12 +0000
Subject: [PATCH 36/40] fix: refuse empty lists in ContractableList and
 LinearRegion as documented

---
 torchmps/contractables.py | 2 +-
 torchmps/torchmps.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index 0d4747e..7ab040b 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -195,7 +195,7 @@ class ContractableList(Contractable):
 
     def __init__(self, contractable_list):
         # Check that input list is nonempty and has contractables as entries
-        if not isinstance(contractable_list, list) or contractable_list is []:
+        if not isinstance(contractable_list, list) or not contractable_list:
             raise ValueError("Input to ContractableList must be nonempty list")
         for i, item in enumerate(contractable_list):
             if not isinstance(item, Contractable):
diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 323a7f0..580eb79 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -604,7 +604,7 @@ class LinearRegion(nn.Module):
         self, module_list, periodic_bc=False, parallel_eval=False, module_states=None
     ):
         # Check that module_list is a list whose entries are Pytorch modules
-        if not isinstance(module_list, list) or module_list is []:
+        if not isinstance(module_list, list) or not module_list:
             raise ValueError("Input to LinearRegion must be nonempty list")
         for i, item in enumerate(module_list):
             if not isinstance(item, nn.Module):
-- 
2.43.0


From 9b07c3c02c9c6c11d669f5439eff0ecd994d8f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:12 +0000
Subject: [PATCH 37/40] fix: leave the list of a ContractableList unchanged
 when reducing it

---
 torchmps/contractables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index 7ab040b..952688e 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -234,7 +234,8 @@ class ContractableList(Contractable):
         """
         Reduce all the contractables in list before multiplying them together
         """
-        c_list = self.contractable_list
+        # Work on a copy, since the entries are overwritten and removed below
+        c_list = list(self.contractable_list)
         # For parallel_eval, reduce all contractables in c_list
         if parallel_eval:
             c_list = [item.reduce() for item in c_list]
-- 
2.43.0


From ee67346ba788ca2c8eb9a096ea3ff0cca7e59de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 38/40] fix: let parallel_eval override slim_eval in
 probabilistic models as documented

---
 torchmps/prob_mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchmps/prob_mps.py b/torchmps/prob_mps.py
index 7d28644..673e795 100644
--- a/torchmps/prob_mps.py
+++ b/torchmps/prob_mps.py
@@ -171,7 +171,7 @@ class ProbMPS(nn.Module):
         if self.embedding is not None:
             input_data = self.embedding(input_data)
 
-        if slim_eval:
+        if slim_eval and not parallel_eval:
             if self.use_bias:
                 raise ValueError("Bias matrices not supported for slim_eval")
             psi_vals, log_scales = slim_eval_fun(
@@ -402,7 +402,7 @@ class ProbUnifMPS(ProbMPS):
         if self.embedding is not None:
             input_data = self.embedding(input_data)
 
-        if slim_eval:
+        if slim_eval and not parallel_eval:
             if self.use_bias:
                 raise ValueError("Bias matrices not supported for slim_eval")
             psi_vals, log_scales = slim_eval_fun(
-- 
2.43.0


From 24acf72d0c0cb49d156a1dfd11187d6b82874d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:46 +0000
Subject: [PATCH 39/40] fix: slices of an input region keep its bias matrices

---
 torchmps/torchmps.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 580eb79..8a9ea54 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -1157,7 +1157,17 @@ class InputRegion(nn.Module):
         assert isinstance(key, int) or isinstance(key, slice)
 
         if isinstance(key, slice):
-            return InputRegion(self.tensor[key])
+            # Keep our bias matrices, which may differ between sites
+            bias_mat = self.bias_mat if self.use_bias else None
+            if self.use_bias and bias_mat.size(0) > 1:
+                bias_mat = bias_mat[key]
+
+            return InputRegion(
+                self.tensor[key],
+                use_bias=self.use_bias,
+                fixed_bias=self.fixed_bias,
+                bias_mat=bias_mat,
+            )
         else:
             return InputSite(self.tensor[key])
 
-- 
2.43.0


From 8e37d2d35cb72548a1fc17edf42c25bda3c0712f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:46 +0000
Subject: [PATCH 40/40] fix: convert raw sequences to the dtype of the model
 before the default embedding

---
 torchmps/torchmps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 8a9ea54..4b35fbd 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -247,6 +247,8 @@ class TI_MPS(nn.Module):
                 )
             embedded_data = self.core_tensor.new_empty(embedded_shape)
 
+            # Convert first, since unsigned or low-precision types can't hold 1 - x
+            input_data = input_data.to(embedded_data.dtype)
             embedded_data[:, :, 0] = input_data
             embedded_data[:, :, 1] = 1 - input_data
 
-- 
2.43.0

