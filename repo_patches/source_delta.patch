From bdeaaa981d0b719c381b3dda6809fd05288b4217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 01/29] fix: zero matrix products no longer turn into NaN when
 rescaled

---
 torchmps/mps_base.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 849bdde..f01acd1 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -105,7 +105,7 @@ def slim_eval_fun(seq_input: Tensor, core_tensor: Tensor, bound_vecs: Tensor) ->
         vecs = torch.matmul(vecs, mats)
 
         # Rescale vectors, update log_scale
-        rescale = vecs.abs().sum(dim=-1, keepdim=True) / bond_dim
+        rescale = nonzero_scale(vecs.abs().sum(dim=-1, keepdim=True) / bond_dim)
         log_scale = log_scale + rescale.log()[:, 0, 0]
         vecs = vecs / rescale
 
@@ -293,6 +293,7 @@ def mat_reduce_par(matrices: Tensor) -> Tuple[Tensor, Tensor]:
 
         # Rescale matrices and update log_scale
         rescales = matrices.abs().sum(dim=(-2, -1), keepdim=True) / bond_dim
+        rescales = nonzero_scale(rescales)
         log_scale = log_scale + rescales.log().sum(dim=-3)
         matrices = matrices / rescales
 
@@ -326,6 +327,7 @@ def mat_reduce_seq(matrices: Sequence[Tensor]) -> Tensor:
         # Rescale and update the log scale factor
         target_norm = sqrt(product.shape[-2] * product.shape[-1])
         rescale = product.abs().sum(dim=(-2, -1), keepdim=True) / target_norm
+        rescale = nonzero_scale(rescale)
         log_scale = log_scale + torch.log(rescale)
         product = product / rescale
 
@@ -334,6 +336,13 @@ def mat_reduce_seq(matrices: Sequence[Tensor]) -> Tensor:
     return product, log_scale
 
 
+def nonzero_scale(scale: Tensor) -> Tensor:
+    """
+    Replace vanishing scale factors by 1, so that zero products stay zero
+    """
+    return torch.where(scale == 0, torch.ones_like(scale), scale)
+
+
 def get_mat_slices(seq_input: Tensor, core_tensor: Tensor) -> Tensor:
     """
     Use sequential input and core tensor to get sequence of matrix slices
-- 
2.43.0


From 1f4ccdd26a5c64f002ab2ba14083b79760b78893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 02/29] fix: MPS with label_site=0 used the batch size of an
 earlier call

---
 torchmps/torchmps.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 3fdc570..f686fc7 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -7,6 +7,7 @@ import torch.nn as nn
 
 from .utils import init_tensor, svd_flex
 from .contractables import (
+    Contractable,
     SingleMat,
     MatRegion,
     OutputCore,
@@ -621,6 +622,10 @@ class LinearRegion(nn.Module):
         parallel_eval = self.parallel_eval
         lin_bonds = ["l", "r"]
 
+        # Modules placed before the first input region (e.g. label_site=0) must
+        # be expanded to the batch size of this input
+        Contractable.global_bs = input_data.size(0)
+
         # Whether to move intermediate vectors to a GPU (fixes Issue #8)
         to_cuda = input_data.is_cuda
         device = f"cuda:{input_data.get_device()}" if to_cuda else "cpu"
-- 
2.43.0


From f95ec7d36e9d922b00aabdef6ecc9f0644167f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 03/29] fix: MPS regions holding a single input site could not
 be evaluated

---
 torchmps/torchmps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index f686fc7..4d0b46c 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -636,7 +636,7 @@ class LinearRegion(nn.Module):
         contractable_list = []
         for module in self.module_list:
             mod_len = len(module)
-            if mod_len == 1:
+            if mod_len == 1 and not isinstance(module, InputRegion):
                 mod_input = input_data[:, ind]
             else:
                 mod_input = input_data[:, ind : (ind + mod_len)]
-- 
2.43.0


From e7a38aa7b3b2a4ebbd479bea61c0d4f4d7cce844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 04/29] fix: adaptive MPS with one input, or two inputs on a
 side of the label site, crashed

---
 torchmps/torchmps.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 4d0b46c..d30f627 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -824,10 +824,9 @@ class MergedLinearRegion(LinearRegion):
                     mod_num += 2
                     site_num += new_core.core_len()
 
-                # Add the last core if there's nothing to merge it with
-                if mod_num == len(merged_list) - 1:
-                    combined_list.append(merged_list[mod_num])
-                    mod_num += 1
+            # Add the last core if there's nothing to merge it with
+            if mod_num == len(merged_list) - 1:
+                combined_list.append(merged_list[mod_num])
 
             # We're finished when unmerged_list remains unchanged
             if len(combined_list) == len(merged_list):
@@ -900,10 +899,9 @@ class MergedLinearRegion(LinearRegion):
                     combined_list.append(new_core)
                     mod_num += 2
 
-                # Add the last core if there's nothing to combine it with
-                if mod_num == len(unmerged_list) - 1:
-                    combined_list.append(unmerged_list[mod_num])
-                    mod_num += 1
+            # Add the last core if there's nothing to combine it with
+            if mod_num == len(unmerged_list) - 1:
+                combined_list.append(unmerged_list[mod_num])
 
             # We're finished when unmerged_list remains unchanged
             if len(combined_list) == len(unmerged_list):
@@ -975,6 +973,14 @@ class MergedLinearRegion(LinearRegion):
 
             return InputRegion(new_tensor)
 
+        # Combine a pair of stray InputSites, return an InputRegion
+        elif (
+            not merging
+            and isinstance(left_core, InputSite)
+            and isinstance(right_core, InputSite)
+        ):
+            return InputRegion(torch.stack([left_core.tensor, right_core.tensor]))
+
         # If this situation doesn't belong to the above cases, return None
         else:
             return None
-- 
2.43.0


From 49f2b00cdd9b7b50d777d6d153af8e3dce7b7f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 05/29] fix: MPS path given as a tensor raised an error

---
 torchmps/torchmps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index d30f627..b068b82 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -433,7 +433,7 @@ class MPS(nn.Module):
             )
         assert len(self.linear_region) == input_dim
 
-        if path:
+        if path is not None and len(path) > 0:
             assert isinstance(path, (list, torch.Tensor))
             assert len(path) == input_dim
 
@@ -469,7 +469,7 @@ class MPS(nn.Module):
                                  which act on different parts of the input.
         """
         # For custom paths, rearrange our input into the desired order
-        if self.path:
+        if self.path is not None and len(self.path) > 0:
             path_inputs = []
             for site_num in self.path:
                 path_inputs.append(input_data[:, site_num])
-- 
2.43.0


From 373b5bb7cbad52eb74aed4f148298862165f7e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 06/29] fix: load_HV_data used a dtype alias which numpy
 removed

---
 torchmps/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index 506cba2..f306409 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -316,7 +316,7 @@ def load_HV_data(length):
         )
 
     images = np.empty([num_images, length, length], dtype=np.float32)
-    labels = np.empty(num_images, dtype=np.int)
+    labels = np.empty(num_images, dtype=int)
 
     # Used to generate the stripe pattern from integer i below
     template = "{:0" + str(length) + "b}"
-- 
2.43.0


From 8cd6a341b281dcad38663d8c0ac3254577b908d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 07/29] fix: init_tensor did not cap init_dim for cores with
 unequal bond dimensions

---
 torchmps/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index f306409..6f25cad 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -223,6 +223,7 @@ def init_tensor(shape, bond_str, init_method):
                 bond_dims = [init_dim, init_dim]
             else:
                 init_dim = min(bond_dims)
+                bond_dims = [init_dim, init_dim]
 
             eye_shape = [init_dim if c in bond_chars else 1 for c in bond_str]
             expand_shape = [
-- 
2.43.0


From 8162fbe080929dc40f84b7b9ef71d41a6519b1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 08/29] fix: trig_embed required scipy, which is not a
 dependency

---
 torchmps/embeddings.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 6cd17c8..d076d0e 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -20,7 +20,7 @@
 # CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 """Uniform and non-uniform probabilistic MPS classes"""
-from math import sqrt, pi
+from math import comb, sqrt, pi
 from functools import partial
 from typing import Union, Optional, Callable
 
@@ -242,15 +242,13 @@ def trig_embed(data, emb_dim=2):
 
     Written by Raphaëlle Tihon
     """
-    from scipy.special import binom
-
     emb_data = []
     for s in range(emb_dim):
         comp = (
             torch.cos(data * pi / 2) ** (emb_dim - s - 1)
             * torch.sin(data * pi / 2) ** s
         )
-        comp *= sqrt(binom(emb_dim - 1, s))
+        comp *= sqrt(comb(emb_dim - 1, s))
         emb_data.append(comp)
     emb_data = torch.stack(emb_data, dim=-1)
     assert emb_data.shape == data.shape + (emb_dim,)
-- 
2.43.0


From ae612bdd8232d26f8634a02ee96da8a7e4a9cd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 09/29] fix: parameters of a trainable embedding were not
 registered with the model

---
 torchmps/embeddings.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index d076d0e..24a8745 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -88,9 +88,14 @@ class TrainableEmbedding(nn.Module):
 
         # Save defining data
         self.domain = data_domain
+        self.emb_module = emb_fun
+
+    def emb_fun(self, data):
+        """
+        Call the wrapped module on (batch) scalar data
+        """
         # Need to add on singleton dimension to agree with nn.Module format
-        self.emb_fun = lambda x: emb_fun(x[..., None])
-        # self.emb_fun = emb_fun
+        return self.emb_module(data[..., None])
 
     def make_lambda(self, num_points: int = 1000):
         """
-- 
2.43.0


From cebc8b95a4e9fe12db5812865d4dbb7d27d57af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 10/29] fix: probabilities of a biased model with embedded
 inputs were not normalized

---
 torchmps/prob_mps.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/torchmps/prob_mps.py b/torchmps/prob_mps.py
index 9f840d8..bfb117f 100644
--- a/torchmps/prob_mps.py
+++ b/torchmps/prob_mps.py
@@ -178,10 +178,11 @@ class ProbMPS(nn.Module):
                 input_data, self.core_tensors, self.edge_vecs
             )
         else:
-            # Contract inputs with core tensors and add bias matrices
-            mat_slices = get_mat_slices(input_data, self.core_tensors)
+            # Add bias matrices to core tensors and contract with inputs
+            core_tensors = self.core_tensors
             if self.use_bias:
-                mat_slices = mat_slices + self.bias_mat[None, None]
+                core_tensors = core_tensors + self.bias_mat[None, None]
+            mat_slices = get_mat_slices(input_data, core_tensors)
 
             #  Contract all bond dims to get (unnormalized) prob amplitudes
             psi_vals, log_scales = contract_matseq(
@@ -406,10 +407,11 @@ class ProbUnifMPS(ProbMPS):
                 input_data, self.core_tensors, self.edge_vecs
             )
         else:
-            # Contract inputs with core tensors and add bias matrices
-            mat_slices = get_mat_slices(input_data, self.core_tensors)
+            # Add bias matrices to core tensors and contract with inputs
+            core_tensors = self.core_tensors
             if self.use_bias:
-                mat_slices = mat_slices + self.bias_mat[None]
+                core_tensors = core_tensors + self.bias_mat[None]
+            mat_slices = get_mat_slices(input_data, core_tensors)
 
             #  Contract all bond dims to get (unnormalized) prob amplitudes
             psi_vals, log_scales = contract_matseq(
-- 
2.43.0


From b634e6f34676d68bce2f2da6eae3749bad5c8337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 11/29] fix: parallel_eval did not override slim_eval as
 documented

---
 torchmps/prob_mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchmps/prob_mps.py b/torchmps/prob_mps.py
index bfb117f..3984b82 100644
--- a/torchmps/prob_mps.py
+++ b/torchmps/prob_mps.py
@@ -171,7 +171,7 @@ class ProbMPS(nn.Module):
         if self.embedding is not None:
             input_data = self.embedding(input_data)
 
-        if slim_eval:
+        if slim_eval and not parallel_eval:
             if self.use_bias:
                 raise ValueError("Bias matrices not supported for slim_eval")
             psi_vals, log_scales = slim_eval_fun(
@@ -400,7 +400,7 @@ class ProbUnifMPS(ProbMPS):
         if self.embedding is not None:
             input_data = self.embedding(input_data)
 
-        if slim_eval:
+        if slim_eval and not parallel_eval:
             if self.use_bias:
                 raise ValueError("Bias matrices not supported for slim_eval")
             psi_vals, log_scales = slim_eval_fun(
-- 
2.43.0


From bdec03fa1e4bea1c13e54e76dd3ee29a8fb1eab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 12/29] fix: normal_init ignored rel_std

---
 torchmps/mps_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index f01acd1..70e1250 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -561,7 +561,7 @@ def normal_init(shape: tuple, is_complex: bool = False, rel_std: float = 1.0) ->
             )
 
     # Initialize core using size-adjusted value of variance
-    std = 1 / shape[-1]
+    std = rel_std / shape[-1]
     core_tensor = std * torch.randn(shape)
     if is_complex:
         core_tensor = phaseify(core_tensor)
-- 
2.43.0


From 5af5f5eb7cc7a219019c7d81d5df35cb2eb210f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 13/29] fix: TI_MPS outputs of unembedded sequences depended on
 the other sequence lengths

---
 torchmps/torchmps.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index b068b82..94e55ae 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -178,11 +178,15 @@ class TI_MPS(nn.Module):
                     f"{self.use_bias}, self.fixed_bias={self.fixed_bias})"
                 )
 
+            # Embed each sequence (if needed), so that only embedded data is padded
+            if num_modes == 1:
+                input_data = [self.embed_input(s[None])[0] for s in input_data]
+
             # Pad the sequences with zeros (if needed), return as batch tensor
             if can_pad:
                 batch_size = len(input_data)
                 full_size = [batch_size, max_len, feature_dim]
-                batch_input = torch.zeros(full_size[: num_modes + 1])
+                batch_input = torch.zeros(full_size)
 
                 # Copy each sequence into batch_input
                 for i, seq in enumerate(input_data):
@@ -190,10 +194,6 @@ class TI_MPS(nn.Module):
             else:
                 batch_input = torch.stack(input_data)
 
-            # Embed everything (if needed) and return the batch tensor
-            if len(batch_input.shape) == 2:
-                batch_input = self.embed_input(batch_input)
-
             return batch_input
 
         else:
-- 
2.43.0


From aaad8cc17be47d580b38541af4e2d759625a3155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 14/29] fix: a plain function could not replace a feature map
 given as nn.Module

---
 torchmps/torchmps.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 94e55ae..f37c922 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -271,6 +271,9 @@ class TI_MPS(nn.Module):
                     f"values of size {list(needed_shape)}"
                 )
 
+        # Functions can't be assigned over a previously registered nn.Module
+        if "feature_map" in self._modules:
+            del self.feature_map
         self.feature_map = feature_map
 
 
@@ -568,6 +571,9 @@ class MPS(nn.Module):
                     f"values of size {list(needed_shape)}"
                 )
 
+        # Functions can't be assigned over a previously registered nn.Module
+        if "feature_map" in self._modules:
+            del self.feature_map
         self.feature_map = feature_map
 
     def core_len(self):
-- 
2.43.0


From f5231352b8ab9b132ededdc6c8e0fb8693357e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 15/29] fix: log_norm with a trainable embedding used outdated
 embedding parameters

---
 torchmps/prob_mps.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/torchmps/prob_mps.py b/torchmps/prob_mps.py
index 3984b82..7489085 100644
--- a/torchmps/prob_mps.py
+++ b/torchmps/prob_mps.py
@@ -250,7 +250,10 @@ class ProbMPS(nn.Module):
         else:
             core_tensors = self.core_tensors
 
-        # Account for non-trivial lambda function in the embedding
+        # Account for non-trivial lambda function in the embedding, which must
+        # reflect the current parameters of the embedding when it is trainable
+        if isinstance(self.embedding, TrainableEmbedding):
+            self.embedding.make_lambda()
         lamb_mat = None if self.embedding is None else self.embedding.lamb_mat
 
         return get_log_norm(core_tensors, self.edge_vecs, lamb_mat=lamb_mat)
@@ -454,7 +457,10 @@ class ProbUnifMPS(ProbMPS):
         else:
             core_tensors = self.core_tensors
 
-        # Account for non-trivial lambda function in the embedding
+        # Account for non-trivial lambda function in the embedding, which must
+        # reflect the current parameters of the embedding when it is trainable
+        if isinstance(self.embedding, TrainableEmbedding):
+            self.embedding.make_lambda()
         lamb_mat = None if self.embedding is None else self.embedding.lamb_mat
 
         return get_log_norm(
-- 
2.43.0


From 69a5f4cf7f822dedbee095a8bb0e4fcd5dde3353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 16/29] fix: multiplying a ContractableList always failed, and
 would have reversed the order

---
 torchmps/contractables.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index cc6a4e3..734fc2e 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -191,15 +191,15 @@ class ContractableList(Contractable):
         """
         # The input cannot be a composite contractable
         assert hasattr(contractable, "tensor")
-        output = contractable.tensor
+        output = contractable
 
         # Multiply by everything in ContractableList, in the correct order
         if rmul:
             for item in self.contractable_list:
-                output = item * output
+                output = output * item
         else:
             for item in self.contractable_list[::-1]:
-                output = output * item
+                output = item * output
 
         return output
 
-- 
2.43.0


From 4d3d0b0280d1e454b4887804eca4ea6bb754a83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 17/29] fix: scalars could not multiply edge vectors or output
 matrices

---
 torchmps/contractables.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index 734fc2e..4e0beca 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -455,7 +455,11 @@ class Scalar(Contractable):
 
         # Wrap the result in the same class right_contractable belongs to
         contract_class = type(contractable)
-        if contract_class is not Contractable:
+        if contract_class is EdgeVec:
+            return EdgeVec(out_tensor, is_left_vec="r" in bond_str)
+        elif contract_class is OutputMat:
+            return OutputMat(out_tensor, is_left_mat="r" in bond_str)
+        elif contract_class is not Contractable:
             return contract_class(out_tensor)
         else:
             return Contractable(out_tensor, bond_str)
-- 
2.43.0


From 3ab7c11b002e039b992f3b5f6f834018f44728d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:27 +0000
Subject: [PATCH 18/29] fix: complex models with a non-diagonal real embedding
 metric could not be normalised

---
 torchmps/mps_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 70e1250..967612f 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -441,6 +441,9 @@ def get_log_norm(
     left_vec, r_vec = boundary_vecs
     dens_mat = left_vec[:, None] @ left_vec[None, :].conj()
     log_norm = torch.zeros(())
+    # Complex cores can be used with embeddings whose lambda matrix is real
+    if lamb_mat is not None and core_tensor.is_complex():
+        lamb_mat = lamb_mat.to(core_tensor.dtype)
     if uniform and fixed_len:
         core_tensor = (core_tensor,) * length
 
-- 
2.43.0


From b2a6ad87af831997f327ecc30a976f90f3be1639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:03 +0000
Subject: [PATCH 19/29] fix: reducing a ContractableList serially emptied the
 list it was built from

---
 torchmps/contractables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index 4e0beca..a63ee2f 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -213,7 +213,8 @@ class ContractableList(Contractable):
         """
         Reduce all the contractables in list before multiplying them together
         """
-        c_list = self.contractable_list
+        # Work on a copy, to leave the list we were given unchanged
+        c_list = list(self.contractable_list)
         # For parallel_eval, reduce all contractables in c_list
         if parallel_eval:
             c_list = [item.reduce() for item in c_list]
-- 
2.43.0


From 10f19ffd22234f3aea5a0dfcc95f9149f4f760a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:16 +0000
Subject: [PATCH 20/29] fix: svd_flex conjugated complex factors wrongly and
 turned padded factors into float32

---
 torchmps/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index 6f25cad..bdf8ccc 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -85,7 +85,7 @@ def svd_flex(tensor, svd_string, max_D=None, cutoff=1e-10, sv_right=True, sv_vec
         # Get SVD and format so that left_mat * diag(svs) * right_mat = tensor
         left_mat, svs, right_mat = torch.svd(tensor)
         svs, _ = torch.sort(svs, descending=True)
-        right_mat = torch.t(right_mat)
+        right_mat = torch.t(right_mat).conj()
 
         # Decrease or increase our tensor sizes in the presence of max_D
         if max_D and len(svs) > max_D:
@@ -93,11 +93,11 @@ def svd_flex(tensor, svd_string, max_D=None, cutoff=1e-10, sv_right=True, sv_vec
             left_mat = left_mat[:, :max_D]
             right_mat = right_mat[:max_D]
         elif max_D and len(svs) < max_D:
-            copy_svs = torch.zeros([max_D])
+            copy_svs = svs.new_zeros([max_D])
             copy_svs[: len(svs)] = svs
-            copy_left = torch.zeros([left_mat.size(0), max_D])
+            copy_left = left_mat.new_zeros([left_mat.size(0), max_D])
             copy_left[:, : left_mat.size(1)] = left_mat
-            copy_right = torch.zeros([max_D, right_mat.size(1)])
+            copy_right = right_mat.new_zeros([max_D, right_mat.size(1)])
             copy_right[: right_mat.size(0)] = right_mat
             svs, left_mat, right_mat = copy_svs, copy_left, copy_right
 
-- 
2.43.0


From 38462f91e026c17e65e3a70be2ee116d5721b31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:27 +0000
Subject: [PATCH 21/29] fix: init_tensor scrambled non-square identities when
 'r' precedes 'l' in bond_str

---
 torchmps/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index bdf8ccc..d493e4c 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -236,7 +236,8 @@ def init_tensor(shape, bond_str, init_method):
                 shape[i] if c in bond_chars else 1 for i, c in enumerate(bond_str)
             ]
             expand_shape = shape
-            bond_dims = [shape[bond_str.index(c)] for c in bond_chars]
+            # Sizes in the order of bond_str, in which "r" may come before "l"
+            bond_dims = [shape[i] for i, c in enumerate(bond_str) if c in bond_chars]
 
         eye_tensor = torch.eye(bond_dims[0], bond_dims[1]).view(eye_shape)
         eye_tensor = eye_tensor.expand(expand_shape)
-- 
2.43.0


From 429b8a94663c325cf0ae479adc92a7dc6daad1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:07 +0000
Subject: [PATCH 22/29] fix: OutputMat products with scalars and matrices
 raised NotImplemented instead of returning it

---
 torchmps/contractables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index a63ee2f..709e000 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -372,7 +372,7 @@ class OutputMat(Contractable):
         Multiply with an edge vector along the shared linear index
         """
         if not isinstance(edge_vec, EdgeVec):
-            raise NotImplemented  # noqa: F901
+            return NotImplemented
         else:
             return super().__mul__(edge_vec, rmul)
 
-- 
2.43.0


From 6ea9a99656430f35e96afcccc4c0e2e027a506d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:07 +0000
Subject: [PATCH 23/29] fix: ContractableList accepted an empty list

---
 torchmps/contractables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index 709e000..b397ee3 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -174,7 +174,7 @@ class ContractableList(Contractable):
 
     def __init__(self, contractable_list):
         # Check that input list is nonempty and has contractables as entries
-        if not isinstance(contractable_list, list) or contractable_list is []:
+        if not isinstance(contractable_list, list) or len(contractable_list) == 0:
             raise ValueError("Input to ContractableList must be nonempty list")
         for i, item in enumerate(contractable_list):
             if not isinstance(item, Contractable):
-- 
2.43.0


From 676b661f8c7882d3d182e5f5b01b63d9f00a6e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:07 +0000
Subject: [PATCH 24/29] fix: Scalar rejected the 0-dimensional tensors it
 documents

---
 torchmps/contractables.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index b397ee3..b07400e 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -429,9 +429,13 @@ class Scalar(Contractable):
     def __init__(self, scalar):
         # Add dummy dimension if we have a torch scalar
         shape = list(scalar.shape)
-        if shape is []:
-            scalar = scalar.view([1])
-            shape = [1]
+        if shape == []:
+            if Contractable.global_bs is None:
+                raise RuntimeError(
+                    "No batch size given and no previous batch size set"
+                )
+            scalar = scalar.expand([Contractable.global_bs])
+            shape = [Contractable.global_bs]
 
         # Check the input shape
         if len(shape) != 1:
-- 
2.43.0


From 001d0637afef9df1e5a635b0d8321f88e3f5f42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:07 +0000
Subject: [PATCH 25/29] fix: Scalar products with a ContractableList failed,
 with a MatRegion scaled every matrix

---
 torchmps/contractables.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index b07400e..8832d47 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -451,10 +451,20 @@ class Scalar(Contractable):
         """
         Multiply a contractable by our scalar and return the result
         """
+        # Composite contractables multiply us by each of their items instead
+        if isinstance(contractable, ContractableList):
+            return NotImplemented
+
         scalar = self.tensor
         tensor = contractable.tensor
         bond_str = contractable.bond_str
 
+        # The product of the matrices in a region is scaled once, not once for
+        # every matrix
+        if isinstance(contractable, MatRegion):
+            first = torch.einsum("bslr,b->bslr", [tensor[:, :1], scalar])
+            return MatRegion(torch.cat([first, tensor[:, 1:]], 1))
+
         ein_string = f"{bond_str},b->{bond_str}"
         out_tensor = torch.einsum(ein_string, [tensor, scalar])
 
-- 
2.43.0


From 21a69937969fa3ce493a8cf1f84c80b079e468f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:34 +0000
Subject: [PATCH 26/29] fix: Inputs shorter than a ProbMPS, or of length or
 dimension 1, were silently accepted

---
 torchmps/mps_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 967612f..9ac8120 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -367,6 +367,8 @@ def get_mat_slices(seq_input: Tensor, core_tensor: Tensor) -> Tensor:
     uniform = core_tensor.ndim == 3
     input_dim, bond_dim = core_tensor.shape[-3:-1]
     seq_len = seq_input.shape[1]
+    assert uniform or core_tensor.shape[0] == seq_len
+    assert indexing or seq_input.shape[2] == input_dim
 
     # TODO: Deal with packing if/when we have variable-len sequences,
     #       likely using pad_mat_slices function
-- 
2.43.0


From a80e253c7ac77cb01225c2003a050dc82914a4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:34 +0000
Subject: [PATCH 27/29] fix: get_log_norm broadcast lambda matrices of the
 wrong size

---
 torchmps/mps_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 9ac8120..b78ee16 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -435,6 +435,7 @@ def get_log_norm(
     assert boundary_vecs.shape[-1] == core_tensor.shape[-1]
     assert uniform or length in (None, core_tensor.shape[0])
     assert lamb_mat is None or lamb_mat.ndim <= 2
+    assert lamb_mat is None or all(s == core_tensor.shape[-3] for s in lamb_mat.shape)
     assert not (uniform and length is None)
     fixed_len = not uniform or length != -1
 
-- 
2.43.0


From 883616855f4a2718dbf431d83520cefe8c5ec316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:22 +0000
Subject: [PATCH 28/29] fix: a model with a trainable embedding could not be
 copied after evaluation

---
 torchmps/embeddings.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 24a8745..ca5f02c 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -146,6 +146,15 @@ class TrainableEmbedding(nn.Module):
         self.make_lambda()
         return self.emb_fun(input_data)
 
+    def __getstate__(self):
+        """
+        Detach the computed lambda matrix, so that the module can be copied
+        """
+        state = self.__dict__.copy()
+        if "lamb_mat" in state:
+            state["lamb_mat"] = state["lamb_mat"].detach()
+        return state
+
 
 class FixedEmbedding(nn.Module):
     r"""
-- 
2.43.0


From 3655d9c410776d3cd1289341cdc023cc158a482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:22 +0000
Subject: [PATCH 29/29] fix: state_dict of an adaptive MPS could not be loaded
 after an odd number of re-merges

---
 torchmps/torchmps.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index f37c922..7366922 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -774,6 +774,28 @@ class MergedLinearRegion(LinearRegion):
         else:
             return output
 
+    def get_extra_state(self):
+        """
+        Return our merge state, which is saved in the state_dict
+        """
+        return {"offset": self.offset, "input_counter": self.input_counter}
+
+    def set_extra_state(self, state):
+        """
+        Restore our merge state, before the active module list is loaded
+        """
+        self.offset = state["offset"]
+        self.input_counter = state["input_counter"]
+        self.module_list = getattr(self, f"module_list_{self.offset}")
+
+    def _load_from_state_dict(self, state_dict, prefix, *args):
+        """
+        Load state_dict, which might have been saved without our merge state
+        """
+        default_state = {"offset": 0, "input_counter": 0}
+        state_dict.setdefault(prefix + "_extra_state", default_state)
+        super()._load_from_state_dict(state_dict, prefix, *args)
+
     @torch.no_grad()
     def _merge(self, offset):
         """
-- 
2.43.0

