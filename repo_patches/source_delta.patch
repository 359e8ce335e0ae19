From 71c7253d84a7e5a76e367263f97c6d56e30a4cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 01/37] fix: set the batch size before evaluating modules
 without input

With label_site=0 the OutputSite is the first module evaluated, so it was
expanded with the batch size left over from an earlier call (or none).
---
 torchmps/torchmps.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 3fdc570..cb5d0da 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -7,6 +7,7 @@ import torch.nn as nn
 
 from .utils import init_tensor, svd_flex
 from .contractables import (
+    Contractable,
     SingleMat,
     MatRegion,
     OutputCore,
@@ -625,6 +626,10 @@ class LinearRegion(nn.Module):
         to_cuda = input_data.is_cuda
         device = f"cuda:{input_data.get_device()}" if to_cuda else "cpu"
 
+        # Modules without any input (e.g. an OutputSite on the left edge) rely
+        # on the global batch size, which must match the current input
+        Contractable.global_bs = input_data.size(0)
+
         # For each module, pull out the number of pixels needed and call that
         # module's forward() method, putting the result in contractable_list
         ind = 0
-- 
2.43.0


From 0d7552440714c08cf31eb1497b9cbdb2aa5a8a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 02/37] fix: feed length-one InputRegions a sequence of inputs

InputRegion always takes input of shape [batch, input_dim, feature_dim], so
an MPS with a single core on either side of label_site raised an
AssertionError.
---
 torchmps/torchmps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index cb5d0da..0cbb3f4 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -636,7 +636,7 @@ class LinearRegion(nn.Module):
         contractable_list = []
         for module in self.module_list:
             mod_len = len(module)
-            if mod_len == 1:
+            if mod_len == 1 and not isinstance(module, InputRegion):
                 mod_input = input_data[:, ind]
             else:
                 mod_input = input_data[:, ind : (ind + mod_len)]
-- 
2.43.0


From 67c4494f88668f9b49ed20fd6f0ac21edbdbc880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 03/37] fix: keep the only core of a single-core list when
 (un)merging

The sliding window loops never run for a list with a single entry, so an
adaptive MPS with input_dim=1 lost its only (merged) core.
---
 torchmps/torchmps.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 0cbb3f4..fd9c8ec 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -829,6 +829,9 @@ class MergedLinearRegion(LinearRegion):
                     combined_list.append(merged_list[mod_num])
                     mod_num += 1
 
+            # A list with only one core never enters the loop above
+            combined_list.extend(merged_list[mod_num:])
+
             # We're finished when unmerged_list remains unchanged
             if len(combined_list) == len(merged_list):
                 break
@@ -905,6 +908,9 @@ class MergedLinearRegion(LinearRegion):
                     combined_list.append(unmerged_list[mod_num])
                     mod_num += 1
 
+            # A list with only one core never enters the loop above
+            combined_list.extend(unmerged_list[mod_num:])
+
             # We're finished when unmerged_list remains unchanged
             if len(combined_list) == len(unmerged_list):
                 break
-- 
2.43.0


From dc60b85cf2e79481a55bf02cf831dd9afdf38d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 04/37] fix: recombine two adjacent lone InputSites when
 unmerging

Without a rule for this pair, the unmerged list of a short adaptive MPS kept
two lone InputSites, and the following merge failed or mismatched.
---
 torchmps/torchmps.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index fd9c8ec..8d00bb1 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -981,6 +981,14 @@ class MergedLinearRegion(LinearRegion):
 
             return InputRegion(new_tensor)
 
+        # Combine two stray InputSites, return an InputRegion
+        elif (
+            not merging
+            and isinstance(left_core, InputSite)
+            and isinstance(right_core, InputSite)
+        ):
+            return InputRegion(torch.stack([left_core.tensor, right_core.tensor]))
+
         # If this situation doesn't belong to the above cases, return None
         else:
             return None
-- 
2.43.0


From f7fe2ca0f72506da44b7ae65b951e9d585d8e024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 05/37] fix: build open boundary vectors with the dtype and
 device of the cores

A double or half precision MPS with open boundaries failed in einsum, since
its dummy edge vectors always had the default dtype.
---
 torchmps/torchmps.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 8d00bb1..d444c7e 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -622,10 +622,6 @@ class LinearRegion(nn.Module):
         parallel_eval = self.parallel_eval
         lin_bonds = ["l", "r"]
 
-        # Whether to move intermediate vectors to a GPU (fixes Issue #8)
-        to_cuda = input_data.is_cuda
-        device = f"cuda:{input_data.get_device()}" if to_cuda else "cpu"
-
         # Modules without any input (e.g. an OutputSite on the left edge) rely
         # on the global batch size, which must match the current input
         Contractable.global_bs = input_data.size(0)
@@ -679,7 +675,9 @@ class LinearRegion(nn.Module):
             ]
 
             # Build dummy end vectors and insert them at the ends of our list
-            end_vecs = [torch.zeros(dim).to(device) for dim in bond_dims]
+            end_vecs = [
+                item.tensor.new_zeros(dim) for (item, dim) in zip(end_items, bond_dims)
+            ]
 
             for vec in end_vecs:
                 vec[0] = 1
-- 
2.43.0


From 87ff353d82b8c7206e395477b1d362a0ae2df262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 06/37] fix: format TI_MPS inputs with the dtype and device of
 the model

Padded and embedded inputs were always copied into default CPU tensors.
---
 torchmps/torchmps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index d444c7e..a2f5746 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -182,7 +182,7 @@ class TI_MPS(nn.Module):
             if can_pad:
                 batch_size = len(input_data)
                 full_size = [batch_size, max_len, feature_dim]
-                batch_input = torch.zeros(full_size[: num_modes + 1])
+                batch_input = self.core_tensor.new_zeros(full_size[: num_modes + 1])
 
                 # Copy each sequence into batch_input
                 for i, seq in enumerate(input_data):
@@ -239,7 +239,7 @@ class TI_MPS(nn.Module):
                     f"self.feature_dim = {feature_dim}, but "
                     "default feature_map requires self.feature_dim = 2"
                 )
-            embedded_data = torch.empty(embedded_shape)
+            embedded_data = self.core_tensor.new_empty(embedded_shape)
 
             embedded_data[:, :, 0] = input_data
             embedded_data[:, :, 1] = 1 - input_data
-- 
2.43.0


From 283740f22b16532907636fdde9d26be515804f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 07/37] fix: create default InputRegion bias with the dtype and
 device of its core

---
 torchmps/torchmps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index a2f5746..cab0ec0 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -1023,7 +1023,9 @@ class InputRegion(nn.Module):
         if use_bias:
             assert bias_mat is None or isinstance(bias_mat, torch.Tensor)
             bias_mat = (
-                torch.eye(bond_dim).unsqueeze(0) if bias_mat is None else bias_mat
+                torch.eye(bond_dim, dtype=tensor.dtype, device=tensor.device).unsqueeze(0)
+                if bias_mat is None
+                else bias_mat
             )
 
             bias_modes = len(list(bias_mat.shape))
-- 
2.43.0


From d9f00302b2d55c8968b1c8a25d055bfc6a4406a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 08/37] fix: keep dtype and device of the cores in svd_flex and
 unmerging

Padding and singular value buffers were always default CPU tensors, which
lost precision (or mixed dtypes) for double precision adaptive models.
---
 torchmps/torchmps.py | 6 +++---
 torchmps/utils.py    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index cab0ec0..239276c 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -1210,7 +1210,7 @@ class MergedInput(nn.Module):
         # Split every one of the cores into two and add them both to core_list
         core_list, bond_list, sv_list = [], [None], [None]
         for merged_core in tensor:
-            sv_vec = torch.empty(max_D)
+            sv_vec = tensor.new_empty(max_D)
             left_core, right_core, bond_dim = svd_flex(
                 merged_core, svd_string, max_D, cutoff, sv_vec=sv_vec
             )
@@ -1397,7 +1397,7 @@ class MergedOutput(nn.Module):
         if left_output:
             svd_string = "olri->olu,uri"
             max_D = tensor.size(2)
-            sv_vec = torch.empty(max_D)
+            sv_vec = tensor.new_empty(max_D)
 
             output_core, input_core, bond_dim = svd_flex(
                 tensor, svd_string, max_D, cutoff, sv_vec=sv_vec
@@ -1411,7 +1411,7 @@ class MergedOutput(nn.Module):
         else:
             svd_string = "olri->our,lui"
             max_D = tensor.size(1)
-            sv_vec = torch.empty(max_D)
+            sv_vec = tensor.new_empty(max_D)
 
             output_core, input_core, bond_dim = svd_flex(
                 tensor, svd_string, max_D, cutoff, sv_vec=sv_vec
diff --git a/torchmps/utils.py b/torchmps/utils.py
index 506cba2..f58ab34 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -93,11 +93,11 @@ def svd_flex(tensor, svd_string, max_D=None, cutoff=1e-10, sv_right=True, sv_vec
             left_mat = left_mat[:, :max_D]
             right_mat = right_mat[:max_D]
         elif max_D and len(svs) < max_D:
-            copy_svs = torch.zeros([max_D])
+            copy_svs = svs.new_zeros([max_D])
             copy_svs[: len(svs)] = svs
-            copy_left = torch.zeros([left_mat.size(0), max_D])
+            copy_left = left_mat.new_zeros([left_mat.size(0), max_D])
             copy_left[:, : left_mat.size(1)] = left_mat
-            copy_right = torch.zeros([max_D, right_mat.size(1)])
+            copy_right = right_mat.new_zeros([max_D, right_mat.size(1)])
             copy_right[: right_mat.size(0)] = right_mat
             svs, left_mat, right_mat = copy_svs, copy_left, copy_right
 
-- 
2.43.0


From 0e0548aa35434e8cbe2cae71533d96c7ec2cdb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 09/37] fix: allocate evaluation buffers on the device of the
 model

Log scales, empty products and site indices were always created on the CPU,
so evaluation failed for models living on another device.
---
 torchmps/mps_base.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 849bdde..a808ce3 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -98,7 +98,7 @@ def slim_eval_fun(seq_input: Tensor, core_tensor: Tensor, bound_vecs: Tensor) ->
         slice_fun = lambda inps, core: core[inps]
 
     # Process input sequentially, from left to right
-    log_scale = torch.zeros(batch)
+    log_scale = torch.zeros(batch, device=core_tensor.device)
     vecs = bound_vecs[0][None, None]
     for inps, core in zip(seq_input, all_cores):
         mats = slice_fun(inps, core)
@@ -264,11 +264,14 @@ def mat_reduce_par(matrices: Tensor) -> Tuple[Tensor, Tensor]:
     n_mats = matrices.shape[s_dim]
 
     # Initialize the register for the log scale factors
-    log_scale = torch.zeros(matrices.shape[:-3])[..., None, None]
+    log_scale = torch.zeros(matrices.shape[:-3], device=matrices.device)
+    log_scale = log_scale[..., None, None]
 
     # In case of empty collection of matrices, return the identity
     if n_mats == 0:
-        eye = torch.eye(matrices.shape[-1], dtype=matrices.dtype)
+        eye = torch.eye(
+            matrices.shape[-1], dtype=matrices.dtype, device=matrices.device
+        )
         matrices, _ = batch_broadcast((eye, matrices), (2, 3))
         return matrices, log_scale
     elif n_mats == 1:
@@ -319,7 +322,8 @@ def mat_reduce_seq(matrices: Sequence[Tensor]) -> Tensor:
 
     # Multiply all matrices sequentially, from left to right
     product, matrices = matrices[0], matrices[1:]
-    log_scale = torch.zeros(product.shape[:-2])[..., None, None]
+    log_scale = torch.zeros(product.shape[:-2], device=product.device)
+    log_scale = log_scale[..., None, None]
     for mat in matrices:
         product = torch.matmul(product, mat)
 
@@ -371,7 +375,9 @@ def get_mat_slices(seq_input: Tensor, core_tensor: Tensor) -> Tensor:
         mat_slices = core_tensor[seq_input]
     elif indexing and not uniform:
         # Indexing equivalent of the einsum operation at bottom
-        mat_slices = CIndex(core_tensor)[torch.arange(seq_len)[None], seq_input]
+        mat_slices = CIndex(core_tensor)[
+            torch.arange(seq_len, device=seq_input.device)[None], seq_input
+        ]
         # mat_slices = core_tensor[torch.arange(seq_len)[None], seq_input]
     elif not indexing and uniform:
         mat_slices = einsum("bti,ide->btde", seq_input, core_tensor)
-- 
2.43.0


From 394d38b014c81a23ecbb33e98930d48ba6299d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 10/37] fix: let realify accept any precision and magnitude

Comparing with a single precision zero raised an error for complex128, and
an absolute tolerance rejected large values with only rounding noise.
---
 torchmps/utils2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchmps/utils2.py b/torchmps/utils2.py
index a3fb72b..5cca81b 100644
--- a/torchmps/utils2.py
+++ b/torchmps/utils2.py
@@ -183,7 +183,8 @@ def realify(tensor: Tensor) -> Tensor:
     Input must be approximately real, `realify` will raise error if not
     """
     if tensor.is_complex():
-        assert torch.allclose(tensor.imag, torch.zeros(()), atol=1e-4)
+        scale = tensor.detach().abs().clamp(min=1.0)
+        assert torch.all(tensor.detach().imag.abs() <= 1e-4 * scale)
         return tensor.real
     else:
         return tensor
-- 
2.43.0


From a5818eb2e1fd00492277b66f44ae149a64b21ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 11/37] fix: reject discrete sequences shorter than a
 fixed-length MPS

Only the first cores were used for such inputs, and the result was then
normalized as if it were the probability of a full sequence.
---
 torchmps/mps_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index a808ce3..4021365 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -374,6 +374,7 @@ def get_mat_slices(seq_input: Tensor, core_tensor: Tensor) -> Tensor:
     if indexing and uniform:
         mat_slices = core_tensor[seq_input]
     elif indexing and not uniform:
+        assert seq_len == core_tensor.shape[0]
         # Indexing equivalent of the einsum operation at bottom
         mat_slices = CIndex(core_tensor)[
             torch.arange(seq_len, device=seq_input.device)[None], seq_input
-- 
2.43.0


From f3bf3645355e6dc9851dc2a95c66c4db0e645876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 12/37] fix: do not require scipy in trig_embed

scipy is not a dependency of torchmps, so the embedding raised an ImportError.
---
 torchmps/embeddings.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 6cd17c8..d076d0e 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -20,7 +20,7 @@
 # CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 """Uniform and non-uniform probabilistic MPS classes"""
-from math import sqrt, pi
+from math import comb, sqrt, pi
 from functools import partial
 from typing import Union, Optional, Callable
 
@@ -242,15 +242,13 @@ def trig_embed(data, emb_dim=2):
 
     Written by Raphaëlle Tihon
     """
-    from scipy.special import binom
-
     emb_data = []
     for s in range(emb_dim):
         comp = (
             torch.cos(data * pi / 2) ** (emb_dim - s - 1)
             * torch.sin(data * pi / 2) ** s
         )
-        comp *= sqrt(binom(emb_dim - 1, s))
+        comp *= sqrt(comb(emb_dim - 1, s))
         emb_data.append(comp)
     emb_data = torch.stack(emb_data, dim=-1)
     assert emb_data.shape == data.shape + (emb_dim,)
-- 
2.43.0


From 730370f7f5326384ba28bcb0165f167532272690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 13/37] fix: replace np.int, which was removed from numpy

---
 torchmps/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index f58ab34..1cf4738 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -316,7 +316,7 @@ def load_HV_data(length):
         )
 
     images = np.empty([num_images, length, length], dtype=np.float32)
-    labels = np.empty(num_images, dtype=np.int)
+    labels = np.empty(num_images, dtype=int)
 
     # Used to generate the stripe pattern from integer i below
     template = "{:0" + str(length) + "b}"
-- 
2.43.0


From 9849d60e3d84b346ce84a7ded80a829af93ffd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 14/37] fix: apply rel_std in normal_init

---
 torchmps/mps_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 4021365..22aa6a7 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -559,7 +559,7 @@ def normal_init(shape: tuple, is_complex: bool = False, rel_std: float = 1.0) ->
             )
 
     # Initialize core using size-adjusted value of variance
-    std = 1 / shape[-1]
+    std = rel_std / shape[-1]
     core_tensor = std * torch.randn(shape)
     if is_complex:
         core_tensor = phaseify(core_tensor)
-- 
2.43.0


From 5f8d7d16d1d5efcf53a8d0586f56d86a21a67bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 15/37] fix: accept tensors as MPS path

The truth value of a tensor with more than one element is ambiguous, so the
documented tensor paths raised a RuntimeError.
---
 torchmps/torchmps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 239276c..78e5f9d 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -433,7 +433,7 @@ class MPS(nn.Module):
             )
         assert len(self.linear_region) == input_dim
 
-        if path:
+        if path is not None:
             assert isinstance(path, (list, torch.Tensor))
             assert len(path) == input_dim
 
@@ -469,7 +469,7 @@ class MPS(nn.Module):
                                  which act on different parts of the input.
         """
         # For custom paths, rearrange our input into the desired order
-        if self.path:
+        if self.path is not None:
             path_inputs = []
             for site_num in self.path:
                 path_inputs.append(input_data[:, site_num])
-- 
2.43.0


From fd3d96281772607d79cbdcd5a69fe701628e6cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 16/37] fix: detect empty lists and shapes

Comparing by identity with a new list is always False, so the error for empty
lists was never raised and scalars were not reshaped.
---
 torchmps/contractables.py | 4 ++--
 torchmps/torchmps.py      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index cc6a4e3..151bfdc 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -174,7 +174,7 @@ class ContractableList(Contractable):
 
     def __init__(self, contractable_list):
         # Check that input list is nonempty and has contractables as entries
-        if not isinstance(contractable_list, list) or contractable_list is []:
+        if not isinstance(contractable_list, list) or len(contractable_list) == 0:
             raise ValueError("Input to ContractableList must be nonempty list")
         for i, item in enumerate(contractable_list):
             if not isinstance(item, Contractable):
@@ -428,7 +428,7 @@ class Scalar(Contractable):
     def __init__(self, scalar):
         # Add dummy dimension if we have a torch scalar
         shape = list(scalar.shape)
-        if shape is []:
+        if shape == []:
             scalar = scalar.view([1])
             shape = [1]
 
diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 78e5f9d..1fb97ea 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -592,7 +592,7 @@ class LinearRegion(nn.Module):
         self, module_list, periodic_bc=False, parallel_eval=False, module_states=None
     ):
         # Check that module_list is a list whose entries are Pytorch modules
-        if not isinstance(module_list, list) or module_list is []:
+        if not isinstance(module_list, list) or len(module_list) == 0:
             raise ValueError("Input to LinearRegion must be nonempty list")
         for i, item in enumerate(module_list):
             if not isinstance(item, nn.Module):
-- 
2.43.0


From 02781d2e6cf1f112937f15e19711f769eced78c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 17/37] fix: let parallel_eval override slim_eval, as
 documented

---
 torchmps/prob_mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchmps/prob_mps.py b/torchmps/prob_mps.py
index 9f840d8..89a70d9 100644
--- a/torchmps/prob_mps.py
+++ b/torchmps/prob_mps.py
@@ -171,7 +171,7 @@ class ProbMPS(nn.Module):
         if self.embedding is not None:
             input_data = self.embedding(input_data)
 
-        if slim_eval:
+        if slim_eval and not parallel_eval:
             if self.use_bias:
                 raise ValueError("Bias matrices not supported for slim_eval")
             psi_vals, log_scales = slim_eval_fun(
@@ -399,7 +399,7 @@ class ProbUnifMPS(ProbMPS):
         if self.embedding is not None:
             input_data = self.embedding(input_data)
 
-        if slim_eval:
+        if slim_eval and not parallel_eval:
             if self.use_bias:
                 raise ValueError("Bias matrices not supported for slim_eval")
             psi_vals, log_scales = slim_eval_fun(
-- 
2.43.0


From 02aeb4e3f14d162afec1f2aeb926b6292caf8c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 18/37] fix: promote embedded inputs and lambda matrices to the
 model dtype

Embeddings with a non-trivial lambda matrix raised an error for complex
models, as did any fixed embedding for double precision models.
---
 torchmps/mps_base.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 22aa6a7..12553f5 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -83,8 +83,8 @@ def slim_eval_fun(seq_input: Tensor, core_tensor: Tensor, bound_vecs: Tensor) ->
     if vec_input:
         assert seq_input.shape[-1] == core_tensor.shape[-3]
 
-    # Promote seq_input to complex dtype if core_tensor is complex
-    if core_tensor.is_complex() and seq_input.is_floating_point():
+    # Promote vector inputs to the dtype of core_tensor, which may be complex
+    if seq_input.is_floating_point():
         seq_input = seq_input.to(core_tensor.dtype)
 
     # Condition on cases of vector inputs and non-uniform MPS
@@ -366,8 +366,8 @@ def get_mat_slices(seq_input: Tensor, core_tensor: Tensor) -> Tensor:
     # TODO: Deal with packing if/when we have variable-len sequences,
     #       likely using pad_mat_slices function
 
-    # Promote seq_input to complex dtype if core_tensor is complex
-    if core_tensor.is_complex() and seq_input.is_floating_point():
+    # Promote vector inputs to the dtype of core_tensor, which may be complex
+    if seq_input.is_floating_point():
         seq_input = seq_input.to(core_tensor.dtype)
 
     # Perform the indexing/contraction on a case-by-case basis
@@ -442,6 +442,10 @@ def get_log_norm(
     if uniform and fixed_len:
         core_tensor = (core_tensor,) * length
 
+    # Promote lamb_mat to the dtype of the cores, which may be complex
+    if lamb_mat is not None and not lamb_mat.is_complex():
+        lamb_mat = lamb_mat.to(boundary_vecs)
+
     # Define transfer operator function for different types of lambda matrix
     if lamb_mat is None:
         # In the following, "dm" = "density matrix", "ct" = "core tensor"
-- 
2.43.0


From ac612dea34289ccdcfd3bb53a696a1de0a23df5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 19/37] fix: move the lambda matrix of fixed embeddings with
 the model

lamb_mat was a plain attribute, and stayed behind (in single precision, on
the CPU) when the model using the embedding was moved or cast.
---
 torchmps/embeddings.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index d076d0e..8098188 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -162,6 +162,7 @@ class FixedEmbedding(nn.Module):
         # Save defining data, compute lambda matrix
         self.domain = data_domain
         self.emb_fun = emb_fun
+        self.register_buffer("lamb_mat", None, persistent=False)
         self.make_lambda()
 
     @torch.no_grad()
-- 
2.43.0


From 57b718e3f148902959e680cce3c61ddb1ffcb8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 20/37] fix: register the parameters of trainable embeddings

The user module was hidden inside a lambda, so its parameters were neither
trained, saved nor moved with the MPS. Its lambda matrix was missing before the
first call and stale after an update, so compute it from current parameters.
---
 torchmps/embeddings.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 8098188..8b97284 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -88,9 +88,21 @@ class TrainableEmbedding(nn.Module):
 
         # Save defining data
         self.domain = data_domain
-        # Need to add on singleton dimension to agree with nn.Module format
-        self.emb_fun = lambda x: emb_fun(x[..., None])
-        # self.emb_fun = emb_fun
+        # Attribute assignment registers the parameters of the embedding
+        self.emb_module = emb_fun
+
+    def emb_fun(self, data):
+        """
+        Embed data after adding singleton dimension expected by nn.Modules
+        """
+        return self.emb_module(data[..., None])
+
+    @property
+    def lamb_mat(self):
+        """
+        Lambda matrix for the current values of the trainable parameters
+        """
+        return self.make_lambda()
 
     def make_lambda(self, num_points: int = 1000):
         """
@@ -101,6 +113,9 @@ class TrainableEmbedding(nn.Module):
             points = torch.linspace(
                 self.domain.min_val, self.domain.max_val, steps=num_points
             )
+            param = next(self.parameters(), None)
+            if param is not None:
+                points = points.to(param)
             self.num_points = num_points
             emb_vecs = self.emb_fun(points)
             assert emb_vecs.ndim == 2
@@ -124,21 +139,18 @@ class TrainableEmbedding(nn.Module):
 
         assert lamb_mat.ndim == 2
         assert lamb_mat.shape[0] == lamb_mat.shape[1]
-        self.lamb_mat = lamb_mat
 
         # Check if the computed matrix is diagonal or multiple of the identity
         if torch.allclose(lamb_mat.diag().diag(), lamb_mat):
             lamb_mat = lamb_mat.diag()
             if torch.allclose(lamb_mat.mean(), lamb_mat):
-                self.lamb_mat = lamb_mat.mean()
-            else:
-                self.lamb_mat = lamb_mat
+                lamb_mat = lamb_mat.mean()
+        return lamb_mat
 
     def forward(self, input_data):
         """
         Embed input data via the user-specified embedding function
         """
-        self.make_lambda()
         return self.emb_fun(input_data)
 
 
-- 
2.43.0


From 6233a057c90486c819e5d0fbab6d7e9a9459fd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 21/37] fix: do not register an empty bias parameter when
 use_bias=False

---
 torchmps/torchmps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 1fb97ea..fc415e1 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -1041,7 +1041,7 @@ class InputRegion(nn.Module):
             self.register_parameter(
                 name="tensor", param=nn.Parameter(tensor.contiguous())
             )
-            if fixed_bias:
+            if fixed_bias or bias_mat is None:
                 self.register_buffer(name="bias_mat", tensor=bias_mat)
             else:
                 self.register_parameter(name="bias_mat", param=nn.Parameter(bias_mat))
-- 
2.43.0


From 5078ea91ca65e5b8ddfc54614598b9cd47908a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 22/37] fix: embed TI_MPS sequences before padding them

Padding was embedded as if it were data, so the output for a short sequence
depended on the length of the longest sequence in the batch.
---
 torchmps/torchmps.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index fc415e1..91ee623 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -178,11 +178,15 @@ class TI_MPS(nn.Module):
                     f"{self.use_bias}, self.fixed_bias={self.fixed_bias})"
                 )
 
+            # Embed everything (if needed), so that padding acts as the identity
+            if num_modes == 1:
+                input_data = [self.embed_input(s[None])[0] for s in input_data]
+
             # Pad the sequences with zeros (if needed), return as batch tensor
             if can_pad:
                 batch_size = len(input_data)
                 full_size = [batch_size, max_len, feature_dim]
-                batch_input = self.core_tensor.new_zeros(full_size[: num_modes + 1])
+                batch_input = self.core_tensor.new_zeros(full_size)
 
                 # Copy each sequence into batch_input
                 for i, seq in enumerate(input_data):
@@ -190,10 +194,6 @@ class TI_MPS(nn.Module):
             else:
                 batch_input = torch.stack(input_data)
 
-            # Embed everything (if needed) and return the batch tensor
-            if len(batch_input.shape) == 2:
-                batch_input = self.embed_input(batch_input)
-
             return batch_input
 
         else:
-- 
2.43.0


From 709bda6e048a3cda85942e5d076ac7a3ea3f3063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 23/37] fix: embed onehot data on its own device

---
 torchmps/embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 8b97284..9cd605b 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -235,7 +235,7 @@ def onehot_embed(tensor, emb_dim):
     Function giving trivial one-hot embedding of categorical data
     """
     shape = tensor.shape + (emb_dim,)
-    output = torch.zeros(*shape)
+    output = torch.zeros(*shape, device=tensor.device)
     output.scatter_(-1, tensor[..., None], 1)
     return output
 
-- 
2.43.0


From 8cd8d592f3f86fa00f5d2b1b61a07c6e4e0c33ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 24/37] fix: do not shuffle the arguments of joint_shuffle in
 place

For CPU tensors the arrays share memory with the arguments, whose order was
silently changed (and changed again by every later call).
---
 torchmps/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index 1cf4738..39a4a59 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -278,7 +278,8 @@ def joint_shuffle(input_data, input_labels):
     if use_gpu:
         input_data, input_labels = input_data.cpu(), input_labels.cpu()
 
-    data, labels = input_data.numpy(), input_labels.numpy()
+    # The shuffling below is in place, so don't share memory with the inputs
+    data, labels = input_data.numpy().copy(), input_labels.numpy().copy()
 
     # Shuffle relative to the same seed
     np.random.seed(0)
-- 
2.43.0


From 58155ae15104b31ce15d7a57685e846b0df58917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 25/37] fix: give zero for vanishing products instead of NaN

Rescaling a zero vector or matrix by its own norm gave NaN, so a sequence of
probability zero made ProbMPS fail, and contract_matseq return NaN.
---
 torchmps/mps_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 12553f5..3c4c707 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -106,6 +106,7 @@ def slim_eval_fun(seq_input: Tensor, core_tensor: Tensor, bound_vecs: Tensor) ->
 
         # Rescale vectors, update log_scale
         rescale = vecs.abs().sum(dim=-1, keepdim=True) / bond_dim
+        rescale = torch.where(rescale > 0, rescale, torch.ones_like(rescale))
         log_scale = log_scale + rescale.log()[:, 0, 0]
         vecs = vecs / rescale
 
@@ -296,6 +297,7 @@ def mat_reduce_par(matrices: Tensor) -> Tuple[Tensor, Tensor]:
 
         # Rescale matrices and update log_scale
         rescales = matrices.abs().sum(dim=(-2, -1), keepdim=True) / bond_dim
+        rescales = torch.where(rescales > 0, rescales, torch.ones_like(rescales))
         log_scale = log_scale + rescales.log().sum(dim=-3)
         matrices = matrices / rescales
 
@@ -330,6 +332,7 @@ def mat_reduce_seq(matrices: Sequence[Tensor]) -> Tensor:
         # Rescale and update the log scale factor
         target_norm = sqrt(product.shape[-2] * product.shape[-1])
         rescale = product.abs().sum(dim=(-2, -1), keepdim=True) / target_norm
+        rescale = torch.where(rescale > 0, rescale, torch.ones_like(rescale))
         log_scale = log_scale + torch.log(rescale)
         product = product / rescale
 
-- 
2.43.0


From ebabd229d9afedf734ece1fdfcab6a982dc5e557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:31 +0000
Subject: [PATCH 26/37] fix: multiply contractables, in order, in products with
 a ContractableList

---
 torchmps/contractables.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index 151bfdc..74acb21 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -191,15 +191,15 @@ class ContractableList(Contractable):
         """
         # The input cannot be a composite contractable
         assert hasattr(contractable, "tensor")
-        output = contractable.tensor
+        output = contractable
 
         # Multiply by everything in ContractableList, in the correct order
         if rmul:
             for item in self.contractable_list:
-                output = item * output
+                output = output * item
         else:
             for item in self.contractable_list[::-1]:
-                output = output * item
+                output = item * output
 
         return output
 
-- 
2.43.0


From c78ddecf4ed412623b8d93114328febdc119e531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 27/37] fix: let OutputMat products fall back to the other
 operand

---
 torchmps/contractables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index 74acb21..52263b8 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -371,7 +371,7 @@ class OutputMat(Contractable):
         Multiply with an edge vector along the shared linear index
         """
         if not isinstance(edge_vec, EdgeVec):
-            raise NotImplemented  # noqa: F901
+            return NotImplemented
         else:
             return super().__mul__(edge_vec, rmul)
 
-- 
2.43.0


From d53707c11ead82307bdb344e70497aad2a375cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 28/37] fix: reduce must not consume the list a
 ContractableList was built from

---
 torchmps/contractables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index 52263b8..71e73bd 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -213,7 +213,7 @@ class ContractableList(Contractable):
         """
         Reduce all the contractables in list before multiplying them together
         """
-        c_list = self.contractable_list
+        c_list = list(self.contractable_list)
         # For parallel_eval, reduce all contractables in c_list
         if parallel_eval:
             c_list = [item.reduce() for item in c_list]
-- 
2.43.0


From 7ce8953481d3479e740ee5dc63cc54b7c70ceb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 29/37] fix: leave the product of Scalar and ContractableList
 to the list

---
 torchmps/contractables.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index 71e73bd..a3d8603 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -446,6 +446,10 @@ class Scalar(Contractable):
         """
         Multiply a contractable by our scalar and return the result
         """
+        # Composite contractables know how to multiply each of their items
+        if not hasattr(contractable, "tensor"):
+            return NotImplemented
+
         scalar = self.tensor
         tensor = contractable.tensor
         bond_str = contractable.bond_str
-- 
2.43.0


From c78b6c5fe8dbc9a610418cbe2174547ef00fc661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 30/37] fix: products of Scalar with EdgeVec and OutputMat

---
 torchmps/contractables.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index a3d8603..f0eb4d5 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -459,7 +459,10 @@ class Scalar(Contractable):
 
         # Wrap the result in the same class right_contractable belongs to
         contract_class = type(contractable)
-        if contract_class is not Contractable:
+        if contract_class in (EdgeVec, OutputMat):
+            # These also need to know which edge they belong to
+            return contract_class(out_tensor, "r" in bond_str)
+        elif contract_class is not Contractable:
             return contract_class(out_tensor)
         else:
             return Contractable(out_tensor, bond_str)
-- 
2.43.0


From b73a44c0e72ac8a90b2bf6844e85e0059bb4c9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 31/37] fix: a Scalar times a MatRegion scales the product of
 its matrices once

---
 torchmps/contractables.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index f0eb4d5..9733cbb 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -455,7 +455,12 @@ class Scalar(Contractable):
         bond_str = contractable.bond_str
 
         ein_string = f"{bond_str},b->{bond_str}"
-        out_tensor = torch.einsum(ein_string, [tensor, scalar])
+        if isinstance(contractable, MatRegion):
+            # The matrices are multiplied together, so scale only one of them
+            first = torch.einsum(ein_string, [tensor[:, :1], scalar])
+            out_tensor = torch.cat([first, tensor[:, 1:]], 1)
+        else:
+            out_tensor = torch.einsum(ein_string, [tensor, scalar])
 
         # Wrap the result in the same class right_contractable belongs to
         contract_class = type(contractable)
-- 
2.43.0


From a49c587619836f5c6e957db4d5bc0e9b5376af38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:23 +0000
Subject: [PATCH 32/37] fix: min_random_eye with init_dim above unequal bond
 dimensions

---
 torchmps/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index 39a4a59..895e029 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -223,6 +223,7 @@ def init_tensor(shape, bond_str, init_method):
                 bond_dims = [init_dim, init_dim]
             else:
                 init_dim = min(bond_dims)
+                bond_dims = [init_dim, init_dim]
 
             eye_shape = [init_dim if c in bond_chars else 1 for c in bond_str]
             expand_shape = [
-- 
2.43.0


From 7b0a5ade28b71261d9182111c47cee9a29bc254b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 33/37] fix: random_eye with the right bond axis before the
 left one

---
 torchmps/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index 895e029..6ee4743 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -236,7 +236,7 @@ def init_tensor(shape, bond_str, init_method):
                 shape[i] if c in bond_chars else 1 for i, c in enumerate(bond_str)
             ]
             expand_shape = shape
-            bond_dims = [shape[bond_str.index(c)] for c in bond_chars]
+            bond_dims = [shape[i] for i, c in enumerate(bond_str) if c in bond_chars]
 
         eye_tensor = torch.eye(bond_dims[0], bond_dims[1]).view(eye_shape)
         eye_tensor = eye_tensor.expand(expand_shape)
-- 
2.43.0


From d6e3563ac4cbecd364f7c9a1973d1a807f5c8ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:29 +0000
Subject: [PATCH 34/37] fix: document the actual defaults of use_bias and
 cutoff

---
 README.md            | 2 +-
 torchmps/torchmps.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index d37b9c8..faa6b56 100644
--- a/README.md
+++ b/README.md
@@ -39,7 +39,7 @@ The possible arguments for defining an MPS are:
  * `parallel_eval`: For open boundary conditions, whether contraction of tensors is performed serially or in parallel (_default = False (serial)_)
  * `label_site`: The location in the MPS chain where our output lives after contracting all other sites with inputs (_default = input_dim // 2_)
  * `path`: A list specifying the path our MPS takes through the input data. For example, `path = [0, 1, ..., input_dim-1]` gives the standard in-order traversal (used if `path = None`), while `path = [0, 2, ..., input_dim-1]` defines an MPS which only acts on even-valued sites within our input (_default = None_)
- * `cutoff`: The singular value cutoff which controls adaptation of bond dimensions (_default = 1e-9_)
+ * `cutoff`: The singular value cutoff which controls adaptation of bond dimensions (_default = 1e-10_)
  * `merge_threshold`: The number of inputs before our MPS dynamically shifts its merge state, which updates half the bond dimensions at a time (_default = 2000, only used in adaptive mode_)
  * `init_std`: The size of the random terms used during initialization (_default = 1e-9_)
 
diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 91ee623..094d06f 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -322,11 +322,11 @@ class MPS(nn.Module):
                          near-identity initialization (default: None)
         use_bias:        Whether to use trainable bias matrices in MPS
                          cores, which are initialized near the zero matrix
-                         (default: False)
+                         (default: True)
         adaptive_mode:   Whether MPS is trained with experimental adaptive
                          bond dimensions selection (default: False)
         cutoff:          Singular value cutoff controlling bond dimension
-                         adaptive selection (default: 1e-9)
+                         adaptive selection (default: 1e-10)
         merge_threshold: Number of inputs before adaptive MPS shifts its
                          merge state once, with two shifts leading to the
                          update of all bond dimensions (default: 2000)
-- 
2.43.0


From 6ad086e9cdc5ba4902b3c04776336a7f9511b3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 35/37] fix: reject sequences and matrices whose size-one axes
 einsum would broadcast

---
 torchmps/mps_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 3c4c707..6350290 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -366,6 +366,10 @@ def get_mat_slices(seq_input: Tensor, core_tensor: Tensor) -> Tensor:
     input_dim, bond_dim = core_tensor.shape[-3:-1]
     seq_len = seq_input.shape[1]
 
+    # Axes of size one would otherwise be broadcast
+    assert uniform or seq_len == core_tensor.shape[0]
+    assert indexing or seq_input.shape[2] == input_dim
+
     # TODO: Deal with packing if/when we have variable-len sequences,
     #       likely using pad_mat_slices function
 
@@ -377,7 +381,6 @@ def get_mat_slices(seq_input: Tensor, core_tensor: Tensor) -> Tensor:
     if indexing and uniform:
         mat_slices = core_tensor[seq_input]
     elif indexing and not uniform:
-        assert seq_len == core_tensor.shape[0]
         # Indexing equivalent of the einsum operation at bottom
         mat_slices = CIndex(core_tensor)[
             torch.arange(seq_len, device=seq_input.device)[None], seq_input
@@ -434,6 +437,7 @@ def get_log_norm(
     assert boundary_vecs.shape[-1] == core_tensor.shape[-1]
     assert uniform or length in (None, core_tensor.shape[0])
     assert lamb_mat is None or lamb_mat.ndim <= 2
+    assert lamb_mat is None or all(d == core_tensor.shape[-3] for d in lamb_mat.shape)
     assert not (uniform and length is None)
     fixed_len = not uniform or length != -1
 
-- 
2.43.0


From 05184c3512010b47df2c1fb6a6fd4568a74c63bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 36/37] fix: reject products of contractables with bonds of
 dimension one and more

---
 torchmps/contractables.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index 9733cbb..c1d7d45 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -105,6 +105,10 @@ class Contractable:
             assert all([c in lowercases for c in bs])
             assert (i == 0 and "r" in bs) or (i == 1 and "l" in bs)
 
+        # Check that the bonds agree, as dimension one would be broadcast
+        bond_dims = [t.size(bs.index(c)) for t, bs, c in zip(tensors, bond_strs, "rl")]
+        assert bond_dims[0] == bond_dims[1]
+
         # Get used and free characters
         used_chars = set(bond_strs[0]).union(bond_strs[1])
         free_chars = [c for c in lowercases if c not in used_chars]
-- 
2.43.0


From 17184d982d9a8b3c764e1568dd17cdbf218f1900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:21 +0000
Subject: [PATCH 37/37] fix: compute the lambda matrix of a trainable embedding
 of discrete data on its parameters' device

---
 torchmps/embeddings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 9cd605b..9bc84a4 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -128,6 +128,9 @@ class TrainableEmbedding(nn.Module):
 
         else:
             points = torch.arange(self.domain.max_val).long()
+            param = next(self.parameters(), None)
+            if param is not None:
+                points = points.to(param.device)
             emb_vecs = self.emb_fun(points)
             assert emb_vecs.ndim == 2
             self.emb_dim = emb_vecs.shape[1]
-- 
2.43.0

