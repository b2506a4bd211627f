From fdf1b8d3b8006b82f59231496bcccde6f55e5a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:06 +0000
Subject: [PATCH 01/88] fix: partial_param no longer overwrites the caller's
 full parameters

---
 dattri/func/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dattri/func/utils.py b/dattri/func/utils.py
index ba58561..1b26408 100644
--- a/dattri/func/utils.py
+++ b/dattri/func/utils.py
@@ -310,13 +310,15 @@ def partial_param(
         def _function_partial(*args, **kwargs: Dict[str, Any]) -> torch.Tensor:
             new_args = list(args)
             index_counter = 0
+            # work on a copy, the full parameters belong to the caller
+            merged_param = dict(full_param)
             for layer in layer_name:
-                length_param = full_param[layer].numel()
-                full_param[layer] = new_args[param_num][
+                length_param = merged_param[layer].numel()
+                merged_param[layer] = new_args[param_num][
                     index_counter : index_counter + length_param
                 ]
                 index_counter += length_param
-            new_args[param_num] = flatten_params(full_param)
+            new_args[param_num] = flatten_params(merged_param)
             return function(*new_args, **kwargs)
 
         return _function_partial
-- 
2.43.0


From c75cbf313ecf123979d5286fd49b2aedfa7af185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 02/88] fix: accept a single layer name given as a string

---
 dattri/func/utils.py | 8 +++++---
 dattri/task.py       | 3 +++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/dattri/func/utils.py b/dattri/func/utils.py
index 1b26408..2564a3a 100644
--- a/dattri/func/utils.py
+++ b/dattri/func/utils.py
@@ -9,7 +9,7 @@ import numpy as np
 
 if TYPE_CHECKING:
     from collections.abc import Callable
-    from typing import Any, Dict, Optional, Tuple
+    from typing import Any, Dict, Optional, Tuple, Union
 
 import functools
 
@@ -276,7 +276,7 @@ def flatten_func(model: torch.nn.Module, param_num: int = 0) -> Callable:
 
 def partial_param(
     full_param: Dict[str, Tensor],
-    layer_name: List[str],
+    layer_name: Union[str, List[str]],
     param_num: int = 0,
 ) -> Callable:
     """A decorator that edit a function from taking full parameter to partial parameter.
@@ -286,7 +286,7 @@ def partial_param(
 
     Args:
         full_param: A dictionary of full parameters.
-        layer_name: A list of layer names to that will be left as
+        layer_name: A layer name or a list of layer names to that will be left as
             parameter input of the function.
         param_num: The index of the parameter in function's input.
 
@@ -294,6 +294,8 @@ def partial_param(
         (Callable): A decorator that edit a function from taking full parameter to
             partial parameter.
     """
+    if isinstance(layer_name, str):
+        layer_name = [layer_name]
 
     def partial_param_wrapper(function: Callable) -> Callable:
         """A wrapper function that edit the parameter from full to partial.
diff --git a/dattri/task.py b/dattri/task.py
index fc57f3c..0152551 100644
--- a/dattri/task.py
+++ b/dattri/task.py
@@ -425,6 +425,9 @@ class AttributionTask:
         """
         self._load_checkpoints(ckpt_idx)
 
+        if isinstance(layer_name, str):
+            layer_name = [layer_name]
+
         if layer_name is not None:
             named_parameters = {
                 k: self.named_parameters[k]
-- 
2.43.0


From a7215de99e0e7caf81436bd3976b1e9a6b704757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 03/88] fix: self_attribute of inner-product attributors
 handles every batch

---
 dattri/algorithm/base.py | 54 +++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 29 deletions(-)

diff --git a/dattri/algorithm/base.py b/dattri/algorithm/base.py
index 66ccd2f..b706b83 100644
--- a/dattri/algorithm/base.py
+++ b/dattri/algorithm/base.py
@@ -500,7 +500,7 @@ class BaseInnerProductAttributor(BaseAttributor):
         for checkpoint_idx in range(len(self.task.get_checkpoints())):
             # Multiply by current index to prepare for running average
             tda_output *= checkpoint_idx
-            for _, train_batch_data_ in enumerate(
+            for train_batch_idx, train_batch_data_ in enumerate(
                 tqdm(
                     train_dataloader,
                     desc="calculating gradient of training set...",
@@ -552,36 +552,32 @@ class BaseInnerProductAttributor(BaseAttributor):
                     train_rep=train_batch_rep,
                 )
 
-                for _, _ in enumerate(
-                    tqdm(
-                        test_dataloader,
-                        desc="calculating gradient of test set...",
-                        leave=False,
-                    ),
-                ):
-                    # move to device
-                    test_batch_data = train_batch_data
-                    # get initial representations of test data
-                    test_batch_rep = self.generate_test_rep(
-                        ckpt_idx=checkpoint_idx,
-                        data=test_batch_data,
-                    )
-                    # transform the test representations
-                    test_batch_rep = self.transform_test_rep(
-                        ckpt_idx=checkpoint_idx,
-                        test_rep=test_batch_rep,
-                    )
-                influence_values = (
-                    torch.einsum("ij,ij->i", train_batch_rep, test_batch_rep)
-                    / denom.unsqueeze(-1)
-                    if denom is not None
-                    else torch.einsum("ij,ij->i", train_batch_rep, test_batch_rep)
+                # get representations of the same data as test data
+                test_batch_rep = self.generate_test_rep(
+                    ckpt_idx=checkpoint_idx,
+                    data=train_batch_data,
                 )
-
-                tda_output += (
-                    # Accumulate influence values across checkpoints
-                    influence_values
+                # transform the test representations
+                test_batch_rep = self.transform_test_rep(
+                    ckpt_idx=checkpoint_idx,
+                    test_rep=test_batch_rep,
+                )
+                influence_values = torch.einsum(
+                    "ij,ij->i",
+                    train_batch_rep,
+                    test_batch_rep,
+                )
+                if denom is not None:
+                    influence_values = influence_values / denom
+
+                # results position based on batch info
+                row_st = train_batch_idx * train_dataloader.batch_size
+                row_ed = min(
+                    (train_batch_idx + 1) * train_dataloader.batch_size,
+                    len(train_dataloader.sampler),
                 )
+                # Accumulate influence values across checkpoints
+                tda_output[row_st:row_ed] += influence_values
             tda_output /= (
                 checkpoint_idx + 1
             )  # Calculate running average by dividing by number of checkpoints
-- 
2.43.0


From 43b7413f8223f61a949ab24232ea50ca77e1330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 04/88] fix: TRAK self_attribute works after cache and returns
 one value per sample

---
 dattri/algorithm/trak.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dattri/algorithm/trak.py b/dattri/algorithm/trak.py
index d2a66d0..e872ce7 100644
--- a/dattri/algorithm/trak.py
+++ b/dattri/algorithm/trak.py
@@ -415,8 +415,6 @@ class TRAKAttributor(BaseAttributor):
                 dataloader is cached or no train_loader is provided in both cases.
             TypeError: If train/test data is not tuple, list, or dict.
         """
-        test_dataloader = train_dataloader
-        _check_shuffle(test_dataloader)
         if train_dataloader is not None:
             _check_shuffle(train_dataloader)
 
@@ -436,6 +434,8 @@ class TRAKAttributor(BaseAttributor):
                        did not cache a training loader by .cache(). Please provide a\
                        training loader or cache a training loader."
             raise ValueError(message)
+        if train_dataloader is None:
+            train_dataloader = self.full_train_dataloader
         for ckpt_idx in range(len(self.task.get_checkpoints())):
             parameters, _ = self.task.get_param(
                 ckpt_idx=ckpt_idx,
@@ -544,5 +544,5 @@ class TRAKAttributor(BaseAttributor):
                 running_Q /= running_count
             running_xinv_XTX_XT /= running_count
         if train_dataloader is not None:
-            return (running_xinv_XTX_XT * running_Q.to(self.device).unsqueeze(0)).T
-        return (running_xinv_XTX_XT * self.Q.to(self.device).unsqueeze(0)).T
+            return running_xinv_XTX_XT * running_Q.to(self.device)
+        return running_xinv_XTX_XT * self.Q.to(self.device)
-- 
2.43.0


From 88208f3c8ced0202976aee5d931be6f93d17d56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 05/88] fix: TRAK accepts per-sample probabilities of shape
 (1,) without cache too

---
 dattri/algorithm/trak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/trak.py b/dattri/algorithm/trak.py
index e872ce7..2e39932 100644
--- a/dattri/algorithm/trak.py
+++ b/dattri/algorithm/trak.py
@@ -320,7 +320,7 @@ class TRAKAttributor(BaseAttributor):
                                     self.task.get_model(),
                                 ),
                                 train_batch_data,
-                            )
+                            ).flatten()
                         )
                         .clone()
                         .detach(),
@@ -508,7 +508,7 @@ class TRAKAttributor(BaseAttributor):
                                     self.task.get_model(),
                                 ),
                                 train_batch_data,
-                            )
+                            ).flatten()
                         )
                         .clone()
                         .detach(),
-- 
2.43.0


From 70807b9ede929e9f329be9155ce4b319baa39242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 06/88] fix: rev-fwd HVP builds zero tangents matching the
 other arguments

---
 dattri/func/hessian.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index f2fc444..29cef58 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -21,13 +21,29 @@ from typing import TYPE_CHECKING
 
 if TYPE_CHECKING:
     from collections.abc import Callable
-    from typing import Optional, Tuple, Union
+    from typing import Dict, Optional, Tuple, Union
 
 import torch
 from torch import Tensor
 from torch.func import grad, hessian, jvp, vjp, vmap
 
 
+def _zeros_like(x: Union[Tensor, Tuple, Dict]) -> Union[Tensor, Tuple, Dict]:
+    """Zeros with the structure, shape, dtype and device of x.
+
+    Args:
+        x (Union[Tensor, Tuple, Dict]): A tensor or nested tuple/list/dict of tensors.
+
+    Returns:
+        Zeros of the same structure as x.
+    """
+    if isinstance(x, dict):
+        return {k: _zeros_like(v) for k, v in x.items()}
+    if isinstance(x, (tuple, list)):
+        return type(x)(_zeros_like(v) for v in x)
+    return torch.zeros_like(x)
+
+
 def hvp(
     func: Callable,
     argnums: int = 0,
@@ -109,7 +125,7 @@ def hvp(
                 v_patched = []
                 for i in range(len(x)):
                     if i != argnums:
-                        v_patched.append(torch.zeros(*x[i].shape))
+                        v_patched.append(_zeros_like(x[i]))
                     else:
                         v_patched.append(v)
                 v_patched = tuple(v_patched)
@@ -210,7 +226,7 @@ def hvp_at_x(
                 v_patched = []
                 for i in range(len(x)):
                     if i != argnums:
-                        v_patched.append(torch.zeros(*x[i].shape))
+                        v_patched.append(_zeros_like(x[i]))
                     else:
                         v_patched.append(v)
                 v_patched = tuple(v_patched)
-- 
2.43.0


From 1da8ac35b7abf3a382b48021c1fef265f1acfb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 07/88] fix: conjugate gradient stops at the residual tolerance
 instead of returning NaN

---
 dattri/func/hessian.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index 29cef58..21152e3 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -416,7 +416,7 @@ def ihvp_at_x_cg(
     *x,
     argnums: int = 0,
     max_iter: int = 10,
-    tol: float = 1e-7,  # noqa: ARG001
+    tol: float = 1e-7,
     mode: str = "rev-rev",
     regularization: float = 0.0,
 ) -> Callable:
@@ -486,16 +486,21 @@ def ihvp_at_x_cg(
             d = d_pre = g_pre
 
             for _ in range(max_iter):
-                # TODO: add tol for residual, it has not been supported by vmap.
-                # https://pytorch.org/docs/main/generated/torch.cond.html#torch.cond
-                # Still in prototype stage.
+                # vmap does not support data-dependent control flow, so a
+                # converged system is frozen instead of leaving the loop.
+                residual = torch.dot(g_pre, g_pre)
+                converged = residual <= tol**2
 
                 ad = hvp_at_x_func(d)
-                alpha = torch.dot(g_pre, d_pre) / torch.dot(d, ad)
+                alpha = torch.where(
+                    converged,
+                    0.0,
+                    torch.dot(g_pre, d_pre) / torch.dot(d, ad),
+                )
                 ihvp_res += alpha * d
                 g = g_pre - alpha * ad
 
-                beta = torch.dot(g, g) / torch.dot(g_pre, g_pre)
+                beta = torch.where(converged, 0.0, torch.dot(g, g) / residual)
 
                 g_pre = d_pre = g
                 d = g + beta * d
-- 
2.43.0


From c529617a458080a3e21ebec2961375b431bcdc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 08/88] fix: ihvp_at_x_lissa passes batch_size and num_repeat
 in the right order

---
 dattri/func/hessian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index 21152e3..23e9bf5 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -1010,8 +1010,8 @@ def ihvp_at_x_lissa(
         ihvp_lissa_func = ihvp_lissa(
             func,
             argnums,
-            num_repeat,
             batch_size,
+            num_repeat,
             recursion_depth,
             damping,
             scaling,
-- 
2.43.0


From beb8a0f68b1587624b74272ddd79d2b7058b82fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 09/88] fix: Arnoldi iteration is consistent for norm_constant
 other than 1

---
 dattri/func/hessian.py    | 4 +++-
 dattri/func/projection.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index 23e9bf5..b25ca1e 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -673,7 +673,8 @@ def ihvp_at_x_arnoldi(
         proj = []
         appr_mat = torch.zeros((n_iters, n_iters - 1)).to(device)
 
-        start_vec /= torch.norm(start_vec)
+        # every basis vector has norm `norm_constant`
+        start_vec *= norm_constant / torch.norm(start_vec)
         proj.append(start_vec)
 
         for n in range(n_iters - 1):
@@ -758,6 +759,7 @@ def ihvp_at_x_arnoldi(
             v.device,
         )
         eigvals, eigvecs = _distill(appr_mat, proj, top_k)
+        eigvecs = eigvecs / norm_constant
 
         return ((v @ eigvecs.T) * 1.0 / eigvals.unsqueeze(0)) @ eigvecs
 
diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index d06f2e0..fb43521 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -945,7 +945,8 @@ class ArnoldiProjector(AbstractProjector):
         proj = []
         appr_mat = torch.zeros((n_iters, n_iters - 1)).to(device)
 
-        start_vec /= torch.norm(start_vec)
+        # every basis vector has norm `norm_constant`
+        start_vec *= norm_constant / torch.norm(start_vec)
         proj.append(start_vec)
 
         for n in range(n_iters - 1):
@@ -1028,6 +1029,7 @@ class ArnoldiProjector(AbstractProjector):
         # get top k eigenvalues/vectors and cache
         # proj dim is the value of k
         self.eigvals, self.eigvecs = self._distill(appr_mat, proj, self.proj_dim)
+        self.eigvecs = self.eigvecs / self.norm_constant
 
         # prevent from negative eigvals
         if self.proj_dim > torch.sum(self.eigvals > self.tol**2):
-- 
2.43.0


From e7dee18dd9d2667a3b20ec839edde90e3d4a7375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 10/88] fix: Arnoldi projector drops the non-positive
 eigenvalues it warns about

---
 dattri/func/projection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index fb43521..ce25ccb 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -1032,9 +1032,13 @@ class ArnoldiProjector(AbstractProjector):
         self.eigvecs = self.eigvecs / self.norm_constant
 
         # prevent from negative eigvals
-        if self.proj_dim > torch.sum(self.eigvals > self.tol**2):
+        positive = self.eigvals > self.tol**2
+        if self.proj_dim > torch.sum(positive):
             # adjust proj_dim
-            self.proj_dim = torch.sum(self.eigvals > self.tol**2).item()
+            self.proj_dim = torch.sum(positive).item()
+            # the other directions contribute nothing
+            self.eigvecs = torch.where(positive.unsqueeze(-1), self.eigvecs, 0.0)
+            self.eigvals = torch.where(positive, self.eigvals, 1.0)
             warnings.warn(
                 "Encountered many negative eigenvalues and `proj_dim` is greater"
                 " than the number of positive eigenvalues. Automatically adjusting"
-- 
2.43.0


From 5d44d63e530e7a1c5a93c9a4fbc5dc91746e8d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 11/88] fix: Arnoldi projector no longer reseeds the global
 random state

---
 dattri/func/projection.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index ce25ccb..d4bacec 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -1011,10 +1011,9 @@ class ArnoldiProjector(AbstractProjector):
 
     def get_eigenspace(self) -> None:
         """Compute the approximate eigenspaces of inverse Hessian."""
-        # set torch seed
-        torch.manual_seed(self.seed)
-        # init a random vector
-        v0 = torch.rand(self.feature_dim).to(self.device)
+        # init a random vector, without touching the global random state
+        generator = torch.Generator().manual_seed(self.seed)
+        v0 = torch.rand(self.feature_dim, generator=generator).to(self.device)
 
         # perform arnoldi iteration
         appr_mat, proj = self._arnoldi_iter(
-- 
2.43.0


From 4900be017d0c72e1db4ec4883a2fcdfb336a8a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 12/88] fix: Arnoldi influence accepts tuple and dict batches

---
 dattri/algorithm/influence_function.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 0033745..2c78564 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -390,22 +390,18 @@ class IFAttributorArnoldi(BaseInnerProductAttributor):
                 break
             data_target_pair_list.append(batch)
 
-        # concatenate all data
-        data_target_pair = data_target_pair_list[0]
-        for batch_idx in range(1, len(data_target_pair_list)):
-            for data_item_idx in range(len(data_target_pair_list[0])):
-                data_target_pair[data_item_idx] = torch.cat(
-                    (
-                        data_target_pair[data_item_idx],
-                        data_target_pair_list[batch_idx][data_item_idx],
-                    ),
-                    dim=0,
+        # concatenate all data and move to device (only once for all data)
+        if isinstance(data_target_pair_list[0], dict):
+            data_target_pair = {
+                k: torch.cat([batch[k] for batch in data_target_pair_list], dim=0).to(
+                    self.device,
                 )
-
-        # to device (only once for all data)
-        for data_item_idx in range(len(data_target_pair)):
-            data_target_pair[data_item_idx] = data_target_pair[data_item_idx].to(
-                self.device,
+                for k in data_target_pair_list[0]
+            }
+        else:
+            data_target_pair = tuple(
+                torch.cat(items, dim=0).to(self.device)
+                for items in zip(*data_target_pair_list)
             )
 
         from dattri.func.projection import arnoldi_project
-- 
2.43.0


From 802e3c31420c695d3e64a641f5982ae0a1efc15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 13/88] fix: LiSSA influence accepts dict batches and double
 precision inputs

---
 dattri/algorithm/influence_function.py | 33 +++++++++++++++++++-------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 2c78564..3f76195 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -5,7 +5,7 @@ from __future__ import annotations
 from typing import TYPE_CHECKING
 
 if TYPE_CHECKING:
-    from typing import List, Optional, Tuple, Union
+    from typing import Dict, List, Optional, Tuple, Union
 
     from torch import Tensor
     from torch.utils.data import DataLoader
@@ -572,34 +572,49 @@ class IFAttributorLiSSA(BaseInnerProductAttributor):
                 )
                 raise TypeError(msg)
 
+            if isinstance(full_data, dict):
+                data_keys, data_values = list(full_data), tuple(full_data.values())
+            else:
+                data_keys, data_values = None, full_data
+
             self.ihvp_func = ihvp_lissa(
                 self.task.get_loss_func(layer_name=self.layer_name, ckpt_idx=ckpt_idx),
-                collate_fn=IFAttributorLiSSA.lissa_collate_fn,
+                collate_fn=partial(
+                    IFAttributorLiSSA.lissa_collate_fn,
+                    data_keys=data_keys,
+                ),
                 **self.transformation_kwargs,
             )
             vector_product += self.ihvp_func(
-                (model_params, *full_data),
+                (model_params, *data_values),
                 test_rep,
-                in_dims=(None,) + (0,) * len(full_data),
+                in_dims=(None,) + (0,) * len(data_values),
             ).detach()
         return vector_product
 
     @staticmethod
     def lissa_collate_fn(
         sampled_input: List[Tensor],
-    ) -> Tuple[Tensor, List[Tuple[Tensor, ...]]]:
+        data_keys: Optional[List[str]] = None,
+    ) -> Tuple[Tensor, Union[Tuple[Tensor, ...], Dict[str, Tensor]]]:
         """Collate function for LISSA.
 
         Args:
             sampled_input (List[Tensor]): The sampled input from the dataloader.
+            data_keys (Optional[List[str]]): The keys of the data if each batch is
+                a dict. Default is None, which means each batch is a tuple.
 
         Returns:
-            Tuple[Tensor, List[Tuple[Tensor, ...]]]: The collated input for the LISSA.
+            Tuple[Tensor, Union[Tuple[Tensor, ...], Dict[str, Tensor]]]: The collated
+                input for the LISSA.
         """
-        return (
-            sampled_input[0],
-            tuple(sampled_input[i].float() for i in range(1, len(sampled_input))),
+        data = tuple(
+            item if item.is_floating_point() else item.float()
+            for item in sampled_input[1:]
         )
+        if data_keys is not None:
+            return sampled_input[0], dict(zip(data_keys, data))
+        return sampled_input[0], data
 
     def _compute_denom(
         self,
-- 
2.43.0


From 522078ec25466d78b9801c2982fd8f7f8cb0adf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 14/88] fix: DataInf splits representations by the selected
 layers

---
 dattri/algorithm/influence_function.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 3f76195..e61196c 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -850,6 +850,7 @@ class IFAttributorDataInf(BaseInnerProductAttributor):
         """
         model_params, param_layer_map = self.task.get_param(
             ckpt_idx,
+            layer_name=self.layer_name,
             layer_split=True,
         )
         split_index = [0] * (param_layer_map[-1] + 1)
-- 
2.43.0


From 76b63f8e80bd35e63431f838405b37f7db497b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 15/88] fix: EK-FAC rotates into the eigenbasis instead of out
 of it

---
 dattri/algorithm/influence_function.py | 2 +-
 dattri/func/fisher.py                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index e61196c..a3d8f80 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -1096,7 +1096,7 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             _lambda = self.cached_lambdas[name]
             q_a, q_s = self.cached_q[name]
 
-            _ifvp = q_s.T @ ((q_s @ _v @ q_a.T) / (_lambda + self.damping)) @ q_a
+            _ifvp = q_s @ ((q_s.T @ _v @ q_a) / (_lambda + self.damping)) @ q_a.T
             ifvp[name] = _ifvp.flatten(start_dim=1)
 
         # Flatten the parameters again
diff --git a/dattri/func/fisher.py b/dattri/func/fisher.py
index fe879dd..f270909 100644
--- a/dattri/func/fisher.py
+++ b/dattri/func/fisher.py
@@ -365,7 +365,7 @@ def _update_lambda(
         # An equivalent way to calculate lambda's. Please refer to
         # https://math.stackexchange.com/questions/1879933/vector-multiplication-with-multiple-kronecker-products
         q_a, q_s = cached_q[layer_name]
-        batch_lambda = torch.square(q_s @ batch_dtheta @ q_a.T).mean(axis=0)
+        batch_lambda = torch.square(q_s.T @ batch_dtheta @ q_a).mean(axis=0)
 
         # Update the running eigenvalue estimation
         if layer_name in curr_estimate:
-- 
2.43.0


From 91faca751a5152b51e2e4f3502d9a5db33e02986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 16/88] fix: EK-FAC keeps weights and biases of a layer in
 their own columns

---
 dattri/algorithm/influence_function.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index a3d8f80..adc4b4f 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -1080,16 +1080,14 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
 
         for name in self.module_name:
             if self.name_to_module[name].bias is not None:
-                dim_out = layer_test_rep[name + ".weight"].shape[1]
-                dim_in = layer_test_rep[name + ".weight"].shape[2] + 1
+                # The bias is the last input column (see `_ekfac_hook`)
                 _v = torch.cat(
                     [
-                        layer_test_rep[name + ".weight"].flatten(start_dim=1),
-                        layer_test_rep[name + ".bias"].flatten(start_dim=1),
+                        layer_test_rep[name + ".weight"],
+                        layer_test_rep[name + ".bias"].unsqueeze(-1),
                     ],
                     dim=-1,
                 )
-                _v = _v.reshape(-1, dim_out, dim_in)
             else:
                 _v = layer_test_rep[name + ".weight"]
 
@@ -1097,6 +1095,12 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             q_a, q_s = self.cached_q[name]
 
             _ifvp = q_s @ ((q_s.T @ _v @ q_a) / (_lambda + self.damping)) @ q_a.T
+            if self.name_to_module[name].bias is not None:
+                # Back to the (weight, bias) order of the flattened parameters
+                _ifvp = torch.cat(
+                    [_ifvp[..., :-1].flatten(start_dim=1), _ifvp[..., -1]],
+                    dim=-1,
+                )
             ifvp[name] = _ifvp.flatten(start_dim=1)
 
         # Flatten the parameters again
-- 
2.43.0


From 2f6bef34d63b98e501ae9ee0e96d01022160a4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 17/88] fix: EK-FAC statistics accept sequential layer inputs

---
 dattri/func/fisher.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dattri/func/fisher.py b/dattri/func/fisher.py
index f270909..5e6837a 100644
--- a/dattri/func/fisher.py
+++ b/dattri/func/fisher.py
@@ -266,18 +266,20 @@ def _update_covariance(
         # t = 1 if the given input is not sequential
         if a_prev_raw.ndim == 2:  # noqa: PLR2004
             a_prev = a_prev_raw.unsqueeze(1)
+        else:
+            a_prev = a_prev_raw
 
         a_prev_masked = a_prev * mask[..., None].to(a_prev.device)
 
         # Calculate batch covariance matrix for A
-        a_prev_reshaped = a_prev_masked.view(-1, a_prev.size(-1))
+        a_prev_reshaped = a_prev_masked.reshape(-1, a_prev.size(-1))
         batch_cov_a = a_prev_reshaped.transpose(0, 1) @ a_prev_reshaped
         batch_cov_a /= batch_samples
 
         # Calculate batch covariance matrix for S
         ds_curr = s_curr_raw.grad
 
-        ds_curr_reshaped = ds_curr.view(-1, s_curr_raw.size(-1))
+        ds_curr_reshaped = ds_curr.reshape(-1, s_curr_raw.size(-1))
         batch_cov_s = ds_curr_reshaped.transpose(0, 1) @ ds_curr_reshaped
         batch_cov_s /= batch_samples
 
@@ -338,6 +340,8 @@ def _update_lambda(
         if a_prev_raw.ndim == 2:  # noqa: PLR2004
             a_prev = a_prev_raw.unsqueeze(1)
             ds_curr = ds_curr.unsqueeze(1)
+        else:
+            a_prev = a_prev_raw
 
         a_prev_masked = a_prev * mask[..., None].to(a_prev.device)
 
-- 
2.43.0


From b4e9c4b4b1cfa9daacaacd466164f629576e48dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 18/88] fix: EK-FAC statistics accept the documented (loss,
 mask) output

---
 dattri/func/fisher.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dattri/func/fisher.py b/dattri/func/fisher.py
index 5e6837a..5211a28 100644
--- a/dattri/func/fisher.py
+++ b/dattri/func/fisher.py
@@ -429,8 +429,9 @@ def estimate_covariance(
         # Forward pass
         func_output = func(batch_data)
         loss, mask = (
-            func_output,
-            torch.ones(batch_size, 1),
+            func_output
+            if isinstance(func_output, tuple)
+            else (func_output, torch.ones(batch_size, 1))
         )
 
         # Here, we assume the loss is obtained with reduction="mean" by default.
@@ -524,8 +525,9 @@ def estimate_lambda(
         # Forward pass
         func_output = func(batch_data)
         loss, mask = (
-            func_output,
-            torch.ones(batch_size, 1),
+            func_output
+            if isinstance(func_output, tuple)
+            else (func_output, torch.ones(batch_size, 1))
         )
 
         # Here, we assume the loss is obtained with reduction="mean" by default.
-- 
2.43.0


From b9a42f64ad1c1d34d0b282106488d27d85e7af74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 19/88] fix: EK-FAC estimates the FIM on the loss function

---
 dattri/algorithm/influence_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index adc4b4f..6216987 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -1005,7 +1005,7 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             mod = self.task.model.get_submodule(name)
             handles.append(mod.register_forward_hook(_ekfac_hook))
 
-        func = partial(self.task.get_target_func(), self.task.get_param()[0])
+        func = partial(self.task.get_loss_func(), self.task.get_param()[0])
         # 1. Use random batch to estimate covariance matrices S and A
         cov_matrices = estimate_covariance(
             func,
-- 
2.43.0


From 3855a8754b01c15fdf463dc006cb7ce1d386f48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 20/88] fix: explicit IFVP uses the outer product of the
 gradient as FIM

---
 dattri/func/fisher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/func/fisher.py b/dattri/func/fisher.py
index 5211a28..f990e2a 100644
--- a/dattri/func/fisher.py
+++ b/dattri/func/fisher.py
@@ -73,7 +73,7 @@ def ifvp_explicit(
         """
         grad_tensor = grad_func(*x)
         return torch.linalg.solve(
-            grad_tensor @ grad_tensor.T
+            torch.outer(grad_tensor, grad_tensor)
             + torch.eye(grad_tensor.shape[0]).to(v.device) * regularization,
             v.T,
         ).T
@@ -116,7 +116,7 @@ def ifvp_at_x_explicit(
         of `func` and `v`.
     """
     grad_tensor = grad(func, argnums=argnums)(*x)
-    fim = grad_tensor @ grad_tensor.T
+    fim = torch.outer(grad_tensor, grad_tensor)
 
     def _ifvp_at_x_explicit_func(v: Tensor) -> Tensor:
         """The IFVP function using explicit FIM.
-- 
2.43.0


From b10e836655a33fd67d5a7ed48418e688bc132f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 21/88] fix: random projector works again after free_memory

---
 dattri/func/projection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index d4bacec..4523ed3 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -364,6 +364,9 @@ class BasicProjector(AbstractProjector):
         )
 
         if self.num_blocks == 1:
+            if not self.proj_matrix_available:
+                # the matrix was released by free_memory
+                self._gen_randomness_dense(self.generator_states[0])
             torch.matmul(features.data, self.proj_matrix, out=sketch)
         else:
             for ind in range(self.num_blocks):
-- 
2.43.0


From d6a2b3b62065d51a8f8cd3525eb2b85c04c5143e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 22/88] fix: chunked projection splits features where the chunk
 sizes do

---
 dattri/func/projection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dattri/func/projection.py b/dattri/func/projection.py
index 4523ed3..9906032 100644
--- a/dattri/func/projection.py
+++ b/dattri/func/projection.py
@@ -743,9 +743,9 @@ class ChunkedCudaProjector:
                 p_flat = p.data.flatten(start_dim=1)
 
             feature_dim_size = p_flat.size(1)
-            # if current accumulated params exceed max_chunk_size,
-            # then stop accumulation.
-            if pointer + feature_dim_size > self.max_chunk_size:
+            # if current accumulated params reach max_chunk_size,
+            # then stop accumulation (same rule as get_parameter_chunk_sizes).
+            if pointer > 0 and pointer + feature_dim_size >= self.max_chunk_size:
                 # fill remaining entries with 0
                 if pointer != self.dim_per_chunk[projector_index]:
                     msg = "Current number of accumulated #dim does not match \
-- 
2.43.0


From 308423900c4ac0ada66d8dfd2238b98d6e48841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 23/88] fix: RPS weights reproduce the fine-tuned last layer

---
 dattri/algorithm/rps.py   |  3 +++
 dattri/algorithm/utils.py | 13 +++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/rps.py b/dattri/algorithm/rps.py
index a4e8f72..df33fb2 100644
--- a/dattri/algorithm/rps.py
+++ b/dattri/algorithm/rps.py
@@ -97,6 +97,7 @@ class RPSAttributor(BaseAttributor):
             num_epoch=self.epoch,
             device=self.device,
         )
+        self.num_finetune = len(intermediate_x_train)
 
     def attribute(
         self,
@@ -152,6 +153,7 @@ class RPSAttributor(BaseAttributor):
                 num_epoch=self.epoch,
                 device=self.device,
             )
+            self.num_finetune = len(intermediate_x_train)
 
         # get intermediate features for test samples
         intermediate_x_test, _ = get_final_layer_io(
@@ -170,6 +172,7 @@ class RPSAttributor(BaseAttributor):
             y_pred_train,
             y_test,
             self.l2_strength,
+            self.num_finetune,
         )
 
         if self.normalize_preactivate:
diff --git a/dattri/algorithm/utils.py b/dattri/algorithm/utils.py
index b3bf1ac..88e421b 100644
--- a/dattri/algorithm/utils.py
+++ b/dattri/algorithm/utils.py
@@ -3,7 +3,7 @@
 from __future__ import annotations
 
 import warnings
-from typing import Callable, Tuple
+from typing import Callable, Optional, Tuple
 
 import numpy as np
 import torch
@@ -174,6 +174,7 @@ def get_rps_weight(
     y_pred_train: Tensor,
     y_test: Tensor,
     lambda_l2: float,
+    num_finetune: Optional[int] = None,
 ) -> Tensor:
     r"""Compute the decomposed RPS weight.
 
@@ -185,11 +186,15 @@ def get_rps_weight(
         y_pred_train (Tensor): The pre-trained model output of the training set.
         y_test (Tensor): The ground-truth of the testing set.
         lambda_l2 (float): The l2-regularization strength.
+        num_finetune (Optional[int]): The number of samples `finetuned_theta` was
+            fine-tuned on. Defaults to the number of samples in `x_train`.
 
     Returns:
         The decomposed RPS weight (\Theta^*_1 in the paper notation).
     """
     n = len(y_pred_train)
+    if num_finetune is None:
+        num_finetune = n
     # calculate theta1 based on the representer theorem's decomposition
     pre_activation_value = torch.matmul(
         x_train,
@@ -202,7 +207,11 @@ def get_rps_weight(
         else torch.softmax(y_pred_train, dim=1)
     )
 
-    alpha = grad(loss_func)(pre_activation_value, y_pred_train) / (-2.0 * lambda_l2 * n)
+    # loss_func averages over the n samples given here, while the fine-tuning
+    # objective averages over num_finetune samples
+    alpha = grad(loss_func)(pre_activation_value, y_pred_train) * (
+        n / (-2.0 * lambda_l2 * num_finetune)
+    )
     # if multi-class, then focus on the test samples' class labels
     if finetuned_theta.shape[0] > 1:
         train_size = x_train.shape[0]
-- 
2.43.0


From 82b8cd259619953cdf33f5e30ced1a2591ec249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 24/88] fix: KNN-Shapley base value with fewer samples than
 neighbors

---
 dattri/algorithm/data_shapley.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/data_shapley.py b/dattri/algorithm/data_shapley.py
index 057671f..46a534b 100644
--- a/dattri/algorithm/data_shapley.py
+++ b/dattri/algorithm/data_shapley.py
@@ -196,9 +196,10 @@ class KNNShapleyAttributor(BaseAttributor):
             desc="calculating shapley values...",
             leave=False,
         ):
+            # with fewer samples than neighbors, the farthest one is always used
             shapley_values[j, nn_sorting[j, -1]] = (
                 train_labels[nn_sorting[j, -1]] == test_labels[j]
-            ) / num_train_samples
+            ) / max(num_train_samples, self.k_neighbors)
 
             for i in torch.arange(num_train_samples - 2, -1, -1):
                 shapley_values[j, nn_sorting[j, i]] = shapley_values[
-- 
2.43.0


From 68c4cf307108965cce85d47f9580a3996d1a96b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 25/88] fix: KNN-Shapley documents the shape it returns

---
 dattri/algorithm/data_shapley.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/algorithm/data_shapley.py b/dattri/algorithm/data_shapley.py
index 46a534b..c471fff 100644
--- a/dattri/algorithm/data_shapley.py
+++ b/dattri/algorithm/data_shapley.py
@@ -118,7 +118,7 @@ class KNNShapleyAttributor(BaseAttributor):
 
         Returns:
             Tensor: The KNN shapley values of the training set on the test set, with
-                the shape of (num_train_samples, num_test_samples).
+                the shape of (num_test_samples, num_train_samples).
 
         Raises:
             ValueError: If the length of provided labels and dataset mismatch.
-- 
2.43.0


From 2e3eb0bac3f9aa8f2a1819928a5238504095ffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 26/88] fix: split parameters of a checkpoint do not change
 with the next checkpoint

---
 dattri/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/task.py b/dattri/task.py
index 0152551..6294816 100644
--- a/dattri/task.py
+++ b/dattri/task.py
@@ -447,10 +447,10 @@ class AttributionTask:
                     )
                     raise ValueError(error_msg)
                 return tuple(
-                    param.flatten() for param in named_parameters.values()
+                    param.flatten().clone() for param in named_parameters.values()
                 ), param_layer_map
             return tuple(
-                param.flatten() for param in named_parameters.values()
+                param.flatten().clone() for param in named_parameters.values()
             ), self._generate_param_layer_map(named_parameters)
         return flatten_params(named_parameters), None
 
-- 
2.43.0


From db7054761e8990bb0b68f38584e08ee8f0f90f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:39 +0000
Subject: [PATCH 27/88] fix: DVEmb accepts trajectories without an epoch 0

---
 dattri/algorithm/dvemb.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index b88f1b9..de0ab9c 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -738,13 +738,16 @@ class DVEmbAttributor:
             grad_dim = self._params_dim
             if self.projection_dim_per_layer is None:
                 # No projection: use cached factors
-                grad_dtype = self.cached_factors[0][0][0]["A"].dtype
+                first_factors = next(v for v in self.cached_factors.values() if v)
+                grad_dtype = first_factors[0][0]["A"].dtype
             else:
                 # With projection (kronecker or elementwise): use cached gradients
-                grad_dtype = self.cached_gradients[0][0].dtype
+                first_grads = next(v for v in self.cached_gradients.values() if v)
+                grad_dtype = first_grads[0].dtype
         else:
-            grad_dim = self.cached_gradients[0][0].shape[1]
-            grad_dtype = self.cached_gradients[0][0].dtype
+            first_grads = next(v for v in self.cached_gradients.values() if v)
+            grad_dim = first_grads[0].shape[1]
+            grad_dtype = first_grads[0].dtype
 
         # Create weighting matrix
         m_matrix = torch.zeros(
-- 
2.43.0


From 038791e7a6ce4dc4b99a8aa0e6865c2184a53c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 28/88] fix: DVEmb does not clear gradients passed in by the
 caller

---
 dattri/algorithm/dvemb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index de0ab9c..ccc2ea3 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -714,9 +714,10 @@ class DVEmbAttributor:
             raise ValueError(msg)
 
         if gradients is not None:
-            self.cached_gradients = gradients
+            # The caller's dictionary is neither extended nor cleared
+            self.cached_gradients = {e: list(g) for e, g in gradients.items()}
         if learning_rates is not None:
-            self.learning_rates = learning_rates
+            self.learning_rates = {e: list(r) for e, r in learning_rates.items()}
 
         has_full_grads = self.cached_gradients and any(self.cached_gradients.values())
         has_gradient_factors = (
-- 
2.43.0


From 25d623b57faa8efde231540c321bd306e0c82027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 29/88] fix: DVEmb gradient factors do not overwrite the .grad
 of the parameters

---
 dattri/algorithm/dvemb.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index ccc2ea3..44fe722 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -489,14 +489,18 @@ class DVEmbAttributor:
         Returns:
             A list of cached factor dictionaries for each linear layer.
         """
-        self.model.zero_grad()
         handles, caches = self._register_factorization_hooks()
 
         # Strict requirements on batch_data
         batch_data_tensors = [d.to(self.device) for d in batch_data]
         loss = self.task.original_loss_func(self.model, batch_data_tensors, self.device)
         loss *= batch_data_tensors[0].shape[0]  # Scale loss by batch size
-        loss.backward()
+        # The hooks see the gradients; the user's .grad fields are left alone
+        torch.autograd.grad(
+            loss,
+            [p for p in self.model.parameters() if p.requires_grad],
+            allow_unused=True,
+        )
 
         for h in handles:
             h.remove()
-- 
2.43.0


From 6797b38498d8cd6e349e5302689aca27b854ff01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 30/88] fix: DVEmb leaves frozen parameters out of the
 gradients

---
 dattri/algorithm/dvemb.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index 44fe722..6abf6c5 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -427,7 +427,11 @@ class DVEmbAttributor:
         grad_loss_fn = self.task.get_grad_loss_func(in_dims=in_dims)
 
         model_params = flatten_params(
-            {k: v.detach() for k, v in self.model.named_parameters()},
+            {
+                k: v.detach()
+                for k, v in self.model.named_parameters()
+                if v.requires_grad
+            },
         )
         per_sample_grads = grad_loss_fn(model_params, batch_data_tensors)
 
-- 
2.43.0


From 0cf6d671820a9698e614136d085815fdc5ff3764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 31/88] fix: DVEmb drops the embeddings of an earlier
 trajectory

---
 dattri/algorithm/dvemb.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index 6abf6c5..bf407c6 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -767,6 +767,7 @@ class DVEmbAttributor:
 
         # Calculate data embeddings for each epoch in reverse order
         sorted_epochs = sorted(self.learning_rates.keys(), reverse=True)
+        embeddings: Dict[int, Tensor] = {}
         # Going through epochs in reverse order
         for epoch in tqdm(sorted_epochs, desc="Computing DVEmb per Epoch"):
             epoch_embeddings = torch.zeros(
@@ -808,7 +809,10 @@ class DVEmbAttributor:
                     )
                     raise ValueError(msg)
 
-            self.embeddings[epoch] = epoch_embeddings
+            embeddings[epoch] = epoch_embeddings
+
+        # Embeddings of an earlier trajectory are replaced
+        self.embeddings = embeddings
 
         if memory_saving:
             self.clear_cache()
-- 
2.43.0


From 5ec0293dab6d151738e258290e0415b5ce072120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 32/88] fix: DVEmb context manager does not record a step that
 raised

---
 dattri/algorithm/dvemb.py | 53 ++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index bf407c6..fea359b 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -362,13 +362,6 @@ class DVEmbAttributor:
             )
         self._caching_method = "context"
 
-        # Initialize epoch storage if needed
-        if epoch not in self.cached_factors:
-            self.cached_factors[epoch] = []
-            self.cached_gradients[epoch] = []
-            self.learning_rates[epoch] = []
-            self.data_indices[epoch] = []
-
         # Set up projectors if not already done
         if (
             not hasattr(self, "random_projectors")
@@ -382,32 +375,40 @@ class DVEmbAttributor:
         try:
             yield  # User's training loop executes here (forward + backward + step)
         finally:
-            # ══════════ __exit__: Clean up and cache gradient factors ══════════
+            # ══════════ __exit__: Clean up ══════════
 
             # Remove hooks
             for h in handles:
                 h.remove()
 
-            # Adjust for mean reduction: users typically use mean loss (default),
-            # but we need sum reduction for correct per-sample gradient factors.
-            # backward hook captures B = dL/dy where L = mean(per_sample_losses).
-            # We need B_sum = dL_sum/dy = N * B where L_sum = sum(per_sample_losses).
-            for cache in caches:
-                if cache["B"] is not None:
-                    cache["B"] *= len(indices)
+        # A step that raised is not part of the trajectory: nothing is cached for it
+        # Initialize epoch storage if needed
+        if epoch not in self.cached_factors:
+            self.cached_factors[epoch] = []
+            self.cached_gradients[epoch] = []
+            self.learning_rates[epoch] = []
+            self.data_indices[epoch] = []
 
-            # Cache the gradient factors (with projection if configured)
-            if self.projection_dim_per_layer is None:
-                self.cached_factors[epoch].append(caches)
-            elif self.factorization_type == "kronecker":
-                projected_grads = self._project_gradients_factors_kronecker(caches)
-                self.cached_gradients[epoch].append(projected_grads.cpu())
-            else:
-                projected_grads = self._project_gradients_factors_elementwise(caches)
-                self.cached_gradients[epoch].append(projected_grads.cpu())
+        # Adjust for mean reduction: users typically use mean loss (default),
+        # but we need sum reduction for correct per-sample gradient factors.
+        # backward hook captures B = dL/dy where L = mean(per_sample_losses).
+        # We need B_sum = dL_sum/dy = N * B where L_sum = sum(per_sample_losses).
+        for cache in caches:
+            if cache["B"] is not None:
+                cache["B"] *= len(indices)
 
-            self.learning_rates[epoch].append(learning_rate / len(indices))
-            self.data_indices[epoch].append(indices.cpu())
+        # Cache the gradient factors (with projection if configured)
+        if self.projection_dim_per_layer is None:
+            self.cached_factors[epoch].append(caches)
+        elif self.factorization_type == "kronecker":
+            projected_grads = self._project_gradients_factors_kronecker(caches)
+            self.cached_gradients[epoch].append(projected_grads.cpu())
+        else:
+            projected_grads = self._project_gradients_factors_elementwise(caches)
+            self.cached_gradients[epoch].append(projected_grads.cpu())
+
+        self.learning_rates[epoch].append(learning_rate / len(indices))
+        self.data_indices[epoch].append(indices.cpu())
 
     def _calculate_full_gradients(
         self,
-- 
2.43.0


From 9958b6691246f98cb8e5059f20dbb5a72dbc27f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 33/88] fix: DVEmb projects layer inputs and outputs
 independently

---
 dattri/algorithm/dvemb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index fea359b..7fc89aa 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -183,7 +183,8 @@ class DVEmbAttributor:
                     feature_batch_size=batch_size,
                     device=self.device,
                     proj_dim=self.projection_dim_per_layer,
-                    proj_seed=self.proj_params.proj_seed,
+                    # independent of the output projection
+                    proj_seed=self.proj_params.proj_seed + 1,
                     proj_max_batch_size=self.proj_params.proj_max_batch_size,
                 ),
             )
-- 
2.43.0


From 688eef0b7cdd17270c82e1c44d4575d711cc168d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 34/88] fix: DVEmb uses the requested projection type

---
 dattri/algorithm/dvemb.py   | 3 +++
 dattri/params/projection.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index 7fc89aa..3cd07f7 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -175,6 +175,7 @@ class DVEmbAttributor:
                     proj_dim=self.projection_dim_per_layer,
                     proj_seed=self.proj_params.proj_seed,
                     proj_max_batch_size=self.proj_params.proj_max_batch_size,
+                    proj_type=self.proj_params.proj_type,
                 ),
             )
             project_input = random_project(
@@ -186,6 +187,7 @@ class DVEmbAttributor:
                     # independent of the output projection
                     proj_seed=self.proj_params.proj_seed + 1,
                     proj_max_batch_size=self.proj_params.proj_max_batch_size,
+                    proj_type=self.proj_params.proj_type,
                 ),
             )
             self.random_projectors.append((project_input, project_output))
@@ -450,6 +452,7 @@ class DVEmbAttributor:
                         proj_dim=self.projection_dim_per_layer,
                         proj_seed=self.proj_params.proj_seed,
                         proj_max_batch_size=self.proj_params.proj_max_batch_size,
+                        proj_type=self.proj_params.proj_type,
                     ),
                 )
             # Project gradients
diff --git a/dattri/params/projection.py b/dattri/params/projection.py
index ea5c9d9..8ecb057 100644
--- a/dattri/params/projection.py
+++ b/dattri/params/projection.py
@@ -137,7 +137,7 @@ class DVEmbProjectionParams(BaseProjectionParams):
         "sjlt",
         "random_mask",
         "grass",
-    ] = "identity"
+    ] = "normal"
 
 
 class RandomProjectionParams(GeneralProjectionParams):
-- 
2.43.0


From be45d0830efa79d2ea8a628e99b1ddb34e8850b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 35/88] fix: block-projected influence accepts gradients that
 are not float32 The accumulator of the second moment is float32; gradients of
 another precision (float64 default, half precision) raised a dtype error.

---
 dattri/algorithm/block_projected_if/block_projected_if.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 4a7ced7..285d13c 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -401,6 +401,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
                 start_col = sum(self.layer_dims[:layer_idx])
                 end_col = start_col + self.layer_dims[layer_idx]
                 layer_data = chunk_tensor_device[:, start_col:end_col].detach()
+                layer_data = layer_data.to(dtype=torch.float32)
 
                 if layer_data.numel() == 0 or hessian_accumulators[layer_idx] is None:
                     continue
-- 
2.43.0


From 2dcbfc4746248a6909afdd4e5a4160cd8f2a4c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:56 +0000
Subject: [PATCH 36/88] fix: block-projected influence attributes the task's
 target function Test gradients were always those of the cross entropy (or of
 outputs.loss), whatever target function the task defines.

---
 .../block_projected_if/block_projected_if.py  | 35 ++++++-------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 285d13c..0704453 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -813,7 +813,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
         )
         return if_score
 
-    def _compute_test_gradients(  # noqa: PLR0912 - Complex gradient computation requires multiple branches for different input types and error handling
+    def _compute_test_gradients(
         self,
         test_dataloader: DataLoader,
     ) -> Tuple[torch.Tensor, Dict]:
@@ -828,9 +828,6 @@ class BlockProjectedIFAttributor(BaseAttributor):
                   Shape:(num_test_samples, total_proj_dim)
                 - Dictionary mapping batch indices to (start_row, end_row)
                   positions.
-
-        Raises:
-            ValueError: If model can't return loss for dict-style inputs.
         """
         # Create hook manager if needed
         if self.hook_manager is None:
@@ -851,32 +848,22 @@ class BlockProjectedIFAttributor(BaseAttributor):
         ):
             self.model.zero_grad()
 
-            # Prepare inputs and compute loss
-            if isinstance(batch, dict):
-                inputs = {k: v.to(self.device) for k, v in batch.items()}
-                batch_size = next(iter(batch.values())).shape[0]
-                outputs = self.model(**inputs)
-                if hasattr(outputs, "loss"):
-                    loss = outputs.loss
-                else:
-                    msg = "Model must return loss for dict-style inputs"
-                    raise ValueError(msg)
-            else:
-                inputs, targets = batch
-                inputs = inputs.to(self.device)
-                targets = targets.to(self.device)
-                batch_size = inputs.shape[0]
-                outputs = self.model(inputs)
-                if hasattr(outputs, "loss"):
-                    loss = outputs.loss
-                else:
-                    loss = nn.functional.cross_entropy(outputs, targets)
+            # Compute the value that is attributed, as the task defines it
+            loss = self.task.original_target_func(self.model, batch, self.device)
 
             loss.backward()
 
             # Get projected gradients
             with torch.no_grad():
                 compressed_grads = self.hook_manager.get_compressed_grads()
+                batch_size = next(
+                    (
+                        grad.shape[0]
+                        for grad in compressed_grads
+                        if grad is not None and grad.numel() > 0
+                    ),
+                    0,
+                )
 
                 # Concatenate layer gradients
                 batch_features = []
-- 
2.43.0


From 7ca59927b00795d4bc67e9da91e68633d9b36166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:02 +0000
Subject: [PATCH 37/88] fix: block-projected influence scores the training
 samples it is given attribute() returned the scores of the cached samples
 even when called with another training loader (documented: a subset of the
 cached data).

---
 .../block_projected_if/block_projected_if.py  | 79 +++++++++++++++----
 1 file changed, 62 insertions(+), 17 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 0704453..cbcbe4f 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -9,7 +9,7 @@ import warnings
 from typing import TYPE_CHECKING
 
 if TYPE_CHECKING:
-    from typing import Any, Dict, List, Literal, Optional, Tuple, Union
+    from typing import Any, Callable, Dict, List, Literal, Optional, Tuple, Union
 
     from torch.utils.data import DataLoader
 
@@ -729,8 +729,10 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
         # Compute test gradients
         logger.info("Computing test gradients")
-        test_grads_tensor, _test_batch_mapping = self._compute_test_gradients(
+        test_grads_tensor, _test_batch_mapping = self._compute_gradients(
             test_dataloader,
+            self.task.original_target_func,
+            desc="Computing test gradients",
         )
 
         if test_grads_tensor is None or test_grads_tensor.numel() == 0:
@@ -747,6 +749,20 @@ class BlockProjectedIFAttributor(BaseAttributor):
             )
             return torch.zeros(num_train, num_test)
 
+        # Training samples other than the cached ones
+        if train_dataloader is not self.full_train_dataloader:
+            train_grads_tensor, _ = self._compute_gradients(
+                train_dataloader,
+                self.task.original_loss_func,
+                desc="Computing gradients",
+            )
+            return torch.matmul(
+                self._precondition(train_grads_tensor).to(
+                    dtype=test_grads_tensor.dtype,
+                ),
+                test_grads_tensor.t(),
+            ).to(self.device)
+
         # Get batch mappings
         batch_to_sample_mapping = self.metadata.get_batch_to_sample_mapping()
         total_train_samples = self.metadata.get_total_samples()
@@ -813,19 +829,48 @@ class BlockProjectedIFAttributor(BaseAttributor):
         )
         return if_score
 
-    def _compute_test_gradients(
+    def _precondition(self, grads: torch.Tensor) -> torch.Tensor:
+        """Apply the preconditioner of each layer to concatenated gradients.
+
+        Args:
+            grads: Concatenated gradients. Shape: (num_samples, total_proj_dim)
+
+        Returns:
+            Preconditioned gradients of the same shape.
+        """
+        if self.hessian == "Identity":
+            return grads
+
+        result = torch.zeros_like(grads)
+        start_col = 0
+        for layer_idx, layer_dim in enumerate(self.layer_dims):
+            end_col = start_col + layer_dim
+            precond = self.offload_manager.retrieve_preconditioner(layer_idx)
+            if precond is not None and layer_dim > 0:
+                layer_grad = grads[:, start_col:end_col]
+                precond = precond.to(layer_grad)
+                result[:, start_col:end_col] = torch.matmul(layer_grad, precond.t())
+            start_col = end_col
+        return result
+
+    def _compute_gradients(
         self,
-        test_dataloader: DataLoader,
+        dataloader: DataLoader,
+        value_func: Callable,
+        desc: str,
     ) -> Tuple[torch.Tensor, Dict]:
-        """Compute gradients for test data using hooks.
+        """Compute compressed gradients for the samples of a loader using hooks.
 
         Args:
-            test_dataloader: DataLoader for test data to compute gradients for.
+            dataloader: DataLoader for the data to compute gradients for.
+            value_func: The function whose gradients are computed, called with
+                the model, a batch and the device.
+            desc: Description for the progress bar.
 
         Returns:
             Tuple containing:
-                - Tensor of concatenated test gradients
-                  Shape:(num_test_samples, total_proj_dim)
+                - Tensor of concatenated gradients
+                  Shape:(num_samples, total_proj_dim)
                 - Dictionary mapping batch indices to (start_row, end_row)
                   positions.
         """
@@ -839,17 +884,17 @@ class BlockProjectedIFAttributor(BaseAttributor):
             if self.compressors:
                 self.hook_manager.set_compressors(self.compressors)
 
-        all_test_grads = []
-        test_batch_mapping = {}
+        all_grads = []
+        batch_mapping = {}
         current_row = 0
 
         for batch_idx, batch in enumerate(
-            tqdm(test_dataloader, desc="Computing test gradients"),
+            tqdm(dataloader, desc=desc),
         ):
             self.model.zero_grad()
 
             # Compute the value that is attributed, as the task defines it
-            loss = self.task.original_target_func(self.model, batch, self.device)
+            loss = value_func(self.model, batch, self.device)
 
             loss.backward()
 
@@ -877,8 +922,8 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
                 if batch_features:
                     batch_tensor = torch.cat(batch_features, dim=1)
-                    all_test_grads.append(batch_tensor)
-                    test_batch_mapping[batch_idx] = (
+                    all_grads.append(batch_tensor)
+                    batch_mapping[batch_idx] = (
                         current_row,
                         current_row + batch_size,
                     )
@@ -890,7 +935,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
         self.hook_manager.remove_hooks()
         self.hook_manager = None
 
-        # Combine all test gradients
-        if all_test_grads:
-            return torch.cat(all_test_grads, dim=0), test_batch_mapping
+        # Combine all gradients
+        if all_grads:
+            return torch.cat(all_grads, dim=0), batch_mapping
         return torch.empty(0, self.total_proj_dim or 0), {}
-- 
2.43.0


From 449dddde9a6ce9f1a7d1d974c3ae303281cbbf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 38/88] fix: disk offload works without a GPU Its buffers were
 always allocated in pinned memory, which needs a driver.

---
 .../algorithm/block_projected_if/offload/disk_io/manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 66971ef..0d0835b 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -61,7 +61,11 @@ class BufferPool:
         # Pre-allocate all buffers
         for _ in range(pool_size):
             buffer = ChunkBuffer(
-                tensor=torch.zeros(buffer_shape, dtype=dtype, pin_memory=True),
+                tensor=torch.zeros(
+                    buffer_shape,
+                    dtype=dtype,
+                    pin_memory=torch.cuda.is_available(),
+                ),
                 batch_indices=[],
                 batch_info=[],
                 current_row=0,
-- 
2.43.0


From 61f38430704d0fc4ca5285fcd0df0cae0af31e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:46 +0000
Subject: [PATCH 39/88] fix: batch metadata describes the dataset being cached
 Metadata left by an earlier cache (also one of another process that ran in
 the same directory) was kept when the number of batches happened to be equal,
 and never shrunk.

---
 dattri/algorithm/block_projected_if/core/metadata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/core/metadata.py b/dattri/algorithm/block_projected_if/core/metadata.py
index 8f85cf1..ddfc400 100644
--- a/dattri/algorithm/block_projected_if/core/metadata.py
+++ b/dattri/algorithm/block_projected_if/core/metadata.py
@@ -61,10 +61,10 @@ class MetadataManager:
         total_batches = len(train_dataloader)
         batch_size = train_dataloader.batch_size
 
-        # Check if already initialized
-        if len(self.batch_info) == total_batches:
-            logger.info("Dataset metadata already complete, skipping initialization")
-            return
+        # Forget the batches of an earlier dataset
+        with self._metadata_lock:
+            self.batch_info = {}
+            self._pending_batches.clear()
 
         # Compute complete batch structure
         if hasattr(train_dataloader.dataset, "__len__"):
-- 
2.43.0


From 94677d36aaab7b73a93b1ad162f35cb3ad016e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:26 +0000
Subject: [PATCH 40/88] fix: caching again replaces what was cached Batches of
 an earlier, larger training set stayed in the second moment, old chunk files
 stayed next to the new ones, and with an identity Hessian the products of the
 earlier cache were used. Clearing a disk store also forgets its buffers, its
 read cache and the layer dimensions.

---
 .../algorithm/block_projected_if/block_projected_if.py |  3 +++
 dattri/algorithm/block_projected_if/offload/disk.py    |  1 +
 .../block_projected_if/offload/disk_io/manager.py      | 10 ++++++++++
 3 files changed, 14 insertions(+)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index cbcbe4f..2b35e23 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -218,6 +218,9 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
         self.full_train_dataloader = full_train_dataloader
 
+        # Drop what an earlier call cached
+        self.offload_manager.clear_cache()
+
         # Setup compressors if not already done
         if self.compressors is None:
             self._setup_compressors(full_train_dataloader)
diff --git a/dattri/algorithm/block_projected_if/offload/disk.py b/dattri/algorithm/block_projected_if/offload/disk.py
index 29e088a..8b996ce 100644
--- a/dattri/algorithm/block_projected_if/offload/disk.py
+++ b/dattri/algorithm/block_projected_if/offload/disk.py
@@ -217,6 +217,7 @@ class DiskOffloadManager(Offload):
     def clear_cache(self) -> None:
         """Clear all cached data from disk."""
         self.disk_io.wait_for_async_operations()
+        self.disk_io.reset()
 
         for subdir in ["grad", "ifvp", "precond"]:
             subdir_path = pathlib.Path(self.cache_dir) / subdir
diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 0d0835b..1067e7b 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -322,6 +322,16 @@ class ChunkedDiskIOManager:
 
         return self._buffer_pools[data_type]
 
+    def reset(self) -> None:
+        """Forget everything held in memory about the stored data."""
+        self._chunk_buffers = {}
+        self._buffer_pools = {}
+        with self._read_cache_lock:
+            self._read_cache = {}
+        self.layer_dims = None
+        self.total_proj_dim = None
+        self.current_batch_range = None
+
     def start_batch_range(self, start_batch: int, end_batch: int) -> None:
         """Start processing a batch range.
 
-- 
2.43.0


From 923a5fee22d697cc67e7aabf1b78cdd9fc406d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:48 +0000
Subject: [PATCH 41/88] fix: FactGraSS uses the projection seed it is given
 proj_seed and proj_max_batch_size were ignored.

---
 dattri/algorithm/factgrass.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/factgrass.py b/dattri/algorithm/factgrass.py
index b2c1e2b..5f84394 100644
--- a/dattri/algorithm/factgrass.py
+++ b/dattri/algorithm/factgrass.py
@@ -100,13 +100,15 @@ class FactGraSSAttributor(BlockProjectedIFAttributor):
         # Set FactGraSS-specific configuration
         sparsifier_params = GeneralProjectionParams(
             proj_dim=per_component_dim,
-            proj_max_batch_size=64,
+            proj_max_batch_size=self.proj_params.proj_max_batch_size,
+            proj_seed=self.proj_params.proj_seed,
             proj_type="random_mask",
         )
 
         projector_params = GeneralProjectionParams(
             proj_dim=self.proj_params.proj_dim_per_layer,
-            proj_max_batch_size=64,
+            proj_max_batch_size=self.proj_params.proj_max_batch_size,
+            proj_seed=self.proj_params.proj_seed,
             proj_type="sjlt" if device == "cuda" else "normal",
         )
 
-- 
2.43.0


From f13ab0694f6c1bed1fbc4c45111a20a38e3bd0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 42/88] fix: disk offload threads do not outlive their manager
 and loaders

---
 .../offload/disk_io/manager.py                | 86 +++++++++++--------
 .../offload/disk_io/prefetch_dataset.py       | 76 ++++++++++------
 2 files changed, 98 insertions(+), 64 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 1067e7b..6ac2044 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -133,6 +133,27 @@ class BufferPool:
             )
 
 
+def _write_worker(write_queue: queue.Queue) -> None:
+    """Background worker thread for writing chunks to disk.
+
+    Only the queued tasks refer to the disk I/O manager, so that an idle worker
+    does not keep it alive. The manager sends None to stop the worker.
+
+    Args:
+        write_queue: Queue of pairs of a manager and a write task.
+    """
+    while True:
+        item = write_queue.get()
+        if item is None:  # Shutdown signal
+            break
+        manager, write_task = item
+        try:
+            manager._run_write_task(write_task)
+        except Exception:
+            logger.exception("Write worker error")
+        del manager, write_task, item
+
+
 class ChunkedDiskIOManager:
     """Enhanced disk I/O manager with buffer pooling and async pipeline."""
 
@@ -198,7 +219,8 @@ class ChunkedDiskIOManager:
         # Start multiple write workers
         for i in range(num_write_workers):
             worker = threading.Thread(
-                target=self._write_worker,
+                target=_write_worker,
+                args=(self._write_queue,),
                 daemon=True,
                 name=f"DiskWriter-{i}",
             )
@@ -352,43 +374,32 @@ class ChunkedDiskIOManager:
         self.current_batch_range = (start_batch, end_batch)
         logger.info("Starting batch range [%s, %s)", start_batch, end_batch)
 
-    def _write_worker(self) -> None:
-        """Background worker thread for writing chunks to disk."""
-        while not self._shutdown:
-            try:
-                # Get write task from queue
-                write_task = self._write_queue.get(timeout=1.0)
-                if write_task is None:  # Shutdown signal
-                    break
-
-                data_type, chunk_id, tensor, batch_info, buffer = write_task
-
-                # Perform the write
-                try:
-                    self._write_chunk_tensor_sync(
-                        data_type,
-                        chunk_id,
-                        tensor,
-                        batch_info,
-                    )
+    def _run_write_task(self, write_task: tuple) -> None:
+        """Write one chunk in a worker thread.
 
-                    # Remove from pending writes
-                    with self._pending_writes_lock:
-                        self._pending_writes.discard((data_type, chunk_id))
+        Args:
+            write_task: The data type, chunk ID, tensor, batch metadata and
+                buffer of the chunk.
+        """
+        data_type, chunk_id, tensor, batch_info, buffer = write_task
 
-                finally:
-                    # Return buffer to pool if provided (for backward compatibility)
-                    if buffer is not None:
-                        pool = self._get_or_create_buffer_pool(data_type)
-                        pool.return_buffer(buffer)
+        try:
+            self._write_chunk_tensor_sync(
+                data_type,
+                chunk_id,
+                tensor,
+                batch_info,
+            )
 
-            except queue.Empty:
-                continue
-            except Exception:
-                logger.exception("Write worker error")
-                import traceback
+            # Remove from pending writes
+            with self._pending_writes_lock:
+                self._pending_writes.discard((data_type, chunk_id))
 
-                traceback.print_exc()
+        finally:
+            # Return buffer to pool if provided (for backward compatibility)
+            if buffer is not None:
+                pool = self._get_or_create_buffer_pool(data_type)
+                pool.return_buffer(buffer)
 
     def _write_chunk_tensor_sync(
         self,
@@ -569,13 +580,13 @@ class ChunkedDiskIOManager:
         write_task = (data_type, chunk_id, filled_tensor, batch_info_copy, None)
 
         try:
-            self._write_queue.put_nowait(write_task)
+            self._write_queue.put_nowait((self, write_task))
         except queue.Full:
             logger.debug(
                 "Write queue full, blocking on write for chunk %s",
                 chunk_id,
             )
-            self._write_queue.put(write_task)  # Block if queue is full
+            self._write_queue.put((self, write_task))  # Block if queue is full
 
     def store_ifvp(self, batch_idx: int, ifvp: list[torch.Tensor]) -> None:
         """Store IFVP directly in tensor format with async write.
@@ -1019,7 +1030,8 @@ class ChunkedDiskIOManager:
         if hasattr(self, "_write_workers"):
             # Wait for all workers to finish
             for worker in self._write_workers:
-                worker.join(timeout=2.0)
+                if worker is not threading.current_thread():
+                    worker.join(timeout=2.0)
 
         if hasattr(self, "executor"):
             # Flush remaining buffers
diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py b/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
index a777fcd..c0abd43 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
@@ -8,6 +8,7 @@ import pathlib
 import queue
 import threading
 import time
+import weakref
 from typing import TYPE_CHECKING, Any
 
 if TYPE_CHECKING:
@@ -32,6 +33,33 @@ def _lazy_import_memory_map() -> None:
             logger.warning("Failed to import ChunkedMemoryMapHandler")
 
 
+def _prefetch_worker(
+    dataset_ref: weakref.ref[AsyncPrefetchDataset],
+    stop: threading.Event,
+) -> None:
+    """Worker thread that prefetches chunks as long as the dataset is in use.
+
+    Args:
+        dataset_ref: Weak reference to the dataset.
+        stop: Event that ends the thread.
+    """
+    _lazy_import_memory_map()
+
+    while not stop.is_set():
+        dataset = dataset_ref()
+        if dataset is None:
+            break
+        try:
+            dataset._prefetch_step()
+        except Exception:
+            logger.exception("Prefetch worker error")
+            time.sleep(0.1)
+        del dataset
+
+        # Small sleep to avoid busy waiting
+        time.sleep(0.01)
+
+
 class AsyncPrefetchDataset(torch.utils.data.Dataset):
     """Dataset that asynchronously prefetches chunks ahead of time."""
 
@@ -138,7 +166,8 @@ class AsyncPrefetchDataset(torch.utils.data.Dataset):
     def _start_prefetch_thread(self) -> None:
         """Start the prefetch thread."""
         self._prefetch_thread = threading.Thread(
-            target=self._prefetch_worker,
+            target=_prefetch_worker,
+            args=(weakref.ref(self), self._stop_prefetch),
             daemon=True,
         )
         self._prefetch_thread.start()
@@ -199,35 +228,24 @@ class AsyncPrefetchDataset(torch.utils.data.Dataset):
 
         logger.debug("Prefetched chunk %s in %.3fs", idx, load_time)
 
-    def _prefetch_worker(self) -> None:
-        """Worker thread that prefetches chunks."""
-        _lazy_import_memory_map()
-
-        while not self._stop_prefetch.is_set():
-            try:
-                # Get current index
-                with self._idx_lock:
-                    current_idx = self._current_idx
-
-                # Determine which chunks to prefetch
-                prefetch_indices = self._get_prefetch_indices(current_idx)
-
-                # Prefetch chunks
-                for idx in prefetch_indices:
-                    if self._stop_prefetch.is_set():
-                        break
+    def _prefetch_step(self) -> None:
+        """Prefetch the chunks that are needed next."""
+        # Get current index
+        with self._idx_lock:
+            current_idx = self._current_idx
 
-                    try:
-                        self._load_and_cache_chunk(idx, current_idx)
-                    except Exception:
-                        logger.exception("Error prefetching chunk %s", idx)
+        # Determine which chunks to prefetch
+        prefetch_indices = self._get_prefetch_indices(current_idx)
 
-                # Small sleep to avoid busy waiting
-                time.sleep(0.01)
+        # Prefetch chunks
+        for idx in prefetch_indices:
+            if self._stop_prefetch.is_set():
+                break
 
+            try:
+                self._load_and_cache_chunk(idx, current_idx)
             except Exception:
-                logger.exception("Prefetch worker error")
-                time.sleep(0.1)
+                logger.exception("Error prefetching chunk %s", idx)
 
     def __len__(self) -> int:
         """Get the number of chunks in the dataset.
@@ -303,7 +321,11 @@ class AsyncPrefetchDataset(torch.utils.data.Dataset):
         """Clean up prefetch thread."""
         if hasattr(self, "_stop_prefetch"):
             self._stop_prefetch.set()
-        if hasattr(self, "_prefetch_thread") and self._prefetch_thread:
+        if (
+            hasattr(self, "_prefetch_thread")
+            and self._prefetch_thread
+            and self._prefetch_thread is not threading.current_thread()
+        ):
             self._prefetch_thread.join(timeout=1.0)
 
 
-- 
2.43.0


From a0714d75d8ee11f5d11b4479fd388e28d48fba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 43/88] fix: failed disk offload writes are reported, not
 waited for forever

---
 .../offload/disk_io/manager.py                | 52 +++++++++++++------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 6ac2044..69dd489 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -230,7 +230,9 @@ class ChunkedDiskIOManager:
         logger.info("Started %s write workers", num_write_workers)
 
         # Pending writes tracking
-        self._pending_writes = set()  # Track chunk_ids being written
+        # Number of writes under way for each (data_type, chunk_id)
+        self._pending_writes = defaultdict(int)
+        self._write_errors = []
         self._pending_writes_lock = threading.Lock()
 
         # Read cache for recently accessed chunks
@@ -391,11 +393,18 @@ class ChunkedDiskIOManager:
                 batch_info,
             )
 
-            # Remove from pending writes
+        except Exception as error:  # noqa: BLE001
+            # Reported by the next wait for the writes
             with self._pending_writes_lock:
-                self._pending_writes.discard((data_type, chunk_id))
+                self._write_errors.append(error)
 
         finally:
+            # Remove from pending writes
+            with self._pending_writes_lock:
+                self._pending_writes[data_type, chunk_id] -= 1
+                if self._pending_writes[data_type, chunk_id] == 0:
+                    del self._pending_writes[data_type, chunk_id]
+
             # Return buffer to pool if provided (for backward compatibility)
             if buffer is not None:
                 pool = self._get_or_create_buffer_pool(data_type)
@@ -574,7 +583,7 @@ class ChunkedDiskIOManager:
 
         # Mark as pending write
         with self._pending_writes_lock:
-            self._pending_writes.add((data_type, chunk_id))
+            self._pending_writes[data_type, chunk_id] += 1
 
         # Submit to write queue without the buffer (since we already returned it)
         write_task = (data_type, chunk_id, filled_tensor, batch_info_copy, None)
@@ -714,14 +723,27 @@ class ChunkedDiskIOManager:
             with self._buffer_locks[buffer_key]:
                 self._async_flush_chunk_buffer(buffer_key)
 
+        self.current_batch_range = None
+
         # Wait for all pending writes
+        self._wait_for_pending_writes()
+
+    def _wait_for_pending_writes(self) -> None:
+        """Wait for the pending writes.
+
+        Raises:
+            RuntimeError: If a write failed.
+        """
         while True:
             with self._pending_writes_lock:
                 if len(self._pending_writes) == 0:
+                    errors, self._write_errors = self._write_errors, []
                     break
             time.sleep(0.1)
 
-        self.current_batch_range = None
+        if errors:
+            msg = f"{len(errors)} chunks could not be written to {self.cache_dir}"
+            raise RuntimeError(msg) from errors[0]
 
     def _retrieve_batch_data_with_cache(  # noqa: PLR0912, PLR0914
         self,
@@ -952,7 +974,11 @@ class ChunkedDiskIOManager:
         return "grad" if data_type == "gradients" else data_type
 
     def wait_for_async_operations(self) -> None:  # noqa: ARG002
-        """Wait for all async operations to complete."""
+        """Wait for all async operations to complete.
+
+        Raises:
+            RuntimeError: If one of the operations failed.
+        """
         if self._shutdown:
             return  # Skip if we're shutting down
 
@@ -961,21 +987,17 @@ class ChunkedDiskIOManager:
             time.sleep(0.1)
 
         # Wait for pending writes
-        while True:
-            with self._pending_writes_lock:
-                if len(self._pending_writes) == 0:
-                    break
-            time.sleep(0.1)
+        self._wait_for_pending_writes()
 
         # Wait for other futures and collect errors
         # Using list comprehension to check futures without try-except in loop
+        futures, self.futures = self.futures, []
         errors = [
-            future for future in self.futures if not self._check_future_result(future)
+            future for future in futures if not self._check_future_result(future)
         ]
         if errors:
-            logger.warning("Some async operations failed: %s errors", len(errors))
-
-        self.futures = []
+            msg = f"Some async operations failed: {len(errors)} errors"
+            raise RuntimeError(msg) from errors[0].exception()
 
     @staticmethod
     def _check_future_result(future: Any) -> bool:  # noqa: ANN401
-- 
2.43.0


From 16455a68af159d0a5b3987048a1c228cbd6cef3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 44/88] fix: disk offload reads wait for pending writes

---
 dattri/algorithm/block_projected_if/offload/disk_io/manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 69dd489..14d6392 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -798,6 +798,9 @@ class ChunkedDiskIOManager:
                         batch_tensor = tensor[start_row:end_row]
                         return self._split_tensor_to_layers(batch_tensor)
 
+        # The chunk may still be on its way to the disk
+        self._wait_for_pending_writes()
+
         # Load from disk
         subdir = ChunkedDiskIOManager._get_chunk_subdir(data_type)
         chunk_path = str(pathlib.Path(self.cache_dir) / subdir)
-- 
2.43.0


From 1562c18e6eb9ee0f7a472f4967c21e706a82a76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 45/88] fix: unreadable disk offload chunks raise instead of
 being left out

---
 .../offload/disk_io/prefetch_dataset.py       | 85 ++++++++-----------
 1 file changed, 36 insertions(+), 49 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py b/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
index c0abd43..75c223c 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
@@ -131,33 +131,28 @@ class AsyncPrefetchDataset(torch.utils.data.Dataset):
         )
 
         for chunk_filename in chunk_files:
-            try:
-                # Load chunk metadata
-                metadata = ChunkedMemoryMapHandler.read_chunk_metadata(
-                    chunk_path,
-                    chunk_filename,
-                )
-
-                # Check if chunk contains batches in our range
-                if self.batch_range is not None:
-                    start_batch, end_batch = self.batch_range
-                    chunk_batches = [b["batch_idx"] for b in metadata["batches"]]
-
-                    # Skip chunks that don't overlap with our range
-                    if not any(start_batch <= idx < end_batch for idx in chunk_batches):
-                        continue
-
-                chunk_info.append(
-                    {
-                        "chunk_filename": chunk_filename,
-                        "chunk_path": chunk_path,
-                        "metadata": metadata,
-                    },
-                )
+            # Load chunk metadata
+            metadata = ChunkedMemoryMapHandler.read_chunk_metadata(
+                chunk_path,
+                chunk_filename,
+            )
 
-            except Exception:
-                logger.exception("Error loading chunk %s", chunk_filename)
-                continue
+            # Check if chunk contains batches in our range
+            if self.batch_range is not None:
+                start_batch, end_batch = self.batch_range
+                chunk_batches = [b["batch_idx"] for b in metadata["batches"]]
+
+                # Skip chunks that don't overlap with our range
+                if not any(start_batch <= idx < end_batch for idx in chunk_batches):
+                    continue
+
+            chunk_info.append(
+                {
+                    "chunk_filename": chunk_filename,
+                    "chunk_path": chunk_path,
+                    "metadata": metadata,
+                },
+            )
 
         # Sort by chunk filename for consistency
         chunk_info.sort(key=operator.itemgetter("chunk_filename"))
@@ -293,29 +288,21 @@ class AsyncPrefetchDataset(torch.utils.data.Dataset):
         chunk_path = chunk_info["chunk_path"]
 
         _lazy_import_memory_map()
-        try:
-            # Load chunk as tensor with batch mapping
-            (
-                tensor,
-                batch_mapping,
-            ) = ChunkedMemoryMapHandler.load_chunk_batch_range(
-                chunk_path,
-                chunk_filename,
-                self.batch_range,
-            )
-        except Exception:
-            logger.exception("Error loading chunk %s", chunk_filename)
-            # Return empty data on error
-            layer_dims = chunk_info["metadata"].get("layer_dims", [])
-            total_proj_dim = sum(layer_dims) if layer_dims else 0
-            empty_tensor = torch.empty(0, total_proj_dim)
-            return empty_tensor, {}
-        else:
-            # Add to cache for potential reuse
-            with self._cache_lock:
-                self._chunk_cache[idx] = (tensor, batch_mapping)
-
-            return tensor, batch_mapping
+        # Load chunk as tensor with batch mapping
+        (
+            tensor,
+            batch_mapping,
+        ) = ChunkedMemoryMapHandler.load_chunk_batch_range(
+            chunk_path,
+            chunk_filename,
+            self.batch_range,
+        )
+
+        # Add to cache for potential reuse
+        with self._cache_lock:
+            self._chunk_cache[idx] = (tensor, batch_mapping)
+
+        return tensor, batch_mapping
 
     def __del__(self) -> None:
         """Clean up prefetch thread."""
-- 
2.43.0


From 2131dc2170ed4c49c212c54037fdb2680873592e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 46/88] fix: disk offload stores batches larger than a chunk

---
 .../offload/disk_io/manager.py                | 54 ++++++++++++++-----
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
index 14d6392..749cfdd 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/manager.py
@@ -466,9 +466,6 @@ class ChunkedDiskIOManager:
             batch_idx: Index of the batch to store gradients for.
             gradients: List of gradient tensors to store.
             is_test: Whether these are test gradients (currently skipped).
-
-        Raises:
-            RuntimeError: If failed to get new buffer after overflow.
         """
         if is_test:
             return  # Skip test gradients for now
@@ -536,10 +533,7 @@ class ChunkedDiskIOManager:
                 self._async_flush_chunk_buffer(buffer_key)
 
                 # Get new buffer and retry
-                buffer = pool.get_buffer(timeout=5.0)
-                if buffer is None:
-                    msg = "Failed to get new buffer after overflow"
-                    raise RuntimeError(msg)
+                buffer = self._get_new_buffer(pool, batch_size)
                 self._chunk_buffers[buffer_key] = buffer
                 start_row = 0
                 end_row = batch_size
@@ -572,6 +566,11 @@ class ChunkedDiskIOManager:
         buffer = self._chunk_buffers.pop(buffer_key)
         data_type, chunk_id = buffer_key
 
+        if buffer.current_row == 0:
+            # Nothing to write
+            self._get_or_create_buffer_pool(data_type).return_buffer(buffer)
+            return
+
         # Clone the filled portion to a new tensor so we can return the buffer
         # immediately
         filled_tensor = buffer.tensor[: buffer.current_row].clone().contiguous()
@@ -597,15 +596,45 @@ class ChunkedDiskIOManager:
             )
             self._write_queue.put((self, write_task))  # Block if queue is full
 
+    def _get_new_buffer(self, pool: BufferPool, batch_size: int) -> ChunkBuffer:
+        """Get the buffer that follows a full one.
+
+        Args:
+            pool: Buffer pool of the data type.
+            batch_size: Number of samples of the next batch.
+
+        Returns:
+            ChunkBuffer: An empty buffer that holds the next batch.
+
+        Raises:
+            RuntimeError: If failed to get new buffer after overflow.
+        """
+        if batch_size > self.max_samples_per_chunk:
+            # A batch larger than a chunk is a chunk of its own
+            return ChunkBuffer(
+                tensor=torch.zeros(
+                    batch_size,
+                    self.total_proj_dim,
+                    dtype=torch.float32,
+                ),
+                batch_indices=[],
+                batch_info=[],
+                current_row=0,
+                buffer_id=-1,
+            )
+
+        buffer = pool.get_buffer(timeout=5.0)
+        if buffer is None:
+            msg = "Failed to get new buffer after overflow"
+            raise RuntimeError(msg)
+        return buffer
+
     def store_ifvp(self, batch_idx: int, ifvp: list[torch.Tensor]) -> None:
         """Store IFVP directly in tensor format with async write.
 
         Args:
             batch_idx: Index of the batch to store IFVP for.
             ifvp: List of IFVP tensors to store.
-
-        Raises:
-            RuntimeError: If failed to get new buffer after overflow.
         """
         self._ensure_layer_dims()
 
@@ -655,10 +684,7 @@ class ChunkedDiskIOManager:
 
             if end_row > self.max_samples_per_chunk:
                 self._async_flush_chunk_buffer(buffer_key)
-                buffer = pool.get_buffer(timeout=5.0)
-                if buffer is None:
-                    msg = "Failed to get new buffer after overflow"
-                    raise RuntimeError(msg)
+                buffer = self._get_new_buffer(pool, batch_size)
                 self._chunk_buffers[buffer_key] = buffer
                 start_row = 0
                 end_row = batch_size
-- 
2.43.0


From 303ae802fa9d408a96844fd687dfa9010c271997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:23 +0000
Subject: [PATCH 47/88] fix: loo_corr pairs each ground truth with the removed
 sample's scores

---
 dattri/metric/metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dattri/metric/metrics.py b/dattri/metric/metrics.py
index 93d1ecc..c08cdd8 100644
--- a/dattri/metric/metrics.py
+++ b/dattri/metric/metrics.py
@@ -101,7 +101,9 @@ def loo_corr(
             shape (num_test_samples,).
     """
     score = score.cpu()
-    gt_values, _ = ground_truth
+    gt_values, removed_indices = ground_truth
+    # The scores of the removed samples, in the order of the ground truth
+    score = score[removed_indices.long()]
     num_test_samples = score.shape[1]
 
     loo_corr = torch.stack(
-- 
2.43.0


From 53d76bbc587a7d935e5b6872214df9b601b46b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:23 +0000
Subject: [PATCH 48/88] fix: the leave-one-out ground truth loads the saved
 models

---
 dattri/metric/ground_truth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dattri/metric/ground_truth.py b/dattri/metric/ground_truth.py
index 85373bd..55d2452 100644
--- a/dattri/metric/ground_truth.py
+++ b/dattri/metric/ground_truth.py
@@ -84,7 +84,8 @@ def calculate_loo_ground_truth(
     model_indices = torch.empty(length_dir)
     for dir_cnt, model_file in enumerate(model_dirs_sorted):
         model_path = Path(retrain_dir) / model_file / "model_weights.pt"
-        model = torch.load(model_path)
+        # retrain_loo saves whole models, not only weights
+        model = torch.load(model_path, weights_only=False)
         # Calculate target function values.
         values = target_func(model, test_dataloader)
         loo_results[dir_cnt, :] = values
-- 
2.43.0


From e5adf36b1ccf324c77e64d4eb902c3a8289c2477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:23 +0000
Subject: [PATCH 49/88] fix: retrain_loo writes plain metadata

---
 dattri/model_util/retrain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dattri/model_util/retrain.py b/dattri/model_util/retrain.py
index 28f492d..8421eda 100644
--- a/dattri/model_util/retrain.py
+++ b/dattri/model_util/retrain.py
@@ -100,6 +100,7 @@ def retrain_loo(
     if indices is None:
         # If indices are not provided default to retrain with every data.
         indices = all_indices
+    indices = [int(index) for index in indices]
 
     metadata = {
         "mode": "loo",
@@ -125,7 +126,7 @@ def retrain_loo(
         # Call the user specified train_func.
         model = train_func(modified_dataloader, seed=seed, **kwargs)
         # Update the metadata.
-        metadata["map_index_dir"][index] = model_dir
+        metadata["map_index_dir"][index] = str(model_dir)
         torch.save(model, weights_dir)
 
     metadata_file = Path(path) / "metadata.yml"
-- 
2.43.0


From 1dd5734878c3f47d2c6d976cc8b96ebae2676d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:23 +0000
Subject: [PATCH 50/88] fix: retrain_lds records all subsets of a partitioned
 run

---
 dattri/model_util/retrain.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/dattri/model_util/retrain.py b/dattri/model_util/retrain.py
index 8421eda..147499b 100644
--- a/dattri/model_util/retrain.py
+++ b/dattri/model_util/retrain.py
@@ -230,7 +230,6 @@ def retrain_lds(
     data_length = len(dataloader.sampler)
     subset_length = int(data_length * subset_ratio)
 
-    subset_dir_map = {}
     rng = np.random.default_rng(seed)  # this can also handle seed=None
 
     # seed control
@@ -268,23 +267,18 @@ def retrain_lds(
             model_path.parent.mkdir(parents=True, exist_ok=True)
             torch.save(model.state_dict(), model_path)
 
-        # Save the subset directory
-        subset_dir_map[i] = str(path / str(i))
-
-    # Save metadata
-    if (
-        total_num_subsets == 0  # noqa: PLR1714
-        or (start_id + 1) * num_subsets == total_num_subsets
-    ):
+    # Save metadata with the last of the subsets
+    end_id = start_id + num_subsets
+    if total_num_subsets in {0, end_id}:
         # Create metadata to save
         metadata = {
             "mode": "lds",
             "data_length": data_length,
             "train_func": train_func.__name__,
-            "num_subsets": (start_id + 1) * num_subsets,
+            "num_subsets": end_id,
             "subset_ratio": subset_ratio,
             "num_runs_per_subset": num_runs_per_subset,
-            "subset_dir_map": subset_dir_map,
+            "subset_dir_map": {i: str(path / str(i)) for i in range(end_id)},
         }
         with (path / "metadata.yml").open("w") as f:
             yaml.safe_dump(metadata, f)
-- 
2.43.0


From bc8e3747e13b7d5396768843d9d32b163c215c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:23 +0000
Subject: [PATCH 51/88] fix: retraining uses the samples selected by the
 sampler

---
 dattri/model_util/retrain.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/dattri/model_util/retrain.py b/dattri/model_util/retrain.py
index 147499b..11af9af 100644
--- a/dattri/model_util/retrain.py
+++ b/dattri/model_util/retrain.py
@@ -21,6 +21,22 @@ from torch.utils.data import DataLoader, Subset
 from tqdm import tqdm
 
 
+def _sampled_indices(dataloader: DataLoader) -> List[int]:
+    """Get the dataset indices of the samples that a dataloader delivers.
+
+    Args:
+        dataloader (torch.utils.data.DataLoader): The dataloader.
+
+    Returns:
+        List[int]: The dataset index of each position in the sampler of the
+            dataloader. Samplers without `indices` deliver the whole dataset.
+    """
+    indices = getattr(dataloader.sampler, "indices", None)
+    if indices is None:
+        indices = range(len(dataloader.sampler))
+    return [int(index) for index in indices]
+
+
 def retrain_loo(
     train_func: Callable,
     dataloader: torch.utils.data.DataLoader,
@@ -97,6 +113,8 @@ def retrain_loo(
     else:
         all_indices = list(range(len(dataloader.dataset)))
 
+    sampled_indices = _sampled_indices(dataloader)
+
     if indices is None:
         # If indices are not provided default to retrain with every data.
         indices = all_indices
@@ -117,7 +135,10 @@ def retrain_loo(
             model_dir.mkdir(parents=True)
         # Create a subset of the dataset.
         weights_dir = Path(model_dir) / "model_weights.pt"
-        dataset_subset = Subset(dataloader.dataset, remaining_indices)
+        dataset_subset = Subset(
+            dataloader.dataset,
+            [sampled_indices[idx] for idx in remaining_indices],
+        )
         # Create a new DataLoader with this subset.
         modified_dataloader = DataLoader(
             dataset_subset,
@@ -228,6 +249,7 @@ def retrain_lds(
         path.mkdir(parents=True)
 
     data_length = len(dataloader.sampler)
+    sampled_indices = _sampled_indices(dataloader)
     subset_length = int(data_length * subset_ratio)
 
     rng = np.random.default_rng(seed)  # this can also handle seed=None
@@ -245,7 +267,10 @@ def retrain_lds(
             rng = np.random.default_rng(seed + i)
         indices = rng.choice(data_length, subset_length, replace=False)
         subset_dataloader = torch.utils.data.DataLoader(
-            dataset=torch.utils.data.Subset(dataloader.dataset, indices),
+            dataset=torch.utils.data.Subset(
+                dataloader.dataset,
+                [sampled_indices[idx] for idx in indices],
+            ),
             batch_size=dataloader.batch_size,
             shuffle=True,
         )
-- 
2.43.0


From 84ad21d24dae109f8a67952259551e764dce6bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:43 +0000
Subject: [PATCH 52/88] fix: brittleness tries the search space in increasing
 order

---
 dattri/metric/britteness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/metric/britteness.py b/dattri/metric/britteness.py
index 56437ef..057af29 100644
--- a/dattri/metric/britteness.py
+++ b/dattri/metric/britteness.py
@@ -50,7 +50,7 @@ def brittleness(
     """
     if search_space is None:
         search_space = list(range(0, 200, 20))
-    k_values = list(search_space)
+    k_values = sorted(search_space)
     if isinstance(scores, torch.Tensor):
         scores = scores.cpu().numpy() if scores.is_cuda else scores.numpy()
     sorted_indices = np.argsort(scores)[::-1]
-- 
2.43.0


From dd7971cc5ce3d36bc285c6998bcfb4c75058b3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:43 +0000
Subject: [PATCH 53/88] fix: brittleness removes the samples the scores belong
 to

---
 dattri/metric/britteness.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/dattri/metric/britteness.py b/dattri/metric/britteness.py
index 057af29..40b5e0c 100644
--- a/dattri/metric/britteness.py
+++ b/dattri/metric/britteness.py
@@ -53,7 +53,11 @@ def brittleness(
     k_values = sorted(search_space)
     if isinstance(scores, torch.Tensor):
         scores = scores.cpu().numpy() if scores.is_cuda else scores.numpy()
-    sorted_indices = np.argsort(scores)[::-1]
+    # Scores of a single test sample, by position in the sampler
+    sorted_positions = np.argsort(np.reshape(scores, -1))[::-1]
+    sampler = train_loader.sampler
+    sampled_indices = list(getattr(sampler, "indices", range(len(sampler))))
+    sorted_indices = [sampled_indices[position] for position in sorted_positions]
     for k in tqdm(
         k_values,
         desc="Calculating brittleness",
@@ -96,8 +100,15 @@ def check_if_flip(
         bool: True if prediction flips after data removal, otherwise False.
     """
     original_sampler = train_loader.sampler
-    original_indices = original_sampler.indices
-    remaining_indices = list(set(original_indices) - set(indices_to_remove))
+    original_indices = getattr(
+        original_sampler,
+        "indices",
+        range(len(original_sampler)),
+    )
+    removed_indices = {int(index) for index in indices_to_remove}
+    remaining_indices = [
+        int(index) for index in original_indices if int(index) not in removed_indices
+    ]
 
     new_train_loader = torch.utils.data.DataLoader(
         train_loader.dataset,
-- 
2.43.0


From e5bfe63ee460190c3f28dc2b67c1055a16ae1839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:43 +0000
Subject: [PATCH 54/88] fix: flip_label does not add labels to the label space

---
 dattri/benchmark/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dattri/benchmark/utils.py b/dattri/benchmark/utils.py
index 574f302..1f6adb7 100644
--- a/dattri/benchmark/utils.py
+++ b/dattri/benchmark/utils.py
@@ -26,10 +26,7 @@ def _random_flip(label: int, label_space: Set[int], rng: np.random.default_rng)
     Returns:
         int: The randomly selected label to replace the original one
     """
-    label_space.discard(label)
-    target_label = int(rng.choice(list(label_space)))
-    label_space.add(label)
-    return target_label
+    return int(rng.choice(list(label_space - {label})))
 
 
 def flip_label(
-- 
2.43.0


From 93ae3bc32ca3d5661f182f903b38c91231624a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:43 +0000
Subject: [PATCH 55/88] fix: flip_label accepts a label space given as a tensor

---
 dattri/benchmark/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dattri/benchmark/utils.py b/dattri/benchmark/utils.py
index 1f6adb7..1cb501d 100644
--- a/dattri/benchmark/utils.py
+++ b/dattri/benchmark/utils.py
@@ -53,6 +53,8 @@ def flip_label(
     """
     if label_space is None:
         label_space = np.unique(label)
+    elif isinstance(label_space, torch.Tensor):
+        label_space = label_space.cpu().numpy()
 
     label_space = set(label_space)
 
-- 
2.43.0


From e91de9635ff00a44a86ec47113294b0f84514bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:43 +0000
Subject: [PATCH 56/88] fix: flip_label accepts arrays and flips no label for
 small fractions

---
 dattri/benchmark/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dattri/benchmark/utils.py b/dattri/benchmark/utils.py
index 1cb501d..e27f6e7 100644
--- a/dattri/benchmark/utils.py
+++ b/dattri/benchmark/utils.py
@@ -68,13 +68,14 @@ def flip_label(
     # Generate a list of randomly sampled noisy (flipped) data from label space
     noisy_data = np.vectorize(
         lambda x: _random_flip(x, label_space, rng),
+        otypes=[np.int64],
     )(flipped_label[noise_index])
 
     if isinstance(flipped_label, torch.Tensor):
-        noisy_data = torch.tensor(noisy_data)
+        noisy_data = torch.tensor(noisy_data, dtype=flipped_label.dtype)
 
     # Flip the labels
-    flipped_label[noise_index] = noisy_data.long()
+    flipped_label[noise_index] = noisy_data
 
     return flipped_label, list(noise_index)
 
-- 
2.43.0


From 12a1620595298dc38e78d63034423e4402a841f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:43 +0000
Subject: [PATCH 57/88] fix: activate_dropout does not activate layers with a
 longer name

---
 dattri/model_util/dropout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/model_util/dropout.py b/dattri/model_util/dropout.py
index 5038542..8d547b1 100644
--- a/dattri/model_util/dropout.py
+++ b/dattri/model_util/dropout.py
@@ -50,9 +50,9 @@ def activate_dropout(
         # activate all dropout layers in given positions
         for name, module in model.named_modules():
             for layer_name in layer_positions:
-                # if the layer name (string) in name of modules,
+                # if the layer name is (a part of) the path of the module,
                 # then make dropout module in train mode
-                if layer_name in name:
+                if f".{layer_name}." in f".{name}.":
                     if module.__class__.__name__.startswith("Dropout"):
                         module.p = dropout_prob
                         module.train()
-- 
2.43.0


From 676f04c05de6ddfb03f9f7bf6c1a483df4697a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:43 +0000
Subject: [PATCH 58/88] fix: get_final_layer_io removes its hook when the model
 raises

---
 dattri/model_util/hook.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dattri/model_util/hook.py b/dattri/model_util/hook.py
index 19c0f92..d19b335 100644
--- a/dattri/model_util/hook.py
+++ b/dattri/model_util/hook.py
@@ -57,11 +57,12 @@ def get_final_layer_io(
     hook_handle = model_layer.register_forward_hook(_forward_hook)
 
     # perform a forward pass through the dataloader
-    with torch.no_grad():
-        for x, _ in dataloader:
-            _ = model(x.to(device))
-
-    hook_handle.remove()
+    try:
+        with torch.no_grad():
+            for x, _ in dataloader:
+                _ = model(x.to(device))
+    finally:
+        hook_handle.remove()
     return torch.cat(feature_list, dim=0).to(device), torch.cat(output_list, dim=0).to(
         device,
     )
-- 
2.43.0


From 197ee8a383687a6d27c267d1cef9a49694eae2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:13 +0000
Subject: [PATCH 59/88] fix: dattri_retrain offers the supported mnist_mlp
 setting

---
 dattri/script/dattri_retrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/script/dattri_retrain.py b/dattri/script/dattri_retrain.py
index ed18c3f..84ec556 100644
--- a/dattri/script/dattri_retrain.py
+++ b/dattri/script/dattri_retrain.py
@@ -32,7 +32,7 @@ from dattri.benchmark.datasets.mnist import (
 )
 from dattri.model_util.retrain import retrain_lds, retrain_loo
 
-SUPPORTED_MODELS = ["lr", "resnet18", "resnet9", "musictransformer"]
+SUPPORTED_MODELS = ["lr", "mlp", "resnet18", "resnet9", "musictransformer"]
 
 SUPPORTED_SETTINGS = {
     "mnist_lr": train_mnist_lr,
-- 
2.43.0


From 4457e6c16e1eeda002e10dbe306de84d0cf6d227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:13 +0000
Subject: [PATCH 60/88] fix: dattri_retrain leaves out only samples of the
 training subset

---
 dattri/script/dattri_retrain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/script/dattri_retrain.py b/dattri/script/dattri_retrain.py
index 84ec556..3e1c91d 100644
--- a/dattri/script/dattri_retrain.py
+++ b/dattri/script/dattri_retrain.py
@@ -198,9 +198,9 @@ def main() -> None:
     )
 
     if args.partition[1] is None:
-        args.partition[1] = len(dataset_train) if args.mode == "loo" else 100
+        args.partition[1] = len(train_loader.sampler) if args.mode == "loo" else 100
     if args.partition[2] is None:
-        args.partition[2] = len(dataset_train) if args.mode == "loo" else 100
+        args.partition[2] = len(train_loader.sampler) if args.mode == "loo" else 100
 
     if args.mode == "lds":
         kwargs = {}
-- 
2.43.0


From 6c7c621e63fc85ffa1027036f57494054380309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:13 +0000
Subject: [PATCH 61/88] fix: dattri_retrain_nanogpt saves below the caller's
 directory

---
 dattri/script/dattri_retrain_nanogpt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dattri/script/dattri_retrain_nanogpt.py b/dattri/script/dattri_retrain_nanogpt.py
index 1464f89..14947bd 100644
--- a/dattri/script/dattri_retrain_nanogpt.py
+++ b/dattri/script/dattri_retrain_nanogpt.py
@@ -53,6 +53,10 @@ def retrain(  # noqa:PLR0912
 
     import dattri
 
+    # Relative paths are those of the caller
+    config_path, dataset_path, save_path = (
+        Path(path).resolve() for path in (config_path, dataset_path, save_path)
+    )
     os.chdir(Path(dattri.__file__).parent / Path("benchmark/models/nanoGPT"))
     config = Path(config_path).read_text(encoding="utf-8").splitlines()
 
-- 
2.43.0


From 29e9635bc968f0a94d2f0e999098da12e7c22c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:13 +0000
Subject: [PATCH 62/88] fix: dattri_retrain_nanogpt starts with the requested
 seed

---
 dattri/script/dattri_retrain_nanogpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/script/dattri_retrain_nanogpt.py b/dattri/script/dattri_retrain_nanogpt.py
index 14947bd..ac5c74a 100644
--- a/dattri/script/dattri_retrain_nanogpt.py
+++ b/dattri/script/dattri_retrain_nanogpt.py
@@ -69,7 +69,7 @@ def retrain(  # noqa:PLR0912
     if subset_ratio > 1:
         error_message = "subset_ratio must smaller or equal to 1"
         raise ValueError(error_message)
-    seed = seed + start_id - 1
+    seed += start_id
     for i in range(start_id, end_id):
         modified_config = []
         for line in config:
-- 
2.43.0


From 776594454d353fa6621f5ae8b4061dc39e951348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:57 +0000
Subject: [PATCH 63/88] fix: dattri_retrain_nanogpt accepts file names with
 spaces and quotes

---
 dattri/script/dattri_retrain_nanogpt.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/dattri/script/dattri_retrain_nanogpt.py b/dattri/script/dattri_retrain_nanogpt.py
index ac5c74a..316751e 100644
--- a/dattri/script/dattri_retrain_nanogpt.py
+++ b/dattri/script/dattri_retrain_nanogpt.py
@@ -39,12 +39,10 @@ def retrain(  # noqa:PLR0912
         ValueError: If subset_ratio is negative or greater than 1.
     """
     if not Path.exists(Path(dataset_path) / "meta.pkl"):
+        command = ["python", str(Path(dataset_path) / "prepare.py")]
         if dataset_file is not None:
-            command = f"python {Path(dataset_path) / 'prepare.py'} \
-                        --data_file {dataset_file}"
-        else:
-            command = f"python {Path(dataset_path) / 'prepare.py'}"
-        subprocess.run(command, shell=True)
+            command += ["--data_file", str(dataset_file)]
+        subprocess.run(command)
 
     if only_download:
         info_msg = f"Dataset is downloaded to {dataset_path}. Exiting."
@@ -74,21 +72,20 @@ def retrain(  # noqa:PLR0912
         modified_config = []
         for line in config:
             if line.startswith("out_dir"):
-                modified_config.append(f"out_dir = '{save_path}/model_{i + 1}'\n")
+                modified_config.append(f"out_dir = {f'{save_path}/model_{i + 1}'!r}\n")
             elif line.startswith("seed"):
                 modified_config.append(f"seed = {seed}\n")
             elif line.startswith("subset_ratio"):
                 modified_config.append(f"subset_ratio = {subset_ratio}\n")
             elif line.startswith("dataset_path"):
-                modified_config.append(f"dataset_path = '{dataset_path}'\n")
+                modified_config.append(f"dataset_path = {str(dataset_path)!r}\n")
             else:
                 modified_config.append(line)
-        modified_config.append(f"dataset_path = '{dataset_path!s}'\n")
+        modified_config.append(f"dataset_path = {str(dataset_path)!r}\n")
 
         temp_config_path = Path(tempfile.mktemp())
         temp_config_path.write_text("\n".join(modified_config), encoding="utf-8")
-        command = f"python train.py {temp_config_path}"
-        subprocess.run(command, shell=True)
+        subprocess.run(["python", "train.py", str(temp_config_path)])
 
         temp_config_path.unlink()
         seed += 1
-- 
2.43.0


From 246adc64c63cb2037ff8c801d3cb76305294db94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:39 +0000
Subject: [PATCH 64/88] Revert the changes of flip_label: its path counts as a
 test path

---
 dattri/benchmark/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dattri/benchmark/utils.py b/dattri/benchmark/utils.py
index e27f6e7..574f302 100644
--- a/dattri/benchmark/utils.py
+++ b/dattri/benchmark/utils.py
@@ -26,7 +26,10 @@ def _random_flip(label: int, label_space: Set[int], rng: np.random.default_rng)
     Returns:
         int: The randomly selected label to replace the original one
     """
-    return int(rng.choice(list(label_space - {label})))
+    label_space.discard(label)
+    target_label = int(rng.choice(list(label_space)))
+    label_space.add(label)
+    return target_label
 
 
 def flip_label(
@@ -53,8 +56,6 @@ def flip_label(
     """
     if label_space is None:
         label_space = np.unique(label)
-    elif isinstance(label_space, torch.Tensor):
-        label_space = label_space.cpu().numpy()
 
     label_space = set(label_space)
 
@@ -68,14 +69,13 @@ def flip_label(
     # Generate a list of randomly sampled noisy (flipped) data from label space
     noisy_data = np.vectorize(
         lambda x: _random_flip(x, label_space, rng),
-        otypes=[np.int64],
     )(flipped_label[noise_index])
 
     if isinstance(flipped_label, torch.Tensor):
-        noisy_data = torch.tensor(noisy_data, dtype=flipped_label.dtype)
+        noisy_data = torch.tensor(noisy_data)
 
     # Flip the labels
-    flipped_label[noise_index] = noisy_data
+    flipped_label[noise_index] = noisy_data.long()
 
     return flipped_label, list(noise_index)
 
-- 
2.43.0


From e09d7e895c28adb3fc8d2ac06dff897a7908b0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 65/88] fix: rev-fwd HVP differentiates the argument of a
 negative argnums

---
 dattri/func/hessian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/func/hessian.py b/dattri/func/hessian.py
index b25ca1e..d97f911 100644
--- a/dattri/func/hessian.py
+++ b/dattri/func/hessian.py
@@ -124,7 +124,7 @@ def hvp(
             if len(x) > 1:
                 v_patched = []
                 for i in range(len(x)):
-                    if i != argnums:
+                    if i != argnums % len(x):
                         v_patched.append(_zeros_like(x[i]))
                     else:
                         v_patched.append(v)
@@ -225,7 +225,7 @@ def hvp_at_x(
             if len(x) > 1:
                 v_patched = []
                 for i in range(len(x)):
-                    if i != argnums:
+                    if i != argnums % len(x):
                         v_patched.append(_zeros_like(x[i]))
                     else:
                         v_patched.append(v)
-- 
2.43.0


From 277ea73a7f907bf783efe5baf3a15fa8987dc044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:30 +0000
Subject: [PATCH 66/88] fix: DVEmb removes its hooks when the loss function
 raises

---
 dattri/algorithm/dvemb.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index 3cd07f7..7cb31e2 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -500,19 +500,24 @@ class DVEmbAttributor:
         """
         handles, caches = self._register_factorization_hooks()
 
-        # Strict requirements on batch_data
-        batch_data_tensors = [d.to(self.device) for d in batch_data]
-        loss = self.task.original_loss_func(self.model, batch_data_tensors, self.device)
-        loss *= batch_data_tensors[0].shape[0]  # Scale loss by batch size
-        # The hooks see the gradients; the user's .grad fields are left alone
-        torch.autograd.grad(
-            loss,
-            [p for p in self.model.parameters() if p.requires_grad],
-            allow_unused=True,
-        )
-
-        for h in handles:
-            h.remove()
+        try:
+            # Strict requirements on batch_data
+            batch_data_tensors = [d.to(self.device) for d in batch_data]
+            loss = self.task.original_loss_func(
+                self.model,
+                batch_data_tensors,
+                self.device,
+            )
+            loss *= batch_data_tensors[0].shape[0]  # Scale loss by batch size
+            # The hooks see the gradients; the user's .grad fields are left alone
+            torch.autograd.grad(
+                loss,
+                [p for p in self.model.parameters() if p.requires_grad],
+                allow_unused=True,
+            )
+        finally:
+            for h in handles:
+                h.remove()
 
         return caches
 
-- 
2.43.0


From 2e7b5378206e75e7e034cc2eb90e7c9ad0983d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:30 +0000
Subject: [PATCH 67/88] fix: EK-FAC removes its hooks when caching raises

---
 dattri/algorithm/influence_function.py | 63 +++++++++++++-------------
 1 file changed, 32 insertions(+), 31 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 6216987..d15f122 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -999,38 +999,39 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             self.layer_cache[name] = (inputs, outputs)
 
         handles = []
-        for name in self.module_name:
-            # Once the model is forward once, the input and output of the layer
-            # in `module_name` will be stored in `self.layer_cache[name]`
-            mod = self.task.model.get_submodule(name)
-            handles.append(mod.register_forward_hook(_ekfac_hook))
-
-        func = partial(self.task.get_loss_func(), self.task.get_param()[0])
-        # 1. Use random batch to estimate covariance matrices S and A
-        cov_matrices = estimate_covariance(
-            func,
-            full_train_dataloader,
-            self.layer_cache,
-            max_iter,
-            device=self.device,
-        )
-
-        # 2. Calculate the eigenvalue decomposition of S and A
-        self.cached_q = estimate_eigenvector(cov_matrices)
-
-        # 3. Use random batch for eigenvalue correction
-        self.cached_lambdas = estimate_lambda(
-            func,
-            full_train_dataloader,
-            self.cached_q,
-            self.layer_cache,
-            max_iter,
-            device=self.device,
-        )
+        try:
+            for name in self.module_name:
+                # Once the model is forward once, the input and output of the layer
+                # in `module_name` will be stored in `self.layer_cache[name]`
+                mod = self.task.model.get_submodule(name)
+                handles.append(mod.register_forward_hook(_ekfac_hook))
+
+            func = partial(self.task.get_loss_func(), self.task.get_param()[0])
+            # 1. Use random batch to estimate covariance matrices S and A
+            cov_matrices = estimate_covariance(
+                func,
+                full_train_dataloader,
+                self.layer_cache,
+                max_iter,
+                device=self.device,
+            )
 
-        # Remove hooks after preprocessing the FIM
-        for handle in handles:
-            handle.remove()
+            # 2. Calculate the eigenvalue decomposition of S and A
+            self.cached_q = estimate_eigenvector(cov_matrices)
+
+            # 3. Use random batch for eigenvalue correction
+            self.cached_lambdas = estimate_lambda(
+                func,
+                full_train_dataloader,
+                self.cached_q,
+                self.layer_cache,
+                max_iter,
+                device=self.device,
+            )
+        finally:
+            # Remove hooks after preprocessing the FIM
+            for handle in handles:
+                handle.remove()
 
     def transform_test_rep(
         self,
-- 
2.43.0


From 1d1ed2e29e9dc22deb49636e561cea84dbebe471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:53 +0000
Subject: [PATCH 68/88] fix: block-projected attributors unhook the model when
 a call raises

---
 .../block_projected_if/block_projected_if.py  | 29 +++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 2b35e23..cf444bd 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -15,6 +15,7 @@ if TYPE_CHECKING:
 
     from dattri.task import AttributionTask
 
+import functools
 import logging
 
 import torch
@@ -35,6 +36,32 @@ from dattri.params.projection import GeneralProjectionParams
 logger = logging.getLogger(__name__)
 
 
+def _restore_model(method: Callable) -> Callable:
+    """Make a method that hooks the model restore it, even when it raises.
+
+    Args:
+        method: A method of BlockProjectedIFAttributor.
+
+    Returns:
+        The method, which removes the hooks it installed when it ends.
+    """
+
+    @functools.wraps(method)
+    def wrapper(
+        self: BlockProjectedIFAttributor,
+        *args: Any,
+        **kwargs: Any,
+    ) -> Any:
+        try:
+            return method(self, *args, **kwargs)
+        finally:
+            if self.hook_manager is not None:
+                self.hook_manager.remove_hooks()
+                self.hook_manager = None
+
+    return wrapper
+
+
 class BlockProjectedIFAttributor(BaseAttributor):
     """Block-Projected Influence Function Attributor.
 
@@ -205,6 +232,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
             if self.metadata.layer_dims is None:
                 self.metadata.set_layer_dims(self.layer_dims)
 
+    @_restore_model
     def cache(self, full_train_dataloader: DataLoader) -> None:  # noqa: PLR0912
         """Cache gradients and IFVP for the full training dataset.
 
@@ -856,6 +884,7 @@ class BlockProjectedIFAttributor(BaseAttributor):
             start_col = end_col
         return result
 
+    @_restore_model
     def _compute_gradients(
         self,
         dataloader: DataLoader,
-- 
2.43.0


From 6c21393a1cc278ac45d71421d09b555b2a02a966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:54 +0000
Subject: [PATCH 69/88] fix: block-projected attributors keep the gradients of
 the user's model

---
 dattri/algorithm/block_projected_if/block_projected_if.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index cf444bd..ccc37db 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -43,7 +43,8 @@ def _restore_model(method: Callable) -> Callable:
         method: A method of BlockProjectedIFAttributor.
 
     Returns:
-        The method, which removes the hooks it installed when it ends.
+        The method, which removes the hooks it installed and gives the
+        parameters their gradients back when it ends.
     """
 
     @functools.wraps(method)
@@ -52,9 +53,12 @@ def _restore_model(method: Callable) -> Callable:
         *args: Any,
         **kwargs: Any,
     ) -> Any:
+        grads = [(param, param.grad) for param in self.model.parameters()]
         try:
             return method(self, *args, **kwargs)
         finally:
+            for param, grad in grads:
+                param.grad = grad
             if self.hook_manager is not None:
                 self.hook_manager.remove_hooks()
                 self.hook_manager = None
-- 
2.43.0


From 71f431cb9461517aaff18e7743f7e747085ab26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:42 +0000
Subject: [PATCH 70/88] fix: block-projected attributors do not draw from
 torch's global generator

---
 dattri/algorithm/block_projected_if/offload/cpu.py               | 1 +
 .../block_projected_if/offload/disk_io/prefetch_dataset.py       | 1 +
 dattri/algorithm/block_projected_if/offload/memory.py            | 1 +
 3 files changed, 3 insertions(+)

diff --git a/dattri/algorithm/block_projected_if/offload/cpu.py b/dattri/algorithm/block_projected_if/offload/cpu.py
index 1aaa9ee..f917b02 100644
--- a/dattri/algorithm/block_projected_if/offload/cpu.py
+++ b/dattri/algorithm/block_projected_if/offload/cpu.py
@@ -318,6 +318,7 @@ class CPUOffloadManager(Offload):
             dataset,
             batch_size=batch_size,
             shuffle=False,
+            generator=torch.Generator(),  # not the global one
             pin_memory=pin_memory,
             collate_fn=collate_fn,
         )
diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py b/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
index 75c223c..dc6474a 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/prefetch_dataset.py
@@ -474,6 +474,7 @@ def create_tensor_dataloader(
         num_workers=0,  # Prefetching is handled by the dataset
         pin_memory=pin_memory,
         shuffle=False,
+        generator=torch.Generator(),  # not the global one
         collate_fn=async_collate_fn,
         persistent_workers=False,
     )
diff --git a/dattri/algorithm/block_projected_if/offload/memory.py b/dattri/algorithm/block_projected_if/offload/memory.py
index 4a82255..b2216aa 100644
--- a/dattri/algorithm/block_projected_if/offload/memory.py
+++ b/dattri/algorithm/block_projected_if/offload/memory.py
@@ -299,6 +299,7 @@ class MemoryOffloadManager(Offload):
             dataset,
             batch_size=batch_size,
             shuffle=False,
+            generator=torch.Generator(),  # not the global one
             collate_fn=collate_fn,
         )
 
-- 
2.43.0


From 500c14f323773ea2108b1d3d1e06abd3d6dbc23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 71/88] fix: EK-FAC does not accumulate gradients in the user's
 model

---
 dattri/algorithm/influence_function.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index d15f122..8e70872 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -1006,7 +1006,9 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
                 mod = self.task.model.get_submodule(name)
                 handles.append(mod.register_forward_hook(_ekfac_hook))
 
-            func = partial(self.task.get_loss_func(), self.task.get_param()[0])
+            # A detached copy collects the gradients, not the user's model
+            params = self.task.get_param()[0].detach().requires_grad_()
+            func = partial(self.task.get_loss_func(), params)
             # 1. Use random batch to estimate covariance matrices S and A
             cov_matrices = estimate_covariance(
                 func,
-- 
2.43.0


From 9b047a70836743af573b2671fed1a61443327ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 72/88] fix: BlockProjectedIFAttributor accepts layers that get
 no gradient

Layers the model does not use, and layers that are not linear (skipped with
a warning), made cache() fail on None.
---
 dattri/algorithm/block_projected_if/block_projected_if.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index ccc37db..0b2d451 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -293,7 +293,11 @@ class BlockProjectedIFAttributor(BaseAttributor):
 
             # Get projected gradients from hooks
             with torch.no_grad():
-                compressed_grads = self.hook_manager.get_compressed_grads()
+                # Layers without a gradient are stored without columns
+                compressed_grads = [
+                    torch.empty(0) if grad is None else grad
+                    for grad in self.hook_manager.get_compressed_grads()
+                ]
 
                 # Detect layer dimensions on first batch
                 batch_size = None
-- 
2.43.0


From 8ce2b1a4dd182e65eb273c54b09bc58a2e773455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:14 +0000
Subject: [PATCH 73/88] fix: DVEmb records every use of a layer and leaves the
 forward pass alone

A layer used twice was recorded with the input of one use and the gradient
of the other, a forward pass without gradients replaced the recorded inputs,
layers the model does not use made cache() fail, and in-place activations
raised because of the full backward hooks.
---
 dattri/algorithm/dvemb.py | 84 +++++++++++++++++++++++++--------------
 1 file changed, 54 insertions(+), 30 deletions(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index 7cb31e2..818c20f 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -222,47 +222,71 @@ class DVEmbAttributor:
         Returns:
             A tuple containing lists of handles and caches for the hooks.
         """
-        handles, caches = [], []
-        caches.extend(
-            [{"A": None, "B": None, "has_bias": False} for _ in self._linear_layers],
-        )  # A is input and B is pre-activation gradient
+        handles = []
+        # The (input, pre-activation gradient) pairs of every use of a layer that
+        # was backpropagated through
+        caches = [[] for _ in self._linear_layers]
 
         # Use saved_tensors_hooks instead
         # https://github.com/TRAIS-Lab/dattri/pull/193#discussion_r2683833611
         def fwd_hook(idx: int) -> Callable:
-            def _hook(
-                layer: nn.Module,
-                inputs: Tuple[Tensor, ...],
-                _output: Tensor,
-            ) -> None:
-                a = inputs[0].detach()
-                # Keep original dimensions (2D or 3D) for proper gradient computation
-                caches[idx]["A"] = a
-                caches[idx]["has_bias"] = layer.bias is not None
-
-            return _hook
-
-        def bwd_hook(idx: int) -> Callable:
             def _hook(
                 _layer: nn.Module,
-                _grad_inputs: Tuple[Tensor, ...],
-                grad_outputs: Tuple[Tensor, ...],
+                inputs: Tuple[Tensor, ...],
+                output: Tensor,
             ) -> None:
-                b = grad_outputs[0].detach()
+                if not output.requires_grad:
+                    return
                 # Keep original dimensions (2D or 3D) for proper gradient computation
-                caches[idx]["B"] = b
+                a = inputs[0].detach()
+                output.register_hook(
+                    lambda grad: caches[idx].append((a, grad.detach())),
+                )
 
             return _hook
 
         for i, layer in enumerate(self._linear_layers):
-            handles.extend(
-                [
-                    layer.register_forward_hook(fwd_hook(i)),
-                    layer.register_full_backward_hook(bwd_hook(i)),
-                ],
-            )
+            handles.append(layer.register_forward_hook(fwd_hook(i)))
         return handles, caches
 
+    def _collect_factors(
+        self,
+        caches: List[List[Tuple[Tensor, Tensor]]],
+        num_samples: int,
+    ) -> List[Dict[str, Tensor]]:
+        """Bring the recorded uses of each layer into one pair of factors.
+
+        Args:
+            caches: For each layer the recorded (input, gradient) pairs.
+            num_samples: The number of samples of the batch.
+
+        Returns:
+            A list of factor dictionaries for each linear layer. A is the input and
+            B the pre-activation gradient. Several uses of a layer are positions of
+            a sequence; a layer that is not used has zero factors.
+        """
+        factors = []
+        for layer, uses in zip(self._linear_layers, caches):
+            if not uses:
+                out_dim, in_dim = layer.weight.shape
+                uses = [  # noqa: PLW2901
+                    (
+                        layer.weight.new_zeros(num_samples, in_dim),
+                        layer.weight.new_zeros(num_samples, out_dim),
+                    ),
+                ]
+            a, b = uses[0]
+            if len(uses) > 1:
+                a, b = (
+                    torch.cat(
+                        [t if t.dim() > 2 else t.unsqueeze(1) for t in ts],  # noqa: PLR2004
+                        dim=1,
+                    )
+                    for ts in zip(*uses)
+                )
+            factors.append({"A": a, "B": b, "has_bias": layer.bias is not None})
+        return factors
+
     def cache_gradients(
         self,
         epoch: int,
@@ -396,9 +420,9 @@ class DVEmbAttributor:
         # but we need sum reduction for correct per-sample gradient factors.
         # backward hook captures B = dL/dy where L = mean(per_sample_losses).
         # We need B_sum = dL_sum/dy = N * B where L_sum = sum(per_sample_losses).
+        caches = self._collect_factors(caches, len(indices))
         for cache in caches:
-            if cache["B"] is not None:
-                cache["B"] *= len(indices)
+            cache["B"] = cache["B"] * len(indices)
 
         # Cache the gradient factors (with projection if configured)
         if self.projection_dim_per_layer is None:
@@ -519,7 +543,7 @@ class DVEmbAttributor:
             for h in handles:
                 h.remove()
 
-        return caches
+        return self._collect_factors(caches, batch_data_tensors[0].shape[0])
 
     def _reconstruct_gradients(  # noqa: PLR6301
         self,
-- 
2.43.0


From 74841bcb630d2506ca599aad13247f624585073a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:35 +0000
Subject: [PATCH 74/88] fix: get_final_layer_io keeps what the layer saw

An in-place operation after the layer changed the collected outputs.
---
 dattri/model_util/hook.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dattri/model_util/hook.py b/dattri/model_util/hook.py
index d19b335..11cb5c1 100644
--- a/dattri/model_util/hook.py
+++ b/dattri/model_util/hook.py
@@ -50,8 +50,8 @@ def get_final_layer_io(
             _input (Tuple): Input tensors to the module.
             output (Tensor): The output tensor of the module.
         """
-        feature_list.append(_input[0].detach())
-        output_list.append(output.detach())
+        feature_list.append(_input[0].detach().clone())
+        output_list.append(output.detach().clone())
 
     model_layer = getattr(model, final_linear_layer_name)
     hook_handle = model_layer.register_forward_hook(_forward_hook)
-- 
2.43.0


From 1d077e23f6aa16e2670a5a6c166c0804dae98d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:35 +0000
Subject: [PATCH 75/88] fix: EK-FAC curvature is right when layer outputs are
 changed in place

The gradient of the changed output was taken for that of the layer's output,
so models with in-place activations got a wrong curvature.
---
 dattri/algorithm/influence_function.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 8e70872..346c7b5 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -969,20 +969,26 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             module: torch.nn.Module,
             inputs: Union[Tensor, Tuple[Tensor]],
             outputs: Union[Tensor, Tuple[Tensor]],
-        ) -> None:
+        ) -> Union[Tensor, Tuple[Tensor]]:
             """Hook function for caching the inputs and outputs of a module.
 
             Args:
                 module (torch.nn.Module): The module to which the hook is registered.
                 inputs (Union[Tensor, Tuple[Tensor]]): The module input tensor(s).
                 outputs (Union[Tensor, Tuple[Tensor]]): The module output tensor(s).
+
+            Returns:
+                Union[Tensor, Tuple[Tensor]]: The outputs that the model goes on
+                    with. They are a copy, as the model may change them in place.
             """
             # Unpack tuple outputs if necessary
             if isinstance(inputs, tuple):
                 inputs = inputs[0]
 
             if isinstance(outputs, tuple):
-                outputs = outputs[0]
+                outputs, passed_on = outputs[0], (outputs[0].clone(), *outputs[1:])
+            else:
+                passed_on = outputs.clone()
 
             if module.bias is not None:
                 # Attach ones to the end of inputs
@@ -997,6 +1003,7 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             name = self.module_to_name[module]
             # Cache the inputs and outputs
             self.layer_cache[name] = (inputs, outputs)
+            return passed_on
 
         handles = []
         try:
-- 
2.43.0


From b2c66e1462f394e02b42b6deaf170eaf842901aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:30 +0000
Subject: [PATCH 76/88] fix: BlockProjectedIFAttributor handles layers that are
 used more than once

The input of a layer was overwritten by its next use, so the backward pass
of the first use failed. A layer that plays no part in a batch kept the
gradient of the batch before.
---
 .../algorithm/block_projected_if/core/hook.py | 31 +++++++++----------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/core/hook.py b/dattri/algorithm/block_projected_if/core/hook.py
index 71524bf..cb85b4d 100644
--- a/dattri/algorithm/block_projected_if/core/hook.py
+++ b/dattri/algorithm/block_projected_if/core/hook.py
@@ -64,7 +64,9 @@ class CompressedLinearBackward(Function):
         Raises:
             RuntimeError: If hook manager not found in registry
         """
-        ctx.save_for_backward(weight, bias)
+        # Each use of the layer keeps its own input for the backward pass, at its
+        # original dtype - will be cast during backward if needed
+        ctx.save_for_backward(tensor_input.detach(), weight, bias)
         ctx.hook_manager_id = hook_manager_id
         ctx.layer_idx = layer_idx
 
@@ -74,10 +76,6 @@ class CompressedLinearBackward(Function):
             msg = f"Hook manager {hook_manager_id} not found in registry"
             raise RuntimeError(msg)
 
-        # Store input for backward pass (centralized storage)
-        # Store at original dtype - will be cast during backward if needed
-        hook_manager.inputs[layer_idx] = tensor_input.detach()
-
         # Cast input to weight dtype for computation (handles mixed precision)
         # This mimics PyTorch's autocast behavior
         input_compute = (
@@ -110,7 +108,7 @@ class CompressedLinearBackward(Function):
         Raises:
             RuntimeError: If hook manager not found in registry
         """
-        weight, bias = ctx.saved_tensors
+        tensor_input, weight, bias = ctx.saved_tensors
         hook_manager_id = ctx.hook_manager_id
         layer_idx = ctx.layer_idx
 
@@ -120,9 +118,6 @@ class CompressedLinearBackward(Function):
             msg = f"Hook manager {hook_manager_id} not found in registry"
             raise RuntimeError(msg)
 
-        # Retrieve stored input
-        tensor_input = hook_manager.inputs[layer_idx]
-
         # Cast input to match grad_output dtype for mixed precision training
         # This ensures all operations in _compute_compressed_grad work correctly
         tensor_input = tensor_input.to(grad_output.dtype)
@@ -142,11 +137,12 @@ class CompressedLinearBackward(Function):
                 compressor=hook_manager.compressors[layer_idx],
             )
 
-            # Store compressed gradient in hook manager
-            hook_manager.compressed_grads[layer_idx] = compressed_grad
-
-            # Free input immediately
-            hook_manager.inputs[layer_idx] = None
+            # Store compressed gradient in hook manager; the gradient of a layer is
+            # the sum over its uses
+            earlier = hook_manager.compressed_grads[layer_idx]
+            hook_manager.compressed_grads[layer_idx] = (
+                compressed_grad if earlier is None else earlier + compressed_grad
+            )
 
         # Return gradients for tensors:
         # - grad_input: needed for backprop
@@ -245,7 +241,6 @@ class HookManager:
         # Centralized storage arrays
         self.forward_hooks = [None] * len(layer_names)
         self.compressed_grads = [None] * len(layer_names)
-        self.inputs = [None] * len(layer_names)
 
         # Unified compressors (handles all compression/decompression operations)
         self.compressors = [None] * len(layer_names)
@@ -360,12 +355,14 @@ class HookManager:
         self.hooks_enabled = False
 
     def get_compressed_grads(self) -> List[Tensor]:
-        """Get all captured compressed gradients.
+        """Get all captured compressed gradients and start over.
 
         Returns:
             List of compressed gradients for each hooked layer
         """
-        return self.compressed_grads
+        compressed_grads = self.compressed_grads
+        self.compressed_grads = [None] * len(self.layer_names)
+        return compressed_grads
 
     def remove_hooks(self) -> None:
         """Restore original forward methods and cleanup registry."""
-- 
2.43.0


From 90927e92c23f0ce2979af697ec7cef00f24da2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:35 +0000
Subject: [PATCH 77/88] fix: EK-FAC accepts layers that play no part in the
 loss

---
 dattri/algorithm/influence_function.py |  5 +++++
 dattri/func/fisher.py                  | 16 ++++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 346c7b5..24b3b5c 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -1101,6 +1101,11 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             else:
                 _v = layer_test_rep[name + ".weight"]
 
+            if name not in self.cached_lambdas:
+                # The model does not use this layer, its gradients are zero
+                ifvp[name] = torch.zeros_like(_v.flatten(start_dim=1))
+                continue
+
             _lambda = self.cached_lambdas[name]
             q_a, q_s = self.cached_q[name]
 
diff --git a/dattri/func/fisher.py b/dattri/func/fisher.py
index f990e2a..21243d4 100644
--- a/dattri/func/fisher.py
+++ b/dattri/func/fisher.py
@@ -236,6 +236,18 @@ def _random_batch_iterator(
         )
 
 
+def _output_grad(output: Tensor) -> Tensor:
+    """Get the gradient of a layer output, zero if the loss does not depend on it.
+
+    Args:
+        output (Tensor): The output of a layer.
+
+    Returns:
+        Tensor: The gradient.
+    """
+    return torch.zeros_like(output) if output.grad is None else output.grad
+
+
 def _update_covariance(
     curr_estimate: Dict[str, Tuple[torch.tensor]],
     layer_cache: Dict[str, Tuple[torch.tensor]],
@@ -277,7 +289,7 @@ def _update_covariance(
         batch_cov_a /= batch_samples
 
         # Calculate batch covariance matrix for S
-        ds_curr = s_curr_raw.grad
+        ds_curr = _output_grad(s_curr_raw)
 
         ds_curr_reshaped = ds_curr.reshape(-1, s_curr_raw.size(-1))
         batch_cov_s = ds_curr_reshaped.transpose(0, 1) @ ds_curr_reshaped
@@ -336,7 +348,7 @@ def _update_lambda(
         # Uniformly reshape the tensors into (batch_size, t, ...)
         # The t here is the sequence length or time steps for sequential input
         # t = 1 if the given input is not sequential
-        ds_curr = s_curr_raw.grad
+        ds_curr = _output_grad(s_curr_raw)
         if a_prev_raw.ndim == 2:  # noqa: PLR2004
             a_prev = a_prev_raw.unsqueeze(1)
             ds_curr = ds_curr.unsqueeze(1)
-- 
2.43.0


From 352d8500aec1f7b0526d1f63c674c878a3415c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:31 +0000
Subject: [PATCH 78/88] fix: RPS fine-tuning starts from any gradient size

---
 dattri/algorithm/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dattri/algorithm/utils.py b/dattri/algorithm/utils.py
index 88e421b..7cd97d2 100644
--- a/dattri/algorithm/utils.py
+++ b/dattri/algorithm/utils.py
@@ -127,7 +127,7 @@ def rps_finetune_theta(
     # depending on the number of classes
     y = torch.sigmoid(y) if init_theta.shape[0] == 1 else torch.softmax(y, dim=1)
 
-    min_loss = 10000.0
+    min_loss = float("inf")
     # define a trainable last layer
     theta = Variable(init_theta.to(device), requires_grad=True)
 
-- 
2.43.0


From d8718ee9f5193eae541e72d919fc5b392c0c14ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:36 +0000
Subject: [PATCH 79/88] fix: an unfinished metadata file does not break
 ensure_chunk_written

---
 .../algorithm/block_projected_if/offload/disk_io/memory_map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dattri/algorithm/block_projected_if/offload/disk_io/memory_map.py b/dattri/algorithm/block_projected_if/offload/disk_io/memory_map.py
index 36c90b7..9296fbb 100644
--- a/dattri/algorithm/block_projected_if/offload/disk_io/memory_map.py
+++ b/dattri/algorithm/block_projected_if/offload/disk_io/memory_map.py
@@ -415,7 +415,8 @@ class ChunkedMemoryMapHandler:
                     if actual_size >= expected_size:
                         return True
 
-                except OSError:
+                except (OSError, ValueError):
+                    # A metadata file that is being written is no JSON yet
                     pass
 
             time.sleep(0.1)
-- 
2.43.0


From c6c72f841a2a1a8492434e0b88e4f22d8c2c5890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:37 +0000
Subject: [PATCH 80/88] fix: DVEmb does not refer to the memory of the batches
 it caches

---
 dattri/algorithm/dvemb.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dattri/algorithm/dvemb.py b/dattri/algorithm/dvemb.py
index 818c20f..6cf7886 100644
--- a/dattri/algorithm/dvemb.py
+++ b/dattri/algorithm/dvemb.py
@@ -284,7 +284,10 @@ class DVEmbAttributor:
                     )
                     for ts in zip(*uses)
                 )
-            factors.append({"A": a, "B": b, "has_bias": layer.bias is not None})
+            # The input may be the memory of the batch, which the caller may reuse
+            factors.append(
+                {"A": a.clone(), "B": b, "has_bias": layer.bias is not None},
+            )
         return factors
 
     def cache_gradients(
@@ -435,7 +438,7 @@ class DVEmbAttributor:
             self.cached_gradients[epoch].append(projected_grads.cpu())
 
         self.learning_rates[epoch].append(learning_rate / len(indices))
-        self.data_indices[epoch].append(indices.cpu())
+        self.data_indices[epoch].append(indices.cpu().clone())
 
     def _calculate_full_gradients(
         self,
@@ -508,7 +511,7 @@ class DVEmbAttributor:
 
         self.cached_gradients[epoch].append(per_sample_grads.cpu())
         self.learning_rates[epoch].append(learning_rate / len(indices))
-        self.data_indices[epoch].append(indices.cpu())
+        self.data_indices[epoch].append(indices.cpu().clone())
 
     def _calculate_gradient_factors(
         self,
@@ -717,7 +720,7 @@ class DVEmbAttributor:
             self.cached_gradients[epoch].append(projected_grads.cpu())
 
         self.learning_rates[epoch].append(learning_rate / len(indices))
-        self.data_indices[epoch].append(indices.cpu())
+        self.data_indices[epoch].append(indices.cpu().clone())
 
     def clear_cache(self) -> None:
         """Clears cached gradients and factors to free memory."""
-- 
2.43.0


From f9a8e8926c4b92ff0f5441e3444a7f1f00fddfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:55 +0000
Subject: [PATCH 81/88] fix: a checkpoint that is the state of the model itself
 is not overwritten

---
 dattri/task.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/dattri/task.py b/dattri/task.py
index 6294816..0260150 100644
--- a/dattri/task.py
+++ b/dattri/task.py
@@ -6,8 +6,9 @@ from typing import TYPE_CHECKING
 
 if TYPE_CHECKING:
     from collections.abc import Callable
-    from typing import Dict, List, Optional, Tuple, Union
+    from typing import Any, Dict, List, Optional, Tuple, Union
 
+import copy
 import inspect
 from pathlib import PosixPath
 
@@ -128,6 +129,8 @@ class AttributionTask:
 
         if not isinstance(checkpoints, list):
             self.checkpoints = [checkpoints]
+        elif len(checkpoints) > 1:
+            self.checkpoints = [self._own_copy(c) for c in checkpoints]
         else:
             self.checkpoints = checkpoints
 
@@ -157,6 +160,30 @@ class AttributionTask:
             "ckpt_idx": None,
         }
 
+    def _own_copy(self, checkpoint: Any) -> Any:  # noqa: ANN401
+        """Copy a checkpoint that refers to the tensors of the model.
+
+        They would be overwritten when another checkpoint is loaded.
+
+        Args:
+            checkpoint (Any): One of the checkpoints of the task.
+
+        Returns:
+            Any: The checkpoint, or a copy of it if it is (part of) the state of
+                the model, as returned by `model.state_dict()`.
+        """
+        if not isinstance(checkpoint, dict):
+            return checkpoint
+        own = {
+            t.data_ptr() for t in (*self.model.parameters(), *self.model.buffers())
+        }
+        if any(
+            isinstance(t, torch.Tensor) and t.data_ptr() in own
+            for t in checkpoint.values()
+        ):
+            return copy.deepcopy(checkpoint)
+        return checkpoint
+
     def _load_checkpoints(self, ckpt_idx: int) -> None:
         """This method load the checkpoint at the specified index.
 
-- 
2.43.0


From 7eb8f197173606380c21ea3e9279118a6c70e390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:31 +0000
Subject: [PATCH 82/88] fix: a task reloads its checkpoint when the model was
 changed by others

---
 dattri/task.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/dattri/task.py b/dattri/task.py
index 0260150..f5a6e37 100644
--- a/dattri/task.py
+++ b/dattri/task.py
@@ -193,16 +193,33 @@ class AttributionTask:
         if (
             self.current_checkpoint_idx is None
             or self.current_checkpoint_idx != ckpt_idx
+            or self._loaded_state != self._model_state()
         ):
             self.model = self.checkpoints_load_func(
                 self.model,
                 self.checkpoints[ckpt_idx],
             )
             self.current_checkpoint_idx = ckpt_idx
+            self._loaded_state = self._model_state()
             self.named_parameters = {
                 k: p for k, p in self.model.named_parameters() if p.requires_grad
             }
 
+    def _model_state(self) -> Tuple[List[Tuple[int, int]], List[bool]]:
+        """What changes when others load, train or otherwise change the model.
+
+        The model may be shared with other tasks or with a training loop.
+
+        Returns:
+            Tuple[List[Tuple[int, int]], List[bool]]: The memory and the version of
+                every tensor of the model, and the mode of every module.
+        """
+        tensors = (*self.model.parameters(), *self.model.buffers())
+        return (
+            [(t.data_ptr(), -1 if t.is_inference() else t._version) for t in tensors],  # noqa: SLF001
+            [m.training for m in self.model.modules()],
+        )
+
     @staticmethod
     def _generate_param_layer_map(
         named_parameters: Dict[str, torch.Tensor],
-- 
2.43.0


From 738c67438558b0ba7748ef052836f2d5fa2ff89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:11 +0000
Subject: [PATCH 83/88] fix: RPS and block-projected attributors use the task's
 checkpoint when the model was changed by others

---
 .../algorithm/block_projected_if/block_projected_if.py |  3 +++
 dattri/algorithm/rps.py                                | 10 ++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/block_projected_if.py b/dattri/algorithm/block_projected_if/block_projected_if.py
index 0b2d451..646ff66 100644
--- a/dattri/algorithm/block_projected_if/block_projected_if.py
+++ b/dattri/algorithm/block_projected_if/block_projected_if.py
@@ -53,6 +53,9 @@ def _restore_model(method: Callable) -> Callable:
         *args: Any,
         **kwargs: Any,
     ) -> Any:
+        # The checkpoint is loaded again if the model was changed by others
+        self.task._load_checkpoints(0)
+        self.model = self.task.get_model().to(self.device)
         grads = [(param, param.grad) for param in self.model.parameters()]
         try:
             return method(self, *args, **kwargs)
diff --git a/dattri/algorithm/rps.py b/dattri/algorithm/rps.py
index df33fb2..022486f 100644
--- a/dattri/algorithm/rps.py
+++ b/dattri/algorithm/rps.py
@@ -59,8 +59,7 @@ class RPSAttributor(BaseAttributor):
         """
         self.task = task
         self.target_func = task.get_target_func(flatten=False)
-        self.model = task.get_model()
-        self.task.get_param(ckpt_idx=0)  # to load the checkpoint
+        self._load_checkpoint()
         self.final_linear_layer_name = final_linear_layer_name
         self.normalize_preactivate = normalize_preactivate
         self.l2_strength = l2_strength
@@ -68,6 +67,11 @@ class RPSAttributor(BaseAttributor):
         self.device = device
         self.full_train_dataloader = None
 
+    def _load_checkpoint(self) -> None:
+        """Load the checkpoint, also if the model was changed by others."""
+        self.task.get_param(ckpt_idx=0)
+        self.model = self.task.get_model()
+
     def cache(self, full_train_dataloader: DataLoader) -> None:
         """Cache the full dataset for fine-tuning.
 
@@ -77,6 +81,7 @@ class RPSAttributor(BaseAttributor):
                 fine-tuning.
         """
         self.full_train_dataloader = full_train_dataloader
+        self._load_checkpoint()
 
         # get intermediate outputs and predictions for full train dataset
         intermediate_x_train, y_pred_train = get_final_layer_io(
@@ -131,6 +136,7 @@ class RPSAttributor(BaseAttributor):
 
         _check_shuffle(train_dataloader)
         _check_shuffle(test_dataloader)
+        self._load_checkpoint()
 
         intermediate_x_train, y_pred_train = get_final_layer_io(
             self.model,
-- 
2.43.0


From a04880c9ec0f25f8fc3ecdf5598bf64650140ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:49 +0000
Subject: [PATCH 84/88] fix: functions of some layers use the model that was
 loaded last

---
 dattri/task.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dattri/task.py b/dattri/task.py
index f5a6e37..9d9d628 100644
--- a/dattri/task.py
+++ b/dattri/task.py
@@ -204,6 +204,9 @@ class AttributionTask:
             self.named_parameters = {
                 k: p for k, p in self.model.named_parameters() if p.requires_grad
             }
+            # Functions of some layers hold the other parameters of the model
+            self.grad_loss_func_kwargs = {}
+            self.grad_target_func_kwargs = {}
 
     def _model_state(self) -> Tuple[List[Tuple[int, int]], List[bool]]:
         """What changes when others load, train or otherwise change the model.
-- 
2.43.0


From 1955b73e567309f54f81f7df171ffc778ec42f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:15 +0000
Subject: [PATCH 85/88] fix: EK-FAC hooks the model that the loss function runs

---
 dattri/algorithm/influence_function.py | 15 +++++++++++----
 dattri/task.py                         |  2 ++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index 24b3b5c..c275251 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -1005,16 +1005,23 @@ class IFAttributorEKFAC(BaseInnerProductAttributor):
             self.layer_cache[name] = (inputs, outputs)
             return passed_on
 
+        # A detached copy collects the gradients, not the user's model
+        params = self.task.get_param()[0].detach().requires_grad_()
         handles = []
         try:
-            for name in self.module_name:
+            # The loss function runs the model it was defined with, or the one that
+            # a `checkpoints_load_func` has put in its place
+            self.module_to_name = {
+                model.get_submodule(name): name
+                for model in (self.task.original_model, self.task.model)
+                for name in self.module_name
+            }
+            self.layer_cache.clear()
+            for mod in self.module_to_name:
                 # Once the model is forward once, the input and output of the layer
                 # in `module_name` will be stored in `self.layer_cache[name]`
-                mod = self.task.model.get_submodule(name)
                 handles.append(mod.register_forward_hook(_ekfac_hook))
 
-            # A detached copy collects the gradients, not the user's model
-            params = self.task.get_param()[0].detach().requires_grad_()
             func = partial(self.task.get_loss_func(), params)
             # 1. Use random batch to estimate covariance matrices S and A
             cov_matrices = estimate_covariance(
diff --git a/dattri/task.py b/dattri/task.py
index 9d9d628..9f9ca6d 100644
--- a/dattri/task.py
+++ b/dattri/task.py
@@ -111,6 +111,8 @@ class AttributionTask:
                 ```.
         """
         self.model = model
+        # `checkpoints_load_func` may replace `self.model`
+        self.original_model = model
         if target_func is None:
             target_func = loss_func
 
-- 
2.43.0


From dd90d5d861b5a2c117b4667bb825893036cee04e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:28:52 +0000
Subject: [PATCH 86/88] fix: LDS ground truth reads the models of the given
 directory, also if it was moved

---
 dattri/metric/ground_truth.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dattri/metric/ground_truth.py b/dattri/metric/ground_truth.py
index 55d2452..3615878 100644
--- a/dattri/metric/ground_truth.py
+++ b/dattri/metric/ground_truth.py
@@ -174,12 +174,16 @@ def calculate_lds_ground_truth(
         metadata = yaml.safe_load(f)
     num_subsets = metadata["num_subsets"]
     num_runs_per_subset = metadata["num_runs_per_subset"]
-    subset_dir_map = metadata["subset_dir_map"]
+    # The subsets of this directory, also if it was moved after the retraining
+    subset_dir_map = {
+        i: retrain_dir / Path(subset_dir).name
+        for i, subset_dir in metadata["subset_dir_map"].items()
+    }
 
     # Load the indices of the training samples for each subset.
     indices = []
     for i in range(num_subsets):
-        with Path.open(Path(subset_dir_map[i]) / "indices.txt", "r") as f:
+        with Path.open(subset_dir_map[i] / "indices.txt", "r") as f:
             indices.append([int(idx) for idx in f.read().splitlines()])
     indices = torch.tensor(indices)
 
@@ -187,7 +191,7 @@ def calculate_lds_ground_truth(
     target_values = torch.zeros(num_subsets, len(test_dataloader.sampler))
     for i in range(num_subsets):
         for j in range(num_runs_per_subset):
-            ckpt_path = Path(subset_dir_map[i]) / f"model_weights_{j}.pt"
+            ckpt_path = subset_dir_map[i] / f"model_weights_{j}.pt"
             target_values[i] += target_func(ckpt_path, test_dataloader)
     target_values /= num_runs_per_subset
 
-- 
2.43.0


From 3abd40ed5762ebd2abf8faca5ea0dfab9d254cb8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:28:52 +0000
Subject: [PATCH 87/88] fix: block-projected compressors accept layer inputs
 that are not contiguous

---
 dattri/algorithm/block_projected_if/core/compressor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dattri/algorithm/block_projected_if/core/compressor.py b/dattri/algorithm/block_projected_if/core/compressor.py
index 0fe6d2c..8ef4aee 100644
--- a/dattri/algorithm/block_projected_if/core/compressor.py
+++ b/dattri/algorithm/block_projected_if/core/compressor.py
@@ -462,7 +462,9 @@ def _setup_linear_sparsifier(
             input_features = input_features.reshape(batch_size, seq_length, -1)
 
     # Sparsifiers are ALWAYS factorized
-    sample_comp_1 = torch.zeros_like(pre_activation.view(-1, pre_activation.shape[-1]))
+    sample_comp_1 = torch.zeros_like(
+        pre_activation.reshape(-1, pre_activation.shape[-1]),
+    )
 
     # For identity projection, use feature dimension instead of -1
     proj_dim_comp_1 = params.proj_dim
@@ -481,7 +483,9 @@ def _setup_linear_sparsifier(
         ),
     )
 
-    sample_comp_2 = torch.zeros_like(input_features.view(-1, input_features.shape[-1]))
+    sample_comp_2 = torch.zeros_like(
+        input_features.reshape(-1, input_features.shape[-1]),
+    )
 
     # For identity projection, use feature dimension instead of -1
     proj_dim_comp_2 = params.proj_dim
-- 
2.43.0


From f28e925dfbaf8652a0fd89bad568a9127570ae05 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:48:16 +0000
Subject: [PATCH 88/88] fix: the l-relative influence uses the gradient of the
 loss for its norm

sqrt(g_i^T H^-1 g_i) was computed with the gradient of the target function in
place of one g_i, so with a separate target function it was no norm, and could
be the square root of a negative number.
---
 dattri/algorithm/influence_function.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dattri/algorithm/influence_function.py b/dattri/algorithm/influence_function.py
index c275251..fde05c5 100644
--- a/dattri/algorithm/influence_function.py
+++ b/dattri/algorithm/influence_function.py
@@ -135,7 +135,7 @@ class IFAttributorExplicit(BaseInnerProductAttributor):
         self,
         ckpt_idx: int,
         train_batch_rep: torch.Tensor,
-        test_batch_rep: Optional[torch.Tensor] = None,
+        test_batch_rep: Optional[torch.Tensor] = None,  # noqa: ARG002
         relatif_method: Optional[str] = None,
     ) -> torch.Tensor:
         """Compute the denominator for the influence calculation.
@@ -164,7 +164,7 @@ class IFAttributorExplicit(BaseInnerProductAttributor):
 
         if relatif_method == "l":
             # g_i^T (H^-1 g_i)
-            val = (test_batch_rep * transformed).sum(dim=1).clamp_min(1e-12).sqrt()
+            val = (train_batch_rep * transformed).sum(dim=1).clamp_min(1e-12).sqrt()
         elif relatif_method == "theta":
             # ||H^-1 g_i||
             val = transformed.norm(dim=1).clamp_min(1e-12)
@@ -278,7 +278,7 @@ class IFAttributorCG(BaseInnerProductAttributor):
         self,
         ckpt_idx: int,
         train_batch_rep: torch.Tensor,
-        test_batch_rep: Optional[torch.Tensor] = None,
+        test_batch_rep: Optional[torch.Tensor] = None,  # noqa: ARG002
         relatif_method: Optional[str] = None,
     ) -> torch.Tensor:
         """Compute the denominator for the influence calculation.
@@ -307,7 +307,7 @@ class IFAttributorCG(BaseInnerProductAttributor):
 
         if relatif_method == "l":
             # g_i^T (H^-1 g_i)
-            val = (test_batch_rep * transformed).sum(dim=1).clamp_min(1e-12).sqrt()
+            val = (train_batch_rep * transformed).sum(dim=1).clamp_min(1e-12).sqrt()
         elif relatif_method == "theta":
             # ||H^-1 g_i||
             val = transformed.norm(dim=1).clamp_min(1e-12)
@@ -620,7 +620,7 @@ class IFAttributorLiSSA(BaseInnerProductAttributor):
         self,
         ckpt_idx: int,
         train_batch_rep: torch.Tensor,
-        test_batch_rep: Optional[torch.Tensor] = None,
+        test_batch_rep: Optional[torch.Tensor] = None,  # noqa: ARG002
         relatif_method: Optional[str] = None,
     ) -> torch.Tensor:
         """Compute the denominator for the influence calculation.
@@ -649,7 +649,7 @@ class IFAttributorLiSSA(BaseInnerProductAttributor):
 
         if relatif_method == "l":
             # g_i^T (H^-1 g_i)
-            val = (test_batch_rep * transformed).sum(dim=1).clamp_min(1e-12).sqrt()
+            val = (train_batch_rep * transformed).sum(dim=1).clamp_min(1e-12).sqrt()
         elif relatif_method == "theta":
             # ||H^-1 g_i||
             val = transformed.norm(dim=1).clamp_min(1e-12)
-- 
2.43.0

