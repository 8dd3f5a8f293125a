From 7b64dce45db4fb43d2dee451fd9bb67602747bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 01/43] fix: RetroactiveUnity ring-buffer index wraps at delay
 + 1

---
 continual/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 21dcc4f..79a7722 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -91,7 +91,7 @@ class RetroactiveUnity(Delay):
         buffer[index % (self.delay + 1)] = input
         new_index = index + 1
         if new_index > 0:
-            new_index = new_index % self.delay
+            new_index = new_index % (self.delay + 1)
 
         # Get output
         output = None
-- 
2.43.0


From ceddc9305e500e1fc5ca0e9814b1af8111a17387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:12 +0000
Subject: [PATCH 02/43] fix: dilated pooling wraps its ring buffer at the
 buffer length and reports the right receptive field

---
 continual/pooling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index 215a761..1a475a4 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -191,7 +191,7 @@ class _PoolNd(CoModule, nn.Module):
         buffer[index] = pooled_frame
 
         next_buffer = buffer  # .clone() if self.training else buffer.detach()
-        next_index = (index + 1) % self.kernel_size[0]
+        next_index = (index + 1) % len(buffer)
         next_stride_index = stride_index + 1
         if next_stride_index > 0:
             next_stride_index = next_stride_index % self.stride[0]
@@ -220,7 +220,7 @@ class _PoolNd(CoModule, nn.Module):
 
     @property
     def receptive_field(self) -> int:
-        return self.dilation[0] * self.kernel_size[0]
+        return self.dilation[0] * (self.kernel_size[0] - 1) + 1
 
 
 class AvgPool1d(nn.AvgPool1d, _PoolNd):
-- 
2.43.0


From fd45416efb8f2c91eeb1b1beb269354082d45dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:21 +0000
Subject: [PATCH 03/43] fix: max pooling fills temporal padding with -inf like
 torch.nn

---
 continual/pooling.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index 1a475a4..a924379 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -659,7 +659,7 @@ class MaxPool1d(nn.MaxPool1d, _PoolNd):
     @staticmethod
     def build_from(
         module: nn.MaxPool1d,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
         **kwargs,
     ) -> "MaxPool1d":
         return MaxPool1d(
@@ -749,7 +749,7 @@ class MaxPool2d(nn.MaxPool2d, _PoolNd):
         dilation: _size_2_t = 1,
         # return_indices: bool = False, # Not supported
         ceil_mode: bool = False,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
     ) -> None:
         self.kernel_size = _pair(kernel_size)
         self.stride = _pair(stride if (stride is not None) else kernel_size)
@@ -780,7 +780,7 @@ class MaxPool2d(nn.MaxPool2d, _PoolNd):
 
     @staticmethod
     def build_from(
-        module: nn.MaxPool2d, temporal_fill: PaddingMode = "zeros", **kwargs
+        module: nn.MaxPool2d, temporal_fill: PaddingMode = "neg_inf", **kwargs
     ) -> "MaxPool2d":
         return MaxPool2d(
             **{
@@ -873,7 +873,7 @@ class MaxPool3d(nn.MaxPool3d, _PoolNd):
         dilation: _size_3_t = 1,
         # return_indices: bool = False, # Not supported
         ceil_mode: bool = False,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
     ) -> None:
         self.kernel_size = _triple(kernel_size)
         self.stride = _triple(stride if (stride is not None) else kernel_size)
@@ -904,7 +904,7 @@ class MaxPool3d(nn.MaxPool3d, _PoolNd):
 
     @staticmethod
     def build_from(
-        module: nn.MaxPool3d, temporal_fill: PaddingMode = "zeros", **kwargs
+        module: nn.MaxPool3d, temporal_fill: PaddingMode = "neg_inf", **kwargs
     ) -> "MaxPool3d":
         return MaxPool3d(
             **{
-- 
2.43.0


From 1d3b9382e29d8a63c4320c1f7a649679917c16f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:30 +0000
Subject: [PATCH 04/43] fix: forward_steps(pad_end=True, update_state=False)
 pads from the state it computed

---
 continual/module.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index c64accf..ed48835 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -275,9 +275,8 @@ class CoModule(ABC):
 
         if pad_end:
             # Don't save state for the end-padding
-            opt_state = self.get_state()
-            if opt_state is not None:
-                state = _clone_first(opt_state)
+            if state is not None:
+                state = _clone_first(state)
 
             for t, i in enumerate(
                 [self._make_padding(input[:, :, -1]) for _ in range(self.padding[0])]
-- 
2.43.0


From ddfe6feb3bc7c5c0521cc741b7ab20f162ecbe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 05/43] fix: keep stride state of temporal-kernel-1
 convolutions between calls

---
 continual/conv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/continual/conv.py b/continual/conv.py
index 697d445..cd733b3 100644
--- a/continual/conv.py
+++ b/continual/conv.py
@@ -160,7 +160,8 @@ class _ConvCoNd(CoModule, _ConvNd):
         self.stride_index = torch.tensor(0)
 
     def get_state(self) -> Optional[State]:
-        if len(self.state_buffer) > 0:
+        # NB: The buffer is empty but not one-dimensional if kernel_size[0] == 1
+        if self.state_buffer.dim() > 1:
             return (self.state_buffer, self.state_index, self.stride_index)
         return None
 
-- 
2.43.0


From f5f36936fa7969951e2e80650ee66792677df9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 06/43] fix: continual attention honours update_state=False
 before initialisation and keeps earlier states intact

---
 continual/multihead_attention/mha_base.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/continual/multihead_attention/mha_base.py b/continual/multihead_attention/mha_base.py
index f65cf8c..ce0a623 100644
--- a/continual/multihead_attention/mha_base.py
+++ b/continual/multihead_attention/mha_base.py
@@ -11,10 +11,6 @@ from continual.module import CoModule
 State = List[Tensor]
 
 
-def _clone_state(state):
-    return [s.clone() if isinstance(s, torch.Tensor) else s for s in state]
-
-
 # Copy of torch.nn impl
 def multi_head_attention_forward_step(  # noqa: C901
     scaled_dot_product_attention_step: Callable,
@@ -418,7 +414,7 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
         )
         stride_index = prev_state[-1]
         if stride_index < 0:
-            stride_index += 1
+            stride_index = stride_index + 1
 
         new_state = (*new_state, stride_index)
 
@@ -460,9 +456,6 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
 
         tmp_state = self.get_state()
 
-        if not update_state and tmp_state:
-            backup_state = _clone_state(tmp_state)
-
         o, tmp_state = MultiheadAttentionBase._forward_step(
             self, query, key, value, tmp_state
         )
@@ -472,8 +465,6 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
 
         if update_state:
             self.set_state(tmp_state)
-        elif tmp_state is not None:
-            self.set_state(backup_state)
 
         return o
 
@@ -514,9 +505,6 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
 
         tmp_state = self.get_state()
 
-        if not update_state and tmp_state:
-            backup_state = _clone_state(tmp_state)
-
         T = query.shape[0]
         assert T == key.shape[0]
         assert T == value.shape[0]
@@ -531,13 +519,11 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
                     o = o.transpose(0, 1)
                 outs.append(o)
 
-        if update_state:
+        if update_state and tmp_state is not None:
             self.set_state(tmp_state)
-        elif backup_state is not None:
-            self.set_state(backup_state)
 
         if len(outs) == 0:
-            return o
+            return None
 
         o = torch.stack(outs, dim=int(self.batch_first))
 
-- 
2.43.0


From 19569556b4d303b5019010d9b655fbc262300897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:21 +0000
Subject: [PATCH 07/43] fix: SingleOutputMultiheadAttention.forward_steps
 output shape if batch_first is False

---
 continual/multihead_attention/single_output_mha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/multihead_attention/single_output_mha.py b/continual/multihead_attention/single_output_mha.py
index 819b09a..1739ab5 100644
--- a/continual/multihead_attention/single_output_mha.py
+++ b/continual/multihead_attention/single_output_mha.py
@@ -393,7 +393,7 @@ class SingleOutputMultiheadAttention(MultiheadAttentionBase):
         )
 
         if isinstance(o, Tensor):
-            o = o.squeeze(2)
+            o = o.squeeze(2 if self.batch_first else 1)
             if self.embed_dim_second:
                 o = o.transpose(1, 2)  # N T E -> N E T
 
-- 
2.43.0


From ca7fec9bd7932abc9ebea94e368cc7ac791d5620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:30 +0000
Subject: [PATCH 08/43] fix: continual attention steps use separate projections
 for kdim and vdim

---
 continual/multihead_attention/mha_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/continual/multihead_attention/mha_base.py b/continual/multihead_attention/mha_base.py
index ce0a623..e3ee1ce 100644
--- a/continual/multihead_attention/mha_base.py
+++ b/continual/multihead_attention/mha_base.py
@@ -411,6 +411,10 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
             self.out_proj.weight,
             self.out_proj.bias,
             training=self.training,
+            use_separate_proj_weight=not self._qkv_same_embed_dim,
+            q_proj_weight=self.q_proj_weight,
+            k_proj_weight=self.k_proj_weight,
+            v_proj_weight=self.v_proj_weight,
         )
         stride_index = prev_state[-1]
         if stride_index < 0:
-- 
2.43.0


From 04ef19b10d1ee7302128b10038c23b66f25fda64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 09/43] fix: call modes of integers and of copied modules

---
 continual/module.py                            | 18 ++++++++++++------
 .../multihead_attention/retroactive_mha.py     | 14 +++++++-------
 .../multihead_attention/single_output_mha.py   | 14 +++++++-------
 3 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index ed48835..e3d0796 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -50,10 +50,16 @@ def _callmode(cm) -> torch.Tensor:
     if isinstance(cm, str):
         cm = CALL_MODES[cm.lower()]
     elif isinstance(cm, int):
-        cm = torch.tensor(int)
+        cm = list(CALL_MODES.values())[cm]
     return cm
 
 
+def _callmode_name(cm) -> str:
+    """Name of a call mode. Tensors are hashed by identity and can't be used
+    for look-ups, as they may have been copied along with a module."""
+    return list(CALL_MODES)[int(_callmode(cm))]
+
+
 class _CallModeContext(object):
     """Context-manager which temporarily specifies a call_mode
 
@@ -345,11 +351,11 @@ class CoModule(ABC):
         """
         _call_mode = call_mode.cur if call_mode.prev is not None else self.call_mode
         forward_call = {
-            (True, _callmode("forward")): self._slow_forward,
-            (False, _callmode("forward")): self.forward,
-            (False, _callmode("forward_steps")): self.forward_steps,
-            (False, _callmode("forward_step")): self.forward_step,
-        }[(bool(torch._C._get_tracing_state()), _call_mode)]
+            (True, "forward"): self._slow_forward,
+            (False, "forward"): self.forward,
+            (False, "forward_steps"): self.forward_steps,
+            (False, "forward_step"): self.forward_step,
+        }[(bool(torch._C._get_tracing_state()), _callmode_name(_call_mode))]
 
         # If we don't have any hooks, we want to skip the rest of the logic in
         # this function, and just call forward.
diff --git a/continual/multihead_attention/retroactive_mha.py b/continual/multihead_attention/retroactive_mha.py
index 415f45b..d6952c5 100644
--- a/continual/multihead_attention/retroactive_mha.py
+++ b/continual/multihead_attention/retroactive_mha.py
@@ -6,7 +6,7 @@ import torch
 from torch import Tensor
 
 from continual.logging import getLogger
-from continual.module import _callmode
+from continual.module import _callmode_name
 
 from .mha_base import MultiheadAttentionBase, scaled_dot_prod_attn_flops
 
@@ -378,9 +378,9 @@ class RetroactiveMultiheadAttention(MultiheadAttentionBase):
 
         # Linear projection
         steps_taken = {
-            _callmode("forward"): self.sequence_len,
-            _callmode("forward_step"): 1,
-        }[self.call_mode]
+            "forward": self.sequence_len,
+            "forward_step": 1,
+        }[_callmode_name(self.call_mode)]
 
         f += (
             steps_taken
@@ -400,9 +400,9 @@ class RetroactiveMultiheadAttention(MultiheadAttentionBase):
 
         # Multi-head Scaled Dot-Product Attention
         f += self.num_heads * {
-            _callmode("forward"): scaled_dot_prod_attn_flops,
-            _callmode("forward_step"): retractive_scaled_dot_prod_attn_step_flops,
-        }[self.call_mode](
+            "forward": scaled_dot_prod_attn_flops,
+            "forward_step": retractive_scaled_dot_prod_attn_step_flops,
+        }[_callmode_name(self.call_mode)](
             self.sequence_len,
             self.embed_dim // self.num_heads,
             include_muls,
diff --git a/continual/multihead_attention/single_output_mha.py b/continual/multihead_attention/single_output_mha.py
index 1739ab5..29814d9 100644
--- a/continual/multihead_attention/single_output_mha.py
+++ b/continual/multihead_attention/single_output_mha.py
@@ -7,7 +7,7 @@ import torch.nn.functional as F
 from torch import Tensor
 
 from continual.logging import getLogger
-from continual.module import _callmode
+from continual.module import _callmode_name
 
 from .mha_base import MultiheadAttentionBase, scaled_dot_prod_attn_flops
 
@@ -404,11 +404,11 @@ class SingleOutputMultiheadAttention(MultiheadAttentionBase):
 
         # Linear projection
         steps_taken = {
-            _callmode("forward"): 1
+            "forward": 1
             if self.single_output_forward
             else self.sequence_len,
-            _callmode("forward_step"): 1,
-        }[self.call_mode]
+            "forward_step": 1,
+        }[_callmode_name(self.call_mode)]
 
         f += (
             steps_taken
@@ -427,11 +427,11 @@ class SingleOutputMultiheadAttention(MultiheadAttentionBase):
 
         # Multi-head Scaled Dot-Product Attention
         f += self.num_heads * {
-            _callmode("forward"): single_output_scaled_dot_prod_attn_flops
+            "forward": single_output_scaled_dot_prod_attn_flops
             if self.single_output_forward
             else scaled_dot_prod_attn_flops,
-            _callmode("forward_step"): single_output_scaled_dot_prod_attn_flops,
-        }[self.call_mode](
+            "forward_step": single_output_scaled_dot_prod_attn_flops,
+        }[_callmode_name(self.call_mode)](
             self.sequence_len,
             self.embed_dim // self.num_heads,
             include_muls,
-- 
2.43.0


From 1d6a8cc6f61845cb4a005c6ae4d8995ac7c95236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:47 +0000
Subject: [PATCH 10/43] fix: naively converted modules pass on keyword
 arguments and run hooks once in all call modes

---
 continual/convert.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/continual/convert.py b/continual/convert.py
index 8e80149..a10716c 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -11,7 +11,7 @@ from .container import Sequential
 from .conv import Conv1d, Conv2d, Conv3d
 from .linear import Linear
 from .logging import getLogger
-from .module import CoModule, _callmode, call_mode
+from .module import CoModule, _callmode, _callmode_name, call_mode
 from .pooling import (
     AdaptiveAvgPool2d,
     AdaptiveAvgPool3d,
@@ -105,9 +105,13 @@ def forward_stepping(module: nn.Module, dim: int = 2):
             if call_mode.prev is not None
             else getattr(module, "call_mode", _callmode("forward"))
         )
-        if _call_mode == _callmode("forward"):
-            return orig_forward(*args, *kwargs)
-        return CoModule._call_impl(module, *args, **kwargs)
+        # NB: Hooks are handled by torch.nn.Module.__call__
+        call = {
+            "forward": orig_forward,
+            "forward_steps": module.forward_steps,
+            "forward_step": module.forward_step,
+        }[_callmode_name(_call_mode)]
+        return call(*args, **kwargs)
 
     module.forward = forward_with_callmode
 
-- 
2.43.0


From a3082cecc92ff3e5537e30ac0069dbcf872db740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:55 +0000
Subject: [PATCH 11/43] fix: call_mode contexts can be nested

---
 continual/module.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index e3d0796..b383c99 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -1,6 +1,7 @@
 import functools
 import itertools
 from abc import ABC
+from contextlib import contextmanager
 from enum import Enum
 from typing import List, Optional, Tuple, Union
 
@@ -82,17 +83,14 @@ class _CallModeContext(object):
         self.cur = _callmode("forward")
         self.prev = None
 
+    @contextmanager
     def __call__(self, value: Union[str, int, torch.Tensor]):
-        self.prev = self.cur
-        self.cur = _callmode(value)
-        return self
-
-    def __enter__(self):
-        pass
-
-    def __exit__(self, *args, **kwargs):
-        self.cur = self.prev
-        self.prev = None
+        outer = (self.cur, self.prev)
+        self.cur, self.prev = _callmode(value), self.cur
+        try:
+            yield self
+        finally:
+            self.cur, self.prev = outer
 
 
 call_mode = _CallModeContext()
-- 
2.43.0


From 88b6af06c8a9510deac3546932a0997c1f9f7053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 12/43] fix: containers direct their children's call mode also
 inside a call_mode context

---
 continual/container.py | 30 ++++++++++++++++++++----------
 continual/module.py    | 10 ++++++++++
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 9960a5b..3ace241 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1,4 +1,5 @@
 from collections import OrderedDict, abc
+from contextlib import contextmanager
 from enum import Enum
 from functools import reduce, wraps
 from typing import Callable, List, Optional, Sequence, Tuple, TypeVar, Union, overload
@@ -8,7 +9,7 @@ from torch import Tensor, nn
 
 from .delay import Delay
 from .logging import getLogger
-from .module import CoModule, PaddingMode, _callmode
+from .module import CoModule, PaddingMode, _callmode, call_mode
 from .skip import Skip
 from .utils import (
     function_repr,
@@ -61,6 +62,15 @@ def apply_forward(module: CoModule, input: Tensor):
     return module(input)
 
 
+@contextmanager
+def child_call_mode(module: CoModule, mode: str):
+    """Let calls of a child module follow the method executed by its container,
+    also within a surrounding ``co.call_mode`` context"""
+    with call_mode.suspended():
+        with temporary_parameter(module, "call_mode", _callmode(mode)):
+            yield module
+
+
 def reduce_sum(inputs: Sequence[Tensor]) -> Tensor:
     assert len(inputs) >= 2
     return reduce(torch.Tensor.add, inputs[1:], inputs[0])
@@ -326,7 +336,7 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
     def forward_step(self, inputs: List[T], update_state=True) -> List[T]:
         outs = []
         for i, m in enumerate(self):
-            with temporary_parameter(m, "call_mode", _callmode("forward_step")):
+            with child_call_mode(m, "forward_step"):
                 outs.append(m(inputs[i], update_state=update_state))
         return outs
 
@@ -335,14 +345,14 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
     ) -> List[T]:
         outs = []
         for i, m in enumerate(self):
-            with temporary_parameter(m, "call_mode", _callmode("forward_steps")):
+            with child_call_mode(m, "forward_steps"):
                 outs.append(m(inputs[i], pad_end=pad_end, update_state=update_state))
         return outs
 
     def forward(self, inputs: List[T]) -> List[T]:
         outs = []
         for i, m in enumerate(self):
-            with temporary_parameter(m, "call_mode", _callmode("forward")):
+            with child_call_mode(m, "forward"):
                 outs.append(apply_forward(m, inputs[i]))
         return outs
 
@@ -632,14 +642,14 @@ class Sequential(FlattenableStateDict, CoModule, nn.Sequential):
 
     def forward(self, input):
         for m in self:
-            with temporary_parameter(m, "call_mode", _callmode("forward")):
+            with child_call_mode(m, "forward"):
                 input = apply_forward(m, input)
         return input
 
     def forward_step(self, input, update_state=True):
         for module in self:
             # ptflops only works when __call__ is triggered
-            with temporary_parameter(module, "call_mode", _callmode("forward_step")):
+            with child_call_mode(module, "forward_step"):
                 input = module(
                     input, update_state=update_state
                 )  # == module.forward_step
@@ -670,7 +680,7 @@ class Sequential(FlattenableStateDict, CoModule, nn.Sequential):
             if not type(input) in {Tensor, list} or len(input) == 0:
                 return None  # pragma: no cover
             # ptflops only works when __call__ is triggered
-            with temporary_parameter(m, "call_mode", _callmode("forward_steps")):
+            with child_call_mode(m, "forward_steps"):
                 # == m.forward_steps
                 input = m(input, pad_end=pad_end, update_state=update_state)
 
@@ -871,7 +881,7 @@ class BroadcastReduce(Sequential):
     def forward_step(self, input: Tensor, update_state=True) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", "forward_step"):
+            with child_call_mode(m, "forward_step"):
                 outs.append(m(input, update_state=update_state))  # == m.forward_step
         if all(isinstance(o, Tensor) for o in outs):
             return self.reduce(outs)
@@ -881,7 +891,7 @@ class BroadcastReduce(Sequential):
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", "forward_steps"):
+            with child_call_mode(m, "forward_steps"):
                 # m.forward_steps
                 outs.append(m(input, pad_end=pad_end, update_state=update_state))
 
@@ -890,7 +900,7 @@ class BroadcastReduce(Sequential):
     def forward(self, input: Tensor) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", "forward"):
+            with child_call_mode(m, "forward"):
                 outs.append(apply_forward(m, input))
 
         return self.reduce(outs)
diff --git a/continual/module.py b/continual/module.py
index b383c99..59d7b85 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -92,6 +92,16 @@ class _CallModeContext(object):
         finally:
             self.cur, self.prev = outer
 
+    @contextmanager
+    def suspended(self):
+        """Leave the choice of call_mode to the modules themselves"""
+        outer = (self.cur, self.prev)
+        self.cur, self.prev = _callmode("forward"), None
+        try:
+            yield self
+        finally:
+            self.cur, self.prev = outer
+
 
 call_mode = _CallModeContext()
 
-- 
2.43.0


From a32af157346528ed0dc9ef52656a52f447770f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:12 +0000
Subject: [PATCH 13/43] fix: temporary_parameter restores the value if the body
 raises

---
 continual/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/continual/utils.py b/continual/utils.py
index 0136b5e..fccdcae 100644
--- a/continual/utils.py
+++ b/continual/utils.py
@@ -50,12 +50,13 @@ def temporary_parameter(obj, attr: str, val):
 
     rsetattr(obj, attr, val)
 
-    yield obj
-
-    if do_del:
-        delattr(obj, attr)
-    else:
-        rsetattr(obj, attr, prev_val)
+    try:
+        yield obj
+    finally:
+        if do_del:
+            delattr(obj, attr)
+        else:
+            rsetattr(obj, attr, prev_val)
 
 
 class _FlatStateDict(object):
-- 
2.43.0


From 04dd0002d22690747e023a04862d54b5483f43a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:22 +0000
Subject: [PATCH 14/43] fix: flat_state_dict contexts can be nested

---
 continual/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/continual/utils.py b/continual/utils.py
index fccdcae..801f247 100644
--- a/continual/utils.py
+++ b/continual/utils.py
@@ -64,12 +64,14 @@ class _FlatStateDict(object):
 
     def __init__(self):
         self.flatten = False
+        self._outer = []
 
     def __enter__(self):
+        self._outer.append(self.flatten)
         self.flatten = True
 
     def __exit__(self, *args, **kwargs):
-        self.flatten = False
+        self.flatten = self._outer.pop()
 
 
 flat_state_dict = _FlatStateDict()
-- 
2.43.0


From 9bc9fd81cd75c9bf02b13c80ccbae14bdc13df57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:31 +0000
Subject: [PATCH 15/43] fix: Conditional passes on pad_end and update_state,
 returns the state of both branches, and calls its modules

---
 continual/container.py | 46 +++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 3ace241..69e06e4 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1049,35 +1049,43 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
             )
 
     def forward(self, input: Tensor) -> Tensor:
-        if self.predicate(self, input):
-            return apply_forward(self._modules["0"], input)
-        elif "1" in self._modules:
-            return apply_forward(self._modules["1"], input)
-        return input
+        module = self._select(input)
+        if module is None:
+            return input
+        with child_call_mode(module, "forward"):
+            return apply_forward(module, input)
 
     def forward_step(self, input: Tensor, update_state=True) -> Tensor:
-        if self.predicate(self, input):
-            return self._modules["0"].forward_step(input, update_state)
-        elif "1" in self._modules:
-            return self._modules["1"].forward_step(input, update_state)
-        return input
+        module = self._select(input)
+        if module is None:
+            return input
+        with child_call_mode(module, "forward_step"):
+            return module(input, update_state=update_state)
+
+    def _select(self, input: Tensor) -> Optional[CoModule]:
+        return self._modules.get("0" if self.predicate(self, input) else "1")
 
     def _forward_step(
         self, input: Tensor, prev_state: Optional[State] = None
     ) -> Tuple[Tensor, Optional[State]]:
-        prev_state = prev_state or [None, None]
+        prev_state = prev_state or [None for _ in self._modules]
+        next_state = list(prev_state)
         if self.predicate(self, input):
-            return self._modules["0"]._forward_step(input, prev_state[0])
+            input, next_state[0] = self._modules["0"]._forward_step(
+                input, prev_state=prev_state[0]
+            )
         elif "1" in self._modules:
-            return self._modules["1"]._forward_step(input, prev_state[1])
-        return input, prev_state
+            input, next_state[1] = self._modules["1"]._forward_step(
+                input, prev_state=prev_state[1]
+            )
+        return input, next_state
 
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
-        if self.predicate(self, input):
-            return self._modules["0"].forward_steps(input)
-        elif "1" in self._modules:
-            return self._modules["1"].forward_steps(input)
-        return input
+        module = self._select(input)
+        if module is None:
+            return input
+        with child_call_mode(module, "forward_steps"):
+            return module(input, pad_end=pad_end, update_state=update_state)
 
     @property
     def _state_shape(self):
-- 
2.43.0


From dedb03d51e9771f27ee15aa548cd20ca2b8d0e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 16/43] fix: Conditional cleans the state of its modules and
 reports their stride and padding

---
 continual/container.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/continual/container.py b/continual/container.py
index 69e06e4..97faa6c 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1103,5 +1103,17 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
     def receptive_field(self) -> int:
         return self._receptive_field
 
+    @property
+    def stride(self) -> Tuple[int]:
+        return getattr(self._modules["0"], "stride", (1,))
+
+    @property
+    def padding(self) -> Tuple[int]:
+        return (max(getattr(m, "padding", (0,))[0] for m in self._modules.values()),)
+
+    def clean_state(self):
+        for m in self._modules.values():
+            m.clean_state()
+
     def extra_repr(self):
         return f"predicate={function_repr(self.predicate)}"
-- 
2.43.0


From 5e3e41262bfb42f76b2ad38c65d9004a1c96637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:52 +0000
Subject: [PATCH 17/43] fix: containers implement get_state and set_state

---
 continual/container.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 97faa6c..beee0f2 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -142,6 +142,21 @@ class FlattenableStateDict:
         return load_state_dict(self, state_dict, strict, flatten)
 
 
+class ChildStates:
+    """Mixes in state handling for containers: Their state is the list of child states."""
+
+    def get_state(self) -> Optional[List]:
+        states = [m.get_state() for m in self.children()]
+        return states if any(s is not None for s in states) else None
+
+    def set_state(self, state: List):
+        for m, s in zip(self.children(), state):
+            if s is None:
+                m.clean_state()
+            else:
+                m.set_state(s)
+
+
 def co_add_module(self, name: str, module: Optional["nn.Module"]) -> None:
     if not CoModule.is_valid(module):
         # Attempt automatic conversion
@@ -212,7 +227,7 @@ class Broadcast(CoModule, nn.Module):
         return self.forward(input)
 
 
-class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
+class Parallel(FlattenableStateDict, ChildStates, CoModule, nn.Sequential):
     """Container for  executing modules in parallel.
     Modules will be added to it in the order they are passed in the
     constructor.
@@ -565,7 +580,7 @@ class Reduce(CoModule, nn.Module):
         return self.reduce(inputs)
 
 
-class Sequential(FlattenableStateDict, CoModule, nn.Sequential):
+class Sequential(FlattenableStateDict, ChildStates, CoModule, nn.Sequential):
     """A sequential container.
     This module is an augmentation of `torch.nn.Sequential`
     which adds continual inference methods
@@ -989,7 +1004,7 @@ def Residual(
     )
 
 
-class Conditional(FlattenableStateDict, CoModule, nn.Module):
+class Conditional(FlattenableStateDict, ChildStates, CoModule, nn.Module):
     """Module wrapper for conditional invocations at runtime.
 
     For instance, it can be used to apply a softmax if the module isn't training::
-- 
2.43.0


From f10ff7b11cffb565691cae5ac99e95304990a0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:02 +0000
Subject: [PATCH 18/43] fix: RecyclingPositionalEncoding implements get_state
 and set_state

---
 continual/positional_encoding.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/continual/positional_encoding.py b/continual/positional_encoding.py
index b55bfd5..27a870c 100644
--- a/continual/positional_encoding.py
+++ b/continual/positional_encoding.py
@@ -192,5 +192,11 @@ class RecyclingPositionalEncoding(co.CoModule, nn.Module):
         self.state_index = torch.tensor(0)
         return (self.state_index,)
 
+    def get_state(self) -> State:
+        return (self.state_index,)
+
+    def set_state(self, state: State):
+        self.state_index = state[0]
+
     def clean_state(self):
         self.state_index = torch.tensor(0)
-- 
2.43.0


From 87e34b40db88b407b2a5748ac342510552abecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:11 +0000
Subject: [PATCH 19/43] fix: Parallel skips streams that are still initialising

---
 continual/container.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/continual/container.py b/continual/container.py
index beee0f2..188eecd 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -343,6 +343,10 @@ class Parallel(FlattenableStateDict, ChildStates, CoModule, nn.Sequential):
         prev_state = prev_state or [None for _ in range(len(self))]
         outs, next_state = [], []
         for i, module in enumerate(self):
+            if inputs[i] is None:  # Preceding stream is still initialising
+                outs.append(None)
+                next_state.append(prev_state[i])
+                continue
             out, n_state = module._forward_step(inputs[i], prev_state=prev_state[i])
             outs.append(out)
             next_state.append(n_state)
@@ -351,6 +355,9 @@ class Parallel(FlattenableStateDict, ChildStates, CoModule, nn.Sequential):
     def forward_step(self, inputs: List[T], update_state=True) -> List[T]:
         outs = []
         for i, m in enumerate(self):
+            if inputs[i] is None:  # Preceding stream is still initialising
+                outs.append(None)
+                continue
             with child_call_mode(m, "forward_step"):
                 outs.append(m(inputs[i], update_state=update_state))
         return outs
@@ -360,6 +367,9 @@ class Parallel(FlattenableStateDict, ChildStates, CoModule, nn.Sequential):
     ) -> List[T]:
         outs = []
         for i, m in enumerate(self):
+            if inputs[i] is None:  # Preceding stream is still initialising
+                outs.append(None)
+                continue
             with child_call_mode(m, "forward_steps"):
                 outs.append(m(inputs[i], pad_end=pad_end, update_state=update_state))
         return outs
-- 
2.43.0


From 9c0bb645a749f0daece1a80b29d819aa363240cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:20 +0000
Subject: [PATCH 20/43] fix: Delay with centered shrink aligns in forward_steps
 and shrinking delays do not flush at the end

---
 continual/delay.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/continual/delay.py b/continual/delay.py
index 69aea83..515aaf8 100644
--- a/continual/delay.py
+++ b/continual/delay.py
@@ -70,7 +70,7 @@ class Delay(CoModule, torch.nn.Module):
         state_buffer = torch.stack([padding for _ in range(self.delay)], dim=0)
         state_index = torch.tensor(
             -2 * self.delay
-            if self.auto_shrink and isinstance(self.auto_shrink, bool)
+            if self.auto_shrink in {True, "centered"}
             else -self.delay
         )
         return state_buffer, state_index
@@ -120,7 +120,9 @@ class Delay(CoModule, torch.nn.Module):
         if self._delay == 0:
             return input
 
-        with temporary_parameter(self, "padding", (self.delay,)):
+        # If shrinking, there is nothing to flush at the end
+        end_padding = 0 if self.auto_shrink else self.delay
+        with temporary_parameter(self, "padding", (end_padding,)):
             output = CoModule.forward_steps(self, input, pad_end, update_state)
 
         return output
-- 
2.43.0


From c8cbae0f68077f3eaceaaeeffb3fd69eb34c8b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 21/43] fix: RetroactiveUnity has no end-padding

---
 continual/transformer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/continual/transformer.py b/continual/transformer.py
index 79a7722..ef7ac75 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -108,6 +108,10 @@ class RetroactiveUnity(Delay):
 
         return output, (buffer, new_index)
 
+    def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
+        # There is no end-padding: Each output already holds all cached values
+        return Delay.forward_steps(self, input, False, update_state)
+
 
 class RetroactiveLambda(Lambda):
     """
-- 
2.43.0


From 173289f9d5f2c0bf18605b5e2db7a34197ef8b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:36 +0000
Subject: [PATCH 22/43] fix: converting a naively converted module again is the
 identity

---
 continual/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/convert.py b/continual/convert.py
index a10716c..81951f9 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -228,7 +228,7 @@ def continual(module: nn.Module) -> CoModule:
         ))
 
     """
-    if isinstance(module, CoModule):
+    if isinstance(module, CoModule) or CoModule.is_valid(module):
         return module
 
     if type(module) in NAIVE_MAPPING:
-- 
2.43.0


From fcc443281f8378a0ab5bd9694023c92c3472188e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:45 +0000
Subject: [PATCH 23/43] fix: nn.Dropout1d can be converted as documented

---
 continual/convert.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/continual/convert.py b/continual/convert.py
index 81951f9..c6ec941 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -158,6 +158,7 @@ NAIVE_MAPPING = {
     nn.GroupNorm,
     # >> Dropout modules
     nn.Dropout,
+    nn.Dropout1d,
     nn.Dropout2d,
     nn.Dropout3d,
     nn.AlphaDropout,
-- 
2.43.0


From fcdd95b5851aaf261cac600999be04b5c298e376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:54 +0000
Subject: [PATCH 24/43] fix: converted convolutions keep device and dtype

---
 continual/conv.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/continual/conv.py b/continual/conv.py
index cd733b3..8a23a6f 100644
--- a/continual/conv.py
+++ b/continual/conv.py
@@ -418,6 +418,8 @@ class Conv1d(_ConvCoNd):
                     groups=module.groups,
                     bias=module.bias is not None,
                     padding_mode=module.padding_mode,
+                    device=module.weight.device,
+                    dtype=module.weight.dtype,
                     temporal_fill=temporal_fill or module.padding_mode,
                 ),
                 **kwargs,
@@ -518,6 +520,8 @@ class Conv2d(_ConvCoNd):
                     groups=module.groups,
                     bias=module.bias is not None,
                     padding_mode=module.padding_mode,
+                    device=module.weight.device,
+                    dtype=module.weight.dtype,
                     temporal_fill=temporal_fill or module.padding_mode,
                 ),
                 **kwargs,
@@ -618,6 +622,8 @@ class Conv3d(_ConvCoNd):
                     groups=module.groups,
                     bias=module.bias is not None,
                     padding_mode=module.padding_mode,
+                    device=module.weight.device,
+                    dtype=module.weight.dtype,
                     temporal_fill=temporal_fill or module.padding_mode,
                 ),
                 **kwargs,
-- 
2.43.0


From 05c348c966bc462ed6c010c3ae1227c3957cae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:04 +0000
Subject: [PATCH 25/43] fix: transformer layers use gelu if requested

---
 continual/transformer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index ef7ac75..ceb8b28 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -248,7 +248,9 @@ def SingleOutputTransformerEncoderLayer(
                 ),
                 (
                     "activation",
-                    activation,
+                    activation
+                    if isinstance(activation, nn.Module)
+                    else Lambda(activation, takes_time=True),
                 ),
                 (
                     "dropout",
@@ -476,7 +478,7 @@ def TransformerEncoderLayerFactory(
     if activation in {"relu", "gelu"}:
         activation = {
             "relu": nn.functional.relu,
-            "gelu": nn.functional.relu,
+            "gelu": nn.functional.gelu,
         }[activation]
 
     def TransformerEncoderLayer(mha_type: MhaType):
-- 
2.43.0


From eb77e6b1370affe5ddeb21143a48861d204e6986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:13 +0000
Subject: [PATCH 26/43] fix: reject conversions of unsupported norm_first and
 bidirectional modules

---
 continual/rnn.py         | 3 +++
 continual/transformer.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/continual/rnn.py b/continual/rnn.py
index 905cc51..3bef279 100644
--- a/continual/rnn.py
+++ b/continual/rnn.py
@@ -154,6 +154,7 @@ class RNN(CoModule, nn.RNN):
 
     @staticmethod
     def build_from(module: nn.RNN, **kwargs) -> "RNN":
+        assert not module.bidirectional, "`bidirectional == True` is not supported"
         comodule = RNN(
             **{
                 **dict(
@@ -370,6 +371,7 @@ class GRU(CoModule, nn.GRU):
 
     @staticmethod
     def build_from(module: nn.GRU, **kwargs) -> "GRU":
+        assert not module.bidirectional, "`bidirectional == True` is not supported"
         comodule = GRU(
             **{
                 **dict(
@@ -626,6 +628,7 @@ class LSTM(CoModule, nn.LSTM):
 
     @staticmethod
     def build_from(module: nn.LSTM, **kwargs) -> "LSTM":
+        assert not module.bidirectional, "`bidirectional == True` is not supported"
         comodule = LSTM(
             **{
                 **dict(
diff --git a/continual/transformer.py b/continual/transformer.py
index ceb8b28..d1fc727 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -588,6 +588,7 @@ class TransformerEncoder(Sequential):
 
         # Create model
         tel = trans_enc.layers[0]
+        assert not tel.norm_first, "`norm_first == True` is not supported"
         layer_factory = TransformerEncoderLayerFactory(
             d_model=tel.self_attn.embed_dim,
             nhead=tel.self_attn.num_heads,
-- 
2.43.0


From b8e75c09b79d6e2ead74f760394a813ad9571c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:21 +0000
Subject: [PATCH 27/43] fix: converted modules keep the training mode

---
 continual/convert.py     | 7 ++++++-
 continual/transformer.py | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/continual/convert.py b/continual/convert.py
index c6ec941..42efc1c 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -248,7 +248,12 @@ def continual(module: nn.Module) -> CoModule:
         co.convert.register(MyTorchModule, MyContinualModule)
         """
     )
-    return MODULE_MAPPING[type(module)].build_from(module)
+    comodule = MODULE_MAPPING[type(module)].build_from(module)
+    if isinstance(module, nn.Sequential):
+        comodule.training = module.training  # Children have their own
+    elif isinstance(module, nn.Module):
+        comodule.train(module.training)
+    return comodule
 
 
 # Register modules with our conversion system
diff --git a/continual/transformer.py b/continual/transformer.py
index d1fc727..21512fe 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -640,4 +640,4 @@ class TransformerEncoder(Sequential):
 
         net.load_state_dict(new_sd)
 
-        return net
+        return net.train(trans_enc.training)
-- 
2.43.0


From 1a6fdae19283906ddd83d2a2b524f3c7b6676dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:30 +0000
Subject: [PATCH 28/43] fix: auto-delay of strided parallel modules counts
 input steps

---
 continual/container.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 188eecd..39996a5 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -157,6 +157,13 @@ class ChildStates:
                 m.set_state(s)
 
 
+def add_delay(module: CoModule, delay: int) -> "Sequential":
+    if num_from(getattr(module, "stride", 1)) > 1:
+        # The delay is given in input steps, which are only available before the module
+        return Sequential(Delay(delay), module)
+    return Sequential(module, Delay(delay))
+
+
 def co_add_module(self, name: str, module: Optional["nn.Module"]) -> None:
     if not CoModule.is_valid(module):
         # Attempt automatic conversion
@@ -300,7 +307,7 @@ class Parallel(FlattenableStateDict, ChildStates, CoModule, nn.Sequential):
                 (
                     key,
                     (
-                        Sequential(module, Delay(max_delay - module.delay))
+                        add_delay(module, max_delay - module.delay)
                         if module.delay < max_delay
                         else module
                     ),
@@ -848,7 +855,7 @@ class BroadcastReduce(Sequential):
                 (
                     key,
                     (
-                        Sequential(module, Delay(max_delay - module.delay))
+                        add_delay(module, max_delay - module.delay)
                         if module.delay < max_delay
                         else module
                     ),
-- 
2.43.0


From c356a14378c98b0711ec1ede3a69a5b6b8c77164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:39 +0000
Subject: [PATCH 29/43] fix: warm_up uses the dtype of the module

---
 continual/module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/continual/module.py b/continual/module.py
index 59d7b85..4d4a48d 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -336,7 +336,9 @@ class CoModule(ABC):
             step_shape (Sequence[int]): input shape with which to warm the model up, including batch size.
         """
         step_shape = (*step_shape[:2], self.delay, *step_shape[2:])
-        dummy = self._make_padding(torch.zeros(step_shape, dtype=torch.float))
+        param = next(getattr(self, "parameters", lambda: iter(()))(), None)
+        dtype = torch.float if param is None else param.dtype
+        dummy = self._make_padding(torch.zeros(step_shape, dtype=dtype))
         self.forward_steps(dummy)
 
     @property
-- 
2.43.0


From 3319a0584f783b3be89cf0ff38c516ed36a97d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 30/43] fix: nested calls of containers don't disturb call_mode
 contexts of other threads

---
 continual/module.py | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index 4d4a48d..29b649f 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -1,5 +1,6 @@
 import functools
 import itertools
+import threading
 from abc import ABC
 from contextlib import contextmanager
 from enum import Enum
@@ -80,27 +81,47 @@ class _CallModeContext(object):
     """
 
     def __init__(self):
-        self.cur = _callmode("forward")
-        self.prev = None
+        self._shared = (_callmode("forward"), None)
+        self._local = threading.local()  # Has "modes" within containers only
+
+    @property
+    def _modes(self):
+        return getattr(self._local, "modes", self._shared)
+
+    @property
+    def cur(self) -> torch.Tensor:
+        return self._modes[0]
+
+    @property
+    def prev(self) -> Optional[torch.Tensor]:
+        return self._modes[1]
 
     @contextmanager
     def __call__(self, value: Union[str, int, torch.Tensor]):
-        outer = (self.cur, self.prev)
-        self.cur, self.prev = _callmode(value), self.cur
+        holder, key = (
+            (self._local, "modes")
+            if hasattr(self._local, "modes")
+            else (self, "_shared")
+        )
+        outer = getattr(holder, key)
+        setattr(holder, key, (_callmode(value), outer[0]))
         try:
             yield self
         finally:
-            self.cur, self.prev = outer
+            setattr(holder, key, outer)
 
     @contextmanager
     def suspended(self):
-        """Leave the choice of call_mode to the modules themselves"""
-        outer = (self.cur, self.prev)
-        self.cur, self.prev = _callmode("forward"), None
+        """Leave the choice of call_mode to the modules themselves (in this thread)"""
+        outer = getattr(self._local, "modes", None)
+        self._local.modes = (_callmode("forward"), None)
         try:
             yield self
         finally:
-            self.cur, self.prev = outer
+            if outer is None:
+                del self._local.modes
+            else:
+                self._local.modes = outer
 
 
 call_mode = _CallModeContext()
-- 
2.43.0


From 4b6dd1dc25f8969dc0394cc099faf206c61d3263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:03 +0000
Subject: [PATCH 31/43] fix: SingleOutputTransformerEncoderLayer delays its
 residual to the query position

---
 continual/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 21512fe..4827ac0 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -276,7 +276,7 @@ def SingleOutputTransformerEncoderLayer(
                         "residual",
                         SelectOrDelay(mha.delay)
                         if single_output_forward
-                        else Identity(),
+                        else (Delay(mha.delay) if mha.delay > 0 else Identity()),
                     ),
                     (
                         "self_attn",
-- 
2.43.0


From d2d3390ded157afb97761be7ae892e01b7e7765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:46 +0000
Subject: [PATCH 32/43] fix: containers restore the call modes of all members
 after a call

---
 continual/container.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 39996a5..fe846f0 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -16,7 +16,6 @@ from .utils import (
     load_state_dict,
     num_from,
     state_dict,
-    temporary_parameter,
 )
 
 logger = getLogger(__name__)
@@ -66,9 +65,15 @@ def apply_forward(module: CoModule, input: Tensor):
 def child_call_mode(module: CoModule, mode: str):
     """Let calls of a child module follow the method executed by its container,
     also within a surrounding ``co.call_mode`` context"""
+    # Setting the call_mode of a container sets that of its members as well
+    own = [(m, m.call_mode) for m in module.modules() if hasattr(m, "call_mode")]
     with call_mode.suspended():
-        with temporary_parameter(module, "call_mode", _callmode(mode)):
+        try:
+            module.call_mode = _callmode(mode)
             yield module
+        finally:
+            for m, prev in own:
+                m.call_mode = prev
 
 
 def reduce_sum(inputs: Sequence[Tensor]) -> Tensor:
-- 
2.43.0


From e39a8c634d53d7c26f61b2e4c9a7b20b3e851e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:15 +0000
Subject: [PATCH 33/43] fix: convolutions with string padding are refused

---
 continual/conv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/continual/conv.py b/continual/conv.py
index 8a23a6f..9c9639d 100644
--- a/continual/conv.py
+++ b/continual/conv.py
@@ -65,6 +65,8 @@ class _ConvCoNd(CoModule, _ConvNd):
             ConvClass, _ConvNd
         ), "The ConvClass should be a subclass of `_ConvNd`"
 
+        assert not isinstance(padding, str), "String padding is not supported."
+
         kernel_size = size_fn(kernel_size)
         padding = size_fn(padding)
         stride = size_fn(stride)
-- 
2.43.0


From eec534c837657e78a9445d81299e85851042298b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:28 +0000
Subject: [PATCH 34/43] fix: conversion of max pooling that returns indices is
 refused

---
 continual/pooling.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/continual/pooling.py b/continual/pooling.py
index a924379..1e76672 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -662,6 +662,7 @@ class MaxPool1d(nn.MaxPool1d, _PoolNd):
         temporal_fill: PaddingMode = "neg_inf",
         **kwargs,
     ) -> "MaxPool1d":
+        assert not module.return_indices, "`return_indices == True` is not supported."
         return MaxPool1d(
             **{
                 **dict(
@@ -782,6 +783,7 @@ class MaxPool2d(nn.MaxPool2d, _PoolNd):
     def build_from(
         module: nn.MaxPool2d, temporal_fill: PaddingMode = "neg_inf", **kwargs
     ) -> "MaxPool2d":
+        assert not module.return_indices, "`return_indices == True` is not supported."
         return MaxPool2d(
             **{
                 **dict(
@@ -906,6 +908,7 @@ class MaxPool3d(nn.MaxPool3d, _PoolNd):
     def build_from(
         module: nn.MaxPool3d, temporal_fill: PaddingMode = "neg_inf", **kwargs
     ) -> "MaxPool3d":
+        assert not module.return_indices, "`return_indices == True` is not supported."
         return MaxPool3d(
             **{
                 **dict(
@@ -1142,6 +1145,7 @@ class AdaptiveMaxPool2d(nn.AdaptiveMaxPool2d, _PoolNd):
         temporal_fill: PaddingMode = "zeros",
         output_size: _size_2_t = None,
     ) -> "AdaptiveMaxPool2d":
+        assert not module.return_indices, "`return_indices == True` is not supported."
         return AdaptiveMaxPool2d(
             output_size=output_size or module.output_size,
             kernel_size=kernel_size,
@@ -1221,6 +1225,7 @@ class AdaptiveMaxPool3d(nn.AdaptiveMaxPool3d, _PoolNd):
         temporal_fill: PaddingMode = "zeros",
         output_size: _size_3_t = None,
     ) -> "AdaptiveMaxPool3d":
+        assert not module.return_indices, "`return_indices == True` is not supported."
         return AdaptiveMaxPool3d(
             output_size=output_size or module.output_size,
             kernel_size=kernel_size,
-- 
2.43.0


From 0380bfe29a7784c0735a7f34746f0df8599bc5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:26 +0000
Subject: [PATCH 35/43] fix: exported states have the dynamic axis at their
 batch dimension

---
 continual/conv.py    | 4 ++--
 continual/delay.py   | 2 +-
 continual/module.py  | 3 ++-
 continual/onnx.py    | 9 +++++++--
 continual/pooling.py | 2 +-
 continual/rnn.py     | 6 +++---
 6 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/continual/conv.py b/continual/conv.py
index 9c9639d..ecaaed5 100644
--- a/continual/conv.py
+++ b/continual/conv.py
@@ -136,11 +136,11 @@ class _ConvCoNd(CoModule, _ConvNd):
             return 3
 
     @property
-    def _dynamic_state_inds(self) -> List[bool]:
+    def _dynamic_state_inds(self) -> List[int]:
         if self._stateless:
             return []
         else:
-            return [True, False, False]
+            return [1, -1, -1]  # (time, batch, ...)
 
     def init_state(
         self,
diff --git a/continual/delay.py b/continual/delay.py
index 515aaf8..294ddb2 100644
--- a/continual/delay.py
+++ b/continual/delay.py
@@ -41,7 +41,7 @@ class Delay(CoModule, torch.nn.Module):
 
     @property
     def _dynamic_state_inds(self):
-        return [True, False] if self.delay > 0 else []
+        return [1, -1] if self.delay > 0 else []  # (time, batch, ...)
 
     def __init__(
         self,
diff --git a/continual/module.py b/continual/module.py
index 29b649f..7a9238e 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -151,7 +151,8 @@ class CoModule(ABC):
     padding: Tuple[int, ...] = (0,)
     _make_padding = torch.zeros_like
     _state_shape: int = 0
-    _dynamic_state_inds: List[bool] = []
+    # Batch dimension of each state (True: 0, False or -1: None)
+    _dynamic_state_inds: List[Union[bool, int]] = []
     _call_mode = _callmode("forward")
 
     def __init_subclass__(cls) -> None:
diff --git a/continual/onnx.py b/continual/onnx.py
index fb5d37d..a7c32bb 100644
--- a/continual/onnx.py
+++ b/continual/onnx.py
@@ -275,7 +275,12 @@ class OnnxWrapper(torch.nn.Module):
 
     @property
     def state_dynamic_axes(self) -> Dict[str, List[int]]:
-        isdyn = flatten(self.model._dynamic_state_inds)
-        ins = {sn: {0: "batch"} for sn, i in zip(self.state_input_names, isdyn) if i}
+        dims = [
+            i if not isinstance(i, bool) else (0 if i else -1)
+            for i in flatten(self.model._dynamic_state_inds)
+        ]
+        ins = {
+            sn: {i: "batch"} for sn, i in zip(self.state_input_names, dims) if i >= 0
+        }
         outs = {self._i2o_name(k): v for k, v in ins.items()}
         return {**ins, **outs}
diff --git a/continual/pooling.py b/continual/pooling.py
index 1e76672..b4f2880 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -57,7 +57,7 @@ class _PoolNd(CoModule, nn.Module):
     """
 
     _state_shape = 3
-    _dynamic_state_inds = [True, False, False]
+    _dynamic_state_inds = [1, -1, -1]  # (time, batch, ...)
 
     def __init__(
         self,
diff --git a/continual/rnn.py b/continual/rnn.py
index 3bef279..51613a6 100644
--- a/continual/rnn.py
+++ b/continual/rnn.py
@@ -114,7 +114,7 @@ class RNN(CoModule, nn.RNN):
     """
 
     _state_shape = 1
-    _dynamic_state_inds = [True]
+    _dynamic_state_inds = [1]  # (layers, batch, ...)
 
     def __init__(
         self,
@@ -333,7 +333,7 @@ class GRU(CoModule, nn.GRU):
         assert torch.allclose(last, output[:, :, -1])
     """
     _state_shape = 1
-    _dynamic_state_inds = [True]
+    _dynamic_state_inds = [1]  # (layers, batch, ...)
 
     def __init__(
         self,
@@ -588,7 +588,7 @@ class LSTM(CoModule, nn.LSTM):
         assert torch.allclose(last, output[:, :, -1])
     """
     _state_shape = 2
-    _dynamic_state_inds = [True, True]
+    _dynamic_state_inds = [1, 1]  # (layers, batch, ...)
 
     def __init__(
         self,
-- 
2.43.0


From b63bd3481c3d358d195dfe3875bfb9fe5c23feea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:23 +0000
Subject: [PATCH 36/43] fix: exporting to ONNX keeps the training mode

---
 continual/onnx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/continual/onnx.py b/continual/onnx.py
index a7c32bb..f7ee5c2 100644
--- a/continual/onnx.py
+++ b/continual/onnx.py
@@ -254,6 +254,8 @@ class OnnxWrapper(torch.nn.Module):
     def __init__(self, model: CoModule):
         super().__init__()
         self.model = model
+        # torch.onnx.export restores the training mode of what it was given
+        self.training = model.training
 
     def forward(self, x: torch.Tensor, *states: torch.Tensor):
         shaped_state, _ = _shape_list(states, self.model._state_shape)
-- 
2.43.0


From f54d1960f6375667f4d6e0f9ce9c59646a1be910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:23 +0000
Subject: [PATCH 37/43] fix: names are optional when exporting to ONNX

---
 continual/onnx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/continual/onnx.py b/continual/onnx.py
index f7ee5c2..da20073 100644
--- a/continual/onnx.py
+++ b/continual/onnx.py
@@ -209,6 +209,8 @@ def export(
         model, CoModule
     ), f"The passed model of type {type(model)} should be a CoModule"
     omodel = OnnxWrapper(model)
+    input_names = list(input_names or ["input"])
+    output_names = list(output_names or ["output"])
     torch.onnx.export(
         model=omodel,
         args=args,
-- 
2.43.0


From 8f6e3139b032a36a9e824b2fcca9b08812c85e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:46 +0000
Subject: [PATCH 38/43] fix: exported retroactive layers order their outputs by
 the current position

---
 continual/transformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 4827ac0..4186d67 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -96,7 +96,9 @@ class RetroactiveUnity(Delay):
         # Get output
         output = None
         if index >= 0:
-            output = buffer.clone().roll(shifts=int(-index - 1), dims=0)
+            # NB: The order depends on `index` also in traced graphs
+            order = torch.arange(self.delay + 1, device=buffer.device) + index + 1
+            output = buffer.index_select(0, order % (self.delay + 1))
             idx = (
                 self.time_dim + len(output.shape)
                 if self.time_dim < 0
-- 
2.43.0


From 11dc37e8a46c31a1e4c47aa8cefe749ed06ff4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:09 +0000
Subject: [PATCH 39/43] fix: full backward (pre) hooks run with torch 2

---
 continual/module.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index 7a9238e..5791a86 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -389,10 +389,16 @@ class CoModule(ABC):
             (False, "forward_step"): self.forward_step,
         }[(bool(torch._C._get_tracing_state()), _callmode_name(_call_mode))]
 
+        # Since torch 2.0, there are `backward_pre_hooks`, which BackwardHook requires
+        backward_pre_hooks = None
+        if hasattr(self, "_get_backward_pre_hooks"):
+            backward_pre_hooks = self._get_backward_pre_hooks()
+
         # If we don't have any hooks, we want to skip the rest of the logic in
         # this function, and just call forward.
         if not (
             self._backward_hooks
+            or backward_pre_hooks
             or self._forward_hooks
             or self._forward_pre_hooks
             or _global_backward_hooks
@@ -415,8 +421,12 @@ class CoModule(ABC):
                     input = result
 
         bw_hook = None
-        if full_backward_hooks:
-            bw_hook = hooks.BackwardHook(self, full_backward_hooks)
+        if full_backward_hooks or backward_pre_hooks:
+            bw_hook = hooks.BackwardHook(
+                self,
+                full_backward_hooks,
+                *([] if backward_pre_hooks is None else [backward_pre_hooks]),
+            )
             input = bw_hook.setup_input_hook(input)
 
         result = forward_call(*input, **kwargs)
-- 
2.43.0


From 8f73cd0484e05f17e11e62bb3e7a98e36588829f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:54 +0000
Subject: [PATCH 40/43] fix: forward hooks can be registered with_kwargs

---
 continual/module.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index 5791a86..fc9d04a 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -7,6 +7,7 @@ from enum import Enum
 from typing import List, Optional, Tuple, Union
 
 import torch
+import torch.nn.modules.module as torch_module
 import torch.utils.hooks as hooks
 from torch import Tensor
 from torch.nn.modules.module import (
@@ -411,9 +412,14 @@ class CoModule(ABC):
         if self._backward_hooks or _global_backward_hooks:
             full_backward_hooks, non_full_backward_hooks = self._get_backward_hooks()
         if _global_forward_pre_hooks or self._forward_pre_hooks:
-            for hook in itertools.chain(
-                _global_forward_pre_hooks.values(), self._forward_pre_hooks.values()
+            for hook_id, hook in itertools.chain(
+                _global_forward_pre_hooks.items(), self._forward_pre_hooks.items()
             ):
+                if hook_id in getattr(self, "_forward_pre_hooks_with_kwargs", ()):
+                    result = hook(self, input, kwargs)
+                    if result is not None:
+                        input, kwargs = result
+                    continue
                 result = hook(self, input)
                 if result is not None:
                     if not isinstance(result, tuple):
@@ -431,10 +437,17 @@ class CoModule(ABC):
 
         result = forward_call(*input, **kwargs)
         if _global_forward_hooks or self._forward_hooks:
-            for hook in itertools.chain(
-                _global_forward_hooks.values(), self._forward_hooks.values()
+            for hook_id, hook in itertools.chain(
+                _global_forward_hooks.items(), self._forward_hooks.items()
             ):
-                hook_result = hook(self, input, result)
+                if hook_id in getattr(
+                    self, "_forward_hooks_with_kwargs", ()
+                ) or hook_id in getattr(
+                    torch_module, "_global_forward_hooks_with_kwargs", ()
+                ):
+                    hook_result = hook(self, input, kwargs, result)
+                else:
+                    hook_result = hook(self, input, result)
                 if hook_result is not None:
                     result = hook_result
 
-- 
2.43.0


From 26832f9a9d718b84491ad6c6c16b7b5a63a161f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:25 +0000
Subject: [PATCH 41/43] fix: forward_stepping accepts modules with integer
 stride and padding

---
 continual/convert.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/continual/convert.py b/continual/convert.py
index 42efc1c..5234573 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -87,8 +87,9 @@ def forward_stepping(module: nn.Module, dim: int = 2):
     module._forward_step = _forward_step(module.forward)
     module.delay = 0
     module.receptive_field = 1
-    module.stride = tuple(getattr(module, "stride", [1]))
-    module.padding = tuple(getattr(module, "padding", [0]))
+    for name, default in [("stride", 1), ("padding", 0)]:
+        value = getattr(module, name, default)
+        setattr(module, name, tuple(value) if isinstance(value, (tuple, list)) else (value,))
     module.build_from = build_from
     module.get_state = dummy
     module.set_state = dummy
-- 
2.43.0


From 6b5918b55659af3095f959799310536aa49378e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:21 +0000
Subject: [PATCH 42/43] fix: Sequential processes inputs of any tensor class

---
 continual/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index fe846f0..a735b33 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -690,7 +690,7 @@ class Sequential(FlattenableStateDict, ChildStates, CoModule, nn.Sequential):
                 input = module(
                     input, update_state=update_state
                 )  # == module.forward_step
-            if not type(input) in {Tensor, list}:
+            if not isinstance(input, (Tensor, list)):
                 return None
         return input
 
@@ -714,7 +714,7 @@ class Sequential(FlattenableStateDict, ChildStates, CoModule, nn.Sequential):
 
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True):
         for m in self:
-            if not type(input) in {Tensor, list} or len(input) == 0:
+            if not isinstance(input, (Tensor, list)) or len(input) == 0:
                 return None  # pragma: no cover
             # ptflops only works when __call__ is triggered
             with child_call_mode(m, "forward_steps"):
-- 
2.43.0


From f08b476dfc31bceb029fb1fbf1692c3e5443fd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:17 +0000
Subject: [PATCH 43/43] fix: copies of naively converted modules work and are
 independent

---
 continual/convert.py | 41 +++++++++++++++--------------------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/continual/convert.py b/continual/convert.py
index 5234573..6c6cd16 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -1,6 +1,6 @@
 """ Register modules with conversion system and 3rd-party libraries """
 
-from functools import wraps
+from functools import partial
 from types import FunctionType
 from typing import Callable, Type, Union
 
@@ -51,40 +51,29 @@ def forward_stepping(module: nn.Module, dim: int = 2):
         dim (int, optional): The dimension to unsqueeze during `forward_step`. Defaults to 2.
     """
 
-    def _forward_step(func: Callable[[Tensor], Tensor]):
-        @wraps(func)
-        def call(x: Tensor, prev_state=None) -> Tensor:
-            return func(x.unsqueeze(dim)).squeeze(dim), prev_state
+    def _forward_step(func: Callable[[Tensor], Tensor], x: Tensor, prev_state=None):
+        return func(x.unsqueeze(dim)).squeeze(dim), prev_state
 
-        return call
+    def forward_step(func: Callable[[Tensor], Tensor], x: Tensor, update_state=True):
+        return func(x.unsqueeze(dim)).squeeze(dim)
 
-    def forward_step(func: Callable[[Tensor], Tensor]):
-        @wraps(func)
-        def call(x: Tensor, update_state=True) -> Tensor:
-            return func(x.unsqueeze(dim)).squeeze(dim)
-
-        return call
-
-    def forward_steps(func: Callable[[Tensor], Tensor]):
-        @wraps(func)
-        def call(x: Tensor, pad_end=False, update_state=True) -> Tensor:
-            x = func(x)
-            return x
-
-        return call
+    def forward_steps(
+        func: Callable[[Tensor], Tensor], x: Tensor, pad_end=False, update_state=True
+    ):
+        return func(x)
 
     def dummy(*args, **kwargs):
         ...  # pragma: no cover
 
-    @staticmethod
     def build_from(mod):  # pragma: no cover
         return module.__class__()
 
     # module.__class__.__bases__ = (*module.__class__.__bases__, CoModule)
+    # NB: Contrary to closures, partials follow the module when it is deep-copied
     orig_forward = module.forward
-    module.forward_steps = forward_steps(module.forward)
-    module.forward_step = forward_step(module.forward)
-    module._forward_step = _forward_step(module.forward)
+    module.forward_steps = partial(forward_steps, orig_forward)
+    module.forward_step = partial(forward_step, orig_forward)
+    module._forward_step = partial(_forward_step, orig_forward)
     module.delay = 0
     module.receptive_field = 1
     for name, default in [("stride", 1), ("padding", 0)]:
@@ -100,7 +89,7 @@ def forward_stepping(module: nn.Module, dim: int = 2):
     # Call mode
     module.call_mode = _callmode("forward")
 
-    def forward_with_callmode(*args, **kwargs):
+    def forward_with_callmode(module, orig_forward, *args, **kwargs):
         _call_mode = (
             call_mode.cur
             if call_mode.prev is not None
@@ -114,7 +103,7 @@ def forward_stepping(module: nn.Module, dim: int = 2):
         }[_callmode_name(_call_mode)]
         return call(*args, **kwargs)
 
-    module.forward = forward_with_callmode
+    module.forward = partial(forward_with_callmode, module, orig_forward)
 
     return module
 
-- 
2.43.0

