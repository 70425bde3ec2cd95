From 17df8de1f7035ae7d93e9739b737b158dae19a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:29 +0000
Subject: [PATCH 01/51] fix: pad the end of a peeked chunk from the chunk's own
 state

---
 continual/module.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index c64accf..ed48835 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -275,9 +275,8 @@ class CoModule(ABC):
 
         if pad_end:
             # Don't save state for the end-padding
-            opt_state = self.get_state()
-            if opt_state is not None:
-                state = _clone_first(opt_state)
+            if state is not None:
+                state = _clone_first(state)
 
             for t, i in enumerate(
                 [self._make_padding(input[:, :, -1]) for _ in range(self.padding[0])]
-- 
2.43.0


From 2fe6cfc54614b6504bd6931f8ae646534ac830ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:47 +0000
Subject: [PATCH 02/51] fix: wrap the retroactive residual's index at its own
 buffer length

---
 continual/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 21dcc4f..79a7722 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -91,7 +91,7 @@ class RetroactiveUnity(Delay):
         buffer[index % (self.delay + 1)] = input
         new_index = index + 1
         if new_index > 0:
-            new_index = new_index % self.delay
+            new_index = new_index % (self.delay + 1)
 
         # Get output
         output = None
-- 
2.43.0


From c8fdc62c211c0b3b17cece37c626418750261b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 03/51] fix: span the whole dilated window in temporal pooling

---
 continual/pooling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index 215a761..1a475a4 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -191,7 +191,7 @@ class _PoolNd(CoModule, nn.Module):
         buffer[index] = pooled_frame
 
         next_buffer = buffer  # .clone() if self.training else buffer.detach()
-        next_index = (index + 1) % self.kernel_size[0]
+        next_index = (index + 1) % len(buffer)
         next_stride_index = stride_index + 1
         if next_stride_index > 0:
             next_stride_index = next_stride_index % self.stride[0]
@@ -220,7 +220,7 @@ class _PoolNd(CoModule, nn.Module):
 
     @property
     def receptive_field(self) -> int:
-        return self.dilation[0] * self.kernel_size[0]
+        return self.dilation[0] * (self.kernel_size[0] - 1) + 1
 
 
 class AvgPool1d(nn.AvgPool1d, _PoolNd):
-- 
2.43.0


From 864dabde716cba5db5558195450c088c6cfe712c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:37 +0000
Subject: [PATCH 04/51] fix: pad max pooling with negative infinity in time, as
 torch.nn does

---
 continual/pooling.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index 1a475a4..a924379 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -659,7 +659,7 @@ class MaxPool1d(nn.MaxPool1d, _PoolNd):
     @staticmethod
     def build_from(
         module: nn.MaxPool1d,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
         **kwargs,
     ) -> "MaxPool1d":
         return MaxPool1d(
@@ -749,7 +749,7 @@ class MaxPool2d(nn.MaxPool2d, _PoolNd):
         dilation: _size_2_t = 1,
         # return_indices: bool = False, # Not supported
         ceil_mode: bool = False,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
     ) -> None:
         self.kernel_size = _pair(kernel_size)
         self.stride = _pair(stride if (stride is not None) else kernel_size)
@@ -780,7 +780,7 @@ class MaxPool2d(nn.MaxPool2d, _PoolNd):
 
     @staticmethod
     def build_from(
-        module: nn.MaxPool2d, temporal_fill: PaddingMode = "zeros", **kwargs
+        module: nn.MaxPool2d, temporal_fill: PaddingMode = "neg_inf", **kwargs
     ) -> "MaxPool2d":
         return MaxPool2d(
             **{
@@ -873,7 +873,7 @@ class MaxPool3d(nn.MaxPool3d, _PoolNd):
         dilation: _size_3_t = 1,
         # return_indices: bool = False, # Not supported
         ceil_mode: bool = False,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
     ) -> None:
         self.kernel_size = _triple(kernel_size)
         self.stride = _triple(stride if (stride is not None) else kernel_size)
@@ -904,7 +904,7 @@ class MaxPool3d(nn.MaxPool3d, _PoolNd):
 
     @staticmethod
     def build_from(
-        module: nn.MaxPool3d, temporal_fill: PaddingMode = "zeros", **kwargs
+        module: nn.MaxPool3d, temporal_fill: PaddingMode = "neg_inf", **kwargs
     ) -> "MaxPool3d":
         return MaxPool3d(
             **{
-- 
2.43.0


From 7b6ce5e82ff616aee58d33f7de2ff6093f13882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:25 +0000
Subject: [PATCH 05/51] fix: apply the divisor override of average pooling in
 the continual modes

---
 continual/pooling.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/continual/pooling.py b/continual/pooling.py
index a924379..73cb778 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -35,6 +35,10 @@ def unity(x: Tensor) -> Tensor:
     return x
 
 
+def sum_pool1d(x: Tensor) -> Tensor:
+    return x.sum(dim=-1, keepdim=True)
+
+
 class PoolType(Enum):
     AVG = "avg"
     MAX = "max"
@@ -421,6 +425,16 @@ class AvgPool2d(nn.AvgPool2d, _PoolNd):
             dilation=self.dilation,
             temporal_fill=temporal_fill,
         )
+        if self.divisor_override is not None:
+            self._spatial_pool_fn = partial(
+                F.avg_pool2d,  # F.avg_pool1d doesn't support divisor_override
+                kernel_size=(1, self.kernel_size[1]),
+                stride=(1, self.stride[1]),
+                padding=(0, self.padding[1]),
+                ceil_mode=self.ceil_mode,
+                divisor_override=self.divisor_override,
+            )
+            self._temporal_pool_fn = sum_pool1d  # The frames are already divided
 
     @staticmethod
     def build_from(
@@ -552,6 +566,8 @@ class AvgPool3d(nn.AvgPool3d, _PoolNd):
             dilation=self.dilation,
             temporal_fill=temporal_fill,
         )
+        if self.divisor_override is not None:
+            self._temporal_pool_fn = sum_pool1d  # The frames are already divided
 
     @staticmethod
     def build_from(
-- 
2.43.0


From 225eaa84ce06a3b5b544f9ac8129502ae13a9e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 06/51] fix: keep the stride state of convolutions with
 temporal kernel size one

---
 continual/conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/conv.py b/continual/conv.py
index 697d445..3fcb8d3 100644
--- a/continual/conv.py
+++ b/continual/conv.py
@@ -160,7 +160,7 @@ class _ConvCoNd(CoModule, _ConvNd):
         self.stride_index = torch.tensor(0)
 
     def get_state(self) -> Optional[State]:
-        if len(self.state_buffer) > 0:
+        if self.state_buffer.dim() > 1:  # May be empty along its first dimension
             return (self.state_buffer, self.state_index, self.stride_index)
         return None
 
-- 
2.43.0


From 86b53f8f8e4ead33e4fb8a17224f5312b97f4cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:06 +0000
Subject: [PATCH 07/51] fix: let a fresh attention module be peeked without
 touching its state

---
 continual/multihead_attention/mha_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/continual/multihead_attention/mha_base.py b/continual/multihead_attention/mha_base.py
index f65cf8c..5729b97 100644
--- a/continual/multihead_attention/mha_base.py
+++ b/continual/multihead_attention/mha_base.py
@@ -418,7 +418,7 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
         )
         stride_index = prev_state[-1]
         if stride_index < 0:
-            stride_index += 1
+            stride_index = stride_index + 1
 
         new_state = (*new_state, stride_index)
 
@@ -460,6 +460,7 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
 
         tmp_state = self.get_state()
 
+        backup_state = None
         if not update_state and tmp_state:
             backup_state = _clone_state(tmp_state)
 
@@ -472,7 +473,7 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
 
         if update_state:
             self.set_state(tmp_state)
-        elif tmp_state is not None:
+        elif backup_state is not None:
             self.set_state(backup_state)
 
         return o
@@ -514,6 +515,7 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
 
         tmp_state = self.get_state()
 
+        backup_state = None
         if not update_state and tmp_state:
             backup_state = _clone_state(tmp_state)
 
-- 
2.43.0


From 5ec3f86ae530044759adf384b0929a29568d0598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 08/51] fix: drop the query dimension of sequence-first
 single-output attention

---
 continual/multihead_attention/single_output_mha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/multihead_attention/single_output_mha.py b/continual/multihead_attention/single_output_mha.py
index 819b09a..1739ab5 100644
--- a/continual/multihead_attention/single_output_mha.py
+++ b/continual/multihead_attention/single_output_mha.py
@@ -393,7 +393,7 @@ class SingleOutputMultiheadAttention(MultiheadAttentionBase):
         )
 
         if isinstance(o, Tensor):
-            o = o.squeeze(2)
+            o = o.squeeze(2 if self.batch_first else 1)
             if self.embed_dim_second:
                 o = o.transpose(1, 2)  # N T E -> N E T
 
-- 
2.43.0


From 18ebae0ab45562fca6b6b5d6ba35716706c646c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:20 +0000
Subject: [PATCH 09/51] fix: align the residual with the selected query of the
 single-output encoder layer

---
 continual/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 79a7722..e502bd3 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -270,7 +270,7 @@ def SingleOutputTransformerEncoderLayer(
                         "residual",
                         SelectOrDelay(mha.delay)
                         if single_output_forward
-                        else Identity(),
+                        else Delay(mha.delay),
                     ),
                     (
                         "self_attn",
-- 
2.43.0


From c65d126fb8e26a7cad3a03a85ceddfc6194d3b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 10/51] fix: use the gelu activation when it is asked for

---
 continual/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index e502bd3..ae901bc 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -472,7 +472,7 @@ def TransformerEncoderLayerFactory(
     if activation in {"relu", "gelu"}:
         activation = {
             "relu": nn.functional.relu,
-            "gelu": nn.functional.relu,
+            "gelu": nn.functional.gelu,
         }[activation]
 
     def TransformerEncoderLayer(mha_type: MhaType):
-- 
2.43.0


From 813eff0ccc2a93c2a1eefaca39fff5ca0ecb6161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:34 +0000
Subject: [PATCH 11/51] fix: pass takes_time to RetroactiveLambda by name

---
 continual/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index ae901bc..6b5a1eb 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -132,7 +132,7 @@ class RetroactiveLambda(Lambda):
     def build_from(
         fn: Callable[[Tensor], Tensor], takes_time=False
     ) -> "RetroactiveLambda":
-        return RetroactiveLambda(fn, takes_time)
+        return RetroactiveLambda(fn, takes_time=takes_time)
 
 
 class NaiveResidual(nn.Module):
-- 
2.43.0


From c3a51f2cfca6d4173f0e5cd0f3bea4545af97422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 12/51] fix: build transformer encoders of three and more
 layers

---
 continual/transformer.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 6b5a1eb..b74b8a2 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -406,21 +406,12 @@ def RetroactiveTransformerEncoderLayer(
     )
 
 
-# TODO: impl
-def StepLocalTransformerEncoderLayer(
-    d_model: int,
-    nhead: int,
-    dim_feedforward: int = 2048,
-    dropout: float = 0.1,
-    activation: Union[nn.Module, Callable[[Tensor], Tensor]] = nn.functional.relu,
-    layer_norm_eps: float = 1e-5,
-    # batch_first: bool = True,
-    # norm_first: bool = False,
-    device=None,
-    dtype=None,
-    sequence_len: int = None,
-):
-    ...
+def StepLocalTransformerEncoderLayer(*args, **kwargs):
+    """Regular Transformer Encoder layer, which is recomputed in full for each (retroactively
+    updated) sequence it receives."""
+    return SingleOutputTransformerEncoderLayer(
+        *args, **kwargs, single_output_forward=False
+    )
 
 
 def TransformerEncoderLayerFactory(
-- 
2.43.0


From 27088a924a82d231c09b64b0bd9893e0d843af40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:01 +0000
Subject: [PATCH 13/51] fix: nest, validate and canonicalise call modes

---
 continual/convert.py |  2 +-
 continual/module.py  | 26 +++++++++++++++-----------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/continual/convert.py b/continual/convert.py
index 8e80149..ab9531e 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -100,7 +100,7 @@ def forward_stepping(module: nn.Module, dim: int = 2):
     module.call_mode = _callmode("forward")
 
     def forward_with_callmode(*args, **kwargs):
-        _call_mode = (
+        _call_mode = _callmode(
             call_mode.cur
             if call_mode.prev is not None
             else getattr(module, "call_mode", _callmode("forward"))
diff --git a/continual/module.py b/continual/module.py
index ed48835..711a258 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -47,10 +47,10 @@ def _callmode(cm) -> torch.Tensor:
     Returns:
         torch.Tensor: validated call_mode
     """
+    if isinstance(cm, int):
+        cm = {0: "forward", 1: "forward_steps", 2: "forward_step"}[cm]
     if isinstance(cm, str):
         cm = CALL_MODES[cm.lower()]
-    elif isinstance(cm, int):
-        cm = torch.tensor(int)
     return cm
 
 
@@ -75,18 +75,20 @@ class _CallModeContext(object):
     def __init__(self):
         self.cur = _callmode("forward")
         self.prev = None
+        self.outer = []
 
     def __call__(self, value: Union[str, int, torch.Tensor]):
+        value = _callmode(value)
+        self.outer.append((self.cur, self.prev))
         self.prev = self.cur
-        self.cur = _callmode(value)
+        self.cur = value
         return self
 
     def __enter__(self):
         pass
 
     def __exit__(self, *args, **kwargs):
-        self.cur = self.prev
-        self.prev = None
+        self.cur, self.prev = self.outer.pop()
 
 
 call_mode = _CallModeContext()
@@ -343,13 +345,15 @@ class CoModule(ABC):
         Returns:
             [type]: [description]
         """
-        _call_mode = call_mode.cur if call_mode.prev is not None else self.call_mode
+        _call_mode = _callmode(
+            call_mode.cur if call_mode.prev is not None else self.call_mode
+        )
         forward_call = {
-            (True, _callmode("forward")): self._slow_forward,
-            (False, _callmode("forward")): self.forward,
-            (False, _callmode("forward_steps")): self.forward_steps,
-            (False, _callmode("forward_step")): self.forward_step,
-        }[(bool(torch._C._get_tracing_state()), _call_mode)]
+            (True, int(_callmode("forward"))): self._slow_forward,
+            (False, int(_callmode("forward"))): self.forward,
+            (False, int(_callmode("forward_steps"))): self.forward_steps,
+            (False, int(_callmode("forward_step"))): self.forward_step,
+        }[(bool(torch._C._get_tracing_state()), int(_call_mode))]
 
         # If we don't have any hooks, we want to skip the rest of the logic in
         # this function, and just call forward.
-- 
2.43.0


From b5611629f315e11ff59164c96d258ac79437325f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:22 +0000
Subject: [PATCH 14/51] fix: restore temporary parameters when the enclosed
 call raises

---
 continual/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/continual/utils.py b/continual/utils.py
index 0136b5e..fccdcae 100644
--- a/continual/utils.py
+++ b/continual/utils.py
@@ -50,12 +50,13 @@ def temporary_parameter(obj, attr: str, val):
 
     rsetattr(obj, attr, val)
 
-    yield obj
-
-    if do_del:
-        delattr(obj, attr)
-    else:
-        rsetattr(obj, attr, prev_val)
+    try:
+        yield obj
+    finally:
+        if do_del:
+            delattr(obj, attr)
+        else:
+            rsetattr(obj, attr, prev_val)
 
 
 class _FlatStateDict(object):
-- 
2.43.0


From 21212bcc99b2a35e737e05062ae6d3cbeb7ac5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:29 +0000
Subject: [PATCH 15/51] fix: let flat_state_dict contexts nest

---
 continual/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/continual/utils.py b/continual/utils.py
index fccdcae..b984a07 100644
--- a/continual/utils.py
+++ b/continual/utils.py
@@ -64,12 +64,14 @@ class _FlatStateDict(object):
 
     def __init__(self):
         self.flatten = False
+        self.outer = []
 
     def __enter__(self):
+        self.outer.append(self.flatten)
         self.flatten = True
 
     def __exit__(self, *args, **kwargs):
-        self.flatten = False
+        self.flatten = self.outer.pop()
 
 
 flat_state_dict = _FlatStateDict()
-- 
2.43.0


From bd116dadd76f9289ec117892a028ffce6a03d7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:36 +0000
Subject: [PATCH 16/51] fix: run what follows retroactive attention in forward
 mode whatever the call mode

---
 continual/transformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index b74b8a2..41f8006 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -12,6 +12,7 @@ from .closure import Identity, Lambda
 from .container import BroadcastReduce, Residual, Sequential
 from .delay import Delay, PaddingMode
 from .linear import Linear
+from .module import call_mode
 from .multihead_attention import (
     RetroactiveMultiheadAttention,
     SingleOutputMultiheadAttention,
@@ -115,7 +116,8 @@ class RetroactiveLambda(Lambda):
     """
 
     def forward(self, input: Tensor) -> Tensor:
-        return Lambda.forward(self, input)
+        with call_mode("forward"):
+            return Lambda.forward(self, input)
 
     def forward_step(self, input: Tensor, *args, **kwargs) -> Tensor:
         return self.forward(input)
-- 
2.43.0


From 3ec9d55ca02941a89352a7a051beabee9dcdf18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 17/51] fix: run the children of an explicitly called container
 in its own mode

---
 continual/container.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 9960a5b..084c1a3 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1,4 +1,5 @@
 from collections import OrderedDict, abc
+from contextlib import contextmanager
 from enum import Enum
 from functools import reduce, wraps
 from typing import Callable, List, Optional, Sequence, Tuple, TypeVar, Union, overload
@@ -8,7 +9,7 @@ from torch import Tensor, nn
 
 from .delay import Delay
 from .logging import getLogger
-from .module import CoModule, PaddingMode, _callmode
+from .module import CoModule, PaddingMode, _callmode, call_mode
 from .skip import Skip
 from .utils import (
     function_repr,
@@ -55,6 +56,17 @@ ReductionFunc = Callable[[Sequence[Tensor]], Tensor]
 ReductionFuncOrEnum = Union[Reduction, ReductionFunc, str]
 
 
+@contextmanager
+def child_call_mode(module: CoModule, mode):
+    """Call `module` using `mode`, also if an enclosing call_mode context says otherwise"""
+    with temporary_parameter(module, "call_mode", mode):
+        if call_mode.prev is None:
+            yield module
+        else:
+            with call_mode(mode):
+                yield module
+
+
 def apply_forward(module: CoModule, input: Tensor):
     if isinstance(module, nn.RNNBase):
         return module.forward(input)[0]
@@ -326,7 +338,7 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
     def forward_step(self, inputs: List[T], update_state=True) -> List[T]:
         outs = []
         for i, m in enumerate(self):
-            with temporary_parameter(m, "call_mode", _callmode("forward_step")):
+            with child_call_mode(m, _callmode("forward_step")):
                 outs.append(m(inputs[i], update_state=update_state))
         return outs
 
@@ -335,14 +347,14 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
     ) -> List[T]:
         outs = []
         for i, m in enumerate(self):
-            with temporary_parameter(m, "call_mode", _callmode("forward_steps")):
+            with child_call_mode(m, _callmode("forward_steps")):
                 outs.append(m(inputs[i], pad_end=pad_end, update_state=update_state))
         return outs
 
     def forward(self, inputs: List[T]) -> List[T]:
         outs = []
         for i, m in enumerate(self):
-            with temporary_parameter(m, "call_mode", _callmode("forward")):
+            with child_call_mode(m, _callmode("forward")):
                 outs.append(apply_forward(m, inputs[i]))
         return outs
 
@@ -632,14 +644,14 @@ class Sequential(FlattenableStateDict, CoModule, nn.Sequential):
 
     def forward(self, input):
         for m in self:
-            with temporary_parameter(m, "call_mode", _callmode("forward")):
+            with child_call_mode(m, _callmode("forward")):
                 input = apply_forward(m, input)
         return input
 
     def forward_step(self, input, update_state=True):
         for module in self:
             # ptflops only works when __call__ is triggered
-            with temporary_parameter(module, "call_mode", _callmode("forward_step")):
+            with child_call_mode(module, _callmode("forward_step")):
                 input = module(
                     input, update_state=update_state
                 )  # == module.forward_step
@@ -670,7 +682,7 @@ class Sequential(FlattenableStateDict, CoModule, nn.Sequential):
             if not type(input) in {Tensor, list} or len(input) == 0:
                 return None  # pragma: no cover
             # ptflops only works when __call__ is triggered
-            with temporary_parameter(m, "call_mode", _callmode("forward_steps")):
+            with child_call_mode(m, _callmode("forward_steps")):
                 # == m.forward_steps
                 input = m(input, pad_end=pad_end, update_state=update_state)
 
@@ -871,7 +883,7 @@ class BroadcastReduce(Sequential):
     def forward_step(self, input: Tensor, update_state=True) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", "forward_step"):
+            with child_call_mode(m, "forward_step"):
                 outs.append(m(input, update_state=update_state))  # == m.forward_step
         if all(isinstance(o, Tensor) for o in outs):
             return self.reduce(outs)
@@ -881,7 +893,7 @@ class BroadcastReduce(Sequential):
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", "forward_steps"):
+            with child_call_mode(m, "forward_steps"):
                 # m.forward_steps
                 outs.append(m(input, pad_end=pad_end, update_state=update_state))
 
@@ -890,7 +902,7 @@ class BroadcastReduce(Sequential):
     def forward(self, input: Tensor) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", "forward"):
+            with child_call_mode(m, "forward"):
                 outs.append(apply_forward(m, input))
 
         return self.reduce(outs)
-- 
2.43.0


From 16d19ce6843d82d431f6c5d9b6440d69e807f998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:14 +0000
Subject: [PATCH 18/51] fix: let modules with forward_stepping children be
 copied

---
 continual/convert.py | 55 +++++++++++++++++++-------------------------
 1 file changed, 24 insertions(+), 31 deletions(-)

diff --git a/continual/convert.py b/continual/convert.py
index ab9531e..e2ee848 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -1,8 +1,8 @@
 """ Register modules with conversion system and 3rd-party libraries """
 
 from functools import wraps
-from types import FunctionType
-from typing import Callable, Type, Union
+from types import FunctionType, MethodType
+from typing import Type, Union
 
 from torch import Tensor, nn
 
@@ -51,40 +51,33 @@ def forward_stepping(module: nn.Module, dim: int = 2):
         dim (int, optional): The dimension to unsqueeze during `forward_step`. Defaults to 2.
     """
 
-    def _forward_step(func: Callable[[Tensor], Tensor]):
-        @wraps(func)
-        def call(x: Tensor, prev_state=None) -> Tensor:
-            return func(x.unsqueeze(dim)).squeeze(dim), prev_state
-
-        return call
-
-    def forward_step(func: Callable[[Tensor], Tensor]):
-        @wraps(func)
-        def call(x: Tensor, update_state=True) -> Tensor:
-            return func(x.unsqueeze(dim)).squeeze(dim)
+    # NB: Methods are bound to their module to let copies of it use their own parameters
+    orig_forward = module.forward
+    func = getattr(
+        orig_forward, "__func__", lambda self, *args, **kw: orig_forward(*args, **kw)
+    )
 
-        return call
+    def _forward_step(self, x: Tensor, prev_state=None) -> Tensor:
+        return func(self, x.unsqueeze(dim)).squeeze(dim), prev_state
 
-    def forward_steps(func: Callable[[Tensor], Tensor]):
-        @wraps(func)
-        def call(x: Tensor, pad_end=False, update_state=True) -> Tensor:
-            x = func(x)
-            return x
+    @wraps(func)
+    def forward_step(self, x: Tensor, update_state=True) -> Tensor:
+        return func(self, x.unsqueeze(dim)).squeeze(dim)
 
-        return call
+    @wraps(func)
+    def forward_steps(self, x: Tensor, pad_end=False, update_state=True) -> Tensor:
+        return func(self, x)
 
     def dummy(*args, **kwargs):
         ...  # pragma: no cover
 
-    @staticmethod
     def build_from(mod):  # pragma: no cover
-        return module.__class__()
+        return mod.__class__()
 
     # module.__class__.__bases__ = (*module.__class__.__bases__, CoModule)
-    orig_forward = module.forward
-    module.forward_steps = forward_steps(module.forward)
-    module.forward_step = forward_step(module.forward)
-    module._forward_step = _forward_step(module.forward)
+    module.forward_steps = MethodType(forward_steps, module)
+    module.forward_step = MethodType(forward_step, module)
+    module._forward_step = MethodType(_forward_step, module)
     module.delay = 0
     module.receptive_field = 1
     module.stride = tuple(getattr(module, "stride", [1]))
@@ -99,17 +92,17 @@ def forward_stepping(module: nn.Module, dim: int = 2):
     # Call mode
     module.call_mode = _callmode("forward")
 
-    def forward_with_callmode(*args, **kwargs):
+    def forward_with_callmode(self, *args, **kwargs):
         _call_mode = _callmode(
             call_mode.cur
             if call_mode.prev is not None
-            else getattr(module, "call_mode", _callmode("forward"))
+            else getattr(self, "call_mode", _callmode("forward"))
         )
         if _call_mode == _callmode("forward"):
-            return orig_forward(*args, *kwargs)
-        return CoModule._call_impl(module, *args, **kwargs)
+            return func(self, *args, **kwargs)
+        return CoModule._call_impl(self, *args, **kwargs)
 
-    module.forward = forward_with_callmode
+    module.forward = MethodType(forward_with_callmode, module)
 
     return module
 
-- 
2.43.0


From d36e5f16b8267a635712c641421e0a72f1833d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:01 +0000
Subject: [PATCH 19/51] fix: leave modules which were already made continual as
 they are

---
 continual/convert.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/continual/convert.py b/continual/convert.py
index e2ee848..e8f7bc5 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -51,6 +51,9 @@ def forward_stepping(module: nn.Module, dim: int = 2):
         dim (int, optional): The dimension to unsqueeze during `forward_step`. Defaults to 2.
     """
 
+    if CoModule.is_valid(module):
+        return module  # Already enhanced
+
     # NB: Methods are bound to their module to let copies of it use their own parameters
     orig_forward = module.forward
     func = getattr(
-- 
2.43.0


From 498c475957f2dea0baf07e3ab68b1f094806ae1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:08 +0000
Subject: [PATCH 20/51] fix: expose the state of RecyclingPositionalEncoding
 and initialise it purely

---
 continual/positional_encoding.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/continual/positional_encoding.py b/continual/positional_encoding.py
index b55bfd5..7d4c19b 100644
--- a/continual/positional_encoding.py
+++ b/continual/positional_encoding.py
@@ -189,8 +189,13 @@ class RecyclingPositionalEncoding(co.CoModule, nn.Module):
         return output, (state_index,)
 
     def init_state(self) -> State:
-        self.state_index = torch.tensor(0)
+        return (torch.tensor(0),)
+
+    def get_state(self) -> State:
         return (self.state_index,)
 
+    def set_state(self, state: State):
+        self.state_index = state[0]
+
     def clean_state(self):
         self.state_index = torch.tensor(0)
-- 
2.43.0


From df788865649898750025a5bd5112d10853009243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:56 +0000
Subject: [PATCH 21/51] fix: shrink delays consistently for all spellings and
 with end padding

---
 continual/delay.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/continual/delay.py b/continual/delay.py
index 69aea83..221b6a4 100644
--- a/continual/delay.py
+++ b/continual/delay.py
@@ -70,7 +70,7 @@ class Delay(CoModule, torch.nn.Module):
         state_buffer = torch.stack([padding for _ in range(self.delay)], dim=0)
         state_index = torch.tensor(
             -2 * self.delay
-            if self.auto_shrink and isinstance(self.auto_shrink, bool)
+            if self.auto_shrink in {True, "centered"}
             else -self.delay
         )
         return state_buffer, state_index
@@ -120,7 +120,9 @@ class Delay(CoModule, torch.nn.Module):
         if self._delay == 0:
             return input
 
-        with temporary_parameter(self, "padding", (self.delay,)):
+        # When shrinking, the ends of the input are not output
+        padding = 0 if self.auto_shrink else self.delay
+        with temporary_parameter(self, "padding", (padding,)):
             output = CoModule.forward_steps(self, input, pad_end, update_state)
 
         return output
-- 
2.43.0


From 1079e93531ccd646f9a0bcb0628fbcdc15895c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:06 +0000
Subject: [PATCH 22/51] fix: let parallel streams wait for streams which have
 not produced an output yet

---
 continual/container.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/continual/container.py b/continual/container.py
index 084c1a3..d347c5b 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -330,7 +330,9 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
         prev_state = prev_state or [None for _ in range(len(self))]
         outs, next_state = [], []
         for i, module in enumerate(self):
-            out, n_state = module._forward_step(inputs[i], prev_state=prev_state[i])
+            out, n_state = None, prev_state[i]
+            if inputs[i] is not None:
+                out, n_state = module._forward_step(inputs[i], prev_state=n_state)
             outs.append(out)
             next_state.append(n_state)
         return outs, next_state
@@ -338,6 +340,9 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
     def forward_step(self, inputs: List[T], update_state=True) -> List[T]:
         outs = []
         for i, m in enumerate(self):
+            if inputs[i] is None:  # Nothing was produced for this stream yet
+                outs.append(None)
+                continue
             with child_call_mode(m, _callmode("forward_step")):
                 outs.append(m(inputs[i], update_state=update_state))
         return outs
@@ -347,6 +352,9 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
     ) -> List[T]:
         outs = []
         for i, m in enumerate(self):
+            if inputs[i] is None:  # Nothing was produced for this stream yet
+                outs.append(None)
+                continue
             with child_call_mode(m, _callmode("forward_steps")):
                 outs.append(m(inputs[i], pad_end=pad_end, update_state=update_state))
         return outs
-- 
2.43.0


From 53f3dcb419c1c4b153a6c8d2dede327f8561a142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:01 +0000
Subject: [PATCH 23/51] fix: hand the call's flags, state and timing through
 Conditional

---
 continual/container.py | 61 +++++++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 21 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index d347c5b..3dbc2f2 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1059,35 +1059,54 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
             )
 
     def forward(self, input: Tensor) -> Tensor:
-        if self.predicate(self, input):
-            return apply_forward(self._modules["0"], input)
-        elif "1" in self._modules:
-            return apply_forward(self._modules["1"], input)
-        return input
+        key = self._select(input)
+        if key is None:
+            return input
+        with child_call_mode(self._modules[key], "forward"):
+            return apply_forward(self._modules[key], input)
+
+    def _select(self, input: Tensor) -> Optional[str]:
+        key = "0" if self.predicate(self, input) else "1"
+        return key if key in self._modules else None
 
     def forward_step(self, input: Tensor, update_state=True) -> Tensor:
-        if self.predicate(self, input):
-            return self._modules["0"].forward_step(input, update_state)
-        elif "1" in self._modules:
-            return self._modules["1"].forward_step(input, update_state)
-        return input
+        key = self._select(input)
+        if key is None:
+            return input
+        return self._modules[key].forward_step(input, update_state=update_state)
 
     def _forward_step(
         self, input: Tensor, prev_state: Optional[State] = None
     ) -> Tuple[Tensor, Optional[State]]:
-        prev_state = prev_state or [None, None]
-        if self.predicate(self, input):
-            return self._modules["0"]._forward_step(input, prev_state[0])
-        elif "1" in self._modules:
-            return self._modules["1"]._forward_step(input, prev_state[1])
-        return input, prev_state
+        next_state = list(prev_state or [None for _ in self._modules])
+        key = self._select(input)
+        if key is None:
+            return input, next_state
+        output, next_state[int(key)] = self._modules[key]._forward_step(
+            input, prev_state=next_state[int(key)]
+        )
+        return output, next_state
 
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
-        if self.predicate(self, input):
-            return self._modules["0"].forward_steps(input)
-        elif "1" in self._modules:
-            return self._modules["1"].forward_steps(input)
-        return input
+        key = self._select(input)
+        if key is None:
+            return input
+        return self._modules[key].forward_steps(
+            input, pad_end=pad_end, update_state=update_state
+        )
+
+    def clean_state(self):
+        for m in self._modules.values():
+            if hasattr(m, "clean_state"):
+                m.clean_state()
+
+    @property
+    def stride(self) -> Tuple[int]:
+        return getattr(self._modules["0"], "stride", (1,))
+
+    @property
+    def padding(self) -> Tuple[int]:
+        return (max(getattr(m, "padding", (0,))[0] for m in self._modules.values()),)
 
     @property
     def _state_shape(self):
-- 
2.43.0


From c95c14b0c482d790de61d09cbe26d40fbc83ecfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:31 +0000
Subject: [PATCH 24/51] fix: align parallel modules of different delay also
 when they are strided

---
 continual/container.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 3dbc2f2..61aa8e7 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -118,6 +118,13 @@ def nonempty(fn: ReductionFunc) -> ReductionFunc:
     return wrapped
 
 
+def add_delay(module: CoModule, delay: int) -> CoModule:
+    if num_from(getattr(module, "stride", 1)) == 1:
+        return Sequential(module, Delay(delay))
+    # The delay is given in input steps, which are more frequent than the output steps
+    return Sequential(OrderedDict([("1", Delay(delay)), ("0", module)]))
+
+
 class FlattenableStateDict:
     """Mixes in the ability to flatten state dicts.
     It is assumed that classes that inherit this module also inherit from nn.Module
@@ -287,7 +294,7 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
                 (
                     key,
                     (
-                        Sequential(module, Delay(max_delay - module.delay))
+                        add_delay(module, max_delay - module.delay)
                         if module.delay < max_delay
                         else module
                     ),
@@ -833,7 +840,7 @@ class BroadcastReduce(Sequential):
                 (
                     key,
                     (
-                        Sequential(module, Delay(max_delay - module.delay))
+                        add_delay(module, max_delay - module.delay)
                         if module.delay < max_delay
                         else module
                     ),
-- 
2.43.0


From d2c830c07480d7c21b0a914ab31630df2567d34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:25 +0000
Subject: [PATCH 25/51] fix: keep end padding out of the state of later modules
 in Sequential

---
 continual/container.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/continual/container.py b/continual/container.py
index 61aa8e7..2bb3f18 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -693,6 +693,12 @@ class Sequential(FlattenableStateDict, CoModule, nn.Sequential):
         return [m._dynamic_state_inds for m in self]
 
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True):
+        if pad_end and update_state:
+            # Outputs due to the end-padding of one module must not be saved in the next
+            output = self.forward_steps(input, pad_end=True, update_state=False)
+            self.forward_steps(input, pad_end=False, update_state=True)
+            return output
+
         for m in self:
             if not type(input) in {Tensor, list} or len(input) == 0:
                 return None  # pragma: no cover
-- 
2.43.0


From 51157cc8cda5e65d71005ba014cacca03d5f005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:44 +0000
Subject: [PATCH 26/51] fix: convert Dropout1d, which is listed as supported

---
 continual/convert.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/continual/convert.py b/continual/convert.py
index e8f7bc5..7677bef 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -150,6 +150,7 @@ NAIVE_MAPPING = {
     nn.GroupNorm,
     # >> Dropout modules
     nn.Dropout,
+    nn.Dropout1d,
     nn.Dropout2d,
     nn.Dropout3d,
     nn.AlphaDropout,
-- 
2.43.0


From f8e7ac4b0e98c9878f0f7d819392f08f257e7da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:06 +0000
Subject: [PATCH 27/51] fix: let onnx.export be called without input and output
 names

---
 continual/onnx.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/continual/onnx.py b/continual/onnx.py
index fb5d37d..7f8ccee 100644
--- a/continual/onnx.py
+++ b/continual/onnx.py
@@ -102,9 +102,9 @@ def export(
                 False and in training mode if model.training is True.
             * ``TrainingMode.TRAINING``: export the model in training mode. Disables optimizations
                 which might interfere with training.
-        input_names (list of str, default empty list): names to assign to the
+        input_names (list of str, default ["input"]): names to assign to the
             input nodes of the graph, in order.
-        output_names (list of str, default empty list): names to assign to the
+        output_names (list of str, default ["output"]): names to assign to the
             output nodes of the graph, in order.
         operator_export_type (enum, default OperatorExportTypes.ONNX):
             * ``OperatorExportTypes.ONNX``: Export all ops as regular ONNX ops
@@ -209,6 +209,8 @@ def export(
         model, CoModule
     ), f"The passed model of type {type(model)} should be a CoModule"
     omodel = OnnxWrapper(model)
+    input_names = list(input_names or ["input"])
+    output_names = list(output_names or ["output"])
     torch.onnx.export(
         model=omodel,
         args=args,
-- 
2.43.0


From 443329253c944930f3642a2c3954fdeedc5ba686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:12 +0000
Subject: [PATCH 28/51] fix: count the added delay in Conditional's receptive
 field

---
 continual/container.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 2bb3f18..9c3984f 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1052,9 +1052,6 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
 
         # Ensure modules have the same delay
         self._delay = max(on_true.delay, getattr(on_false, "delay", 0))
-        self._receptive_field = max(
-            on_true.receptive_field, getattr(on_false, "receptive_field", 1)
-        )
 
         self.add_module(
             "0",
@@ -1135,7 +1132,8 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
 
     @property
     def receptive_field(self) -> int:
-        return self._receptive_field
+        # Includes the delays added to match the modules
+        return max(m.receptive_field for m in self._modules.values())
 
     def extra_repr(self):
         return f"predicate={function_repr(self.predicate)}"
-- 
2.43.0


From f6c8ebd4dd635aca0fae2a945b726489ed485354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:19 +0000
Subject: [PATCH 29/51] fix: warm up modules without delay and of other data
 types

---
 continual/module.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/continual/module.py b/continual/module.py
index 711a258..df574b5 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -323,8 +323,12 @@ class CoModule(ABC):
         Args:
             step_shape (Sequence[int]): input shape with which to warm the model up, including batch size.
         """
+        if self.delay == 0:
+            return  # There is nothing to wait for
         step_shape = (*step_shape[:2], self.delay, *step_shape[2:])
-        dummy = self._make_padding(torch.zeros(step_shape, dtype=torch.float))
+        # Match the data type of the model, if it has parameters
+        dtype = next((p.dtype for p in self.parameters()), torch.float)
+        dummy = self._make_padding(torch.zeros(step_shape, dtype=dtype))
         self.forward_steps(dummy)
 
     @property
-- 
2.43.0


From a4d46192ef4e8068781e9e7a3ce423ba9ae35064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:15 +0000
Subject: [PATCH 30/51] fix: use a module for the temporal sum of pooling with
 divisor override

---
 continual/pooling.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index 73cb778..784af1f 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -35,8 +35,9 @@ def unity(x: Tensor) -> Tensor:
     return x
 
 
-def sum_pool1d(x: Tensor) -> Tensor:
-    return x.sum(dim=-1, keepdim=True)
+class SumPool1d(nn.Module):
+    def forward(self, x: Tensor) -> Tensor:
+        return x.sum(dim=-1, keepdim=True)
 
 
 class PoolType(Enum):
@@ -434,7 +435,7 @@ class AvgPool2d(nn.AvgPool2d, _PoolNd):
                 ceil_mode=self.ceil_mode,
                 divisor_override=self.divisor_override,
             )
-            self._temporal_pool_fn = sum_pool1d  # The frames are already divided
+            self._temporal_pool_fn = SumPool1d()  # The frames are already divided
 
     @staticmethod
     def build_from(
@@ -567,7 +568,7 @@ class AvgPool3d(nn.AvgPool3d, _PoolNd):
             temporal_fill=temporal_fill,
         )
         if self.divisor_override is not None:
-            self._temporal_pool_fn = sum_pool1d  # The frames are already divided
+            self._temporal_pool_fn = SumPool1d()  # The frames are already divided
 
     @staticmethod
     def build_from(
-- 
2.43.0


From 629008ffdcd357a4b86ab10a47c4c9ec6c4f1488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:46 +0000
Subject: [PATCH 31/51] fix: convert built-in functions such as
 torch.nn.functional.gelu

TransformerEncoderLayerFactory documents activation "gelu" and other unary callables, but all encoder
layers failed to build with them, because only Python functions were registered for conversion.
---
 continual/convert.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/continual/convert.py b/continual/convert.py
index 7677bef..222fca9 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -1,7 +1,7 @@
 """ Register modules with conversion system and 3rd-party libraries """
 
 from functools import wraps
-from types import FunctionType, MethodType
+from types import BuiltinFunctionType, FunctionType, MethodType
 from typing import Type, Union
 
 from torch import Tensor, nn
@@ -270,6 +270,7 @@ register(nn.Sequential, Sequential)
 
 # Closure
 register(FunctionType, Lambda)
+register(BuiltinFunctionType, Lambda)  # e.g. nn.functional.gelu
 
 # RNN
 register(nn.RNN, RNN)
-- 
2.43.0


From c77f7dd912677b41d67d45197534ab3789402317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:54 +0000
Subject: [PATCH 32/51] fix: refuse conversion of encoders with norm_first

The continual encoder layers normalise after each block; converting an nn.TransformerEncoder with
norm_first=True gave a network computing something else.
---
 continual/transformer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/continual/transformer.py b/continual/transformer.py
index 41f8006..1922385 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -575,6 +575,7 @@ class TransformerEncoder(Sequential):
 
         # Create model
         tel = trans_enc.layers[0]
+        assert not tel.norm_first, "norm_first=True is not supported"
         layer_factory = TransformerEncoderLayerFactory(
             d_model=tel.self_attn.embed_dim,
             nhead=tel.self_attn.num_heads,
-- 
2.43.0


From 9169775d1b3d2eaf723c5acf684530f462cb858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 33/51] fix: retroactive attention with a sequence length of
 one

---
 continual/multihead_attention/retroactive_mha.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/continual/multihead_attention/retroactive_mha.py b/continual/multihead_attention/retroactive_mha.py
index 415f45b..70fbcc9 100644
--- a/continual/multihead_attention/retroactive_mha.py
+++ b/continual/multihead_attention/retroactive_mha.py
@@ -99,7 +99,8 @@ def _scaled_dot_product_attention_step(
 
     # Update Q_mem and K_mem
     Q_mem_new = torch.roll(Q_mem, shifts=-1, dims=(1,))
-    Q_mem_new[:, -1] = q_step
+    if Q_mem.shape[1] > 0:
+        Q_mem_new[:, -1] = q_step
 
     K_T_mem_new = torch.roll(K_T_mem, shifts=-1, dims=(2,))
     K_T_mem_new[:, :, -1] = k_step
-- 
2.43.0


From 161e44e6ddbfab28e68ad239f909c9766fc47827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:54 +0000
Subject: [PATCH 34/51] fix: retroactive encoder layers with a sequence length
 of one

---
 continual/transformer.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 1922385..e834ef2 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -12,7 +12,7 @@ from .closure import Identity, Lambda
 from .container import BroadcastReduce, Residual, Sequential
 from .delay import Delay, PaddingMode
 from .linear import Linear
-from .module import call_mode
+from .module import CoModule, call_mode
 from .multihead_attention import (
     RetroactiveMultiheadAttention,
     SingleOutputMultiheadAttention,
@@ -109,6 +109,19 @@ class RetroactiveUnity(Delay):
 
         return output, (buffer, new_index)
 
+    # NB: With a delay of zero, outputs still have a (single-entry) dimension of cached values
+    def forward_step(self, input: Tensor, update_state=True) -> Optional[Tensor]:
+        if self._delay == 0:
+            return CoModule.forward_step(self, input, update_state)
+        return Delay.forward_step(self, input, update_state)
+
+    def forward_steps(
+        self, input: Tensor, pad_end=False, update_state=True
+    ) -> Optional[Tensor]:
+        if self._delay == 0:
+            return CoModule.forward_steps(self, input, pad_end, update_state)
+        return Delay.forward_steps(self, input, pad_end, update_state)
+
 
 class RetroactiveLambda(Lambda):
     """
-- 
2.43.0


From a4a8429867da98a3ae1648dc8c2e73289ba5168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:08 +0000
Subject: [PATCH 35/51] fix: calling a container leaves the call modes set on
 modules of nested containers as they were

---
 continual/container.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 9c3984f..48fd367 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -59,12 +59,23 @@ ReductionFuncOrEnum = Union[Reduction, ReductionFunc, str]
 @contextmanager
 def child_call_mode(module: CoModule, mode):
     """Call `module` using `mode`, also if an enclosing call_mode context says otherwise"""
-    with temporary_parameter(module, "call_mode", mode):
-        if call_mode.prev is None:
-            yield module
-        else:
-            with call_mode(mode):
+    inner_modes = []
+    if hasattr(module, "__len__"):  # Its modules are set to the same call_mode
+        inner_modes = [
+            (m, m.call_mode)
+            for m in module.modules()
+            if m is not module and hasattr(m, "call_mode")
+        ]
+    try:
+        with temporary_parameter(module, "call_mode", mode):
+            if call_mode.prev is None:
                 yield module
+            else:
+                with call_mode(mode):
+                    yield module
+    finally:
+        for m, inner_mode in inner_modes:
+            m.call_mode = inner_mode
 
 
 def apply_forward(module: CoModule, input: Tensor):
-- 
2.43.0


From 11f4c3541bb16e376b4dc7dde7dbff5a9154bc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:10 +0000
Subject: [PATCH 36/51] fix: pass the state of attention modules by name in
 OnnxWrapper

---
 continual/onnx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/onnx.py b/continual/onnx.py
index 7f8ccee..8d56fa3 100644
--- a/continual/onnx.py
+++ b/continual/onnx.py
@@ -260,7 +260,7 @@ class OnnxWrapper(torch.nn.Module):
     def forward(self, x: torch.Tensor, *states: torch.Tensor):
         shaped_state, _ = _shape_list(states, self.model._state_shape)
 
-        out, next_states = self.model._forward_step(x, shaped_state)
+        out, next_states = self.model._forward_step(x, prev_state=shaped_state)
         return (out, *flatten(next_states, remove_none=False))
 
     @staticmethod
-- 
2.43.0


From c3418ec397adb9e1d4d04c7992ffd4e2eedbf8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:18 +0000
Subject: [PATCH 37/51] fix: refuse to convert bidirectional recurrent modules

---
 continual/rnn.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/continual/rnn.py b/continual/rnn.py
index 905cc51..66dec33 100644
--- a/continual/rnn.py
+++ b/continual/rnn.py
@@ -154,6 +154,9 @@ class RNN(CoModule, nn.RNN):
 
     @staticmethod
     def build_from(module: nn.RNN, **kwargs) -> "RNN":
+        assert (
+            not module.bidirectional
+        ), "`bidirectional == True` is not supported for a Continual module"
         comodule = RNN(
             **{
                 **dict(
@@ -370,6 +373,9 @@ class GRU(CoModule, nn.GRU):
 
     @staticmethod
     def build_from(module: nn.GRU, **kwargs) -> "GRU":
+        assert (
+            not module.bidirectional
+        ), "`bidirectional == True` is not supported for a Continual module"
         comodule = GRU(
             **{
                 **dict(
@@ -626,6 +632,9 @@ class LSTM(CoModule, nn.LSTM):
 
     @staticmethod
     def build_from(module: nn.LSTM, **kwargs) -> "LSTM":
+        assert (
+            not module.bidirectional
+        ), "`bidirectional == True` is not supported for a Continual module"
         comodule = LSTM(
             **{
                 **dict(
-- 
2.43.0


From f17e1b8eea16012e331c4de7ace894751d4a833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:25 +0000
Subject: [PATCH 38/51] fix: let co.continual accept modules which were made
 streamable already

---
 continual/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/convert.py b/continual/convert.py
index 222fca9..3bcade5 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -221,7 +221,7 @@ def continual(module: nn.Module) -> CoModule:
         ))
 
     """
-    if isinstance(module, CoModule):
+    if isinstance(module, CoModule) or CoModule.is_valid(module):
         return module
 
     if type(module) in NAIVE_MAPPING:
-- 
2.43.0


From b76a0fdf9a5766a8dd67195bb9275c796ba7a370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:34 +0000
Subject: [PATCH 39/51] fix: keep the training mode of converted modules

---
 continual/convert.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/continual/convert.py b/continual/convert.py
index 3bcade5..e6212d5 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -240,7 +240,10 @@ def continual(module: nn.Module) -> CoModule:
         co.convert.register(MyTorchModule, MyContinualModule)
         """
     )
-    return MODULE_MAPPING[type(module)].build_from(module)
+    comodule = MODULE_MAPPING[type(module)].build_from(module)
+    if isinstance(module, nn.Module):
+        comodule.training = module.training
+    return comodule
 
 
 # Register modules with our conversion system
-- 
2.43.0


From 83709cec0bf17af1e3d1772b3a45c760408dacca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:41 +0000
Subject: [PATCH 40/51] fix: keep device and data type of converted
 convolutions

---
 continual/conv.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/continual/conv.py b/continual/conv.py
index 3fcb8d3..12c1a9d 100644
--- a/continual/conv.py
+++ b/continual/conv.py
@@ -418,6 +418,8 @@ class Conv1d(_ConvCoNd):
                     bias=module.bias is not None,
                     padding_mode=module.padding_mode,
                     temporal_fill=temporal_fill or module.padding_mode,
+                    device=module.weight.device,
+                    dtype=module.weight.dtype,
                 ),
                 **kwargs,
             }
@@ -518,6 +520,8 @@ class Conv2d(_ConvCoNd):
                     bias=module.bias is not None,
                     padding_mode=module.padding_mode,
                     temporal_fill=temporal_fill or module.padding_mode,
+                    device=module.weight.device,
+                    dtype=module.weight.dtype,
                 ),
                 **kwargs,
             }
@@ -618,6 +622,8 @@ class Conv3d(_ConvCoNd):
                     bias=module.bias is not None,
                     padding_mode=module.padding_mode,
                     temporal_fill=temporal_fill or module.padding_mode,
+                    device=module.weight.device,
+                    dtype=module.weight.dtype,
                 ),
                 **kwargs,
             }
-- 
2.43.0


From 84f490b4467d74a821fc263eaebe47fe6a08d221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:50 +0000
Subject: [PATCH 41/51] fix: translate named padding of convolutions

---
 continual/conv.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/continual/conv.py b/continual/conv.py
index 12c1a9d..6133bbd 100644
--- a/continual/conv.py
+++ b/continual/conv.py
@@ -41,6 +41,18 @@ State = Tuple[Tensor, Tensor, Tensor]
 __all__ = ["Conv1d", "Conv2d", "Conv3d"]
 
 
+def _named_padding(padding: str, kernel_size, stride, dilation) -> Tuple[int, ...]:
+    if padding == "valid":
+        return tuple(0 for _ in kernel_size)
+    assert padding == "same", f"Unknown padding '{padding}'"
+    assert all(s == 1 for s in stride), "padding='same' requires a stride of 1"
+    total = [d * (k - 1) for k, d in zip(kernel_size, dilation)]
+    assert all(
+        t % 2 == 0 for t in total
+    ), "padding='same' is only supported if it is equal on both sides"
+    return tuple(t // 2 for t in total)
+
+
 class _ConvCoNd(CoModule, _ConvNd):
     def __init__(
         self,
@@ -66,8 +78,11 @@ class _ConvCoNd(CoModule, _ConvNd):
         ), "The ConvClass should be a subclass of `_ConvNd`"
 
         kernel_size = size_fn(kernel_size)
-        padding = size_fn(padding)
         stride = size_fn(stride)
+        dilation = size_fn(dilation)
+        if isinstance(padding, str):
+            padding = _named_padding(padding, kernel_size, stride, dilation)
+        padding = size_fn(padding)
 
         self._ConvClass = ConvClass
         self._conv_func = conv_func
@@ -79,7 +94,6 @@ class _ConvCoNd(CoModule, _ConvNd):
                 f"Temporal stride of {stride[0]} will result in skipped outputs every {stride[0] - 1} / {stride[0]} steps"
             )
 
-        dilation = size_fn(dilation)
         assert dilation[0] == 1, "Temporal dilation > 1 is not supported currently."
 
         self.padding_mode = PaddingMode(padding_mode).value
-- 
2.43.0


From 475cda3dfdb7e028f48ad0a8863341d2652331d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:33 +0000
Subject: [PATCH 42/51] fix: apply the temporal dilation of average pooling to
 whole clips as well

---
 continual/pooling.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/continual/pooling.py b/continual/pooling.py
index 784af1f..6404edd 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -216,6 +216,22 @@ class _PoolNd(CoModule, nn.Module):
 
         return output, (next_buffer, next_index, next_stride_index)
 
+    def _dilated_forward(self, input: Tensor) -> Tensor:
+        # torch.nn has no average pooling with dilation
+        pad = [0, 0] * (self.num_input_dims - 1) + [self.padding[0], self.padding[0]]
+        frames = F.pad(input, pad).unbind(2)
+        frames = [self._spatial_pool_fn(f) for f in frames]
+        span = self.receptive_field
+        return torch.stack(
+            [
+                self._reshaped_temporal_pool_fn(
+                    torch.stack(frames[i : i + span : self.dilation[0]])
+                )
+                for i in range(0, len(frames) - span + 1, self.stride[0])
+            ],
+            dim=2,
+        )
+
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True):
         assert (
             len(input.shape) == self.num_input_dims + 2
@@ -306,6 +322,11 @@ class AvgPool1d(nn.AvgPool1d, _PoolNd):
             temporal_fill=temporal_fill,
         )
 
+    def forward(self, input: Tensor) -> Tensor:
+        if self.dilation[0] > 1:
+            return self._dilated_forward(input)
+        return nn.AvgPool1d.forward(self, input)
+
     @staticmethod
     def build_from(
         module: nn.AvgPool1d,
@@ -437,6 +458,11 @@ class AvgPool2d(nn.AvgPool2d, _PoolNd):
             )
             self._temporal_pool_fn = SumPool1d()  # The frames are already divided
 
+    def forward(self, input: Tensor) -> Tensor:
+        if self.dilation[0] > 1:
+            return self._dilated_forward(input)
+        return nn.AvgPool2d.forward(self, input)
+
     @staticmethod
     def build_from(
         module: nn.AvgPool2d,
@@ -570,6 +596,11 @@ class AvgPool3d(nn.AvgPool3d, _PoolNd):
         if self.divisor_override is not None:
             self._temporal_pool_fn = SumPool1d()  # The frames are already divided
 
+    def forward(self, input: Tensor) -> Tensor:
+        if self.dilation[0] > 1:
+            return self._dilated_forward(input)
+        return nn.AvgPool3d.forward(self, input)
+
     @staticmethod
     def build_from(
         module: nn.AvgPool3d,
-- 
2.43.0


From aff3566c5e2b4cd3be6f3b9eb332db3bedd9bc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:45 +0000
Subject: [PATCH 43/51] fix: run the hooks of modules made streamable once in
 the continual modes

---
 continual/convert.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/continual/convert.py b/continual/convert.py
index e6212d5..a16c578 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -103,7 +103,10 @@ def forward_stepping(module: nn.Module, dim: int = 2):
         )
         if _call_mode == _callmode("forward"):
             return func(self, *args, **kwargs)
-        return CoModule._call_impl(self, *args, **kwargs)
+        # NB: The hooks of the module were already run by its `__call__`
+        if _call_mode == _callmode("forward_steps"):
+            return self.forward_steps(*args, **kwargs)
+        return self.forward_step(*args, **kwargs)
 
     module.forward = MethodType(forward_with_callmode, module)
 
-- 
2.43.0


From a4cf44c72de139f1932bfc1c9b9bec00a8a4e448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:56 +0000
Subject: [PATCH 44/51] fix: run gradient hooks of continual modules

---
 continual/module.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index df574b5..d86b2e3 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -359,10 +359,15 @@ class CoModule(ABC):
             (False, int(_callmode("forward_step"))): self.forward_step,
         }[(bool(torch._C._get_tracing_state()), int(_call_mode))]
 
+        backward_pre_hooks = []
+        if hasattr(self, "_get_backward_pre_hooks"):  # Introduced in torch 2.0
+            backward_pre_hooks = [self._get_backward_pre_hooks()]
+
         # If we don't have any hooks, we want to skip the rest of the logic in
         # this function, and just call forward.
         if not (
             self._backward_hooks
+            or any(backward_pre_hooks)
             or self._forward_hooks
             or self._forward_pre_hooks
             or _global_backward_hooks
@@ -385,8 +390,10 @@ class CoModule(ABC):
                     input = result
 
         bw_hook = None
-        if full_backward_hooks:
-            bw_hook = hooks.BackwardHook(self, full_backward_hooks)
+        if full_backward_hooks or any(backward_pre_hooks):
+            bw_hook = hooks.BackwardHook(
+                self, full_backward_hooks, *backward_pre_hooks
+            )
             input = bw_hook.setup_input_hook(input)
 
         result = forward_call(*input, **kwargs)
@@ -402,7 +409,7 @@ class CoModule(ABC):
             result = bw_hook.setup_output_hook(result)
 
         # Handle the non-full backward hooks
-        if non_full_backward_hooks:
+        if non_full_backward_hooks and result is not None:
             var = result
             while not isinstance(var, torch.Tensor):
                 if isinstance(var, dict):
-- 
2.43.0


From 1c0c1bff0e66fc52ee562aff7dab9103abcf72c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:56 +0000
Subject: [PATCH 45/51] fix: hand keyword arguments to the hooks that ask for
 them

---
 continual/module.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index d86b2e3..88de19a 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -5,6 +5,7 @@ from enum import Enum
 from typing import List, Optional, Tuple, Union
 
 import torch
+import torch.nn.modules.module as torch_module
 import torch.utils.hooks as hooks
 from torch import Tensor
 from torch.nn.modules.module import (
@@ -380,9 +381,15 @@ class CoModule(ABC):
         if self._backward_hooks or _global_backward_hooks:
             full_backward_hooks, non_full_backward_hooks = self._get_backward_hooks()
         if _global_forward_pre_hooks or self._forward_pre_hooks:
-            for hook in itertools.chain(
-                _global_forward_pre_hooks.values(), self._forward_pre_hooks.values()
+            with_kwargs = getattr(self, "_forward_pre_hooks_with_kwargs", {})
+            for hook_id, hook in itertools.chain(
+                _global_forward_pre_hooks.items(), self._forward_pre_hooks.items()
             ):
+                if hook_id in with_kwargs:
+                    result = hook(self, input, kwargs)
+                    if result is not None:
+                        input, kwargs = result
+                    continue
                 result = hook(self, input)
                 if result is not None:
                     if not isinstance(result, tuple):
@@ -398,10 +405,17 @@ class CoModule(ABC):
 
         result = forward_call(*input, **kwargs)
         if _global_forward_hooks or self._forward_hooks:
-            for hook in itertools.chain(
-                _global_forward_hooks.values(), self._forward_hooks.values()
+            with_kwargs = {
+                **getattr(torch_module, "_global_forward_hooks_with_kwargs", {}),
+                **getattr(self, "_forward_hooks_with_kwargs", {}),
+            }
+            for hook_id, hook in itertools.chain(
+                _global_forward_hooks.items(), self._forward_hooks.items()
             ):
-                hook_result = hook(self, input, result)
+                if hook_id in with_kwargs:
+                    hook_result = hook(self, input, kwargs, result)
+                else:
+                    hook_result = hook(self, input, result)
                 if hook_result is not None:
                     result = hook_result
 
-- 
2.43.0


From 8eefd653169fce28d9c5a9712dc8ab8f2ea4ef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:56 +0000
Subject: [PATCH 46/51] fix: let streamed max pooling be differentiated in
 training mode

---
 continual/pooling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index 6404edd..73e132a 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -193,9 +193,11 @@ class _PoolNd(CoModule, nn.Module):
 
         pooled_frame = self._spatial_pool_fn(input)
         buffer, index, stride_index = prev_state or self.init_state(pooled_frame)
+        if self.training:
+            buffer = buffer.clone()  # Autograd may need the previous one
         buffer[index] = pooled_frame
 
-        next_buffer = buffer  # .clone() if self.training else buffer.detach()
+        next_buffer = buffer
         next_index = (index + 1) % len(buffer)
         next_stride_index = stride_index + 1
         if next_stride_index > 0:
-- 
2.43.0


From fca58df84be1d645175f46b9d8b0cbc032df46a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:56 +0000
Subject: [PATCH 47/51] fix: count the channel dimension of a linear layer
 alike in steps and clips

---
 continual/linear.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/continual/linear.py b/continual/linear.py
index 7f2f3cf..1ae9afb 100644
--- a/continual/linear.py
+++ b/continual/linear.py
@@ -88,10 +88,14 @@ class Linear(CoModule, nn.Linear):
         return output
 
     def forward_step(self, input: Tensor, update_state=True) -> Tensor:
-        return self.forward(input)
+        return self._forward_step(input)[0]
 
     def _forward_step(self, input: Tensor, prev_state=None) -> Tensor:
-        return self.forward(input), prev_state
+        if self.channel_dim in {-1, 1}:
+            return self.forward(input), prev_state
+
+        # Count dimensions as in `forward`, i.e. including the temporal one
+        return self.forward(input.unsqueeze(2)).squeeze(2), prev_state
 
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
         return self.forward(input)
-- 
2.43.0


From 0a3d16260e1b35c16c97a50a5be39a44432c7c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:56 +0000
Subject: [PATCH 48/51] fix: accept named activations in encoder layers, as
 documented

---
 continual/transformer.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index e834ef2..ed153b1 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -166,12 +166,23 @@ def sum_last_pairs(inputs: Sequence[Tensor]) -> Tensor:
     return reduce(torch.Tensor.add, inputs[1:], inputs[0])
 
 
+def _get_activation(
+    activation: Union[nn.Module, Callable[[Tensor], Tensor], str]
+) -> Union[nn.Module, Callable[[Tensor], Tensor]]:
+    if isinstance(activation, str):
+        return {
+            "relu": nn.functional.relu,
+            "gelu": nn.functional.gelu,
+        }[activation]
+    return activation
+
+
 def SingleOutputTransformerEncoderLayer(
     d_model: int,
     nhead: int,
     dim_feedforward: int = 2048,
     dropout: float = 0.1,
-    activation: Union[nn.Module, Callable[[Tensor], Tensor]] = nn.functional.relu,
+    activation: Union[nn.Module, Callable[[Tensor], Tensor], str] = nn.functional.relu,
     layer_norm_eps: float = 1e-5,
     # batch_first: bool = True,
     # norm_first: bool = False,
@@ -231,6 +242,7 @@ def SingleOutputTransformerEncoderLayer(
         sequence_len > 0
     ), "Please provide a positive integer value as sequence length."
 
+    activation = _get_activation(activation)
     factory_kwargs = {"device": device, "dtype": dtype}
     norm1 = nn.LayerNorm(d_model, eps=layer_norm_eps, **factory_kwargs)
     norm2 = nn.LayerNorm(d_model, eps=layer_norm_eps, **factory_kwargs)
@@ -313,7 +325,7 @@ def RetroactiveTransformerEncoderLayer(
     nhead: int,
     dim_feedforward: int = 2048,
     dropout: float = 0.1,
-    activation: Union[nn.Module, Callable[[Tensor], Tensor]] = nn.functional.relu,
+    activation: Union[nn.Module, Callable[[Tensor], Tensor], str] = nn.functional.relu,
     layer_norm_eps: float = 1e-5,
     # batch_first: bool = True,
     # norm_first: bool = False,
@@ -367,6 +379,7 @@ def RetroactiveTransformerEncoderLayer(
     assert (
         sequence_len > 0
     ), "Please provide a positive integer value as sequence length."
+    activation = _get_activation(activation)
     factory_kwargs = {"device": device, "dtype": dtype}
     norm1 = nn.LayerNorm(d_model, eps=layer_norm_eps, **factory_kwargs)
     norm2 = nn.LayerNorm(d_model, eps=layer_norm_eps, **factory_kwargs)
@@ -475,11 +488,7 @@ def TransformerEncoderLayerFactory(
         src = torch.rand(10, 512, 32)
         out = transformer_encoder(src)
     """
-    if activation in {"relu", "gelu"}:
-        activation = {
-            "relu": nn.functional.relu,
-            "gelu": nn.functional.gelu,
-        }[activation]
+    activation = _get_activation(activation)
 
     def TransformerEncoderLayer(mha_type: MhaType):
         factory_fn = {
-- 
2.43.0


From ab39f12fec01f6bbc38945b239524486a5b797d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:56 +0000
Subject: [PATCH 49/51] fix: make modules streamable whose stride or padding is
 not a tuple

---
 continual/convert.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/continual/convert.py b/continual/convert.py
index a16c578..75514eb 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -8,7 +8,7 @@ from torch import Tensor, nn
 
 from .closure import Lambda
 from .container import Sequential
-from .conv import Conv1d, Conv2d, Conv3d
+from .conv import Conv1d, Conv2d, Conv3d, _named_padding
 from .linear import Linear
 from .logging import getLogger
 from .module import CoModule, _callmode, call_mode
@@ -35,6 +35,10 @@ __all__ = [
 ]
 
 
+def _as_tuple(value) -> tuple:
+    return (value,) if isinstance(value, int) else tuple(value)
+
+
 def forward_stepping(module: nn.Module, dim: int = 2):
     """Enhances torch.nn.Module with `forward_step` and `forward_steps`
 
@@ -83,8 +87,16 @@ def forward_stepping(module: nn.Module, dim: int = 2):
     module._forward_step = MethodType(_forward_step, module)
     module.delay = 0
     module.receptive_field = 1
-    module.stride = tuple(getattr(module, "stride", [1]))
-    module.padding = tuple(getattr(module, "padding", [0]))
+    module.stride = getattr(module, "stride", 1)
+    if module.stride is None:  # As default in some of the pooling modules
+        module.stride = module.kernel_size
+    module.stride = _as_tuple(module.stride)
+    module.padding = getattr(module, "padding", 0)
+    if isinstance(module.padding, str):
+        module.padding = _named_padding(
+            module.padding, module.kernel_size, module.stride, module.dilation
+        )
+    module.padding = _as_tuple(module.padding)
     module.build_from = build_from
     module.get_state = dummy
     module.set_state = dummy
-- 
2.43.0


From 132ad1b3d7c45813d4fcd5ce7877e52289e921bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:56 +0000
Subject: [PATCH 50/51] fix: keep the training mode when building from a
 transformer encoder

---
 continual/transformer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/continual/transformer.py b/continual/transformer.py
index ed153b1..6a0a314 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -648,5 +648,6 @@ class TransformerEncoder(Sequential):
         new_sd = {net_keys[key_inds[i]]: weights[i] for i in range(len(net_keys))}
 
         net.load_state_dict(new_sd)
+        net.train(trans_enc.training)
 
         return net
-- 
2.43.0


From f461363b454761d5b18cef0e1c9fc6ab790d4c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:27 +0000
Subject: [PATCH 51/51] fix: keep the position of the encoding when a call is
 refused

---
 continual/positional_encoding.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/continual/positional_encoding.py b/continual/positional_encoding.py
index 7d4c19b..fbe347f 100644
--- a/continual/positional_encoding.py
+++ b/continual/positional_encoding.py
@@ -159,10 +159,11 @@ class RecyclingPositionalEncoding(co.CoModule, nn.Module):
             if update_index_steps is None
             else update_index_steps
         )
-        self.state_index = (self.state_index + index_update) % self.pe.num_embeddings
-
         position_embeddings = self.pe(position_ids).transpose(1, 2)
-        return input + position_embeddings
+        output = input + position_embeddings
+
+        self.state_index = (self.state_index + index_update) % self.pe.num_embeddings
+        return output
 
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
         return self.forward(
-- 
2.43.0

