From 33db31af7f5d1c5b04403c6c905489653c17dffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:20 +0000
Subject: [PATCH 01/58] fix: adding a sharing of lower precision no longer
 rescales the operand in place

---
 crypten/mpc/primitives/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index f3f4dab..75b9dfe 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -374,7 +374,7 @@ class ArithmeticSharedTensor:
             if additive_func:  # ['add', 'sub', 'add_', 'sub_']
                 # Re-encode if necessary:
                 if self.encoder.scale > y.encoder.scale:
-                    y.encode_as_(result)
+                    y = y.encode_as(result)
                 elif self.encoder.scale < y.encoder.scale:
                     result.encode_as_(y)
                 result.share = getattr(result.share, op)(y.share)
-- 
2.43.0


From 8481911a9fc99a1de13bb579550b3ae5536c0d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:40 +0000
Subject: [PATCH 02/58] fix: decode negative fixed-point values exactly

---
 crypten/encoder.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crypten/encoder.py b/crypten/encoder.py
index c567a93..7ea7d92 100644
--- a/crypten/encoder.py
+++ b/crypten/encoder.py
@@ -71,11 +71,8 @@ class FixedPointEncoder:
             return None
         assert is_int_tensor(tensor), "input must be a LongTensor"
         if self._scale > 1:
-            correction = (tensor < 0).long()
-            dividend = tensor.div(self._scale - correction, rounding_mode="floor")
+            dividend = tensor.div(self._scale, rounding_mode="floor")
             remainder = tensor % self._scale
-            remainder += (remainder == 0).long() * self._scale * correction
-
             tensor = dividend.float() + remainder.float() / self._scale
         else:
             tensor = nearest_integer_division(tensor, self._scale)
-- 
2.43.0


From a914357f8dd4eed8e12f71df57922b01cb92dd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:40 +0000
Subject: [PATCH 03/58] fix: sum of a single binary-shared entry no longer
 aliases its input

---
 crypten/mpc/primitives/binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypten/mpc/primitives/binary.py b/crypten/mpc/primitives/binary.py
index 7237914..853cb01 100644
--- a/crypten/mpc/primitives/binary.py
+++ b/crypten/mpc/primitives/binary.py
@@ -339,9 +339,9 @@ class BinarySharedTensor:
     def sum(self, dim=None):
         """Add all tensors along a given dimension using a log-reduction"""
         if dim is None:
-            x = self.flatten()
+            x = self.clone().flatten()
         else:
-            x = self.transpose(0, dim)
+            x = self.clone().transpose(0, dim)
 
         # Add all BinarySharedTensors
         while x.size(0) > 1:
-- 
2.43.0


From df94fdbe194279bffab3695232f30e896463991f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:49 +0000
Subject: [PATCH 04/58] fix: dividing a scalar encrypted value by a float

---
 crypten/mpc/primitives/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index 75b9dfe..952118c 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -476,7 +476,7 @@ class ArithmeticSharedTensor:
 
         # Otherwise multiply by reciprocal
         if isinstance(y, float):
-            y = torch.tensor([y], dtype=torch.float, device=self.device)
+            y = torch.tensor(y, dtype=torch.float, device=self.device)
 
         assert is_float_tensor(y), "Unsupported type for div_: %s" % type(y)
         return self.mul_(y.reciprocal())
-- 
2.43.0


From 2ca82d6613cf51653397cb8447db9da6172b84f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:30 +0000
Subject: [PATCH 05/58] fix: trace_once uses the length of the request list

A Python list has no empty() method, so every call raised AttributeError.
---
 crypten/mpc/provider/provider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/mpc/provider/provider.py b/crypten/mpc/provider/provider.py
index 6868ddb..da7c636 100644
--- a/crypten/mpc/provider/provider.py
+++ b/crypten/mpc/provider/provider.py
@@ -54,7 +54,7 @@ class TupleProvider:
         """Sets tracing attribute True only if the request cache is empty.
         If `trace_once()` is called again, it sets tracing attribute to False
         """
-        untraced = self.request_cache.empty()
+        untraced = len(self.request_cache) == 0
         self.trace(tracing=untraced)
 
     def _save_requests(self, filepath=None):
-- 
2.43.0


From b8d3d8b6634a68e96caa243119737f8b24a8f6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:30 +0000
Subject: [PATCH 06/58] fix: generate a fresh tuple when the cached ones are
 used up

A request whose cached tuples were all consumed raised IndexError.
---
 crypten/mpc/provider/provider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/mpc/provider/provider.py b/crypten/mpc/provider/provider.py
index da7c636..d40a507 100644
--- a/crypten/mpc/provider/provider.py
+++ b/crypten/mpc/provider/provider.py
@@ -133,7 +133,7 @@ class TupleProvider:
             hashable_kwargs = frozenset(kwargs.items())
             request = (func_name, args, hashable_kwargs)
             # Read from cache
-            if request in self.tuple_cache.keys():
+            if len(self.tuple_cache.get(request, [])) > 0:
                 return self.tuple_cache[request].pop()
             # Cache miss
             return object.__getattribute__(self, func_name)(*args, **kwargs)
-- 
2.43.0


From 1c2fe93008e9a657adba337ec506045a9c5828e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:11 +0000
Subject: [PATCH 07/58] fix: seed the trusted dealer's generators from system
 entropy

All dealt seeds came from torch's default generator: after torch.manual_seed
in the dealer's process they are predictable, and otherwise one party's seed
determines the generator's state and with it every other party's seed.
---
 crypten/mpc/provider/ttp_provider.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crypten/mpc/provider/ttp_provider.py b/crypten/mpc/provider/ttp_provider.py
index 9ff5bf3..af22946 100644
--- a/crypten/mpc/provider/ttp_provider.py
+++ b/crypten/mpc/provider/ttp_provider.py
@@ -6,6 +6,7 @@
 # LICENSE file in the root directory of this source tree.
 
 import logging
+import os
 
 import crypten
 import crypten.communicator as comm
@@ -251,7 +252,10 @@ class TTPServer:
         """Create random generator to send to a party"""
         ws = comm.get().get_world_size()
 
-        seeds = [torch.randint(-(2**63), 2**63 - 1, size=()) for _ in range(ws)]
+        seeds = [
+            torch.tensor(int.from_bytes(os.urandom(8), "big") - 2**63)
+            for _ in range(ws)
+        ]
         reqs = [
             dist.isend(tensor=seeds[i], dst=i, group=self.ttp_group) for i in range(ws)
         ]
-- 
2.43.0


From f3798ed575d09926bace3111e0691504437175bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:01 +0000
Subject: [PATCH 08/58] fix: re-randomise the product shares of the replicated
 protocol

---
 crypten/mpc/primitives/replicated.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crypten/mpc/primitives/replicated.py b/crypten/mpc/primitives/replicated.py
index 4f245b8..bda6398 100644
--- a/crypten/mpc/primitives/replicated.py
+++ b/crypten/mpc/primitives/replicated.py
@@ -64,6 +64,9 @@ def __replicated_secret_sharing_protocol(op, x, y, *args, **kwargs):
     z.share += getattr(torch, op)(x1, y2, *args, **kwargs)
     z.share += getattr(torch, op)(x2, y1, *args, **kwargs)
 
+    # Re-randomize: the local products are functions of the input shares alone
+    z.share += x.PRZS(z.size(), device=x.device).share
+
     return z
 
 
@@ -99,6 +102,7 @@ def square(x):
 
     z = x.shallow_copy()
     z.share = x_square
+    z.share += x.PRZS(z.size(), device=x.device).share
     return z
 
 
@@ -147,5 +151,6 @@ def AND(x, y):
 
     z = x.shallow_copy()
     z.share = (x1 & y1) ^ (x2 & y1) ^ (x1 & y2)
+    z.share ^= x.PRZS(z.size(), device=x.device).share
 
     return z
-- 
2.43.0


From 5febd36755a0157ed05b9023b71962962bc0e5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:45 +0000
Subject: [PATCH 09/58] fix: make the active-security triple check usable for
 every bilinear operation

---
 crypten/mpc/primitives/beaver.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crypten/mpc/primitives/beaver.py b/crypten/mpc/primitives/beaver.py
index e8ce7eb..3958878 100644
--- a/crypten/mpc/primitives/beaver.py
+++ b/crypten/mpc/primitives/beaver.py
@@ -8,6 +8,7 @@
 import crypten
 import crypten.communicator as comm
 import torch
+from crypten.common.rng import generate_random_ring_element
 from crypten.common.util import count_wraps
 from crypten.config import cfg
 
@@ -63,13 +64,18 @@ def __beaver_protocol(op, x, y, *args, **kwargs):
             x.size(), y.size(), op, device=x.device, *args, **kwargs
         )
 
-        t = ArithmeticSharedTensor.PRSS(a.size(), device=x.device)
-        t_plain_text = t.get_plain_text()
-
-        rho = (t_plain_text * a - f).get_plain_text()
-        sigma = (b - g).get_plain_text()
-        triples_check = t_plain_text * c - h - sigma * f - rho * g - rho * sigma
-        triples_check = triples_check.get_plain_text()
+        # t is a jointly random scalar: every party contributes a share
+        t = ArithmeticSharedTensor.from_shares(
+            generate_random_ring_element((1,), device=x.device), precision=0
+        )
+        t = t.reveal().squeeze()
+
+        rho, sigma = ArithmeticSharedTensor.reveal_batch([a * t - f, b - g])
+        triples_check = c * t - h
+        triples_check._tensor -= getattr(torch, op)(f._tensor, sigma, *args, **kwargs)
+        triples_check._tensor -= getattr(torch, op)(rho, g._tensor, *args, **kwargs)
+        triples_check -= getattr(torch, op)(rho, sigma, *args, **kwargs)
+        triples_check = triples_check.reveal()
 
         if torch.any(triples_check != 0):
             raise ValueError("Beaver Triples verification failed!")
-- 
2.43.0


From c46fc5a524c042ba179cf2f7b1d4267a0375a605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:56 +0000
Subject: [PATCH 10/58] fix: reject replicated sharing with more than three
 parties

---
 crypten/mpc/primitives/replicated.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypten/mpc/primitives/replicated.py b/crypten/mpc/primitives/replicated.py
index bda6398..20e881b 100644
--- a/crypten/mpc/primitives/replicated.py
+++ b/crypten/mpc/primitives/replicated.py
@@ -14,8 +14,8 @@ import torch
 
 def replicate_shares(share_list):
     world_size = comm.get().get_world_size()
-    if world_size < 3:
-        raise ValueError("Cannot utilize Replicated Sharing securely with < 3 parties.")
+    if world_size != 3:
+        raise ValueError("Replicated Sharing requires exactly 3 parties.")
     rank = comm.get().get_rank()
     prev_rank = (rank - 1) % world_size
     next_rank = (rank + 1) % world_size
-- 
2.43.0


From cee973a84206159b38284fde8556ed21d9bc1664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:57 +0000
Subject: [PATCH 11/58] fix: comparisons of tensors whose precision is not the
 default one

---
 crypten/mpc/mpc.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/crypten/mpc/mpc.py b/crypten/mpc/mpc.py
index 5a755c3..aa12d67 100644
--- a/crypten/mpc/mpc.py
+++ b/crypten/mpc/mpc.py
@@ -233,13 +233,12 @@ class MPCTensor(CrypTensor):
     def _ltz(self):
         """Returns 1 for elements that are < 0 and 0 otherwise"""
         shift = torch.iinfo(torch.long).bits - 1
-        precision = 0 if self.encoder.scale == 1 else None
 
         result = self._to_ptype(Ptype.binary)
         result.share >>= shift
-        result = result._to_ptype(Ptype.arithmetic, precision=precision, bits=1)
-        result.encoder._scale = 1
-        return result
+        # The sign bit is an unscaled integer whatever the scale of self
+        result.encoder = FixedPointEncoder(precision_bits=0)
+        return result._to_ptype(Ptype.arithmetic, precision=0, bits=1)
 
     def eq(self, y):
         """Returns self == y"""
@@ -265,13 +264,10 @@ class MPCTensor(CrypTensor):
 
         # Perform equality testing using binary shares
         x0._tensor = x0._tensor.eq(x1._tensor)
-        x0.encoder = self.encoder
+        x0.encoder = FixedPointEncoder(precision_bits=0)
 
         # Convert to Arithmetic sharing
-        result = x0.to(Ptype.arithmetic, bits=1)
-        result.encoder._scale = 1
-
-        return result
+        return x0.to(Ptype.arithmetic, precision=0, bits=1)
 
     def div(self, y):
         r"""Divides each element of :attr:`self` with the scalar :attr:`y` or
-- 
2.43.0


From 6cba9b698d9f481f681a09d299489e9a6973a4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:06 +0000
Subject: [PATCH 12/58] fix: pad rows and columns of a max-pooled input by
 their own padding

---
 crypten/common/functions/pooling.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crypten/common/functions/pooling.py b/crypten/common/functions/pooling.py
index e726478..f177353 100644
--- a/crypten/common/functions/pooling.py
+++ b/crypten/common/functions/pooling.py
@@ -377,17 +377,18 @@ def _pool2d_reshape(
     if padding is not None:
         padding = (padding, padding) if isinstance(padding, int) else padding
         assert len(padding) == 2, "Padding must be an integer or a pair"
-        padding = (padding[0], padding[0], padding[1], padding[1])
+        # torch.nn.functional.pad takes the padding of the last dimension first
+        padding = (padding[1], padding[1], padding[0], padding[0])
     else:
         padding = (0, 0, 0, 0)
 
     # Compute output size based on parameters
     n = input.size()[:-2]
     h = _pooling_output_shape(
-        input.size(-2), k[0], padding[0], padding[1], s[0], d[0], ceil_mode
+        input.size(-2), k[0], padding[2], padding[3], s[0], d[0], ceil_mode
     )
     w = _pooling_output_shape(
-        input.size(-1), k[1], padding[2], padding[3], s[1], d[1], ceil_mode
+        input.size(-1), k[1], padding[0], padding[1], s[1], d[1], ceil_mode
     )
 
     out_size = tuple(n + (h, w))
-- 
2.43.0


From 2a79841ef6e07adf2fadd4e5827eb930bc2873a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:06 +0000
Subject: [PATCH 13/58] fix: gradient of max_pool2d with integer dilation or
 ceil_mode

---
 crypten/common/functions/pooling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crypten/common/functions/pooling.py b/crypten/common/functions/pooling.py
index f177353..27c17fd 100644
--- a/crypten/common/functions/pooling.py
+++ b/crypten/common/functions/pooling.py
@@ -81,7 +81,7 @@ def _max_pool2d_backward(
     s0, s1 = stride
 
     # Setup dilation
-    if isinstance(stride, int):
+    if isinstance(dilation, int):
         dilation = dilation, dilation
     assert isinstance(dilation, tuple), "dilation must be a int, tuple, or None"
     d0, d1 = dilation
@@ -118,8 +118,8 @@ def _max_pool2d_backward(
 
     # Account for input padding implied by ceil_mode
     if ceil_mode:
-        c0 = self.size(-1) * s1 + (k1 - 1) * d1 - output_size[-1]
-        c1 = self.size(-2) * s0 + (k0 - 1) * d0 - output_size[-2]
+        c0 = self.size(-2) * s0 + (k0 - 1) * d0 - output_size[-2]
+        c1 = self.size(-1) * s1 + (k1 - 1) * d1 - output_size[-1]
         result_size[-2] += c0
         result_size[-1] += c1
 
-- 
2.43.0


From 775c2c6d3f043d18e81eef7366c5ee894cc6cf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:48 +0000
Subject: [PATCH 14/58] fix: adaptive pooling with an integer or partially
 given output size

---
 crypten/common/functions/pooling.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crypten/common/functions/pooling.py b/crypten/common/functions/pooling.py
index 27c17fd..4a82adc 100644
--- a/crypten/common/functions/pooling.py
+++ b/crypten/common/functions/pooling.py
@@ -156,8 +156,11 @@ def adaptive_avg_pool2d(self, output_size):
         output_size: the target output size (single integer or
             double-integer tuple)
     """
-    if output_size is None or output_size[0] is None:
-        output_size = self.shape[-2:]
+    if output_size is None or isinstance(output_size, int):
+        output_size = (output_size, output_size)
+    output_size = tuple(
+        self.size(i - 2) if size is None else size for i, size in enumerate(output_size)
+    )
 
     if self.shape[-2:] == output_size:
         return self.clone()
@@ -179,14 +182,15 @@ def adaptive_max_pool2d(self, output_size, return_indices=False):
             double-integer tuple)
         return_indices: whether to return pooling indices. Default: ``False``
     """
-    if output_size is None or output_size[0] is None:
-        output_size = self.shape[-2:]
+    if output_size is None or isinstance(output_size, int):
+        output_size = (output_size, output_size)
+    output_size = tuple(
+        self.size(i - 2) if size is None else size for i, size in enumerate(output_size)
+    )
 
     if self.shape[-2:] == output_size:
         if return_indices:
-            return self.clone(), self.new(
-                torch.ones(self.size() + torch.Size(output_size))
-            )
+            return self.clone(), self.new(torch.ones(self.size() + (1, 1)))
         return self.clone()
 
     resized_input, args, kwargs = _adaptive_pool2d_helper(
-- 
2.43.0


From 51539eb118b1b4df9bd9d1256b4fcb8ad5986bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:02 +0000
Subject: [PATCH 15/58] fix: pow with an odd exponent of five or more

---
 crypten/common/functions/power.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crypten/common/functions/power.py b/crypten/common/functions/power.py
index cc2254f..96670e1 100644
--- a/crypten/common/functions/power.py
+++ b/crypten/common/functions/power.py
@@ -41,8 +41,7 @@ def pow(self, p, **kwargs):
     elif p % 2 == 0:
         return self.square().pow(p // 2)
     else:
-        x = self.square().mul_(self)
-        return x.pow((p - 1) // 2)
+        return self.square().pow((p - 1) // 2).mul_(self)
 
 
 def pos_pow(self, p):
-- 
2.43.0


From c0ce9d2aa2694fbc27cee5615b2a2ae65f2944b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:02 +0000
Subject: [PATCH 16/58] fix: record indexing of a CrypTensor on the autograd
 tape

---
 crypten/cryptensor.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crypten/cryptensor.py b/crypten/cryptensor.py
index 4f71d7d..b3ed2a6 100644
--- a/crypten/cryptensor.py
+++ b/crypten/cryptensor.py
@@ -727,3 +727,14 @@ for module_name in functions.__all__:
     module = getattr(functions, module_name)
     for func in module.__all__:
         setattr(CrypTensor, func, getattr(module, func))
+
+
+def __getitem__(self, index):
+    # Python looks `x[index]` up on the type, so it does not pass through
+    # `CrypTensor.__getattribute__` and has to be recorded for autograd here.
+    if CrypTensor.AUTOGRAD_ENABLED and self.requires_grad:
+        return self.__getattribute__("__getitem__")(index)
+    return functions.regular.__getitem__(self, index)
+
+
+CrypTensor.__getitem__ = __getitem__
-- 
2.43.0


From ef80bc4b0de7d2a018e3d866e1a88d76d8384eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:02 +0000
Subject: [PATCH 17/58] fix: gradient of elements selected more than once by
 indexing or take

---
 crypten/gradients.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 58b19da..b362e39 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -317,12 +317,13 @@ class AutogradTake(AutogradFunction):
         size, index, dim = ctx.saved_tensors
         grad = grad_output.new(torch.zeros(size))
         if dim is None:
-            grad_flat = grad.flatten()
+            # an element that was taken several times gets all of its gradients
             flat_index = index.flatten()
             grad_output_flat = grad_output.flatten()
-            grad_flat[flat_index] = grad_output_flat
-            grad = grad_flat.reshape(size)
+            grad = grad.flatten().index_add(0, flat_index, grad_output_flat)
+            grad = grad.reshape(size)
         else:
+            dim = dim + len(size) if dim < 0 else dim
             flat_index = index.flatten()
             grad_output_flat = grad_output.flatten(
                 start_dim=dim, end_dim=(dim + index.dim() - 1)
@@ -462,9 +463,13 @@ class AutogradGetItem(AutogradFunction):
     @staticmethod
     def backward(ctx, grad_output):
         size, index = ctx.saved_tensors
-        grad = grad_output.new(torch.zeros(size))
-        grad[index] = grad_output
-        return grad
+
+        # an element that was selected several times gets all of its gradients
+        numel = torch.Size(size).numel()
+        flat_index = torch.arange(numel).view(size)[index].flatten()
+        grad = grad_output.new(torch.zeros(numel))
+        grad = grad.index_add(0, flat_index, grad_output.flatten())
+        return grad.reshape(size)
 
 
 @register_function("neg")
-- 
2.43.0


From 768c0ce33ab7b642a2b090b19d8684841e38ca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:02 +0000
Subject: [PATCH 18/58] fix: gradient of narrow along a negative dimension

---
 crypten/gradients.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index b362e39..2adbe21 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -295,6 +295,7 @@ class AutogradNarrow(AutogradFunction):
         size, dim, start, length = ctx.saved_tensors
 
         # pad is applied to dimensions in reverse order
+        dim = dim + grad_output.dim() if dim < 0 else dim
         dim = grad_output.dim() - 1 - dim
 
         # pad is applied in pairs that denote the pads at the beginning and end
-- 
2.43.0


From a4789e1625542479cf34d10d55f49fea422f0f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:02 +0000
Subject: [PATCH 19/58] fix: gradient of a matrix product of a vector and a
 batch of matrices

---
 crypten/gradients.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 2adbe21..281efc9 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -749,13 +749,13 @@ class AutogradMatMul(AutogradFunction):
 
         # Deal with vectors that are represented by a
         # < 2 dimensional tensor
-        if self_.dim() < 2:
-            self_ = self_.unsqueeze(0)
-            grad_output = grad_output.unsqueeze(0)
-
         if other.dim() < 2:
             other = other.unsqueeze(1)
-            grad_output = grad_output.unsqueeze(1)
+            grad_output = grad_output.unsqueeze(-1)
+
+        if self_.dim() < 2:
+            self_ = self_.unsqueeze(0)
+            grad_output = grad_output.unsqueeze(-2)
 
         # Compute gradients
         self_grad = grad_output.matmul(other.transpose(-2, -1))
@@ -763,14 +763,10 @@ class AutogradMatMul(AutogradFunction):
 
         # Fix gradient sizes for vector inputs
         if len(self_size) < 2:
-            self_grad = self_grad.squeeze()
-            if self_grad.dim() < 1:
-                self_grad = self_grad.unsqueeze(0)
+            self_grad = self_grad.squeeze(-2)
 
         if len(other_size) < 2:
-            other_grad = other_grad.squeeze()
-            if other_grad.dim() < 1:
-                other_grad = other_grad.unsqueeze(0)
+            other_grad = other_grad.squeeze(-1)
 
         return (
             _inverse_broadcast(self_grad, self_size),
-- 
2.43.0


From 3ff40e04eb0e381a0db498a23a1d14201c16bb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:02 +0000
Subject: [PATCH 20/58] fix: gradient of pos_pow with a non-integer power

---
 crypten/gradients.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 281efc9..2db717e 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -881,7 +881,8 @@ class AutogradPosPow(AutogradFunction):
         if isinstance(power, int) or (isinstance(power, float) and int(power) == power):
             return input.pow(power - 1.0).mul_(power).mul_(grad_output)
         else:
-            return input.mul(power - 1.0).mul_(power).exp().mul(grad_output)
+            log_input = input
+            return log_input.mul(power - 1.0).exp().mul_(power).mul_(grad_output)
 
 
 @register_function("square")
-- 
2.43.0


From 5a851f225bff0d0cd687ad3021bac2b0b8563c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:02 +0000
Subject: [PATCH 21/58] fix: gradient of a norm along a dimension that is not
 kept

---
 crypten/gradients.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 2db717e..792e43c 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -1116,7 +1116,9 @@ class AutogradNorm(AutogradFunction):
     def backward(ctx, grad_output):
         input, norm, p, dim, keepdim = ctx.saved_tensors
         if not keepdim and dim is not None:
-            grad_output.unsqueeze(dim)
+            grad_output = grad_output.unsqueeze(dim)
+            if p != float("inf"):
+                norm = norm.unsqueeze(dim)
 
         if p == 2 or p == "fro":
             return grad_output.mul(input.div(norm))
-- 
2.43.0


From aa7dd7b4cce7afa00c24d75639b841439456ed90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:02 +0000
Subject: [PATCH 22/58] fix: cosine_similarity along a negative dimension under
 autograd

---
 crypten/gradients.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 792e43c..c9f95bb 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -1019,6 +1019,8 @@ class AutogradCosineSimilarity(AutogradFunction):
             x1 = x1.unsqueeze(0)
             x2 = x2.unsqueeze(0)
 
+        dim = dim + x1.dim() if dim < 0 else dim
+
         # Handle 1-d vectors
         if x1.size(dim) == 1:
             ctx.save_multiple_for_backward([dim, zero_dim])
-- 
2.43.0


From ae18acbc5ab59a5759b4781f1b8b52dc6d414f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:29 +0000
Subject: [PATCH 23/58] fix: the unbiased flag of var was inverted

---
 crypten/common/functions/regular.py | 6 +++---
 crypten/gradients.py                | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/crypten/common/functions/regular.py b/crypten/common/functions/regular.py
index d40dd95..9d11a7c 100644
--- a/crypten/common/functions/regular.py
+++ b/crypten/common/functions/regular.py
@@ -166,11 +166,11 @@ def var(self, *args, **kwargs):
     # preprocess inputs:
     if len(args) == 0:
         dim = None
-        unbiased = kwargs.get("unbiased", False)
+        unbiased = kwargs.get("unbiased", True)
         mean = self.mean()
     elif len(args) == 1:
         dim = args[0]
-        unbiased = kwargs.get("unbiased", False)
+        unbiased = kwargs.get("unbiased", True)
         keepdim = kwargs.get("keepdim", False)
     elif len(args) == 2:
         dim, unbiased = args[0], args[1]
@@ -190,7 +190,7 @@ def var(self, *args, **kwargs):
 
     # Determine divisor
     divisor = self.nelement() // result.nelement()
-    if not unbiased:
+    if unbiased:
         divisor -= 1
 
     # Compute mean square error
diff --git a/crypten/gradients.py b/crypten/gradients.py
index c9f95bb..79bf1ae 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -1235,12 +1235,12 @@ class AutogradVariance(AutogradFunction):
         # preprocess inputs:
         if len(args) == 0:
             dim = None
-            unbiased = kwargs.get("unbiased", False)
+            unbiased = kwargs.get("unbiased", True)
             keepdim = False
             mean = self.mean()
         elif len(args) == 1:
             dim = args[0]
-            unbiased = kwargs.get("unbiased", False)
+            unbiased = kwargs.get("unbiased", True)
             keepdim = kwargs.get("keepdim", False)
         elif len(args) == 2:
             dim, unbiased = args[0], args[1]
@@ -1260,7 +1260,7 @@ class AutogradVariance(AutogradFunction):
 
         # Determine divisor
         divisor = self.nelement() // result.nelement()
-        if not unbiased:
+        if unbiased:
             divisor -= 1
 
         # compute variance:
@@ -1808,7 +1808,7 @@ class AutogradBatchNorm(AutogradFunction):
         # compute mean and variance, track batch statistics:
         if training:
             mean = x.mean(stats_dimensions)
-            variance = x.var(stats_dimensions, unbiased=True)
+            variance = x.var(stats_dimensions, unbiased=False)
             if running_mean is not None and running_var is not None:
                 running_var.set(running_var * (1.0 - momentum) + variance * momentum)
                 running_mean.set(running_mean * (1.0 - momentum) + mean * momentum)
-- 
2.43.0


From 2908f2ec2c7845e69f4f93ec734afd4b8d665fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:42 +0000
Subject: [PATCH 24/58] fix: hardtanh with non-integer bounds under autograd

---
 crypten/gradients.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 79bf1ae..fc63d81 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -606,10 +606,11 @@ class AutogradHardtanh(AutogradFunction):
         grad = intermediate.sum(0).sub(1)
         ctx.save_for_backward(grad)
 
-        result = grad.mul(input)
-        result += (1 - intermediate[0]).mul(min_val)
-        result += (1 - intermediate[1]).mul(max_val)
-        return result
+        # the bounds are added to encoded tensors only: the comparison results
+        # are integers, so multiplying those with a bound would truncate it
+        above = crypten.stack([intermediate[0], 1 - intermediate[1]])
+        result = above.mul(crypten.stack([input - min_val, input - max_val]))
+        return result[0] - result[1] + min_val
 
     @staticmethod
     def backward(ctx, grad_output):
-- 
2.43.0


From d7f1923e95c4e03dde4f62d1597fff4590aa5791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:42 +0000
Subject: [PATCH 25/58] fix: name the bounds of hardtanh as its documentation
 does

---
 crypten/common/functions/logic.py | 6 +++---
 crypten/gradients.py              | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crypten/common/functions/logic.py b/crypten/common/functions/logic.py
index 1bcaf27..8dda71f 100644
--- a/crypten/common/functions/logic.py
+++ b/crypten/common/functions/logic.py
@@ -85,7 +85,7 @@ def relu(self):
     return self * self.ge(0)
 
 
-def hardtanh(self, min_value=-1, max_value=1):
+def hardtanh(self, min_val=-1, max_val=1):
     r"""Applies the HardTanh function element-wise
 
     HardTanh is defined as:
@@ -104,9 +104,9 @@ def hardtanh(self, min_value=-1, max_value=1):
         min_val: minimum value of the linear region range. Default: -1
         max_val: maximum value of the linear region range. Default: 1
     """
-    intermediate = crypten.stack([self - min_value, self - max_value]).relu()
+    intermediate = crypten.stack([self - min_val, self - max_val]).relu()
     intermediate = intermediate[0].sub(intermediate[1])
-    return intermediate.add_(min_value)
+    return intermediate.add_(min_val)
 
 
 def where(self, condition, y):
diff --git a/crypten/gradients.py b/crypten/gradients.py
index fc63d81..b08aa29 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -642,7 +642,7 @@ class AutogradReLU6(AutogradFunction):
 
     @staticmethod
     def relu6(self):
-        return self.hardtanh(min_value=0, max_value=6)
+        return self.hardtanh(min_val=0, max_val=6)
 
     @staticmethod
     def forward(ctx, input):
-- 
2.43.0


From 82311aa3cce470f1afa8b6c2710eda95296b34c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:42 +0000
Subject: [PATCH 26/58] fix: avg_pool2d under autograd ignored ceil_mode

---
 crypten/gradients.py                 |  5 ++++-
 crypten/mpc/primitives/arithmetic.py | 15 ++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index b08aa29..b63fe50 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -1464,7 +1464,10 @@ class AutogradAvgPool2D(AutogradFunction):
             kernel_size = (kernel_size, kernel_size)
 
         # perform average pooling:
-        output = input.avg_pool2d(kernel_size, padding=padding, stride=stride)
+        kwargs = {"ceil_mode": ceil_mode} if ceil_mode else {}
+        output = input.avg_pool2d(
+            kernel_size, padding=padding, stride=stride, **kwargs
+        )
 
         # store information for backward pass:
         ctx.save_multiple_for_backward(
diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index 952118c..5f3affa 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -555,15 +555,16 @@ class ArithmeticSharedTensor:
         Args:
             kernel_size (int or tuple): pooling kernel size.
         """
-        # TODO: Add check for whether ceil_mode would change size of output and allow ceil_mode when it wouldn't
+        z = self._sum_pool2d(kernel_size, stride=stride, padding=padding)
         if ceil_mode:
-            raise NotImplementedError(
-                "CrypTen does not support `ceil_mode` for `avg_pool2d`"
+            z_ceil = self._sum_pool2d(
+                kernel_size, stride=stride, padding=padding, ceil_mode=True
             )
-
-        z = self._sum_pool2d(
-            kernel_size, stride=stride, padding=padding, ceil_mode=ceil_mode
-        )
+            if z_ceil.size() != z.size():
+                raise NotImplementedError(
+                    "CrypTen does not support `ceil_mode` for `avg_pool2d`"
+                    " when it changes the size of the output"
+                )
         if isinstance(kernel_size, (int, float)):
             pool_size = kernel_size**2
         else:
-- 
2.43.0


From 8a2f5ba3c1606457d12c98f887b01dc2a738b238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:35 +0000
Subject: [PATCH 27/58] fix: gradient of max_pool2d with different paddings of
 rows and columns

---
 crypten/gradients.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index b63fe50..5ec02b6 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -1572,7 +1572,6 @@ class AutogradMaxPool2D(AutogradFunction):
             dilation,
             ceil_mode,
         ) = ctx.saved_tensors
-        assert padding[0] == padding[1], "padding must be same in all axes"
         return grad_output._max_pool2d_backward(
             indices,
             kernel_size,
-- 
2.43.0


From 5af1a8af80ff0f47f6a58b554d86806db85baf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:46 +0000
Subject: [PATCH 28/58] fix: reciprocal_log_iters had no effect

---
 configs/default.yaml                       | 2 +-
 crypten/common/functions/approximations.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/configs/default.yaml b/configs/default.yaml
index 3f8b37f..9b9602c 100644
--- a/configs/default.yaml
+++ b/configs/default.yaml
@@ -14,7 +14,7 @@ functions:
   # reciprocal configuration
   reciprocal_method: "NR"
   reciprocal_nr_iters: 10
-  reciprocal_log_iters: 1
+  reciprocal_log_iters: 2
   reciprocal_all_pos: False
   reciprocal_initial: null
 
diff --git a/crypten/common/functions/approximations.py b/crypten/common/functions/approximations.py
index 47281bc..9d9e3fa 100644
--- a/crypten/common/functions/approximations.py
+++ b/crypten/common/functions/approximations.py
@@ -169,7 +169,7 @@ def reciprocal(self, input_in_01=False):
         return result
     elif method == "log":
         log_iters = cfg.functions.reciprocal_log_iters
-        with cfg.temp_override({"functions.log_iters": log_iters}):
+        with cfg.temp_override({"functions.log_iterations": log_iters}):
             return exp(-log(self))
     else:
         raise ValueError(f"Invalid method {method} given for reciprocal function")
-- 
2.43.0


From 0cb9da57900bc3fb3191a5b3f198d148e90ae185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:46 +0000
Subject: [PATCH 29/58] fix: inv_sqrt and sqrt with a configured initial value

---
 crypten/common/functions/approximations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypten/common/functions/approximations.py b/crypten/common/functions/approximations.py
index 9d9e3fa..3324c5b 100644
--- a/crypten/common/functions/approximations.py
+++ b/crypten/common/functions/approximations.py
@@ -200,7 +200,10 @@ def inv_sqrt(self):
 
     # Newton Raphson iterations for inverse square root
     for _ in range(iters):
-        y = y.mul_(3 - self * y.square()).div_(2)
+        if hasattr(y, "square"):
+            y = y.mul_(3 - self * y.square()).div_(2)
+        else:
+            y = (3 - self * (y * y)).mul_(y).div_(2)
     return y
 
 
-- 
2.43.0


From 239d727a200e1fd8352ffcfed2691dd4768d533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:09 +0000
Subject: [PATCH 30/58] fix: detached tensors stayed connected to the autograd
 graph

---
 crypten/cryptensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crypten/cryptensor.py b/crypten/cryptensor.py
index b3ed2a6..152dd3b 100644
--- a/crypten/cryptensor.py
+++ b/crypten/cryptensor.py
@@ -274,13 +274,13 @@ class CrypTensor(object, metaclass=CrypTensorMetaclass):
     def detach_(self):
         """Detaches tensor from the autograd graph (in-place), making it a leaf."""
         self.requires_grad = False
+        self.grad_fn = None
+        self.children = []
         return self
 
     def detach(self):
         """Detaches tensor from the autograd graph, making it a leaf."""
-        clone = self.clone()
-        clone.requires_grad = False
-        return clone
+        return self.clone().detach_()
 
     def __torch_function__(self, func, types, args=(), kwargs=None):
         """Allows torch static functions to work on CrypTensors."""
-- 
2.43.0


From 6fd1235d3d6d70c7531f78141a2934276f773594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:09 +0000
Subject: [PATCH 31/58] fix: rejected backward call made later backward calls
 lose gradients

---
 crypten/cryptensor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crypten/cryptensor.py b/crypten/cryptensor.py
index 152dd3b..c89f883 100644
--- a/crypten/cryptensor.py
+++ b/crypten/cryptensor.py
@@ -218,10 +218,6 @@ class CrypTensor(object, metaclass=CrypTensorMetaclass):
         """
         if self.requires_grad:
             with CrypTensor.no_grad():  # disable autograd for backward pass
-                # in initial backward call, identify all required nodes:
-                if top_node:
-                    self._identify_required_grads()
-
                 # if undefined, set gradient input to one:
                 if grad_input is None:
                     if self.nelement() == 1:
@@ -231,6 +227,10 @@ class CrypTensor(object, metaclass=CrypTensorMetaclass):
                             "grad can be implicitly created only for scalar outputs"
                         )
 
+                # in initial backward call, identify all required nodes:
+                if top_node:
+                    self._identify_required_grads()
+
                 # process gradient input:
                 self.grad_received += 1
                 if self.grad is None:
-- 
2.43.0


From 7c58980981c364e2256f7da8c62ad6fc51f0dad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:09 +0000
Subject: [PATCH 32/58] fix: gradients lost when a consumer does not propagate
 any

---
 crypten/cryptensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crypten/cryptensor.py b/crypten/cryptensor.py
index c89f883..42b0fc3 100644
--- a/crypten/cryptensor.py
+++ b/crypten/cryptensor.py
@@ -209,7 +209,9 @@ class CrypTensor(object, metaclass=CrypTensorMetaclass):
         self.grad_expected += 1
         if self.grad_expected == 1:  # only backpropagate once from each node
             for child in self.children:
-                child._identify_required_grads()
+                # other children never receive a gradient:
+                if child.requires_grad and self.ctx.is_differentiable(child):
+                    child._identify_required_grads()
 
     def backward(self, grad_input=None, top_node=True):
         """
-- 
2.43.0


From 77962964c9332dd95b9d20e0e54df87a01cf2d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:09 +0000
Subject: [PATCH 33/58] fix: in-place functions silently dropped the gradients
 of their operands

---
 crypten/cryptensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crypten/cryptensor.py b/crypten/cryptensor.py
index 42b0fc3..8d59f4f 100644
--- a/crypten/cryptensor.py
+++ b/crypten/cryptensor.py
@@ -410,6 +410,8 @@ class CrypTensor(object, metaclass=CrypTensorMetaclass):
 
             def oop_and_copy(*args, **kwargs):
                 result = func(*args, **kwargs)
+                if result.requires_grad:
+                    raise RuntimeError("Cannot use in-place functions with autograd.")
                 self.copy_(result)
                 return self
 
-- 
2.43.0


From 093ab098cef47af68e1d6fca4d06b6308402186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:09 +0000
Subject: [PATCH 34/58] fix: accumulating gradients modified the gradients of
 other tensors

---
 crypten/cryptensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypten/cryptensor.py b/crypten/cryptensor.py
index 8d59f4f..ca6d1f6 100644
--- a/crypten/cryptensor.py
+++ b/crypten/cryptensor.py
@@ -237,8 +237,8 @@ class CrypTensor(object, metaclass=CrypTensorMetaclass):
                 self.grad_received += 1
                 if self.grad is None:
                     self.grad = grad_input  # store gradient...
-                else:
-                    self.grad.add_(grad_input)  # ... or accumulate gradient
+                else:  # ... or accumulate gradient (which other nodes may share)
+                    self.grad = self.grad.add(grad_input)
 
                 # if we are in a leaf or if not all parents have backpropagated:
                 if len(self.children) == 0 or self.grad_received < self.grad_expected:
-- 
2.43.0


From 0945a8abc94f79789845e4bd4e050db62099c0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:30 +0000
Subject: [PATCH 35/58] fix: item assignment to tensors that require gradients
 made their gradients wrong

---
 crypten/common/functions/regular.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crypten/common/functions/regular.py b/crypten/common/functions/regular.py
index 9d11a7c..6a1278b 100644
--- a/crypten/common/functions/regular.py
+++ b/crypten/common/functions/regular.py
@@ -60,6 +60,11 @@ PROPERTY_FUNCTIONS = ["__len__", "nelement", "dim", "size", "numel"]
 
 def __setitem__(self, index, value):
     """Set tensor values by index"""
+    if getattr(self, "AUTOGRAD_ENABLED", False) and (
+        self.requires_grad
+        or (isinstance(value, type(self)) and value.requires_grad)
+    ):
+        raise RuntimeError("Autograd is not supported for in-place functions.")
     if not isinstance(value, type(self)):
         kwargs = {"device": self.device}
         if hasattr(self, "ptype"):
-- 
2.43.0


From 43becc63b041795e9d299097f26b93cb27883165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:45 +0000
Subject: [PATCH 36/58] fix: operands passed by keyword received no gradient

---
 crypten/cryptensor.py | 5 ++++-
 crypten/gradients.py  | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/crypten/cryptensor.py b/crypten/cryptensor.py
index ca6d1f6..4c6b192 100644
--- a/crypten/cryptensor.py
+++ b/crypten/cryptensor.py
@@ -5,6 +5,7 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
+import inspect
 from contextlib import contextmanager
 
 import torch
@@ -323,7 +324,9 @@ class CrypTensor(object, metaclass=CrypTensorMetaclass):
             """Forward function that stores data for autograd in result."""
             with CrypTensor.no_grad():
                 # only CrypTensors can be children:
-                tensor_args = _find_all_cryptensors(args)
+                parameters = inspect.signature(grad_fn.forward).parameters
+                keyword_args = [kwargs[key] for key in parameters if key in kwargs]
+                tensor_args = _find_all_cryptensors([*args, *keyword_args])
                 children = tensor_args if is_dummy else [self, *tensor_args]
 
                 # identify whether result requires gradient:
diff --git a/crypten/gradients.py b/crypten/gradients.py
index 5ec02b6..eac3766 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -1800,6 +1800,9 @@ class AutogradBatchNorm(AutogradFunction):
         Returns: (weight * normalized input + bias) of shape `(N, C, +)`.
         """
 
+        # statistics do not receive gradients:
+        ctx.mark_non_differentiable([running_mean, running_var, inv_var])
+
         # determine dimensions over which means and variances are computed:
         stats_dimensions = list(range(x.dim()))
         stats_dimensions.pop(1)
-- 
2.43.0


From 5d91057e023b6599b61a3016f8b0fac6fc002feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:45 +0000
Subject: [PATCH 37/58] fix: backward of polynomial modified the coefficients
 of the caller

---
 crypten/gradients.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index eac3766..bc9bfd8 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -845,7 +845,7 @@ class AutogradPolynomial(AutogradFunction):
     @staticmethod
     def backward(ctx, grad_output):
         input, coeffs, func = ctx.saved_tensors
-        coeffs *= torch.arange(coeffs.size(0)).add(1)
+        coeffs = coeffs * torch.arange(coeffs.size(0)).add(1)
         return input.polynomial(coeffs[1:], func).add(coeffs[0]).mul_(grad_output)
 
 
-- 
2.43.0


From c8ce89db46a62d07f942b4f148d8a471c2a20524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:55 +0000
Subject: [PATCH 38/58] fix: comparisons propagated the gradients of an
 identity function

---
 crypten/mpc/mpc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crypten/mpc/mpc.py b/crypten/mpc/mpc.py
index aa12d67..0fac173 100644
--- a/crypten/mpc/mpc.py
+++ b/crypten/mpc/mpc.py
@@ -234,7 +234,8 @@ class MPCTensor(CrypTensor):
         """Returns 1 for elements that are < 0 and 0 otherwise"""
         shift = torch.iinfo(torch.long).bits - 1
 
-        result = self._to_ptype(Ptype.binary)
+        # comparisons are piecewise constant, so they do not propagate gradients
+        result = self.detach()._to_ptype(Ptype.binary)
         result.share >>= shift
         # The sign bit is an unscaled integer whatever the scale of self
         result.encoder = FixedPointEncoder(precision_bits=0)
-- 
2.43.0


From 162f86d50785e92bfb4b5402eba828e6180f6530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:55 +0000
Subject: [PATCH 39/58] fix: tensors added by index_add and scatter_add
 received no gradient

---
 crypten/gradients.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index bc9bfd8..5c1db7e 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -360,6 +360,32 @@ class AutogradGather(AutogradFunction):
         return grad_output.new(torch.zeros(size)).scatter_add_(dim, index, grad_output)
 
 
+@register_function("index_add")
+class AutogradIndexAdd(AutogradFunction):
+    @staticmethod
+    def forward(ctx, input, dim, index, tensor):
+        ctx.save_multiple_for_backward([dim, index])
+        return input.index_add(dim, index, tensor)
+
+    @staticmethod
+    def backward(ctx, grad_output):
+        dim, index = ctx.saved_tensors
+        return grad_output.clone(), grad_output.index_select(dim, index)
+
+
+@register_function("scatter_add")
+class AutogradScatterAdd(AutogradFunction):
+    @staticmethod
+    def forward(ctx, input, dim, index, other):
+        ctx.save_multiple_for_backward([dim, index])
+        return input.scatter_add(dim, index, other)
+
+    @staticmethod
+    def backward(ctx, grad_output):
+        dim, index = ctx.saved_tensors
+        return grad_output.clone(), grad_output.gather(dim, index)
+
+
 @register_function("scatter")
 class AutogradScatter(AutogradFunction):
     @staticmethod
-- 
2.43.0


From aec47a3f0cb4bb718139aed86bedadf48102d9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:01 +0000
Subject: [PATCH 40/58] fix: settings could not be overridden with None

---
 crypten/config/config.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crypten/config/config.py b/crypten/config/config.py
index 2cfc0a0..846c1fc 100644
--- a/crypten/config/config.py
+++ b/crypten/config/config.py
@@ -5,6 +5,7 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
+import copy
 import os
 from contextlib import contextmanager
 
@@ -77,9 +78,9 @@ class CrypTenConfig:
             object.__getattribute__(self, name)
             object.__setattr__(self, name, value)
         except AttributeError:
-            dotlist = [f"{name}={value}"]
-            update = OmegaConf.from_dotlist(dotlist)
-            self.config = OmegaConf.merge(self.config, update)
+            config = copy.deepcopy(self.config)
+            OmegaConf.update(config, name, value)
+            self.config = config
 
     def __setitem__(self, name, value):
         self.__setattr__(name, value)
@@ -88,9 +89,10 @@ class CrypTenConfig:
     def temp_override(self, override_dict):
         old_config = self.config
         try:
-            dotlist = [f"{k}={v}" for k, v in override_dict.items()]
-            update = OmegaConf.from_dotlist(dotlist)
-            self.config = OmegaConf.merge(self.config, update)
+            config = copy.deepcopy(self.config)
+            for name, value in override_dict.items():
+                OmegaConf.update(config, name, value)
+            self.config = config
             yield
         finally:
             self.config = old_config
-- 
2.43.0


From 1712bac6b87819515b20f6a85ccfec434a01ef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 41/58] fix: graphs could not feed one value to several inputs
 of a module

---
 crypten/nn/module.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 21d0fd5..9436bdf 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -669,8 +669,9 @@ class Graph(Container):
             """Marks a value as having been computed."""
             computed[name] = True
             for key, value_list in self._graph.items():
-                if name in value_list:
-                    inputs_available[key][value_list.index(name)] = True
+                for idx, value_name in enumerate(value_list):
+                    if value_name == name:
+                        inputs_available[key][idx] = True
 
         def _find_computable_node():
             """Find a node for which all inputs are available."""
-- 
2.43.0


From d84d189dc3a7a5dcb695a817ce9656f12dbf7dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 42/58] fix: graphs with several outputs dropped finished
 outputs

---
 crypten/nn/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 9436bdf..b33cdf6 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -684,7 +684,7 @@ class Graph(Container):
             """Clear values that are no longer needed (to save memory)."""
             remove_keys = []
             for remove_key in values.keys():
-                can_be_removed = True
+                can_be_removed = remove_key not in self.output_names
 
                 # we cannot remove a value if it is still needed:
                 for key, value_list in self._graph.items():
-- 
2.43.0


From 20ad06ed860cefbe44dec56a3d34c7d67f8e66b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 43/58] fix: Sequential built from an OrderedDict was not
 connected

---
 crypten/nn/module.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index b33cdf6..eb336e6 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -779,13 +779,12 @@ class Sequential(Graph):
             if isinstance(module, OrderedDict):
                 for key, val in module.items():
                     self.add_module(key, val, input_names)
-                    input_names = key
-                self.output_names = [key]
+                    input_names = [key]
+                    self.output_names = [key]
             else:
                 module_name = str(idx)
-                if idx > 0:
-                    input_names = [str(idx - 1)]
                 self.add_module(module_name, module, input_names)
+                input_names = [module_name]
                 self.output_names = [module_name]
 
 
-- 
2.43.0


From d36eb8df6a0251c431ede70848fa5784e11f34de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 44/58] fix: load_state_dict ignored buffers and keys that do
 not match

---
 crypten/nn/module.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index eb336e6..bfd683c 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -5,6 +5,7 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
+import itertools
 import logging
 import warnings
 from collections import OrderedDict
@@ -237,7 +238,11 @@ class Module:
 
         # get state dict for just the current module (without children)
         local_state = {
-            key: val for key, val in self.named_parameters() if val is not None
+            key: val
+            for key, val in itertools.chain(
+                self.named_parameters(recurse=False), self.named_buffers(recurse=False)
+            )
+            if val is not None
         }
 
         # in strict mode, check for missing keys in the state_dict:
@@ -250,6 +255,8 @@ class Module:
         # loop over parameters / buffers in module:
         for name, param in local_state.items():
             key = prefix + name
+            if key not in state_dict:
+                continue
             input_param = state_dict[key]
 
             # size in state_dict should match size of parameters:
@@ -292,6 +299,12 @@ class Module:
                 raise ValueError(
                     "Specified state_dict has incorrect version: {}".format(version)
                 )
+            expected = self.state_dict()
+            unexpected = [key for key in state_dict if key not in expected]
+            if len(unexpected) > 0:
+                raise ValueError(
+                    "Unexpected keys in state dict: {}.".format(", ".join(unexpected))
+                )
 
         # make copy state_dict so that load() can modify it:
         state_dict = state_dict.copy()
-- 
2.43.0


From 581f9566660e8550622ffa01d9bde780fbd7424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 45/58] fix: Conv modules imported from ONNX mixed up the
 paddings of dimensions

---
 crypten/nn/module.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index bfd683c..dbf0ce4 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -2027,7 +2027,7 @@ class Conv(Module):
 
         # CrypTen and Torch use a single padding number per dimension:
         padding = attributes["pads"]
-        padding = [padding[idx] for idx in range(0, len(padding), 2)]
+        padding = _symmetric_padding(padding)
 
         # return module:
         return Conv(
@@ -2960,6 +2960,16 @@ class GroupNorm(Module):
         raise NotImplementedError("GroupNorm is not implemented.")
 
 
+def _symmetric_padding(pads):
+    """
+    Converts ONNX `pads` (the padding at the start of all dimensions, followed by
+    that at the end of all dimensions) into a single padding number per dimension.
+    """
+    start, end = pads[: len(pads) // 2], pads[len(pads) // 2 :]
+    assert list(start) == list(end), "only symmetric padding is supported"
+    return start
+
+
 def _all_the_same(items):
     """
     Checks whether all values in a list are the same.
-- 
2.43.0


From bab15aa352cfd6edab1af81c0ad40da152cfacb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 46/58] fix: unencrypted Conv modules failed

---
 crypten/nn/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index dbf0ce4..8f595e4 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -2002,7 +2002,7 @@ class Conv(Module):
         # identify correct convolution function to use:
         if torch.is_tensor(x):
             func = getattr(torch.nn.functional, f"conv{dim}d", None)
-            args = [x] + args + bias  # torch function takes different inputs
+            args = [x] + args + [bias]  # torch function takes different inputs
         else:
             func = getattr(x, f"conv{dim}d", None)
 
-- 
2.43.0


From bf407f4080fafa7f0ab90b28a82563c90b4ba76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 47/58] fix: pooling imported from ONNX dropped dilation and
 all but one kernel, stride and padding

---
 crypten/nn/module.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 8f595e4..e7aa8c0 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -2559,7 +2559,7 @@ class _Pool2d(Module):
         if self.pool_type == "average":
             return x.avg_pool2d(*args, **kwargs)
         elif self.pool_type == "max":
-            return x.max_pool2d(*args, **kwargs)
+            return x.max_pool2d(*args, dilation=self.dilation, **kwargs)
         else:
             raise ValueError("Unknown pooling type: %s" % self.pool_type)
 
@@ -2569,25 +2569,27 @@ class _Pool2d(Module):
         if attributes is None:
             attributes = {}
         if "pads" not in attributes:
-            attributes["pads"] = [0]
-        assert _all_the_same(["kernel_shape"]), "only square kernels are supported"
-        assert _all_the_same(
-            attributes["strides"]
-        ), "stride must be the same in each dimension"
+            attributes["pads"] = [0, 0, 0, 0]
+        padding = tuple(_symmetric_padding(attributes["pads"]))
+        dilation = tuple(attributes.get("dilations", [1, 1]))
         attributes["ceil_mode"] = attributes.get("ceil_mode", 0)
         attributes["ceil_mode"] = attributes["ceil_mode"] > 0
 
         # initialize module
-        args = [attributes["kernel_shape"][0]]
+        args = [tuple(attributes["kernel_shape"])]
         kwargs = {
-            "stride": attributes["strides"][0],
-            "padding": attributes["pads"][0],
+            "stride": tuple(attributes.get("strides", [1, 1])),
+            "padding": padding,
             "ceil_mode": attributes["ceil_mode"],
         }
         if pool_type == "average":
+            assert _all_the_same((1,) + dilation), "dilation is not supported"
+            assert (
+                attributes.get("count_include_pad", 0) > 0 or not any(padding)
+            ), "average pooling always includes the padding"
             return AvgPool2d(*args, **kwargs)
         elif pool_type == "max":
-            return MaxPool2d(*args, **kwargs)
+            return MaxPool2d(*args, dilation=dilation, **kwargs)
         else:
             raise ValueError("Unknown pooling type: %s" % pool_type)
 
@@ -2650,10 +2652,13 @@ class MaxPool2d(_Pool2d):
     Module that performs 2D max pooling (see :meth:`AvgPool2d`)
     """
 
-    def __init__(self, kernel_size, stride=None, padding=0, ceil_mode=False):
+    def __init__(
+        self, kernel_size, stride=None, padding=0, ceil_mode=False, dilation=1
+    ):
         super().__init__(
             "max", kernel_size, stride=stride, padding=padding, ceil_mode=ceil_mode
         )
+        self.dilation = dilation
 
     @staticmethod
     def from_onnx(attributes=None):
-- 
2.43.0


From b2102df49a166c405bae3798b70a843960349e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 48/58] fix: cat of plain tensors ignored the dimension

---
 crypten/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/__init__.py b/crypten/__init__.py
index 8e2b84d..d9a1299 100644
--- a/crypten/__init__.py
+++ b/crypten/__init__.py
@@ -452,7 +452,7 @@ def cat(tensors, dim=0):
     """
     assert isinstance(tensors, list), "input to cat must be a list"
     if all(torch.is_tensor(t) for t in tensors):
-        return torch.cat(tensors)
+        return torch.cat(tensors, dim=dim)
 
     assert all(isinstance(t, CrypTensor) for t in tensors), "inputs must be CrypTensors"
     tensor_types = [get_cryptensor_type(t) for t in tensors]
-- 
2.43.0


From 2d64ba92e160809c65a3e08f83771d9142af617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 49/58] fix: batchnorm tracked the biased variance

---
 crypten/gradients.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 5c1db7e..b7e593f 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -1842,7 +1842,12 @@ class AutogradBatchNorm(AutogradFunction):
             mean = x.mean(stats_dimensions)
             variance = x.var(stats_dimensions, unbiased=False)
             if running_mean is not None and running_var is not None:
-                running_var.set(running_var * (1.0 - momentum) + variance * momentum)
+                # the running variance tracks the unbiased estimate:
+                num_element = x.nelement() // x.size(1)
+                correction = num_element / max(num_element - 1, 1)
+                running_var.set(
+                    running_var * (1.0 - momentum) + variance * (momentum * correction)
+                )
                 running_mean.set(running_mean * (1.0 - momentum) + mean * momentum)
         else:
             if running_mean is None or running_var is None:
-- 
2.43.0


From c261581aa8ab3f38770e2d203e637f56b403d0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 50/58] fix: update_parameters changed the gradients

---
 crypten/nn/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index e7aa8c0..c94c24c 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -356,7 +356,7 @@ class Module:
                 else:
                     grad = param.grad
 
-                param.sub_(grad.mul_(learning_rate))
+                param.sub_(grad.mul(learning_rate))
 
     def register_buffer(self, name, buffer):
         """
-- 
2.43.0


From 49b8bd3964e09cf7ace002af2af597bd7a9db949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 51/58] fix: inference-mode batchnorm kept a stale inverse
 variance

---
 crypten/nn/module.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index c94c24c..082b504 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -2923,13 +2923,26 @@ class _BatchNorm(Module):
     def train(self, mode=True):
         """Freezes the inverse variance during inference to save computation"""
         super().train(mode=mode)
+        self._update_inv_var()
+        return self
+
+    def set_buffer(self, name, buffer):
+        super().set_buffer(name, buffer)
+        if name == "running_var":
+            self._update_inv_var()
+
+    def _load_from_state_dict_crypten(self, state_dict, prefix, strict):
+        super()._load_from_state_dict_crypten(state_dict, prefix, strict)
+        self._update_inv_var()
+
+    def _update_inv_var(self):
+        """Computes the inverse variance that is used during inference"""
         if self.training:
             self.inv_var = None
         elif isinstance(self.running_var, crypten.CrypTensor):
             self.inv_var = self.running_var.add(self.eps).inv_sqrt()
         else:
             self.inv_var = self.running_var.add(self.eps).sqrt().reciprocal()
-        return self
 
 
 class BatchNorm1d(_BatchNorm):
-- 
2.43.0


From 7b2d72cae328f7a108f5af5495311f63d7800fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 52/58] fix: cross-entropy of a batch of one sample was divided
 by the number of classes

---
 crypten/gradients.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index b7e593f..e5e8cbb 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -2060,10 +2060,12 @@ class AutogradCrossEntropy(AutogradFunction):
 
         # Compute full forward pass
         loss_values = softmax.log(input_in_01=True).mul_(target).neg_()
-        return loss_values.sum().div_(target.size(0))
+        batch_size = target.size(0) if target.dim() > 1 else 1
+        return loss_values.sum().div_(batch_size)
 
     @staticmethod
     def backward(ctx, grad_output):
         softmax, target = ctx.saved_tensors
         loss_grad = softmax.sub(target)
-        return loss_grad.div_(target.size(0)).mul_(grad_output)
+        batch_size = target.size(0) if target.dim() > 1 else 1
+        return loss_grad.div_(batch_size).mul_(grad_output)
-- 
2.43.0


From e5fd37434c279953d349b4b09ca740d218f857aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:11 +0000
Subject: [PATCH 53/58] fix: imported Pad nodes padded the wrong dimensions

---
 crypten/nn/module.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 082b504..2b5ffc4 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -1798,7 +1798,13 @@ class _ConstantPad(Module):
     def forward(self, input):
         if isinstance(input, list):
             assert len(input) == 2, "input should be [tensor, pads] list"
-            padding = tuple(input[1].int().tolist())
+            # ONNX lists the paddings before all dimensions, then those after:
+            pads = input[1].int().tolist()
+            ndims = len(pads) // 2
+            padding = []
+            for dim in reversed(range(ndims)):
+                padding.extend([pads[dim], pads[dim + ndims]])
+            padding = tuple(padding)
             input = input[0]
         else:
             padding = self.padding
-- 
2.43.0


From fd9c58f9631cdcd9edfc14b93cd26801e6c85792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:11 +0000
Subject: [PATCH 54/58] fix: imported Gather nodes without an axis did not use
 the outermost one

---
 crypten/nn/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 2b5ffc4..eece551 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -1776,7 +1776,7 @@ class Gather(Module):
         if attributes is None:
             attributes = {}
         if "axis" not in attributes:
-            attributes["axis"] = None
+            attributes["axis"] = 0
         if "shape" not in attributes:
             attributes["shape"] = None
         return Gather(attributes["axis"], indices=attributes["shape"])
-- 
2.43.0


From 83c42eb23ca867ba199be06983b2698dd8332cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:51 +0000
Subject: [PATCH 55/58] fix: encrypt and decrypt skipped submodules in a
 different state

---
 crypten/nn/module.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index eece551..02a9b75 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -511,8 +511,9 @@ class Module:
                     self.set_buffer(name, buffer.get_plain_text())
                     self._buffers[name].requires_grad = False
 
-            # apply encryption recursively:
-            return self._apply(lambda m: m.encrypt(mode=mode, src=src))
+        # apply encryption recursively (submodules may be in a different state):
+        for module in self.children():
+            module.encrypt(mode=mode, src=src)
         return self
 
     def decrypt(self):
-- 
2.43.0


From 3b587a12452e5232475c8295e2d5ebc0df5c248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:51 +0000
Subject: [PATCH 56/58] fix: parameters set from shares were excluded from
 training

---
 crypten/nn/module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 02a9b75..c5b7591 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -160,7 +160,9 @@ class Module:
         ), "parameter type {} does not supporting setting from shares".format(cls)
 
         # load parameters from shares:
+        requires_grad = self._parameters[name].requires_grad
         self._parameters[name] = cls.from_shares(share, **kwargs)
+        self._parameters[name].requires_grad = requires_grad
         setattr(self, name, self._parameters[name])
 
     def parameters(self, recurse=True):
-- 
2.43.0


From b64954c4e7359cac672cee191d0bedce3c085c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:51 +0000
Subject: [PATCH 57/58] fix: modules of a ModuleDict could not be replaced

---
 crypten/nn/module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index c5b7591..241d9ff 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -914,10 +914,12 @@ class ModuleDict(Module):
         if modules is not None:
             self.update(modules)
 
+    def __setitem__(self, key, module):
+        self.register_module(key, module)
+
 
 __module_dict_func_names = [
     "__getitem__",
-    "__setitem__",
     "__delitem__",
     "__len__",
     "__iter__",
-- 
2.43.0


From 95be30e2bcaea2ab1473bbe782a6961b7e898999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:51 +0000
Subject: [PATCH 58/58] fix: load_from_party revealed the buffers of models

---
 crypten/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crypten/__init__.py b/crypten/__init__.py
index d9a1299..acc873e 100644
--- a/crypten/__init__.py
+++ b/crypten/__init__.py
@@ -340,6 +340,8 @@ def load_from_party(
                 result_zeros = copy.deepcopy(result)
                 for p in result_zeros.parameters():
                     p.data.fill_(0)
+                for b in result_zeros.buffers():
+                    b.data.fill_(0)
             else:
                 result = comm.get().broadcast_obj(-1, src)
                 raise TypeError("Unrecognized load type %s" % type(result))
-- 
2.43.0

