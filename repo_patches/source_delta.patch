From 0c451ad72e3f41e2f17080720fb516fe527f2c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:52 +0000
Subject: [PATCH 01/68] fix: Pond matmul of private and public kept server 1's
 share on server 0

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 7b11193..868b17f 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -3149,7 +3149,7 @@ def _matmul_private_public(prot, x, y):
         with tf.device(prot.server_0.device_name):
             z0 = x0.matmul(y_on_0)
 
-        with tf.device(prot.server_0.device_name):
+        with tf.device(prot.server_1.device_name):
             z1 = x1.matmul(y_on_1)
 
         z = PondPrivateTensor(prot, z0, z1, x.is_scaled or y.is_scaled)
-- 
2.43.0


From 0e10b892cc4ab2d9326797466b2c87ba570cbc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:52 +0000
Subject: [PATCH 02/68] fix: Pond equal placed server 1's copy of the result on
 server 0

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 868b17f..f91e103 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -4472,7 +4472,7 @@ def _equal_public_public(
         with tf.device(prot.server_0.device_name):
             z_on_0 = x_on_0.equal(y_on_0)
 
-        with tf.device(prot.server_0.device_name):
+        with tf.device(prot.server_1.device_name):
             z_on_1 = x_on_1.equal(y_on_1)
 
         return PondPublicTensor(prot, z_on_0, z_on_1, False)
-- 
2.43.0


From 868c1e1e6d6e39ab1957a8035c9eb3c2746d8c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:52 +0000
Subject: [PATCH 03/68] fix: Pond masked inputs used half of the mask and
 showed the value to the producer

---
 tf_encrypted/protocol/pond/pond.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index f91e103..eba2766 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -556,9 +556,12 @@ class Pond(Protocol):
                 with tf.device(self.triple_source.producer.device_name):
                     seed0 = crypto.secure_seed()
                     seed1 = crypto.secure_seed()
-                    a = factory.sample_seeded_uniform(v.shape, seed0)
-                    +factory.sample_seeded_uniform(v.shape, seed1)
-                    alpha = w - a
+                    a = factory.sample_seeded_uniform(
+                        v.shape, seed0
+                    ) + factory.sample_seeded_uniform(v.shape, seed1)
+                # masking happens on the player, who already knows the value;
+                # the producer knows the mask and must not see the value
+                alpha = w - a
                 with tf.device(self.server_0.device_name):
                     a0 = factory.sample_seeded_uniform(v.shape, seed0)
                     alpha0 = alpha.identity()
-- 
2.43.0


From 0c361097a4e1d01b7ee2414e5cf1aaeb0cfc653b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:52 +0000
Subject: [PATCH 04/68] fix: Pond div rejected every float divisor

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index eba2766..08e6e17 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1045,7 +1045,7 @@ class Pond(Protocol):
 
         if isinstance(y, float):
             y_inverse = 1.0 / y
-        if isinstance(y, int):
+        elif isinstance(y, int):
             y_inverse = 1.0 / float(y)
         elif isinstance(y, PondPublicTensor):
             y_inverse = self.reciprocal(y)
-- 
2.43.0


From f45b5a4ad0ac9d64d4a4cc20cbbb861aebcfb83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:52 +0000
Subject: [PATCH 05/68] fix: Pond avgpool2d used tf.Dimension, which TensorFlow
 2 does not have

---
 tf_encrypted/protocol/pond/pond.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 08e6e17..56be433 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -3374,8 +3374,8 @@ def _avgpool2d_im2col_reduce(
 def _avgpool2d_reshape_reduce(x, pool_size: Tuple[int, int], *args):
     """Perform 2D average pooling by the reshape method."""
     del args
-    pool_height = tf.Dimension(pool_size[0])
-    pool_width = tf.Dimension(pool_size[1])
+    pool_height = pool_size[0]
+    pool_width = pool_size[1]
     n, c, h, w = x.shape
     return (
         x.reshape([n, c, h // pool_height, pool_height, w // pool_width, pool_width])
-- 
2.43.0


From 62b11435a18fabc6bb8157c41e3ddd323a050f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:52 +0000
Subject: [PATCH 06/68] fix: adding a Pond tensor to a number on the left
 failed

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 56be433..d96060a 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1700,7 +1700,7 @@ class PondTensor(TFETensor):
         return self.prot.add(self, other)
 
     def __radd__(self, other):
-        return other.prot.add(other, self)
+        return self.prot.add(other, self)
 
     def reduce_sum(self, axis=None, keepdims=None):
         """
-- 
2.43.0


From 62bcb7b4780d07e1ae814cf84ae21825d9b1e6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:52 +0000
Subject: [PATCH 07/68] fix: Pond squeeze of a masked tensor failed

---
 tf_encrypted/protocol/pond/pond.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index d96060a..8c61157 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -4430,11 +4430,11 @@ def _squeeze_masked(
 ) -> PondMaskedTensor:
     assert isinstance(x, PondMaskedTensor)
 
-    _, a0, a1, alpha_on_0, alpha_on_1 = x.unwrapped
+    a, a0, a1, alpha_on_0, alpha_on_1 = x.unwrapped
 
     with tf.name_scope("squeeze"):
 
-        a_squeezed = prot.triple_source.squeeze_mask(axis=axis)
+        a_squeezed = prot.triple_source.squeeze_mask(a, axis=axis)
 
         with tf.device(prot.server_0.device_name):
             a0_squeezed = a0.squeeze(axis)
@@ -4446,7 +4446,7 @@ def _squeeze_masked(
 
         return PondMaskedTensor(
             prot,
-            prot.squeeze(x.unmasked),
+            prot.squeeze(x.unmasked, axis),
             a_squeezed,
             a0_squeezed,
             a1_squeezed,
-- 
2.43.0


From 8aba2be5713b626cf21db6f970e3ebfd3f3dbae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:52 +0000
Subject: [PATCH 08/68] fix: int100 tensors of rank 0 became rank 1 when
 combined with a number or decoded

---
 tf_encrypted/tensor/int100.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index 4d98cfc..44f7d0f 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -70,7 +70,7 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
         def crt_recombine_explicit(x, bound):
 
             big_b = MODULUS % bound
-            b = [np.array([(MODULUS // mi) % bound], dtype=np.int64) for mi in MODULI]
+            b = [np.array((MODULUS // mi) % bound, dtype=np.int64) for mi in MODULI]
 
             with tf.name_scope("crt_recombine_explicit"):
 
@@ -399,12 +399,12 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
         if isinstance(x, Tensor):
 
             if isinstance(y, int):
-                return x, x.factory.tensor(np.array([y]))
+                return x, x.factory.tensor(np.array(y))
 
         if isinstance(y, Tensor):
 
             if isinstance(x, int):
-                return y.factory.tensor(np.array([x])), y
+                return y.factory.tensor(np.array(x)), y
 
         raise TypeError("Don't know how to lift {} {}".format(type(x), type(y)))
 
-- 
2.43.0


From f0b74e96dd979930d4999a9a8b7b42ec8fe1ddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:54 +0000
Subject: [PATCH 09/68] fix: Pond strided_slice of a masked tensor failed

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 8c61157..0e06623 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -3721,7 +3721,7 @@ def _strided_slice_masked(prot, x: PondMaskedTensor, args: Any, kwargs: Any):
 
         return PondMaskedTensor(
             prot,
-            prot.strided_slice(x.unmasked, args, kwargs),
+            prot.strided_slice(x.unmasked, *args, **kwargs),
             a_slice,
             a0_slice,
             a1_slice,
-- 
2.43.0


From dccc85c5ea0265f80be0e8f33d79c694905fb4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:08 +0000
Subject: [PATCH 10/68] fix: Pond transpose, strided_slice and stack returned
 another call's result

Their hand-written caches ignored perm, the slice arguments and the axis.
---
 tf_encrypted/protocol/pond/pond.py         | 115 ++++++---------------
 tf_encrypted/protocol/securenn/securenn.py |  13 +--
 2 files changed, 33 insertions(+), 95 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 0e06623..2a63b6a 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -48,7 +48,6 @@ from ..protocol import TFEPublicVariable
 from ..protocol import TFETensor
 from ..protocol import TFETensorBone
 from ..protocol import memoize
-from ..protocol import nodes
 from .triple_sources import BaseTripleSource
 from .triple_sources import OnlineTripleSource
 
@@ -992,26 +991,17 @@ class Pond(Protocol):
         x, y = self.lift(x, y)
         return self.dispatch("sub", x, y)
 
+    @memoize
     def mask(self, x):
         """Convert to a PondMaskedTensor."""
         if isinstance(x, (list, tuple)):
             # apply recursively
             return [self.mask(xi) for xi in x]
 
-        node_key = ("mask", x)
-        x_masked = nodes.get(node_key, None)
-
-        if x_masked is not None:
-            return x_masked
-
         if isinstance(x, PondPrivateTensor):
-            x_masked = _mask_private(self, x)
+            return _mask_private(self, x)
 
-        else:
-            raise TypeError("Don't know how to mask {}".format(type(x)))
-
-        nodes[node_key] = x_masked
-        return x_masked
+        raise TypeError("Don't know how to mask {}".format(type(x)))
 
     @memoize
     def mul(self, x, y):
@@ -1073,6 +1063,7 @@ class Pond(Protocol):
     def indexer(self, x: "PondTensor", slc) -> "PondTensor":
         return self.dispatch("indexer", x, slc)
 
+    @memoize
     def transpose(self, x, perm=None) -> "PondTensor":
         """
         transpose(x, perm=None) -> PondTensor
@@ -1083,26 +1074,16 @@ class Pond(Protocol):
         :param List perm: A permutation of axis indices.
         """
 
-        node_key = ("transpose", x)
-        x_t = nodes.get(node_key, None)
-
-        if x_t is not None:
-            return x_t
-
         if isinstance(x, PondPublicTensor):
-            x_t = _transpose_public(self, x, perm=perm)
+            return _transpose_public(self, x, perm=perm)
 
-        elif isinstance(x, PondPrivateTensor):
-            x_t = _transpose_private(self, x, perm=perm)
-
-        elif isinstance(x, PondMaskedTensor):
-            x_t = _transpose_masked(self, x, perm=perm)
+        if isinstance(x, PondPrivateTensor):
+            return _transpose_private(self, x, perm=perm)
 
-        else:
-            raise TypeError("Don't know how to transpose {}".format(type(x)))
+        if isinstance(x, PondMaskedTensor):
+            return _transpose_masked(self, x, perm=perm)
 
-        nodes[node_key] = x_t
-        return x_t
+        raise TypeError("Don't know how to transpose {}".format(type(x)))
 
     @memoize
     def reshape(self, x: "PondTensor", shape: List[int]):
@@ -1167,6 +1148,7 @@ class Pond(Protocol):
 
         raise TypeError("Don't know how to squeeze {}".format(type(x)))
 
+    @memoize
     def strided_slice(self, x: "PondTensor", *args: Any, **kwargs: Any):
         """
         strided_slice(x, *args, **kwargs) -> PondTensor
@@ -1175,28 +1157,18 @@ class Pond(Protocol):
         documentation.
         """
 
-        node_key = ("strided_slice", x)
-
-        x_sliced = nodes.get(node_key, None)
-
-        if x_sliced is not None:
-            return x_sliced
-
         if isinstance(x, PondPublicTensor):
-            x_sliced = _strided_slice_public(self, x, args, kwargs)
-        elif isinstance(x, PondPrivateTensor):
-            x_sliced = _strided_slice_private(self, x, args, kwargs)
-        elif isinstance(x, PondMaskedTensor):
-            x_sliced = _strided_slice_masked(self, x, args, kwargs)
-            nodes[("strided_slice", x.unmasked)] = x_sliced.unmasked
-        else:
-            raise TypeError(
-                ("Don't know how to do a strided slice on " " {}").format(type(x))
-            )
+            return _strided_slice_public(self, x, args, kwargs)
 
-        nodes[node_key] = x_sliced
+        if isinstance(x, PondPrivateTensor):
+            return _strided_slice_private(self, x, args, kwargs)
+
+        if isinstance(x, PondMaskedTensor):
+            return _strided_slice_masked(self, x, args, kwargs)
 
-        return x_sliced
+        raise TypeError(
+            ("Don't know how to do a strided slice on " " {}").format(type(x))
+        )
 
     @memoize
     def gather(self, x: "PondTensor", indices: list, axis=0) -> "PondTensor":
@@ -1208,29 +1180,20 @@ class Pond(Protocol):
     ) -> List["PondTensor"]:
         return self.dispatch("split", x, num_split, axis=axis)
 
+    @memoize
     def stack(self, xs: List["PondTensor"], axis=0):
         """See tf.stack."""
 
-        node_key = ("stack", tuple(xs))
-        xs_stack = nodes.get(node_key, None)
-
-        if xs_stack is not None:
-            return xs_stack
-
         if all([isinstance(x, PondPublicTensor) for x in xs]):
-            xs_stack = _stack_public(self, xs, axis=axis)
+            return _stack_public(self, xs, axis=axis)
 
-        elif all([isinstance(x, PondPrivateTensor) for x in xs]):
-            xs_stack = _stack_private(self, xs, axis=axis)
-
-        elif all([isinstance(x, PondMaskedTensor) for x in xs]):
-            xs_stack = _stack_masked(self, xs, axis=axis)
-        else:
-            raise TypeError("Don't know how to do a stack {}".format(type(xs)))
+        if all([isinstance(x, PondPrivateTensor) for x in xs]):
+            return _stack_private(self, xs, axis=axis)
 
-        nodes[node_key] = xs_stack
+        if all([isinstance(x, PondMaskedTensor) for x in xs]):
+            return _stack_masked(self, xs, axis=axis)
 
-        return xs_stack
+        raise TypeError("Don't know how to do a stack {}".format(type(xs)))
 
     @memoize
     def concat(self, xs: List["PondTensor"], axis):
@@ -1379,15 +1342,10 @@ class Pond(Protocol):
     def identity(self, x):
         return self.dispatch("identity", x)
 
+    @memoize
     def conv2d(self, x, w, strides, padding):
         """See tf.nn.conv2d."""
 
-        node_key = ("conv2d", x, w, strides, padding)
-        z = nodes.get(node_key, None)
-
-        if z is not None:
-            return z
-
         dispatch = {
             (PondPublicTensor, PondPublicTensor): _conv2d_public_public,
             (PondPublicTensor, PondPrivateTensor): _conv2d_public_private,
@@ -1406,22 +1364,14 @@ class Pond(Protocol):
                 "Don't know how to conv2d {} and {}".format(type(x), type(w))
             )
 
-        z = func(self, x, w, strides, padding)
-        nodes[node_key] = z
-
-        return z
+        return func(self, x, w, strides, padding)
 
     def maxpool2d(self, x, pool_size, strides, padding):
         raise NotImplementedError("Only SecureNN supports Max Pooling")
 
+    @memoize
     def avgpool2d(self, x, pool_size, strides, padding):
         """See tf.nn.avgpool2d."""
-        node_key = ("avgpool2d", x, tuple(pool_size), tuple(strides), padding)
-        z = nodes.get(node_key, None)
-
-        if z is not None:
-            return z
-
         dispatch = {
             PondPublicTensor: _avgpool2d_public,
             PondPrivateTensor: _avgpool2d_private,
@@ -1432,10 +1382,7 @@ class Pond(Protocol):
         if func is None:
             raise TypeError("Don't know how to avgpool2d {}".format(type(x)))
 
-        z = func(self, x, pool_size, strides, padding)
-        nodes[node_key] = z
-
-        return z
+        return func(self, x, pool_size, strides, padding)
 
     def batch_to_space(self, x, block_shape, crops):
         return self.dispatch("batch_to_space", x, block_shape, crops)
diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 09eece2..a4f0046 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -24,7 +24,6 @@ from tf_encrypted.protocol.pond import PondPrivateTensor
 from tf_encrypted.protocol.pond import PondPublicTensor
 from tf_encrypted.protocol.pond import PondTensor
 from tf_encrypted.protocol.pond import _type
-from tf_encrypted.protocol.protocol import nodes
 from tf_encrypted.protocol.securenn.odd_tensor import oddint64_factory
 from tf_encrypted.tensor import int64factory
 from tf_encrypted.tensor import native_factory
@@ -406,6 +405,7 @@ class SecureNN(Pond):
         result, _ = self.relu_with_cmp(x, **kwargs)
         return result
 
+    @memoize
     def maxpool2d(self, x, pool_size, strides, padding):
         """
         maxpool2d(x, pool_size, strides, padding) -> PondTensor
@@ -418,12 +418,6 @@ class SecureNN(Pond):
           convolution.
         :param str padding: Which type of padding to use ("SAME" or "VALID").
         """
-        node_key = ("maxpool2d", x, tuple(pool_size), tuple(strides), padding)
-        z = nodes.get(node_key, None)
-
-        if z is not None:
-            return z
-
         dispatch = {
             PondPublicTensor: _maxpool2d_public,
             PondPrivateTensor: _maxpool2d_private,
@@ -434,10 +428,7 @@ class SecureNN(Pond):
         if func is None:
             raise TypeError("Don't know how to avgpool2d {}".format(type(x)))
 
-        z = func(self, x, pool_size, strides, padding)
-        nodes[node_key] = z
-
-        return z
+        return func(self, x, pool_size, strides, padding)
 
     @memoize
     def maximum(self, x, y):
-- 
2.43.0


From a09b493b4e3fd080acd9771976bfa29810bcd3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:08 +0000
Subject: [PATCH 11/68] fix: memoized results leaked between protocols and
 between graphs

Also key numpy and TensorFlow arguments by content and reference rather than
by a reusable id.
---
 tf_encrypted/protocol/protocol.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/protocol.py b/tf_encrypted/protocol/protocol.py
index aa820d7..cf23e85 100644
--- a/tf_encrypted/protocol/protocol.py
+++ b/tf_encrypted/protocol/protocol.py
@@ -6,6 +6,7 @@ from typing import Any
 from typing import Callable
 from typing import Optional
 
+import numpy as np
 import tensorflow as tf
 
 import tf_encrypted as tfe
@@ -81,6 +82,10 @@ def make_hashable(x):
         )
     elif isinstance(x, tf.TensorShape):
         return tuple(x.as_list())
+    elif isinstance(x, np.ndarray) and x.dtype != object:
+        return (x.shape, x.dtype.str, x.tobytes())
+    elif isinstance(x, tf.Tensor):
+        return x.ref()
     else:
         try:
             hash(x)
@@ -108,7 +113,10 @@ def memoize(func: Callable) -> Callable:
 
         hashable_args = make_hashable(args)
         hashable_kwargs = make_hashable(kwargs)
-        node_key = (func.__name__, hashable_args, hashable_kwargs)
+        # results belong to the protocol that computed them, and symbolic results
+        # to the graph they were traced in
+        graph = None if tf.executing_eagerly() else tf.compat.v1.get_default_graph()
+        node_key = (self, graph, func.__name__, hashable_args, hashable_kwargs)
 
         cached_result = nodes.get(node_key, None)
         if cached_result is not None:
-- 
2.43.0


From 3162cd245b7463179e3d24972411a2502785010f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:45 +0000
Subject: [PATCH 12/68] fix: Pond could not add or subtract a public tensor
 that broadcasts the private one

---
 tf_encrypted/protocol/pond/pond.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 2a63b6a..d6f52d6 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -2463,6 +2463,13 @@ def _reveal_masked(prot, x):
 #
 
 
+def _broadcast_share(share, public, shape):
+    """Give `share` the shape it has in a sum with the value `public`."""
+    if share.shape == shape:
+        return share
+    return share + (public - public)
+
+
 def _add_public_public(prot, x, y):
     assert isinstance(x, PondPublicTensor), type(x)
     assert isinstance(y, PondPublicTensor), type(y)
@@ -2491,7 +2498,7 @@ def _add_public_private(prot, x, y):
         x.is_scaled, y.is_scaled
     )
 
-    x_on_0, _ = x.unwrapped
+    x_on_0, x_on_1 = x.unwrapped
     y0, y1 = y.unwrapped
 
     with tf.name_scope("add"):
@@ -2500,7 +2507,7 @@ def _add_public_private(prot, x, y):
             z0 = x_on_0 + y0
 
         with tf.device(prot.server_1.device_name):
-            z1 = y1
+            z1 = _broadcast_share(y1, x_on_1, z0.shape)
 
     return PondPrivateTensor(prot, z0, z1, x.is_scaled)
 
@@ -2519,7 +2526,7 @@ def _add_private_public(prot, x, y):
     )
 
     x0, x1 = x.unwrapped
-    y_on_0, _ = y.unwrapped
+    y_on_0, y_on_1 = y.unwrapped
 
     with tf.name_scope("add"):
 
@@ -2527,7 +2534,7 @@ def _add_private_public(prot, x, y):
             z0 = x0 + y_on_0
 
         with tf.device(prot.server_1.device_name):
-            z1 = x1
+            z1 = _broadcast_share(x1, y_on_1, z0.shape)
 
     return PondPrivateTensor(prot, z0, z1, x.is_scaled)
 
@@ -2728,7 +2735,7 @@ def _sub_public_private(prot, x, y):
         x.is_scaled, y.is_scaled
     )
 
-    x_on_0, _ = x.unwrapped
+    x_on_0, x_on_1 = x.unwrapped
     y0, y1 = y.unwrapped
 
     with tf.name_scope("sub"):
@@ -2737,7 +2744,7 @@ def _sub_public_private(prot, x, y):
             z0 = x_on_0 - y0
 
         with tf.device(prot.server_1.device_name):
-            z1 = y1.negative()
+            z1 = _broadcast_share(y1.negative(), x_on_1, z0.shape)
 
     return PondPrivateTensor(prot, z0, z1, x.is_scaled)
 
@@ -2756,7 +2763,7 @@ def _sub_private_public(prot, x, y):
     )
 
     x0, x1 = x.unwrapped
-    y_on_0, _ = y.unwrapped
+    y_on_0, y_on_1 = y.unwrapped
 
     with tf.name_scope("sub"):
 
@@ -2764,7 +2771,7 @@ def _sub_private_public(prot, x, y):
             z0 = x0 - y_on_0
 
         with tf.device(prot.server_1.device_name):
-            z1 = x1
+            z1 = _broadcast_share(x1, y_on_1, z0.shape)
 
     return PondPrivateTensor(prot, z0, z1, x.is_scaled)
 
-- 
2.43.0


From 9ce340ca589262b11870fd7c6aca6d203d57cd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:45 +0000
Subject: [PATCH 13/68] fix: int100 seeded sampling drew every component modulo
 the last modulus

Masks and shares were therefore not uniform and leaked the masked value.
---
 tf_encrypted/tensor/int100.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index 44f7d0f..45d65ae 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -240,24 +240,28 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
                 value = secure_random.seeded_random_uniform(
                     shape=shape,
                     dtype=INT_TYPE,
-                    minval=0,
-                    maxval=mi,
+                    minval=INT_TYPE.min,
+                    maxval=INT_TYPE.max,
                     seed=seed,
                 )
                 backing = tf.split(value, len(MODULI), axis=-1)
-                backing = [tf.squeeze(b, axis=-1) for b in backing]
+                backing = [
+                    tf.squeeze(b, axis=-1) % mi for b, mi in zip(backing, MODULI)
+                ]
                 return Tensor(backing)
             else:
                 shape = list(shape) + [len(MODULI)]
                 value = tf.random.stateless_uniform(
                     shape=shape,
                     dtype=INT_TYPE,
-                    minval=0,
-                    maxval=mi,
+                    minval=INT_TYPE.min,
+                    maxval=INT_TYPE.max,
                     seed=seed,
                 )
                 backing = tf.split(value, len(MODULI), axis=-1)
-                backing = [tf.squeeze(b, axis=-1) for b in backing]
+                backing = [
+                    tf.squeeze(b, axis=-1) % mi for b, mi in zip(backing, MODULI)
+                ]
                 return Tensor(backing)
 
         def sample_bounded(self, shape, bitlength: int):
-- 
2.43.0


From ec0526d9459bcfb6cc5ac1ebe74af6abb2141e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:45 +0000
Subject: [PATCH 14/68] fix: assigning to an int100 variable raised TypeError
 after assigning

---
 tf_encrypted/tensor/int100.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index 45d65ae..ce4b837 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -818,9 +818,11 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
             if isinstance(value, Tensor):
                 for (variable, vi) in zip(self.variables, value.backing):
                     variable.assign(vi)
+                return
             if isinstance(value, np.ndarray):
                 for (variable, vi) in zip(self.variables, value):
                     variable.assign(vi)
+                return
 
             raise TypeError("Don't know how to handle {}".format(type(value)))
 
-- 
2.43.0


From c76d69b05b8de262db66dbcad9d86b409c7fd3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:40 +0000
Subject: [PATCH 15/68] fix: a part of a split int100 tensor could not be
 decoded

---
 tf_encrypted/tensor/int100.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index ce4b837..194dc0e 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -756,7 +756,7 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
 
         def split(self, num_split: Union[int, list], axis: int = 0):
             backings = zip(*[tf.split(xi, num_split, axis=axis) for xi in self.backing])
-            return [Tensor(backing) for backing in backings]
+            return [Tensor(list(backing)) for backing in backings]
 
         def reshape(self, axes: List[int]):
             backing = [tf.reshape(xi, axes) for xi in self.backing]
-- 
2.43.0


From a4b6c71560364f52945e584ecc06808ceafc9ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:26 +0000
Subject: [PATCH 16/68] fix: ABY3 could not add or subtract a public tensor
 that broadcasts the private one

---
 tf_encrypted/protocol/aby3/aby3.py | 48 +++++++++++++++++-------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 4926c5b..1a4bdff 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2145,6 +2145,14 @@ def _cast_public(prot, x, factory):
 #
 
 
+def _broadcast_share(share, public):
+    """Give `share` the shape it has in a sum with the value `public`."""
+    shape = tf.broadcast_static_shape(share.shape, public.shape)
+    if share.shape == shape:
+        return share
+    return share + (public - public)
+
+
 def _add_private_private(prot, x, y):
     assert isinstance(x, ABY3PrivateTensor), type(x)
     assert isinstance(y, ABY3PrivateTensor), type(y)
@@ -2167,21 +2175,21 @@ def _add_private_public(prot, x, y):
     ).format(x.is_scaled, y.is_scaled)
 
     shares = x.unwrapped
-    y_on_0, _, y_on_2 = y.unwrapped
+    y_on_0, y_on_1, y_on_2 = y.unwrapped
 
     z = [[None] * 2 for _ in range(3)]
     with tf.name_scope("add"):
 
         with tf.device(prot.servers[0].device_name):
             z[0][0] = shares[0][0] + y_on_0
-            z[0][1] = shares[0][1]
+            z[0][1] = _broadcast_share(shares[0][1], y_on_0)
 
         with tf.device(prot.servers[1].device_name):
-            z[1][0] = shares[1][0]
-            z[1][1] = shares[1][1]
+            z[1][0] = _broadcast_share(shares[1][0], y_on_1)
+            z[1][1] = _broadcast_share(shares[1][1], y_on_1)
 
         with tf.device(prot.servers[2].device_name):
-            z[2][0] = shares[2][0]
+            z[2][0] = _broadcast_share(shares[2][0], y_on_2)
             z[2][1] = shares[2][1] + y_on_2
     return ABY3PrivateTensor(prot, z, x.is_scaled, x.share_type)
 
@@ -2193,7 +2201,7 @@ def _add_public_private(prot, x, y):
         "Cannot mix different encodings: " "{} {}"
     ).format(x.is_scaled, y.is_scaled)
 
-    x_on_0, _, x_on_2 = x.unwrapped
+    x_on_0, x_on_1, x_on_2 = x.unwrapped
     shares = y.unwrapped
 
     z = [[None] * 2 for _ in range(3)]
@@ -2201,14 +2209,14 @@ def _add_public_private(prot, x, y):
 
         with tf.device(prot.servers[0].device_name):
             z[0][0] = shares[0][0] + x_on_0
-            z[0][1] = shares[0][1]
+            z[0][1] = _broadcast_share(shares[0][1], x_on_0)
 
         with tf.device(prot.servers[1].device_name):
-            z[1][0] = shares[1][0]
-            z[1][1] = shares[1][1]
+            z[1][0] = _broadcast_share(shares[1][0], x_on_1)
+            z[1][1] = _broadcast_share(shares[1][1], x_on_1)
 
         with tf.device(prot.servers[2].device_name):
-            z[2][0] = shares[2][0]
+            z[2][0] = _broadcast_share(shares[2][0], x_on_2)
             z[2][1] = shares[2][1] + x_on_2
 
     return ABY3PrivateTensor(prot, z, x.is_scaled, y.share_type)
@@ -2258,21 +2266,21 @@ def _sub_private_public(prot, x, y):
     assert x.is_scaled == y.is_scaled
 
     shares = x.unwrapped
-    y_on_0, _, y_on_2 = y.unwrapped
+    y_on_0, y_on_1, y_on_2 = y.unwrapped
 
     z = [[None] * 2 for _ in range(3)]
     with tf.name_scope("sub"):
 
         with tf.device(prot.servers[0].device_name):
             z[0][0] = shares[0][0] - y_on_0
-            z[0][1] = shares[0][1]
+            z[0][1] = _broadcast_share(shares[0][1], y_on_0)
 
         with tf.device(prot.servers[1].device_name):
-            z[1][0] = shares[1][0]
-            z[1][1] = shares[1][1]
+            z[1][0] = _broadcast_share(shares[1][0], y_on_1)
+            z[1][1] = _broadcast_share(shares[1][1], y_on_1)
 
         with tf.device(prot.servers[2].device_name):
-            z[2][0] = shares[2][0]
+            z[2][0] = _broadcast_share(shares[2][0], y_on_2)
             z[2][1] = shares[2][1] - y_on_2
 
     return ABY3PrivateTensor(prot, z, x.is_scaled, x.share_type)
@@ -2282,7 +2290,7 @@ def _sub_public_private(prot, x, y):
     assert isinstance(x, ABY3PublicTensor), type(x)
     assert isinstance(y, ABY3PrivateTensor), type(y)
 
-    x_on_0, _, x_on_2 = x.unwrapped
+    x_on_0, x_on_1, x_on_2 = x.unwrapped
     shares = y.unwrapped
 
     z = [[None] * 2 for _ in range(3)]
@@ -2290,14 +2298,14 @@ def _sub_public_private(prot, x, y):
 
         with tf.device(prot.servers[0].device_name):
             z[0][0] = x_on_0 - shares[0][0]
-            z[0][1] = -shares[0][1]
+            z[0][1] = -_broadcast_share(shares[0][1], x_on_0)
 
         with tf.device(prot.servers[1].device_name):
-            z[1][0] = -shares[1][0]
-            z[1][1] = -shares[1][1]
+            z[1][0] = -_broadcast_share(shares[1][0], x_on_1)
+            z[1][1] = -_broadcast_share(shares[1][1], x_on_1)
 
         with tf.device(prot.servers[2].device_name):
-            z[2][0] = -shares[2][0]
+            z[2][0] = -_broadcast_share(shares[2][0], x_on_2)
             z[2][1] = x_on_2 - shares[2][1]
 
     return ABY3PrivateTensor(prot, z, x.is_scaled, y.share_type)
-- 
2.43.0


From 1af49112792c79b97e9aa06b61cb1beec8bc57a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:26 +0000
Subject: [PATCH 17/68] fix: ABY3 addition of public tensors was not placed on
 the servers

---
 tf_encrypted/protocol/aby3/aby3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 1a4bdff..d21bd80 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2233,7 +2233,8 @@ def _add_public_public(prot, x, y):
     z = [None] * 3
     with tf.name_scope("add"):
         for i in range(3):
-            z[i] = x_shares[i] + y_shares[i]
+            with tf.device(prot.servers[i].device_name):
+                z[i] = x_shares[i] + y_shares[i]
 
     return ABY3PublicTensor(prot, z, x.is_scaled)
 
-- 
2.43.0


From 1e66148c5a5419372005673a91e282ed206b0bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:26 +0000
Subject: [PATCH 18/68] fix: ABY3 could not multiply a public tensor by a power
 of two

---
 tf_encrypted/protocol/aby3/aby3.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index d21bd80..0803f02 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -3254,6 +3254,23 @@ def _not_private(prot, x):
     return z
 
 
+def _lshift_public(prot, x, steps):
+    """
+    Left shift.
+    """
+    assert isinstance(x, ABY3PublicTensor), type(x)
+
+    x_shares = x.unwrapped
+
+    z = [None, None, None]
+    with tf.name_scope("lshift"):
+        for i in range(3):
+            with tf.device(prot.servers[i].device_name):
+                z[i] = x_shares[i] << steps
+
+    return ABY3PublicTensor(prot, z, x.is_scaled)
+
+
 def _lshift_private(prot, x, steps):
     """
     Left shift.
-- 
2.43.0


From ca769ee8b1c2185ecfb660d77cdb71264d8b46c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:26 +0000
Subject: [PATCH 19/68] fix: ABY3 could not create public zeros or ones

---
 tf_encrypted/protocol/aby3/aby3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 0803f02..b6f4e53 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5413,7 +5413,7 @@ def _ones_public(prot, shape, apply_scaling, share_type, factory) -> ABY3PublicT
         with tf.device(prot.servers[2].device_name):
             x[2] = factory.tensor(prot._encode(tf.ones(shape), apply_scaling))
 
-    x = ABY3PublicTensor(prot, x, apply_scaling, share_type)
+    x = ABY3PublicTensor(prot, x, apply_scaling)
     return x
 
 
@@ -5454,7 +5454,7 @@ def _zeros_public(prot, shape, apply_scaling, share_type, factory) -> ABY3Public
         with tf.device(prot.servers[2].device_name):
             x[2] = factory.tensor(prot._encode(tf.zeros(shape), apply_scaling))
 
-    x = ABY3PublicTensor(prot, x, apply_scaling, share_type)
+    x = ABY3PublicTensor(prot, x, apply_scaling)
     return x
 
 
-- 
2.43.0


From b9f2fead2d72b84fa9663d6eb3150c969eeddeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:26 +0000
Subject: [PATCH 20/68] fix: ABY3 products masked all copies of a broadcast
 operand with one mask

---
 tf_encrypted/protocol/aby3/aby3.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index b6f4e53..94cab30 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2458,7 +2458,9 @@ def _mul_private_private(prot, x, y):
 
     z = [[None, None], [None, None], [None, None]]
     with tf.name_scope("mul"):
-        a0, a1, a2 = prot._gen_zero_sharing(x.shape)
+        a0, a1, a2 = prot._gen_zero_sharing(
+            tf.broadcast_static_shape(x.shape, y.shape)
+        )
         with tf.device(prot.servers[0].device_name):
             z0 = (
                 x_shares[0][0] * y_shares[0][0]
@@ -2514,7 +2516,7 @@ def _mul_trunc2_private_private(prot, x, y):
 
     x_shares = x.unwrapped
     y_shares = y.unwrapped
-    shape = x_shares[0][0].shape
+    shape = tf.broadcast_static_shape(x.shape, y.shape)
     amount = prot.fixedpoint_config.precision_fractional
 
     with tf.name_scope("mul_trunc2"):
@@ -2526,7 +2528,7 @@ def _mul_trunc2_private_private(prot, x, y):
         r_trunc = prot.b2a(r_trunc)
 
         # Step 2: Compute 3-out-of-3 sharing of (x*y - r)
-        a0, a1, a2 = prot._gen_zero_sharing(x.shape)
+        a0, a1, a2 = prot._gen_zero_sharing(shape)
         with tf.device(prot.servers[0].device_name):
             z0 = (
                 x_shares[0][0] * y_shares[0][0]
@@ -3140,7 +3142,9 @@ def _and_private_private(prot: ABY3, x: ABY3PrivateTensor, y: ABY3PrivateTensor)
     z = [[None, None], [None, None], [None, None]]
     with tf.name_scope("and"):
         a0, a1, a2 = prot._gen_zero_sharing(
-            x.shape, share_type=ShareType.BOOLEAN, factory=x.backing_dtype
+            tf.broadcast_static_shape(x.shape, y.shape),
+            share_type=ShareType.BOOLEAN,
+            factory=x.backing_dtype,
         )
 
         with tf.device(prot.servers[0].device_name):
-- 
2.43.0


From d636ccd3fc916adb2c11d2f4db306d9d8a42f322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:26 +0000
Subject: [PATCH 21/68] fix: int128 tensors took a negative axis other than -1
 for another axis

---
 tf_encrypted/tensor/int128.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index 9e7abe5..3cd9e36 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -246,16 +246,14 @@ def int128_factory():  # pylint: disable=invalid-name
         if isinstance(axis, (list, tuple)):
             new_axis = []
             for a in axis:
-                if a == -1:
-                    new_axis.append(dims - 1)
-                else:
-                    assert a < dims, "# dimensions: {}, got axis: {}".format(dims, axis)
-                    new_axis.append(a)
+                new_axis.append(_lift_axis(a, dims))
             return new_axis
-        if axis == -1:
-            return dims - 1
         if axis is not None:
-            assert axis < dims, "# dimensions: {}, got axis: {}".format(dims, axis)
+            assert -dims <= axis < dims, "# dimensions: {}, got axis: {}".format(
+                dims, axis
+            )
+            if axis < 0:
+                return dims + axis
         return axis
 
     FACTORY = Factory()  # pylint: disable=invalid-name
-- 
2.43.0


From d6c449f9367fbb933ce66f435f83e8258ab0650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:40 +0000
Subject: [PATCH 22/68] fix: int128 tensors could not be stacked along a new
 last axis

---
 tf_encrypted/tensor/int128.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index 3cd9e36..0f095b6 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -159,7 +159,7 @@ def int128_factory():  # pylint: disable=invalid-name
 
         def stack(self, xs: list, axis: int = 0):
             assert all(isinstance(x, Tensor) for x in xs)
-            axis = _lift_axis(axis, len(xs[0].shape))
+            axis = _lift_axis(axis, len(xs[0].shape) + 1)
 
             value = tf.stack([x.value for x in xs], axis=axis)
             return Tensor(value)
-- 
2.43.0


From a410922f8d9fc21a9d8a93fa7f4a9eca319ad047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:29 +0000
Subject: [PATCH 23/68] fix: ABY3 local truncation left received shares on the
 sender

---
 tf_encrypted/protocol/aby3/aby3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 94cab30..3e4efc6 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2759,7 +2759,7 @@ def _truncate_local_private(
         # server 1 sends `y1`
         with tf.device(prot.servers[0].device_name):
             y[0][0] = y0
-            y[0][1] = y1
+            y[0][1] = y1.identity()
         # Local
         with tf.device(prot.servers[1].device_name):
             y[1][0] = y1
@@ -2767,7 +2767,7 @@ def _truncate_local_private(
         # server 0 sends `y0`
         with tf.device(prot.servers[2].device_name):
             y[2][0] = r_on_2
-            y[2][1] = y0
+            y[2][1] = y0.identity()
 
     return ABY3PrivateTensor(prot, y, x.is_scaled, x.share_type)
 
-- 
2.43.0


From f85a21db97a3fea922893a4c5bfd45863594da8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:30 +0000
Subject: [PATCH 24/68] fix: ABY3 cheetah truncation failed, showed the value
 to server 2 and used a mask twice

---
 tf_encrypted/protocol/aby3/aby3.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 3e4efc6..38eae19 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2798,8 +2798,6 @@ def _truncate_msb0_cheetah_private(
         msb_bob_on_1 = x_bob_on_1.logical_rshift(x.backing_dtype.nbits - 1).cast(
             bfactory
         )
-        # x_B >> f
-        x_bob_on_1_trunc = x_bob_on_1.logical_rshift(amount)
     with tf.device(prot.servers[2].device_name):
         x_bob_on_2 = x_shares[2][0]
         msb_bob_on_2 = x_bob_on_2.logical_rshift(x.backing_dtype.nbits - 1).cast(
@@ -2836,24 +2834,36 @@ def _truncate_msb0_cheetah_private(
         w[1][1] = w_bob ^ w[1][0]
 
     with tf.device(prot.servers[2].device_name):
-        w[2][0] = w[1][1]
-        w[2][1] = w_alice
+        w[2][0] = w[1][1].identity()
+        w[2][1] = w_alice.identity()
+
+    prot._update_pairwise_nonces()
 
     # b2a. TODO: communication could be optimized from l to f
     w = prot.b2a_single(ABY3PrivateTensor(prot, w, False, ShareType.BOOLEAN))
 
     # Fix potential big error: w * 2^{l-f}
     error = (w << (x.backing_dtype.nbits - amount)).unwrapped
+    # Re-randomize the shares: server 2 holds both `error[0][0]` and `x_B`,
+    # so it could otherwise compute `x >> f` from the share it gets from server 0
+    a0, a1, a2 = prot._gen_zero_sharing(shape, factory=x.backing_dtype)
+    with tf.device(prot.servers[0].device_name):
+        z0 = x_alice_trunc - error[0][0] + a0
+    with tf.device(prot.servers[1].device_name):
+        z1 = a1 - error[1][0]
+    with tf.device(prot.servers[2].device_name):
+        z2 = x_bob_on_2_trunc - error[2][0] + a2
+
     z = [[None, None], [None, None], [None, None]]
     with tf.device(prot.servers[0].device_name):
-        z[0][0] = x_alice_trunc - error[0][0]
-        z[0][1] = -error[0][1]
+        z[0][0] = z0
+        z[0][1] = z1.identity()
     with tf.device(prot.servers[1].device_name):
-        z[1][0] = -error[1][0]
-        z[1][1] = x_bob_on_1_trunc - error[1][1]
+        z[1][0] = z1
+        z[1][1] = z2.identity()
     with tf.device(prot.servers[2].device_name):
-        z[2][0] = x_bob_on_2_trunc - error[2][0]
-        z[2][1] = z[0][0]
+        z[2][0] = z2
+        z[2][1] = z0.identity()
 
     z = ABY3PrivateTensor(prot, z, x.is_scaled, ShareType.ARITHMETIC)
     return z
-- 
2.43.0


From 05674f280d4d49147f2e032e1b20bdb111dfa48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:30 +0000
Subject: [PATCH 25/68] fix: ABY3 public inputs were not sent to the servers

---
 tf_encrypted/protocol/aby3/aby3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 38eae19..e916f5b 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -714,7 +714,11 @@ class ABY3(Protocol):
             )
             v = self._encode(v, apply_scaling)
             w = factory.tensor(v)
-            return ABY3PublicTensor(self, [w, w, w], apply_scaling)
+            copies = []
+            for server in self.servers:
+                with tf.device(server.device_name):
+                    copies.append(w.identity())
+            return ABY3PublicTensor(self, copies, apply_scaling)
 
         with tf.name_scope("public-input{}".format(suffix)):
 
-- 
2.43.0


From 56f2245fbf4fafb155a45993cef3436c6f127fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:30 +0000
Subject: [PATCH 26/68] fix: int128 batched matrix products gave a wrong result

---
 tf_encrypted/tensor/int128.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index 0f095b6..edd83cf 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -361,8 +361,16 @@ def int128_factory():  # pylint: disable=invalid-name
 
         def matmul(self, other):
             x, y = _lift(self, other)
-            value = tf_i128.matmul(x.value, y.value)
-            return Tensor(value)
+            batch_shape = x.value.shape[:-3].as_list()
+            if not batch_shape:
+                return Tensor(tf_i128.matmul(x.value, y.value))
+            # The kernel multiplies matrices only
+            xs = tf.unstack(tf.reshape(x.value, [-1] + x.value.shape[-3:].as_list()))
+            ys = tf.unstack(tf.reshape(y.value, [-1] + y.value.shape[-3:].as_list()))
+            value = tf.stack([tf_i128.matmul(a, b) for a, b in zip(xs, ys)])
+            return Tensor(
+                tf.reshape(value, batch_shape + value.shape[-3:].as_list())
+            )
 
         def bit_reverse(self):
             value = tf_i128.i128_bit_reverse(self.value)
-- 
2.43.0


From 737e3246a9ace55fdd629fc98cc995950efe035e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:29 +0000
Subject: [PATCH 27/68] fix: ABY3 could not divide a public tensor by a power
 of two

---
 tf_encrypted/protocol/aby3/aby3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index e916f5b..9c9a52d 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -1446,6 +1446,9 @@ class ABY3(Protocol):
             an assumption of the maximum plain value and will not fail if this assumption
             holds.
         """
+        if isinstance(x, ABY3PublicTensor):
+            # Public values are truncated exactly by each server on its own
+            method = "local"
         return self.dispatch("truncate_" + method, x, amount)
 
     @memoize
-- 
2.43.0


From 6d0989eddd1781f21cb0fc955042e7b102816cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:29 +0000
Subject: [PATCH 28/68] fix: ABY3 reduce_max over all axes with the network
 method failed

---
 tf_encrypted/protocol/aby3/aby3.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 9c9a52d..569b823 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5127,10 +5127,11 @@ def _reduce_max_network_private(
     with tf.name_scope("reduce-max-network"):
 
         if axis is None:
-            x = prot.reshape(x, [-1])
-            y = prot.sort(x, 0, acc=False)
+            vec = prot.reshape(x, [-1])
+            y = prot.sort(vec, 0, acc=False)
+            maximum = y[0]
             if keepdims:
-                maximum = prot.reshape(y[0], [1] * len(x.shape))
+                maximum = prot.reshape(maximum, [1] * len(x.shape))
         else:
             y = prot.sort(x, axis, acc=False)
             if keepdims:
-- 
2.43.0


From 11ac16d49b1ed25b83b230fe3c42ab0cdf76fc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:29 +0000
Subject: [PATCH 29/68] fix: ABY3 sort and reduce_max failed along an axis of
 length one

---
 tf_encrypted/protocol/aby3/aby3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 569b823..2927bf2 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5837,6 +5837,9 @@ def _sort_private(
 
     with tf.name_scope("sort"):
 
+        if int(x.shape[axis]) == 1:
+            return x
+
         def bitonic_index(n, stage, sub_stage):
             assert sub_stage <= stage, "The i-th stage can have at most i+1 sub stages."
             # In bitonic sorting network, the 0-th sub stage in each stage has a different pattern from
-- 
2.43.0


From 7cef9303ecd3b4dacb1f0f505e8b9d830e7554a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:29 +0000
Subject: [PATCH 30/68] fix: ABY3 polynomials of a scalar gave a vector

---
 tf_encrypted/protocol/aby3/aby3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 2927bf2..7d7609f 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -4161,7 +4161,7 @@ def _polynomial_private(prot, x, coeffs):
             elif (coeffs[i] - int(coeffs[i])) == 0:
                 # Optimization when coefficient is integer: mulitplication can be performed
                 # locally without interactive truncation
-                tmp = prot.define_constant(np.array([coeffs[i]]), apply_scaling=False)
+                tmp = prot.define_constant(np.array(coeffs[i]), apply_scaling=False)
                 tmp = tmp * (x**i)
                 result = result + tmp
             else:
-- 
2.43.0


From efeffa22d8722393d5baaff33832abe0b815cf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:29 +0000
Subject: [PATCH 31/68] fix: ABY3 reciprocal of a scalar failed

---
 tf_encrypted/protocol/aby3/fp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/fp.py b/tf_encrypted/protocol/aby3/fp.py
index 633a7ae..2d13802 100644
--- a/tf_encrypted/protocol/aby3/fp.py
+++ b/tf_encrypted/protocol/aby3/fp.py
@@ -210,7 +210,7 @@ def __fp_normalize(prot, b: "TFEPrivateTensor", nonsigned=False):
         # juhou: sign.is_scaled is False
         if not nonsigned:
             msb = prot.bit_extract(b, m)
-            two = np.ones(shape=msb.shape, dtype=int) * 2
+            two = np.full(msb.shape, 2)
             sign = 1 - prot.mul_ab(prot.define_constant(two), msb)
             x = sign * b  # abs(b)
         else:
-- 
2.43.0


From 2581c4ed3b68da0fe7bc4c9aaba00c81f5849602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:38 +0000
Subject: [PATCH 32/68] fix: ABY3 addition and conversion of more than 63 but
 not all bits failed

---
 tf_encrypted/protocol/aby3/aby3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 7d7609f..5c467ed 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -3576,7 +3576,7 @@ def _ppa_kogge_stone_private_private(prot, x, y, n_bits):
 
         if k < x.backing_dtype.nbits:
             mask = prot.define_constant(
-                np.array((1 << k) - 1).astype(np.int64), apply_scaling=False
+                np.array((1 << k) - 1, dtype=object), apply_scaling=False
             )
             z = z & mask
     return z
-- 
2.43.0


From c16c4f34ea3f78f658632e16943d15da1f039463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:42 +0000
Subject: [PATCH 33/68] fix: SecureNN took minus one unit for non-negative, and
 public negatives at 100 bits

---
 tf_encrypted/protocol/securenn/securenn.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index a4f0046..b927ee9 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -154,6 +154,21 @@ class SecureNN(Pond):
         :param PondTensor x: The tensor to take the most significant bit of
         """
         with tf.name_scope("msb"):
+            if isinstance(x, PondPublicTensor):
+                # all bits of a public value are known, the last one is its sign
+                return self.bits(x)[..., -1]
+
+            if isinstance(x, PondMaskedTensor):
+                x = x.unmasked
+
+            if x.backing_dtype is not self.odd_factory:
+                # share-wise casting between moduli that differ by one moves the
+                # value up by one, which would turn -1 into 0; compensate first
+                x0, x1 = x.unwrapped
+                with tf.device(self.server_0.device_name):
+                    x0 = x0 - 1
+                x = PondPrivateTensor(self, x0, x1, x.is_scaled)
+
             # when the modulus is odd msb reduces to lsb via x -> 2*x
             x = self.cast_backing(x, self.odd_factory)
             return self.lsb(x + x)
-- 
2.43.0


From 5856949f624bf93472c2e90d3ce17db7c1d7b9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:42 +0000
Subject: [PATCH 34/68] fix: SecureNN relu of a large tensor returned the
 comparison bits

---
 tf_encrypted/protocol/securenn/securenn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index b927ee9..0e700ca 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -398,7 +398,7 @@ class SecureNN(Pond):
             drelu = []
 
             for i, _ in enumerate(xs):
-                d, r = actual_relu_with_cmp(xs[i], "subrelu")
+                r, d = actual_relu_with_cmp(xs[i], "subrelu")
                 res.append(r)
                 drelu.append(d)
             return self.concat(res, axis=-1), self.concat(drelu, axis=-1)
-- 
2.43.0


From 2d2b65f51dc3c8311c28564cdfa9801eda4b48dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:42 +0000
Subject: [PATCH 35/68] fix: SecureNN maxpool2d of a masked tensor

---
 tf_encrypted/protocol/securenn/securenn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 0e700ca..b2b5e60 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -867,7 +867,7 @@ def _maxpool2d_masked(
     padding: str,
 ) -> PondPrivateTensor:
     with tf.name_scope("maxpool2d"):
-        return prot.maxpool2d(x.unwrapped, pool_size, strides, padding)
+        return prot.maxpool2d(x.unmasked, pool_size, strides, padding)
 
 
 #
-- 
2.43.0


From f03f0d9a203f7fcf88e8b852de6ec5e7033e5aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:47 +0000
Subject: [PATCH 36/68] fix: SecureNN comparisons of scalars gave a vector

---
 tf_encrypted/protocol/securenn/securenn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index b2b5e60..ea717d7 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -735,7 +735,7 @@ def _private_compare(
             # tensor for edge cases: one zero and the rest ones
             c_edge_vals = [0] + [1] * (bit_length - 1)
             c_const = tf.constant(
-                c_edge_vals, dtype=prime_dtype.native_type, shape=(1, bit_length)
+                c_edge_vals, dtype=prime_dtype.native_type, shape=(bit_length,)
             )
             c_edge_case_raw = prime_dtype.tensor(c_const)
             c_edge_case = prot._share_and_wrap(c_edge_case_raw, False)
-- 
2.43.0


From 9c0f258d8a0d61fe8208bf8daddb288d632bf20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:47 +0000
Subject: [PATCH 37/68] fix: SecureNN relu could not split a vector

---
 tf_encrypted/protocol/securenn/securenn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index ea717d7..540b883 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -372,7 +372,7 @@ class SecureNN(Pond):
 
         shape = x.shape.as_list()
 
-        total_size = np.prod(shape)
+        total_size = int(np.prod(shape))
 
         max_size = kwargs.get("max_size", 2500000)
         if not max_size or total_size <= max_size:
@@ -383,7 +383,7 @@ class SecureNN(Pond):
         # close as possible to `maxsize` (but possibly larger)
 
         # compute how large the last dimension can be while being at least 1
-        max_last_dimension = max(max_size // np.prod(shape[:-1]), 1)
+        max_last_dimension = max(max_size // int(np.prod(shape[:-1])), 1)
         # compute split vector
         last_dimension = shape[-1]
         number_of_max_last_dimension = last_dimension // max_last_dimension
-- 
2.43.0


From 6e2d82277ca902d8cb5742711587fe87dbc0efeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:47 +0000
Subject: [PATCH 38/68] fix: SecureNN maxpool2d passed one stride instead of
 both and always failed

---
 tf_encrypted/protocol/securenn/securenn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 540b883..3d7cc1c 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -818,11 +818,11 @@ def _im2col(
 
     with tf.device(prot.server_0.device_name):
         x_split = x_on_0.reshape((batch * channels, 1, height, width))
-        y_on_0 = x_split.im2col(pool_height, pool_width, strides[0], padding)
+        y_on_0 = x_split.im2col(pool_height, pool_width, strides, padding)
 
     with tf.device(prot.server_1.device_name):
         x_split = x_on_1.reshape((batch * channels, 1, height, width))
-        y_on_1 = x_split.im2col(pool_height, pool_width, strides[0], padding)
+        y_on_1 = x_split.im2col(pool_height, pool_width, strides, padding)
 
     return y_on_0, y_on_1, [out_height, out_width, int(batch), int(channels)]
 
-- 
2.43.0


From 73536f9052ab02d64b04f2110e4a6cae1587f07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:47 +0000
Subject: [PATCH 39/68] fix: SecureNN argmax failed along an axis of length one

---
 tf_encrypted/protocol/securenn/securenn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 3d7cc1c..3c1777e 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -554,7 +554,8 @@ class SecureNN(Pond):
 
             tensors = self.split(x, int(x.shape[axis]), axis=axis)
             indices = [
-                self.define_constant(np.array([i])) for i, _ in enumerate(tensors)
+                self.define_constant(np.full(t.shape.as_list(), i))
+                for i, t in enumerate(tensors)
             ]
 
             with tf.name_scope("comparison-tree"):
-- 
2.43.0


From ac7e4e4149b13da50fcc8a18dd6189b449fc76bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:30 +0000
Subject: [PATCH 40/68] fix: assigning to a bool variable raised TypeError
 after assigning

---
 tf_encrypted/tensor/boolfactory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/tensor/boolfactory.py b/tf_encrypted/tensor/boolfactory.py
index af47629..e30481c 100644
--- a/tf_encrypted/tensor/boolfactory.py
+++ b/tf_encrypted/tensor/boolfactory.py
@@ -290,9 +290,9 @@ def bool_factory():
 
         def assign(self, value: Union[Tensor, np.ndarray]) -> None:
             if isinstance(value, Tensor):
-                self.variable.assign(value.value)
+                return self.variable.assign(value.value)
             if isinstance(value, np.ndarray):
-                self.variable.assign(value)
+                return self.variable.assign(value)
 
             raise TypeError("Don't know how to handle {}".format(type(value)))
 
-- 
2.43.0


From e667e4f95c019bc8d3bb040d68eff2ddfe22f347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:30 +0000
Subject: [PATCH 41/68] fix: a variable used directly kept its initial value
 after assignments

---
 tf_encrypted/protocol/protocol.py  | 12 ++++++++++++
 tf_encrypted/tensor/boolfactory.py |  5 +++++
 tf_encrypted/tensor/int100.py      |  5 +++++
 tf_encrypted/tensor/int128.py      |  8 +++++---
 tf_encrypted/tensor/native.py      |  8 +++++---
 5 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/tf_encrypted/protocol/protocol.py b/tf_encrypted/protocol/protocol.py
index cf23e85..68d1523 100644
--- a/tf_encrypted/protocol/protocol.py
+++ b/tf_encrypted/protocol/protocol.py
@@ -96,6 +96,14 @@ def make_hashable(x):
             return str(id(x)) + str(x)
 
 
+def holds_variable(x):
+    if isinstance(x, (tuple, list)):
+        return any(holds_variable(y) for y in x)
+    if isinstance(x, dict):
+        return any(holds_variable(y) for y in x.values())
+    return isinstance(x, TFEVariable)
+
+
 def memoize(func: Callable) -> Callable:
     """
     memoize(func) -> Callable
@@ -111,6 +119,10 @@ def memoize(func: Callable) -> Callable:
         if get_config().debug:
             return func(self, *args, **kwargs)
 
+        # a variable may be assigned between two calls
+        if holds_variable(args) or holds_variable(kwargs):
+            return func(self, *args, **kwargs)
+
         hashable_args = make_hashable(args)
         hashable_kwargs = make_hashable(kwargs)
         # results belong to the protocol that computed them, and symbolic results
diff --git a/tf_encrypted/tensor/boolfactory.py b/tf_encrypted/tensor/boolfactory.py
index e30481c..74664f5 100644
--- a/tf_encrypted/tensor/boolfactory.py
+++ b/tf_encrypted/tensor/boolfactory.py
@@ -285,6 +285,11 @@ def bool_factory():
             self.variable = variable_value
             super(Variable, self).__init__(self.variable.read_value())
 
+        @property
+        def value(self) -> tf.Tensor:
+            # always the current value, it may have been assigned
+            return self.variable.read_value()
+
         def __repr__(self) -> str:
             return "Variable(shape={})".format(self.shape)
 
diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index 194dc0e..5b02106 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -811,6 +811,11 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
             backing = [var.read_value() for var in self.variables]
             super(Variable, self).__init__(backing)
 
+        @property
+        def backing(self):
+            # always the current value, it may have been assigned
+            return [var.read_value() for var in self.variables]
+
         def __repr__(self):
             return "Variable({})".format(self.shape)
 
diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index edd83cf..db64cfd 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -596,12 +596,14 @@ def int128_factory():  # pylint: disable=invalid-name
         """Native Variable class."""
 
         def __init__(self, variable_value: tf.Variable) -> None:
-            # TODO(zjn) need a better implementation to update Tensor's `_value`
-            # after variable has been assigned
-            # also for case bool factory and int100 factory
             super(Variable, self).__init__(variable_value.read_value())
             self.variable = variable_value
 
+        @property
+        def value(self) -> tf.Tensor:
+            # always the current value, it may have been assigned
+            return self.variable.read_value()
+
         def __repr__(self) -> str:
             return "Variable(shape={})".format(self.shape)
 
diff --git a/tf_encrypted/tensor/native.py b/tf_encrypted/tensor/native.py
index 44171b0..d287223 100644
--- a/tf_encrypted/tensor/native.py
+++ b/tf_encrypted/tensor/native.py
@@ -604,12 +604,14 @@ def native_factory(
         """Native Variable class."""
 
         def __init__(self, variable_value: tf.Variable) -> None:
-            # TODO(zjn) need a better implementation to update Tensor's `_value`
-            # after variable has been assigned
-            # also for case bool factory and int100 factory
             super(Variable, self).__init__(variable_value.read_value())
             self.variable = variable_value
 
+        @property
+        def value(self) -> tf.Tensor:
+            # always the current value, it may have been assigned
+            return self.variable.read_value()
+
         def __repr__(self) -> str:
             return "Variable(shape={})".format(self.shape)
 
-- 
2.43.0


From 9b0f24d25430bf422e45c278036c2b3e54f54392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:08 +0000
Subject: [PATCH 42/68] fix: decoding a public variable directly returned the
 value of an earlier decoding

---
 tf_encrypted/protocol/protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/protocol.py b/tf_encrypted/protocol/protocol.py
index 68d1523..4165d0d 100644
--- a/tf_encrypted/protocol/protocol.py
+++ b/tf_encrypted/protocol/protocol.py
@@ -13,6 +13,7 @@ import tf_encrypted as tfe
 
 from ..config import get_config
 from ..tensor.factory import AbstractTensor
+from ..tensor.factory import AbstractVariable
 
 nodes = dict()
 
@@ -101,7 +102,7 @@ def holds_variable(x):
         return any(holds_variable(y) for y in x)
     if isinstance(x, dict):
         return any(holds_variable(y) for y in x.values())
-    return isinstance(x, TFEVariable)
+    return isinstance(x, (TFEVariable, AbstractVariable))
 
 
 def memoize(func: Callable) -> Callable:
-- 
2.43.0


From eca44c38d8102f10c0f198ed725dcbf92c3051a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:09 +0000
Subject: [PATCH 43/68] fix: ABY3 to_private overwrote shares of a cached
 tensor of zeros and kept following an assigned variable

---
 tf_encrypted/protocol/aby3/aby3_tensors.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3_tensors.py b/tf_encrypted/protocol/aby3/aby3_tensors.py
index c75d12f..5772b93 100644
--- a/tf_encrypted/protocol/aby3/aby3_tensors.py
+++ b/tf_encrypted/protocol/aby3/aby3_tensors.py
@@ -487,10 +487,14 @@ class ABY3PublicTensor(ABY3Tensor, TFEPublicTensor):
 
     def to_private(self, share_type):
         factory = self.backing_dtype
-        result = self.prot.zeros(self.shape, self.is_scaled, share_type, factory)
-        result.unwrapped[0][0] = self.values[0]
-        result.unwrapped[2][1] = self.values[2]
-        return result
+        # the result of `zeros` may be shared with other callers
+        zeros = self.prot.zeros(self.shape, self.is_scaled, share_type, factory)
+        shares = [list(s) for s in zeros.unwrapped]
+        with tf.device(self.prot.servers[0].device_name):
+            shares[0][0] = self.values[0].identity()
+        with tf.device(self.prot.servers[2].device_name):
+            shares[2][1] = self.values[2].identity()
+        return ABY3PrivateTensor(self.prot, shares, self.is_scaled, share_type)
 
 
 class ABY3Constant(ABY3PublicTensor):
-- 
2.43.0


From 1810ceec114c091cc751a379dba7f69818615a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:09 +0000
Subject: [PATCH 44/68] fix: ABY3 local computations failed on public arguments

---
 tf_encrypted/protocol/aby3/aby3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 5c467ed..c802095 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -605,7 +605,7 @@ class ABY3(Protocol):
                 return x
 
             if isinstance(x, ABY3PublicTensor):
-                w, _ = x.unwrapped
+                w = x.unwrapped[0]
                 v = self._decode(w, x.is_scaled)
                 return v
 
-- 
2.43.0


From 80fc075aaf2e5cfdb1007672fa26b5f3591a4b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:36 +0000
Subject: [PATCH 45/68] fix: masked, padded and multiplied-by-one variables
 changed when the variable was assigned

---
 tf_encrypted/protocol/aby3/aby3.py | 8 +++++++-
 tf_encrypted/protocol/pond/pond.py | 9 +++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index c802095..26c6f69 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -37,6 +37,7 @@ from ...tensor.fixed import fixed64_heuristic
 from ...tensor.fixed import fixed128_heuristic
 from ...tensor.shared import out_size
 from ..protocol import Protocol
+from ..protocol import TFEVariable
 from ..protocol import memoize
 from . import fp
 from .aby3_tensors import *
@@ -1277,7 +1278,8 @@ class ABY3(Protocol):
     @memoize
     def mul_pow2(self, x, exponent):
         if exponent == 0:
-            return x
+            # the product must not change when a variable is assigned
+            return x.read_value() if isinstance(x, TFEVariable) else x
         elif exponent < 0:
             return self.truncate(x, amount=-exponent)
         else:
@@ -1960,6 +1962,10 @@ class ABY3(Protocol):
                 return self.concat([tensor, zeros(padshape)], axis=axis)
 
         with tf.name_scope("pad"):
+            if isinstance(x, TFEVariable):
+                # the result must not change when the variable is assigned
+                x = x.read_value()
+
             for axis, (pad_before, pad_after) in enumerate(paddings):
                 x = append_zeros(x, pad_after, axis)
                 x = prepend_zeros(x, pad_before, axis)
diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index d6f52d6..d32a15b 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -47,6 +47,7 @@ from ..protocol import TFEPublicTensor
 from ..protocol import TFEPublicVariable
 from ..protocol import TFETensor
 from ..protocol import TFETensorBone
+from ..protocol import TFEVariable
 from ..protocol import memoize
 from .triple_sources import BaseTripleSource
 from .triple_sources import OnlineTripleSource
@@ -1476,6 +1477,10 @@ class Pond(Protocol):
                 return self.concat([tensor, zeros(padshape)], axis=axis)
 
         with tf.name_scope("pad"):
+            if isinstance(x, TFEVariable):
+                # the result must not change when the variable is assigned
+                x = x.read_value()
+
             for axis, (pad_before, pad_after) in enumerate(paddings):
                 x = append_zeros(x, pad_after, axis)
                 x = prepend_zeros(x, pad_before, axis)
@@ -4024,6 +4029,10 @@ def _concat_masked(
 def _mask_private(prot: Pond, x: PondPrivateTensor) -> PondMaskedTensor:
     assert isinstance(x, PondPrivateTensor)
 
+    if isinstance(x, TFEVariable):
+        # the masked tensor must not change when the variable is assigned
+        x = x.read_value()
+
     x0, x1 = x.unwrapped
 
     with tf.name_scope("mask"):
-- 
2.43.0


From d452e461b2885def7f40defefc508c635907538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:02 +0000
Subject: [PATCH 46/68] fix: results computed from a variable by passing shares
 through changed when it was assigned

---
 tf_encrypted/protocol/aby3/aby3.py         |  4 ++--
 tf_encrypted/protocol/aby3/aby3_tensors.py | 10 ++++++++++
 tf_encrypted/protocol/pond/pond.py         | 10 ++++++++++
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 26c6f69..82f2f54 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -1133,7 +1133,7 @@ class ABY3(Protocol):
                 value.is_scaled,
             )
 
-            var_shares = variable.unwrapped
+            var_shares = variable.shares
             val_shares = value.unwrapped
 
             with tf.device(self.servers[0].device_name):
@@ -1157,7 +1157,7 @@ class ABY3(Protocol):
                 value.is_scaled,
             )
 
-            var = variable.unwrapped
+            var = variable.variables
             val = value.unwrapped
 
             with tf.name_scope("assign"):
diff --git a/tf_encrypted/protocol/aby3/aby3_tensors.py b/tf_encrypted/protocol/aby3/aby3_tensors.py
index 5772b93..577a03b 100644
--- a/tf_encrypted/protocol/aby3/aby3_tensors.py
+++ b/tf_encrypted/protocol/aby3/aby3_tensors.py
@@ -537,6 +537,11 @@ class ABY3PublicVariable(ABY3PublicTensor, TFEPublicVariable):
     def __repr__(self) -> str:
         return "ABY3PublicVariable(shape={})".format(self.shape)
 
+    @property
+    def unwrapped(self):
+        # results must not change when the variable is assigned
+        return self.read_value().unwrapped
+
     def read_value(self) -> ABY3PublicTensor:
         values = [None, None, None]
         with tf.device(self.prot.servers[0].device_name):
@@ -635,6 +640,11 @@ class ABY3PrivateVariable(ABY3PrivateTensor, TFEPrivateVariable):
             self.shape, self.share_type
         )
 
+    @property
+    def unwrapped(self):
+        # results must not change when the variable is assigned
+        return self.read_value().unwrapped
+
     def read_value(self) -> ABY3PrivateTensor:
         values = [[None, None], [None, None], [None, None]]
         with tf.device(self.prot.servers[0].device_name):
diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index d32a15b..0dac799 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -2113,6 +2113,11 @@ class PondPublicVariable(PondPublicTensor, TFEPublicVariable):
     def __repr__(self) -> str:
         return "PondPublicVariable(shape={})".format(self.shape)
 
+    @property
+    def unwrapped(self) -> Tuple[AbstractTensor, ...]:
+        # results must not change when the variable is assigned
+        return self.read_value().unwrapped
+
     def read_value(self):
         with tf.device(self.prot.server_0.device_name):
             value_on_0 = self.variable_on_0.read_value()
@@ -2148,6 +2153,11 @@ class PondPrivateVariable(PondPrivateTensor, TFEPrivateVariable):
     def __repr__(self) -> str:
         return "PondPrivateVariable(shape={})".format(self.shape)
 
+    @property
+    def unwrapped(self) -> Tuple[AbstractTensor, ...]:
+        # results must not change when the variable is assigned
+        return self.read_value().unwrapped
+
     def read_value(self):
         with tf.device(self.prot.server_0.device_name):
             value_on_0 = self.variable0.read_value()
-- 
2.43.0


From 7c0971e6f5258c0b199d249bc0d15de0f9daf106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:33 +0000
Subject: [PATCH 47/68] fix: unseeded random ops were merged and folded into
 constants in traced functions

---
 operations/secure_random/secure_random.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/operations/secure_random/secure_random.cc b/operations/secure_random/secure_random.cc
index 27616dd..11c4bba 100644
--- a/operations/secure_random/secure_random.cc
+++ b/operations/secure_random/secure_random.cc
@@ -75,6 +75,7 @@ REGISTER_OP("SecureRandomUniform")
     .Output("output: dtype")
     .Attr("dtype: {int8, int16, int32, int64} = DT_INT32")
     .Attr("T: {int32, int64} = DT_INT32")
+    .SetIsStateful()
     .SetShapeFn(RandomUniformShapeCommon);
   
 REGISTER_OP("I128SecureSeededRandomUniform")
@@ -95,6 +96,7 @@ REGISTER_OP("I128SecureRandomUniform")
     .Output("output: dtype")
     .Attr("dtype: {int64} = DT_INT64")
     .Attr("T: {int32, int64} = DT_INT32")
+    .SetIsStateful()
     .SetShapeFn(I128RandomUniformShapeCommon);
 
 REGISTER_OP("SecureSeed")
-- 
2.43.0


From 27752a4439534cb29e752e2924cf9866cf61d7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:08 +0000
Subject: [PATCH 48/68] fix: ABY3 reused a nonce when an operation failed
 half-way and was repeated

---
 tf_encrypted/protocol/aby3/aby3.py | 98 ++++++++++++++++--------------
 1 file changed, 54 insertions(+), 44 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 82f2f54..13ac13f 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -116,6 +116,15 @@ class ABY3(Protocol):
             raise RuntimeError("Please call `reset` to initialize keys.")
         return self.pairwise_nonces_
 
+    def _take_pairwise_nonces(self):
+        """
+        Nonces for one use. They are advanced before anything is drawn with them,
+        so that a failed use does not leave them to the next one.
+        """
+        nonces = self.pairwise_nonces().copy()
+        self._update_pairwise_nonces()
+        return nonces
+
     def _update_pairwise_nonces(self):
         self.pairwise_nonces_ += 1
 
@@ -134,6 +143,12 @@ class ABY3(Protocol):
             raise RuntimeError("Please call `reset` to initialize keys.")
         return self.b2a_nonce_
 
+    def _take_b2a_nonce(self):
+        """Nonce for one use, advanced before anything is drawn with it."""
+        nonce = self.b2a_nonce()
+        self._update_b2a_nonce()
+        return nonce
+
     def _update_b2a_nonce(self):
         self.b2a_nonce_ += 1
 
@@ -952,123 +967,122 @@ class ABY3(Protocol):
                 )
 
         factory = factory or self.default_factory
+        nonces = self._take_pairwise_nonces()
         with tf.name_scope("zero-sharing"):
             with tf.device(self.servers[0].device_name):
                 f00 = factory.sample_seeded_uniform(
                     shape=shape,
-                    seed=self.pairwise_keys()[0][0] + self.pairwise_nonces()[2],
+                    seed=self.pairwise_keys()[0][0] + nonces[2],
                 )  # yapf: disable
                 f01 = factory.sample_seeded_uniform(
                     shape=shape,
-                    seed=self.pairwise_keys()[0][1] + self.pairwise_nonces()[0],
+                    seed=self.pairwise_keys()[0][1] + nonces[0],
                 )  # yapf: disable
                 a0 = helper(f00, f01)
             with tf.device(self.servers[1].device_name):
                 f10 = factory.sample_seeded_uniform(
                     shape=shape,
-                    seed=self.pairwise_keys()[1][0] + self.pairwise_nonces()[0],
+                    seed=self.pairwise_keys()[1][0] + nonces[0],
                 )  # yapf: disable
                 f11 = factory.sample_seeded_uniform(
                     shape=shape,
-                    seed=self.pairwise_keys()[1][1] + self.pairwise_nonces()[1],
+                    seed=self.pairwise_keys()[1][1] + nonces[1],
                 )  # yapf: disable
                 a1 = helper(f10, f11)
             with tf.device(self.servers[2].device_name):
                 f20 = factory.sample_seeded_uniform(
                     shape=shape,
-                    seed=self.pairwise_keys()[2][0] + self.pairwise_nonces()[1],
+                    seed=self.pairwise_keys()[2][0] + nonces[1],
                 )  # yapf: disable
                 f21 = factory.sample_seeded_uniform(
                     shape=shape,
-                    seed=self.pairwise_keys()[2][1] + self.pairwise_nonces()[2],
+                    seed=self.pairwise_keys()[2][1] + nonces[2],
                 )  # yapf: disable
                 a2 = helper(f20, f21)
 
-        self._update_pairwise_nonces()
         return a0, a1, a2
 
     def _gen_random_sharing(self, shape, share_type=ShareType.ARITHMETIC, factory=None):
 
         r = [[None] * 2 for _ in range(3)]
         factory = factory or self.default_factory
+        nonces = self._take_pairwise_nonces()
         with tf.name_scope("random-sharing"):
             with tf.device(self.servers[0].device_name):
                 r[0][0] = factory.sample_seeded_uniform(
                     shape=shape,
-                    seed=self.pairwise_keys()[0][0] + self.pairwise_nonces()[2],
+                    seed=self.pairwise_keys()[0][0] + nonces[2],
                 )  # yapf: disable
                 r[0][1] = factory.sample_seeded_uniform(
                     shape=shape,
-                    seed=self.pairwise_keys()[0][1] + self.pairwise_nonces()[0],
+                    seed=self.pairwise_keys()[0][1] + nonces[0],
                 )  # yapf: disable
             with tf.device(self.servers[1].device_name):
                 r[1][0] = factory.sample_seeded_uniform(
                     shape=shape,
-                    seed=self.pairwise_keys()[1][0] + self.pairwise_nonces()[0],
+                    seed=self.pairwise_keys()[1][0] + nonces[0],
                 )  # yapf: disable
                 r[1][1] = factory.sample_seeded_uniform(
                     shape=shape,
-                    seed=self.pairwise_keys()[1][1] + self.pairwise_nonces()[1],
+                    seed=self.pairwise_keys()[1][1] + nonces[1],
                 )  # yapf: disable
             with tf.device(self.servers[2].device_name):
                 r[2][0] = factory.sample_seeded_uniform(
                     shape=shape,
-                    seed=self.pairwise_keys()[2][0] + self.pairwise_nonces()[1],
+                    seed=self.pairwise_keys()[2][0] + nonces[1],
                 )  # yapf: disable
                 r[2][1] = factory.sample_seeded_uniform(
                     shape=shape,
-                    seed=self.pairwise_keys()[2][1] + self.pairwise_nonces()[2],
+                    seed=self.pairwise_keys()[2][1] + nonces[2],
                 )  # yapf: disable
 
-        self._update_pairwise_nonces()
-
         return ABY3PrivateTensor(self, r, True, share_type)
 
     def _gen_b2a_sharing(self, shape, b2a_keys, factory):
         shares = [[None, None], [None, None], [None, None]]
+        nonce = self._take_b2a_nonce()
         with tf.device(self.servers[0].device_name):
             shares[0][0] = factory.sample_seeded_uniform(
-                shape=shape, seed=b2a_keys[0][0] + self.b2a_nonce()
+                shape=shape, seed=b2a_keys[0][0] + nonce
             )  # yapf: disable
             shares[0][1] = factory.sample_seeded_uniform(
-                shape=shape, seed=b2a_keys[0][1] + self.b2a_nonce()
+                shape=shape, seed=b2a_keys[0][1] + nonce
             )  # yapf: disable
             x_on_0 = None
             if b2a_keys[0][2] is not None:
                 share_2 = factory.sample_seeded_uniform(
-                    shape=shape, seed=b2a_keys[0][2] + self.b2a_nonce()
+                    shape=shape, seed=b2a_keys[0][2] + nonce
                 )  # yapf: disable
                 x_on_0 = shares[0][0] ^ shares[0][1] ^ share_2
 
         with tf.device(self.servers[1].device_name):
             shares[1][0] = factory.sample_seeded_uniform(
-                shape=shape, seed=b2a_keys[1][1] + self.b2a_nonce()
+                shape=shape, seed=b2a_keys[1][1] + nonce
             )  # yapf: disable
             shares[1][1] = factory.sample_seeded_uniform(
-                shape=shape, seed=b2a_keys[1][2] + self.b2a_nonce()
+                shape=shape, seed=b2a_keys[1][2] + nonce
             )  # yapf: disable
             x_on_1 = None
             if b2a_keys[1][0] is not None:
                 share_0 = factory.sample_seeded_uniform(
-                    shape=shape, seed=b2a_keys[1][0] + self.b2a_nonce()
+                    shape=shape, seed=b2a_keys[1][0] + nonce
                 )  # yapf: disable
                 x_on_1 = share_0 ^ shares[1][0] ^ shares[1][1]
 
         with tf.device(self.servers[2].device_name):
             shares[2][0] = factory.sample_seeded_uniform(
-                shape=shape, seed=b2a_keys[2][2] + self.b2a_nonce()
+                shape=shape, seed=b2a_keys[2][2] + nonce
             )  # yapf: disable
             shares[2][1] = factory.sample_seeded_uniform(
-                shape=shape, seed=b2a_keys[2][0] + self.b2a_nonce()
+                shape=shape, seed=b2a_keys[2][0] + nonce
             )  # yapf: disable
             x_on_2 = None
             if b2a_keys[2][1] is not None:
                 share_1 = factory.sample_seeded_uniform(
-                    shape=shape, seed=b2a_keys[2][1] + self.b2a_nonce()
+                    shape=shape, seed=b2a_keys[2][1] + nonce
                 )  # yapf: disable
                 x_on_2 = share_1 ^ shares[2][0] ^ shares[2][1]
 
-        self._update_b2a_nonce()
         return x_on_0, x_on_1, x_on_2, shares
 
     def _ot(
@@ -2742,13 +2756,14 @@ def _truncate_local_private(
     shares = x.unwrapped
 
     y = [[None, None], [None, None], [None, None]]
+    nonces = prot._take_pairwise_nonces()
     with tf.name_scope("truncate-local"):
 
         # Local computation
         with tf.device(prot.servers[2].device_name):
             r_on_2 = x.backing_dtype.sample_seeded_uniform(
                 shares[2][0].shape,
-                prot.pairwise_keys()[2][0] + prot.pairwise_nonces()[1],
+                prot.pairwise_keys()[2][0] + nonces[1],
             )
 
         # Local computation
@@ -2759,14 +2774,12 @@ def _truncate_local_private(
         with tf.device(prot.servers[1].device_name):
             r_on_1 = x.backing_dtype.sample_seeded_uniform(
                 shares[1][0].shape,
-                prot.pairwise_keys()[1][1] + prot.pairwise_nonces()[1],
+                prot.pairwise_keys()[1][1] + nonces[1],
             )
             t = shares[1][0] + shares[1][1]
             tmp = t.truncate(amount, base)
             y1 = tmp - r_on_1
 
-        prot._update_pairwise_nonces()
-
         # Replicate shares
 
         # server 1 sends `y1`
@@ -2796,6 +2809,7 @@ def _truncate_msb0_cheetah_private(
         amount = prot.fixedpoint_config.precision_fractional
     shape = x.shape
     x_shares = x.unwrapped
+    nonces = prot._take_pairwise_nonces()
     with tf.device(prot.servers[0].device_name):
         x_alice = x_shares[0][0] + x_shares[0][1]
         # sample w_A
@@ -2830,19 +2844,19 @@ def _truncate_msb0_cheetah_private(
         msb_bob_on_2,
         prot.pairwise_keys()[0][0],
         prot.pairwise_keys()[2][1],
-        prot.pairwise_nonces()[2],
+        nonces[2],
     )
 
     w = [[None, None], [None, None], [None, None]]
     with tf.device(prot.servers[0].device_name):
         w[0][0] = w_alice
         w[0][1] = bfactory.sample_seeded_uniform(
-            shape, prot.pairwise_keys()[0][1] + prot.pairwise_nonces()[0]
+            shape, prot.pairwise_keys()[0][1] + nonces[0]
         )
 
     with tf.device(prot.servers[1].device_name):
         w[1][0] = bfactory.sample_seeded_uniform(
-            shape, prot.pairwise_keys()[1][0] + prot.pairwise_nonces()[0]
+            shape, prot.pairwise_keys()[1][0] + nonces[0]
         )
         w[1][1] = w_bob ^ w[1][0]
 
@@ -2850,8 +2864,6 @@ def _truncate_msb0_cheetah_private(
         w[2][0] = w[1][1].identity()
         w[2][1] = w_alice.identity()
 
-    prot._update_pairwise_nonces()
-
     # b2a. TODO: communication could be optimized from l to f
     w = prot.b2a_single(ABY3PrivateTensor(prot, w, False, ShareType.BOOLEAN))
 
@@ -2891,6 +2903,7 @@ def _truncate_msb0_secureq8_private(
 
     with tf.name_scope("trunc-msb0-secureq8"):
 
+        nonces = prot._take_pairwise_nonces()
         ifactory = x.backing_dtype
         bfactory = factories[tf.bool]
 
@@ -2904,10 +2917,10 @@ def _truncate_msb0_secureq8_private(
         # P2: Generate random values, compute intermediate results, and share them as 2PC sharings among P0 and P1
         with tf.device(prot.servers[2].device_name):
             randoms02_on_2 = ifactory.sample_seeded_uniform(
-                [4] + shape, prot.pairwise_keys()[2][1] + prot.pairwise_nonces()[2]
+                [4] + shape, prot.pairwise_keys()[2][1] + nonces[2]
             )
             randoms12_on_2 = ifactory.sample_seeded_uniform(
-                shape, prot.pairwise_keys()[2][0] + prot.pairwise_nonces()[1]
+                shape, prot.pairwise_keys()[2][0] + nonces[1]
             )
             r = ifactory.sample_uniform(shape)
             h = r & msb_mask
@@ -2931,7 +2944,7 @@ def _truncate_msb0_secureq8_private(
         # P0: mask x0
         with tf.device(prot.servers[0].device_name):
             randoms02_on_0 = ifactory.sample_seeded_uniform(
-                [4] + shape, prot.pairwise_keys()[0][0] + prot.pairwise_nonces()[2]
+                [4] + shape, prot.pairwise_keys()[0][0] + nonces[2]
             )
             r0_on_0 = randoms02_on_0[0]
             x0 = x_shares[0][0] + x_shares[0][1]
@@ -2955,7 +2968,7 @@ def _truncate_msb0_secureq8_private(
 
         with tf.device(prot.servers[1].device_name):
             randoms12_on_1 = ifactory.sample_seeded_uniform(
-                shape, prot.pairwise_keys()[1][1] + prot.pairwise_nonces()[1]
+                shape, prot.pairwise_keys()[1][1] + nonces[1]
             )
             y2 = randoms12_on_1
             c_on_1 = c0 + c1
@@ -2965,8 +2978,6 @@ def _truncate_msb0_secureq8_private(
             y_prime1 = -s1 + b1 * (mod_mask + 1)
             y_tilde1 = y_prime1 - y2
 
-        prot._update_pairwise_nonces()
-
         y = [[None, None], [None, None], [None, None]]
         with tf.device(prot.servers[0].device_name):
             y[0][0] = y0
@@ -4087,6 +4098,7 @@ def __mul_ab_routine(prot, a, b, sender_idx):
         s = [None, None, None]
         s[0], s[1], s[2] = prot._gen_zero_sharing(shape, ShareType.ARITHMETIC)
 
+        nonces = prot._take_pairwise_nonces()
         z = [[None, None], [None, None], [None, None]]
         idx0 = sender_idx
         idx1 = (sender_idx + 1) % 3
@@ -4110,7 +4122,7 @@ def __mul_ab_routine(prot, a, b, sender_idx):
                 b_shares[idx2][0],
                 prot.pairwise_keys()[idx0][0],
                 prot.pairwise_keys()[idx2][1],
-                prot.pairwise_nonces()[idx2],
+                nonces[idx2],
             )
 
         with tf.device(prot.servers[idx2].device_name):
@@ -4124,12 +4136,10 @@ def __mul_ab_routine(prot, a, b, sender_idx):
                 b_shares[idx1][1],
                 prot.pairwise_keys()[idx0][1],
                 prot.pairwise_keys()[idx1][0],
-                prot.pairwise_nonces()[idx0],
+                nonces[idx0],
             )
             z[idx2][1] = s[idx2]
 
-        prot._update_pairwise_nonces()
-
     return z
 
 
-- 
2.43.0


From 2f6f705cfeba6e2066677b5f07ade45dc1420f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:19 +0000
Subject: [PATCH 49/68] fix: ABY3 used the same masks in every call of a traced
 function

---
 tf_encrypted/protocol/aby3/aby3.py | 84 +++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 30 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 13ac13f..eeeab9c 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -63,6 +63,17 @@ def is_power_of_two(x):
     return x > 0 and int(math.log2(x)) == math.log2(x)
 
 
+class Randomness:
+    """Keys shared by some of the servers, and how often they have been used."""
+
+    def __init__(self):
+        self.pairwise_keys = None
+        self.pairwise_nonces = None
+        self.b2a_keys_1 = None
+        self.b2a_keys_2 = None
+        self.b2a_nonce = None
+
+
 class ABY3(Protocol):
     """ABY3 framework."""
 
@@ -98,23 +109,37 @@ class ABY3(Protocol):
         self.reset()
 
     def reset(self):
-        self.pairwise_keys_ = None
-        self.pairwise_nonces_ = None
-        self.b2a_keys_1_ = None
-        self.b2a_keys_2_ = None
-        self.b2a_nonce_ = None
+        self.randomness_ = None
         self.keys_initialized = False
         self.initialize_keys()
 
-    def pairwise_keys(self):
+    def _randomness(self):
+        """
+        Keys and nonces to use here.
+
+        Nonces are plain numbers that become constants of a traced function, so a
+        traced function has keys of its own, which are drawn anew by every call.
+        """
         if not self.keys_initialized:
             raise RuntimeError("Please call `reset` to initialize keys.")
-        return self.pairwise_keys_
+        if tf.executing_eagerly():
+            if self.randomness_ is None:
+                self.randomness_ = self._setup_randomness()
+            return self.randomness_
+        graph = tf.compat.v1.get_default_graph()
+        # an inner graph, such as the body of a loop, inherits the collection of the
+        # outer one but may run more often
+        of_graph = graph.get_collection_ref(("aby3-randomness", self))
+        if not of_graph or of_graph[0][0] is not graph:
+            with tf.control_dependencies(None):
+                of_graph[:] = [(graph, self._setup_randomness())]
+        return of_graph[0][1]
+
+    def pairwise_keys(self):
+        return self._randomness().pairwise_keys
 
     def pairwise_nonces(self):
-        if not self.keys_initialized:
-            raise RuntimeError("Please call `reset` to initialize keys.")
-        return self.pairwise_nonces_
+        return self._randomness().pairwise_nonces
 
     def _take_pairwise_nonces(self):
         """
@@ -126,22 +151,16 @@ class ABY3(Protocol):
         return nonces
 
     def _update_pairwise_nonces(self):
-        self.pairwise_nonces_ += 1
+        self._randomness().pairwise_nonces += 1
 
     def b2a_keys_1(self):
-        if not self.keys_initialized:
-            raise RuntimeError("Please call `reset` to initialize keys.")
-        return self.b2a_keys_1_
+        return self._randomness().b2a_keys_1
 
     def b2a_keys_2(self):
-        if not self.keys_initialized:
-            raise RuntimeError("Please call `reset` to initialize keys.")
-        return self.b2a_keys_2_
+        return self._randomness().b2a_keys_2
 
     def b2a_nonce(self):
-        if not self.keys_initialized:
-            raise RuntimeError("Please call `reset` to initialize keys.")
-        return self.b2a_nonce_
+        return self._randomness().b2a_nonce
 
     def _take_b2a_nonce(self):
         """Nonce for one use, advanced before anything is drawn with it."""
@@ -150,14 +169,19 @@ class ABY3(Protocol):
         return nonce
 
     def _update_b2a_nonce(self):
-        self.b2a_nonce_ += 1
+        self._randomness().b2a_nonce += 1
 
     def initialize_keys(self):
-        self._setup_pairwise_randomness()
-        self._setup_b2a_generator()
         self.keys_initialized = True
+        self._randomness()
+
+    def _setup_randomness(self):
+        randomness = Randomness()
+        self._setup_pairwise_randomness(randomness)
+        self._setup_b2a_generator(randomness)
+        return randomness
 
-    def _setup_pairwise_randomness(self):
+    def _setup_pairwise_randomness(self, randomness):
         """
         Initial setup for pairwise randomness: Every two parties hold a shared key.
         """
@@ -208,10 +232,10 @@ class ABY3(Protocol):
             # nonces[0] for server 0 and 1, nonces[1] for server 1 and 2, nonces[2] for server 2 and 0
             nonces = np.array([0, 0, 0], dtype=np.int64)
 
-            self.pairwise_keys_ = keys
-            self.pairwise_nonces_ = nonces
+            randomness.pairwise_keys = keys
+            randomness.pairwise_nonces = nonces
 
-    def _setup_b2a_generator(self):
+    def _setup_b2a_generator(self, randomness):
         """
         Initial setup for generating shares during the conversion
         from boolean sharing to arithmetic sharing
@@ -293,9 +317,9 @@ class ABY3(Protocol):
                 b2a_keys_2[2][2] = seed_2
 
             b2a_nonce = 0
-            self.b2a_keys_1_ = b2a_keys_1
-            self.b2a_keys_2_ = b2a_keys_2
-            self.b2a_nonce_ = b2a_nonce
+            randomness.b2a_keys_1 = b2a_keys_1
+            randomness.b2a_keys_2 = b2a_keys_2
+            randomness.b2a_nonce = b2a_nonce
 
     def define_constant(
         self,
-- 
2.43.0


From 9b90641d366dc2ed8fbf173c4c927f3ab235dadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:15 +0000
Subject: [PATCH 50/68] fix: SecureNN comparisons showed server 2 the position
 of the deciding bit

---
 tf_encrypted/protocol/securenn/securenn.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 3c1777e..4218324 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -758,11 +758,20 @@ def _private_compare(
             c_masked = c * mask
             assert c_masked.backing_dtype == prime_dtype
 
-            # TODO[Morten] permute
+            # permute each bit sequence, as server 2 may not learn the position
+            # of the zero
+            d0, d1 = c_masked.unwrapped
+            with tf.device(prot.server_0.device_name):
+                keys = int64factory.sample_uniform(c.shape).value
+                permutation_on_0 = tf.argsort(keys, axis=-1)
+                d0 = _permute_last_axis(d0, permutation_on_0)
+            with tf.device(prot.server_1.device_name):
+                permutation_on_1 = tf.identity(permutation_on_0)
+                d1 = _permute_last_axis(d1, permutation_on_1)
 
             # reconstruct masked values on server 2 to find entries with zeros
             with tf.device(prot.server_2.device_name):
-                d = prot._reconstruct(*c_masked.unwrapped)
+                d = prot._reconstruct(d0, d1)
                 # find all zero entries
                 zeros = d.equal_zero(out_dtype)
                 # for each bit sequence, determine whether it has one or no zero in it
@@ -774,6 +783,12 @@ def _private_compare(
         return result
 
 
+def _permute_last_axis(x: AbstractTensor, permutation: tf.Tensor) -> AbstractTensor:
+    """Apply a permutation of the last axis to each of its vectors."""
+    y = tf.gather(x.value, permutation, axis=-1, batch_dims=len(x.shape) - 1)
+    return x.factory.tensor(y)
+
+
 def _equal_zero_public(prot, x: PondPublicTensor, dtype=None):
     """Check if a public tensor's values equal zero."""
 
-- 
2.43.0


From 31a572a1c6cfc4253d65b08170025fabe78995cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:12 +0000
Subject: [PATCH 51/68] fix: leave a protocol's block entered inside itself
 correctly

Entering a protocol again within its own block overwrote the protocol to go
back to, so the outer block restored itself instead of what was before it.
---
 tf_encrypted/protocol/protocol.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/protocol.py b/tf_encrypted/protocol/protocol.py
index 4165d0d..47cefee 100644
--- a/tf_encrypted/protocol/protocol.py
+++ b/tf_encrypted/protocol/protocol.py
@@ -28,7 +28,9 @@ class Protocol(ABC):
     """
 
     def __enter__(self) -> "Protocol":
-        self.last_protocol = tfe.get_protocol()
+        # the same protocol may be entered again inside its own block
+        outer = self.__dict__.setdefault("outer_protocols", [])
+        outer.append(tfe.get_protocol())
         tfe.set_protocol(self)
         return self
 
@@ -38,7 +40,7 @@ class Protocol(ABC):
         exception_value: Optional[Exception],
         traceback: Optional[TracebackType],
     ) -> Optional[bool]:
-        tfe.set_protocol(self.last_protocol)
+        tfe.set_protocol(self.outer_protocols.pop())
 
     def reset(self):
         pass
-- 
2.43.0


From 109f7b8d3d75f98c58639f5cc7c4023e0fceb0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:50 +0000
Subject: [PATCH 52/68] fix: get_players returns the players in the order asked
 for

Callers unpack the result into a protocol's roles, e.g.
Pond(*config.get_players("server0, server1, crypto-producer")); it came in the
order of the configuration, which gave players the wrong roles.
---
 tf_encrypted/config.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/config.py b/tf_encrypted/config.py
index 3eb29c0..8e6b9a3 100644
--- a/tf_encrypted/config.py
+++ b/tf_encrypted/config.py
@@ -145,7 +145,12 @@ class LocalConfig(Config):
         if isinstance(names, str):
             names = [name.strip() for name in names.split(",")]
         assert isinstance(names, list)
-        return [player for player in self._players if player.name in names]
+        # in the order asked for: callers pass the result on as positional arguments
+        players = [
+            next((player for player in self._players if player.name == name), None)
+            for name in names
+        ]
+        return [player for player in players if player is not None]
 
 
 class RemoteConfig(Config):
@@ -225,7 +230,8 @@ class RemoteConfig(Config):
         if isinstance(names, str):
             names = [name.strip() for name in names.split(",")]
         assert isinstance(names, list)
-        return [player for name, player in self._players.items() if name in names]
+        # in the order asked for: callers pass the result on as positional arguments
+        return [self._players[name] for name in names if name in self._players]
 
     def start_server(self, name, start=True):
         """Construct a :class:`tf.distribute.Server` object for the corresponding
-- 
2.43.0


From 4756f17a1d393bfaab3faca8eae53460273d8002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:22 +0000
Subject: [PATCH 53/68] fix: uniform odd tensors never hold -1

---
 tf_encrypted/protocol/securenn/odd_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/odd_tensor.py b/tf_encrypted/protocol/securenn/odd_tensor.py
index 729adff..ff5cba1 100644
--- a/tf_encrypted/protocol/securenn/odd_tensor.py
+++ b/tf_encrypted/protocol/securenn/odd_tensor.py
@@ -303,7 +303,7 @@ def odd_factory(NATIVE_TYPE):  # pylint: disable=invalid-name
             minval=NATIVE_TYPE.min + 1,
             maxval=NATIVE_TYPE.max,
         )
-        shifted_values = unshifted_value + tf.ones(
+        shifted_values = unshifted_value - tf.ones(
             shape=unshifted_value.shape, dtype=unshifted_value.dtype
         )
         value = tf.where(unshifted_value < 0, shifted_values, unshifted_value)
-- 
2.43.0


From 4971397e665dfd1d6e20bf57dcc2550c0724e00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:42 +0000
Subject: [PATCH 54/68] fix: fit and evaluate took the number of features for
 the number of samples

---
 tf_encrypted/keras/models/base_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/models/base_model.py b/tf_encrypted/keras/models/base_model.py
index c548f8f..c8c30d3 100644
--- a/tf_encrypted/keras/models/base_model.py
+++ b/tf_encrypted/keras/models/base_model.py
@@ -212,7 +212,7 @@ def data_wrap(x, y=None, batch_size=32):
         def iter_over_data(x_data, y_data, batch_size):
             start_index = 0
             end_index = batch_size
-            while start_index < x_data[0].shape[0]:
+            while start_index < x_data.shape[0]:
                 yield (x_data[start_index:end_index], y_data[start_index:end_index])
                 start_index += batch_size
                 end_index += batch_size
-- 
2.43.0


From ede278699ea07614441a7e9adb5a288999bcfae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:42 +0000
Subject: [PATCH 55/68] fix: fit trained on tensors in the first epoch only

---
 tf_encrypted/keras/models/base_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/models/base_model.py b/tf_encrypted/keras/models/base_model.py
index c8c30d3..6ede352 100644
--- a/tf_encrypted/keras/models/base_model.py
+++ b/tf_encrypted/keras/models/base_model.py
@@ -109,10 +109,10 @@ class BaseModel(Layer):
                 the batch size, or 1 if that cannot be determined.
         """
 
-        data_iter = data_wrap(x, y, batch_size)
         if self.train_function is None:
             self.train_function = self.make_train_function()
         for e in range(epochs):
+            data_iter = data_wrap(x, y, batch_size)
             print("Epoch {}/{}".format(e + 1, epochs))
             progbar = utils.Progbar(steps_per_epoch, verbose=verbose)
             for index, (input_x, input_y) in enumerate(data_iter):
-- 
2.43.0


From 665b606c1970e34492bbd98664d850361be7d014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:42 +0000
Subject: [PATCH 56/68] fix: predict revealed, or not, as its first call did

---
 tf_encrypted/keras/models/base_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/models/base_model.py b/tf_encrypted/keras/models/base_model.py
index 6ede352..8dd8618 100644
--- a/tf_encrypted/keras/models/base_model.py
+++ b/tf_encrypted/keras/models/base_model.py
@@ -31,6 +31,7 @@ class BaseModel(Layer):
         self._optimizer = None
         self.train_function = None
         self.predict_function = None
+        self._predict_reveals = None
         self.test_function = None
 
     def __call__(self, inputs, *args, **kargs):
@@ -139,8 +140,9 @@ class BaseModel(Layer):
     def predict(self, x, batch_size=32, reveal=True):
         y_preds = []
         data_iter = data_wrap(x, None, batch_size)
-        if self.predict_function is None:
+        if self.predict_function is None or self._predict_reveals != reveal:
             self.predict_function = self.make_predict_function(reveal)
+            self._predict_reveals = reveal
 
         for input_x in data_iter:
             y_pred = self.predict_function(input_x)
-- 
2.43.0


From 5c3319fadbbe94ea853d7bc2a965b63288c442b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:42 +0000
Subject: [PATCH 57/68] fix: fit and evaluate failed without a batch size

---
 tf_encrypted/keras/models/base_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf_encrypted/keras/models/base_model.py b/tf_encrypted/keras/models/base_model.py
index 8dd8618..8cd38ea 100644
--- a/tf_encrypted/keras/models/base_model.py
+++ b/tf_encrypted/keras/models/base_model.py
@@ -207,6 +207,8 @@ class BaseModel(Layer):
 
 
 def data_wrap(x, y=None, batch_size=32):
+    if batch_size is None:
+        batch_size = 32
     if isinstance(x, Iterator):
         return x
     elif isinstance(x, TFEPrivateTensor) and isinstance(y, TFEPrivateTensor):
-- 
2.43.0


From adffcebe316fa25a1503ccf4029dbfce1ed5d039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:42 +0000
Subject: [PATCH 58/68] fix: models without weights could not be cloned

---
 tf_encrypted/keras/models/sequential.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf_encrypted/keras/models/sequential.py b/tf_encrypted/keras/models/sequential.py
index 0cae08e..b3a2cea 100644
--- a/tf_encrypted/keras/models/sequential.py
+++ b/tf_encrypted/keras/models/sequential.py
@@ -150,6 +150,9 @@ class Sequential(BaseModel):
           weights: A list of Numpy arrays with shapes and types
             matching the output of model.get_weights()
         """
+        if len(weights) == 0:
+            return
+
         if not isinstance(weights[0], list):
             new_weights = []
             for layer in self.layers:
-- 
2.43.0


From d0110351e2195caa9e0acfdbf54c0b4b025b7d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:42 +0000
Subject: [PATCH 59/68] fix: set_weights replaced the arrays in the caller's
 list

---
 tf_encrypted/keras/engine/base_layer.py    | 1 +
 tf_encrypted/keras/layers/convolutional.py | 1 +
 tf_encrypted/keras/layers/normalization.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/tf_encrypted/keras/engine/base_layer.py b/tf_encrypted/keras/engine/base_layer.py
index c8f6551..1e41456 100644
--- a/tf_encrypted/keras/engine/base_layer.py
+++ b/tf_encrypted/keras/engine/base_layer.py
@@ -128,6 +128,7 @@ class Layer(ABC):
             matching the output of layer.get_weights() or a list
             of private tensors
         """
+        weights = list(weights)
         weights_types = (np.ndarray, TFEPrivateTensor)
         assert isinstance(weights[0], weights_types), type(weights[0])
 
diff --git a/tf_encrypted/keras/layers/convolutional.py b/tf_encrypted/keras/layers/convolutional.py
index 1707f43..bd59081 100644
--- a/tf_encrypted/keras/layers/convolutional.py
+++ b/tf_encrypted/keras/layers/convolutional.py
@@ -608,6 +608,7 @@ class DepthwiseConv2D(Conv2D):
               of private variables
           sess: tfe session"""
 
+        weights = list(weights)
         weights_types = (np.ndarray, TFEPrivateTensor)
         assert isinstance(weights[0], weights_types), type(weights[0])
 
diff --git a/tf_encrypted/keras/layers/normalization.py b/tf_encrypted/keras/layers/normalization.py
index 064deb0..b054d2e 100644
--- a/tf_encrypted/keras/layers/normalization.py
+++ b/tf_encrypted/keras/layers/normalization.py
@@ -224,6 +224,7 @@ class BatchNormalization(Layer):
           of private variables
         """
 
+        weights = list(weights)
         weights_types = (np.ndarray, TFEPublicTensor)
         assert isinstance(weights[0], weights_types), type(weights[0])
         if isinstance(weights[0], np.ndarray):
-- 
2.43.0


From 0cf466f4431931f7cda638d7a55d7a8208a3a84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:42 +0000
Subject: [PATCH 60/68] fix: output shapes of convolutions with two strides and
 of depthwise convolutions

---
 tf_encrypted/keras/layers/convolutional.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/tf_encrypted/keras/layers/convolutional.py b/tf_encrypted/keras/layers/convolutional.py
index bd59081..87db477 100644
--- a/tf_encrypted/keras/layers/convolutional.py
+++ b/tf_encrypted/keras/layers/convolutional.py
@@ -302,10 +302,10 @@ class Conv2D(Layer):
 
         if self.padding == "SAME":
             h_out = int(np.ceil(float(h_x) / float(self.strides[0])))
-            w_out = int(np.ceil(float(w_x) / float(self.strides[0])))
+            w_out = int(np.ceil(float(w_x) / float(self.strides[1])))
         if self.padding == "VALID":
             h_out = int(np.ceil(float(h_x - h_filter + 1) / float(self.strides[0])))
-            w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[0])))
+            w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[1])))
 
         if self.data_format == "channels_first":
             return [n_x, n_filters, h_out, w_out]
@@ -568,7 +568,8 @@ class DepthwiseConv2D(Conv2D):
 
     def compute_output_shape(self, input_shape):
         """Compute output_shape for the layer."""
-        h_filter, w_filter, _, n_filters = self.kernel_shape
+        h_filter, w_filter, input_dim, depth_multiplier = self.kernel_shape
+        n_filters = input_dim * depth_multiplier
 
         if self.data_format == "channels_first":
             n_x, _, h_x, w_x = input_shape
@@ -577,12 +578,15 @@ class DepthwiseConv2D(Conv2D):
 
         if self.padding == "SAME":
             h_out = int(np.ceil(float(h_x) / float(self.strides[0])))
-            w_out = int(np.ceil(float(w_x) / float(self.strides[0])))
+            w_out = int(np.ceil(float(w_x) / float(self.strides[1])))
         if self.padding == "VALID":
             h_out = int(np.ceil(float(h_x - h_filter + 1) / float(self.strides[0])))
-            w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[0])))
+            w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[1])))
 
-        return [n_x, n_filters, h_out, w_out]
+        if self.data_format == "channels_first":
+            return [n_x, n_filters, h_out, w_out]
+        else:
+            return [n_x, h_out, w_out, n_filters]
 
     def get_mask(self, in_channels):
         mask = np.zeros(
-- 
2.43.0


From 453facc14d15befa706e370587a13cbbbb53ad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:42 +0000
Subject: [PATCH 61/68] fix: GlobalMaxPooling2D ignored keepdims

---
 tf_encrypted/keras/layers/pooling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/layers/pooling.py b/tf_encrypted/keras/layers/pooling.py
index 81b6c2f..cad667e 100644
--- a/tf_encrypted/keras/layers/pooling.py
+++ b/tf_encrypted/keras/layers/pooling.py
@@ -421,9 +421,12 @@ class GlobalMaxPooling2D(GlobalPooling2D):
         if self.data_format == "channels_last":
             inputs = tfe.transpose(inputs, perm=[0, 3, 1, 2])
         batch, channels, h_x, w_x = inputs.shape
+        output_shape = self.compute_output_shape(self._layer_input.shape)
         inputs = tfe.reshape(inputs, [batch, channels, -1])
 
         outputs, outputs_argmax = tfe.reduce_max_with_argmax(inputs, axis=2)
+        if self.keepdims:
+            outputs = tfe.reshape(outputs, output_shape)
 
         self._layer_output = (outputs, outputs_argmax)
 
@@ -438,7 +441,7 @@ class GlobalMaxPooling2D(GlobalPooling2D):
         else:
             batch, channels, h_x, w_x = x.shape
 
-        _d_y = tfe.expand_dims(d_y, axis=2)
+        _d_y = tfe.reshape(d_y, [batch, channels, 1])
         d_x = tfe.tile(_d_y, multiples=[1, 1, h_x * w_x])
         d_x = d_x * y_arg
         d_x = tfe.reshape(d_x, [batch, channels, h_x, w_x])
-- 
2.43.0


From 57f2c148db715eb24ac927b8126178d251f33c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:42 +0000
Subject: [PATCH 62/68] fix: gradient of GlobalAveragePooling2D with keepdims
 and channels last

---
 tf_encrypted/keras/layers/pooling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf_encrypted/keras/layers/pooling.py b/tf_encrypted/keras/layers/pooling.py
index cad667e..e5545fa 100644
--- a/tf_encrypted/keras/layers/pooling.py
+++ b/tf_encrypted/keras/layers/pooling.py
@@ -378,6 +378,8 @@ class GlobalAveragePooling2D(GlobalPooling2D):
         _d_y = d_y * self.scalar
         if not self.keepdims:
             _d_y = tfe.expand_dims(tfe.expand_dims(_d_y, axis=2), axis=3)
+        elif self.data_format == "channels_last":
+            _d_y = tfe.transpose(_d_y, perm=[0, 3, 1, 2])
 
         d_x = tfe.tile(_d_y, multiples=[1, 1, h_x, w_x])
 
-- 
2.43.0


From d90c3a4467a1bedb4d303e72d237a3fbe65df367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:42 +0000
Subject: [PATCH 63/68] fix: gradient of Flatten with channels first

---
 tf_encrypted/keras/layers/flatten.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/layers/flatten.py b/tf_encrypted/keras/layers/flatten.py
index f9660a5..89a9b5e 100644
--- a/tf_encrypted/keras/layers/flatten.py
+++ b/tf_encrypted/keras/layers/flatten.py
@@ -53,8 +53,14 @@ class Flatten(Layer):
         grad_weights = []
 
         input_shape = x.shape.as_list()
+        rank = len(input_shape)
 
-        d_x = tfe.reshape(d_y, input_shape)
+        if self.data_format == "channels_first" and rank > 1:
+            channels_last = [input_shape[0]] + input_shape[2:] + [input_shape[1]]
+            d_x = tfe.reshape(d_y, channels_last)
+            d_x = tfe.transpose(d_x, perm=[0, rank - 1] + list(range(1, rank - 1)))
+        else:
+            d_x = tfe.reshape(d_y, input_shape)
         return grad_weights, d_x
 
     def compute_output_shape(self, input_shape):
-- 
2.43.0


From 00b91797326ffeb8003f962552f46e93506c3478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:15 +0000
Subject: [PATCH 64/68] fix: padding by the tensor factories always failed

---
 tf_encrypted/tensor/int128.py | 2 +-
 tf_encrypted/tensor/native.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index db64cfd..a0300ec 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -190,7 +190,7 @@ def int128_factory():  # pylint: disable=invalid-name
 
         def pad(self, tensor, paddings):
             paddings = paddings + [[0, 0]]
-            return Tensor(tf.pad(tensor.value), paddings)
+            return Tensor(tf.pad(tensor.value, paddings))
 
         def ones_like(self, x: "Tensor"):
             return self.ones(x.shape)
diff --git a/tf_encrypted/tensor/native.py b/tf_encrypted/tensor/native.py
index d287223..d534084 100644
--- a/tf_encrypted/tensor/native.py
+++ b/tf_encrypted/tensor/native.py
@@ -224,7 +224,7 @@ def native_factory(
             return Tensor(tf.ones(shape, self.native_type))
 
         def pad(self, tensor, paddings):
-            return Tensor(tf.pad(tensor.value), paddings)
+            return Tensor(tf.pad(tensor.value, paddings))
 
         def ones_like(self, x: "Tensor"):
             return self.ones(x.shape)
-- 
2.43.0


From 1b8a552f8ed781996f960b5f79c019b35b152908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:15 +0000
Subject: [PATCH 65/68] fix: patches2im took the strides of one axis for the
 other

---
 tf_encrypted/tensor/shared.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tf_encrypted/tensor/shared.py b/tf_encrypted/tensor/shared.py
index ae8817b..9f68ef8 100644
--- a/tf_encrypted/tensor/shared.py
+++ b/tf_encrypted/tensor/shared.py
@@ -103,16 +103,16 @@ def patches2im(
         patches = patches.reshape((bs, -1, ps_h, ps_w, col_ch))
 
         # Recalculate output shape of "extract_image_patches" including padded pixels
-        wout = (_w - 1) * strides[0] + ps_w
+        wout = (_w - 1) * strides[1] + ps_w
         # Recalculate output shape of "extract_image_patches" including padded pixels
-        hout = (_h - 1) * strides[1] + ps_h
+        hout = (_h - 1) * strides[0] + ps_h
 
         x, y = tf.meshgrid(tf.range(ps_w), tf.range(ps_h))
         x = tf.reshape(x, (1, 1, ps_h, ps_w, 1, 1))
         y = tf.reshape(y, (1, 1, ps_h, ps_w, 1, 1))
         xstart, ystart = tf.meshgrid(
-            tf.range(0, (wout - ps_w) + 1, strides[0]),
-            tf.range(0, (hout - ps_h) + 1, strides[1]),
+            tf.range(0, (wout - ps_w) + 1, strides[1]),
+            tf.range(0, (hout - ps_h) + 1, strides[0]),
         )
 
         bb = tf.zeros((1, np, ps_h, ps_w, col_ch, 1), dtype=tf.int32) + tf.reshape(
@@ -174,7 +174,7 @@ def patches2im(
 
             if img_w > wout:
                 reconstructed_img = reconstructed_img.factory.pad(
-                    reconstructed_img, [[0, 0], [0, 0], [0, img_w - hout], [0, 0]]
+                    reconstructed_img, [[0, 0], [0, 0], [0, img_w - wout], [0, 0]]
                 )
             elif img_w < wout:
                 pad_left = (wout - img_w) // 2
-- 
2.43.0


From 67b3f5b87e7672e090fdcf84f1bf565b82d49e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:26 +0000
Subject: [PATCH 66/68] fix: GlobalMaxPooling2D over a single position had no
 gradient

---
 tf_encrypted/protocol/aby3/aby3.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index eeeab9c..435f104 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5246,6 +5246,12 @@ def _reduce_max_with_argmax_private(
         with tf.name_scope("comparison-tree"):
             maximum, argmax = build_comparison_tree(tensors, indices)
 
+        if n == 1 and output_style == "onehot":
+            # nothing was compared, and the index is still a public constant
+            argmax = prot._share_and_wrap(
+                argmax.unwrapped[0], argmax.is_scaled, ShareType.BOOLEAN
+            )
+
         if not keepdims:
             maximum = prot.squeeze(maximum, axis=(axis,))
         if output_style == "normal":
-- 
2.43.0


From b442c86fe79566c60d4b6a68f4afa1ea9c6ed589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:26 +0000
Subject: [PATCH 67/68] fix: queues without a shared name were one and the same
 queue

---
 tf_encrypted/queue/fifo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf_encrypted/queue/fifo.py b/tf_encrypted/queue/fifo.py
index d93e828..2b37d92 100644
--- a/tf_encrypted/queue/fifo.py
+++ b/tf_encrypted/queue/fifo.py
@@ -62,6 +62,9 @@ class TFFIFOQueue(tf.queue.QueueBase):
         shapes = _as_shape_list(shapes, dtypes)
         names = _as_name_list(names, dtypes)
         with ops.init_scope(), ops.device("CPU"):
+            if shared_name is None and tf.executing_eagerly():
+                # otherwise all unnamed queues would be one and the same
+                shared_name = str(ops.uid())
             queue_ref = gen_data_flow_ops.fifo_queue_v2(
                 component_types=dtypes,
                 shapes=shapes,
-- 
2.43.0


From d8f0973280fde73e5082359d87aa7b5989daf067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:14 +0000
Subject: [PATCH 68/68] fix: a shared queue was destroyed along with the first
 object that used it

---
 tf_encrypted/queue/fifo.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tf_encrypted/queue/fifo.py b/tf_encrypted/queue/fifo.py
index 2b37d92..653def6 100644
--- a/tf_encrypted/queue/fifo.py
+++ b/tf_encrypted/queue/fifo.py
@@ -61,6 +61,7 @@ class TFFIFOQueue(tf.queue.QueueBase):
         dtypes = _as_type_list(dtypes)
         shapes = _as_shape_list(shapes, dtypes)
         names = _as_name_list(names, dtypes)
+        is_shared = shared_name is not None
         with ops.init_scope(), ops.device("CPU"):
             if shared_name is None and tf.executing_eagerly():
                 # otherwise all unnamed queues would be one and the same
@@ -75,6 +76,11 @@ class TFFIFOQueue(tf.queue.QueueBase):
 
         super(TFFIFOQueue, self).__init__(dtypes, shapes, names, queue_ref)
 
+        if is_shared and isinstance(queue_ref, ops.EagerTensor):
+            # TensorFlow deletes the queue along with this object, but others
+            # use a shared queue too: forget what would have been deleted
+            del self._resource_deleter._handle
+
 
 class AbstractFIFOQueue(abc.ABC):
     """
-- 
2.43.0

