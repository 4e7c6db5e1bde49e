From 6cc7fe83b1f1e7f09c3feec70dafad453b4ab106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:54 +0000
Subject: [PATCH 01/81] fix: native factory zeros() and zeros_like() return
 zeros, not ones

---
 tf_encrypted/tensor/native.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/tensor/native.py b/tf_encrypted/tensor/native.py
index 44171b0..7950019 100644
--- a/tf_encrypted/tensor/native.py
+++ b/tf_encrypted/tensor/native.py
@@ -221,7 +221,7 @@ def native_factory(
         def zeros(self, shape):
             if not isinstance(shape, (list, tuple, TensorShape)):
                 raise TypeError("shape must be a list or tuple of integers")
-            return Tensor(tf.ones(shape, self.native_type))
+            return Tensor(tf.zeros(shape, self.native_type))
 
         def pad(self, tensor, paddings):
             return Tensor(tf.pad(tensor.value), paddings)
-- 
2.43.0


From b520cb6583e07963783be804cfcc51551a562f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:54 +0000
Subject: [PATCH 02/81] fix: factory pad() passes the paddings to tf.pad

---
 tf_encrypted/tensor/int128.py | 2 +-
 tf_encrypted/tensor/native.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index 9e7abe5..34a6946 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -190,7 +190,7 @@ def int128_factory():  # pylint: disable=invalid-name
 
         def pad(self, tensor, paddings):
             paddings = paddings + [[0, 0]]
-            return Tensor(tf.pad(tensor.value), paddings)
+            return Tensor(tf.pad(tensor.value, paddings))
 
         def ones_like(self, x: "Tensor"):
             return self.ones(x.shape)
diff --git a/tf_encrypted/tensor/native.py b/tf_encrypted/tensor/native.py
index 7950019..cc97af9 100644
--- a/tf_encrypted/tensor/native.py
+++ b/tf_encrypted/tensor/native.py
@@ -224,7 +224,7 @@ def native_factory(
             return Tensor(tf.zeros(shape, self.native_type))
 
         def pad(self, tensor, paddings):
-            return Tensor(tf.pad(tensor.value), paddings)
+            return Tensor(tf.pad(tensor.value, paddings))
 
         def ones_like(self, x: "Tensor"):
             return self.ones(x.shape)
-- 
2.43.0


From 92c64fa9720d48f937040ee79eb41d8eaccbe4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:54 +0000
Subject: [PATCH 03/81] fix: patches2im uses the row stride for rows and pads
 the width by its own size

---
 tf_encrypted/tensor/shared.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tf_encrypted/tensor/shared.py b/tf_encrypted/tensor/shared.py
index ae8817b..9f68ef8 100644
--- a/tf_encrypted/tensor/shared.py
+++ b/tf_encrypted/tensor/shared.py
@@ -103,16 +103,16 @@ def patches2im(
         patches = patches.reshape((bs, -1, ps_h, ps_w, col_ch))
 
         # Recalculate output shape of "extract_image_patches" including padded pixels
-        wout = (_w - 1) * strides[0] + ps_w
+        wout = (_w - 1) * strides[1] + ps_w
         # Recalculate output shape of "extract_image_patches" including padded pixels
-        hout = (_h - 1) * strides[1] + ps_h
+        hout = (_h - 1) * strides[0] + ps_h
 
         x, y = tf.meshgrid(tf.range(ps_w), tf.range(ps_h))
         x = tf.reshape(x, (1, 1, ps_h, ps_w, 1, 1))
         y = tf.reshape(y, (1, 1, ps_h, ps_w, 1, 1))
         xstart, ystart = tf.meshgrid(
-            tf.range(0, (wout - ps_w) + 1, strides[0]),
-            tf.range(0, (hout - ps_h) + 1, strides[1]),
+            tf.range(0, (wout - ps_w) + 1, strides[1]),
+            tf.range(0, (hout - ps_h) + 1, strides[0]),
         )
 
         bb = tf.zeros((1, np, ps_h, ps_w, col_ch, 1), dtype=tf.int32) + tf.reshape(
@@ -174,7 +174,7 @@ def patches2im(
 
             if img_w > wout:
                 reconstructed_img = reconstructed_img.factory.pad(
-                    reconstructed_img, [[0, 0], [0, 0], [0, img_w - hout], [0, 0]]
+                    reconstructed_img, [[0, 0], [0, 0], [0, img_w - wout], [0, 0]]
                 )
             elif img_w < wout:
                 pad_left = (wout - img_w) // 2
-- 
2.43.0


From b4dc44fe3ad6a4299001dfdf33853d10dc3decd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:54 +0000
Subject: [PATCH 04/81] fix: boolean and int100 variables can be assigned

---
 tf_encrypted/tensor/boolfactory.py | 6 +++---
 tf_encrypted/tensor/int100.py      | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tf_encrypted/tensor/boolfactory.py b/tf_encrypted/tensor/boolfactory.py
index af47629..aa8da01 100644
--- a/tf_encrypted/tensor/boolfactory.py
+++ b/tf_encrypted/tensor/boolfactory.py
@@ -291,10 +291,10 @@ def bool_factory():
         def assign(self, value: Union[Tensor, np.ndarray]) -> None:
             if isinstance(value, Tensor):
                 self.variable.assign(value.value)
-            if isinstance(value, np.ndarray):
+            elif isinstance(value, np.ndarray):
                 self.variable.assign(value)
-
-            raise TypeError("Don't know how to handle {}".format(type(value)))
+            else:
+                raise TypeError("Don't know how to handle {}".format(type(value)))
 
         def read_value(self) -> Tensor:
             return Tensor(self.variable.read_value())
diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index 4d98cfc..ce04ebf 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -814,11 +814,11 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
             if isinstance(value, Tensor):
                 for (variable, vi) in zip(self.variables, value.backing):
                     variable.assign(vi)
-            if isinstance(value, np.ndarray):
+            elif isinstance(value, np.ndarray):
                 for (variable, vi) in zip(self.variables, value):
                     variable.assign(vi)
-
-            raise TypeError("Don't know how to handle {}".format(type(value)))
+            else:
+                raise TypeError("Don't know how to handle {}".format(type(value)))
 
         def read_value(self) -> Tensor:
             backing = [var.read_value() for var in self.variables]
-- 
2.43.0


From 592b42ed5fb65d0c1ba489c49299d6e121d7f01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:54 +0000
Subject: [PATCH 05/81] fix: int100 reflected subtraction computes other - self

---
 tf_encrypted/tensor/int100.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index ce04ebf..63cdf94 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -553,7 +553,7 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
 
         def __rsub__(self, other):
             x, y = _lift(self, other)
-            return x.sub(y)
+            return y.sub(x)
 
         def __mul__(self, other):
             x, y = _lift(self, other)
-- 
2.43.0


From 854fc6ffe0b80240f090cc4ebca66f3e894cd688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:00 +0000
Subject: [PATCH 06/81] fix: int100 seeded sampling covers the full range of
 every residue

---
 tf_encrypted/tensor/int100.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index 63cdf94..21c064e 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -165,6 +165,11 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
     def _crt_matmul(x, y):
         return [tf.matmul(xi, yi) % mi for xi, yi, mi in zip(x, y, MODULI)]
 
+    def _reduce_samples(value):
+        # one 63-bit sample per residue, so the bias of reducing it is negligible
+        samples = tf.unstack(value, axis=-1)
+        return [tf.cast(si % mi, INT_TYPE) for si, mi in zip(samples, MODULI)]
+
     def _construct_backing_from_chunks(chunk_sizes, chunk_values):
         backing = _crt_decompose(0)
         for chunk_size, chunk_value in zip(chunk_sizes, chunk_values):
@@ -239,26 +244,22 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
                 shape = list(shape) + [len(MODULI)]
                 value = secure_random.seeded_random_uniform(
                     shape=shape,
-                    dtype=INT_TYPE,
+                    dtype=tf.int64,
                     minval=0,
-                    maxval=mi,
+                    maxval=tf.int64.max,
                     seed=seed,
                 )
-                backing = tf.split(value, len(MODULI), axis=-1)
-                backing = [tf.squeeze(b, axis=-1) for b in backing]
-                return Tensor(backing)
+                return Tensor(_reduce_samples(value))
             else:
                 shape = list(shape) + [len(MODULI)]
                 value = tf.random.stateless_uniform(
                     shape=shape,
-                    dtype=INT_TYPE,
+                    dtype=tf.int64,
                     minval=0,
-                    maxval=mi,
+                    maxval=tf.int64.max,
                     seed=seed,
                 )
-                backing = tf.split(value, len(MODULI), axis=-1)
-                backing = [tf.squeeze(b, axis=-1) for b in backing]
-                return Tensor(backing)
+                return Tensor(_reduce_samples(value))
 
         def sample_bounded(self, shape, bitlength: int):
 
-- 
2.43.0


From 3d0f41b36afe425a6b4cd246dd53e396c818916d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:00 +0000
Subject: [PATCH 07/81] fix: int100 lifts Python integers to scalars, keeping
 the other operand's shape

---
 tf_encrypted/tensor/int100.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index 21c064e..a1bc3be 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -400,12 +400,12 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
         if isinstance(x, Tensor):
 
             if isinstance(y, int):
-                return x, x.factory.tensor(np.array([y]))
+                return x, x.factory.tensor(np.array(y))
 
         if isinstance(y, Tensor):
 
             if isinstance(x, int):
-                return y.factory.tensor(np.array([x])), y
+                return y.factory.tensor(np.array(x)), y
 
         raise TypeError("Don't know how to lift {} {}".format(type(x), type(y)))
 
-- 
2.43.0


From 89a2443b8196de77a2dd5541420fdb579580e7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:45 +0000
Subject: [PATCH 08/81] fix: decoding an int100 scalar yields a scalar

---
 tf_encrypted/tensor/int100.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index a1bc3be..2988979 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -70,7 +70,7 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
         def crt_recombine_explicit(x, bound):
 
             big_b = MODULUS % bound
-            b = [np.array([(MODULUS // mi) % bound], dtype=np.int64) for mi in MODULI]
+            b = [np.array((MODULUS // mi) % bound, dtype=np.int64) for mi in MODULI]
 
             with tf.name_scope("crt_recombine_explicit"):
 
-- 
2.43.0


From 4730a9f29f953cfba237ead2a7afda6157eaf91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:58 +0000
Subject: [PATCH 09/81] fix: adding or subtracting values of different
 encodings is refused for every operand mix

---
 tf_encrypted/protocol/aby3/aby3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 4926c5b..fa72783 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2148,6 +2148,9 @@ def _cast_public(prot, x, factory):
 def _add_private_private(prot, x, y):
     assert isinstance(x, ABY3PrivateTensor), type(x)
     assert isinstance(y, ABY3PrivateTensor), type(y)
+    assert x.is_scaled == y.is_scaled, (
+        "Cannot mix different encodings: " "{} {}"
+    ).format(x.is_scaled, y.is_scaled)
 
     z = [[None] * 2 for _ in range(3)]
     with tf.name_scope("add"):
@@ -2281,6 +2284,7 @@ def _sub_private_public(prot, x, y):
 def _sub_public_private(prot, x, y):
     assert isinstance(x, ABY3PublicTensor), type(x)
     assert isinstance(y, ABY3PrivateTensor), type(y)
+    assert x.is_scaled == y.is_scaled
 
     x_on_0, _, x_on_2 = x.unwrapped
     shares = y.unwrapped
-- 
2.43.0


From 3eaa4fc46e2ad308619ea1a746eeede913bf067e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:31 +0000
Subject: [PATCH 10/81] fix: public addition, public inputs and truncation
 place each value on its own server

---
 tf_encrypted/protocol/aby3/aby3.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index fa72783..d4f997f 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -714,7 +714,11 @@ class ABY3(Protocol):
             )
             v = self._encode(v, apply_scaling)
             w = factory.tensor(v)
-            return ABY3PublicTensor(self, [w, w, w], apply_scaling)
+            ws = [None, None, None]
+            for i in range(3):
+                with tf.device(self.servers[i].device_name):
+                    ws[i] = w.identity()
+            return ABY3PublicTensor(self, ws, apply_scaling)
 
         with tf.name_scope("public-input{}".format(suffix)):
 
@@ -2228,7 +2232,8 @@ def _add_public_public(prot, x, y):
     z = [None] * 3
     with tf.name_scope("add"):
         for i in range(3):
-            z[i] = x_shares[i] + y_shares[i]
+            with tf.device(prot.servers[i].device_name):
+                z[i] = x_shares[i] + y_shares[i]
 
     return ABY3PublicTensor(prot, z, x.is_scaled)
 
@@ -2752,7 +2757,7 @@ def _truncate_local_private(
         # server 1 sends `y1`
         with tf.device(prot.servers[0].device_name):
             y[0][0] = y0
-            y[0][1] = y1
+            y[0][1] = y1.identity()
         # Local
         with tf.device(prot.servers[1].device_name):
             y[1][0] = y1
@@ -2760,7 +2765,7 @@ def _truncate_local_private(
         # server 0 sends `y0`
         with tf.device(prot.servers[2].device_name):
             y[2][0] = r_on_2
-            y[2][1] = y0
+            y[2][1] = y0.identity()
 
     return ABY3PrivateTensor(prot, y, x.is_scaled, x.share_type)
 
@@ -2829,8 +2834,8 @@ def _truncate_msb0_cheetah_private(
         w[1][1] = w_bob ^ w[1][0]
 
     with tf.device(prot.servers[2].device_name):
-        w[2][0] = w[1][1]
-        w[2][1] = w_alice
+        w[2][0] = w[1][1].identity()
+        w[2][1] = w_alice.identity()
 
     # b2a. TODO: communication could be optimized from l to f
     w = prot.b2a_single(ABY3PrivateTensor(prot, w, False, ShareType.BOOLEAN))
@@ -2846,7 +2851,7 @@ def _truncate_msb0_cheetah_private(
         z[1][1] = x_bob_on_1_trunc - error[1][1]
     with tf.device(prot.servers[2].device_name):
         z[2][0] = x_bob_on_2_trunc - error[2][0]
-        z[2][1] = z[0][0]
+        z[2][1] = z[0][0].identity()
 
     z = ABY3PrivateTensor(prot, z, x.is_scaled, ShareType.ARITHMETIC)
     return z
-- 
2.43.0


From 1993e83e59701b0a4bf787417fe64c766d0bf32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:31 +0000
Subject: [PATCH 11/81] fix: public zeros and ones are constructible (public
 pad, lowest-bit extraction)

---
 tf_encrypted/protocol/aby3/aby3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index d4f997f..0b96400 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5396,7 +5396,7 @@ def _ones_public(prot, shape, apply_scaling, share_type, factory) -> ABY3PublicT
         with tf.device(prot.servers[2].device_name):
             x[2] = factory.tensor(prot._encode(tf.ones(shape), apply_scaling))
 
-    x = ABY3PublicTensor(prot, x, apply_scaling, share_type)
+    x = ABY3PublicTensor(prot, x, apply_scaling)
     return x
 
 
@@ -5437,7 +5437,7 @@ def _zeros_public(prot, shape, apply_scaling, share_type, factory) -> ABY3Public
         with tf.device(prot.servers[2].device_name):
             x[2] = factory.tensor(prot._encode(tf.zeros(shape), apply_scaling))
 
-    x = ABY3PublicTensor(prot, x, apply_scaling, share_type)
+    x = ABY3PublicTensor(prot, x, apply_scaling)
     return x
 
 
-- 
2.43.0


From 9f6978c75fa76708aa35638d7b7a0c63375d5404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:31 +0000
Subject: [PATCH 12/81] fix: to_private does not overwrite the protocol's
 cached zeros

---
 tf_encrypted/protocol/aby3/aby3_tensors.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3_tensors.py b/tf_encrypted/protocol/aby3/aby3_tensors.py
index c75d12f..3c99a12 100644
--- a/tf_encrypted/protocol/aby3/aby3_tensors.py
+++ b/tf_encrypted/protocol/aby3/aby3_tensors.py
@@ -487,10 +487,12 @@ class ABY3PublicTensor(ABY3Tensor, TFEPublicTensor):
 
     def to_private(self, share_type):
         factory = self.backing_dtype
-        result = self.prot.zeros(self.shape, self.is_scaled, share_type, factory)
-        result.unwrapped[0][0] = self.values[0]
-        result.unwrapped[2][1] = self.values[2]
-        return result
+        zeros = self.prot.zeros(self.shape, self.is_scaled, share_type, factory)
+        # `zeros` may be cached by the protocol, so its shares must not be overwritten
+        shares = [list(s) for s in zeros.unwrapped]
+        shares[0][0] = self.values[0]
+        shares[2][1] = self.values[2]
+        return ABY3PrivateTensor(self.prot, shares, self.is_scaled, share_type)
 
 
 class ABY3Constant(ABY3PublicTensor):
-- 
2.43.0


From 051ea6dde91aa080897959d7d9dee203851b522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:32 +0000
Subject: [PATCH 13/81] fix: cheetah truncation advances the pairwise nonces

---
 tf_encrypted/protocol/aby3/aby3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 0b96400..1b67ef5 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2837,6 +2837,8 @@ def _truncate_msb0_cheetah_private(
         w[2][0] = w[1][1].identity()
         w[2][1] = w_alice.identity()
 
+    prot._update_pairwise_nonces()
+
     # b2a. TODO: communication could be optimized from l to f
     w = prot.b2a_single(ABY3PrivateTensor(prot, w, False, ShareType.BOOLEAN))
 
-- 
2.43.0


From acd3154a967f59c5218b773e6ecb39b7312f5373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:46 +0000
Subject: [PATCH 14/81] fix: broadcast products and conjunctions draw a mask
 for every result element

---
 tf_encrypted/protocol/aby3/aby3.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 1b67ef5..d848536 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2458,7 +2458,9 @@ def _mul_private_private(prot, x, y):
 
     z = [[None, None], [None, None], [None, None]]
     with tf.name_scope("mul"):
-        a0, a1, a2 = prot._gen_zero_sharing(x.shape)
+        a0, a1, a2 = prot._gen_zero_sharing(
+            tf.broadcast_static_shape(x.shape, y.shape)
+        )
         with tf.device(prot.servers[0].device_name):
             z0 = (
                 x_shares[0][0] * y_shares[0][0]
@@ -2514,7 +2516,7 @@ def _mul_trunc2_private_private(prot, x, y):
 
     x_shares = x.unwrapped
     y_shares = y.unwrapped
-    shape = x_shares[0][0].shape
+    shape = tf.broadcast_static_shape(x.shape, y.shape)
     amount = prot.fixedpoint_config.precision_fractional
 
     with tf.name_scope("mul_trunc2"):
@@ -2526,7 +2528,7 @@ def _mul_trunc2_private_private(prot, x, y):
         r_trunc = prot.b2a(r_trunc)
 
         # Step 2: Compute 3-out-of-3 sharing of (x*y - r)
-        a0, a1, a2 = prot._gen_zero_sharing(x.shape)
+        a0, a1, a2 = prot._gen_zero_sharing(shape)
         with tf.device(prot.servers[0].device_name):
             z0 = (
                 x_shares[0][0] * y_shares[0][0]
@@ -3142,7 +3144,9 @@ def _and_private_private(prot: ABY3, x: ABY3PrivateTensor, y: ABY3PrivateTensor)
     z = [[None, None], [None, None], [None, None]]
     with tf.name_scope("and"):
         a0, a1, a2 = prot._gen_zero_sharing(
-            x.shape, share_type=ShareType.BOOLEAN, factory=x.backing_dtype
+            tf.broadcast_static_shape(x.shape, y.shape),
+            share_type=ShareType.BOOLEAN,
+            factory=x.backing_dtype,
         )
 
         with tf.device(prot.servers[0].device_name):
-- 
2.43.0


From bfba0197ecae108e96ce111008a353a911c10f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:05 +0000
Subject: [PATCH 15/81] fix: 128-bit tensors accept every negative axis and
 stack on a new last axis

---
 tf_encrypted/tensor/int128.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index 34a6946..dacc106 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -159,7 +159,7 @@ def int128_factory():  # pylint: disable=invalid-name
 
         def stack(self, xs: list, axis: int = 0):
             assert all(isinstance(x, Tensor) for x in xs)
-            axis = _lift_axis(axis, len(xs[0].shape))
+            axis = _lift_axis(axis, len(xs[0].shape) + 1)
 
             value = tf.stack([x.value for x in xs], axis=axis)
             return Tensor(value)
@@ -244,18 +244,13 @@ def int128_factory():  # pylint: disable=invalid-name
 
     def _lift_axis(axis, dims):
         if isinstance(axis, (list, tuple)):
-            new_axis = []
-            for a in axis:
-                if a == -1:
-                    new_axis.append(dims - 1)
-                else:
-                    assert a < dims, "# dimensions: {}, got axis: {}".format(dims, axis)
-                    new_axis.append(a)
-            return new_axis
-        if axis == -1:
-            return dims - 1
+            return [_lift_axis(a, dims) for a in axis]
         if axis is not None:
-            assert axis < dims, "# dimensions: {}, got axis: {}".format(dims, axis)
+            assert -dims <= axis < dims, "# dimensions: {}, got axis: {}".format(
+                dims, axis
+            )
+            if axis < 0:
+                axis += dims
         return axis
 
     FACTORY = Factory()  # pylint: disable=invalid-name
-- 
2.43.0


From 4705509274f1c693a41513a653f869f2e91430cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:05 +0000
Subject: [PATCH 16/81] fix: polynomials of a private scalar keep the scalar
 shape

---
 tf_encrypted/protocol/aby3/aby3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index d848536..d9094bc 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -4129,7 +4129,7 @@ def _polynomial_private(prot, x, coeffs):
             elif (coeffs[i] - int(coeffs[i])) == 0:
                 # Optimization when coefficient is integer: mulitplication can be performed
                 # locally without interactive truncation
-                tmp = prot.define_constant(np.array([coeffs[i]]), apply_scaling=False)
+                tmp = prot.define_constant(np.array(coeffs[i]), apply_scaling=False)
                 tmp = tmp * (x**i)
                 result = result + tmp
             else:
-- 
2.43.0


From 9105a29520955b3117f720798b53a53560873826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:31 +0000
Subject: [PATCH 17/81] fix: local computations accept public and
 boolean-shared arguments

---
 tf_encrypted/protocol/aby3/aby3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index d9094bc..18c5310 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -605,13 +605,13 @@ class ABY3(Protocol):
                 return x
 
             if isinstance(x, ABY3PublicTensor):
-                w, _ = x.unwrapped
+                w = x.unwrapped[0]
                 v = self._decode(w, x.is_scaled)
                 return v
 
             if isinstance(x, ABY3PrivateTensor):
                 shares = x.unwrapped
-                w = self._reconstruct(shares, player, share_type)
+                w = self._reconstruct(shares, player, x.share_type)
                 v = self._decode(w, x.is_scaled)
                 return v
 
-- 
2.43.0


From d7f4a058b231d01104541b1005778a732d561c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:32 +0000
Subject: [PATCH 18/81] fix: masked private inputs mask the shares instead of
 recomputing and exposing the value

---
 tf_encrypted/protocol/pond/pond.py | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 7b11193..083545f 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -552,21 +552,10 @@ class Pond(Protocol):
 
             if not masked:
                 return x
+            # mask the shares, so that no single server and not the triple
+            # producer gets to combine the secret with its mask
             with tf.name_scope("local_mask"):
-                with tf.device(self.triple_source.producer.device_name):
-                    seed0 = crypto.secure_seed()
-                    seed1 = crypto.secure_seed()
-                    a = factory.sample_seeded_uniform(v.shape, seed0)
-                    +factory.sample_seeded_uniform(v.shape, seed1)
-                    alpha = w - a
-                with tf.device(self.server_0.device_name):
-                    a0 = factory.sample_seeded_uniform(v.shape, seed0)
-                    alpha0 = alpha.identity()
-                with tf.device(self.server_1.device_name):
-                    a1 = factory.sample_seeded_uniform(v.shape, seed1)
-                    alpha1 = alpha.identity()
-
-            return PondMaskedTensor(self, x, a, a0, a1, alpha0, alpha1, apply_scaling)
+                return _mask_private(self, x)
 
         def reconstruct_input(x):
 
-- 
2.43.0


From e1e082185ef5d2393db1f27501bbf6f97d83f4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:31 +0000
Subject: [PATCH 19/81] fix: bits of 8- and 16-bit tensors (no range kernel at
 that width)

---
 tf_encrypted/tensor/shared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/tensor/shared.py b/tf_encrypted/tensor/shared.py
index 9f68ef8..8881a54 100644
--- a/tf_encrypted/tensor/shared.py
+++ b/tf_encrypted/tensor/shared.py
@@ -16,7 +16,7 @@ def binarize(
         bitsize = bitsize or (tensor.dtype.size * 8)
 
         bit_indices_shape = [1] * len(tensor.shape) + [bitsize]
-        bit_indices = tf.range(bitsize, dtype=tensor.dtype)
+        bit_indices = tf.cast(tf.range(bitsize), tensor.dtype)
         bit_indices = tf.reshape(bit_indices, bit_indices_shape)
 
         val = tf.expand_dims(tensor, -1)
-- 
2.43.0


From 7a7f24b21e01c04cd36d07053bc7ef3e25f05a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:31 +0000
Subject: [PATCH 20/81] fix: 128-bit tensors take integer tensors exactly, not
 through floats

---
 tf_encrypted/tensor/int128.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index dacc106..47f65ab 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -61,6 +61,11 @@ def int128_factory():  # pylint: disable=invalid-name
                 encode_value = tf_i128.encode(scaled_value)
                 return tf.convert_to_tensor(encode_value, dtype=self.native_type)
             elif isinstance(scaled_value, tf.Tensor):
+                if scaled_value.dtype.is_integer:
+                    # sign-extend; a detour through floats would round
+                    low = tf.cast(scaled_value, self.native_type)
+                    high = tf.bitwise.right_shift(low, tf.constant(63, tf.int64))
+                    return tf.stack([low, high], axis=-1)
                 return tf_i128.to_i128(scaled_value)
             else:
                 raise TypeError(
-- 
2.43.0


From 876d3c361b43d11ef4a5b93f455e51bcb36925df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:31 +0000
Subject: [PATCH 21/81] fix: bits of a 128-bit tensor are its 128 bits

---
 tf_encrypted/tensor/int128.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index 47f65ab..e7b4e27 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -286,17 +286,18 @@ def int128_factory():  # pylint: disable=invalid-name
         def to_native(self) -> tf.Tensor:
             return self.factory._decode(self.value)
 
-        def bits(self, factory=None, bitsize=128) -> AbstractTensor:
+        def bits(self, factory=None, bitsize=None) -> AbstractTensor:
             factory = factory or FACTORY
+            bitsize = bitsize or 128
             if bitsize <= 64:
                 t = tf.gather(self.value, indices=0, axis=-1)
                 return factory.tensor(binarize(t, bitsize))
             else:
                 t0 = tf.gather(self.value, 0, axis=-1)
                 t1 = tf.gather(self.value, 1, axis=-1)
-                t0 = binarize(t0, bitsize)
-                t1 = binarize(t1, bitsize)
-                return factory.tensor(tf.stack([t0, t1], axis=-1))
+                t0 = binarize(t0, 64)
+                t1 = binarize(t1, bitsize - 64)
+                return factory.tensor(tf.concat([t0, t1], axis=-1))
 
         def __repr__(self) -> str:
             return "{}(shape={})".format(type(self), self.shape)
-- 
2.43.0


From ba4fa4d8aec9f075844619b326f87fbbf09e03cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:31 +0000
Subject: [PATCH 22/81] fix: public values can be shifted left (carry with a
 public operand)

---
 tf_encrypted/protocol/aby3/aby3.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 18c5310..df466d1 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -3280,6 +3280,23 @@ def _lshift_private(prot, x, steps):
     return z
 
 
+def _lshift_public(prot, x, steps):
+    """
+    Left shift.
+    """
+    x_shares = x.unwrapped
+
+    z = [None, None, None]
+    with tf.name_scope("lshift"):
+        for i in range(3):
+            with tf.device(prot.servers[i].device_name):
+                z[i] = x_shares[i] << steps
+
+        z = ABY3PublicTensor(prot, z, x.is_scaled)
+
+    return z
+
+
 def _rshift_public(prot, x, steps):
     """
     Arithmetic right shift.
-- 
2.43.0


From 5b23f76c90f147bfa5057f5385b0a3a39da0e1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:31 +0000
Subject: [PATCH 23/81] fix: partial-width addition of 128-bit sharings above
 63 bits

---
 tf_encrypted/protocol/aby3/aby3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index df466d1..116ff88 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -3561,7 +3561,7 @@ def _ppa_kogge_stone_private_private(prot, x, y, n_bits):
 
         if k < x.backing_dtype.nbits:
             mask = prot.define_constant(
-                np.array((1 << k) - 1).astype(np.int64), apply_scaling=False
+                np.array((1 << k) - 1, dtype=object), apply_scaling=False
             )
             z = z & mask
     return z
-- 
2.43.0


From a590971c0972ac0c2266bbba3754cad080bc18bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:08 +0000
Subject: [PATCH 24/81] fix: scale numpy inputs in float64, not in their own
 integer type

---
 tf_encrypted/protocol/aby3/aby3.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 116ff88..c66dd68 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -806,8 +806,9 @@ class ABY3(Protocol):
 
             if isinstance(rationals, np.ndarray):
                 if apply_scaling:
-                    scaled = rationals * self.fixedpoint_config.scaling_factor
-                    scaled = np.array(scaled).astype(np.float64)
+                    # convert first, the product may not fit the array's own type
+                    scaled = rationals.astype(np.float64)
+                    scaled = np.array(scaled * self.fixedpoint_config.scaling_factor)
                 else:
                     scaled = rationals
 
-- 
2.43.0


From fbb9548cb94259b23273cf2dd0d030a93d6dfbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:02 +0000
Subject: [PATCH 25/81] fix: support a number plus a Pond tensor

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 083545f..3d61077 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1686,7 +1686,7 @@ class PondTensor(TFETensor):
         return self.prot.add(self, other)
 
     def __radd__(self, other):
-        return other.prot.add(other, self)
+        return self.prot.add(self, other)
 
     def reduce_sum(self, axis=None, keepdims=None):
         """
-- 
2.43.0


From 687ceaab1c1e3926e580c70cd7416a6d2c82bf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:02 +0000
Subject: [PATCH 26/81] fix: Pond division by a float

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 3d61077..5939327 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1031,7 +1031,7 @@ class Pond(Protocol):
 
         if isinstance(y, float):
             y_inverse = 1.0 / y
-        if isinstance(y, int):
+        elif isinstance(y, int):
             y_inverse = 1.0 / float(y)
         elif isinstance(y, PondPublicTensor):
             y_inverse = self.reciprocal(y)
-- 
2.43.0


From ff97bc023c0f18cb4368d310e35a0c19780484e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:02 +0000
Subject: [PATCH 27/81] fix: compute server 1's shares on server 1 in Pond
 matmul and equal

---
 tf_encrypted/protocol/pond/pond.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 5939327..fd7242a 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -3138,7 +3138,7 @@ def _matmul_private_public(prot, x, y):
         with tf.device(prot.server_0.device_name):
             z0 = x0.matmul(y_on_0)
 
-        with tf.device(prot.server_0.device_name):
+        with tf.device(prot.server_1.device_name):
             z1 = x1.matmul(y_on_1)
 
         z = PondPrivateTensor(prot, z0, z1, x.is_scaled or y.is_scaled)
@@ -4461,7 +4461,7 @@ def _equal_public_public(
         with tf.device(prot.server_0.device_name):
             z_on_0 = x_on_0.equal(y_on_0)
 
-        with tf.device(prot.server_0.device_name):
+        with tf.device(prot.server_1.device_name):
             z_on_1 = x_on_1.equal(y_on_1)
 
         return PondPublicTensor(prot, z_on_0, z_on_1, False)
-- 
2.43.0


From 206a735d440d31dccb6b16d1f7216dddcfa2ba01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:34 +0000
Subject: [PATCH 28/81] fix: strided_slice and squeeze of masked Pond tensors

---
 tf_encrypted/protocol/pond/pond.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index fd7242a..670f2e7 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -3707,7 +3707,7 @@ def _strided_slice_masked(prot, x: PondMaskedTensor, args: Any, kwargs: Any):
 
         return PondMaskedTensor(
             prot,
-            prot.strided_slice(x.unmasked, args, kwargs),
+            prot.strided_slice(x.unmasked, *args, **kwargs),
             a_slice,
             a0_slice,
             a1_slice,
@@ -4416,11 +4416,11 @@ def _squeeze_masked(
 ) -> PondMaskedTensor:
     assert isinstance(x, PondMaskedTensor)
 
-    _, a0, a1, alpha_on_0, alpha_on_1 = x.unwrapped
+    a, a0, a1, alpha_on_0, alpha_on_1 = x.unwrapped
 
     with tf.name_scope("squeeze"):
 
-        a_squeezed = prot.triple_source.squeeze_mask(axis=axis)
+        a_squeezed = prot.triple_source.squeeze_mask(a, axis=axis)
 
         with tf.device(prot.server_0.device_name):
             a0_squeezed = a0.squeeze(axis)
@@ -4432,7 +4432,7 @@ def _squeeze_masked(
 
         return PondMaskedTensor(
             prot,
-            prot.squeeze(x.unmasked),
+            prot.squeeze(x.unmasked, axis),
             a_squeezed,
             a0_squeezed,
             a1_squeezed,
-- 
2.43.0


From 4a31838fdb067561a11e14db50f277be6ae4d05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:35 +0000
Subject: [PATCH 29/81] fix: Pond pad of an unscaled tensor

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 670f2e7..e837069 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1484,7 +1484,7 @@ class Pond(Protocol):
                 zval1 = tf.zeros(shape, dtype=backing_type.native_type)
                 zeros1 = backing_type.tensor(zval1)
 
-            return tensor_type(self, zeros0, zeros1, True)
+            return tensor_type(self, zeros0, zeros1, x.is_scaled)
 
         def prepend_zeros(tensor, pad_amt, axis):
 
-- 
2.43.0


From e148141d6b15e851054b3205a191c98ad031d87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:21 +0000
Subject: [PATCH 30/81] fix: key Pond's cached transposes, slices, stacks and
 convolutions by their arguments

---
 tf_encrypted/protocol/pond/pond.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index e837069..363f698 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -47,6 +47,7 @@ from ..protocol import TFEPublicTensor
 from ..protocol import TFEPublicVariable
 from ..protocol import TFETensor
 from ..protocol import TFETensorBone
+from ..protocol import make_hashable
 from ..protocol import memoize
 from ..protocol import nodes
 from .triple_sources import BaseTripleSource
@@ -1069,7 +1070,7 @@ class Pond(Protocol):
         :param List perm: A permutation of axis indices.
         """
 
-        node_key = ("transpose", x)
+        node_key = ("transpose", x, make_hashable(perm))
         x_t = nodes.get(node_key, None)
 
         if x_t is not None:
@@ -1161,7 +1162,7 @@ class Pond(Protocol):
         documentation.
         """
 
-        node_key = ("strided_slice", x)
+        node_key = ("strided_slice", x, make_hashable(args), make_hashable(kwargs))
 
         x_sliced = nodes.get(node_key, None)
 
@@ -1174,7 +1175,7 @@ class Pond(Protocol):
             x_sliced = _strided_slice_private(self, x, args, kwargs)
         elif isinstance(x, PondMaskedTensor):
             x_sliced = _strided_slice_masked(self, x, args, kwargs)
-            nodes[("strided_slice", x.unmasked)] = x_sliced.unmasked
+
         else:
             raise TypeError(
                 ("Don't know how to do a strided slice on " " {}").format(type(x))
@@ -1197,7 +1198,7 @@ class Pond(Protocol):
     def stack(self, xs: List["PondTensor"], axis=0):
         """See tf.stack."""
 
-        node_key = ("stack", tuple(xs))
+        node_key = ("stack", tuple(xs), axis)
         xs_stack = nodes.get(node_key, None)
 
         if xs_stack is not None:
@@ -1368,7 +1369,7 @@ class Pond(Protocol):
     def conv2d(self, x, w, strides, padding):
         """See tf.nn.conv2d."""
 
-        node_key = ("conv2d", x, w, strides, padding)
+        node_key = ("conv2d", x, w, make_hashable(strides), padding)
         z = nodes.get(node_key, None)
 
         if z is not None:
-- 
2.43.0


From f6a0f3c8cb81c82d810e58e366ce860fa88e37d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:26 +0000
Subject: [PATCH 31/81] fix: indexing 128-bit tensors with an ellipsis

---
 tf_encrypted/tensor/int128.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index e7b4e27..58a7dd7 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -345,6 +345,10 @@ def int128_factory():  # pylint: disable=invalid-name
             return self.negative()
 
         def __getitem__(self, slc):
+            slcs = slc if isinstance(slc, (tuple, list)) else (slc,)
+            if any(s is Ellipsis for s in slcs):
+                # an ellipsis must not reach into the last axis, which holds the words
+                slc = (*slcs, slice(None))
             return Tensor(self.value[slc])
 
         def add(self, other):
-- 
2.43.0


From 8a476c94f42a5cb1065519004ac2ee1fab8238ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:31 +0000
Subject: [PATCH 32/81] fix: shape of SecureNN argmax along an axis of length
 one

---
 tf_encrypted/protocol/securenn/securenn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 09eece2..d60b33d 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -548,7 +548,8 @@ class SecureNN(Pond):
 
             tensors = self.split(x, int(x.shape[axis]), axis=axis)
             indices = [
-                self.define_constant(np.array([i])) for i, _ in enumerate(tensors)
+                self.define_constant(np.full(tensor.shape.as_list(), i))
+                for i, tensor in enumerate(tensors)
             ]
 
             with tf.name_scope("comparison-tree"):
-- 
2.43.0


From f9f954610b31e608f902119059d6b5e903bab5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:31 +0000
Subject: [PATCH 33/81] fix: SecureNN comparison of scalars returned shape (1,)

---
 tf_encrypted/protocol/securenn/securenn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index d60b33d..14980dc 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -730,7 +730,7 @@ def _private_compare(
             # tensor for edge cases: one zero and the rest ones
             c_edge_vals = [0] + [1] * (bit_length - 1)
             c_const = tf.constant(
-                c_edge_vals, dtype=prime_dtype.native_type, shape=(1, bit_length)
+                c_edge_vals, dtype=prime_dtype.native_type, shape=(bit_length,)
             )
             c_edge_case_raw = prime_dtype.tensor(c_const)
             c_edge_case = prot._share_and_wrap(c_edge_case_raw, False)
-- 
2.43.0


From 9f637a4585f81edecce73f07b160d4da19888404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:31 +0000
Subject: [PATCH 34/81] fix: SecureNN relu of large tensors returned the
 comparison bits

---
 tf_encrypted/protocol/securenn/securenn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 14980dc..8b52410 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -384,7 +384,7 @@ class SecureNN(Pond):
             drelu = []
 
             for i, _ in enumerate(xs):
-                d, r = actual_relu_with_cmp(xs[i], "subrelu")
+                r, d = actual_relu_with_cmp(xs[i], "subrelu")
                 res.append(r)
                 drelu.append(d)
             return self.concat(res, axis=-1), self.concat(drelu, axis=-1)
-- 
2.43.0


From 91adcfee9ed106af9d1121d447cdf60a8030340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:23 +0000
Subject: [PATCH 35/81] fix: SecureNN relu of large one-dimensional tensors

---
 tf_encrypted/protocol/securenn/securenn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 8b52410..4cc3070 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -369,7 +369,7 @@ class SecureNN(Pond):
         # close as possible to `maxsize` (but possibly larger)
 
         # compute how large the last dimension can be while being at least 1
-        max_last_dimension = max(max_size // np.prod(shape[:-1]), 1)
+        max_last_dimension = max(max_size // int(np.prod(shape[:-1])), 1)
         # compute split vector
         last_dimension = shape[-1]
         number_of_max_last_dimension = last_dimension // max_last_dimension
-- 
2.43.0


From fabb3faf3aa512907cd621ad4ecf21fc43d2f3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:01 +0000
Subject: [PATCH 36/81] fix: sort along an axis of length one

---
 tf_encrypted/protocol/aby3/aby3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index c66dd68..781dcc4 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5874,6 +5874,8 @@ def _sort_private(
         axis = axis % len(x.shape)
         if axis < 0:
             axis += len(x.shape)
+        if int(x.shape[axis]) == 1:
+            return x
         if axis != 0:
             x = prot.transpose(
                 x,
-- 
2.43.0


From 4f9d9ad54972d4f04d5efcdc9701c2802b9af7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:01 +0000
Subject: [PATCH 37/81] fix: reduce_max by sorting network over all axes

---
 tf_encrypted/protocol/aby3/aby3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 781dcc4..80c52c1 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5113,10 +5113,10 @@ def _reduce_max_network_private(
     with tf.name_scope("reduce-max-network"):
 
         if axis is None:
-            x = prot.reshape(x, [-1])
-            y = prot.sort(x, 0, acc=False)
+            y = prot.sort(prot.reshape(x, [-1]), 0, acc=False)
+            maximum = y[0]
             if keepdims:
-                maximum = prot.reshape(y[0], [1] * len(x.shape))
+                maximum = prot.reshape(maximum, [1] * len(x.shape))
         else:
             y = prot.sort(x, axis, acc=False)
             if keepdims:
-- 
2.43.0


From 76707129507eaa86ee050640fdea6717cca830bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:01 +0000
Subject: [PATCH 38/81] fix: ABY3 argmax along a negative axis or an axis of
 length one

---
 tf_encrypted/protocol/aby3/aby3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 80c52c1..e02b840 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5164,6 +5164,7 @@ def _reduce_max_with_argmax_private(
 
             return maximum, argmax
 
+        axis = axis % len(x.shape)
         n = int(x.shape[axis])
         tensors = prot.split(x, n, axis=axis)
         if output_style == "onehot":
@@ -5183,7 +5184,8 @@ def _reduce_max_with_argmax_private(
             ]
         elif output_style == "normal":
             indices = [
-                prot.define_constant(np.array([i])) for i, _ in enumerate(tensors)
+                prot.define_constant(np.full(tensor.shape.as_list(), i))
+                for i, tensor in enumerate(tensors)
             ]
         else:
             raise ValueError("Unknown output style: {}".format(output_style))
-- 
2.43.0


From 410ca6d984ebeb56c5577e6bde3b0d1c4d767819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:28 +0000
Subject: [PATCH 39/81] fix: SAME max-pooling took the zero padding for values

---
 tf_encrypted/protocol/aby3/aby3.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index e02b840..869c25a 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5300,12 +5300,27 @@ def __maxpool2d_computation(
     with tf.name_scope("maxpool2d"):
         x_split = x.reshape((batch * channels, 1, height, width))
 
+        # `im2patches` pads with zeros, which must not exceed actual values
+        shift = __maxpool2d_shift(prot, x) if padding == "SAME" else None
+        if shift is not None:
+            x_split = x_split + shift
+
         y = prot.im2patches(x_split, pool_size, strides=strides, padding=padding)
         i2c_max = y.reduce_max(axis=1)
+        if shift is not None:
+            i2c_max = i2c_max - shift
         result = i2c_max.reshape([batch, channels, out_height, out_width])
         return result
 
 
+def __maxpool2d_shift(prot: ABY3, x: ABY3Tensor) -> int:
+    """Value to add to `x` for all its elements to become positive."""
+    nbits = x.backing_dtype.nbits - 3
+    if x.is_scaled:
+        nbits -= prot.fixedpoint_config.precision_fractional
+    return 1 << nbits
+
+
 def _maxpool2d_with_argmax_private(
     prot: ABY3,
     x: ABY3PrivateTensor,
@@ -5330,12 +5345,19 @@ def __maxpool2d_with_argmax_computation(
     with tf.name_scope("maxpool2d-with-argmax"):
         x_split = x.reshape((batch * channels, 1, height, width))
 
+        # `im2patches` pads with zeros, which must not exceed actual values
+        shift = __maxpool2d_shift(prot, x) if padding == "SAME" else None
+        if shift is not None:
+            x_split = x_split + shift
+
         y = prot.im2patches(
             x_split, pool_size, strides=strides, padding=padding, data_format="NCHW"
         )
         i2c_max, i2c_argmax = prot.reduce_max_with_argmax(
             y, axis=1, output_style="onehot"
         )
+        if shift is not None:
+            i2c_max = i2c_max - shift
         i2c_max = i2c_max.reshape([batch, channels, out_height, out_width])
         i2c_argmax = prot.transpose(i2c_argmax, perm=[0, 2, 3, 1]).reshape(
             [batch, channels, out_height, out_width, -1]
-- 
2.43.0


From a88a50bcfe922ae170746294aeb5d3fc06479abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:47 +0000
Subject: [PATCH 40/81] fix: SecureNN max-pooling raised for every input

---
 tf_encrypted/protocol/securenn/securenn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 4cc3070..b96c901 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -813,11 +813,11 @@ def _im2col(
 
     with tf.device(prot.server_0.device_name):
         x_split = x_on_0.reshape((batch * channels, 1, height, width))
-        y_on_0 = x_split.im2col(pool_height, pool_width, strides[0], padding)
+        y_on_0 = x_split.im2col(pool_height, pool_width, strides, padding)
 
     with tf.device(prot.server_1.device_name):
         x_split = x_on_1.reshape((batch * channels, 1, height, width))
-        y_on_1 = x_split.im2col(pool_height, pool_width, strides[0], padding)
+        y_on_1 = x_split.im2col(pool_height, pool_width, strides, padding)
 
     return y_on_0, y_on_1, [out_height, out_width, int(batch), int(channels)]
 
@@ -862,7 +862,7 @@ def _maxpool2d_masked(
     padding: str,
 ) -> PondPrivateTensor:
     with tf.name_scope("maxpool2d"):
-        return prot.maxpool2d(x.unwrapped, pool_size, strides, padding)
+        return prot.maxpool2d(x.unmasked, pool_size, strides, padding)
 
 
 #
-- 
2.43.0


From 5f38e23c0d2f60d8d9357d066a0d3f26447bf0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:47 +0000
Subject: [PATCH 41/81] fix: SecureNN SAME max-pooling took the zero padding
 for values

---
 tf_encrypted/protocol/securenn/securenn.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index b96c901..66e3c73 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -847,9 +847,17 @@ def _maxpool2d_private(
 ) -> PondPrivateTensor:
     """Logic for performing maxpool2d on private input."""
     with tf.name_scope("maxpool2d"):
+        # `im2col` pads with zeros, which must not exceed actual values
+        shift = None
+        if padding == "SAME":
+            shift = prot.fixedpoint_config.bound_single_precision
+            x = x + shift
+
         y_on_0, y_on_1, reshape_to = _im2col(prot, x, pool_size, strides, padding)
         im2col = PondPrivateTensor(prot, y_on_0, y_on_1, x.is_scaled)
         i2c_max = im2col.reduce_max(axis=0)
+        if shift is not None:
+            i2c_max = i2c_max - shift
         result = i2c_max.reshape(reshape_to).transpose([2, 3, 0, 1])
         return result
 
-- 
2.43.0


From eb9773af77797cec7a3f19e461f48202a0453890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:30 +0000
Subject: [PATCH 42/81] fix: average pooling with windows that tile the image
 in Pond

---
 tf_encrypted/protocol/pond/pond.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 363f698..2de063f 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -3361,13 +3361,12 @@ def _avgpool2d_im2col_reduce(
 def _avgpool2d_reshape_reduce(x, pool_size: Tuple[int, int], *args):
     """Perform 2D average pooling by the reshape method."""
     del args
-    pool_height = tf.Dimension(pool_size[0])
-    pool_width = tf.Dimension(pool_size[1])
+    pool_height, pool_width = pool_size
     n, c, h, w = x.shape
     return (
         x.reshape([n, c, h // pool_height, pool_height, w // pool_width, pool_width])
+        .reduce_sum(axis=5)
         .reduce_sum(axis=3)
-        .reduce_sum(axis=4)
     )
 
 
-- 
2.43.0


From 386f2990b9cdc68d47a9e35a597b5c1f6e07de07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:30 +0000
Subject: [PATCH 43/81] fix: multiplying a public value by a power of two in
 ABY3

---
 tf_encrypted/protocol/aby3/aby3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 869c25a..c860876 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -1279,6 +1279,9 @@ class ABY3(Protocol):
     def mul_pow2(self, x, exponent):
         if exponent == 0:
             return x
+        elif isinstance(x, ABY3PublicTensor):
+            x, y = self.lift(x, 2**exponent)
+            return self.dispatch("mul", x, y)
         elif exponent < 0:
             return self.truncate(x, amount=-exponent)
         else:
-- 
2.43.0


From 8c9555246aaa76d6e072649d848a2af595e6870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:09 +0000
Subject: [PATCH 44/81] fix: fresh masks for every matrix of a broadcast
 batched product in ABY3

---
 tf_encrypted/protocol/aby3/aby3.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index c860876..03e3644 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2640,7 +2640,10 @@ def _matmul_private_private(prot, x, y):
 
     # Tensorflow supports matmul for more than 2 dimensions,
     # with the inner-most 2 dimensions specifying the 2-D matrix multiplication
-    result_shape = tf.TensorShape((*x.shape[:-1], y.shape[-1]))
+    batch_shape = tf.broadcast_static_shape(
+        tf.TensorShape(x.shape[:-2]), tf.TensorShape(y.shape[:-2])
+    )
+    result_shape = batch_shape.concatenate([x.shape[-2], y.shape[-1]])
 
     z = [[None, None], [None, None], [None, None]]
     with tf.name_scope("matmul"):
-- 
2.43.0


From 05520f81ef9070a482086ab0d791e108b0732161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:58 +0000
Subject: [PATCH 45/81] fix: exp2_pade uses its highest-degree term

---
 tf_encrypted/protocol/aby3/aby3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 03e3644..83f3bdd 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5626,7 +5626,7 @@ def _exp2_pade_private(prot, x):
         x_pows = [0] * (degree + 1)
         x_pows[0] = 1
         x_pows[1] = x
-        for i in range(2, degree):
+        for i in range(2, degree + 1):
             x_pows[i] = x_pows[i // 2] * x_pows[(i + 1) // 2]
 
         y = [x_pows[i] * c[i] for i in range(degree + 1)]
-- 
2.43.0


From a3bd9a667b9bacaa9ae6e3c926c34b3646ed857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:58 +0000
Subject: [PATCH 46/81] fix: reciprocal of values in the upper half of the
 fixed-point range

---
 tf_encrypted/protocol/aby3/fp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/fp.py b/tf_encrypted/protocol/aby3/fp.py
index 633a7ae..dedf233 100644
--- a/tf_encrypted/protocol/aby3/fp.py
+++ b/tf_encrypted/protocol/aby3/fp.py
@@ -156,7 +156,7 @@ def _do_fp_log_private(prot, x: "TFEPrivateTensor", base: "float", precision: in
     adjust = 1.0 / np.log2(base)
     with tf.name_scope("fp_log"):
         # bit-decomposition. Make sure the higher bits are all 0 via shifting.
-        x_bits = (prot.a2b(x, m) << (n - m)) >> (n - m)
+        x_bits = prot.logical_rshift(prot.a2b(x, m) << (n - m), n - m)
         y_bits = prefix_ORs(x_bits, m)
         z_bits = y_bits ^ (y_bits >> 1)
         rev_z_bits = prot.bit_reverse(z_bits)
@@ -217,7 +217,7 @@ def __fp_normalize(prot, b: "TFEPrivateTensor", nonsigned=False):
             sign, x = 1, b
 
         # bit-decomposition. Make sure the higher bits are all 0 via shifting.
-        x_bits = (prot.a2b(x, m) << (n - m)) >> (n - m)
+        x_bits = prot.logical_rshift(prot.a2b(x, m) << (n - m), n - m)
         """
            y_j = 1 <-> for all i <= j, y_i = 1.
            z_j = 1 <-> 2^j < x = 2^j + x0 < 2^{j+1}.
-- 
2.43.0


From a56475976b1e8b8e205c6c381cdadda0ad680951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:00 +0000
Subject: [PATCH 47/81] fix: normalization window of reciprocal covers one bit
 beyond the integral range

---
 tf_encrypted/protocol/aby3/fp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/fp.py b/tf_encrypted/protocol/aby3/fp.py
index dedf233..78ddbe5 100644
--- a/tf_encrypted/protocol/aby3/fp.py
+++ b/tf_encrypted/protocol/aby3/fp.py
@@ -200,7 +200,8 @@ def __fp_normalize(prot, b: "TFEPrivateTensor", nonsigned=False):
     where sgf \in [0.5, 1)
     """
     k = prot.fixedpoint_config.precision_fractional
-    m = k + prot.fixedpoint_config.precision_integral
+    # one bit above the integral part, so that the whole range can be normalized
+    m = k + prot.fixedpoint_config.precision_integral + 1
     n = b.backing_dtype.nbits
     assert b.is_scaled, "Er.. tricky here."
     assert (
-- 
2.43.0


From 227078da4bda21f4c120015efdecb61ff186db75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:06 +0000
Subject: [PATCH 48/81] fix: reading 128-bit share files left the caller's
 output_shape changed

---
 tf_encrypted/protocol/aby3/aby3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 83f3bdd..2a27afd 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -4784,7 +4784,8 @@ def _read_(prot, filenames_prefix, file_batch, output_shape, buffer_num):
         filenames_prefix = [filenames_prefix]
 
     if prot.default_nbits == 128:
-        output_shape.append(2)
+        # not in place: the list belongs to the caller
+        output_shape = list(output_shape) + [2]
 
     def decode(str_tensor):
         return tf.io.parse_tensor(str_tensor, out_type=tf.int64)
-- 
2.43.0


From 66b5b256764542f8931ba9798a7e83c1bfac77ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:36 +0000
Subject: [PATCH 49/81] fix: writing a record to a path that cannot be opened
 crashed the process; failed writes were silent

---
 operations/dataset/write_record.cc | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/operations/dataset/write_record.cc b/operations/dataset/write_record.cc
index 99abee5..b7bf884 100644
--- a/operations/dataset/write_record.cc
+++ b/operations/dataset/write_record.cc
@@ -26,20 +26,16 @@ public:
 
       std::unique_ptr<tensorflow::WritableFile> file;
       if(append){
-        tensorflow::Env::Default()->NewAppendableFile(filename, &file);
+        OP_REQUIRES_OK(ctx, tensorflow::Env::Default()->NewAppendableFile(filename, &file));
       }else{
-        tensorflow::Env::Default()->NewWritableFile(filename, &file);
+        OP_REQUIRES_OK(ctx, tensorflow::Env::Default()->NewWritableFile(filename, &file));
       }
       const RecordWriterOptions& options = RecordWriterOptions::CreateRecordWriterOptions("");
       auto writer = absl::make_unique<tensorflow::io::RecordWriter>(file.get(), options);
 
-      if(file == nullptr && writer == nullptr){
-        return;
-      }
-
-      writer->WriteRecord(StringPiece(record));
-      writer->Close();
-      file->Close();
+      OP_REQUIRES_OK(ctx, writer->WriteRecord(StringPiece(record)));
+      OP_REQUIRES_OK(ctx, writer->Close());
+      OP_REQUIRES_OK(ctx, file->Close());
     }
 };
 
-- 
2.43.0


From 73515d4da42be21633985e17f96e3c1e45aad81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:45 +0000
Subject: [PATCH 50/81] fix: queues without a shared name do not share their
 elements

---
 tf_encrypted/queue/fifo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf_encrypted/queue/fifo.py b/tf_encrypted/queue/fifo.py
index d93e828..74c4731 100644
--- a/tf_encrypted/queue/fifo.py
+++ b/tf_encrypted/queue/fifo.py
@@ -61,6 +61,10 @@ class TFFIFOQueue(tf.queue.QueueBase):
         dtypes = _as_type_list(dtypes)
         shapes = _as_shape_list(shapes, dtypes)
         names = _as_name_list(names, dtypes)
+        if shared_name is None:
+            # without a name of its own the queue would share its elements with
+            # every other unnamed queue
+            shared_name = "{}_{}".format(name, ops.uid())
         with ops.init_scope(), ops.device("CPU"):
             queue_ref = gen_data_flow_ops.fifo_queue_v2(
                 component_types=dtypes,
-- 
2.43.0


From f05cee67529e7bcd7839d66ccbd0da2143e61c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:29 +0000
Subject: [PATCH 51/81] fix: memoized results do not leak between traces,
 protocols and short-lived operands

---
 tf_encrypted/protocol/pond/pond.py         | 44 +++++++++++---------
 tf_encrypted/protocol/protocol.py          | 47 +++++++++++++++++++---
 tf_encrypted/protocol/securenn/securenn.py |  8 ++--
 3 files changed, 70 insertions(+), 29 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 2de063f..065d5a7 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -47,9 +47,9 @@ from ..protocol import TFEPublicTensor
 from ..protocol import TFEPublicVariable
 from ..protocol import TFETensor
 from ..protocol import TFETensorBone
+from ..protocol import current_nodes
 from ..protocol import make_hashable
 from ..protocol import memoize
-from ..protocol import nodes
 from .triple_sources import BaseTripleSource
 from .triple_sources import OnlineTripleSource
 
@@ -985,8 +985,8 @@ class Pond(Protocol):
             # apply recursively
             return [self.mask(xi) for xi in x]
 
-        node_key = ("mask", x)
-        x_masked = nodes.get(node_key, None)
+        node_key = (self, "mask", x)
+        x_masked = current_nodes().get(node_key, None)
 
         if x_masked is not None:
             return x_masked
@@ -997,7 +997,7 @@ class Pond(Protocol):
         else:
             raise TypeError("Don't know how to mask {}".format(type(x)))
 
-        nodes[node_key] = x_masked
+        current_nodes()[node_key] = x_masked
         return x_masked
 
     @memoize
@@ -1070,8 +1070,8 @@ class Pond(Protocol):
         :param List perm: A permutation of axis indices.
         """
 
-        node_key = ("transpose", x, make_hashable(perm))
-        x_t = nodes.get(node_key, None)
+        node_key = (self, "transpose", x, make_hashable(perm))
+        x_t = current_nodes().get(node_key, None)
 
         if x_t is not None:
             return x_t
@@ -1088,7 +1088,7 @@ class Pond(Protocol):
         else:
             raise TypeError("Don't know how to transpose {}".format(type(x)))
 
-        nodes[node_key] = x_t
+        current_nodes()[node_key] = x_t
         return x_t
 
     @memoize
@@ -1162,9 +1162,15 @@ class Pond(Protocol):
         documentation.
         """
 
-        node_key = ("strided_slice", x, make_hashable(args), make_hashable(kwargs))
+        node_key = (
+            self,
+            "strided_slice",
+            x,
+            make_hashable(args),
+            make_hashable(kwargs),
+        )
 
-        x_sliced = nodes.get(node_key, None)
+        x_sliced = current_nodes().get(node_key, None)
 
         if x_sliced is not None:
             return x_sliced
@@ -1181,7 +1187,7 @@ class Pond(Protocol):
                 ("Don't know how to do a strided slice on " " {}").format(type(x))
             )
 
-        nodes[node_key] = x_sliced
+        current_nodes()[node_key] = x_sliced
 
         return x_sliced
 
@@ -1198,8 +1204,8 @@ class Pond(Protocol):
     def stack(self, xs: List["PondTensor"], axis=0):
         """See tf.stack."""
 
-        node_key = ("stack", tuple(xs), axis)
-        xs_stack = nodes.get(node_key, None)
+        node_key = (self, "stack", tuple(xs), axis)
+        xs_stack = current_nodes().get(node_key, None)
 
         if xs_stack is not None:
             return xs_stack
@@ -1215,7 +1221,7 @@ class Pond(Protocol):
         else:
             raise TypeError("Don't know how to do a stack {}".format(type(xs)))
 
-        nodes[node_key] = xs_stack
+        current_nodes()[node_key] = xs_stack
 
         return xs_stack
 
@@ -1369,8 +1375,8 @@ class Pond(Protocol):
     def conv2d(self, x, w, strides, padding):
         """See tf.nn.conv2d."""
 
-        node_key = ("conv2d", x, w, make_hashable(strides), padding)
-        z = nodes.get(node_key, None)
+        node_key = (self, "conv2d", x, w, make_hashable(strides), padding)
+        z = current_nodes().get(node_key, None)
 
         if z is not None:
             return z
@@ -1394,7 +1400,7 @@ class Pond(Protocol):
             )
 
         z = func(self, x, w, strides, padding)
-        nodes[node_key] = z
+        current_nodes()[node_key] = z
 
         return z
 
@@ -1403,8 +1409,8 @@ class Pond(Protocol):
 
     def avgpool2d(self, x, pool_size, strides, padding):
         """See tf.nn.avgpool2d."""
-        node_key = ("avgpool2d", x, tuple(pool_size), tuple(strides), padding)
-        z = nodes.get(node_key, None)
+        node_key = (self, "avgpool2d", x, tuple(pool_size), tuple(strides), padding)
+        z = current_nodes().get(node_key, None)
 
         if z is not None:
             return z
@@ -1420,7 +1426,7 @@ class Pond(Protocol):
             raise TypeError("Don't know how to avgpool2d {}".format(type(x)))
 
         z = func(self, x, pool_size, strides, padding)
-        nodes[node_key] = z
+        current_nodes()[node_key] = z
 
         return z
 
diff --git a/tf_encrypted/protocol/protocol.py b/tf_encrypted/protocol/protocol.py
index aa820d7..e15c413 100644
--- a/tf_encrypted/protocol/protocol.py
+++ b/tf_encrypted/protocol/protocol.py
@@ -6,6 +6,7 @@ from typing import Any
 from typing import Callable
 from typing import Optional
 
+import numpy as np
 import tensorflow as tf
 
 import tf_encrypted as tfe
@@ -70,6 +71,35 @@ class TFEPublicVariable(TFEPublicTensor, TFEVariable):
     pass
 
 
+class ByIdentity:
+    """
+    Makes an unhashable tensor usable in a key, where it stands for itself only.
+
+    Keeping the object alive ensures that no other one can take over its identity.
+    """
+
+    def __init__(self, x):
+        self.x = x
+
+    def __hash__(self):
+        return id(self.x)
+
+    def __eq__(self, other):
+        return isinstance(other, ByIdentity) and self.x is other.x
+
+
+def current_nodes():
+    """Cached results that can be used in the current scope."""
+    if tf.executing_eagerly():
+        return nodes
+
+    # results computed while tracing a function are only valid in its graph
+    graph = tf.compat.v1.get_default_graph()
+    if not hasattr(graph, "_tfe_nodes"):
+        graph._tfe_nodes = dict()
+    return graph._tfe_nodes
+
+
 def make_hashable(x):
     if isinstance(x, (tuple, list)):
         return tuple([make_hashable(y) for y in x])
@@ -81,14 +111,18 @@ def make_hashable(x):
         )
     elif isinstance(x, tf.TensorShape):
         return tuple(x.as_list())
+    elif isinstance(x, np.ndarray) and not x.dtype.hasobject:
+        # arrays can change in place, hence by content
+        return (x.dtype.str, x.shape, x.tobytes())
     else:
         try:
             hash(x)
             return x
         except TypeError:
-            # not safe
-            # collision may happen
-            return str(id(x)) + str(x)
+            if isinstance(x, tf.Tensor):
+                return ByIdentity(x)
+            # neither its content nor its identity says what it stands for
+            return object()
 
 
 def memoize(func: Callable) -> Callable:
@@ -108,15 +142,16 @@ def memoize(func: Callable) -> Callable:
 
         hashable_args = make_hashable(args)
         hashable_kwargs = make_hashable(kwargs)
-        node_key = (func.__name__, hashable_args, hashable_kwargs)
+        node_key = (self, func.__name__, hashable_args, hashable_kwargs)
 
-        cached_result = nodes.get(node_key, None)
+        scope_nodes = current_nodes()
+        cached_result = scope_nodes.get(node_key, None)
         if cached_result is not None:
             return cached_result
 
         result = func(self, *args, **kwargs)
 
-        nodes[node_key] = result
+        scope_nodes[node_key] = result
         return result
 
     return cache_nodes
diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 66e3c73..0837f84 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -24,7 +24,7 @@ from tf_encrypted.protocol.pond import PondPrivateTensor
 from tf_encrypted.protocol.pond import PondPublicTensor
 from tf_encrypted.protocol.pond import PondTensor
 from tf_encrypted.protocol.pond import _type
-from tf_encrypted.protocol.protocol import nodes
+from tf_encrypted.protocol.protocol import current_nodes
 from tf_encrypted.protocol.securenn.odd_tensor import oddint64_factory
 from tf_encrypted.tensor import int64factory
 from tf_encrypted.tensor import native_factory
@@ -418,8 +418,8 @@ class SecureNN(Pond):
           convolution.
         :param str padding: Which type of padding to use ("SAME" or "VALID").
         """
-        node_key = ("maxpool2d", x, tuple(pool_size), tuple(strides), padding)
-        z = nodes.get(node_key, None)
+        node_key = (self, "maxpool2d", x, tuple(pool_size), tuple(strides), padding)
+        z = current_nodes().get(node_key, None)
 
         if z is not None:
             return z
@@ -435,7 +435,7 @@ class SecureNN(Pond):
             raise TypeError("Don't know how to avgpool2d {}".format(type(x)))
 
         z = func(self, x, pool_size, strides, padding)
-        nodes[node_key] = z
+        current_nodes()[node_key] = z
 
         return z
 
-- 
2.43.0


From 911b5cc147f41c604231a89232119ddd09982e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:29 +0000
Subject: [PATCH 52/81] fix: a traced function is not reused under another
 protocol

---
 tf_encrypted/protocol/protocol.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/protocol/protocol.py b/tf_encrypted/protocol/protocol.py
index e15c413..a3d0af8 100644
--- a/tf_encrypted/protocol/protocol.py
+++ b/tf_encrypted/protocol/protocol.py
@@ -207,20 +207,26 @@ def function(func: Callable) -> Callable:
     tensorflow tensors and transform inversely.
     """
 
-    @tf.function
-    def graph_function(args, kwargs):
+    def plain_function(args, kwargs):
         args, kwargs = input_wrap(args, kwargs)
         result = func(*args, **kwargs)
         result = unwrap_func(result)
         return result
 
+    # a trace holds the steps of the protocol it was made with
+    graph_functions = dict()
+
     @functools.wraps(func)
     def wrap_function(*args: Any, **kwargs: Any) -> AbstractTensor:
         if get_config().debug:
             return func(*args, **kwargs)
 
+        prot = tfe.get_protocol()
+        if prot not in graph_functions:
+            graph_functions[prot] = tf.function(plain_function)
+
         args, kwargs = input_unwrap(args, kwargs)
-        result = graph_function(args, kwargs)
+        result = graph_functions[prot](args, kwargs)
         result = wrap_func(result)
 
         return result
-- 
2.43.0


From 33415b7083914b557458492d1a710b667e635bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:23 +0000
Subject: [PATCH 53/81] fix: masks of a traced function are not reused when it
 runs again

---
 tf_encrypted/protocol/aby3/aby3.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 2a27afd..a6995cd 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -98,7 +98,7 @@ class ABY3(Protocol):
 
     def reset(self):
         self.pairwise_keys_ = None
-        self.pairwise_nonces_ = None
+        self.pairwise_nonce_ = None
         self.b2a_keys_1_ = None
         self.b2a_keys_2_ = None
         self.b2a_nonce_ = None
@@ -113,10 +113,13 @@ class ABY3(Protocol):
     def pairwise_nonces(self):
         if not self.keys_initialized:
             raise RuntimeError("Please call `reset` to initialize keys.")
-        return self.pairwise_nonces_
+        with tf.device(self.servers[0].device_name):
+            nonce = self.pairwise_nonce_.read_value()
+        return [nonce, nonce, nonce]
 
     def _update_pairwise_nonces(self):
-        self.pairwise_nonces_ += 1
+        with tf.device(self.servers[0].device_name):
+            self.pairwise_nonce_.assign_add(1)
 
     def b2a_keys_1(self):
         if not self.keys_initialized:
@@ -131,10 +134,12 @@ class ABY3(Protocol):
     def b2a_nonce(self):
         if not self.keys_initialized:
             raise RuntimeError("Please call `reset` to initialize keys.")
-        return self.b2a_nonce_
+        with tf.device(self.servers[0].device_name):
+            return self.b2a_nonce_.read_value()
 
     def _update_b2a_nonce(self):
-        self.b2a_nonce_ += 1
+        with tf.device(self.servers[0].device_name):
+            self.b2a_nonce_.assign_add(1)
 
     def initialize_keys(self):
         self._setup_pairwise_randomness()
@@ -190,10 +195,13 @@ class ABY3(Protocol):
                 keys[2][1] = seed_0
 
             # nonces[0] for server 0 and 1, nonces[1] for server 1 and 2, nonces[2] for server 2 and 0
-            nonces = np.array([0, 0, 0], dtype=np.int64)
+            # NOTE: All three advance together. They are kept in a variable because they must also
+            #       advance when a traced function runs again; being public, any server can keep it.
+            with tf.device(self.servers[0].device_name):
+                nonce = tf.Variable(0, dtype=seed_0.dtype, trainable=False)
 
             self.pairwise_keys_ = keys
-            self.pairwise_nonces_ = nonces
+            self.pairwise_nonce_ = nonce
 
     def _setup_b2a_generator(self):
         """
@@ -276,7 +284,8 @@ class ABY3(Protocol):
                 b2a_keys_2[2][1] = seed_1
                 b2a_keys_2[2][2] = seed_2
 
-            b2a_nonce = 0
+            with tf.device(self.servers[0].device_name):
+                b2a_nonce = tf.Variable(0, dtype=seed_0.dtype, trainable=False)
             self.b2a_keys_1_ = b2a_keys_1
             self.b2a_keys_2_ = b2a_keys_2
             self.b2a_nonce_ = b2a_nonce
-- 
2.43.0


From dfc0d6eae6430e10c79b434958c3857b9e569466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:41 +0000
Subject: [PATCH 54/81] fix: cheetah truncation revealed the value to server 2

---
 tf_encrypted/protocol/aby3/aby3.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index a6995cd..3d67650 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2814,8 +2814,6 @@ def _truncate_msb0_cheetah_private(
         msb_bob_on_1 = x_bob_on_1.logical_rshift(x.backing_dtype.nbits - 1).cast(
             bfactory
         )
-        # x_B >> f
-        x_bob_on_1_trunc = x_bob_on_1.logical_rshift(amount)
     with tf.device(prot.servers[2].device_name):
         x_bob_on_2 = x_shares[2][0]
         msb_bob_on_2 = x_bob_on_2.logical_rshift(x.backing_dtype.nbits - 1).cast(
@@ -2862,15 +2860,22 @@ def _truncate_msb0_cheetah_private(
 
     # Fix potential big error: w * 2^{l-f}
     error = (w << (x.backing_dtype.nbits - amount)).unwrapped
+    # Re-randomize: server 2 knows `error[0][0]`, so that `x_alice_trunc` has to be masked
+    a0, a1, a2 = prot._gen_zero_sharing(shape, factory=x.backing_dtype)
     z = [[None, None], [None, None], [None, None]]
     with tf.device(prot.servers[0].device_name):
-        z[0][0] = x_alice_trunc - error[0][0]
-        z[0][1] = -error[0][1]
+        z[0][0] = x_alice_trunc - error[0][0] + a0
+    with tf.device(prot.servers[1].device_name):
+        z[1][0] = a1 - error[1][0]
+    with tf.device(prot.servers[2].device_name):
+        z[2][0] = x_bob_on_2_trunc - error[2][0] + a2
+
+    # Replicate shares
+    with tf.device(prot.servers[0].device_name):
+        z[0][1] = z[1][0].identity()
     with tf.device(prot.servers[1].device_name):
-        z[1][0] = -error[1][0]
-        z[1][1] = x_bob_on_1_trunc - error[1][1]
+        z[1][1] = z[2][0].identity()
     with tf.device(prot.servers[2].device_name):
-        z[2][0] = x_bob_on_2_trunc - error[2][0]
         z[2][1] = z[0][0].identity()
 
     z = ABY3PrivateTensor(prot, z, x.is_scaled, ShareType.ARITHMETIC)
-- 
2.43.0


From c10765e3ed0ca9d46ea2035fbbace11c7af3d5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:40 +0000
Subject: [PATCH 55/81] fix: SecureNN private comparison told server 2 where
 the compared values differ

---
 tf_encrypted/protocol/securenn/securenn.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 0837f84..8847737 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -752,11 +752,20 @@ def _private_compare(
             c_masked = c * mask
             assert c_masked.backing_dtype == prime_dtype
 
-            # TODO[Morten] permute
+            # permute each bit sequence by a permutation that server 2 does not know;
+            # the position of a zero would otherwise tell it where the bits differ
+            c_on_0, c_on_1 = c_masked.unwrapped
+            with tf.device(prot.server_0.device_name):
+                keys = int64factory.sample_uniform(c_masked.shape)
+                permutation_on_0 = tf.argsort(keys.value, axis=-1)
+                c_on_0 = _permute_last_axis(c_on_0, permutation_on_0)
+            with tf.device(prot.server_1.device_name):
+                permutation_on_1 = tf.identity(permutation_on_0)
+                c_on_1 = _permute_last_axis(c_on_1, permutation_on_1)
 
             # reconstruct masked values on server 2 to find entries with zeros
             with tf.device(prot.server_2.device_name):
-                d = prot._reconstruct(*c_masked.unwrapped)
+                d = prot._reconstruct(c_on_0, c_on_1)
                 # find all zero entries
                 zeros = d.equal_zero(out_dtype)
                 # for each bit sequence, determine whether it has one or no zero in it
@@ -768,6 +777,14 @@ def _private_compare(
         return result
 
 
+def _permute_last_axis(x: AbstractTensor, permutation: tf.Tensor) -> AbstractTensor:
+    """Reorder every row of the last axis of `x` by its row of `permutation`."""
+    shape = tf.shape(permutation)
+    rows = tf.range(tf.size(permutation) // shape[-1]) * shape[-1]
+    flat = tf.reshape(permutation, [-1, shape[-1]]) + tf.expand_dims(rows, axis=-1)
+    return x.reshape([-1]).gather(tf.reshape(flat, [-1])).reshape(x.shape)
+
+
 def _equal_zero_public(prot, x: PondPublicTensor, dtype=None):
     """Check if a public tensor's values equal zero."""
 
-- 
2.43.0


From edace75d205feec99d4b0dcfc0b43f3941c5ea1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:00 +0000
Subject: [PATCH 56/81] fix: output shapes of convolution layers

The width was computed with the stride of the height, and the depthwise
layer gave a channels-first shape with the wrong number of channels for
every layout.
---
 tf_encrypted/keras/layers/convolutional.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/tf_encrypted/keras/layers/convolutional.py b/tf_encrypted/keras/layers/convolutional.py
index 1707f43..3db7fee 100644
--- a/tf_encrypted/keras/layers/convolutional.py
+++ b/tf_encrypted/keras/layers/convolutional.py
@@ -302,10 +302,10 @@ class Conv2D(Layer):
 
         if self.padding == "SAME":
             h_out = int(np.ceil(float(h_x) / float(self.strides[0])))
-            w_out = int(np.ceil(float(w_x) / float(self.strides[0])))
+            w_out = int(np.ceil(float(w_x) / float(self.strides[1])))
         if self.padding == "VALID":
             h_out = int(np.ceil(float(h_x - h_filter + 1) / float(self.strides[0])))
-            w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[0])))
+            w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[1])))
 
         if self.data_format == "channels_first":
             return [n_x, n_filters, h_out, w_out]
@@ -568,7 +568,8 @@ class DepthwiseConv2D(Conv2D):
 
     def compute_output_shape(self, input_shape):
         """Compute output_shape for the layer."""
-        h_filter, w_filter, _, n_filters = self.kernel_shape
+        h_filter, w_filter, input_dim, depth_multiplier = self.kernel_shape
+        n_filters = input_dim * depth_multiplier
 
         if self.data_format == "channels_first":
             n_x, _, h_x, w_x = input_shape
@@ -577,12 +578,15 @@ class DepthwiseConv2D(Conv2D):
 
         if self.padding == "SAME":
             h_out = int(np.ceil(float(h_x) / float(self.strides[0])))
-            w_out = int(np.ceil(float(w_x) / float(self.strides[0])))
+            w_out = int(np.ceil(float(w_x) / float(self.strides[1])))
         if self.padding == "VALID":
             h_out = int(np.ceil(float(h_x - h_filter + 1) / float(self.strides[0])))
-            w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[0])))
+            w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[1])))
 
-        return [n_x, n_filters, h_out, w_out]
+        if self.data_format == "channels_first":
+            return [n_x, n_filters, h_out, w_out]
+        else:
+            return [n_x, h_out, w_out, n_filters]
 
     def get_mask(self, in_channels):
         mask = np.zeros(
-- 
2.43.0


From a0c934dc3ecc626f5e6438713d8110793bda57a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:21 +0000
Subject: [PATCH 57/81] fix: GlobalMaxPooling2D ignored keepdims

---
 tf_encrypted/keras/layers/pooling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/keras/layers/pooling.py b/tf_encrypted/keras/layers/pooling.py
index 81b6c2f..ada8ed9 100644
--- a/tf_encrypted/keras/layers/pooling.py
+++ b/tf_encrypted/keras/layers/pooling.py
@@ -427,7 +427,7 @@ class GlobalMaxPooling2D(GlobalPooling2D):
 
         self._layer_output = (outputs, outputs_argmax)
 
-        return outputs
+        return outputs.reshape(self.compute_output_shape(self._layer_input.shape))
 
     def backward(self, d_y):
         x = self._layer_input
@@ -438,7 +438,7 @@ class GlobalMaxPooling2D(GlobalPooling2D):
         else:
             batch, channels, h_x, w_x = x.shape
 
-        _d_y = tfe.expand_dims(d_y, axis=2)
+        _d_y = tfe.reshape(d_y, [batch, channels, 1])
         d_x = tfe.tile(_d_y, multiples=[1, 1, h_x * w_x])
         d_x = d_x * y_arg
         d_x = tfe.reshape(d_x, [batch, channels, h_x, w_x])
-- 
2.43.0


From 336fda67d6bc38190c2fe03a33423c1aba42e886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:22 +0000
Subject: [PATCH 58/81] fix: GlobalAveragePooling2D on inputs of another size,
 and its gradient with keepdims

---
 tf_encrypted/keras/layers/pooling.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tf_encrypted/keras/layers/pooling.py b/tf_encrypted/keras/layers/pooling.py
index ada8ed9..febb98a 100644
--- a/tf_encrypted/keras/layers/pooling.py
+++ b/tf_encrypted/keras/layers/pooling.py
@@ -357,6 +357,9 @@ class GlobalAveragePooling2D(GlobalPooling2D):
 
     def call(self, inputs):
         self._layer_input = inputs
+        # the mean is over the pixels of this input, which need not have the
+        # size of the one the layer was built for
+        self.build(inputs.shape)
         if self.data_format == "channels_last":
             x_reduced = inputs.reduce_sum(axis=2).reduce_sum(axis=1)
         else:
@@ -371,14 +374,11 @@ class GlobalAveragePooling2D(GlobalPooling2D):
     def backward(self, d_y):
         x = self._layer_input
         if self.data_format == "channels_last":
-            h_x, w_x = (x.shape[1], x.shape[2])
+            batch, h_x, w_x, channels = x.shape
         else:
-            h_x, w_x = (x.shape[2], x.shape[3])
-
-        _d_y = d_y * self.scalar
-        if not self.keepdims:
-            _d_y = tfe.expand_dims(tfe.expand_dims(_d_y, axis=2), axis=3)
+            batch, channels, h_x, w_x = x.shape
 
+        _d_y = tfe.reshape(d_y * self.scalar, [batch, channels, 1, 1])
         d_x = tfe.tile(_d_y, multiples=[1, 1, h_x, w_x])
 
         if self.data_format == "channels_last":
-- 
2.43.0


From 6e3a6b7cc1e7f2c6310251c03c3f9df5f6ca2796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:22 +0000
Subject: [PATCH 59/81] fix: gradient of Flatten with channels first

---
 tf_encrypted/keras/layers/flatten.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/layers/flatten.py b/tf_encrypted/keras/layers/flatten.py
index f9660a5..582f408 100644
--- a/tf_encrypted/keras/layers/flatten.py
+++ b/tf_encrypted/keras/layers/flatten.py
@@ -54,7 +54,14 @@ class Flatten(Layer):
 
         input_shape = x.shape.as_list()
 
-        d_x = tfe.reshape(d_y, input_shape)
+        rank = len(input_shape)
+        if self.data_format == "channels_first" and rank > 1:
+            # channels come last in the flattened values
+            d_x = tfe.reshape(d_y, input_shape[:1] + input_shape[2:] + input_shape[1:2])
+            permutation = [0, rank - 1] + list(range(1, rank - 1))
+            d_x = tfe.transpose(d_x, perm=permutation)
+        else:
+            d_x = tfe.reshape(d_y, input_shape)
         return grad_weights, d_x
 
     def compute_output_shape(self, input_shape):
-- 
2.43.0


From 4e9edf79d889c90bfad74e719918db1d3268b2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:22 +0000
Subject: [PATCH 60/81] fix: the name of a model was lost

---
 tf_encrypted/keras/models/base_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/models/base_model.py b/tf_encrypted/keras/models/base_model.py
index c548f8f..a641d38 100644
--- a/tf_encrypted/keras/models/base_model.py
+++ b/tf_encrypted/keras/models/base_model.py
@@ -25,7 +25,7 @@ class BaseModel(Layer):
     """
 
     def __init__(self, name=None):
-        super(BaseModel, self).__init__(name)
+        super(BaseModel, self).__init__(name=name)
 
         self._loss = None
         self._optimizer = None
-- 
2.43.0


From 43b14dbd381d6f6f6f80a2919dae8dc9861f3269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:22 +0000
Subject: [PATCH 61/81] fix: set_weights changed the caller's list of weights

---
 tf_encrypted/keras/engine/base_layer.py    | 1 +
 tf_encrypted/keras/layers/convolutional.py | 1 +
 tf_encrypted/keras/layers/normalization.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/tf_encrypted/keras/engine/base_layer.py b/tf_encrypted/keras/engine/base_layer.py
index c8f6551..69bf725 100644
--- a/tf_encrypted/keras/engine/base_layer.py
+++ b/tf_encrypted/keras/engine/base_layer.py
@@ -130,6 +130,7 @@ class Layer(ABC):
         """
         weights_types = (np.ndarray, TFEPrivateTensor)
         assert isinstance(weights[0], weights_types), type(weights[0])
+        weights = list(weights)
 
         if isinstance(weights[0], np.ndarray):
             for index, weight in enumerate(weights):
diff --git a/tf_encrypted/keras/layers/convolutional.py b/tf_encrypted/keras/layers/convolutional.py
index 3db7fee..0e31712 100644
--- a/tf_encrypted/keras/layers/convolutional.py
+++ b/tf_encrypted/keras/layers/convolutional.py
@@ -614,6 +614,7 @@ class DepthwiseConv2D(Conv2D):
 
         weights_types = (np.ndarray, TFEPrivateTensor)
         assert isinstance(weights[0], weights_types), type(weights[0])
+        weights = list(weights)
 
         # Assign new keras weights to existing weights defined by
         # default when tfe layer was instantiated
diff --git a/tf_encrypted/keras/layers/normalization.py b/tf_encrypted/keras/layers/normalization.py
index 064deb0..48a144e 100644
--- a/tf_encrypted/keras/layers/normalization.py
+++ b/tf_encrypted/keras/layers/normalization.py
@@ -226,6 +226,7 @@ class BatchNormalization(Layer):
 
         weights_types = (np.ndarray, TFEPublicTensor)
         assert isinstance(weights[0], weights_types), type(weights[0])
+        weights = list(weights)
         if isinstance(weights[0], np.ndarray):
             for index, weight in enumerate(weights):
                 weights[index] = tfe.define_public_variable(weight)
-- 
2.43.0


From 965b61e3d36403c8232a03d941f1f1715d325170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:22 +0000
Subject: [PATCH 62/81] fix: gradient of Conv2D for strides that differ or do
 not divide the input

---
 tf_encrypted/keras/layers/convolutional.py | 15 ++++++++++++++-
 tf_encrypted/protocol/aby3/aby3.py         |  7 ++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/tf_encrypted/keras/layers/convolutional.py b/tf_encrypted/keras/layers/convolutional.py
index 0e31712..45b1699 100644
--- a/tf_encrypted/keras/layers/convolutional.py
+++ b/tf_encrypted/keras/layers/convolutional.py
@@ -211,7 +211,20 @@ class Conv2D(Layer):
         else:
             d_y = tfe.transpose(d_y, perm=[1, 2, 0, 3])
 
-        inner_padded_d_y = tfe.expand(d_y, self.strides[0])
+        padding = [[0, 0], [0, 0]]
+        if self.padding == "SAME":
+            padding = self.pad_size(h_x, w_x)
+        # Rows and columns at the end of the input that the stride skips over
+        skipped = [
+            size + sum(pad) - k - (int(out) - 1) * stride
+            for size, pad, k, out, stride in zip(
+                (h_x, w_x), padding, self.kernel_size, d_y.shape[:2], self.strides
+            )
+        ]
+        inner_padded_d_y = tfe.expand(d_y, self.strides)
+        inner_padded_d_y = tfe.pad(
+            inner_padded_d_y, [[0, skipped[0]], [0, skipped[1]]]
+        )
         padded_d_y = tfe.pad(
             inner_padded_d_y,
             [
diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 3d67650..b9d4174 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5514,12 +5514,13 @@ def _expand_private(prot, x, stride):
 
     h_in = x.shape[0]
     w_in = x.shape[1]
-    h_out = (h_in - 1) * stride + 1
-    w_out = (w_in - 1) * stride + 1
+    stride_h, stride_w = stride if isinstance(stride, (list, tuple)) else (stride,) * 2
+    h_out = (h_in - 1) * stride_h + 1
+    w_out = (w_in - 1) * stride_w + 1
     shape_out = [h_out, w_out] + x.shape[2:]
 
     I, J = tf.meshgrid(
-        tf.range(h_out, delta=stride), tf.range(w_out, delta=stride), indexing="ij"
+        tf.range(h_out, delta=stride_h), tf.range(w_out, delta=stride_w), indexing="ij"
     )
     indices = tf.stack([I, J], axis=2)
 
-- 
2.43.0


From 25299599d305b4b72fe057b6d9555d926ddecc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:22 +0000
Subject: [PATCH 63/81] fix: batches of training data were counted by the
 number of features

---
 tf_encrypted/keras/models/base_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/models/base_model.py b/tf_encrypted/keras/models/base_model.py
index a641d38..ac05de2 100644
--- a/tf_encrypted/keras/models/base_model.py
+++ b/tf_encrypted/keras/models/base_model.py
@@ -212,7 +212,7 @@ def data_wrap(x, y=None, batch_size=32):
         def iter_over_data(x_data, y_data, batch_size):
             start_index = 0
             end_index = batch_size
-            while start_index < x_data[0].shape[0]:
+            while start_index < x_data.shape[0]:
                 yield (x_data[start_index:end_index], y_data[start_index:end_index])
                 start_index += batch_size
                 end_index += batch_size
-- 
2.43.0


From 2605c68cced7336a644011f2a36787ff61b84d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:22 +0000
Subject: [PATCH 64/81] fix: fit trained for one epoch only

---
 tf_encrypted/keras/models/base_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/models/base_model.py b/tf_encrypted/keras/models/base_model.py
index ac05de2..571375b 100644
--- a/tf_encrypted/keras/models/base_model.py
+++ b/tf_encrypted/keras/models/base_model.py
@@ -109,10 +109,11 @@ class BaseModel(Layer):
                 the batch size, or 1 if that cannot be determined.
         """
 
-        data_iter = data_wrap(x, y, batch_size)
         if self.train_function is None:
             self.train_function = self.make_train_function()
         for e in range(epochs):
+            # every epoch goes over all the data
+            data_iter = data_wrap(x, y, batch_size)
             print("Epoch {}/{}".format(e + 1, epochs))
             progbar = utils.Progbar(steps_per_epoch, verbose=verbose)
             for index, (input_x, input_y) in enumerate(data_iter):
-- 
2.43.0


From 086b3805362e8a5b3d529dc4787edcf93b58bd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:22 +0000
Subject: [PATCH 65/81] fix: batch_size=None of fit and evaluate

---
 tf_encrypted/keras/models/base_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf_encrypted/keras/models/base_model.py b/tf_encrypted/keras/models/base_model.py
index 571375b..6303ff5 100644
--- a/tf_encrypted/keras/models/base_model.py
+++ b/tf_encrypted/keras/models/base_model.py
@@ -206,6 +206,8 @@ class BaseModel(Layer):
 
 
 def data_wrap(x, y=None, batch_size=32):
+    if batch_size is None:
+        batch_size = 32
     if isinstance(x, Iterator):
         return x
     elif isinstance(x, TFEPrivateTensor) and isinstance(y, TFEPrivateTensor):
-- 
2.43.0


From a358c32e121ec3ba748378b3dc0825c512d2ae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:22 +0000
Subject: [PATCH 66/81] fix: predict revealed, or not, as it did when it was
 first called

---
 tf_encrypted/keras/models/base_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/keras/models/base_model.py b/tf_encrypted/keras/models/base_model.py
index 6303ff5..22a5a22 100644
--- a/tf_encrypted/keras/models/base_model.py
+++ b/tf_encrypted/keras/models/base_model.py
@@ -141,10 +141,12 @@ class BaseModel(Layer):
         y_preds = []
         data_iter = data_wrap(x, None, batch_size)
         if self.predict_function is None:
-            self.predict_function = self.make_predict_function(reveal)
+            self.predict_function = {}
+        if reveal not in self.predict_function:
+            self.predict_function[reveal] = self.make_predict_function(reveal)
 
         for input_x in data_iter:
-            y_pred = self.predict_function(input_x)
+            y_pred = self.predict_function[reveal](input_x)
             y_preds.append(y_pred)
 
         if reveal:
-- 
2.43.0


From e793a672e8264500329675b24a2c65fa634652cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:22 +0000
Subject: [PATCH 67/81] fix: a model kept the steps traced before it was
 compiled or extended

---
 tf_encrypted/keras/models/sequential.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tf_encrypted/keras/models/sequential.py b/tf_encrypted/keras/models/sequential.py
index 0cae08e..65c43a5 100644
--- a/tf_encrypted/keras/models/sequential.py
+++ b/tf_encrypted/keras/models/sequential.py
@@ -90,6 +90,10 @@ class Sequential(BaseModel):
 
         # Add layer weights to model weights
         self.weights.append(layer.weights)
+        # traced without this layer
+        self.train_function = None
+        self.predict_function = None
+        self.test_function = None
 
     def call(
         self,
@@ -140,6 +144,7 @@ class Sequential(BaseModel):
         self._loss = loss
         assert self._optimizer is not None, "An optimizer must be specified."
         assert self._loss is not None, "A loss must be specified."
+        self.train_function = None
 
         self._optimizer.compile(self.weights)
 
-- 
2.43.0


From 337657e0e52a7b651aec863f2e37b4dcb1ae09e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 68/81] fix: converted nodes took attributes by position

ONNX does not order them: Gemm without transA ignored transB, alpha and
beta, Softmax its axis, BatchNormalization took any first attribute for
epsilon.
---
 tf_encrypted/convert/nodes.py | 53 +++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index d558de0..28477b8 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -7,6 +7,7 @@ from typing import List
 
 import numpy as np
 import tensorflow as tf
+from onnx import helper
 from onnx.onnx_ml_pb2 import NodeProto
 
 import tf_encrypted as tfe
@@ -43,6 +44,10 @@ class BaseNode(ABC):
         self.node = node
         self.inputs = inputs
         self.model_provider = model_provider
+        # node's attributes, in ONNX they have no order and may be left out
+        self._attributes = {
+            attr.name: helper.get_attribute_value(attr) for attr in node.attribute
+        }
         # node's weights
         self._weights = []
         # node's input shapes, only include input from other node's output
@@ -225,24 +230,30 @@ class GemmNode(BaseNode):
         self._input_shapes.append(inputs[0])
 
         assert isinstance(inputs[1], tf.Tensor), "kernel must be a tensor"
-        kernel = tfe.define_private_input(model_provider, lambda: inputs[1])
-        assert isinstance(inputs[2], tf.Tensor), "bias must be a tensor"
-        bias = tfe.define_private_input(model_provider, lambda: inputs[2])
-        if node.attribute[1].i:
+        alpha = self._attributes.get("alpha", 1.0)
+        beta = self._attributes.get("beta", 1.0)
+        kernel = tfe.define_private_input(model_provider, lambda: alpha * inputs[1])
+        if self._attributes.get("transB", 0):
             kernel = kernel.transpose()
         weights = []
         weights.append(kernel)
-        weights.append(bias)
+        use_bias = len(inputs) == 3
+        if use_bias:
+            assert isinstance(inputs[2], tf.Tensor), "bias must be a tensor"
+            bias = tfe.define_private_input(
+                model_provider,
+                lambda: tf.broadcast_to(beta * inputs[2], [kernel.shape[1]]),
+            )
+            weights.append(bias)
 
-        self.transpose_x = False
-        if node.attribute[0].i:
-            self.transpose_x = True
+        self.transpose_x = bool(self._attributes.get("transA", 0))
+        input_shape = self._input_shapes[0]
+        if self.transpose_x:
+            input_shape = input_shape[::-1]
 
-        self.layer = Dense(kernel.shape[1], use_bias=True)
-        self.layer.build(self._input_shapes[0])
-        self._output_shapes.append(
-            self.layer.compute_output_shape(self._input_shapes[0])
-        )
+        self.layer = Dense(kernel.shape[1], use_bias=use_bias)
+        self.layer.build(input_shape)
+        self._output_shapes.append(self.layer.compute_output_shape(input_shape))
         self.layer.set_weights(weights)
         self._weights = self.layer.weights
 
@@ -357,7 +368,7 @@ class BatchnormalizationNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        epsilon = float(node.attribute[0].f)
+        epsilon = float(self._attributes.get("epsilon", 1e-5))
         assert isinstance(inputs[1], tf.Tensor), "gamma must be a tensor"
         gamma = tf.keras.initializers.Constant(inputs[1])
         assert isinstance(inputs[2], tf.Tensor), "beta must be a tensor"
@@ -510,6 +521,10 @@ class SoftmaxNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
+        axis = self._attributes.get("axis", -1)
+        if axis not in (-1, len(inputs[0]) - 1):
+            raise NotImplementedError("Softmax is only supported along the last axis")
+
         self.layer = Activation("softmax")
         self.layer.build(self._input_shapes[0])
         self._output_shapes.append(
@@ -677,7 +692,7 @@ class SplitNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        self.axis = node.attribute[0].i
+        self.axis = self._attributes.get("axis", 0)
 
         if len(inputs) == 2:
             self.num_or_size_splits = inputs[1]
@@ -706,7 +721,7 @@ class ConcatNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.extend(inputs)
 
-        self.axis = node.attribute[0].i
+        self.axis = self._attributes["axis"]
         output_shape = deepcopy(inputs[0])
         output_shape[self.axis] = 0
         self.input_dims = []
@@ -731,7 +746,7 @@ class StackNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        self.axis = node.attribute[0].i
+        self.axis = self._attributes["axis"]
         output_shape = []
         for index, dim in enumerate(inputs[0]):
             if index == self.axis:
@@ -798,7 +813,9 @@ class TransposeNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        self.perm = np.array(node.attribute[0].ints)
+        self.perm = np.array(
+            self._attributes.get("perm", range(len(inputs[0]))[::-1])
+        )
         self.reversed_perm = np.argsort(self.perm)
         self._output_shapes.append(list(np.array(inputs[0])[self.perm]))
 
-- 
2.43.0


From 5ddcb3933b0253a4f23474b42f115583be9f9a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 69/81] fix: padding of converted convolutions

The rows were padded the wrong way around, auto_pad, dilations and groups
were ignored.
---
 tf_encrypted/convert/nodes.py | 41 +++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index 28477b8..be1d82f 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -88,6 +88,23 @@ class BaseNode(ABC):
         pass
 
 
+def explicit_pads(attributes, input_size, kernel_size):
+    """Rows and columns to pad: [top, left, bottom, right], as `pads` in ONNX"""
+    auto_pad = attributes.get("auto_pad", b"NOTSET")
+    if auto_pad == b"NOTSET":
+        return list(attributes.get("pads", [0, 0, 0, 0]))
+    if auto_pad == b"VALID":
+        return [0, 0, 0, 0]
+    strides = attributes.get("strides", [1, 1])
+    begin, end = [], []
+    for size, kernel, stride in zip(input_size, kernel_size, strides):
+        total = max((-(-size // stride) - 1) * stride + kernel - size, 0)
+        small, big = total // 2, total - total // 2
+        begin.append(small if auto_pad == b"SAME_UPPER" else big)
+        end.append(big if auto_pad == b"SAME_UPPER" else small)
+    return begin + end
+
+
 class AddNode(BaseNode):
     def __init__(
         self, node: NodeProto, inputs: List[tf.Tensor], model_provider: Player
@@ -296,17 +313,19 @@ class Conv2dNode(BaseNode):
             use_bias = False
             bias = None
 
-        attributes = {}
-        for attr in node.attribute:
-            attributes[attr.name] = attr
-
-        strides = list(attributes["strides"].ints)
-        group = attributes["group"].i
-        try:
-            self.padding = list(attributes["pads"].ints)
+        strides = list(self._attributes.get("strides", [1, 1]))
+        group = self._attributes.get("group", 1)
+        if any(d != 1 for d in self._attributes.get("dilations", [])):
+            raise NotImplementedError("Dilated convolution is not supported")
+        if group not in (1, inputs[0][1]):
+            raise NotImplementedError("Grouped convolution is not supported")
+        self.padding = explicit_pads(
+            self._attributes, inputs[0][2:], list(inputs[1].shape[2:])
+        )
+        if any(self.padding):
             padded_shape[2] += self.padding[0] + self.padding[2]
             padded_shape[3] += self.padding[1] + self.padding[3]
-        except KeyError:
+        else:
             self.padding = None
 
         if group == 1:
@@ -340,7 +359,7 @@ class Conv2dNode(BaseNode):
                 [
                     [0, 0],
                     [0, 0],
-                    [self.padding[2], self.padding[0]],
+                    [self.padding[0], self.padding[2]],
                     [self.padding[1], self.padding[3]],
                 ],
             )
@@ -354,7 +373,7 @@ class Conv2dNode(BaseNode):
             d_y = d_y[
                 :,
                 :,
-                self.padding[2] : dy_shape[2] - self.padding[0],
+                self.padding[0] : dy_shape[2] - self.padding[2],
                 self.padding[1] : dy_shape[3] - self.padding[3],
             ]
         return grad_weights, [d_y]
-- 
2.43.0


From 444846601f6fb3c3ec4ce85b060e5b072671e96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 70/81] fix: padding of converted pooling nodes was ignored

Also refuse dilations and ceil_mode instead of ignoring them.
---
 tf_encrypted/convert/nodes.py | 77 ++++++++++++++++++++++++++---------
 1 file changed, 58 insertions(+), 19 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index be1d82f..7020459 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -105,6 +105,21 @@ def explicit_pads(attributes, input_size, kernel_size):
     return begin + end
 
 
+def pooling_window(attributes, input_shape):
+    """Window size, strides and pads of a pooling node"""
+    pool_size = list(attributes["kernel_shape"])
+    strides = list(attributes.get("strides", [1, 1]))
+    if any(d != 1 for d in attributes.get("dilations", [])):
+        raise NotImplementedError("Dilated pooling is not supported")
+    pads = explicit_pads(attributes, input_shape[2:], pool_size)
+    if attributes.get("ceil_mode", 0):
+        for dim in range(2):
+            size = input_shape[dim + 2] + pads[dim] + pads[dim + 2]
+            if (size - pool_size[dim]) % strides[dim] != 0:
+                raise NotImplementedError("ceil_mode is not supported")
+    return pool_size, strides, pads
+
+
 class AddNode(BaseNode):
     def __init__(
         self, node: NodeProto, inputs: List[tf.Tensor], model_provider: Player
@@ -427,24 +442,47 @@ class AvgpoolNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        attributes = {}
-        for attr in node.attribute:
-            attributes[attr.name] = attr
-
-        pool_shape = attributes["kernel_shape"].ints
-        strides = attributes["strides"].ints
+        pool_shape, strides, pads = pooling_window(self._attributes, inputs[0])
+        padded_shape = deepcopy(inputs[0])
+        self.paddings = None
+        self.scale = None
+        if any(pads):
+            self.paddings = [[0, 0], [0, 0], [pads[0], pads[2]], [pads[1], pads[3]]]
+            padded_shape[2] += pads[0] + pads[2]
+            padded_shape[3] += pads[1] + pads[3]
 
         self.layer = AveragePooling2D(pool_shape, strides, data_format="channels_first")
-        self.layer.build(self._input_shapes[0])
-        self._output_shapes.append(
-            self.layer.compute_output_shape(self._input_shapes[0])
-        )
+        self.layer.build(padded_shape)
+        self._output_shapes.append(self.layer.compute_output_shape(padded_shape))
+
+        if any(pads) and not self._attributes.get("count_include_pad", 0):
+            # only actual values count for the average
+            counts = []
+            for dim in range(2):
+                first = np.arange(self._output_shapes[0][dim + 2]) * strides[dim]
+                first = first - pads[dim]
+                last = np.minimum(first + pool_shape[dim], inputs[0][dim + 2])
+                counts.append(last - np.maximum(first, 0))
+            self.scale = np.prod(pool_shape) / np.outer(*counts)[None, None]
 
     def forward(self, x):
-        return [self.layer.call(x[0])]
+        x = x[0]
+        if self.paddings is not None:
+            x = tfe.pad(x, self.paddings)
+        y = self.layer.call(x)
+        if self.scale is not None:
+            y = y * self.scale
+        return [y]
 
     def backward(self, d_y):
-        grad_weights, d_y = self.layer.backward(d_y[0])
+        d_y = d_y[0]
+        if self.scale is not None:
+            d_y = d_y * self.scale
+        grad_weights, d_y = self.layer.backward(d_y)
+        if self.paddings is not None:
+            [top, bottom], [left, right] = self.paddings[2:]
+            height, width = d_y.shape[2:]
+            d_y = d_y[:, :, top : height - bottom, left : width - right]
         return grad_weights, [d_y]
 
 
@@ -566,14 +604,15 @@ class MaxPoolNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        attributes = {}
-        for attr in node.attribute:
-            attributes[attr.name] = attr
-
-        pool_shape = attributes["kernel_shape"].ints
-        strides = attributes["strides"].ints
+        pool_shape, strides, pads = pooling_window(self._attributes, inputs[0])
+        padding = "VALID"
+        if any(pads):
+            same = {"strides": strides, "auto_pad": b"SAME_UPPER"}
+            if pads != explicit_pads(same, inputs[0][2:], pool_shape):
+                raise NotImplementedError("Max pooling only pads like SAME in TF")
+            padding = "SAME"
 
-        self.layer = MaxPooling2D(pool_shape, strides, "VALID", "channels_first")
+        self.layer = MaxPooling2D(pool_shape, strides, padding, "channels_first")
         self.layer.build(self._input_shapes[0])
         self._output_shapes.append(
             self.layer.compute_output_shape(self._input_shapes[0])
-- 
2.43.0


From 2ee346c3a2f7ebddde284230a4ef152150c2711f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 71/81] fix: a converted Slice dropped the last sample of a
 batch

and had a wrong output shape.
---
 tf_encrypted/convert/nodes.py | 40 +++++++++++++----------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index 7020459..e9f08ec 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -674,37 +674,27 @@ class StrideSliceNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        self.begin = [0] * len(inputs[0])
-        self.end = deepcopy(inputs[0])
-        self.strides = [1] * len(inputs[0])
-        if len(inputs) > 3:
-            self.axes = inputs[3]
-        else:
-            self.axes = range(len(inputs[0]))
-
-        if len(inputs) == 5:
-            for index, a in enumerate(self.axes):
-                self.strides[a] = inputs[4][index]
+        starts, ends = inputs[1].numpy(), inputs[2].numpy()
+        axes = inputs[3].numpy() if len(inputs) > 3 else range(len(starts))
+        steps = inputs[4].numpy() if len(inputs) > 4 else [1] * len(starts)
 
-        for index, a in enumerate(self.axes):
-            self.begin[a] = inputs[1][index]
-            self.end[a] = inputs[2][index]
+        # slices of ONNX are those of Python
+        self.slices = [slice(None)] * len(inputs[0])
+        for a, start, end, step in zip(axes, starts, ends, steps):
+            if step < 0:
+                raise NotImplementedError("Slicing backwards is not supported")
+            self.slices[a] = slice(int(start), int(end), int(step))
 
-        output_shape = deepcopy(self.end)
+        output_shape = deepcopy(inputs[0])
         for index, dim in enumerate(output_shape):
-            dim = dim - self.begin[index]
-            dim = dim // self.strides[index]
+            if dim != -1:
+                output_shape[index] = len(range(dim)[self.slices[index]])
         self._output_shapes.append(output_shape)
 
     def forward(self, x):
-        return [
-            tfe.strided_slice(
-                x[0],
-                self.begin,
-                self.end,
-                strides=self.strides,
-            )
-        ]
+        bounds = [s.indices(int(dim)) for s, dim in zip(self.slices, x[0].shape)]
+        begin, end, strides = zip(*bounds)
+        return [tfe.strided_slice(x[0], begin, end, strides=strides)]
 
     def backward(self, d_y):
         # TODO: implement strideslice backward
-- 
2.43.0


From fc586d9c633539cb0e03c8ef29aac4da1c933c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 72/81] fix: converted ReduceMean and ReduceMax reduced other
 axes than asked for

Any axes but the second and third were taken for the last two.
GlobalMaxPool lost its reduced dimensions.
---
 tf_encrypted/convert/nodes.py | 50 +++++++++++------------------------
 1 file changed, 16 insertions(+), 34 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index e9f08ec..e474876 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -120,6 +120,20 @@ def pooling_window(attributes, input_shape):
     return pool_size, strides, pads
 
 
+def global_pooling(node, attributes, inputs):
+    """Data format and keepdims of a global pooling node, or of a reduction to one"""
+    if node.op_type in ("GlobalAveragePool", "GlobalMaxPool"):
+        return "channels_first", True
+    axes = attributes.get("axes", [])
+    if len(inputs) == 2:
+        axes = inputs[1].numpy()
+    axes = sorted(int(axis) % len(inputs[0]) for axis in axes)
+    if len(inputs[0]) != 4 or axes not in ([1, 2], [2, 3]):
+        raise NotImplementedError("Can only reduce the height and width of images")
+    data_format = "channels_last" if axes == [1, 2] else "channels_first"
+    return data_format, bool(attributes.get("keepdims", 1))
+
+
 class AddNode(BaseNode):
     def __init__(
         self, node: NodeProto, inputs: List[tf.Tensor], model_provider: Player
@@ -494,23 +508,7 @@ class GlobalAvgpoolNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        data_format = "channels_first"
-        keepdims = True
-
-        try:
-            attributes = {}
-            for attr in node.attribute:
-                attributes[attr.name] = attr
-
-            axes = attributes["axes"].ints
-            keepdims = attributes["keepdims"].i == 1
-
-            if axes[0] == 1 and axes[1] == 2:
-                data_format = "channels_last"
-            else:
-                data_format = "channels_first"
-        except:  # noqa:E722
-            pass
+        data_format, keepdims = global_pooling(node, self._attributes, inputs)
 
         self.layer = GlobalAveragePooling2D(data_format=data_format, keepdims=keepdims)
         self.layer.build(self._input_shapes[0])
@@ -634,23 +632,7 @@ class GlobalMaxPoolNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        data_format = "channels_first"
-        keepdims = False
-
-        try:
-            attributes = {}
-            for attr in node.attribute:
-                attributes[attr.name] = attr
-
-            axes = attributes["axes"].ints
-            keepdims = attributes["keepdims"].i == 1
-
-            if axes[0] == 1 and axes[1] == 2:
-                data_format = "channels_last"
-            else:
-                data_format = "channels_first"
-        except:  # noqa:E722
-            pass
+        data_format, keepdims = global_pooling(node, self._attributes, inputs)
 
         self.layer = GlobalMaxPooling2D(data_format=data_format, keepdims=keepdims)
         self.layer.build(self._input_shapes[0])
-- 
2.43.0


From c8433e4d505aac0fcc037833514e79ede8e3846c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 73/81] fix: gradients of converted models

The gradient of a value used twice was that of one use only. Gradients of
broadcast operands were not summed. Biases were divided by the batch size
whether or not the loss had done so, all other weights never were, and the
bias added did not follow its updates.
---
 tf_encrypted/convert/convert.py | 10 +++++-
 tf_encrypted/convert/nodes.py   | 61 ++++++++++++++++++++++++++-------
 2 files changed, 58 insertions(+), 13 deletions(-)

diff --git a/tf_encrypted/convert/convert.py b/tf_encrypted/convert/convert.py
index 483acb7..704cb80 100644
--- a/tf_encrypted/convert/convert.py
+++ b/tf_encrypted/convert/convert.py
@@ -149,6 +149,10 @@ class Converter:
                 assert self._optimizer is not None, "An optimizer must be specified."
                 assert self._loss is not None, "A loss must be specified."
 
+                lazy_normalization = getattr(loss, "lazy_normalization", False)
+                for tfe_node in self.tfe_nodes.values():
+                    tfe_node.lazy_normalization = lazy_normalization
+
                 self._optimizer.compile(self.weights)
                 self.backward_func = self.backward_builder(optimizer=self._optimizer)
 
@@ -251,7 +255,11 @@ class Converter:
                 index = 0
                 for input in node.input:
                     if input in nodes_output:
-                        dy_dict[input] = d_y[index]
+                        if input in dy_dict:
+                            # the value is used by more than one node
+                            dy_dict[input] = dy_dict[input] + d_y[index]
+                        else:
+                            dy_dict[input] = d_y[index]
                         index += 1
 
             res_dy = []
diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index e474876..5392bd0 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -48,6 +48,8 @@ class BaseNode(ABC):
         self._attributes = {
             attr.name: helper.get_attribute_value(attr) for attr in node.attribute
         }
+        # whether the gradients of weights are still to be divided by the batch size
+        self._lazy_normalization = False
         # node's weights
         self._weights = []
         # node's input shapes, only include input from other node's output
@@ -59,6 +61,16 @@ class BaseNode(ABC):
     def weights(self):
         return self._weights
 
+    @property
+    def lazy_normalization(self):
+        return self._lazy_normalization
+
+    @lazy_normalization.setter
+    def lazy_normalization(self, lazy_normalization):
+        self._lazy_normalization = lazy_normalization
+        if hasattr(self, "layer"):
+            self.layer.lazy_normalization = lazy_normalization
+
     @property
     def input_shape(self):
         return self._input_shapes
@@ -134,6 +146,23 @@ def global_pooling(node, attributes, inputs):
     return data_format, bool(attributes.get("keepdims", 1))
 
 
+def broadcast_shape(a, b):
+    """Shape of the result for operands of shape `a` and `b`, -1 is unknown"""
+    rank = max(len(a), len(b))
+    a, b = [1] * (rank - len(a)) + list(a), [1] * (rank - len(b)) + list(b)
+    return [y if x == 1 else x for x, y in zip(a, b)]
+
+
+def reduce_to_shape(d_y, shape):
+    """Gradient of an operand of shape `shape` that was broadcast"""
+    shape, d_y_shape = list(map(int, shape)), list(map(int, d_y.shape))
+    aligned = [1] * (len(d_y_shape) - len(shape)) + shape
+    axes = [i for i, (s, d) in enumerate(zip(aligned, d_y_shape)) if s == 1 != d]
+    if axes:
+        d_y = d_y.reduce_sum(axis=axes, keepdims=True)
+    return d_y.reshape(shape)
+
+
 class AddNode(BaseNode):
     def __init__(
         self, node: NodeProto, inputs: List[tf.Tensor], model_provider: Player
@@ -141,8 +170,10 @@ class AddNode(BaseNode):
         super(AddNode, self).__init__(node, inputs, model_provider)
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
-        self._output_shapes.append(inputs[0])
         input_b = inputs[1]
+        self._output_shapes.append(broadcast_shape(inputs[0], input_b.shape.as_list()
+            if isinstance(input_b, tf.Tensor) else input_b))
+        self.shapes = None
 
         if isinstance(input_b, tf.Tensor):
             assert isinstance(inputs[1], tf.Tensor), "bias must be a tensor"
@@ -155,21 +186,23 @@ class AddNode(BaseNode):
 
     def forward(self, x):
         if self.bias is None:
+            self.shapes = [x[0].shape, x[1].shape]
             return [tfe.add(x[0], x[1])]
         else:
-            return [tfe.add(x[0], self.bias)]
+            self.shapes = [x[0].shape, self.bias.shape]
+            return [tfe.add(x[0], self.bias.read_value())]
 
     def backward(self, d_y):
         d_y = d_y[0]
         grad_weights = []
         if self.bias is None:
-            d_ys = [d_y, d_y]
+            d_ys = [reduce_to_shape(d_y, shape) for shape in self.shapes]
         else:
-            batch_size = d_y.shape[0]
-            d_bias = d_y.reduce_sum(axis=0)
-            d_bias = d_bias / batch_size
+            d_bias = reduce_to_shape(d_y, self.shapes[1])
+            if self.lazy_normalization:
+                d_bias = d_bias / int(d_y.shape[0])
             grad_weights.append(d_bias)
-            d_ys = [d_y]
+            d_ys = [reduce_to_shape(d_y, self.shapes[0])]
         return grad_weights, d_ys
 
 
@@ -181,14 +214,18 @@ class SubNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         assert isinstance(inputs[1], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
-        self._output_shapes.append(inputs[0])
+        self._output_shapes.append(broadcast_shape(inputs[0], inputs[1]))
+        self.shapes = None
 
     def forward(self, x):
+        self.shapes = [x[0].shape, x[1].shape]
         return [tfe.sub(x[0], x[1])]
 
     def backward(self, d_y):
         d_y = d_y[0]
-        return [], [d_y, tfe.negative(d_y)]
+        d_a = reduce_to_shape(d_y, self.shapes[0])
+        d_b = reduce_to_shape(tfe.negative(d_y), self.shapes[1])
+        return [], [d_a, d_b]
 
 
 class MulNode(BaseNode):
@@ -199,7 +236,7 @@ class MulNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         assert isinstance(inputs[1], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
-        self._output_shapes.append(inputs[0])
+        self._output_shapes.append(broadcast_shape(inputs[0], inputs[1]))
 
         self.a, self.b = None, None
 
@@ -209,8 +246,8 @@ class MulNode(BaseNode):
 
     def backward(self, d_y):
         d_y = d_y[0]
-        d_a = tfe.mul(self.b, d_y)
-        d_b = tfe.mul(self.a, d_y)
+        d_a = reduce_to_shape(tfe.mul(self.b, d_y), self.a.shape)
+        d_b = reduce_to_shape(tfe.mul(self.a, d_y), self.b.shape)
         return [], [d_a, d_b]
 
 
-- 
2.43.0


From ad800154c87f61953fa3e52fb2738a695a905735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 74/81] fix: shapes and attributes of converted nodes that move
 data

Wrong shapes for negative axes, new last axes and scalar indices, and for
Reshape to the input's own dimensions. Pad took any mode and value for zeros,
Flatten ignored its axis.
---
 tf_encrypted/convert/nodes.py | 73 +++++++++++++++++++++++------------
 1 file changed, 48 insertions(+), 25 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index 5392bd0..7e0f3d3 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -728,19 +728,17 @@ class GatherNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        attributes = {}
-        for attr in node.attribute:
-            attributes[attr.name] = attr
-
-        self.axis = attributes["axis"].i
-        self.indices = inputs[1]
+        self.axis = self._attributes.get("axis", 0) % len(inputs[0])
+        self.indices = inputs[1].numpy()
+        if np.any(self.indices < 0):
+            if inputs[0][self.axis] < 0:
+                raise NotImplementedError("Cannot gather from the end of a batch")
+            self.indices = np.where(
+                self.indices < 0, self.indices + inputs[0][self.axis], self.indices
+            )
 
-        output_shape = []
-        for index, dim in enumerate(self._input_shapes[0]):
-            if index == self.axis:
-                output_shape.append(len(self.indices))
-            else:
-                output_shape.append(dim)
+        output_shape = deepcopy(inputs[0])
+        output_shape[self.axis : self.axis + 1] = self.indices.shape
         self._output_shapes.append(output_shape)
 
     def forward(self, x):
@@ -762,7 +760,7 @@ class SplitNode(BaseNode):
         self.axis = self._attributes.get("axis", 0)
 
         if len(inputs) == 2:
-            self.num_or_size_splits = inputs[1]
+            self.num_or_size_splits = [int(size) for size in inputs[1]]
             for size_split in self.num_or_size_splits:
                 output_shape = deepcopy(self._input_shapes[0])
                 output_shape[self.axis] = size_split
@@ -770,7 +768,9 @@ class SplitNode(BaseNode):
         else:
             self.num_or_size_splits = len(node.output)
             output_shape = deepcopy(self._input_shapes[0])
-            output_shape[self.axis] /= self.num_or_size_splits
+            if output_shape[self.axis] % self.num_or_size_splits != 0:
+                raise NotImplementedError("Can only split into equal parts")
+            output_shape[self.axis] //= self.num_or_size_splits
             self._output_shapes = [output_shape for i in range(self.num_or_size_splits)]
 
     def forward(self, x):
@@ -840,12 +840,26 @@ class ReshapeNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        output_shape = list(inputs[1].numpy())
+        self.target_shape = [int(dim) for dim in inputs[1].numpy()]
+        output_shape = self._copy_dims(inputs[0])
+        if output_shape.count(-1) > 1:
+            # -1 for the batch and -1 for the rest of the elements
+            index = self.target_shape.index(-1)
+            output_shape[index] = 1
+            output_shape[index] = int(np.prod(inputs[0]) // np.prod(output_shape))
         self._output_shapes.append(output_shape)
 
+    def _copy_dims(self, input_shape):
+        if self._attributes.get("allowzero", 0):
+            return list(self.target_shape)
+        return [
+            int(input_shape[index]) if dim == 0 else dim
+            for index, dim in enumerate(self.target_shape)
+        ]
+
     def forward(self, x):
         x = x[0]
-        return [tfe.reshape(x, self._output_shapes[0])]
+        return [tfe.reshape(x, self._copy_dims(x.shape))]
 
     def backward(self, d_y):
         d_y = d_y[0]
@@ -860,7 +874,10 @@ class FlattenNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        last_dim = reduce(lambda x, y: x * y, list(inputs[0][1:]))
+        axis = self._attributes.get("axis", 1)
+        if axis not in (1, 1 - len(inputs[0])):
+            raise NotImplementedError("Only the batch dimension can be kept")
+        last_dim = reduce(lambda x, y: x * y, list(inputs[0][1:]), 1)
         self._output_shapes.append([-1, last_dim])
 
     def forward(self, x):
@@ -902,12 +919,9 @@ class ExpandDimsNode(BaseNode):
         self._input_shapes.append(inputs[0])
 
         self.axis = inputs[1].numpy().item()
-        output_shape = []
-        for index, dim in enumerate(inputs[0]):
-            if index == self.axis:
-                output_shape.append(1)
-            output_shape.append(dim)
-        self._output_shapes.append(deepcopy(output_shape))
+        output_shape = deepcopy(inputs[0])
+        output_shape.insert(self.axis % (len(inputs[0]) + 1), 1)
+        self._output_shapes.append(output_shape)
 
     def forward(self, x):
         return [tfe.expand_dims(x[0], axis=self.axis)]
@@ -925,7 +939,7 @@ class SqueezeNode(BaseNode):
         self._input_shapes.append(inputs[0])
 
         if len(inputs) == 2:
-            self.axes = list(inputs[1].numpy())
+            self.axes = [int(axis) % len(inputs[0]) for axis in inputs[1].numpy()]
         else:
             self.axes = None
 
@@ -951,13 +965,22 @@ class PadNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
+        if self._attributes.get("mode", b"constant") != b"constant" or (
+            len(inputs) > 2 and np.any(inputs[2].numpy() != 0)
+        ):
+            raise NotImplementedError("Can only pad with zeros")
+        if len(inputs) > 3:
+            raise NotImplementedError("Padding of selected axes is not supported")
         p = list(inputs[1].numpy())
+        if min(p) < 0:
+            raise NotImplementedError("Cannot pad by less than nothing")
         dims = len(p) // 2
         self.paddings_lst = [[p[i], p[i + dims]] for i in range(0, dims)]
 
         output_shape = deepcopy(self._input_shapes[0])
         for i in range(len(output_shape)):
-            output_shape[i] += self.paddings_lst[i][0] + self.paddings_lst[i][1]
+            if output_shape[i] != -1:
+                output_shape[i] += self.paddings_lst[i][0] + self.paddings_lst[i][1]
         self._output_shapes.append(output_shape)
 
     def forward(self, x):
-- 
2.43.0


From b6675bc65e890cd9c6ca60e8819b6ade3dcfc255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 75/81] fix: initializers of a converted model that are not
 stored as raw data

Also keep the caller's list of input shapes as it is.
---
 tf_encrypted/convert/convert.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/tf_encrypted/convert/convert.py b/tf_encrypted/convert/convert.py
index 704cb80..c96b70c 100644
--- a/tf_encrypted/convert/convert.py
+++ b/tf_encrypted/convert/convert.py
@@ -8,11 +8,10 @@ from typing import List
 from typing import Optional
 from typing import Union
 
-import numpy as np
 import onnx
 import tensorflow as tf
 import tf2onnx
-from onnx.mapping import TENSOR_TYPE_TO_NP_TYPE
+from onnx import numpy_helper
 from onnx.onnx_ml_pb2 import ModelProto
 from tf2onnx import optimizer
 
@@ -156,8 +155,7 @@ class Converter:
                 self._optimizer.compile(self.weights)
                 self.backward_func = self.backward_builder(optimizer=self._optimizer)
 
-        for input_shape in input_shapes:
-            input_shape[0] = -1
+        input_shapes = [[-1] + list(shape[1:]) for shape in input_shapes]
         initializers = self._build_initializer(model_proto)
         tfe_nodes, nodes_output = self._build_node(
             input_shapes, model_proto, initializers, model_provider
@@ -177,10 +175,7 @@ class Converter:
 
         for initializer in model_proto.graph.initializer:
             name = initializer.name
-            shape = initializer.dims
-            data_type = TENSOR_TYPE_TO_NP_TYPE[initializer.data_type]
-            data = np.frombuffer(initializer.raw_data, dtype=data_type)
-            data = data.reshape(shape)
+            data = numpy_helper.to_array(initializer)
             data = tf.convert_to_tensor(data)
             initializers[name] = data
         return initializers
-- 
2.43.0


From f3117d58a2e62b87e71b2b8754f05805b06a1487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:33 +0000
Subject: [PATCH 76/81] fix: nodes without a name were taken for each other in
 converted models

---
 tf_encrypted/convert/convert.py | 16 +++++++++++-----
 tf_encrypted/convert/nodes.py   |  4 ++--
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/tf_encrypted/convert/convert.py b/tf_encrypted/convert/convert.py
index c96b70c..e6027a7 100644
--- a/tf_encrypted/convert/convert.py
+++ b/tf_encrypted/convert/convert.py
@@ -27,6 +27,11 @@ from tf_encrypted.protocol.protocol import TFETensor
 from .nodes import build_node
 
 
+def scope_name(node, direction):
+    """Name scope for a node; its own name may be missing or start with a slash"""
+    return (node.name.lstrip("/") or node.op_type) + "/" + direction
+
+
 class Converter:
     """The TFE Converter.
 
@@ -200,7 +205,8 @@ class Converter:
                         "Node " + node.name + " input: " + input + " doesn't found!"
                     )
             tfe_node = build_node(node, inputs, model_providers)
-            tfe_nodes[node.name] = tfe_node
+            # names of nodes are optional, those of values are unique
+            tfe_nodes[node.output[0]] = tfe_node
             for index, output in enumerate(node.output):
                 input_shapes[output] = tfe_node.output_shape[index]
 
@@ -218,8 +224,8 @@ class Converter:
                 for input in node.input:
                     if input in node_outputs.keys():
                         inputs.append(node_outputs[input])
-                with tf.name_scope(node.name + "/forward"):
-                    res = tfe_nodes[node.name].forward(inputs)
+                with tf.name_scope(scope_name(node, "forward")):
+                    res = tfe_nodes[node.output[0]].forward(inputs)
                 for i, output in enumerate(node.output):
                     node_outputs[output] = res[i]
             res = []
@@ -239,11 +245,11 @@ class Converter:
                 dy_dict[output.name] = d_y[index]
             for node in reversed(nodes):
                 d_y = []
-                tfe_node = tfe_nodes[node.name]
+                tfe_node = tfe_nodes[node.output[0]]
                 for output in node.output:
                     d_y.append(dy_dict[output])
 
-                with tf.name_scope(node.name + "/backward"):
+                with tf.name_scope(scope_name(node, "backward")):
                     grad_weights, d_y = tfe_node.backward(d_y)
                     optimizer.apply_gradients(tfe_node.weights, grad_weights)
 
diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index 7e0f3d3..d2e04c5 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -171,8 +171,8 @@ class AddNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
         input_b = inputs[1]
-        self._output_shapes.append(broadcast_shape(inputs[0], input_b.shape.as_list()
-            if isinstance(input_b, tf.Tensor) else input_b))
+        shape_b = input_b.shape if isinstance(input_b, tf.Tensor) else input_b
+        self._output_shapes.append(broadcast_shape(inputs[0], shape_b))
         self.shapes = None
 
         if isinstance(input_b, tf.Tensor):
-- 
2.43.0


From 4f40f4c1af443b63a8fccfe09e32f38b5c7dddde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:27 +0000
Subject: [PATCH 77/81] fix: gradient of a converted concatenation of batches

---
 tf_encrypted/convert/nodes.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index d2e04c5..f7d23a5 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -790,14 +790,13 @@ class ConcatNode(BaseNode):
 
         self.axis = self._attributes["axis"]
         output_shape = deepcopy(inputs[0])
-        output_shape[self.axis] = 0
-        self.input_dims = []
-        for input_shape in inputs:
-            self.input_dims.append(input_shape[self.axis])
-            output_shape[self.axis] += input_shape[self.axis]
+        self.input_dims = [input_shape[self.axis] for input_shape in inputs]
+        if output_shape[self.axis] != -1:
+            output_shape[self.axis] = sum(self.input_dims)
         self._output_shapes.append(output_shape)
 
     def forward(self, x):
+        self.input_dims = [int(x_i.shape[self.axis]) for x_i in x]
         return [tfe.concat(x, axis=self.axis)]
 
     def backward(self, d_y):
-- 
2.43.0


From f11606e94fd50b28cdb6b4e9682077d2dfcc0769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:55 +0000
Subject: [PATCH 78/81] fix: Keras models of more than one input could not be
 converted

Every input was given the same name; tf.keras.load_model does not exist either.
---
 tf_encrypted/convert/convert.py | 38 +++++++++++++++------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/tf_encrypted/convert/convert.py b/tf_encrypted/convert/convert.py
index e6027a7..aa18abd 100644
--- a/tf_encrypted/convert/convert.py
+++ b/tf_encrypted/convert/convert.py
@@ -79,32 +79,14 @@ class Converter:
 
         if isinstance(model, str):
             if model.endswith(".pb"):
-                model = tf.keras.load_model(model)
-                input_spec = []
-                for input_shape in input_shapes:
-                    input_spec.append(
-                        tf.TensorSpec(input_shape, tf.float32, name="input")
-                    )
-                onnx_optimizers = optimizer._get_optimizers()
-                # uncomment this line to disable batchnorm fuse
-                # onnx_optimizers.pop("remove_back_to_back")
-                model_proto, _ = tf2onnx.convert.from_keras(
-                    model, input_signature=input_spec, optimizers=onnx_optimizers
-                )
+                model = tf.keras.models.load_model(model)
+                model_proto = self._from_keras(model, input_shapes)
             elif model.endswith(".onnx"):
                 model_proto = onnx.load(model)
             else:
                 raise ValueError("Don't konw model type " + model)
         elif isinstance(model, tf.keras.Model):
-            input_spec = []
-            for input_shape in input_shapes:
-                input_spec.append(tf.TensorSpec(input_shape, tf.float32, name="input"))
-            onnx_optimizers = optimizer._get_optimizers()
-            # uncomment this line to disable batchnorm fuse
-            # onnx_optimizers.pop("remove_back_to_back")
-            model_proto, _ = tf2onnx.convert.from_keras(
-                model, input_signature=input_spec, optimizers=onnx_optimizers
-            )
+            model_proto = self._from_keras(model, input_shapes)
         elif isinstance(model, ModelProto):
             model_proto = model
         else:
@@ -175,6 +157,20 @@ class Converter:
         model = DefinedModel(tfe_nodes, forward_func, backward_builder)
         return model
 
+    def _from_keras(self, model, input_shapes) -> ModelProto:
+        input_spec = []
+        for index, input_shape in enumerate(input_shapes):
+            # values of a graph are told apart by their names
+            name = "input" if index == 0 else "input_{}".format(index)
+            input_spec.append(tf.TensorSpec(input_shape, tf.float32, name=name))
+        onnx_optimizers = optimizer._get_optimizers()
+        # uncomment this line to disable batchnorm fuse
+        # onnx_optimizers.pop("remove_back_to_back")
+        model_proto, _ = tf2onnx.convert.from_keras(
+            model, input_signature=input_spec, optimizers=onnx_optimizers
+        )
+        return model_proto
+
     def _build_initializer(self, model_proto) -> None:
         initializers = {}
 
-- 
2.43.0


From 95ef0b917c1a92237df10d24a7518381b838b4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:32 +0000
Subject: [PATCH 79/81] fix: a tf.keras.Model could not be cloned

The shape of its input is told by an InputLayer, which was ignored.
---
 tf_encrypted/keras/models/sequential.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tf_encrypted/keras/models/sequential.py b/tf_encrypted/keras/models/sequential.py
index 65c43a5..e43d968 100644
--- a/tf_encrypted/keras/models/sequential.py
+++ b/tf_encrypted/keras/models/sequential.py
@@ -196,12 +196,20 @@ def model_from_config(config):
     """
 
     tfe_model = tfe.keras.Sequential([])
+    batch_input_shape = None
 
     for k_l_c in config["layers"]:
-        # [TODO] zjn: support InputLayer
-        if k_l_c["class_name"] != "InputLayer":
-            tfe_layer = _instantiate_tfe_layer(k_l_c)
-            tfe_model.add(tfe_layer)
+        if k_l_c["class_name"] == "InputLayer":
+            # only the first layer of a Sequential model tells its input shape
+            batch_input_shape = k_l_c["config"].get("batch_input_shape")
+            continue
+        if batch_input_shape is not None:
+            layer_config = dict(k_l_c["config"])
+            layer_config.setdefault("batch_input_shape", batch_input_shape)
+            k_l_c = dict(k_l_c, config=layer_config)
+            batch_input_shape = None
+        tfe_layer = _instantiate_tfe_layer(k_l_c)
+        tfe_model.add(tfe_layer)
 
     return tfe_model
 
-- 
2.43.0


From d7388b6124f5daefaed71e538ba035e0c44e7004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:15 +0000
Subject: [PATCH 80/81] fix: set_weights of a model without weights raised

---
 tf_encrypted/keras/models/sequential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/models/sequential.py b/tf_encrypted/keras/models/sequential.py
index e43d968..812d272 100644
--- a/tf_encrypted/keras/models/sequential.py
+++ b/tf_encrypted/keras/models/sequential.py
@@ -155,7 +155,7 @@ class Sequential(BaseModel):
           weights: A list of Numpy arrays with shapes and types
             matching the output of model.get_weights()
         """
-        if not isinstance(weights[0], list):
+        if len(weights) == 0 or not isinstance(weights[0], list):
             new_weights = []
             for layer in self.layers:
                 new_weights.append(weights[: len(layer.weights)])
-- 
2.43.0


From c1c7dff5b1c0b011dc2ecfa80414adf2bd9cff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:38 +0000
Subject: [PATCH 81/81] fix: cloning a model whose layers are not a sequence
 gave another model

---
 tf_encrypted/keras/models/sequential.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/tf_encrypted/keras/models/sequential.py b/tf_encrypted/keras/models/sequential.py
index 812d272..0539230 100644
--- a/tf_encrypted/keras/models/sequential.py
+++ b/tf_encrypted/keras/models/sequential.py
@@ -195,6 +195,8 @@ def model_from_config(config):
       A TFE Keras Sequential instance.
     """
 
+    _check_is_sequence(config)
+
     tfe_model = tfe.keras.Sequential([])
     batch_input_shape = None
 
@@ -214,6 +216,26 @@ def model_from_config(config):
     return tfe_model
 
 
+def _check_is_sequence(config):
+    """Refuse a functional model whose layers do not form a sequence."""
+    previous = None
+    for k_l_c in config["layers"]:
+        if "inbound_nodes" not in k_l_c:
+            return  # config of a Sequential model
+        nodes = k_l_c["inbound_nodes"]
+        if previous is None:
+            is_next = len(nodes) == 0
+        else:
+            is_next = (
+                len(nodes) == 1 and len(nodes[0]) == 1 and nodes[0][0][0] == previous
+            )
+        if not is_next:
+            raise ValueError("TF Encrypted can only clone a sequence of layers.")
+        previous = k_l_c["name"]
+    if [output[0] for output in config["output_layers"]] != [previous]:
+        raise ValueError("TF Encrypted can only clone a sequence of layers.")
+
+
 def clone_model(model):
     """Clone any tf.keras.Model into a tfe.keras.Sequenial model.
 
-- 
2.43.0

