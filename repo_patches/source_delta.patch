From 48c1f9309daa0eb23fae43047b076023e1d77c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:31:49 +0000
Subject: [PATCH 001/106] fix: make CMemory.multiply_ multiply when no mask is
 given

---
 src/evotorch/tools/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 21d81fe..9052ec4 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -656,7 +656,7 @@ class CMemory:
             if self._is_dtype_bool:
                 self._data[address] &= value
             else:
-                self._data[address] += value
+                self._data[address] *= value
         else:
             if self._is_dtype_bool:
                 self._data[address] &= do_where(
-- 
2.43.0


From 4dd4f02cfe714207b9ec925a35891c65b3a8ab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:31:49 +0000
Subject: [PATCH 002/106] fix: address each batch item separately when a
 CMemory has several batch dimensions

---
 src/evotorch/tools/structures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 9052ec4..6a477b7 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -418,7 +418,9 @@ class CMemory:
 
         self._for_all_batches = tuple(
             (
-                torch.arange(self._batch_shape[i], dtype=torch.int64, device=self._device)
+                torch.arange(self._batch_shape[i], dtype=torch.int64, device=self._device).reshape(
+                    (-1,) + tuple((1 for _ in range(self._batch_ndim - i - 1)))
+                )
                 for i in range(self._batch_ndim)
             )
         )
-- 
2.43.0


From d8d97e0f813d7eceab95d3d5a8875eba91dc8baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:31:49 +0000
Subject: [PATCH 003/106] fix: do not use the keys of masked-out batch items in
 CMemory

---
 src/evotorch/tools/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 6a477b7..2843342 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -458,9 +458,9 @@ class CMemory:
             min_key = (
                 torch.tensor(0, dtype=torch.int64, device=self._data.device) if self._min_key is None else self._min_key
             )
-            key = do_where(where, key, min_key.expand(expected_shape))
+            result = do_where(where, result, min_key.expand(expected_shape))
         if self._verify:
-            self._key_must_be_valid(key)
+            self._key_must_be_valid(result)
 
         return result
 
-- 
2.43.0


From ad0066dbaa71a0201b8a513e8c5e5e4a983c9992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:31:49 +0000
Subject: [PATCH 004/106] fix: initialize the key existence flags of CDict

---
 src/evotorch/tools/structures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 2843342..92f475c 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1203,6 +1203,7 @@ class CDict(Structure):
             batch_shape=batch_shape,
             dtype=torch.bool,
             device=device,
+            fill_with=False,
             verify=verify,
         )
 
-- 
2.43.0


From 55e3261277460f76a5732687f87e88ffc7518e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:32:10 +0000
Subject: [PATCH 005/106] fix: take the key offset into account for masked-out
 keys of an unverified CMemory

---
 src/evotorch/tools/structures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 92f475c..c93cdd6 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -456,7 +456,9 @@ class CMemory:
             raise RuntimeError(f"The key tensor has an incompatible shape: {key.shape}")
         if where is not None:
             min_key = (
-                torch.tensor(0, dtype=torch.int64, device=self._data.device) if self._min_key is None else self._min_key
+                torch.tensor(0, dtype=torch.int64, device=self._data.device)
+                if self._key_offset is None
+                else self._key_offset
             )
             result = do_where(where, result, min_key.expand(expected_shape))
         if self._verify:
-- 
2.43.0


From b07d3d949fa919bffcae6a4008b585b3274571da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:32:10 +0000
Subject: [PATCH 006/106] fix: make Structure.is_batched work on CDict, CList
 and CBag

---
 src/evotorch/tools/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index c93cdd6..6be6625 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -837,7 +837,7 @@ class Structure:
         """
         True if this structure is batched; False otherwise.
         """
-        return self._batch_ndim > 0
+        return self.batch_ndim > 0
 
     @property
     def dtype(self) -> torch.dtype:
-- 
2.43.0


From 39567cb2bd42664f7354bb47b5a77b580c214040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:32:10 +0000
Subject: [PATCH 007/106] fix: make the masked clear of CDict and CList work

---
 src/evotorch/tools/structures.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 6be6625..91f3107 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1367,7 +1367,7 @@ class CDict(Structure):
             self._exist.data[:] = False
         else:
             where = self._get_where(where)
-            all_false = torch.tensor(False, dtype=torch.bool, device=self._exist.device).expand(self._exist.shape)
+            all_false = torch.tensor(False, dtype=torch.bool, device=self._exist.device).expand(self._exist.data.shape)
             self._exist.data[:] = do_where(where, all_false, self._exist.data[:])
 
     @property
@@ -1995,7 +1995,9 @@ class CList(Structure):
             self._end.data[:] = -1
         else:
             where = self._get_where(where)
-            all_minus_ones = torch.tensor(-1, dtype=torch.int64, device=self._begin.device).expand(self._begin.shape)
+            all_minus_ones = torch.tensor(-1, dtype=torch.int64, device=self._begin.device).expand(
+                self._begin.data.shape
+            )
             self._begin.data[:] = do_where(where, all_minus_ones, self._begin.data)
             self._end.data[:] = do_where(where, all_minus_ones, self._end.data)
 
-- 
2.43.0


From 69005242968ea276d81552d1fba9787053332e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:32:10 +0000
Subject: [PATCH 008/106] fix: do not report an empty CList of maximum length 1
 as full

---
 src/evotorch/tools/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 91f3107..ac03fae 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1644,7 +1644,7 @@ class CList(Structure):
     def _is_full(self) -> torch.Tensor:
         begin = self._begin[self._all_zeros]
         end = self._end[self._all_zeros]
-        return ((end - begin) % self._max_length) == (self._max_length - 1)
+        return (begin >= 0) & (((end - begin) % self._max_length) == (self._max_length - 1))
 
     @staticmethod
     def _considering_where(other_mask: torch.Tensor, where: Optional[torch.Tensor]) -> torch.Tensor:
-- 
2.43.0


From 13c85b4d49c33bcc29488bed308a44b2c8521f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:32:10 +0000
Subject: [PATCH 009/106] fix: reject CList indices that wrap around the
 storage

---
 src/evotorch/tools/structures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index ac03fae..575f18e 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1757,7 +1757,8 @@ class CList(Structure):
         underlying_key = self._mod_underlying_key(underlying_key, verify=verify)
 
         if verify or return_validity:
-            valid = self._is_underlying_key_valid(underlying_key)
+            within_max_length = (key >= -self._max_length) & (key < self._max_length)
+            valid = within_max_length & self._is_underlying_key_valid(underlying_key)
         else:
             valid = None
 
-- 
2.43.0


From c7fe08b012d651a3603c2f8590dbf7935f62dca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:32:10 +0000
Subject: [PATCH 010/106] fix: keep the items of a CBag intact while shuffling

---
 src/evotorch/tools/structures.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 575f18e..2288bf3 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -2386,10 +2386,7 @@ class CBag(Structure):
         self._choice_count = self._high_item - self._low_item
         self._bignum = self._choice_count + 1
 
-        if self._low_item < 1:
-            self._shift = 1 - self._low_item
-        else:
-            self._shift = 0
+        self._shift = 1 - self._low_item
 
         self._empty = self._low_item - 1
         self._data.data[:] = self._empty
@@ -2412,18 +2409,14 @@ class CBag(Structure):
     def _shuffle(self):
         dtype = self._data.dtype
         device = self._data.device
-        nrows, ncols = self._data.data.shape
-
-        try:
-            gaussian_noise = torch.randn(nrows, ncols, dtype=torch.float32, device=device, **(self._gen_kwargs))
-            noise = gaussian_noise.argsort().to(dtype=dtype) * self._bignum
-            self._data.data[:] += torch.where(
-                self._data.data != self._empty, self._shift + noise, torch.tensor(0, dtype=dtype, device=device)
-            )
-            self._data.data[:] = self._data.data.sort(dim=-1, descending=True, stable=False).values
-        finally:
-            self._data.data[:] %= self._bignum
-            self._data.data[:] -= self._shift
+        # The shuffling is done with int64 so that the noise does not overflow.
+        # Shifted this way, 0 stands for an empty slot, and each stored item is in the interval [1, bignum).
+        items = self._data.data.to(dtype=torch.int64) + self._shift
+        gaussian_noise = torch.randn(items.shape, dtype=torch.float32, device=device, **(self._gen_kwargs))
+        noise = gaussian_noise.argsort() * self._bignum
+        items = torch.where(items != 0, items + noise, items)
+        items = items.sort(dim=-1, descending=True, stable=False).values
+        self._data.data[:] = ((items % self._bignum) - self._shift).to(dtype=dtype)
 
     def pop_(self, where: Optional[Numbers] = None) -> torch.Tensor:
         """
-- 
2.43.0


From 9a755ba9eff3f135a0d7ff762220f5ef9724a1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:37:57 +0000
Subject: [PATCH 011/106] fix: validate the values assigned to the parameter
 group of ClipUp

---
 src/evotorch/optimizers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/optimizers.py b/src/evotorch/optimizers.py
index 8f2276c..25f8b0c 100644
--- a/src/evotorch/optimizers.py
+++ b/src/evotorch/optimizers.py
@@ -398,11 +398,11 @@ class ClipUpParameterGroup(Mapping):
     def __setitem__(self, key: str, value: float):
         attrname = ClipUp._param_group_items[key]
         value = float(value)
-        if attrname in ClipUp._param_group_item_lb:
+        if key in ClipUp._param_group_item_lb:
             lb = ClipUp._param_group_item_lb[key]
             if value < lb:
                 raise ValueError(f"Invalid value for {repr(key)}: {value}")
-        if attrname in ClipUp._param_group_item_ub:
+        if key in ClipUp._param_group_item_ub:
             ub = ClipUp._param_group_item_ub[key]
             if value > ub:
                 raise ValueError(f"Invalid value for {repr(key)}: {value}")
-- 
2.43.0


From 36f7a6d47b5fa043ee1261ba2d004ed8a147f151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:37:57 +0000
Subject: [PATCH 012/106] fix: let ClipUp handle a zero gradient instead of
 producing NaN

---
 src/evotorch/algorithms/functional/funcclipup.py | 4 +++-
 src/evotorch/optimizers.py                       | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/algorithms/functional/funcclipup.py b/src/evotorch/algorithms/functional/funcclipup.py
index 3503299..1750f36 100644
--- a/src/evotorch/algorithms/functional/funcclipup.py
+++ b/src/evotorch/algorithms/functional/funcclipup.py
@@ -100,7 +100,9 @@ def _clipup_step(
     momentum: torch.Tensor,
     max_speed: torch.Tensor,
 ) -> tuple:
-    velocity = (momentum * velocity) + (center_learning_rate * (g / torch.norm(g)))
+    gnorm = torch.norm(g)
+    normalized_g = torch.where(gnorm == 0, g, g / gnorm)
+    velocity = (momentum * velocity) + (center_learning_rate * normalized_g)
     vnorm = torch.norm(velocity)
     must_clip = (vnorm > max_speed).expand(velocity.shape)
     velocity = torch.where(must_clip, max_speed * (velocity / vnorm), velocity)
diff --git a/src/evotorch/optimizers.py b/src/evotorch/optimizers.py
index 25f8b0c..c33e621 100644
--- a/src/evotorch/optimizers.py
+++ b/src/evotorch/optimizers.py
@@ -345,7 +345,8 @@ class ClipUp:
             about=f"{type(self).__name__}.ascent",
         )
 
-        grad = (globalg / torch.norm(globalg)) * self._stepsize
+        gnorm = torch.norm(globalg)
+        grad = (globalg if gnorm == 0 else (globalg / gnorm)) * self._stepsize
 
         self._velocity = self._clip((self._momentum * self._velocity) + grad, self._max_speed)
 
-- 
2.43.0


From 4fe5b1c6e26c54198f5437fa4605995ce8d6b79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:37:57 +0000
Subject: [PATCH 013/106] fix: do not let RunningNorm share memory with the
 observation it was given

---
 src/evotorch/neuroevolution/net/runningnorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index dae84b8..02415db 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -322,7 +322,7 @@ class RunningNorm:
                 # the sum of observations extracted from x is x itself,
                 # and the sum of squared observations extracted from x is
                 # the square of x itself.
-                sum_of_x = x
+                sum_of_x = x.clone()
                 sum_of_x_squared = x.square()
                 # We extracted a single observation from x
                 n = 1
-- 
2.43.0


From e8daa0c6c1be1ceef097076db6de0a4f0a4ce5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:38:06 +0000
Subject: [PATCH 014/106] fix: ignore masked-out observations of RunningNorm
 even if they are not finite

---
 src/evotorch/neuroevolution/net/runningnorm.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index 02415db..a3f0088 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -358,14 +358,12 @@ class RunningNorm:
                     # This integer gives us how many observations we extract from x.
                     n = int(torch.sum(torch.as_tensor(mask, dtype=torch.int64, device=self._device)))
 
-                    # We now re-cast the mask as the observation dtype (so that True items turn to 1.0
-                    # and False items turn to 0.0), and then increase its number of dimensions so that
-                    # it can operate directly with x.
-                    mask = self._like_its_own(mask).reshape(torch.Size([x.shape[0]] + ([1] * (x.ndim - 1))))
-
-                    # Finally, we multiply x with the mask. This means that the observations with corresponding
-                    # mask values as False are zeroed out.
-                    x = x * mask
+                    # We now increase the number of dimensions of the mask so that it can operate directly with x.
+                    mask = mask.reshape(torch.Size([x.shape[0]] + ([1] * (x.ndim - 1))))
+
+                    # Finally, the observations with corresponding mask values as False are zeroed out,
+                    # even if they contain NaN or infinite values.
+                    x = torch.where(mask, x, torch.zeros_like(x))
                 else:
                     # This is the case where we did not receive a mask.
                     # We can simply say that the number of observations to extract from x
-- 
2.43.0


From ef9a2b5b2d0b5317c93de79341f7cc224fb2a9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:38:12 +0000
Subject: [PATCH 015/106] fix: keep RunningNorm valid when an update accepts no
 observation

---
 src/evotorch/neuroevolution/net/runningnorm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index a3f0088..29130a4 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -386,7 +386,10 @@ class RunningNorm:
             # (sum of all squared observations), and n (number of observations extracted
             # from x).
 
-            if self._has_no_data():
+            if n == 0:
+                # No observation was extracted from x, therefore there is nothing to update.
+                pass
+            elif self._has_no_data():
                 # If our RunningNorm is empty, the observation data we extracted from x
                 # become our RunningNorm's new data.
                 self._sum = sum_of_x
-- 
2.43.0


From 2b9e69e75cfbfb6e53a7c206ef8d3eae48706ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:38:26 +0000
Subject: [PATCH 016/106] fix: consider only the batchable arguments when
 expects_ndim converts a scalar

---
 src/evotorch/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/decorators.py b/src/evotorch/decorators.py
index d8e40c0..9e75f15 100644
--- a/src/evotorch/decorators.py
+++ b/src/evotorch/decorators.py
@@ -712,7 +712,7 @@ def expects_ndim(  # noqa: C901
                         cls.encountered_dtypes = set()
                         cls.encountered_devices = set()
                         for expected_arg_ndim, arg in zip(expected_ndims, args):
-                            if (expected_arg_ndims is not None) and isinstance(arg, torch.Tensor):
+                            if (expected_arg_ndim is not None) and isinstance(arg, torch.Tensor):
                                 # If the argument has a declared expected ndim, and also if it is a PyTorch tensor,
                                 # then we add its dtype and device information to the sets `encountered_dtypes` and
                                 # `encountered_devices`.
-- 
2.43.0


From e3ba3bc9e93dda1a0a7394929b4d01e2150aa03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:45:40 +0000
Subject: [PATCH 017/106] fix: raise the error about the invalid device of an
 ObjectArray instead of returning it

---
 src/evotorch/tools/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index d219d38..357f414 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -1243,7 +1243,7 @@ def make_empty(
                 size = size[0]
             return ObjectArray(size)
         else:
-            return ValueError(
+            raise ValueError(
                 f"Invalid device for ObjectArray: {repr(device)}. Note: an ObjectArray can only be stored on 'cpu'."
             )
     else:
-- 
2.43.0


From 036901558fa0aec0be045fa274ca37913cf0a2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:45:40 +0000
Subject: [PATCH 018/106] fix: accept the dtype as a string in make_uniform,
 make_gaussian and make_randint

---
 src/evotorch/tools/misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index 357f414..ab08f6a 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -1280,6 +1280,7 @@ def _out_tensor_for_random_operation(
     device: Optional[Device] = None,
 ) -> torch.Tensor:
     if out is None:
+        dtype = None if dtype is None else to_torch_dtype(dtype)
         out = torch.empty(tuple(), dtype=dtype, device=device).expand(*size)
         out = out + make_batched_false_for_vmap(out.device)
     else:
-- 
2.43.0


From 0dbf8aedc93559d23982223aabcbd9e8ae0eaa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:47:31 +0000
Subject: [PATCH 019/106] fix: keep uniformly sampled values of small integer
 types within their bounds

---
 src/evotorch/tools/misc.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index ab08f6a..2ef39bc 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -1632,15 +1632,17 @@ def make_uniform(
         else:
             _invalid_bound_args()
     elif out.dtype in (torch.uint8, torch.int8, torch.int16, torch.int32, torch.int64):
-        out.random_(**gen_kwargs)
         if (lb is None) and (ub is None):
+            out.random_(**gen_kwargs)
             out %= 2
         elif (lb is not None) and (ub is not None):
             _cast_bounds()
+            # The computation is done with int64, so that smaller integer types do not overflow.
+            lb = lb.to(dtype=torch.int64)
+            ub = ub.to(dtype=torch.int64)
             diff = (ub - lb) + 1
-            out -= lb
-            out %= diff
-            out += lb
+            samples = torch.zeros_like(out, dtype=torch.int64).random_(**gen_kwargs)
+            out.copy_(((samples - lb) % diff) + lb)
         else:
             _invalid_bound_args()
     else:
-- 
2.43.0


From 7cf17adf932f0a97f85fa8e2779c5f72ef6198ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:50:07 +0000
Subject: [PATCH 020/106] fix: let make_randint of problems accept
 use_eval_dtype

---
 src/evotorch/tools/tensormaker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/tensormaker.py b/src/evotorch/tools/tensormaker.py
index fcf8d17..cde7a5c 100644
--- a/src/evotorch/tools/tensormaker.py
+++ b/src/evotorch/tools/tensormaker.py
@@ -736,7 +736,7 @@ class TensorMakerMixin:
             distributed values.
         """
 
-        if (dtype is None) and (out is None):
+        if (dtype is None) and (out is None) and (not use_eval_dtype):
             dtype = torch.int64
 
         args, kwargs = self.__get_all_args_for_random_maker(
-- 
2.43.0


From 8449df64ca91b368d9a6629d5a366820d21cc75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:52:47 +0000
Subject: [PATCH 021/106] fix: make crowd-sort ranks actual ranks

---
 src/evotorch/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index e2b4324..fbe9b08 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -3527,7 +3527,7 @@ def _compute_pareto_ranks(utils: torch.Tensor, crowdsort: bool) -> Tuple[torch.T
         if crowdsort:
             crowdsort_distances = _crowding_distance_assignment(utils[new_non_dominated])
             # Note the descending sort -- we want to maximize distances
-            crowdsort_ranks[new_non_dominated] = torch.argsort(crowdsort_distances, descending=True)
+            crowdsort_ranks[new_non_dominated] = torch.argsort(torch.argsort(crowdsort_distances, descending=True))
 
         # Update the number of dominations for remaining solutions by removing any domination counts introduce by the solutions we just sorted
         n_dominations += -dominated_matrix[:, new_non_dominated].sum(dim=-1)
@@ -3564,7 +3564,7 @@ def _pareto_sort(utils: torch.Tensor, crowdsort: bool) -> Tuple[List[torch.Tenso
         # Sort according to crowdsort_ranks if crowdsort
         if crowdsort:
             front_crowdsort_ranks = crowdsort_ranks[front]
-            front = front[front_crowdsort_ranks]
+            front = front[torch.argsort(front_crowdsort_ranks)]
 
         fronts.append(front)
     return fronts, ranks
-- 
2.43.0


From c6e5c91dc1b76a4462588c3a08afc851bd0678a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:52:47 +0000
Subject: [PATCH 022/106] fix: reject the solution index that is one past the
 end of a batch

---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index fbe9b08..8afd854 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -4759,7 +4759,7 @@ class Solution(Serializable):
         index = int(index)
         if index < 0:
             index = len(parent) + index
-        if not ((index >= 0) and (index <= len(parent))):
+        if not ((index >= 0) and (index < len(parent))):
             raise IndexError(f"Invalid index: {index}")
         self._batch: SolutionBatch = parent[index : index + 1]
 
-- 
2.43.0


From 529b97cfdbe9d452b0417468b7d769d47ed962ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:52:47 +0000
Subject: [PATCH 023/106] fix: reject the objective index that is one past the
 last objective

---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 8afd854..316bf99 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -3790,7 +3790,7 @@ class SolutionBatch(Serializable):
         if i < 0:
             i = self._num_objs + i
 
-        if (i < 0) or (i > (self._num_objs)):
+        if (i < 0) or (i >= (self._num_objs)):
             raise IndexError(f"Invalid objective index: {org_i}")
 
         return i
-- 
2.43.0


From 16a04aed6bfd57016218e616f06e011c497d3ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:52:47 +0000
Subject: [PATCH 024/106] fix: validate the objective sense of single-objective
 problems

---
 src/evotorch/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 316bf99..d3f5540 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -1166,6 +1166,7 @@ class Problem(TensorMakerMixin, Serializable):
 
         if not is_sequence(objective_sense):
             # If the provided objective sense is not a sequence, then convert it to a single-element list
+            validate_sense(objective_sense)
             senses = [objective_sense]
             num_senses = 1
         else:
-- 
2.43.0


From 0fe4eeae4ec52113661c1c984750006772aec10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:52:47 +0000
Subject: [PATCH 025/106] fix: fill a new batch made like another one by using
 the problem

---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index d3f5540..31968cc 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -3696,7 +3696,7 @@ class SolutionBatch(Serializable):
             self._num_objs = like._num_objs
 
             if not _opt_bool(empty, default=False):
-                self._fill_via_problem(problem)
+                self._data[:] = problem.generate_values(len(self._data))
         elif merging_of is not None:
             expect_none(
                 "While making a new SolutionBatch via merging",
-- 
2.43.0


From 51c3858b01674ceac27324dd335e02cbfb947fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:52:47 +0000
Subject: [PATCH 026/106] fix: let kill_actors be called when there are no
 actors

---
 src/evotorch/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 31968cc..6d03c97 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2123,8 +2123,9 @@ class Problem(TensorMakerMixin, Serializable):
                 " Problem instance."
                 " However, this Problem instance is on a remote actor."
             )
-        for actor in self._actors:
-            ray.kill(actor)
+        if self._actors is not None:
+            for actor in self._actors:
+                ray.kill(actor)
         self._actors = None
         self._actor_pool = None
 
-- 
2.43.0


From 7102e9ce9f87369e5cf99d25e4f8351b97c0327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:53:03 +0000
Subject: [PATCH 027/106] fix: record the best and worst solutions when the
 first fitnesses are not finite

---
 src/evotorch/core.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 6d03c97..77a563f 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2340,17 +2340,9 @@ class Problem(TensorMakerMixin, Serializable):
         nobjs = len(senses)
 
         if self._best is None:
-            self._best_evals = self.make_empty(nobjs, device=batch.device, use_eval_dtype=True)
-            self._worst_evals = self.make_empty(nobjs, device=batch.device, use_eval_dtype=True)
-            for i_obj in range(nobjs):
-                if senses[i_obj] == "min":
-                    self._best_evals[i_obj] = float("inf")
-                    self._worst_evals[i_obj] = float("-inf")
-                elif senses[i_obj] == "max":
-                    self._best_evals[i_obj] = float("-inf")
-                    self._worst_evals[i_obj] = float("inf")
-                else:
-                    raise ValueError(f"Invalid sense: {senses[i_obj]}")
+            # NaN marks that no evaluation result is recorded yet
+            self._best_evals = self.make_nan(nobjs, device=batch.device, use_eval_dtype=True)
+            self._worst_evals = self.make_nan(nobjs, device=batch.device, use_eval_dtype=True)
             self._best = [None] * nobjs
             self._worst = [None] * nobjs
 
@@ -2379,10 +2371,10 @@ class Problem(TensorMakerMixin, Serializable):
             scores = batch.access_evals(i_obj)
             best_score = scores[best_sln_index]
             worst_score = scores[worst_sln_index]
-            if first_is_better(best_score, self._best_evals[i_obj], i_obj):
+            if torch.isnan(self._best_evals[i_obj]) or first_is_better(best_score, self._best_evals[i_obj], i_obj):
                 self._best_evals[i_obj] = best_score
                 self._best[i_obj] = batch[best_sln_index].clone()
-            if first_is_worse(worst_score, self._worst_evals[i_obj], i_obj):
+            if torch.isnan(self._worst_evals[i_obj]) or first_is_worse(worst_score, self._worst_evals[i_obj], i_obj):
                 self._worst_evals[i_obj] = worst_score
                 self._worst[i_obj] = batch[worst_sln_index].clone()
 
-- 
2.43.0


From 6a8f1dced9f976a7de67f324a7886aad219d120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:53:03 +0000
Subject: [PATCH 028/106] fix: do not let NaN fitnesses hide the best and worst
 solutions

---
 src/evotorch/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 77a563f..73b70f6 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -3902,7 +3902,9 @@ class SolutionBatch(Serializable):
         obj_index = self._optionally_get_obj_index(obj_index)
         descending = self._descending[obj_index]
         argf = torch.argmax if descending else torch.argmin
-        return argf(self._evdata[:, obj_index])
+        evals = self._evdata[:, obj_index]
+        # Solutions without an evaluation result (i.e. NaNs) are never preferred over the evaluated ones
+        return argf(torch.where(torch.isnan(evals), float("-inf") if descending else float("inf"), evals))
 
     @torch.no_grad()
     def argworst(self, obj_index: Optional[int] = None) -> torch.Tensor:
@@ -3918,7 +3920,9 @@ class SolutionBatch(Serializable):
         obj_index = self._optionally_get_obj_index(obj_index)
         descending = self._descending[obj_index]
         argf = torch.argmin if descending else torch.argmax
-        return argf(self._evdata[:, obj_index])
+        evals = self._evdata[:, obj_index]
+        # Solutions without an evaluation result (i.e. NaNs) are never preferred over the evaluated ones
+        return argf(torch.where(torch.isnan(evals), float("inf") if descending else float("-inf"), evals))
 
     def _get_objective_sign(self, i_obj: int) -> float:
         if self._descending[i_obj]:
-- 
2.43.0


From efd3464deb1b7ab4fe1ba3eea99354a68d581c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:00:48 +0000
Subject: [PATCH 029/106] fix: allow unpickling of immutable sets

---
 src/evotorch/tools/immutable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/immutable.py b/src/evotorch/tools/immutable.py
index cccf530..6445c68 100644
--- a/src/evotorch/tools/immutable.py
+++ b/src/evotorch/tools/immutable.py
@@ -137,7 +137,7 @@ class ImmutableContainer(ReadOnlyClonable, RecursivePrintable):
         # Since we are dealing with immutable containers here, we need to forcefully make all numpy arrays read-only.
         if isinstance(self, Mapping):
             all_values = self.values()
-        elif isinstance(self, Sequence):
+        elif isinstance(self, (Sequence, Set)):
             all_values = self
         else:
             raise NotImplementedError
-- 
2.43.0


From 48199d7ea844186d062c90bf2dd2d893fe192a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:00:48 +0000
Subject: [PATCH 030/106] fix: allow storing an ObjectArray inside another
 ObjectArray

---
 src/evotorch/tools/immutable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/immutable.py b/src/evotorch/tools/immutable.py
index 6445c68..d38eb76 100644
--- a/src/evotorch/tools/immutable.py
+++ b/src/evotorch/tools/immutable.py
@@ -66,7 +66,7 @@ def as_immutable(x: Any, *, memo: Optional[dict] = None) -> Any:
     elif isinstance(x, torch.Tensor):
         result = x.clone().as_subclass(ReadOnlyTensor)
     elif isinstance(x, ObjectArray):
-        result = x.clone().get_read_only_view()
+        result = x.clone(preserve_read_only=True).get_read_only_view()
     elif isinstance(x, np.ndarray):
         if _numpy_array_stores_objects(x):
             result = ObjectArray(len(x))
-- 
2.43.0


From b35395cf7a6e5d3b3b99fd0343567dedf4e35736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:00:48 +0000
Subject: [PATCH 031/106] fix: allow sets of tuples as immutable sets

---
 src/evotorch/tools/immutable.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/immutable.py b/src/evotorch/tools/immutable.py
index d38eb76..7eb1902 100644
--- a/src/evotorch/tools/immutable.py
+++ b/src/evotorch/tools/immutable.py
@@ -183,6 +183,9 @@ class ImmutableSequence(ImmutableContainer, Sequence):
     def __ne__(self, other: Iterable) -> bool:
         return not self.__eq__(other)
 
+    def __hash__(self) -> int:
+        return hash(tuple(self))
+
 
 class ImmutableList(ImmutableSequence):
     def _get_mutable_clone(self, *, memo: dict) -> list:
@@ -193,6 +196,11 @@ class ImmutableList(ImmutableSequence):
         return result
 
 
+def _hashable_copy(x: Any) -> Any:
+    # Make a copy of an element of an ImmutableSet, in such a way that it can be an element of a regular set
+    return tuple([_hashable_copy(item) for item in x]) if isinstance(x, ImmutableSequence) else mutable_copy(x)
+
+
 class ImmutableSet(ImmutableContainer, Set):
     def __init__(self, x: Iterable, *, memo: Optional[dict] = None):
         if memo is None:
@@ -214,7 +222,7 @@ class ImmutableSet(ImmutableContainer, Set):
         result = set()
         memo[id(self)] = result
         for x in self:
-            result.add(mutable_copy(x, memo=memo))
+            result.add(_hashable_copy(x))
         return result
 
 
-- 
2.43.0


From 71496b589a85bae1abeaa780a855da49c987f9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:00:48 +0000
Subject: [PATCH 032/106] fix: let ObjectArray.repeat accept an integer

---
 src/evotorch/tools/objectarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/objectarray.py b/src/evotorch/tools/objectarray.py
index b958951..7b4e70f 100644
--- a/src/evotorch/tools/objectarray.py
+++ b/src/evotorch/tools/objectarray.py
@@ -284,7 +284,7 @@ class ObjectArray(Sequence, RecursivePrintable):
                     f" This is because {type_name} supports only 1-dimensional storage."
                     f" The received size tuple is: {sizes}."
                 )
-        num_repetitions = int(sizes[0])
+        num_repetitions = int(sizes[0]) if is_sequence(sizes) else int(sizes)
         self_length = len(self)
         result = ObjectArray(num_repetitions * self_length)
 
-- 
2.43.0


From 4ae3163d40d022908bc52d7393dfb006b0714bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:00:48 +0000
Subject: [PATCH 033/106] fix: keep copies of read-only ObjectArrays read-only
 when requested

---
 src/evotorch/tools/objectarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evotorch/tools/objectarray.py b/src/evotorch/tools/objectarray.py
index 7b4e70f..90aeff6 100644
--- a/src/evotorch/tools/objectarray.py
+++ b/src/evotorch/tools/objectarray.py
@@ -435,6 +435,8 @@ class ObjectArray(Sequence, RecursivePrintable):
             for i, item in enumerate(self):
                 result[i] = deep_clone(item, otherwise_deepcopy=True, memo=memo)
 
+            result._read_only = self._read_only
+
             return result
 
     def __copy__(self) -> "ObjectArray":
-- 
2.43.0


From f0c7181463766e84d3d836a3640e1abe2672bb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:00:49 +0000
Subject: [PATCH 034/106] fix: keep slices of read-only ObjectArrays read-only

---
 src/evotorch/tools/objectarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/objectarray.py b/src/evotorch/tools/objectarray.py
index 90aeff6..cc71e4b 100644
--- a/src/evotorch/tools/objectarray.py
+++ b/src/evotorch/tools/objectarray.py
@@ -198,7 +198,7 @@ class ObjectArray(Sequence, RecursivePrintable):
                 self._objects = clone(self._objects)
 
         self._device = torch.device("cpu")
-        self._read_only = False
+        self._read_only = False if slice_of is None else source._read_only
 
     @property
     def shape(self) -> Size:
-- 
2.43.0


From a80099b5d8efa1227d8bbd7dc7feadfc8bbaa3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:00:49 +0000
Subject: [PATCH 035/106] fix: reject read-only tensors within tuples of out
 arguments

---
 src/evotorch/tools/readonlytensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/readonlytensor.py b/src/evotorch/tools/readonlytensor.py
index 253c47e..f9d0e66 100644
--- a/src/evotorch/tools/readonlytensor.py
+++ b/src/evotorch/tools/readonlytensor.py
@@ -131,7 +131,8 @@ class ReadOnlyTensor(torch.Tensor):
     @classmethod
     def __torch_function__(cls, func: Callable, types: Iterable, args: tuple = (), kwargs: Optional[Mapping] = None):
         if (kwargs is not None) and ("out" in kwargs):
-            if isinstance(kwargs["out"], ReadOnlyTensor):
+            out = kwargs["out"]
+            if any(isinstance(x, ReadOnlyTensor) for x in (out if isinstance(out, (tuple, list)) else [out])):
                 raise TypeError(
                     f"The `out` keyword argument passed to {func} is a ReadOnlyTensor."
                     f" A ReadOnlyTensor explicitly fails when referenced via the `out` keyword argument of any torch"
-- 
2.43.0


From 0c21cd1e0f496958d1a37f2198b53f28fe81fda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:00:49 +0000
Subject: [PATCH 036/106] fix: reject in-place torch functions on read-only
 tensors

---
 src/evotorch/tools/readonlytensor.py | 32 ++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/evotorch/tools/readonlytensor.py b/src/evotorch/tools/readonlytensor.py
index f9d0e66..cd0271e 100644
--- a/src/evotorch/tools/readonlytensor.py
+++ b/src/evotorch/tools/readonlytensor.py
@@ -24,6 +24,34 @@ from packaging.version import Version
 _torch_older_than_1_12 = Version(torch.__version__) < Version("1.12")
 
 
+_inplace_special_methods = {
+    "__setitem__",
+    "__iadd__",
+    "__iand__",
+    "__idiv__",
+    "__ifloordiv__",
+    "__ilshift__",
+    "__imod__",
+    "__imul__",
+    "__ior__",
+    "__ipow__",
+    "__irshift__",
+    "__isub__",
+    "__itruediv__",
+    "__ixor__",
+}
+
+
+def _is_inplace_call(func: Callable, kwargs: Optional[Mapping]) -> bool:
+    # Following the PyTorch convention, names of the functions which modify their first arguments end with "_"
+    name = getattr(func, "__name__", "")
+    return (
+        (name.endswith("_") and (not name.endswith("__")))
+        or (name in _inplace_special_methods)
+        or ((kwargs is not None) and bool(kwargs.get("inplace", False)))
+    )
+
+
 class ReadOnlyTensor(torch.Tensor):
     """
     A special type of tensor which is read-only.
@@ -140,6 +168,10 @@ class ReadOnlyTensor(torch.Tensor):
                     f" This restriction is for making sure that the torch operations which could normally do in-place"
                     f" modifications do not operate on ReadOnlyTensor instances."
                 )
+        if _is_inplace_call(func, kwargs) and (len(args) > 0):
+            target = args[0]
+            if any(isinstance(x, ReadOnlyTensor) for x in (target if isinstance(target, (tuple, list)) else [target])):
+                raise TypeError(f"The contents of a ReadOnlyTensor cannot be modified (attempted operation: {func})")
         return super().__torch_function__(func, types, args, kwargs)
 
 
-- 
2.43.0


From 5f731e1f582116456a90a26fd60d2cc0916eaac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:00:49 +0000
Subject: [PATCH 037/106] fix: do not share the memory of read-only tensors via
 dlpack

---
 src/evotorch/tools/readonlytensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evotorch/tools/readonlytensor.py b/src/evotorch/tools/readonlytensor.py
index cd0271e..90e68d1 100644
--- a/src/evotorch/tools/readonlytensor.py
+++ b/src/evotorch/tools/readonlytensor.py
@@ -150,6 +150,10 @@ class ReadOnlyTensor(torch.Tensor):
         arr.flags["WRITEABLE"] = False
         return arr
 
+    def __dlpack__(self, *args, **kwargs):
+        # The consumer of the capsule could modify its memory, therefore, we share a copy
+        return self.clone().__dlpack__(*args, **kwargs)
+
     def __copy__(self):
         return self.clone(preserve_read_only=True)
 
-- 
2.43.0


From 55c0f9150e7b78fd710d59359db5d67e8ae2d1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:05:41 +0000
Subject: [PATCH 038/106] fix: protect read-only arguments of rowwise and
 expects_ndim functions

---
 src/evotorch/decorators.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/decorators.py b/src/evotorch/decorators.py
index 9e75f15..26076d8 100644
--- a/src/evotorch/decorators.py
+++ b/src/evotorch/decorators.py
@@ -20,7 +20,7 @@ from typing import Callable, Iterable, Optional, Union
 import numpy as np
 import torch
 
-from .tools import Device
+from .tools import Device, ReadOnlyTensor
 
 try:
     from torch.func import vmap
@@ -816,6 +816,11 @@ def expects_ndim(  # noqa: C901
                         f" However, it was expected as a tensor with {expected_arg_ndims} dimensions."
                     )
 
+                if (expected_arg_ndims is not None) and (arg.ndim > expected_arg_ndims) and isinstance(arg, ReadOnlyTensor):
+                    # Within `vmap`, a batched tensor is not protected by being a ReadOnlyTensor.
+                    # So, we make sure that in-place operations of the function cannot reach the original data.
+                    arg = arg.clone()
+
                 # At this point, we know that `arg` is a proper PyTorch tensor. So, we add it into `new_args`.
                 new_args.append(arg)
 
-- 
2.43.0


From 005ceaa99506838cf1797cd14390ff948af0e130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:13:48 +0000
Subject: [PATCH 039/106] fix: overlapping slice assignment within an
 ObjectArray duplicated items

---
 src/evotorch/tools/objectarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/objectarray.py b/src/evotorch/tools/objectarray.py
index cc71e4b..6f4b2bd 100644
--- a/src/evotorch/tools/objectarray.py
+++ b/src/evotorch/tools/objectarray.py
@@ -390,7 +390,8 @@ class ObjectArray(Sequence, RecursivePrintable):
                     f" However, the given objects sequence has {len(x)} elements."
                 )
 
-            for q, obj in enumerate(x):
+            # The given objects might be a view of this very array, so they are all read before the first assignment
+            for q, obj in enumerate(list(x)):
                 index = int(indices[q])
                 self._objects[index] = as_immutable(obj, memo=memo)
 
-- 
2.43.0


From c96d45ab1537ec8e8f219a0aa1dcaa82874882bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:13:48 +0000
Subject: [PATCH 040/106] fix: mutable copies of dictionaries with tuple keys
 raised TypeError

---
 src/evotorch/tools/immutable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/immutable.py b/src/evotorch/tools/immutable.py
index 7eb1902..96ad1cf 100644
--- a/src/evotorch/tools/immutable.py
+++ b/src/evotorch/tools/immutable.py
@@ -283,7 +283,7 @@ class ImmutableDict(ImmutableContainer, Mapping):
         result = {}
         memo[id(self)] = result
         for k, v in self.items():
-            k = mutable_copy(k, memo=memo)
+            # the keys are always integers, strings, or tuples of these
             v = mutable_copy(v, memo=memo)
             result[k] = v
         return result
-- 
2.43.0


From aa4a7b5ec3565dd4d6a711e396524455e376caba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:16:42 +0000
Subject: [PATCH 041/106] fix: clones of numpy arrays of objects shared the
 objects with the original

---
 src/evotorch/tools/cloning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evotorch/tools/cloning.py b/src/evotorch/tools/cloning.py
index 1fe87e6..cedd7cf 100644
--- a/src/evotorch/tools/cloning.py
+++ b/src/evotorch/tools/cloning.py
@@ -145,6 +145,10 @@ def deep_clone(  # noqa: C901
         result = deepcopy(x, memo=memo)
     elif isinstance(x, np.ndarray):
         result = x.copy()
+        if x.dtype == np.dtype(object):
+            memo[x_id] = result
+            for index in np.ndindex(x.shape):
+                result[index] = call_self(x[index])
         result.flags["WRITEABLE"] = x.flags["WRITEABLE"]
     elif isinstance(x, (ObjectArray, ReadOnlyClonable)):
         result = x.clone(preserve_read_only=True, memo=memo)
-- 
2.43.0


From 92ffe1c847ad587d067f8cb195bc84f63de9857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:16:42 +0000
Subject: [PATCH 042/106] fix: clones of defaultdict instances lost their
 default factory

---
 src/evotorch/tools/cloning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/cloning.py b/src/evotorch/tools/cloning.py
index cedd7cf..fc99ba6 100644
--- a/src/evotorch/tools/cloning.py
+++ b/src/evotorch/tools/cloning.py
@@ -13,7 +13,7 @@
 # limitations under the License.
 
 
-from collections import OrderedDict
+from collections import OrderedDict, defaultdict
 from copy import deepcopy
 from numbers import Number
 from typing import Any, Optional
@@ -159,7 +159,7 @@ def deep_clone(  # noqa: C901
     elif isinstance(x, Clonable):
         result = x.clone(memo=memo)
     elif isinstance(x, (dict, OrderedDict)):
-        result = type(x)()
+        result = type(x)(x.default_factory) if isinstance(x, defaultdict) else type(x)()
         memo[x_id] = result
         for k, v in x.items():
             result[call_self(k)] = call_self(v)
-- 
2.43.0


From f64787c937b38656062e4cdbe9b56965220c2010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:25:31 +0000
Subject: [PATCH 043/106] fix: one-point crossover on solutions of length 1
 raised ZeroDivisionError

---
 src/evotorch/operators/real.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/operators/real.py b/src/evotorch/operators/real.py
index f723253..b629b73 100644
--- a/src/evotorch/operators/real.py
+++ b/src/evotorch/operators/real.py
@@ -171,7 +171,9 @@ class MultiPointCrossOver(CrossOver):
 
         if num_points == 1:
             # For each pairing, generate a gene index at which the parent solutions will be cut and recombined
-            crossover_point = self.problem.make_randint((num_pairings, 1), n=(solution_length - 1), device=device) + 1
+            crossover_point = (
+                self.problem.make_randint((num_pairings, 1), n=max(solution_length - 1, 1), device=device) + 1
+            )
 
             # Make a mask for crossing over
             # (False: take the value from one parent, True: take the value from the other parent).
-- 
2.43.0


From 0c989035ffd71e1e916e84146c4a709fae1d2c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:25:31 +0000
Subject: [PATCH 044/106] fix: polynomial mutation turned variables with equal
 bounds into NaN

---
 src/evotorch/operators/real.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evotorch/operators/real.py b/src/evotorch/operators/real.py
index b629b73..4287f1e 100644
--- a/src/evotorch/operators/real.py
+++ b/src/evotorch/operators/real.py
@@ -565,6 +565,9 @@ class PolynomialMutation(CopyingOperator):
             # decision variables will be affected by this mutation operation.
             to_mutate = self.problem.make_uniform_shaped_like(data) < self._prob
 
+        # Decision variables whose lower and upper bounds are equal have no room for mutation
+        to_mutate &= self._lb < self._ub
+
         # Obtain a flattened (1-dimensional) tensor which addresses only the variables that are subject to mutation
         # (i.e. variables that are not subject to mutation are filtered out).
         selected = data[to_mutate]
-- 
2.43.0


From ec89f12f3af880b7c123e69de59e765269562264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:26:22 +0000
Subject: [PATCH 045/106] fix: CoSyNE permutation duplicated and lost genes of
 integer solutions

---
 src/evotorch/operators/real.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/operators/real.py b/src/evotorch/operators/real.py
index 4287f1e..c5b483a 100644
--- a/src/evotorch/operators/real.py
+++ b/src/evotorch/operators/real.py
@@ -681,13 +681,15 @@ class CosynePermutation(CopyingOperator):
         else:
             prob_permute = torch.ones_like(indata)
 
-        perm_mask = self.problem.make_uniform_shaped_like(prob_permute) <= prob_permute
+        perm_mask = (
+            self.problem.make_uniform(prob_permute.shape, use_eval_dtype=True, device=indata.device) <= prob_permute
+        )
 
         perm_mask_sorted = torch.sort(perm_mask.to(torch.long), descending=True, dim=0)[0].to(
             torch.bool
         )  # Sort permutations
 
-        perm_rand = self.problem.make_uniform_shaped_like(prob_permute)
+        perm_rand = self.problem.make_uniform(prob_permute.shape, use_eval_dtype=True, device=indata.device)
         perm_rand[torch.logical_not(perm_mask)] = 1.0
         permutations = torch.argsort(perm_rand, dim=0)  # Generate permutations
 
-- 
2.43.0


From a9cbbb4f73e975ecba04cd6946bf8c9da4ea9b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:28:08 +0000
Subject: [PATCH 046/106] fix: ExpGaussian.cov was not the covariance of the
 samples

---
 src/evotorch/distributions.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/evotorch/distributions.py b/src/evotorch/distributions.py
index 2636a3e..243858c 100644
--- a/src/evotorch/distributions.py
+++ b/src/evotorch/distributions.py
@@ -883,8 +883,8 @@ class ExpGaussian(Distribution):
 
     @property
     def cov(self) -> torch.Tensor:
-        """The covariance matrix A^T A"""
-        return self.sigma.transpose(0, 1) @ self.sigma
+        """The covariance matrix A A^T"""
+        return self.sigma @ self.sigma.transpose(0, 1)
 
     @property
     def sigma(self) -> torch.Tensor:
@@ -924,22 +924,22 @@ class ExpGaussian(Distribution):
         self.parameters["sigma"] = torch.as_tensor(new_sigma, dtype=self.dtype, device=self.device)
 
     def to_global_coordinates(self, local_coordinates: torch.Tensor) -> torch.Tensor:
-        """Map samples from local coordinate space N(0, I_d) to global coordinate space N(mu, A^T A)
+        """Map samples from local coordinate space N(0, I_d) to global coordinate space N(mu, A A^T)
         This function is the inverse of to_local_coordinates
         Args:
             local_coordinates (torch.Tensor): The local coordinates sampled from N(0, I_d)
         Returns:
-            global_coordinates (torch.Tensor): The global coordinates sampled from N(mu, A^T A)
+            global_coordinates (torch.Tensor): The global coordinates sampled from N(mu, A A^T)
         """
         # Global samples are constructed as x = mu + A z where z is local coordinate
         # We use transpose here to simplify the batched application of A
         return self.mu.unsqueeze(0) + (self.A @ local_coordinates.T).T
 
     def to_local_coordinates(self, global_coordinates: torch.Tensor) -> torch.Tensor:
-        """Map samples from global coordinate space N(mu, A^T A) to local coordinate space N(0, I_d)
+        """Map samples from global coordinate space N(mu, A A^T) to local coordinate space N(0, I_d)
         This function is the inverse of to_global_coordinates
         Args:
-            global_coordinates (torch.Tensor): The global coordinates sampled from N(mu, A^T A)
+            global_coordinates (torch.Tensor): The global coordinates sampled from N(mu, A A^T)
         Returns:
             local_coordinates (torch.Tensor): The local coordinates sampled from N(0, I_d)
         """
@@ -948,7 +948,7 @@ class ExpGaussian(Distribution):
         return (self.A_inv @ (global_coordinates - self.mu.unsqueeze(0)).T).T
 
     def _fill(self, out: torch.Tensor, *, generator: Optional[torch.Generator] = None):
-        """Fill a tensor with samples from N(mu, A^T A)
+        """Fill a tensor with samples from N(mu, A A^T)
         Args:
             out (torch.Tensor): The tensor to fill
             generator (Optional[torch.Generator]): A generator to use to generate random values
@@ -961,7 +961,7 @@ class ExpGaussian(Distribution):
     def _compute_gradients(self, samples: torch.Tensor, weights: torch.Tensor, ranking_used: Optional[str]) -> dict:
         """Compute the gradients with respect to a given set of samples and weights
         Args:
-            samples (torch.Tensor): Samples drawn from N(mu, A^T A), ideally using self._fill
+            samples (torch.Tensor): Samples drawn from N(mu, A A^T), ideally using self._fill
             weights (torch.Tensor): Weights e.g. fitnesses or utilities assigned to samples
             ranking_used (optional[str]): The ranking method used to compute weights
         Returns:
-- 
2.43.0


From 7597181a2575062ce03e4c6aca815fd65bdd636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:28:08 +0000
Subject: [PATCH 047/106] fix: ExpGaussian modified the parameters dictionary
 of its caller

---
 src/evotorch/distributions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evotorch/distributions.py b/src/evotorch/distributions.py
index 243858c..d48fa78 100644
--- a/src/evotorch/distributions.py
+++ b/src/evotorch/distributions.py
@@ -827,6 +827,9 @@ class ExpGaussian(Distribution):
         device: Optional[Device] = None,
         dtype: Optional[DType] = None,
     ):
+        # The given dictionary belongs to the caller, therefore, the completions below are made on a copy
+        parameters = copy(parameters)
+
         [mu_length] = parameters["mu"].shape
 
         # Make sigma 2D
-- 
2.43.0


From 2a8ef9fefe0803e39d384623240f3d0e480ed825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:28:08 +0000
Subject: [PATCH 048/106] fix: ExpGaussian.update_parameters required and
 modified the learning_rates dictionary

---
 src/evotorch/distributions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/evotorch/distributions.py b/src/evotorch/distributions.py
index d48fa78..10f7b1e 100644
--- a/src/evotorch/distributions.py
+++ b/src/evotorch/distributions.py
@@ -999,10 +999,13 @@ class ExpGaussian(Distribution):
         d_grad = gradients["d"]
         M_grad = gradients["M"]
 
-        if "d" not in learning_rates:
-            learning_rates["d"] = learning_rates["mu"]
-        if "M" not in learning_rates:
-            learning_rates["M"] = learning_rates["sigma"]
+        learning_rates = {} if learning_rates is None else copy(learning_rates)
+        optimizers = {} if optimizers is None else copy(optimizers)
+        for given in (learning_rates, optimizers):
+            if ("d" not in given) and ("mu" in given):
+                given["d"] = given["mu"]
+            if ("M" not in given) and ("sigma" in given):
+                given["M"] = given["sigma"]
 
         # Follow gradients for d, and M
         update_d = self._follow_gradient("d", d_grad, learning_rates=learning_rates, optimizers=optimizers)
-- 
2.43.0


From fea8857efc1af1aabf846ce568a71433f40daeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:28:08 +0000
Subject: [PATCH 049/106] fix: setting ExpGaussian.sigma left a stale inverse
 behind

---
 src/evotorch/distributions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evotorch/distributions.py b/src/evotorch/distributions.py
index 10f7b1e..9d8fc8f 100644
--- a/src/evotorch/distributions.py
+++ b/src/evotorch/distributions.py
@@ -925,6 +925,7 @@ class ExpGaussian(Distribution):
             new_sigma (torch.Tensor): The new value of sigma, the square root of the covariance matrix
         """
         self.parameters["sigma"] = torch.as_tensor(new_sigma, dtype=self.dtype, device=self.device)
+        self.parameters["sigma_inv"] = torch.inverse(self.parameters["sigma"])
 
     def to_global_coordinates(self, local_coordinates: torch.Tensor) -> torch.Tensor:
         """Map samples from local coordinate space N(0, I_d) to global coordinate space N(mu, A A^T)
-- 
2.43.0


From bf97703ee044521e83838a813122a4e9ad867514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:32:01 +0000
Subject: [PATCH 050/106] fix: the nes ranking failed under vmap, and so did
 batched gradient estimation with it

---
 src/evotorch/tools/ranking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/ranking.py b/src/evotorch/tools/ranking.py
index 26534d8..7f5efd6 100644
--- a/src/evotorch/tools/ranking.py
+++ b/src/evotorch/tools/ranking.py
@@ -114,7 +114,7 @@ def nes(fitnesses: torch.Tensor, *, higher_is_better: bool = True) -> torch.Tens
         )
 
         indices = torch.argsort(x, descending=(not higher_is_better))
-        ranks = torch.empty(n, dtype=indices.dtype, device=device)
+        ranks = torch.empty_like(indices)
         ranks[indices] = torch.arange(n, dtype=indices.dtype, device=device)
 
         utils = weights[ranks]
-- 
2.43.0


From 219188c42d1a4a13a36415bce9e14a1413d05757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:40:40 +0000
Subject: [PATCH 051/106] fix: CMAES refused every initial center point of
 problems with a single decision variable

---
 src/evotorch/algorithms/cmaes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evotorch/algorithms/cmaes.py b/src/evotorch/algorithms/cmaes.py
index c7039a8..b484d16 100644
--- a/src/evotorch/algorithms/cmaes.py
+++ b/src/evotorch/algorithms/cmaes.py
@@ -252,6 +252,9 @@ class CMAES(SearchAlgorithm, SinglePopulationAlgorithmMixin):
 
         # Store the center
         self.m = self._problem.make_tensor(center_init).squeeze()
+        if self.m.ndim == 0:
+            # The solution length is 1
+            self.m = self.m.reshape(1)
         valid_shaped_m = (self.m.ndim == 1) and (len(self.m) == self._problem.solution_length)
         if not valid_shaped_m:
             raise ValueError(
-- 
2.43.0


From 0fd040c4495d0aadaac94d499aa740a199497f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:40:40 +0000
Subject: [PATCH 052/106] fix: CMAES failed with covariance learning rates
 given as real numbers

---
 src/evotorch/algorithms/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/cmaes.py b/src/evotorch/algorithms/cmaes.py
index b484d16..569cf53 100644
--- a/src/evotorch/algorithms/cmaes.py
+++ b/src/evotorch/algorithms/cmaes.py
@@ -383,7 +383,7 @@ class CMAES(SearchAlgorithm, SinglePopulationAlgorithmMixin):
 
         # How often to decompose C
         if limit_C_decomposition:
-            self.decompose_C_freq = max(1, int(np.floor(_safe_divide(1, 10 * d * (self.c_1.cpu() + self.c_mu.cpu())))))
+            self.decompose_C_freq = max(1, int(np.floor(_safe_divide(1, 10 * d * (float(self.c_1) + float(self.c_mu))))))
         else:
             self.decompose_C_freq = 1
 
-- 
2.43.0


From 5c335f5a5e0c5eeaefe3df4f2f72b11d80f3679e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:40:40 +0000
Subject: [PATCH 053/106] fix: CMAES normalised the step-size path with a wrong
 exponent when deciding on stalling

---
 src/evotorch/algorithms/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/cmaes.py b/src/evotorch/algorithms/cmaes.py
index 569cf53..1dbd551 100644
--- a/src/evotorch/algorithms/cmaes.py
+++ b/src/evotorch/algorithms/cmaes.py
@@ -40,7 +40,7 @@ def _h_sig(p_sigma: torch.Tensor, c_sigma: float, iter: int) -> torch.Tensor:
     # infer dimension from p_sigma
     d = p_sigma.shape[-1]
     # Compute the discounted squared sum
-    squared_sum = torch.norm(p_sigma).pow(2.0) / (1 - (1 - c_sigma) ** (2 * iter + 1))
+    squared_sum = torch.norm(p_sigma).pow(2.0) / (1 - (1 - c_sigma) ** (2 * (iter + 1)))
     # Check boolean flag and return
     stall = (squared_sum / d) - 1 < 1 + 4.0 / (d + 1)
     return stall.any().to(p_sigma.dtype)
-- 
2.43.0


From 68de129e21afa89d6f52269df897b8110fecdfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:40:40 +0000
Subject: [PATCH 054/106] fix: limiting the standard deviations of CMAES could
 make its covariance matrix indefinite

---
 src/evotorch/algorithms/cmaes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/algorithms/cmaes.py b/src/evotorch/algorithms/cmaes.py
index 1dbd551..71ba123 100644
--- a/src/evotorch/algorithms/cmaes.py
+++ b/src/evotorch/algorithms/cmaes.py
@@ -74,8 +74,9 @@ def _limit_stdev(sigma: torch.Tensor, C: torch.Tensor, stdev_min: Optional[float
         C = unscaled_stdevs.pow(2.0)
     else:
         # Non-separable case
-        C = C.clone()
-        torch.diagonal(C)[:] = unscaled_stdevs.pow(2.0)
+        # Rescale the rows and the columns, so that the correlations are kept and C stays positive definite
+        scale = unscaled_stdevs / torch.sqrt(torch.diag(C))
+        C = C * torch.outer(scale, scale)
 
     return C
 
-- 
2.43.0


From a8a62fdac4be38713fc1638ec1a956e2816fc0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:46:01 +0000
Subject: [PATCH 055/106] fix: limited standard deviations of CMAES were
 ignored while sampling until the next decomposition, and could make the
 covariance indefinite

---
 src/evotorch/algorithms/cmaes.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/evotorch/algorithms/cmaes.py b/src/evotorch/algorithms/cmaes.py
index 71ba123..f1ac6bc 100644
--- a/src/evotorch/algorithms/cmaes.py
+++ b/src/evotorch/algorithms/cmaes.py
@@ -65,8 +65,11 @@ def _limit_stdev(sigma: torch.Tensor, C: torch.Tensor, stdev_min: Optional[float
         stdevs = sigma * torch.sqrt(torch.diag(C))
 
     # Limit standard deviations
-    stdevs = torch.clamp(stdevs, min=stdev_min, max=stdev_max)
-    unscaled_stdevs = stdevs / sigma
+    limited_stdevs = torch.clamp(stdevs, min=stdev_min, max=stdev_max)
+    if torch.equal(limited_stdevs, stdevs):
+        # The limits are already satisfied
+        return C
+    unscaled_stdevs = limited_stdevs / sigma
 
     # Construct new unscaled covariance matrix
     if len(C.shape) == 1:
@@ -602,9 +605,12 @@ class CMAES(SearchAlgorithm, SinglePopulationAlgorithmMixin):
         # === Post-step corrections ===
 
         # Limit element-wise standard deviation of sigma^2 C
+        C_limited = False
         if self.stdev_min is not None or self.stdev_max is not None:
-            self.C = _limit_stdev(self.sigma, self.C, self.stdev_min, self.stdev_max)
+            limited_C = _limit_stdev(self.sigma, self.C, self.stdev_min, self.stdev_max)
+            C_limited = limited_C is not self.C
+            self.C = limited_C
 
-        # Decompose C
-        if (self._steps_count + 1) % self.decompose_C_freq == 0:
+        # Decompose C (without any delay if C was modified by the limits, so that the samples respect the limits)
+        if C_limited or (self._steps_count + 1) % self.decompose_C_freq == 0:
             self.decompose_C()
-- 
2.43.0


From fe3727796dcb32420700fccf9a86ae38e6b6cb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:02:24 +0000
Subject: [PATCH 056/106] fix: the remote actors of a problem with its own seed
 failed to start

---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 73b70f6..fd5a80a 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -137,7 +137,7 @@ class EvaluationActor:
         np.random.seed(np_global)
         torch.manual_seed(torch_global)
         if self._problem.has_own_generator:
-            self._problem.seed(probseed)
+            self._problem.manual_seed(probseed)
         self._problem._use_pickle_data_from_main(state)
         self._problem.remote_hook(self._problem)
         if isinstance(self._problem._num_gpus_per_actor, str) and (self._problem._num_gpus_per_actor == "all"):
-- 
2.43.0


From a459dbf333645e8b7b0a3761f7bba926c0a6f180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:02:24 +0000
Subject: [PATCH 057/106] fix: distributed XNES failed while averaging its
 matrix-shaped gradients

---
 src/evotorch/algorithms/distributed/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/distributed/gaussian.py b/src/evotorch/algorithms/distributed/gaussian.py
index bf01a71..b3639dc 100644
--- a/src/evotorch/algorithms/distributed/gaussian.py
+++ b/src/evotorch/algorithms/distributed/gaussian.py
@@ -246,7 +246,7 @@ class GaussianSearchAlgorithm(SearchAlgorithm, SinglePopulationAlgorithmMixin):
         # For each gradient (in most cases among 'mu' and 'sigma'), we allocate a new 0-filled tensor.
         avg_gradients = {}
         for key in grad_keys:
-            avg_gradients[key] = self._distribution.make_zeros(num_solutions=1).reshape(-1)
+            avg_gradients[key] = torch.zeros_like(list_of.gradients[0][key])
 
         # Below, we iterate over all collected results and add their gradients, in a weighted manner, onto the
         # `avg_gradients` we allocated above.
-- 
2.43.0


From 9b6f33f4e4e906f6d7a398ff2e0d16c93b940a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:02:24 +0000
Subject: [PATCH 058/106] fix: remote gradient computation ignored with_stats
 and failed when obj_index was omitted

---
 src/evotorch/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index fd5a80a..9158a39 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2951,13 +2951,15 @@ class Problem(TensorMakerMixin, Serializable):
                 self._actor_pool.map_unordered(
                     (
                         lambda a, v: a.call.remote(
-                            "_sample_and_compute_gradients",
+                            "_gradient_computation_helper",
                             [dist_on_cpu, v[0]],
                             {
                                 "obj_index": obj_index,
                                 "num_interactions": v[1],
                                 "popsize_max": v[2],
                                 "ranking_method": ranking_method,
+                                "with_stats": with_stats,
+                                "move_results_to_device": "cpu",
                             },
                         )
                     ),
-- 
2.43.0


From 44e48e9f7c3f9a0352bbede61ffb42c870f5a62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:02:24 +0000
Subject: [PATCH 059/106] fix: remote gradient computation failed when there
 were more tasks than solutions

---
 src/evotorch/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 9158a39..0fe2e4d 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2905,6 +2905,9 @@ class Problem(TensorMakerMixin, Serializable):
                 # a way that each actor will have its share.
                 popsize_per_task = split_workload(popsize, len(self._actors))
 
+            # Tasks without any solution have no gradients to contribute
+            popsize_per_task = [n for n in popsize_per_task if n > 0]
+
             if ensure_even_popsize:
                 # If `ensure_even_popsize` argument is True, then we need to make sure that each tasks's popsize is
                 # an even number.
-- 
2.43.0


From 54a4d3e7c02391047a49a1c1afc9b386bc16fde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:09:03 +0000
Subject: [PATCH 060/106] fix: parallel evaluation of a small population called
 the objective function with empty batches

---
 src/evotorch/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 0fe2e4d..5ad4268 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2582,7 +2582,8 @@ class Problem(TensorMakerMixin, Serializable):
             #    batch._evdata[row_begin:row_end, :] = evals
 
             mapresult = self._actor_pool.map_unordered(
-                lambda a, v: a.evaluate_batch_piece.remote(v[0], v[1]), list(enumerate(pieces))
+                lambda a, v: a.evaluate_batch_piece.remote(v[0], v[1]),
+                [(i, piece) for i, piece in enumerate(pieces) if len(piece) > 0],
             )
             for i, evals in mapresult:
                 row_begin, row_end = pieces.indices_of(i)
-- 
2.43.0


From 549274d946983fad653fe8299a5de9c919979aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:09:03 +0000
Subject: [PATCH 061/106] fix: actors of copied problems and actors created
 after kill_actors were never prepared

---
 src/evotorch/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 5ad4268..073e845 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2126,6 +2126,8 @@ class Problem(TensorMakerMixin, Serializable):
         if self._actors is not None:
             for actor in self._actors:
                 ray.kill(actor)
+            # The actors that might be created later will have to be prepared again
+            self._prepared = False
         self._actors = None
         self._actor_pool = None
 
@@ -2710,6 +2712,9 @@ class Problem(TensorMakerMixin, Serializable):
         for k, v in self.__dict__.items():
             if k in ("_actors", "_actor_pool") or k in self._nonserialized_attribs:
                 result[k] = None
+            elif k == "_prepared":
+                # The clone (which might also be the remote counterpart of this problem) has to prepare itself
+                result[k] = False
             else:
                 v_id = id(v)
                 if v_id in memo:
-- 
2.43.0


From 134b2ef1c31b0cd0e7324f09d8fd631024a5770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:09:13 +0000
Subject: [PATCH 062/106] fix: copies of an already used NEProblem could not
 evaluate because they had no network

---
 src/evotorch/neuroevolution/neproblem.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/evotorch/neuroevolution/neproblem.py b/src/evotorch/neuroevolution/neproblem.py
index 4f03195..3bd6119 100644
--- a/src/evotorch/neuroevolution/neproblem.py
+++ b/src/evotorch/neuroevolution/neproblem.py
@@ -317,8 +317,6 @@ class NEProblem(BaseNEProblem):
     def _prepare(self) -> None:
         """Instantiate the network on the target device, if not already done"""
         self.instantiated_network = self._instantiate_net(self._original_network)
-        # Clear reference to original network
-        self._original_network = None
 
     def make_net(self, parameters: Iterable) -> nn.Module:
         """
-- 
2.43.0


From 77a9e82cf27b9b531ef76b714d8c5adc2fcd2a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:09:23 +0000
Subject: [PATCH 063/106] fix: an already used SupervisedNE could not be cloned
 or pickled

---
 src/evotorch/neuroevolution/supervisedne.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evotorch/neuroevolution/supervisedne.py b/src/evotorch/neuroevolution/supervisedne.py
index 9366e3b..b04dd91 100644
--- a/src/evotorch/neuroevolution/supervisedne.py
+++ b/src/evotorch/neuroevolution/supervisedne.py
@@ -305,6 +305,10 @@ class SupervisedNE(NEProblem):
         else:
             return self._loss_func(y_hat, y)
 
+    @property
+    def _nonserialized_attribs(self) -> List[str]:
+        return super()._nonserialized_attribs + ["dataloader_iterator"]
+
     def _prepare(self) -> None:
         self.dataloader = self.make_dataloader()
 
-- 
2.43.0


From 46ee61dfc41465c7856e62e3f4437b2fff933f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:12:42 +0000
Subject: [PATCH 064/106] fix: after a failed parallel evaluation, the next
 evaluation could raise an error left over from it

---
 src/evotorch/core.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 073e845..dea0038 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2583,13 +2583,18 @@ class Problem(TensorMakerMixin, Serializable):
             #    row_begin, row_end = pieces.indices_of(i)
             #    batch._evdata[row_begin:row_end, :] = evals
 
-            mapresult = self._actor_pool.map_unordered(
-                lambda a, v: a.evaluate_batch_piece.remote(v[0], v[1]),
-                [(i, piece) for i, piece in enumerate(pieces) if len(piece) > 0],
-            )
-            for i, evals in mapresult:
-                row_begin, row_end = pieces.indices_of(i)
-                batch._evdata[row_begin:row_end, :] = evals
+            try:
+                mapresult = self._actor_pool.map_unordered(
+                    lambda a, v: a.evaluate_batch_piece.remote(v[0], v[1]),
+                    [(i, piece) for i, piece in enumerate(pieces) if len(piece) > 0],
+                )
+                for i, evals in mapresult:
+                    row_begin, row_end = pieces.indices_of(i)
+                    batch._evdata[row_begin:row_end, :] = evals
+            except Exception:
+                # The results (or the errors) of the remaining pieces must not be seen by the next evaluation
+                self._actor_pool = ActorPool(self._actors)
+                raise
 
     def _evaluate_batch(self, batch: "SolutionBatch"):
         if self._vectorized and (self._objective_func is not None):
-- 
2.43.0


From f259517fc26c26c1ceb57824df6ae341641f6a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:50:33 +0000
Subject: [PATCH 065/106] fix: keep evaluated parents in the non-elitist
 genetic algorithm

When fewer children than the population size are produced, the next
population is completed with the best parents. Those were taken from the
population as it was before it was evaluated, so parents with missing
fitnesses could be picked. Take them from the evaluated parents.
---
 src/evotorch/algorithms/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/ga.py b/src/evotorch/algorithms/ga.py
index 701a143..c2d7db0 100644
--- a/src/evotorch/algorithms/ga.py
+++ b/src/evotorch/algorithms/ga.py
@@ -673,7 +673,7 @@ class GeneticAlgorithm(SearchAlgorithm, SinglePopulationAlgorithmMixin, Extended
             if num_children < popsize:
                 # If the number of children is less than the population size, then we keep the best m solutions from
                 # the parents, m being `popsize - num_children`.
-                chosen_parents = self._population.take_best(popsize - num_children)
+                chosen_parents = parents.take_best(popsize - num_children)
 
                 # Combine the children with the chosen parents, and declare them as the new population.
                 self._population = SolutionBatch.cat([chosen_parents, children])
-- 
2.43.0


From 91017aced768aad2b6de60dd8b8b9b6877f7eea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:50:33 +0000
Subject: [PATCH 066/106] fix: make the borders of a feature grid with the
 requested dtype

The inner borders were computed as float32 even if the grid was requested
with another dtype, so they were rounded.
---
 src/evotorch/algorithms/mapelites.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/mapelites.py b/src/evotorch/algorithms/mapelites.py
index 7709c20..8e185e1 100644
--- a/src/evotorch/algorithms/mapelites.py
+++ b/src/evotorch/algorithms/mapelites.py
@@ -497,7 +497,7 @@ class MAPElites(SearchAlgorithm, SinglePopulationAlgorithmMixin, ExtendedPopulat
         n_inf = torch.tensor([float("-inf")], dtype=dtype, device=device)
 
         def _make_feature_grid(lb, ub, num_bins):
-            sp = torch.linspace(lb, ub, num_bins - 1, device=device)
+            sp = torch.linspace(lb, ub, num_bins - 1, dtype=dtype, device=device)
             sp = torch.cat((n_inf, sp, p_inf))
             return sp.unfold(dimension=0, size=2, step=1).unsqueeze(1)
 
-- 
2.43.0


From 7a5e9b39fdbe67c1af5d1ca3917090504b23202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:50:33 +0000
Subject: [PATCH 067/106] fix: do not lose MAPElites solutions with infinitely
 bad fitness

Solutions outside of a cell are given an infinitely bad fitness before the
best one is picked. If the only solution of a cell had that fitness itself,
a solution outside of the cell could be picked, and the cell was then
reported as empty.
---
 src/evotorch/algorithms/mapelites.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/evotorch/algorithms/mapelites.py b/src/evotorch/algorithms/mapelites.py
index 8e185e1..b775cbd 100644
--- a/src/evotorch/algorithms/mapelites.py
+++ b/src/evotorch/algorithms/mapelites.py
@@ -32,10 +32,10 @@ def _best_solution_considering_feature(
 
     if objective_sense == "min":
         penalty = float("inf")
-        argbest = torch.argmin
+        best = torch.amin
     elif objective_sense == "max":
         penalty = float("-inf")
-        argbest = torch.argmax
+        best = torch.amax
     else:
         raise ValueError(f"Unexpected objective_sense: {repr(objective_sense)}")
 
@@ -44,7 +44,10 @@ def _best_solution_considering_feature(
     # suitable = torch.all(features >= feature_lb, dim=-1) & torch.all(features <= feature_ub, dim=-1)
     suitable = _all_across_rightmost_dim(features >= feature_lb) & _all_across_rightmost_dim(features <= feature_ub)
     processed_fitnesses = torch.where(suitable, fitnesses, penalty)
-    index = argbest(processed_fitnesses)
+    # Among the best fitnesses, prefer a suitable solution, because the fitness of a suitable solution can be as bad as
+    # the penalty.
+    is_best = suitable & (processed_fitnesses == best(processed_fitnesses))
+    index = torch.argmax(is_best.to(torch.int64))
 
     selected_dec_values = torch.index_select(decision_values, 0, index)[0]
     selected_evals = torch.index_select(evals, 0, index)[0]
-- 
2.43.0


From 29e6cc2022e62c5db1731cb2746c314d0f7b2c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:50:33 +0000
Subject: [PATCH 068/106] fix: recompute status items which were read during a
 step

A status item read while a step is being made, for example from within an
evaluation hook, was stored and reported as the status after the step. Forget
such values when the step is over.
---
 src/evotorch/algorithms/searchalgorithm.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/evotorch/algorithms/searchalgorithm.py b/src/evotorch/algorithms/searchalgorithm.py
index 6c34687..3fe4357 100644
--- a/src/evotorch/algorithms/searchalgorithm.py
+++ b/src/evotorch/algorithms/searchalgorithm.py
@@ -105,6 +105,7 @@ class LazyReporter:
         """
         self.__getters = kwargs
         self.__computed = {}
+        self.__computed_by_getter = set()
 
     def get_status_value(self, key: Any) -> Any:
         """
@@ -115,6 +116,7 @@ class LazyReporter:
         """
         if key not in self.__computed:
             self.__computed[key] = self.__getters[key]()
+            self.__computed_by_getter.add(key)
         return self.__computed[key]
 
     def has_status_key(self, key: Any) -> bool:
@@ -137,6 +139,13 @@ class LazyReporter:
     def clear_status(self):
         """Clear all the stored values of the status variables."""
         self.__computed.clear()
+        self.__computed_by_getter.clear()
+
+    def _forget_computed_status(self):
+        """Clear the values computed by the status getters, keeping the ones stored via `update_status(...)`."""
+        for key in self.__computed_by_getter:
+            self.__computed.pop(key, None)
+        self.__computed_by_getter.clear()
 
     def is_status_computed(self, key) -> bool:
         """
@@ -163,6 +172,7 @@ class LazyReporter:
             if k not in self.__getters:
                 self.__getters[k] = LazyReporter._missing_status_producer
             self.__computed[k] = v
+            self.__computed_by_getter.discard(k)
 
     def add_status_getters(self, getters: Mapping):
         """
@@ -388,6 +398,7 @@ class SearchAlgorithm(LazyReporter):
             self._first_step_datetime = datetime.now()
 
         self._step()
+        self._forget_computed_status()  # a status item which was read during the step is out of date now
         self._steps_count += 1
         self.update_status({"iter": self._steps_count})
         self.update_status(self._problem.status)
-- 
2.43.0


From 342f779cef54436398329c000602b945371478fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:50:33 +0000
Subject: [PATCH 069/106] fix: do not fail on the status of IPOP right after a
 restart

The Gaussian search algorithms have no population until their first step.
Reading the status (or logging) after a restart failed because of this.
---
 src/evotorch/algorithms/restarter/modify_restart.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/restarter/modify_restart.py b/src/evotorch/algorithms/restarter/modify_restart.py
index 47c6599..24b8d39 100644
--- a/src/evotorch/algorithms/restarter/modify_restart.py
+++ b/src/evotorch/algorithms/restarter/modify_restart.py
@@ -59,7 +59,9 @@ class IPOP(ModifyingRestart):
 
     def _search_algorithm_terminated(self) -> bool:
         # Additional check on standard deviation of fitnesses of population
-        if self.search_algorithm.population.evals.std() < self.min_fitness_stdev:
+        population = self.search_algorithm.population
+        # The population is None if the algorithm was restarted and has not made a step yet
+        if (population is not None) and (population.evals.std() < self.min_fitness_stdev):
             return True
         return super()._search_algorithm_terminated()
 
-- 
2.43.0


From ecfc12d11a00264360863c5bb0f848e0a5a14328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:50:33 +0000
Subject: [PATCH 070/106] fix: consider only the fitnesses for the restart
 criterion of IPOP

The standard deviation was computed over the additional evaluation data too.
---
 src/evotorch/algorithms/restarter/modify_restart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/restarter/modify_restart.py b/src/evotorch/algorithms/restarter/modify_restart.py
index 24b8d39..1782344 100644
--- a/src/evotorch/algorithms/restarter/modify_restart.py
+++ b/src/evotorch/algorithms/restarter/modify_restart.py
@@ -61,7 +61,7 @@ class IPOP(ModifyingRestart):
         # Additional check on standard deviation of fitnesses of population
         population = self.search_algorithm.population
         # The population is None if the algorithm was restarted and has not made a step yet
-        if (population is not None) and (population.evals.std() < self.min_fitness_stdev):
+        if (population is not None) and (population.evals[:, : len(self.problem.senses)].std() < self.min_fitness_stdev):
             return True
         return super()._search_algorithm_terminated()
 
-- 
2.43.0


From 0acc7b43f5952aaa0fe5b76956dec5b50e8f85d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:50:33 +0000
Subject: [PATCH 071/106] fix: do not copy the algorithm arguments when IPOP
 restarts

The arguments were deep-copied, and with them the operators of the algorithm
and the problem they refer to. The restarted algorithm then worked with
operators bound to a copy of the problem.
---
 src/evotorch/algorithms/restarter/modify_restart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/algorithms/restarter/modify_restart.py b/src/evotorch/algorithms/restarter/modify_restart.py
index 1782344..8bf8d3a 100644
--- a/src/evotorch/algorithms/restarter/modify_restart.py
+++ b/src/evotorch/algorithms/restarter/modify_restart.py
@@ -12,7 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from copy import deepcopy
+from copy import copy
 from typing import Type
 
 from .restart import Restart
@@ -68,7 +68,7 @@ class IPOP(ModifyingRestart):
     def _modify_algorithm_args(self) -> None:
         # Only modify arguments if this isn't the first restart
         if self.num_restarts >= 1:
-            new_args = deepcopy(self._algorithm_args)
+            new_args = copy(self._algorithm_args)
             # Multiply population size
             new_args["popsize"] = int(self.popsize_multiplier * len(self.search_algorithm.population))
             self._algorithm_args = new_args
-- 
2.43.0


From b0d64c259d2a954da931803404a8c3ecfae61ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:06:36 +0000
Subject: [PATCH 072/106] fix: give shared parameters to all layers of a
 functional module

When a parameter was shared by several layers, only the first layer received
the values from the given parameter vector. The others worked with memory
that was never initialized.
---
 src/evotorch/neuroevolution/net/functional.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/evotorch/neuroevolution/net/functional.py b/src/evotorch/neuroevolution/net/functional.py
index 4c912db..b5c8bbf 100644
--- a/src/evotorch/neuroevolution/net/functional.py
+++ b/src/evotorch/neuroevolution/net/functional.py
@@ -112,6 +112,9 @@ class ModuleExpectingFlatParameters:
         self.__param_slices = []
         self.__num_params = 0
 
+        # Names of the parameters which are shared, paired with the names under which these parameters are stored above
+        self.__param_aliases = []
+
         # Iterate over the parameters of the module and fill the related information.
         i = 0
         j = 0
@@ -130,6 +133,12 @@ class ModuleExpectingFlatParameters:
 
             self.__num_params += 1
 
+        first_names = {}
+        for pname, p in net.named_parameters(remove_duplicate=False):
+            first_name = first_names.setdefault(p, pname)
+            if first_name != pname:
+                self.__param_aliases.append((pname, first_name))
+
         self.__buffer_dict = {bname: b.clone() for bname, b in net.named_buffers()}
 
         self.__net = deepcopy(net)
@@ -186,6 +195,10 @@ class ModuleExpectingFlatParameters:
             param = parameter_vector[param_slice].reshape(param_shape)
             params_and_buffers[pname] = param
 
+        # A parameter shared by multiple layers must be given under each of its names
+        for alias, pname in self.__param_aliases:
+            params_and_buffers[alias] = params_and_buffers[pname]
+
         # Make sure that the buffer tensors are in the same device with x
         self.__transfer_buffers(x)
 
-- 
2.43.0


From 9cc2cf01ae62f295b1c38db6926b7b67805b95e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:06:36 +0000
Subject: [PATCH 073/106] fix: return the buffers of a functional module
 instead of their names

---
 src/evotorch/neuroevolution/net/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/functional.py b/src/evotorch/neuroevolution/net/functional.py
index b5c8bbf..845680b 100644
--- a/src/evotorch/neuroevolution/net/functional.py
+++ b/src/evotorch/neuroevolution/net/functional.py
@@ -158,7 +158,7 @@ class ModuleExpectingFlatParameters:
     @property
     def buffers(self) -> tuple:
         """Get the stored buffers"""
-        return tuple(self.__buffer_dict)
+        return tuple(self.__buffer_dict.values())
 
     @property
     def parameter_length(self) -> int:
-- 
2.43.0


From 99428ded6a386dc12f43c6240bdbe749b248a9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:06:36 +0000
Subject: [PATCH 074/106] fix: read and fill network parameters which are not
 contiguous in memory

Reading or filling the parameters of a network failed if the memory layout of
one of them was not contiguous, for example after a transposition.
---
 src/evotorch/neuroevolution/net/misc.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/evotorch/neuroevolution/net/misc.py b/src/evotorch/neuroevolution/net/misc.py
index adbaa3b..af4ac46 100644
--- a/src/evotorch/neuroevolution/net/misc.py
+++ b/src/evotorch/neuroevolution/net/misc.py
@@ -37,9 +37,8 @@ def fill_parameters(net: nn.Module, vector: torch.Tensor):
     """
     address = 0
     for p in net.parameters():
-        d = p.data.view(-1)
-        n = len(d)
-        d[:] = torch.as_tensor(vector[address : address + n], device=d.device)
+        n = p.numel()
+        p.data.copy_(torch.as_tensor(vector[address : address + n], device=p.device).reshape(p.shape))
         address += n
 
     if address != len(vector):
@@ -65,7 +64,7 @@ def parameter_vector(net: nn.Module, *, device: Optional[Device] = None) -> torc
 
     all_vectors = []
     for p in net.parameters():
-        all_vectors.append(torch.as_tensor(p.data.view(-1), **dev_kwarg))
+        all_vectors.append(torch.as_tensor(p.data.reshape(-1), **dev_kwarg))
 
     return torch.cat(all_vectors)
 
-- 
2.43.0


From 951e89667d259f3b7297aa0f93fbf49f66e056ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:07:50 +0000
Subject: [PATCH 075/106] fix: restart the timestep of LocomotorNet when a
 stateful module is reset

LocomotorNet keeps its timestep within itself. Resetting the StatefulModule
around it, as it is done at the beginning of each episode, did not set the
timestep back to 0.
---
 src/evotorch/neuroevolution/net/statefulmodule.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/evotorch/neuroevolution/net/statefulmodule.py b/src/evotorch/neuroevolution/net/statefulmodule.py
index 40eae87..da4bb7a 100644
--- a/src/evotorch/neuroevolution/net/statefulmodule.py
+++ b/src/evotorch/neuroevolution/net/statefulmodule.py
@@ -17,6 +17,8 @@ from typing import Any
 import torch
 from torch import nn
 
+from .layers import LocomotorNet
+
 
 class StatefulModule(nn.Module):
     """
@@ -84,6 +86,10 @@ class StatefulModule(nn.Module):
         Reset the hidden state, if any.
         """
         self._hidden = None
+        for module in self.wrapped_module.modules():
+            if isinstance(module, LocomotorNet):
+                # This module keeps its timestep within itself
+                module.reset()
 
 
 def ensure_stateful(net: nn.Module) -> StatefulModule:
-- 
2.43.0


From f14d426b743bfcc3dbc02b3af22fda825a7dfed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:12:57 +0000
Subject: [PATCH 076/106] fix: reject names which are not layers in network
 strings

A network string could refer to anything found in the namespaces of the
layers, for example to a helper function, whose result was then returned as
if it were a network.
---
 src/evotorch/neuroevolution/net/parser.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/evotorch/neuroevolution/net/parser.py b/src/evotorch/neuroevolution/net/parser.py
index c00e25b..eadff97 100644
--- a/src/evotorch/neuroevolution/net/parser.py
+++ b/src/evotorch/neuroevolution/net/parser.py
@@ -98,12 +98,11 @@ def concat_modules(a: nn.Module, b: nn.Module) -> nn.Module:
 
 
 def _get_nn_module(name: str) -> Type:
-    if hasattr(layers, name):
-        return getattr(layers, name)
-    elif hasattr(nn, name):
-        return getattr(nn, name)
-    else:
-        raise NetParsingError(f"Unrecognized module class: {repr(name)}")
+    for namespace in (layers, nn):
+        result = getattr(namespace, name, None)
+        if isinstance(result, type) and issubclass(result, nn.Module):
+            return result
+    raise NetParsingError(f"Unrecognized module class: {repr(name)}")
 
 
 def _eval_with_constants(node: ast.expr, constants: dict) -> Any:
-- 
2.43.0


From 9b221f54ccb13f79214078aee14cab7d738d0b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:12:57 +0000
Subject: [PATCH 077/106] fix: report malformed network strings as parsing
 errors

Syntax errors, dotted names and unpacked keyword arguments within a network
string ended up as errors of other types, and a repeated keyword argument was
accepted.
---
 src/evotorch/neuroevolution/net/parser.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/parser.py b/src/evotorch/neuroevolution/net/parser.py
index eadff97..8a84bcf 100644
--- a/src/evotorch/neuroevolution/net/parser.py
+++ b/src/evotorch/neuroevolution/net/parser.py
@@ -188,11 +188,18 @@ def _eval_with_constants(node: ast.expr, constants: dict) -> Any:
 
 
 def _process_call_expr(node: ast.Call, constants: dict) -> nn.Module:
+    if not isinstance(node.func, ast.Name):
+        raise NetParsingError("Expected the name of a module class.", node.lineno, node.col_offset)
+
     args = [_eval_with_constants(arg, constants=constants) for arg in node.args]
 
     kwargs = {}
     for kw in node.keywords:
         kwname = kw.arg
+        if kwname is None:
+            raise NetParsingError("Unpacking keyword arguments is not supported.", node.lineno, node.col_offset)
+        if kwname in kwargs:
+            raise NetParsingError(f"Keyword argument repeated: {kwname}", node.lineno, node.col_offset)
         kwvalue = _eval_with_constants(kw.value, constants=constants)
         kwargs[kwname] = kwvalue
 
@@ -344,4 +351,10 @@ def str_to_net(s: str, **constants) -> nn.Module:
         The PyTorch module of the specified structure.
     """
     s = f"(\n{s}\n)"
-    return _process_expr(ast.parse(s, mode="eval").body, constants=constants)
+
+    try:
+        tree = ast.parse(s, mode="eval")
+    except SyntaxError as ex:
+        raise NetParsingError(f"Encountered a syntax error: {ex.msg}", ex.lineno, ex.offset, original_error=ex) from ex
+
+    return _process_expr(tree.body, constants=constants)
-- 
2.43.0


From afdd057d7695595ff8a14c33643aaba03d973351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:27:01 +0000
Subject: [PATCH 078/106] fix: pass num_subbatches of GymNE on to the problem

---
 src/evotorch/neuroevolution/gymne.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evotorch/neuroevolution/gymne.py b/src/evotorch/neuroevolution/gymne.py
index 74d1ba9..66bf047 100644
--- a/src/evotorch/neuroevolution/gymne.py
+++ b/src/evotorch/neuroevolution/gymne.py
@@ -285,6 +285,7 @@ class GymNE(NEProblem):
             initial_bounds=initial_bounds,
             num_actors=num_actors,
             actor_config=actor_config,
+            num_subbatches=num_subbatches,
             subbatch_size=subbatch_size,
             device="cpu",
         )
-- 
2.43.0


From a83daccaf0047b17fb264492b0a531823550eb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:27:01 +0000
Subject: [PATCH 079/106] fix: count earlier episodes once when workers are
 made anew

---
 src/evotorch/neuroevolution/gymne.py    | 4 ++++
 src/evotorch/neuroevolution/vecgymne.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/evotorch/neuroevolution/gymne.py b/src/evotorch/neuroevolution/gymne.py
index 66bf047..78034df 100644
--- a/src/evotorch/neuroevolution/gymne.py
+++ b/src/evotorch/neuroevolution/gymne.py
@@ -584,6 +584,10 @@ class GymNE(NEProblem):
         # this function restores the inner states specific to this remote
         # worker. In the case of GymNE, those inner states are episode
         # and interaction counters.
+        if (not state) and (self.actor_index > 0):
+            # The counts so far (of the main problem) are continued only by the first worker.
+            self.set_episode_count(0)
+            self.set_interaction_count(0)
         for k, v in state.items():
             if k == "episode_count":
                 self.set_episode_count(v)
diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index f46e7c1..45cd970 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -725,6 +725,10 @@ class VecGymNE(BaseNEProblem):
         # this function restores the inner states specific to this remote
         # worker. In the case of GymNE, those inner states are episode
         # and interaction counters.
+        if (not state) and (self.actor_index > 0):
+            # The counts so far (of the main problem) are continued only by the first worker.
+            self.set_episode_count(0)
+            self.set_interaction_count(0)
         for k, v in state.items():
             if k == "episode_count":
                 self.set_episode_count(v)
-- 
2.43.0


From ffff354231ca9a190634adde7000a53282352e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:36:37 +0000
Subject: [PATCH 080/106] fix: accept the number of actors of VecGymNE as a
 string

---
 src/evotorch/neuroevolution/vecgymne.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 45cd970..2eb0cda 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -403,9 +403,9 @@ class VecGymNE(BaseNEProblem):
         device_is_cpu = (device is None) or (str(device) == "cpu")
         actors_use_gpu = (
             (num_actors is not None)
-            and (num_actors > 1)
+            and (isinstance(num_actors, str) or (num_actors > 1))
             and (num_gpus_per_actor is not None)
-            and (num_gpus_per_actor > 0)
+            and (isinstance(num_gpus_per_actor, str) or (num_gpus_per_actor > 0))
         )
 
         if not device_is_cpu:
-- 
2.43.0


From 5b01bd81bfc2841c07f309dda3bd1f6a45dce552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:36:37 +0000
Subject: [PATCH 081/106] fix: raise the intended error for invalid alive bonus
 schedules of VecGymNE

---
 src/evotorch/neuroevolution/vecgymne.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 2eb0cda..16fcc11 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -389,8 +389,8 @@ class VecGymNE(BaseNEProblem):
                 # `alive_bonus_schedule` sequences with unrecognized lengths trigger an error.
                 raise ValueError(
                     f"Received invalid number elements as the alive bonus schedule."
-                    f" Expected 2 or 3 items, but got these: {self._alive_bonus_schedule}"
-                    f" (having a length of {len(self._alive_bonus_schedule)})."
+                    f" Expected 2 or 3 items, but got these: {alive_bonus_schedule}"
+                    f" (having a length of {alive_bonus_schedule_length})."
                 )
 
         # If `action_noise_stdev` is specified, store it.
-- 
2.43.0


From aef31f3c5805fbec623518bea60fee63e70c7832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:36:37 +0000
Subject: [PATCH 082/106] fix: tell max_num_envs to actors which are made anew

---
 src/evotorch/neuroevolution/vecgymne.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 16fcc11..b2b3a0f 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -438,8 +438,12 @@ class VecGymNE(BaseNEProblem):
         self.after_eval_hook.append(self._extra_status)
 
     def _parallelize(self):
+        had_actors = self._actors is not None
         super()._parallelize()
         if self.is_main:
+            if (self._actors is not None) and (not had_actors):
+                # The actors were made just now, they do not know their limits yet
+                self._actor_max_num_envs_ready = False
             if not self._actor_max_num_envs_ready:
                 if self._actors is None:
                     self._actor_max_num_envs = self._max_num_envs
-- 
2.43.0


From 91f15171b7c7d2da543d3cfe1778920830155a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:36:37 +0000
Subject: [PATCH 083/106] fix: make the action noise of VecGymNE Gaussian

---
 src/evotorch/neuroevolution/vecgymne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index b2b3a0f..19d4872 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -849,7 +849,7 @@ class VecGymNE(BaseNEProblem):
             if self._action_noise_stdev is not None:
                 # If we are to apply action noise, we sample from a Gaussian distribution and add the noise onto
                 # the actions.
-                action_per_env = action_per_env + (torch.rand_like(action_per_env) * self._action_noise_stdev)
+                action_per_env = action_per_env + (torch.randn_like(action_per_env) * self._action_noise_stdev)
 
             # Apply the actions, get the observations, rewards, and the 'done' flags.
             obs_per_env, reward_per_env, done_per_env, _ = env.step(action_per_env)
-- 
2.43.0


From 7934044ad6ba23e3ed1d2bcea089526593e2b542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:36:37 +0000
Subject: [PATCH 084/106] fix: accept that an actor of VecGymNE collected no
 observations

---
 src/evotorch/neuroevolution/vecgymne.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 19d4872..eb8ff64 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -699,6 +699,9 @@ class VecGymNE(BaseNEProblem):
     def update_observation_stats(self, rn: RunningNorm):
         """Update the observation stats via another RunningNorm instance"""
         self._ensure_obsnorm()
+        if rn is None:
+            # An actor which had nothing to do did not collect any stats
+            return
         if self._obs_stats is None:
             self._obs_stats = rn
         else:
-- 
2.43.0


From 11b726e296bd734f506267fb97f749dcd6161d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:36:37 +0000
Subject: [PATCH 085/106] fix: do not update observation statistics which were
 given to VecGymNE

---
 src/evotorch/neuroevolution/vecgymne.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index eb8ff64..b68aaa7 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -15,6 +15,7 @@
 import pickle
 import random
 from collections.abc import Mapping
+from copy import deepcopy
 from datetime import datetime
 from pathlib import Path
 from typing import Any, Callable, Iterable, Optional, Union
@@ -671,7 +672,7 @@ class VecGymNE(BaseNEProblem):
     def set_observation_stats(self, rn: RunningNorm):
         """Set the observation stats"""
         self._ensure_obsnorm()
-        self._obs_stats = rn
+        self._obs_stats = deepcopy(rn)
 
     def _use_sync_data_from_main(self, received: dict):
         for k, v in received.items():
@@ -703,7 +704,7 @@ class VecGymNE(BaseNEProblem):
             # An actor which had nothing to do did not collect any stats
             return
         if self._obs_stats is None:
-            self._obs_stats = rn
+            self._obs_stats = deepcopy(rn)
         else:
             self._obs_stats.update(rn)
 
-- 
2.43.0


From f9906107affdad3ff8626ce1d0b18961081229ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:36:37 +0000
Subject: [PATCH 086/106] fix: keep the dtype of observations while normalizing
 them for a policy

---
 src/evotorch/neuroevolution/net/rl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/rl.py b/src/evotorch/neuroevolution/net/rl.py
index 09def39..a574545 100644
--- a/src/evotorch/neuroevolution/net/rl.py
+++ b/src/evotorch/neuroevolution/net/rl.py
@@ -175,7 +175,7 @@ class ObsNormWrapperModule(nn.Module):
         self.normalizer = normalizer
 
     def forward(self, x: torch.Tensor, h: Any = None) -> Union[torch.Tensor, tuple]:
-        x = self.normalizer(x)
+        x = self.normalizer(x).to(x.dtype)
 
         if h is None:
             result = self.wrapped_module(x)
-- 
2.43.0


From 234f266dfc51ac3ace64ca9f7c7be4004558ab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:36:37 +0000
Subject: [PATCH 087/106] fix: do not let a module made from a Policy share
 memory with the given parameters

---
 src/evotorch/neuroevolution/net/vecrl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/vecrl.py b/src/evotorch/neuroevolution/net/vecrl.py
index cfb04cc..e8340dd 100644
--- a/src/evotorch/neuroevolution/net/vecrl.py
+++ b/src/evotorch/neuroevolution/net/vecrl.py
@@ -1357,7 +1357,7 @@ class Policy:
         """
         with torch.no_grad():
             net = deepcopy(self.__module).to(parameter_vector.device)
-            nnu.vector_to_parameters(parameter_vector, net.parameters())
+            nnu.vector_to_parameters(parameter_vector.clone(), net.parameters())
         return net
 
 
-- 
2.43.0


From aa1a6e38d3c43c6124d2960ea045803e6875d390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:36:38 +0000
Subject: [PATCH 088/106] fix: compare the action shapes of the
 sub-environments of SyncVectorEnv

---
 src/evotorch/neuroevolution/net/vecrl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/vecrl.py b/src/evotorch/neuroevolution/net/vecrl.py
index e8340dd..28bf368 100644
--- a/src/evotorch/neuroevolution/net/vecrl.py
+++ b/src/evotorch/neuroevolution/net/vecrl.py
@@ -1630,7 +1630,7 @@ class SyncVectorEnv(BaseVectorEnv):
                 elif isinstance(env.action_space, Box):
                     if not isinstance(single_action_space, Box):
                         raise TypeError("The action space types of the sub-environments do not match")
-                    if env.observation_space.shape != single_observation_space.shape:
+                    if env.action_space.shape != single_action_space.shape:
                         raise ValueError("The action space shapes of the sub-environments do not match")
                 else:
                     assert False, "Code execution should not have reached here. This is most probably a bug."
-- 
2.43.0


From df80246a7ef1174f79879aa0945fd79ab2203e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:37:38 +0000
Subject: [PATCH 089/106] fix: hand max_num_envs over to the actors of VecGymNE

---
 src/evotorch/neuroevolution/vecgymne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index b68aaa7..8f14fa5 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -452,7 +452,7 @@ class VecGymNE(BaseNEProblem):
                     if self._max_num_envs is not None:
                         max_num_envs_per_actor = split_workload(self._max_num_envs, len(self._actors))
                         for i_actor, actor in enumerate(self._actors):
-                            actor.call.remote("_set_actor_max_num_envs", max_num_envs_per_actor[i_actor])
+                            actor.call.remote("_set_actor_max_num_envs", [max_num_envs_per_actor[i_actor]], {})
                 self._actor_max_num_envs_ready = True
 
     def _set_actor_max_num_envs(self, n: int):
-- 
2.43.0


From 5d3a67869c4665a4a43246a6031043c6a67727b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 13:56:08 +0000
Subject: [PATCH 090/106] fix: report copies of the lists of best and worst
 solutions

The status of a multi-objective problem handed out its own lists. A status which was kept by a logger changed when better solutions were found later.
---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index dea0038..a1d9b82 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2388,7 +2388,7 @@ class Problem(TensorMakerMixin, Serializable):
                 worst_eval=float(self._worst[0].evals[0]),
             )
         else:
-            return {"best": self._best, "worst": self._worst}
+            return {"best": list(self._best), "worst": list(self._worst)}
 
     def compare_solutions(self, a: "Solution", b: "Solution", obj_index: Optional[int] = None) -> float:
         """
-- 
2.43.0


From 6f384a198211b5df7fe2176ce2c2716a3e945f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 14:28:26 +0000
Subject: [PATCH 091/106] fix: make as_tensor infer the dtype and move tensors
 when no dtype is given

---
 src/evotorch/tools/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index 2ef39bc..19efcf3 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -1854,7 +1854,7 @@ def as_tensor(x: Any, *, dtype: Optional[DType] = None, device: Optional[Device]
     """
     from .objectarray import ObjectArray
 
-    if (dtype is None) and isinstance(x, (torch.Tensor, ObjectArray)):
+    if (dtype is None) and isinstance(x, ObjectArray):
         if (device is None) or (str(device) == "cpu"):
             return x
         else:
@@ -1875,7 +1875,7 @@ def as_tensor(x: Any, *, dtype: Optional[DType] = None, device: Optional[Device]
             result[:] = x
             return result
     else:
-        dtype = to_torch_dtype(dtype)
+        dtype = None if dtype is None else to_torch_dtype(dtype)
         return torch.as_tensor(x, dtype=dtype, device=device)
 
 
-- 
2.43.0


From 2c3211fa03c9271e93492156356d0dccfc682d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 14:28:26 +0000
Subject: [PATCH 092/106] fix: accept torch dtypes in numpy_copy

---
 src/evotorch/tools/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index 19efcf3..f20a780 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -1068,6 +1068,8 @@ def numpy_copy(x: Iterable, dtype: Optional[DType] = None) -> np.ndarray:
     from .objectarray import ObjectArray
 
     needs_casting = dtype is not None
+    if needs_casting:
+        dtype = to_numpy_dtype(dtype)
 
     if isinstance(x, ObjectArray):
         result = x.numpy()
-- 
2.43.0


From d5af2c503aa720911dce29aef220412784c45c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 14:28:26 +0000
Subject: [PATCH 093/106] fix: remove all handlers when overriding a logger
 configuration

---
 src/evotorch/tools/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index f20a780..59888d2 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -2118,7 +2118,7 @@ def set_default_logger_config(
         return
     elif override:
         # remove all handlers
-        for handler in logger.handlers:
+        for handler in list(logger.handlers):
             logger.removeHandler(handler)
 
     logger.setLevel(logger_level)
-- 
2.43.0


From fc1890f7d29f54c4c59be99aee95c204a13d61c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 14:28:44 +0000
Subject: [PATCH 094/106] fix: accept an integer shape for object arrays in
 empty_tensor_like

---
 src/evotorch/tools/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index 59888d2..0184f60 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -963,6 +963,8 @@ def empty_tensor_like(
                         f" Therefore, this given shape is incompatible: {shape}"
                     )
                 n = int(shape[0])
+            else:
+                n = int(shape)
         elif length is None and shape is None:
             n = len(source)
         else:
-- 
2.43.0


From 7697727e58ab11aa26301f9732217f2b432bc6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 14:30:58 +0000
Subject: [PATCH 095/106] fix: raise the intended ValueError when RunningNorm
 gets a wrongly shaped observation

---
 src/evotorch/neuroevolution/net/runningnorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index 29130a4..2a973fb 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -193,7 +193,7 @@ class RunningNorm:
             if x.shape != self._shape:
                 raise ValueError(
                     f"This RunningNorm instance was initialized with shape: {self._shape}."
-                    f" However, the provided tensor has an incompatible shape: {x._shape}."
+                    f" However, the provided tensor has an incompatible shape: {x.shape}."
                 )
         elif x.ndim == (self._ndim + 1):
             if x.shape[1:] != self._shape:
-- 
2.43.0


From 83dd15c305b4e24bebf9e1f80cc8f6d93dfbac0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 14:30:58 +0000
Subject: [PATCH 096/106] fix: allow moving a RunningNorm which has not
 collected any data yet

---
 src/evotorch/neuroevolution/net/runningnorm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index 2a973fb..6491d14 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -130,8 +130,8 @@ class RunningNorm:
             new_running_norm = object.__new__(type(self))
 
             already_handled = {"_sum", "_sum_of_squares", "_device"}
-            new_running_norm._sum = self._sum.to(device)
-            new_running_norm._sum_of_squares = self._sum_of_squares.to(device)
+            new_running_norm._sum = None if self._sum is None else self._sum.to(device)
+            new_running_norm._sum_of_squares = None if self._sum_of_squares is None else self._sum_of_squares.to(device)
             new_running_norm._device = device
 
             for k, v in self.__dict__.items():
-- 
2.43.0


From c4bc557a3a34b00c26bb9e77eb16140f84333d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 14:36:31 +0000
Subject: [PATCH 097/106] fix: do not confuse temporary objects while making
 containers immutable

---
 src/evotorch/tools/immutable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evotorch/tools/immutable.py b/src/evotorch/tools/immutable.py
index 96ad1cf..6db1897 100644
--- a/src/evotorch/tools/immutable.py
+++ b/src/evotorch/tools/immutable.py
@@ -92,6 +92,8 @@ def as_immutable(x: Any, *, memo: Optional[dict] = None) -> Any:
 
     if put_into_memo:
         memo[x_id] = result
+        # Keep `x` alive, so that its id cannot be taken by another object while `memo` is in use
+        memo.setdefault(id(memo), []).append(x)
 
     return result
 
-- 
2.43.0


From 95478f06551bed3d33d771c656e26db94fb29f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 15:48:19 +0000
Subject: [PATCH 098/106] fix: let PyCMAES accept stdev_init as a vector

The argument is documented as a scalar or a 1-dimensional array, but the
library cma rejects a vector as its initial step size. Coordinate-wise
standard deviations are now given via its option CMA_stds.
---
 src/evotorch/algorithms/pycmaes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evotorch/algorithms/pycmaes.py b/src/evotorch/algorithms/pycmaes.py
index ab583ee..78926e6 100644
--- a/src/evotorch/algorithms/pycmaes.py
+++ b/src/evotorch/algorithms/pycmaes.py
@@ -219,6 +219,10 @@ class PyCMAES(SearchAlgorithm, SinglePopulationAlgorithmMixin):
         store_opt("CMA_rankone", "rankone_learning_rate", rankone_learning_rate, float)
         store_opt("minstd", "stdev_min", stdev_min, array_or_float)
         store_opt("maxstd", "stdev_max", stdev_max, array_or_float)
+        if sigma0.ndim > 0:
+            # pycma expects sigma0 as a scalar, and coordinate-wise standard deviations via "CMA_stds".
+            store_opt("CMA_stds", "stdev_init", sigma0, array_or_float)
+            sigma0 = 1.0
         if separable:
             store_opt("CMA_diagonal", "separable", separable, bool)
 
-- 
2.43.0


From c0568a05be90e87308ea20034f15ebece22a08df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 15:52:07 +0000
Subject: [PATCH 099/106] fix: after a failed remote gradient computation, the
 next request could receive its leftovers

---
 src/evotorch/core.py | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index a1d9b82..b02e173 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2961,25 +2961,30 @@ class Problem(TensorMakerMixin, Serializable):
             dist_on_cpu = distribution.to("cpu")
 
             # Here, we use our actor pool to execute our tasks in parallel.
-            result = list(
-                self._actor_pool.map_unordered(
-                    (
-                        lambda a, v: a.call.remote(
-                            "_gradient_computation_helper",
-                            [dist_on_cpu, v[0]],
-                            {
-                                "obj_index": obj_index,
-                                "num_interactions": v[1],
-                                "popsize_max": v[2],
-                                "ranking_method": ranking_method,
-                                "with_stats": with_stats,
-                                "move_results_to_device": "cpu",
-                            },
-                        )
-                    ),
-                    list(zip(popsize_per_task, num_inter_per_task, popsize_max_per_task)),
+            try:
+                result = list(
+                    self._actor_pool.map_unordered(
+                        (
+                            lambda a, v: a.call.remote(
+                                "_gradient_computation_helper",
+                                [dist_on_cpu, v[0]],
+                                {
+                                    "obj_index": obj_index,
+                                    "num_interactions": v[1],
+                                    "popsize_max": v[2],
+                                    "ranking_method": ranking_method,
+                                    "with_stats": with_stats,
+                                    "move_results_to_device": "cpu",
+                                },
+                            )
+                        ),
+                        list(zip(popsize_per_task, num_inter_per_task, popsize_max_per_task)),
+                    )
                 )
-            )
+            except Exception:
+                # The results (or the errors) of the remaining tasks must not be seen by the next request
+                self._actor_pool = ActorPool(self._actors)
+                raise
 
             # At this point, all the tensors within our collected results are on the CPU.
 
-- 
2.43.0


From 302ef8560fcd0492eb6b91564707783dd8e49ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 15:59:39 +0000
Subject: [PATCH 100/106] fix: assert_almost_between rounded the boundaries
 when checking integers

---
 src/evotorch/testing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evotorch/testing.py b/src/evotorch/testing.py
index b41e926..ea15d3e 100644
--- a/src/evotorch/testing.py
+++ b/src/evotorch/testing.py
@@ -173,6 +173,9 @@ def assert_almost_between(
     """
 
     x = _to_numpy(x)
+    if not np.issubdtype(x.dtype, np.floating):
+        # The boundaries are converted to the dtype of x, which must not round them to integers
+        x = x.astype("float64")
     lb = _to_numpy(lb)
     ub = _to_numpy(ub)
 
-- 
2.43.0


From aadd3a5f9585d4f461733b629fe7c5bca2d50dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 15:59:39 +0000
Subject: [PATCH 101/106] fix: assert_eachclose rounded the desired value when
 checking integers

---
 src/evotorch/testing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evotorch/testing.py b/src/evotorch/testing.py
index ea15d3e..eaebe8a 100644
--- a/src/evotorch/testing.py
+++ b/src/evotorch/testing.py
@@ -270,6 +270,9 @@ def assert_eachclose(x: Iterable, value: Any, *, rtol: Optional[float] = None, a
         value = float(value)
 
     x = _to_numpy(x)
+    if not np.issubdtype(x.dtype, np.floating):
+        # The desired value is converted to the dtype of x, which must not round it to an integer
+        x = x.astype("float64")
     desired = np.empty_like(x)
     desired[:] = value
 
-- 
2.43.0


From 2765096afa8a916a71854b4ff45313a981f18111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 16:34:33 +0000
Subject: [PATCH 102/106] fix: CMemory.subtract_ refused values given as
 sequences

The value was negated before being converted to a tensor, although numeric
sequences are accepted by the other modification methods.
---
 src/evotorch/tools/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 2288bf3..dce1179 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -681,7 +681,7 @@ class CMemory:
                 If a `where` mask is given, then modifications will happen only
                 on the memory slots whose corresponding mask values are True.
         """
-        self.add_(key, -value, where)
+        self.add_(key, -self._get_value(value), where)
 
     def divide_(self, key: Numbers, value: Numbers, where: Optional[Numbers] = None):
         """
-- 
2.43.0


From b51cf7bd309beb07f4d359288a172bdb0ef68a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:02:10 +0000
Subject: [PATCH 103/106] fix: CMemory.divide_ refused values given as
 sequences

`1 / value` is undefined for a list, although the values of all the other
operations can be given as sequences of numbers.
---
 src/evotorch/tools/structures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index dce1179..62a4a7d 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -695,6 +695,9 @@ class CMemory:
                 If a `where` mask is given, then modifications will happen only
                 on the memory slots whose corresponding mask values are True.
         """
+        if not isinstance(value, (Number, torch.Tensor)):
+            dtype = self._data.dtype if self._data.is_floating_point() else None
+            value = torch.as_tensor(value, dtype=dtype, device=self._data.device)
         self.multiply_(key, 1 / value, where)
 
     def __getitem__(self, key: Numbers) -> torch.Tensor:
-- 
2.43.0


From f495e461ddc6e107bcee6d2bf77d863398cd85c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:35 +0000
Subject: [PATCH 104/106] fix: compare with double-precision bounds in
 assert_almost_between

Bounds given as Python numbers were rounded to single precision, so that a
double-precision value equal to its bound could be reported as outside.
---
 src/evotorch/testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/testing.py b/src/evotorch/testing.py
index eaebe8a..a6360ee 100644
--- a/src/evotorch/testing.py
+++ b/src/evotorch/testing.py
@@ -176,8 +176,8 @@ def assert_almost_between(
     if not np.issubdtype(x.dtype, np.floating):
         # The boundaries are converted to the dtype of x, which must not round them to integers
         x = x.astype("float64")
-    lb = _to_numpy(lb)
-    ub = _to_numpy(ub)
+    lb = _to_numpy(lb, dtype=x.dtype)
+    ub = _to_numpy(ub, dtype=x.dtype)
 
     if lb.shape != x.shape:
         lb = np.broadcast_to(lb, x.shape)
-- 
2.43.0


From 24874bc782a7b7f3a180c3c3cf200842f7f3de71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:53 +0000
Subject: [PATCH 105/106] fix: keep the crowding order of late fronts in
 take_best

The pareto rank and the crowding rank were added in single precision, which
cannot tell the solutions of a front apart in populations with many fronts.
---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index b02e173..6e72666 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -4427,7 +4427,7 @@ class SolutionBatch(Serializable):
         if obj_index is None and self._num_objs >= 2:
             ranks, crowdsort_ranks = self.compute_pareto_ranks(crowdsort=True)
             # Combine the ranks, such that solutions with a better crowdsort rank are weighted above solutions with the same pareto rank **only**
-            combined_ranks = ranks.to(torch.float) + 0.1 * crowdsort_ranks.to(torch.float) / len(self)
+            combined_ranks = ranks.to(torch.float64) + 0.1 * crowdsort_ranks.to(torch.float64) / len(self)
             indices = torch.argsort(combined_ranks)[:n]
         else:
             indices = self.argsort(obj_index)[:n]
-- 
2.43.0


From 1377e2ffff8a6d1af5384f92d4f4a89a3d883254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:40:00 +0000
Subject: [PATCH 106/106] fix: do not mix up short-lived items of a container
 when casting or inspecting its tensors

---
 src/evotorch/tools/misc.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index 0184f60..e2fc4aa 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -374,6 +374,9 @@ def cast_tensors_in_container(
     if container_id in memo:
         return memo[container_id]
 
+    # keep the container alive (its id could be taken over by another object otherwise)
+    memo.setdefault(id(memo), []).append(container)
+
     cast_kwargs = {}
     if dtype is not None:
         cast_kwargs["dtype"] = to_torch_dtype(dtype)
@@ -456,6 +459,9 @@ def dtype_of_container(
     if container_id in visited:
         return visited[container_id]
 
+    # keep the container alive (its id could be taken over by another object otherwise)
+    visited.setdefault(id(visited), []).append(container)
+
     if visiting is None:
         visiting = set()
 
@@ -538,6 +544,9 @@ def device_of_container(
     if container_id in visited:
         return visited[container_id]
 
+    # keep the container alive (its id could be taken over by another object otherwise)
+    visited.setdefault(id(visited), []).append(container)
+
     if visiting is None:
         visiting = set()
 
-- 
2.43.0

