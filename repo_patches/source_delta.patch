From f4693bb8d9412d2da31a6df8007e753fd2497eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 01/33] fix: drop out-of-range tuple positions in conditional
 updates instead of clipping them

---
 xtructure/core/xtructure_numpy/array_ops.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/array_ops.py b/xtructure/core/xtructure_numpy/array_ops.py
index aebea61..82c540f 100644
--- a/xtructure/core/xtructure_numpy/array_ops.py
+++ b/xtructure/core/xtructure_numpy/array_ops.py
@@ -27,6 +27,14 @@ def _update_array_on_condition(
         reshaped_array = original_array.reshape((flat_batch_size, *item_shape))
 
         raveled_indices = jnp.ravel_multi_index(indices, batch_shape, mode="clip")
+        # Positions outside the array are dropped, never clipped onto another entry.
+        for index, dim in zip(indices, batch_shape):
+            index = jnp.asarray(index)
+            raveled_indices = jnp.where(
+                jnp.logical_and(index >= 0, index < dim),
+                raveled_indices,
+                flat_batch_size,
+            )
 
         result = _update_array_on_condition(
             reshaped_array, raveled_indices, condition, values_to_set
-- 
2.43.0


From 2702394f4c0d1364adb4f57c910dace04d4fca22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 02/33] fix: widen narrow index dtypes in conditional updates
 so the array length fits

---
 xtructure/core/xtructure_numpy/array_ops.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/array_ops.py b/xtructure/core/xtructure_numpy/array_ops.py
index 82c540f..a3c7dd8 100644
--- a/xtructure/core/xtructure_numpy/array_ops.py
+++ b/xtructure/core/xtructure_numpy/array_ops.py
@@ -4,6 +4,13 @@ import jax.numpy as jnp
 import numpy as np
 
 
+def _widen_index_dtype(indices: jnp.ndarray) -> jnp.ndarray:
+    """Widen integer indices whose dtype may be too narrow to hold an array length."""
+    if jnp.issubdtype(indices.dtype, jnp.integer) and indices.dtype.itemsize < 4:
+        return indices.astype(jnp.int32)
+    return indices
+
+
 def _update_array_on_condition(
     original_array: jnp.ndarray,
     indices: Union[jnp.ndarray, tuple[jnp.ndarray, ...]],
@@ -26,10 +33,10 @@ def _update_array_on_condition(
         flat_batch_size = np.prod(batch_shape).item()
         reshaped_array = original_array.reshape((flat_batch_size, *item_shape))
 
+        indices = tuple(_widen_index_dtype(jnp.asarray(index)) for index in indices)
         raveled_indices = jnp.ravel_multi_index(indices, batch_shape, mode="clip")
         # Positions outside the array are dropped, never clipped onto another entry.
         for index, dim in zip(indices, batch_shape):
-            index = jnp.asarray(index)
             raveled_indices = jnp.where(
                 jnp.logical_and(index >= 0, index < dim),
                 raveled_indices,
@@ -52,7 +59,7 @@ def _update_array_on_condition(
             f"`condition` shape {condition.shape} must match `indices` shape {indices_array.shape}."
         )
 
-    indices_array = jnp.reshape(indices_array, (num_updates,))
+    indices_array = _widen_index_dtype(jnp.reshape(indices_array, (num_updates,)))
     index_dtype = indices_array.dtype
     invalid_index = jnp.array(original_array.shape[0], dtype=index_dtype)
 
-- 
2.43.0


From e13ed6441069d39fdc1d197931da611a36708b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 03/33] fix: honour slice indices in at[...].set_as_condition
 instead of ignoring the update

---
 xtructure/core/xtructure_numpy/array_ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/array_ops.py b/xtructure/core/xtructure_numpy/array_ops.py
index a3c7dd8..5e79a28 100644
--- a/xtructure/core/xtructure_numpy/array_ops.py
+++ b/xtructure/core/xtructure_numpy/array_ops.py
@@ -48,6 +48,9 @@ def _update_array_on_condition(
         )
         return result.reshape(original_array.shape)
 
+    if isinstance(indices, slice):
+        indices = jnp.arange(original_array.shape[0], dtype=jnp.int32)[indices]
+
     condition = jnp.asarray(condition, dtype=jnp.bool_)
     num_updates = condition.size
     if num_updates == 0:
-- 
2.43.0


From efd6793efece472728d1df07f6608425dd62509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 04/33] fix: include the packed tail in unique_mask's default
 key so distinct items stay distinct

---
 .../dataclass_ops/unique_ops/optimized_unique_ops.py          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index d376481..7c131a9 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -108,7 +108,9 @@ def unique_mask(
         def _key_fn(x):
             # Prefer aggregate-packed representation if available for density
             if hasattr(x, "packed") and hasattr(x, "bitpack_schema"):
-                return x.packed.words
+                packed = x.packed
+                # The sub-word tail is content too.
+                return jnp.concatenate([packed.words, packed.tail.astype(jnp.uint32)])
             return x.uint32ed
 
         key_fn_local = _key_fn
-- 
2.43.0


From 7214c29f015bcc78a3a9ff581ca0cb4efa6a1ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 05/33] fix: keep valid all-ones items in unique_mask when
 invalid items share their sort key

---
 .../dataclass_ops/unique_ops/optimized_unique_ops.py           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index 7c131a9..c32c4d0 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -181,6 +181,9 @@ def unique_mask(
         inf_fill = jnp.array(jnp.inf, dtype=key_arr2.dtype)
         valid_key = jnp.where(effective_filled, key_arr2, inf_fill)
         perm = _stable_sort_perm(perm, valid_key)
+    elif filled is not None:
+        # Valid items precede invalid ones even if their hash equals MAX_KEY.
+        perm = _stable_sort_perm(perm, jnp.logical_not(effective_filled))
 
     # Hash keys: least significant first so the first hash becomes most significant.
     for h in reversed(hashes):
-- 
2.43.0


From 2cfc86d734f9d0ef9a95330b014925c0bd9f2b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 06/33] fix: regroup by full keys in unique_mask when the lossy
 wide hash collides

---
 .../unique_ops/optimized_unique_ops.py        | 33 +++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index c32c4d0..4b53a96 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -185,6 +185,8 @@ def unique_mask(
         # Valid items precede invalid ones even if their hash equals MAX_KEY.
         perm = _stable_sort_perm(perm, jnp.logical_not(effective_filled))
 
+    tie_break_perm = perm
+
     # Hash keys: least significant first so the first hash becomes most significant.
     for h in reversed(hashes):
         perm = _stable_sort_perm(perm, h)
@@ -198,6 +200,37 @@ def unique_mask(
     for d in diffs[1:]:
         is_diff = jnp.logical_or(is_diff, d)
 
+    if keys_flat.shape[1] > len(hashes):
+        # The wide hash is lossy: regroup by the full keys if distinct keys collided.
+        def _rows_differ(p):
+            rows = keys_flat[p]
+            return jnp.any(rows[1:] != rows[:-1], axis=1)
+
+        def _both_valid(p):
+            valid = effective_filled[p]
+            return jnp.logical_and(valid[1:], valid[:-1])
+
+        def _regroup(_):
+            exact_perm = lax.fori_loop(
+                0,
+                keys_flat.shape[1],
+                lambda i, p: _stable_sort_perm(
+                    p, lax.dynamic_index_in_dim(keys_flat, i, axis=1, keepdims=False)
+                ),
+                tie_break_perm,
+            )
+            exact_perm = _stable_sort_perm(
+                exact_perm, jnp.logical_not(effective_filled)
+            )
+            return exact_perm, _rows_differ(exact_perm)
+
+        collided = jnp.any(
+            jnp.logical_not(is_diff) & _rows_differ(perm) & _both_valid(perm)
+        )
+        perm, is_diff = lax.cond(
+            collided, _regroup, lambda _: (perm, is_diff), operand=None
+        )
+
     mask_sorted = jnp.concatenate([jnp.array([True]), is_diff])
 
     # 7. Filter out the invalid group
-- 
2.43.0


From 361ee17dac5cbef8f24fc609348273cc7a3dace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 07/33] fix: pack and unpack empty arrays for every bit width

---
 .../core/xtructure_decorators/aggregate_bitpack/bitpack.py   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py b/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
index 36bf01b..5889fe1 100644
--- a/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
+++ b/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
@@ -156,6 +156,8 @@ def to_uint8(values: chex.Array, active_bits: int = 1) -> chex.Array:
     )
 
     values_flat = values.reshape((-1,))
+    if values_flat.size == 0:
+        return jnp.zeros((0,), dtype=jnp.uint8)
 
     # Fast path for byte-aligned packing.
     if active_bits == 8:
@@ -222,7 +224,8 @@ def from_uint8(
         # Preserve dtype semantics even for empty tensors.
         if active_bits == 1:
             return jnp.zeros(target_shape, dtype=jnp.bool_)
-        return jnp.zeros(target_shape, dtype=jnp.uint8)
+        out_dtype = jnp.uint8 if active_bits <= 8 else jnp.uint32
+        return jnp.zeros(target_shape, dtype=out_dtype)
 
     if active_bits == 1:
         bits = jnp.unpackbits(
-- 
2.43.0


From 50e6e6edd466ec9d095a2b8d669bba375fb0d29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 08/33] fix: pack and unpack per-field packed accessors on
 zero-length batches

---
 .../core/xtructure_decorators/bitpack_accessors.py  | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/bitpack_accessors.py b/xtructure/core/xtructure_decorators/bitpack_accessors.py
index ac5fbf6..0bc0047 100644
--- a/xtructure/core/xtructure_decorators/bitpack_accessors.py
+++ b/xtructure/core/xtructure_decorators/bitpack_accessors.py
@@ -103,7 +103,8 @@ def _unpack_value(
             f"got {packed_arr.shape[-1]}."
         )
 
-    flat = packed_arr.reshape((-1, expected_packed_len))
+    rows = int(np.prod(np.array(batch_shape, dtype=np.int64)))
+    flat = packed_arr.reshape((rows, expected_packed_len))
 
     if num_values == 0:
         out_dtype = jnp.bool_ if packed_bits == 1 else jnp.uint8
@@ -124,9 +125,10 @@ def _unpack_value(
             flat, ((0, 0), (0, pad_bytes)), mode="constant", constant_values=0
         )
 
+    num_words = flat.shape[1] // 4
     words = jax.lax.bitcast_convert_type(
-        flat.reshape((flat.shape[0], -1, 4)), jnp.uint32
-    ).reshape((flat.shape[0], -1))
+        flat.reshape((rows, num_words, 4)), jnp.uint32
+    ).reshape((rows, num_words))
     words_padded = jnp.concatenate(
         [words, jnp.zeros((words.shape[0], 1), dtype=jnp.uint32)], axis=1
     )
@@ -183,7 +185,8 @@ def _pack_value(
     num_values = int(np.prod(np.array(unpacked_shape, dtype=np.int64)))
     expected_packed_len = packed_num_bytes(num_values, packed_bits)
 
-    flat = arr.reshape((-1, num_values))
+    rows = int(np.prod(np.array(batch_shape, dtype=np.int64)))
+    flat = arr.reshape((rows, num_values))
 
     if num_values == 0:
         return jnp.zeros((flat.shape[0], expected_packed_len), dtype=jnp.uint8).reshape(
@@ -222,7 +225,7 @@ def _pack_value(
 
     words = pack_words_all_xla(jnp.asarray(flat, dtype=jnp.uint32), tables)
     bytes_all = jax.lax.bitcast_convert_type(words, jnp.uint8).reshape(
-        (flat.shape[0], -1)
+        (rows, words.shape[1] * 4)
     )
     packed = bytes_all[:, :expected_packed_len]
     return packed.reshape(batch_shape + (expected_packed_len,)).astype(jnp.uint8)
-- 
2.43.0


From a189a96d68142a0448ce8970d8dac4a611ddff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 09/33] fix: resolve slices in Packed.unpack_field against the
 field length

---
 .../core/xtructure_decorators/aggregate_bitpack/__init__.py   | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py b/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
index 09c31f4..4c01986 100644
--- a/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
+++ b/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
@@ -260,9 +260,7 @@ def add_aggregate_bitpack(cls: Type[T]) -> Type[T]:
         if indices is None:
             return jnp.arange(nvalues, dtype=jnp.int32)
         if isinstance(indices, slice):
-            start = 0 if indices.start is None else int(indices.start)
-            stop = nvalues if indices.stop is None else int(indices.stop)
-            step = 1 if indices.step is None else int(indices.step)
+            start, stop, step = indices.indices(nvalues)
             return jnp.arange(start, stop, step, dtype=jnp.int32)
         if isinstance(indices, (list, tuple, np.ndarray)):
             return jnp.asarray(indices, dtype=jnp.int32).reshape((-1,))
-- 
2.43.0


From 7fab9709722656829e4f4d21512cc3af62996674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 10/33] fix: streaming hash of zero-byte instances agrees with
 the other variants

---
 xtructure/core/xtructure_decorators/hash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/hash.py b/xtructure/core/xtructure_decorators/hash.py
index a13e461..266344d 100644
--- a/xtructure/core/xtructure_decorators/hash.py
+++ b/xtructure/core/xtructure_decorators/hash.py
@@ -241,7 +241,7 @@ def byterize_hash_func_builder(x: Xtructurable):
     def _hash_streaming_from_leaves(flat_leaves, seed):
         """Hash without materializing the full concatenated uint32ed buffer."""
         seed_u32 = jnp.uint32(seed)
-        if len(flat_leaves) == 0:
+        if all(leaf.shape[0] == 0 for leaf in flat_leaves):
             return _avalanche32(seed_u32 ^ jnp.uint32(0x9E3779B1))
 
         combined = jnp.uint32(0)
@@ -265,7 +265,7 @@ def byterize_hash_func_builder(x: Xtructurable):
     def _hash_pair_streaming_from_leaves(flat_leaves, seed):
         """Hash pair without materializing the full concatenated uint32ed buffer."""
         seed_u32 = jnp.uint32(seed)
-        if len(flat_leaves) == 0:
+        if all(leaf.shape[0] == 0 for leaf in flat_leaves):
             h0 = _avalanche32(seed_u32 ^ jnp.uint32(0x9E3779B1))
             h1 = _avalanche32(seed_u32 ^ jnp.uint32(0x85EBCA6B))
             return h0, h1
-- 
2.43.0


From 2637f21284bed2caaad7d7e2607e9b7153140a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:24 +0000
Subject: [PATCH 11/33] fix: save fields whose values exceed the declared bits
 unpacked instead of truncating them

---
 xtructure/io/io.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index 11679a2..f909907 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -31,6 +31,15 @@ def _bitpack_keys(full_key: str) -> Tuple[str, str, str, str]:
     return data_key, shape_key, bits_key, dtype_key
 
 
+def _decodes_exactly(packed_bytes: Any, value: Any, *, bits: int) -> bool:
+    """Return whether unpacking `packed_bytes` gives back exactly `value`."""
+    value = jnp.asarray(value)
+    if not (value.dtype == jnp.bool_ or jnp.issubdtype(value.dtype, jnp.integer)):
+        return False
+    decoded = from_uint8(packed_bytes, target_shape=value.shape, active_bits=bits)
+    return bool(jnp.all(decoded.astype(value.dtype) == value))
+
+
 def _flatten_instance_for_save(
     instance: Xtructurable, prefix: str = "", *, packed: bool = True
 ) -> Dict[str, np.ndarray]:
@@ -61,6 +70,10 @@ def _flatten_instance_for_save(
             ):
                 data_key, shape_key, bits_key, dtype_key = _bitpack_keys(full_key)
                 packed_bytes = to_uint8(jnp.asarray(value), active_bits=int(bits))
+                if not _decodes_exactly(packed_bytes, value, bits=int(bits)):
+                    # Some value does not fit the declared bits: store it unpacked.
+                    flat_data[full_key] = np.asarray(value)
+                    continue
                 flat_data[data_key] = np.asarray(packed_bytes, dtype=np.uint8)
                 flat_data[shape_key] = np.asarray(np.array(value.shape, dtype=np.int32))
                 flat_data[bits_key] = np.asarray(np.array([int(bits)], dtype=np.uint8))
-- 
2.43.0


From 28d1695c6bc37901c9adad2cb9369b5b1d4d673a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:24 +0000
Subject: [PATCH 12/33] fix: load bit-packed fields with the dtype they were
 saved with

---
 xtructure/io/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index f909907..1f7e3bf 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -147,8 +147,10 @@ def _unflatten_data_for_load(
                 unpacked = from_uint8(
                     packed_bytes, target_shape=shape, active_bits=bits
                 )
-                # Cast back to declared dtype when possible.
-                if field_descriptor is not None and not is_xtructure_dataclass_type(
+                # Cast back to the saved dtype (declared dtype for files without it).
+                if dtype_key in data:
+                    unpacked = unpacked.astype(jnp.dtype(str(data[dtype_key])))
+                elif field_descriptor is not None and not is_xtructure_dataclass_type(
                     field_descriptor.dtype
                 ):
                     try:
-- 
2.43.0


From 90347d3da5f86642334c4f9321b6f3877d1727fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:24 +0000
Subject: [PATCH 13/33] fix: restore bfloat16 and other extension dtypes when
 loading

---
 xtructure/io/io.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index 1f7e3bf..1bf9865 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -31,6 +31,15 @@ def _bitpack_keys(full_key: str) -> Tuple[str, str, str, str]:
     return data_key, shape_key, bits_key, dtype_key
 
 
+def _store_array(flat_data: Dict[str, np.ndarray], full_key: str, value: Any) -> None:
+    """Store an array; dtypes npz cannot name (e.g. bfloat16) are recorded beside it."""
+    flat_data[full_key] = np.asarray(value)
+    if value.dtype.kind == "V":
+        flat_data[_bitpack_keys(full_key)[3]] = np.asarray(
+            np.array(str(value.dtype), dtype=np.str_)
+        )
+
+
 def _decodes_exactly(packed_bytes: Any, value: Any, *, bits: int) -> bool:
     """Return whether unpacking `packed_bytes` gives back exactly `value`."""
     value = jnp.asarray(value)
@@ -72,7 +81,7 @@ def _flatten_instance_for_save(
                 packed_bytes = to_uint8(jnp.asarray(value), active_bits=int(bits))
                 if not _decodes_exactly(packed_bytes, value, bits=int(bits)):
                     # Some value does not fit the declared bits: store it unpacked.
-                    flat_data[full_key] = np.asarray(value)
+                    _store_array(flat_data, full_key, value)
                     continue
                 flat_data[data_key] = np.asarray(packed_bytes, dtype=np.uint8)
                 flat_data[shape_key] = np.asarray(np.array(value.shape, dtype=np.int32))
@@ -81,7 +90,7 @@ def _flatten_instance_for_save(
                     np.array(str(jnp.asarray(value).dtype), dtype=np.str_)
                 )
             else:
-                flat_data[full_key] = np.asarray(value)
+                _store_array(flat_data, full_key, value)
         else:
             # For non-array-like fields, save as 0-dim array
             flat_data[full_key] = np.array(value)
@@ -160,7 +169,10 @@ def _unflatten_data_for_load(
                 field_values[field_name] = unpacked
             elif full_key in data:
                 # Load JAX array from NumPy array
-                field_values[field_name] = jnp.array(data[full_key])
+                array = data[full_key]
+                if dtype_key in data and array.dtype.kind == "V":
+                    array = array.view(jnp.dtype(str(data[dtype_key])))
+                field_values[field_name] = jnp.array(array)
     return field_values
 
 
-- 
2.43.0


From 1aca15b356eeb927eabd0089aeae84c147b02e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:24 +0000
Subject: [PATCH 14/33] fix: load finds the .npz file that save wrote for a
 path without extension

---
 xtructure/io/io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index 1bf9865..63427eb 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -189,6 +189,10 @@ def load(path: str) -> Xtructurable:
     Returns:
         A new instance of the saved xtructure dataclass.
     """
+    path = os.fspath(path)
+    if not path.endswith(".npz") and os.path.exists(path + ".npz"):
+        path = path + ".npz"  # np.savez appends the extension when saving
+
     with np.load(path, allow_pickle=False) as data:
         # Extract metadata
         if METADATA_MODULE_KEY not in data or METADATA_CLASS_NAME_KEY not in data:
-- 
2.43.0


From 6444aefda3653363d0c28481c66ec85b45b694f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:24 +0000
Subject: [PATCH 15/33] fix: save classes with fields named file or
 allow_pickle

---
 xtructure/io/io.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index 63427eb..f30b38d 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -21,6 +21,15 @@ METADATA_CLASS_NAME_KEY = "__xtructure_class_name__"
 
 _BITPACK_PREFIX = "__xtructure_bitpack__"
 
+# Parameter names of np.savez_compressed, which cannot be used as array names.
+_RESERVED_KEYS = ("file", "allow_pickle")
+
+
+def _field_key(prefix: str, field_name: str) -> str:
+    if not prefix and field_name in _RESERVED_KEYS:
+        return f"__xtructure_field__.{field_name}"
+    return f"{prefix}{field_name}"
+
 
 def _bitpack_keys(full_key: str) -> Tuple[str, str, str, str]:
     # Use separate arrays so we can keep npz backward compatible and inspectable.
@@ -58,7 +67,7 @@ def _flatten_instance_for_save(
     for field in dataclasses.fields(instance):
         field_name = field.name
         value = getattr(instance, field_name)
-        full_key = f"{prefix}{field_name}"
+        full_key = _field_key(prefix, field_name)
         descriptor = descriptors.get(field_name)
 
         if is_xtructure_dataclass_type(type(value)):
@@ -137,7 +146,7 @@ def _unflatten_data_for_load(
     descriptors = get_field_descriptors(cls)
     for field in dataclasses.fields(cls):
         field_name = field.name
-        full_key = f"{prefix}{field_name}"
+        full_key = _field_key(prefix, field_name)
 
         field_descriptor = descriptors.get(field_name)
         if field_descriptor and is_xtructure_dataclass_type(field_descriptor.dtype):
-- 
2.43.0


From 9fbfa813533721380b35374068b6d531c78c58ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:09 +0000
Subject: [PATCH 16/33] fix: save float and bool fields that declare more than
 one bit

---
 xtructure/io/io.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index f30b38d..dc5911b 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -49,13 +49,17 @@ def _store_array(flat_data: Dict[str, np.ndarray], full_key: str, value: Any) ->
         )
 
 
-def _decodes_exactly(packed_bytes: Any, value: Any, *, bits: int) -> bool:
-    """Return whether unpacking `packed_bytes` gives back exactly `value`."""
+def _pack_exactly(value: Any, *, bits: int) -> Any:
+    """Return `value` packed with `bits` bits per value, or None if that loses information."""
     value = jnp.asarray(value)
-    if not (value.dtype == jnp.bool_ or jnp.issubdtype(value.dtype, jnp.integer)):
-        return False
+    if value.dtype == jnp.bool_:
+        return to_uint8(value, active_bits=bits) if bits == 1 else None
+    if not jnp.issubdtype(value.dtype, jnp.integer):
+        return None
+    packed_bytes = to_uint8(value, active_bits=bits)
     decoded = from_uint8(packed_bytes, target_shape=value.shape, active_bits=bits)
-    return bool(jnp.all(decoded.astype(value.dtype) == value))
+    exact = jnp.all(decoded.astype(value.dtype) == value)
+    return packed_bytes if bool(exact) else None
 
 
 def _flatten_instance_for_save(
@@ -87,8 +91,8 @@ def _flatten_instance_for_save(
                 )
             ):
                 data_key, shape_key, bits_key, dtype_key = _bitpack_keys(full_key)
-                packed_bytes = to_uint8(jnp.asarray(value), active_bits=int(bits))
-                if not _decodes_exactly(packed_bytes, value, bits=int(bits)):
+                packed_bytes = _pack_exactly(value, bits=int(bits))
+                if packed_bytes is None:
                     # Some value does not fit the declared bits: store it unpacked.
                     _store_array(flat_data, full_key, value)
                     continue
-- 
2.43.0


From 95c140e3d547e18a73a452c4faf1892ee694fe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 17/33] fix: count negative concat axes over the batch
 dimensions

---
 xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
index 56913bf..be03076 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
@@ -66,7 +66,7 @@ def concat(dataclasses: List[T], axis: int = 0) -> T:
         first_batch_shape = dataclasses[0].shape.batch
         concat_axis_adjusted = axis if axis >= 0 else len(first_batch_shape) + axis
 
-        if concat_axis_adjusted >= len(first_batch_shape):
+        if not 0 <= concat_axis_adjusted < len(first_batch_shape):
             raise ValueError(
                 f"Concatenation axis {axis} is out of bounds for batch shape {first_batch_shape}"
             )
@@ -85,7 +85,8 @@ def concat(dataclasses: List[T], axis: int = 0) -> T:
                     )
 
         return jax.tree_util.tree_map(
-            lambda *arrays: jnp.concatenate(arrays, axis=axis), *dataclasses
+            lambda *arrays: jnp.concatenate(arrays, axis=concat_axis_adjusted),
+            *dataclasses,
         )
 
     raise ValueError(
-- 
2.43.0


From 1e375eb9f221df0395b9285958f432d2c6a310ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 18/33] fix: count negative stack axes over the batch
 dimensions

---
 .../core/xtructure_numpy/dataclass_ops/batch_ops.py      | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
index be03076..f84b493 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
@@ -175,6 +175,15 @@ def stack(dataclasses: List[T], axis: int = 0) -> T:
     if not dataclasses:
         raise ValueError("Cannot stack empty list of dataclasses")
 
+    batch_shape = dataclasses[0].shape.batch
+    if axis < 0 and batch_shape != -1:
+        # The new axis is placed among the batch dimensions.
+        if axis < -(len(batch_shape) + 1):
+            raise ValueError(
+                f"Stack axis {axis} is out of bounds for batch shape {batch_shape}"
+            )
+        axis += len(batch_shape) + 1
+
     if len(dataclasses) == 1:
         return jax.tree_util.tree_map(
             lambda x: jnp.expand_dims(x, axis=axis), dataclasses[0]
-- 
2.43.0


From fa2744cde41796a53c275db91d8db22e7501ac2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 19/33] fix: count negative transpose axes over the batch
 dimensions, reject stack axes beyond them

---
 xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py | 7 ++++---
 xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py | 2 ++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
index f84b493..852b030 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
@@ -176,13 +176,14 @@ def stack(dataclasses: List[T], axis: int = 0) -> T:
         raise ValueError("Cannot stack empty list of dataclasses")
 
     batch_shape = dataclasses[0].shape.batch
-    if axis < 0 and batch_shape != -1:
+    if batch_shape != -1:
         # The new axis is placed among the batch dimensions.
-        if axis < -(len(batch_shape) + 1):
+        new_ndim = len(batch_shape) + 1
+        if not -new_ndim <= axis < new_ndim:
             raise ValueError(
                 f"Stack axis {axis} is out of bounds for batch shape {batch_shape}"
             )
-        axis += len(batch_shape) + 1
+        axis %= new_ndim
 
     if len(dataclasses) == 1:
         return jax.tree_util.tree_map(
diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py
index 4521966..e153466 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py
@@ -111,6 +111,8 @@ def transpose(dataclass_instance: T, axes: Union[tuple[int, ...], None] = None)
 
     if axes is None:
         axes = tuple(range(batch_ndim - 1, -1, -1))
+    else:
+        axes = tuple(axis + batch_ndim if axis < 0 else axis for axis in axes)
 
     def transpose_batch_only(field: jnp.ndarray) -> jnp.ndarray:
         field_ndim = jnp.ndim(field)
-- 
2.43.0


From f8c1a55ffc0c68e71e9621c7a4d7cc4495f7c0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 20/33] fix: where keeps a field's dtype for Python scalars,
 like jnp.where

---
 xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py
index fc4461c..d0208f4 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py
@@ -42,7 +42,7 @@ def where(
                         "broadcast to match `x` field shape {x_field.shape}."
                         f"Original `y` shape: {y_array.shape}, `x` shape: {x_field.shape}."
                     ) from err
-            target_dtype = jnp.result_type(x_field.dtype, y_array.dtype)
+            target_dtype = jnp.result_type(x_field, y_array)
             return _where_no_broadcast(
                 cond,
                 jnp.asarray(x_field, dtype=target_dtype),
@@ -63,7 +63,7 @@ def where(
                 "broadcast to match `x` field shape {x_field.shape}."
                 f"Original `y` shape: {scalar_value.shape}, `x` shape: {x_field.shape}."
             ) from err
-        target_dtype = jnp.result_type(x_field.dtype, y_array.dtype)
+        target_dtype = jnp.result_type(x_field, y_array)
         return _where_no_broadcast(
             cond,
             jnp.asarray(x_field, dtype=target_dtype),
-- 
2.43.0


From 467347f8c6ca02d16707e373ecb9466537b63447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 21/33] fix: from_tuple rebuilds an instance from to_tuple's
 result

---
 xtructure/core/dataclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xtructure/core/dataclass.py b/xtructure/core/dataclass.py
index 7c1395f..30dc41f 100644
--- a/xtructure/core/dataclass.py
+++ b/xtructure/core/dataclass.py
@@ -125,7 +125,7 @@ class _Dataclass:
             )
 
         def _from_tuple(args):
-            return dcls(zip(dcls.__dataclass_fields__.keys(), args))
+            return dcls(**dict(zip(dcls.__dataclass_fields__.keys(), args)))
 
         def _to_tuple(self):
             return tuple(getattr(self, k) for k in self.__dataclass_fields__.keys())
-- 
2.43.0


From 209ec0b34b7502b6cf84657beb1ff9e26326486e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 22/33] fix: report unstructured nested tensor fields instead
 of raising in shape

---
 xtructure/core/xtructure_decorators/shape.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_decorators/shape.py b/xtructure/core/xtructure_decorators/shape.py
index b6511dc..4221cb9 100644
--- a/xtructure/core/xtructure_decorators/shape.py
+++ b/xtructure/core/xtructure_decorators/shape.py
@@ -79,7 +79,10 @@ def add_shape_dtype_len(cls: Type[T]) -> Type[T]:
                 and shape.__class__.__name__ == "shape"
             ):
                 # If the field is itself a xtructure_dataclass (nested shape_tuple)
-                if default_shape_field == ():
+                if shape.batch == -1:
+                    # An unstructured nested instance has no batch shape to compare.
+                    batch_shapes.append(-1)
+                elif default_shape_field == ():
                     batch_shapes.append(shape.batch)
                     shape = shape.__class__((), *shape[1:])
                 elif shape.batch[-len(default_shape_field) :] == default_shape_field:
-- 
2.43.0


From 17fa338d593b3b0a54c14bb33b966fe5cf7e5519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 23/33] fix: report shape, dtype and structured type of the
 current fields after reassignment

---
 xtructure/core/xtructure_decorators/shape.py | 35 +++-----------------
 1 file changed, 4 insertions(+), 31 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/shape.py b/xtructure/core/xtructure_decorators/shape.py
index 4221cb9..4a6a589 100644
--- a/xtructure/core/xtructure_decorators/shape.py
+++ b/xtructure/core/xtructure_decorators/shape.py
@@ -39,21 +39,10 @@ def add_shape_dtype_len(cls: Type[T]) -> Type[T]:
         Returns a namedtuple containing the batch shape (if present) and the shapes of all fields.
         If a field is itself a xtructure_dataclass, its shape is included as a nested namedtuple.
         """
-        # Return cached shape if available
-        # Use simple attribute access with default.
-        # 'shape' property itself prevents direct access to _shape_cache if valid?
-        # No, _shape_cache is a separate attribute.
-        try:
-            return self._shape_cache
-        except AttributeError:
-            pass
-
         # Determine batch: if all fields have a leading batch dimension of the same size, use it.
         # Otherwise, batch is ().
         if not field_names:
-            result = shape_tuple((), *[])
-            object.__setattr__(self, "_shape_cache", result)
-            return result
+            return shape_tuple((), *[])
 
         values = _field_getter(self)
         if len(field_names) == 1:
@@ -107,10 +96,8 @@ def add_shape_dtype_len(cls: Type[T]) -> Type[T]:
             if batch_shape == -1 or final_batch_shape != batch_shape:
                 final_batch_shape = -1
                 break
-        result = shape_tuple(final_batch_shape, *field_shapes)
-        # Cache the result using object.__setattr__ to avoid potential frozen issues or overhead
-        object.__setattr__(self, "_shape_cache", result)
-        return result
+        # Not cached: fields may be reassigned on the instance (or a nested one).
+        return shape_tuple(final_batch_shape, *field_shapes)
 
     setattr(cls, "shape", property(get_shape))
 
@@ -118,16 +105,9 @@ def add_shape_dtype_len(cls: Type[T]) -> Type[T]:
 
     def get_type(self) -> type_tuple:
         """Get dtypes of all fields in the dataclass"""
-        try:
-            return self._dtype_cache
-        except AttributeError:
-            pass
-
-        result = type_tuple(
+        return type_tuple(
             *[getattr(self, field_name).dtype for field_name in field_names]
         )
-        object.__setattr__(self, "_dtype_cache", result)
-        return result
 
     setattr(cls, "dtype", property(get_type))
 
@@ -153,11 +133,6 @@ def add_shape_dtype_len(cls: Type[T]) -> Type[T]:
     setattr(cls, "__len__", get_len)
 
     def get_structured_type(self) -> StructuredType:
-        try:
-            return self._structured_type_cache
-        except AttributeError:
-            pass
-
         shape = self.shape
         if shape.batch == ():
             result = StructuredType.SINGLE
@@ -165,8 +140,6 @@ def add_shape_dtype_len(cls: Type[T]) -> Type[T]:
             result = StructuredType.UNSTRUCTURED
         else:
             result = StructuredType.BATCHED
-
-        object.__setattr__(self, "_structured_type_cache", result)
         return result
 
     setattr(cls, "structured_type", property(get_structured_type))
-- 
2.43.0


From 821afa026dace93bca25fc1370f077b9d8ea87a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 24/33] fix: compare instances of a subclass as unequal and
 field-less instances as equal instead of raising

---
 xtructure/core/xtructure_decorators/ops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/ops.py b/xtructure/core/xtructure_decorators/ops.py
index eb110a1..7d7767f 100644
--- a/xtructure/core/xtructure_decorators/ops.py
+++ b/xtructure/core/xtructure_decorators/ops.py
@@ -25,7 +25,7 @@ def add_comparison_operators(cls: Type[T]) -> Type[T]:
     """
 
     def _xtructure_eq(self, other: Any) -> T:
-        if not isinstance(other, self.__class__):
+        if type(other) is not type(self):
             # If comparing with a different type, one might return False
             # or NotImplemented. For element-wise comparison resulting in a
             # structure, raising an error or returning a structure of False
@@ -40,15 +40,15 @@ def add_comparison_operators(cls: Type[T]) -> Type[T]:
 
         # Element-wise comparison for each field
         tree_equal = jax.tree_util.tree_map(lambda x, y: jnp.all(x == y), self, other)
-        return jax.tree_util.tree_reduce(jnp.logical_and, tree_equal)
+        return jax.tree_util.tree_reduce(jnp.logical_and, tree_equal, True)
 
     def _xtructure_ne(self, other: Any) -> T:
-        if not isinstance(other, self.__class__):
+        if type(other) is not type(self):
             return NotImplemented
 
         # Element-wise comparison for each field
         tree_equal = jax.tree_util.tree_map(lambda x, y: jnp.any(x != y), self, other)
-        return jax.tree_util.tree_reduce(jnp.logical_or, tree_equal)
+        return jax.tree_util.tree_reduce(jnp.logical_or, tree_equal, False)
 
     setattr(cls, "__eq__", _xtructure_eq)
     setattr(cls, "__ne__", _xtructure_ne)
-- 
2.43.0


From 521b70376e21283d9929d9af85a5a33040e2e45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 25/33] fix: validate the intrinsic shape of nested tensor
 fields

---
 xtructure/core/xtructure_decorators/validation.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/xtructure/core/xtructure_decorators/validation.py b/xtructure/core/xtructure_decorators/validation.py
index 79e30bb..cd89d4d 100644
--- a/xtructure/core/xtructure_decorators/validation.py
+++ b/xtructure/core/xtructure_decorators/validation.py
@@ -61,6 +61,15 @@ def add_runtime_validation(cls: Type[T], *, enabled: bool) -> Type[T]:
                         f"{cls.__name__}.{field_name} expected instance of "
                         f"{descriptor.dtype.__name__}, got {type(value).__name__}."
                     )
+                intrinsic_shape = tuple(descriptor.intrinsic_shape)
+                batch = value.shape.batch
+                if intrinsic_shape and (
+                    batch == -1 or batch[-len(intrinsic_shape) :] != intrinsic_shape
+                ):
+                    raise ValueError(
+                        f"{cls.__name__}.{field_name} expected trailing batch shape "
+                        f"{intrinsic_shape}, but got {batch}."
+                    )
                 continue
             _validate_array_field(field_name, descriptor, value)
 
-- 
2.43.0


From 7a54fae382196b5f6369aee64f293d2bc6468c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:56 +0000
Subject: [PATCH 26/33] fix: key/value merge kernel accepts an empty side

---
 xtructure/bgpq/merge_split/parallel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xtructure/bgpq/merge_split/parallel.py b/xtructure/bgpq/merge_split/parallel.py
index b213a8e..0789b11 100644
--- a/xtructure/bgpq/merge_split/parallel.py
+++ b/xtructure/bgpq/merge_split/parallel.py
@@ -333,6 +333,12 @@ def _get_merge_arrays_parallel_kv(
             return out_keys, out_vals
 
         key_dtype = jnp.result_type(ak.dtype, bk.dtype)
+        if n == 0:
+            return bk.astype(key_dtype), list(bv_leaves)
+
+        if m == 0:
+            return ak.astype(key_dtype), list(av_leaves)
+
         ak = ak.astype(key_dtype)
         bk = bk.astype(key_dtype)
 
-- 
2.43.0


From 3f4ccff4f3ae09da8c4a9091239fb3bee9fe0219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:56 +0000
Subject: [PATCH 27/33] fix: loop merge kernel runs with the current Pallas API

---
 xtructure/bgpq/merge_split/loop.py | 234 ++++-------------------------
 1 file changed, 32 insertions(+), 202 deletions(-)

diff --git a/xtructure/bgpq/merge_split/loop.py b/xtructure/bgpq/merge_split/loop.py
index 7d491be..0dbc8c3 100644
--- a/xtructure/bgpq/merge_split/loop.py
+++ b/xtructure/bgpq/merge_split/loop.py
@@ -13,222 +13,52 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
     """
     n = ak_ref.shape[0]
     m = bk_ref.shape[0]
+    key_dtype = merged_keys_ref.dtype
+    idx_dtype = merged_indices_ref.dtype
 
-    def true_branch_body_fn(cond_operands):
-        (
-            current_idx_a,
-            current_idx_b,
-            current_out_ptr_val,
-            val_a_to_store,
-            _,
-            _,
-            merged_keys_ref_from_cond,
-            merged_indices_ref_from_cond,
-        ) = cond_operands
-        val_a_casted = val_a_to_store.astype(merged_keys_ref_from_cond.dtype)
-        pl.store(
-            merged_keys_ref_from_cond,
-            (current_out_ptr_val,),
-            val_a_casted,
-            eviction_policy="evict_last",
-        )
-        pl.store(
-            merged_indices_ref_from_cond,
-            (current_out_ptr_val,),
-            current_idx_a,
-            eviction_policy="evict_last",
-        )
-        return current_idx_a + 1, current_idx_b
-
-    def false_branch_body_fn(cond_operands):
-        (
-            current_idx_a,
-            current_idx_b,
-            current_out_ptr_val,
-            _,
-            val_b_to_store,
-            _,
-            merged_keys_ref_from_cond,
-            merged_indices_ref_from_cond,
-        ) = cond_operands
-        val_b_casted = val_b_to_store.astype(merged_keys_ref_from_cond.dtype)
-        pl.store(
-            merged_keys_ref_from_cond,
-            (current_out_ptr_val,),
-            val_b_casted,
-            eviction_policy="evict_last",
-        )
-        pl.store(
-            merged_indices_ref_from_cond,
-            (current_out_ptr_val,),
-            n + current_idx_b,
-            eviction_policy="evict_last",
-        )
-        return current_idx_a, current_idx_b + 1
-
-    initial_main_loop_state = (
-        0,
-        0,
-        0,
-        ak_ref,
-        bk_ref,
-        merged_keys_ref,
-        merged_indices_ref,
-    )
+    def store(out_ptr, key, index):
+        merged_keys_ref[out_ptr] = key.astype(key_dtype)
+        merged_indices_ref[out_ptr] = jnp.asarray(index, dtype=idx_dtype)
 
     def main_loop_condition(state):
-        idx_a, idx_b, _, _, _, _, _ = state
+        idx_a, idx_b, _ = state
         return jnp.logical_and(idx_a < n, idx_b < m)
 
     def main_loop_body(state):
-        (
-            idx_a,
-            idx_b,
+        idx_a, idx_b, out_ptr = state
+        val_a = ak_ref[idx_a].astype(key_dtype)
+        val_b = bk_ref[idx_b].astype(key_dtype)
+        take_a = val_a <= val_b
+        store(
             out_ptr,
-            loop_ak_ref,
-            loop_bk_ref,
-            loop_merged_keys_ref,
-            loop_merged_indices_ref,
-        ) = state
-        val_a = pl.load(loop_ak_ref, (idx_a,))
-        val_b = pl.load(loop_bk_ref, (idx_b,))
-        pred = val_a <= val_b
-
-        updated_idx_a, updated_idx_b = jax.lax.cond(
-            pred,
-            true_branch_body_fn,
-            false_branch_body_fn,
-            (
-                idx_a,
-                idx_b,
-                out_ptr,
-                val_a,
-                val_b,
-                loop_ak_ref,
-                loop_merged_keys_ref,
-                loop_merged_indices_ref,
-            ),
-        )
-        return (
-            updated_idx_a,
-            updated_idx_b,
-            out_ptr + 1,
-            loop_ak_ref,
-            loop_bk_ref,
-            loop_merged_keys_ref,
-            loop_merged_indices_ref,
+            jax.lax.select(take_a, val_a, val_b),
+            jax.lax.select(take_a, idx_a, n + idx_b),
         )
-
-    final_state_after_main_loop = jax.lax.while_loop(
-        main_loop_condition, main_loop_body, initial_main_loop_state
-    )
-
-    (
-        idx_a,
-        idx_b,
-        out_ptr,
-        _,
-        _,
-        final_loop_merged_keys_ref,
-        final_loop_merged_indices_ref,
-    ) = final_state_after_main_loop
-
-    initial_ak_loop_state = (
-        idx_a,
-        out_ptr,
-        ak_ref,
-        final_loop_merged_keys_ref,
-        final_loop_merged_indices_ref,
-    )
-
-    def ak_loop_condition(state):
-        current_idx_a, _, _, _, _ = state
-        return current_idx_a < n
+        take_a_i = take_a.astype(idx_a.dtype)
+        return idx_a + take_a_i, idx_b + (1 - take_a_i), out_ptr + 1
 
     def ak_loop_body(state):
-        (
-            current_idx_a,
-            current_out_ptr,
-            loop_ak_ref,
-            loop_merged_keys_ref,
-            loop_merged_indices_ref,
-        ) = state
-        val_to_store = pl.load(loop_ak_ref, (current_idx_a,))
-        val_casted = val_to_store.astype(loop_merged_keys_ref.dtype)
-        pl.store(
-            loop_merged_keys_ref,
-            (current_out_ptr,),
-            val_casted,
-            eviction_policy="evict_last",
-        )
-        pl.store(
-            loop_merged_indices_ref,
-            (current_out_ptr,),
-            current_idx_a,
-            eviction_policy="evict_last",
-        )
-        return (
-            current_idx_a + 1,
-            current_out_ptr + 1,
-            loop_ak_ref,
-            loop_merged_keys_ref,
-            loop_merged_indices_ref,
-        )
-
-    final_state_after_ak_loop = jax.lax.while_loop(
-        ak_loop_condition, ak_loop_body, initial_ak_loop_state
-    )
-    (
-        idx_a,
-        out_ptr,
-        _,
-        final_loop_merged_keys_ref,
-        final_loop_merged_indices_ref,
-    ) = final_state_after_ak_loop
-
-    initial_bk_loop_state = (
-        idx_b,
-        out_ptr,
-        bk_ref,
-        final_loop_merged_keys_ref,
-        final_loop_merged_indices_ref,
-    )
-
-    def bk_loop_condition(state):
-        current_idx_b, _, _, _, _ = state
-        return current_idx_b < m
+        idx_a, out_ptr = state
+        store(out_ptr, ak_ref[idx_a], idx_a)
+        return idx_a + 1, out_ptr + 1
 
     def bk_loop_body(state):
-        (
-            current_idx_b,
-            current_out_ptr,
-            loop_bk_ref,
-            loop_merged_keys_ref,
-            loop_merged_indices_ref,
-        ) = state
-        val_to_store = pl.load(loop_bk_ref, (current_idx_b,))
-        val_casted = val_to_store.astype(loop_merged_keys_ref.dtype)
-        pl.store(
-            loop_merged_keys_ref,
-            (current_out_ptr,),
-            val_casted,
-            eviction_policy="evict_last",
+        idx_b, out_ptr = state
+        store(out_ptr, bk_ref[idx_b], n + idx_b)
+        return idx_b + 1, out_ptr + 1
+
+    zero = jnp.zeros((), dtype=idx_dtype)
+    idx_a, idx_b, out_ptr = zero, zero, zero
+    if n > 0 and m > 0:
+        idx_a, idx_b, out_ptr = jax.lax.while_loop(
+            main_loop_condition, main_loop_body, (idx_a, idx_b, out_ptr)
         )
-        pl.store(
-            loop_merged_indices_ref,
-            (current_out_ptr,),
-            n + current_idx_b,
-            eviction_policy="evict_last",
+    if n > 0:
+        idx_a, out_ptr = jax.lax.while_loop(
+            lambda state: state[0] < n, ak_loop_body, (idx_a, out_ptr)
         )
-        return (
-            current_idx_b + 1,
-            current_out_ptr + 1,
-            loop_bk_ref,
-            loop_merged_keys_ref,
-            loop_merged_indices_ref,
-        )
-
-    jax.lax.while_loop(bk_loop_condition, bk_loop_body, initial_bk_loop_state)
+    if m > 0:
+        jax.lax.while_loop(lambda state: state[0] < m, bk_loop_body, (idx_b, out_ptr))
 
 
 @jax.jit
-- 
2.43.0


From 791306a80c2ba249190ed395610708ad509f4e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 28/33] fix: unfilled rows never represent a group of
 duplicates in parallel_insert

---
 xtructure/hashtable/hash_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xtructure/hashtable/hash_utils.py b/xtructure/hashtable/hash_utils.py
index 66433c8..fe95eee 100644
--- a/xtructure/hashtable/hash_utils.py
+++ b/xtructure/hashtable/hash_utils.py
@@ -279,7 +279,7 @@ def _compute_unique_mask_from_uint32eds(
             .min(masked_key)
         )
         candidate_indices = jnp.where(
-            masked_key == min_keys[group_id],
+            jnp.logical_and(sorted_filled, masked_key == min_keys[group_id]),
             sorted_indices,
             batch_len_i32,
         )
@@ -425,7 +425,7 @@ def _compute_unique_mask_from_hash_pairs(
                 .min(masked_key)
             )
             candidate_indices = jnp.where(
-                masked_key == min_keys[group_id],
+                jnp.logical_and(sorted_filled, masked_key == min_keys[group_id]),
                 sorted_indices,
                 batch_len_i32,
             )
-- 
2.43.0


From 82cf8758c8ad9bd48f417066f59e720d2e9494f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 29/33] fix: detect hash collisions hidden by unfilled rows in
 parallel_insert

---
 xtructure/hashtable/hash_utils.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/xtructure/hashtable/hash_utils.py b/xtructure/hashtable/hash_utils.py
index fe95eee..4035b13 100644
--- a/xtructure/hashtable/hash_utils.py
+++ b/xtructure/hashtable/hash_utils.py
@@ -227,6 +227,12 @@ def _compute_unique_mask_from_uint32eds(
         if _DEDUPE_MODE == "safe":
             sorted_filled_sig = filled[sorted_indices_sig]
             same_sig = jnp.logical_not(row_changed_sig)
+            # Unfilled rows share the sentinel; amid filled rows they may hide a collision.
+            mixed_sig = jnp.any(
+                jnp.logical_and(
+                    same_sig, sorted_filled_sig[1:] != sorted_filled_sig[:-1]
+                )
+            )
             same_sig = jnp.logical_and(same_sig, sorted_filled_sig[1:])
             same_sig = jnp.logical_and(same_sig, sorted_filled_sig[:-1])
             has_sig_dups = jnp.any(same_sig)
@@ -246,6 +252,7 @@ def _compute_unique_mask_from_uint32eds(
                 lambda _: jnp.bool_(False),
                 operand=None,
             )
+            collision = jnp.logical_or(collision, mixed_sig)
 
             sorted_indices, row_changed = jax.lax.cond(
                 collision,
@@ -476,6 +483,10 @@ def _compute_unique_mask_from_hash_pairs(
             sorted_h1[1:] == sorted_h1[:-1],
             sorted_h2[1:] == sorted_h2[:-1],
         )
+        # Unfilled rows share the sentinel; amid filled rows they may hide a collision.
+        mixed = jnp.any(
+            jnp.logical_and(same_pair, sorted_filled[1:] != sorted_filled[:-1])
+        )
         same_pair = jnp.logical_and(same_pair, sorted_filled[1:])
         same_pair = jnp.logical_and(same_pair, sorted_filled[:-1])
         has_dups = jnp.any(same_pair)
@@ -489,6 +500,7 @@ def _compute_unique_mask_from_hash_pairs(
         collision = lax.cond(
             has_dups, _check_collision, lambda _: jnp.bool_(False), operand=None
         )
+        collision = jnp.logical_or(collision, mixed)
 
         def _fallback(_):
             return _compute_unique_mask_from_uint32eds(
-- 
2.43.0


From 2a79a752cadd9fd16b2222aa091bdc0a90712305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 30/33] fix: compare integer unique_key values exactly in
 parallel_insert

---
 xtructure/hashtable/hash_utils.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/xtructure/hashtable/hash_utils.py b/xtructure/hashtable/hash_utils.py
index 4035b13..716622d 100644
--- a/xtructure/hashtable/hash_utils.py
+++ b/xtructure/hashtable/hash_utils.py
@@ -96,6 +96,13 @@ def _first_occurrence_mask(
     return jnp.logical_and(mask, active)
 
 
+def _worst_unique_key(dtype: Any) -> Any:
+    """Largest unique_key; integer keys keep their dtype (float32 would round them)."""
+    if jnp.issubdtype(dtype, jnp.integer):
+        return jnp.array(jnp.iinfo(dtype).max, dtype=dtype)
+    return jnp.inf
+
+
 def _compute_unique_mask_from_uint32eds(
     uint32eds: chex.Array,
     filled: chex.Array,
@@ -279,9 +286,10 @@ def _compute_unique_mask_from_uint32eds(
             raise ValueError("unique_key must match uint32eds leading dimension.")
 
         sorted_unique_key = unique_key_arr[sorted_indices]
-        masked_key = jnp.where(sorted_filled, sorted_unique_key, jnp.inf)
+        worst_key = _worst_unique_key(unique_key_arr.dtype)
+        masked_key = jnp.where(sorted_filled, sorted_unique_key, worst_key)
         min_keys = (
-            jnp.full((batch_len,), jnp.inf, dtype=masked_key.dtype)
+            jnp.full((batch_len,), worst_key, dtype=masked_key.dtype)
             .at[group_id]
             .min(masked_key)
         )
@@ -425,9 +433,10 @@ def _compute_unique_mask_from_hash_pairs(
                 raise ValueError("unique_key must match hash arrays leading dimension.")
 
             sorted_unique_key = unique_key_arr[sorted_indices]
-            masked_key = jnp.where(sorted_filled, sorted_unique_key, jnp.inf)
+            worst_key = _worst_unique_key(unique_key_arr.dtype)
+            masked_key = jnp.where(sorted_filled, sorted_unique_key, worst_key)
             min_keys = (
-                jnp.full((batch_len,), jnp.inf, dtype=masked_key.dtype)
+                jnp.full((batch_len,), worst_key, dtype=masked_key.dtype)
                 .at[group_id]
                 .min(masked_key)
             )
-- 
2.43.0


From 8ba010d0304d003e29fa4c1a5fcdf8f1a5508555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 31/33] fix: keep slots already won in parallel_insert so every
 row finds a free slot in time

---
 xtructure/hashtable/insert.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index f342f60..de8b830 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -51,7 +51,10 @@ def _scatter_set_xtructurable_drop(
     )
 
 
-def _resolve_slot_conflicts(flat_indices: chex.Array, active: chex.Array) -> chex.Array:
+def _resolve_slot_conflicts(
+    flat_indices: chex.Array, active: chex.Array, newcomer: chex.Array
+) -> chex.Array:
+    """Pick one winner per slot: its current holder if any, else the first newcomer."""
     active = jnp.asarray(active, dtype=jnp.bool_).reshape(-1)
     flat_indices = jnp.asarray(flat_indices, dtype=jnp.uint32).reshape(-1)
     batch_size = int(flat_indices.shape[0])
@@ -60,10 +63,11 @@ def _resolve_slot_conflicts(flat_indices: chex.Array, active: chex.Array) -> che
     sentinel = jnp.uint32(0xFFFFFFFF)
     keys = cast(jax.Array, jnp.where(active, flat_indices, sentinel))
 
-    operand = cast(Any, (keys, batch_idx))
-    sorted_keys, sorted_batch_idx = cast(
-        tuple[jax.Array, jax.Array],
-        jax.lax.sort(operand, dimension=0, is_stable=True),
+    newcomer = jnp.asarray(newcomer, dtype=jnp.uint32).reshape(-1)
+    operand = cast(Any, (keys, newcomer, batch_idx))
+    sorted_keys, _, sorted_batch_idx = cast(
+        tuple[jax.Array, jax.Array, jax.Array],
+        jax.lax.sort(operand, dimension=0, is_stable=True, num_keys=2),
     )
 
     is_first = jnp.concatenate(
@@ -177,7 +181,7 @@ def _hashtable_parallel_insert_internal(
     ) + index.slot_index.astype(SIZE_DTYPE)
     initial_candidates = jnp.logical_and(updatable, valid_initial)
     initial_unique_mask = _resolve_slot_conflicts(
-        flat_initial_slots, initial_candidates
+        flat_initial_slots, initial_candidates, updatable
     )
     pending = jnp.logical_or(
         jnp.logical_and(updatable, jnp.logical_not(initial_unique_mask)),
@@ -200,7 +204,9 @@ def _hashtable_parallel_insert_internal(
         ) + updated_idxs.slot_index.astype(SIZE_DTYPE)
 
         active_for_unique = jnp.logical_and(updatable, valid)
-        unique_mask = _resolve_slot_conflicts(flat_updated_slots, active_for_unique)
+        unique_mask = _resolve_slot_conflicts(
+            flat_updated_slots, active_for_unique, pending
+        )
 
         next_pending = jnp.logical_or(
             jnp.logical_and(updatable, jnp.logical_not(unique_mask)),
-- 
2.43.0


From 09accdf5e8094234173f48361552e5f12fd4cfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:39 +0000
Subject: [PATCH 32/33] fix: widen the slot index so buckets may hold more than
 255 slots

---
 xtructure/hashtable/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xtructure/hashtable/constants.py b/xtructure/hashtable/constants.py
index 039f80f..64481ba 100644
--- a/xtructure/hashtable/constants.py
+++ b/xtructure/hashtable/constants.py
@@ -1,7 +1,7 @@
 import jax.numpy as jnp
 
 SIZE_DTYPE = jnp.uint32
-SLOT_IDX_DTYPE = jnp.uint8
+SLOT_IDX_DTYPE = jnp.uint32
 DOUBLE_HASH_SECONDARY_DELTA = jnp.uint32(0x9E3779B1)
 FINGERPRINT_MIX_CONSTANT_A = jnp.uint32(0x85EBCA6B)
 FINGERPRINT_MIX_CONSTANT_B = jnp.uint32(0xC2B2AE35)
-- 
2.43.0


From b0a73cd4a2e11d353bf4ffa012a6f50059e450b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 33/33] fix: parallel_insert selects occupancy bits with
 broadcasting (lax.select rejects scalars)

---
 xtructure/hashtable/insert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index de8b830..5094476 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -248,12 +248,12 @@ def _hashtable_parallel_insert_internal(
         bucket_i32 = jnp.asarray(index.index, dtype=jnp.int32)
         slot_u32 = jnp.asarray(index.slot_index, dtype=jnp.uint32)
         safe_slot_u32 = jnp.asarray(
-            jax.lax.select(successful, slot_u32, jnp.uint32(0)),
+            jnp.where(successful, slot_u32, jnp.uint32(0)),
             dtype=jnp.uint32,
         )
         bit = jnp.left_shift(jnp.uint32(1), safe_slot_u32)
         bit = jnp.asarray(
-            jax.lax.select(successful, bit, jnp.uint32(0)), dtype=jnp.uint32
+            jnp.where(successful, bit, jnp.uint32(0)), dtype=jnp.uint32
         )
         table = table.replace(
             bucket_occupancy=table.bucket_occupancy.at[bucket_i32].add(bit)
-- 
2.43.0

