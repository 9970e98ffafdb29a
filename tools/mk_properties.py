#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that anchors stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))
X = "xtructure/"
D = X + "core/xtructure_decorators/"
N = X + "core/xtructure_numpy/"
prop("C01", "Queue is an exact FIFO",
 "As long as no more than max_size items have been enqueued since build/clear and no more are dequeued than are present, dequeue and peek return, in order and field for field, exactly the oldest items still in the queue, q[i] is the i-th oldest, and size is the number of items present. peek and indexing change nothing, clear empties the queue completely, and no operation alters items that are still queued. A batch of one (or a single unbatched item) behaves like the general case, and num_items=1 returns an unbatched item.",
 ["histories", "inputs", "configurations"],
 "every reachable queue state (any interleaving of enqueue/dequeue/peek/clear/index), every item content, single and batched calls, any value class",
 "Tests run a few fixed enqueue/dequeue sequences with small integer payloads; they cannot cover every head/tail position, batch size and content.",
 [X+"queue/queue.py"],
 [("enqueue writes at tail+arange and advances tail", "xtructure/queue/queue.py:_queue_enqueue_jit"), ("dequeue/peek gather at head+arange", "xtructure/queue/queue.py:_queue_dequeue_jit,_queue_peek_jit")],
 [("head", "index of the oldest queued item", "Queue.head"), ("tail", "next free slot", "Queue.tail"), ("val_store", "payload store", "Queue.val_store")],
 ["Queue.enqueue", "Queue.dequeue", "Queue.peek", "Queue.__getitem__", "Queue.size", "Queue.clear"])
prop("C02", "Stack is an exact LIFO",
 "As long as pushes stay within max_size and pops within the current size, pop(n) and peek(n) return exactly the n most recently pushed items that are still present (in the order they were pushed; unbatched for n=1), pop removes exactly those, s[i] is the i-th item from the bottom and size counts the items. Items below the popped/pushed region are never altered and peek/indexing change nothing.",
 ["histories", "inputs", "configurations"],
 "every reachable stack state, every item content, single and batched pushes/pops, any value class",
 "Tests exercise a handful of push/pop sequences with fixed payloads.",
 [X+"stack/stack.py"],
 [("push writes at size+arange", "xtructure/stack/stack.py:_stack_push_jit"), ("pop/peek gather at size-arange(n,0,-1)", "xtructure/stack/stack.py:_stack_pop_jit,_stack_peek_jit")],
 [("size", "number of items", "Stack.size"), ("val_store", "payload store", "Stack.val_store")],
 ["Stack.push", "Stack.pop", "Stack.peek", "Stack.__getitem__", "Stack.size"])
prop("C03", "BGPQ returns the smallest keys in sorted order",
 "While the queue holds at most its capacity and keys are never NaN, delete_mins returns the batch_size smallest keys currently stored, in ascending order, padded with +inf when fewer are stored, for every history of insert (full or padded batches, any key order, ties, +inf padding) and delete_mins. Every such operation leaves a state in which this holds again.",
 ["histories", "inputs", "configurations"],
 "every reachable heap state and every inserted batch: key values, ties, infinities, batch sizes, number of levels",
 "heap_test.py is not among the stable tests and random tests sample key orders; the heap order across nodes and buffer must hold for every history.",
 [X+"bgpq/bgpq.py", X+"bgpq/_insert.py", X+"bgpq/_delete.py", X+"bgpq/_merge.py", X+"bgpq/_utils.py", X+"bgpq/merge_split/loop.py"],
 [("sort batch, merge with root, buffer, push down the path to the last node", "xtructure/bgpq/_insert.py:_bgpq_insert_jit,_bgpq_insert_heapify_internal"), ("move last node to root and sift down with pairwise merges", "xtructure/bgpq/_delete.py:_bgpq_delete_heapify_internal")],
 [("key_store", "heap of sorted batches, +inf padded", "BGPQ.key_store"), ("key_buffer", "sorted overflow of at most batch_size-1 keys", "BGPQ.key_buffer"), ("heap_size", "index of the last heap node", "BGPQ.heap_size")],
 ["BGPQ.insert", "BGPQ.delete_mins"])
prop("C04", "BGPQ neither loses, duplicates nor re-pairs entries",
 "While insertions keep the number of finite-key entries within max_size, insert adds exactly the finite-key (key, value) pairs of the batch and delete_mins removes exactly the returned finite-key pairs: every pair keeps its own value across all fields, nothing is lost or duplicated. size always equals the number of finite-key entries stored.",
 ["histories", "inputs", "configurations"],
 "every reachable heap state, every inserted batch (partial, full, ties between keys with different values), multi-field and nested values",
 "Sampled histories cannot show that key/value pairing and counts survive every merge, buffer overflow and sift-down.",
 [X+"bgpq/bgpq.py", X+"bgpq/_insert.py", X+"bgpq/_delete.py", X+"bgpq/_merge.py", X+"bgpq/_utils.py"],
 [("values gathered with the key permutation", "xtructure/bgpq/_merge.py:_gather_sorted_values,merge_sort_split"), ("row scatter of updated nodes", "xtructure/bgpq/_utils.py:_scatter_update_rows"), ("size", "xtructure/bgpq/bgpq.py:BGPQ.size")],
 [("val_store/val_buffer", "values parallel to keys", "BGPQ"), ("buffer_size", "finite keys in buffer", "BGPQ.buffer_size")],
 ["BGPQ.insert", "BGPQ.delete_mins", "BGPQ.size", "BGPQ.make_batched"])
prop("C05", "HashTable single insert/lookup behaves as a set",
 "For a table with the default probing limit, after any history of insertions lookup(x) reports found exactly when an item with the same content as x was inserted, and then table[idx] equals x; insert(x) reports inserted exactly when x was absent (and free space remained), returns the index at which table[idx] equals x, and increments size by exactly one in that case and changes nothing otherwise. Indices of items already stored never change.",
 ["histories", "inputs", "configurations"],
 "every reachable table state, every item, every hash function (any pattern of bucket, step and fingerprint collisions), bucket sizes and capacities",
 "Tests use one fixed hash with a few seeds, so fingerprint/bucket collision patterns, wrap-around probing and nearly full tables are barely reached.",
 [X+"hashtable/table.py", X+"hashtable/insert.py", X+"hashtable/lookup.py", X+"hashtable/hash_utils.py"],
 [("bucketed double-hash probing with fingerprint prefilter and full comparison", "xtructure/hashtable/lookup.py:_hashtable_lookup_internal"), ("insert at the lookup position", "xtructure/hashtable/insert.py:_hashtable_insert_jit")],
 [("table/fingerprints/bucket_fill_levels/bucket_occupancy/size", "slots filled contiguously per bucket; items on their probe path", "HashTable")],
 ["HashTable.insert", "HashTable.lookup", "HashTable.lookup_bucket", "HashTable.__getitem__", "HashTable.size"])
prop("C06", "parallel_insert is equivalent to inserting the filled items as a set",
 "For a table with the default probing limit and enough free space, parallel_insert(inputs, filled, unique_key) makes the stored set the old set united with the filled inputs, each stored exactly once; the inserted mask marks exactly one representative of each content that was new, size grows by the number of marks, and previously stored items keep their indices and contents. For every filled row the returned index addresses a stored item equal to that row; unfilled rows insert nothing.",
 ["histories", "inputs", "configurations"],
 "every reachable table state, every batch (duplicates, rows already stored, unfilled rows, bucket conflicts between rows) and every hash function",
 "Tests insert random batches under one hash; in-batch slot conflicts, full buckets and collisions in the same batch are sampled thinly.",
 [X+"hashtable/insert.py", X+"hashtable/lookup.py", X+"hashtable/hash_utils.py", X+"hashtable/table.py"],
 [("in-batch dedupe, parallel lookup, slot-conflict resolution loop, drop-scatter", "xtructure/hashtable/insert.py:_hashtable_parallel_insert_jit,_hashtable_parallel_insert_internal")],
 [("table/fingerprints/bucket_fill_levels/bucket_occupancy/size", "as C05", "HashTable")],
 ["HashTable.parallel_insert", "HashTable.lookup", "HashTable.lookup_parallel", "HashTable.__getitem__"])
prop("C07", "lookup_parallel agrees with lookup row by row",
 "For every table state, batch and filled mask, lookup_parallel(xs, filled) reports for each filled row the same found flag as lookup of that row, and for found rows an index whose stored item equals the row; rows that are not filled are never reported found. A scalar filled mask means all rows or none.",
 ["histories", "inputs", "configurations"],
 "every reachable table state, every batch and mask, every hash function",
 "Tests compare a few random batches under one hash; rows that finish probing at different depths are rare there.",
 [X+"hashtable/lookup.py", X+"hashtable/hash_utils.py"],
 [("masked batched probing loop", "xtructure/hashtable/lookup.py:_hashtable_lookup_parallel_internal,_hashtable_lookup_parallel_jit")],
 [("table/fingerprints/bucket_fill_levels", "as C05", "HashTable")],
 ["HashTable.lookup_parallel", "HashTable.lookup"])
prop("C08", "In-batch duplicate elimination is exact and picks the cheapest copy",
 "Within one parallel_insert call, two filled rows are treated as duplicates exactly when their contents are equal, whatever the hash values; each group of equal rows keeps exactly one representative, the one with the smallest unique_key (smallest position on ties or when no key is given), and every duplicate gets its representative's index. Unfilled rows neither represent nor suppress a filled row.",
 ["inputs", "configurations"],
 "every batch content, mask, unique_key array (float or integer), every hash function including total collisions, narrow and wide items, every correctness-preserving dedupe/sort mode",
 "Hash collisions essentially never occur in tests, so the collision fallback and mixed filled/unfilled groups are not exercised.",
 [X+"hashtable/hash_utils.py", X+"hashtable/insert.py"],
 [("sort by hash pair, collision detection, exact fallback, per-group minimum", "xtructure/hashtable/hash_utils.py:_compute_unique_mask_from_hash_pairs,_compute_unique_mask_from_uint32eds")],
 [], ["HashTable.parallel_insert (unique mask, indices)"])
prop("C09", "Hashing depends on content only and all variants agree",
 "For any instance, hash(seed), hash_with_uint32ed(seed), hash_pair(seed) and hash_pair_with_uint32ed(seed) agree with one another, depend only on the field contents and the seed (every byte of every field influences the packed words; batching and layout do not matter), and hash_pair's first element equals hash(seed). The uint32 word representation is injective: two instances of a class have the same words exactly when all field bytes are equal, and the result is the same for streaming and non-streaming hashing.",
 ["inputs", "configurations"],
 "every content, seed, field dtype/shape mix, tail length, batched and unbatched, small and large (streamed) items",
 "Tests hash a few fixed values; agreement between code paths and injectivity quantify over all contents.",
 [D+"hash.py", D+"aggregate_bitpack/__init__.py"],
 [("byte layout and xxhash-style mixing, streaming threshold", "xtructure/core/xtructure_decorators/hash.py")],
 [], ["instance.hash", "instance.hash_pair", "instance.uint32ed", "instance.bytes"])
prop("C10", "Bit packing round-trips",
 "For every active_bits from 1 to 32 and every array length, unpacking what was packed returns the original values (reduced to active_bits bits), and the packed length is packed_num_bytes(count, active_bits), a function of count and width only. Boolean arrays pack and unpack exactly and values of different elements never interfere.",
 ["inputs", "configurations"],
 "every value array (also values at the extremes), every bit width 1..32, lengths that do and do not fill whole bytes, multi-dimensional shapes",
 "Tests use a few widths and random values; word-straddling widths and tail lengths are sampled only.",
 [D+"aggregate_bitpack/bitpack.py"],
 [("to_uint8/from_uint8 block packing", D+"aggregate_bitpack/bitpack.py")],
 [], ["to_uint8", "from_uint8", "packed_num_bytes"])
prop("C11", "Aggregate bit-packed views are lossless",
 "For a dataclass with bitpack='aggregate', packing and unpacking are mutually inverse on values within each field's bit width: instance.packed.unpacked (and as-original conversion, and single-field unpacking) gives back every field, including nested fields, scalars and arrays, at any batch shape. Fields never disturb each other, and two instances have equal packed words and tail exactly when all their fields are equal.",
 ["inputs", "configurations"],
 "every field content within its declared bits, every mix of field widths and shapes including word-straddling and sub-word tails, any batch shape",
 "Tests round-trip a few schemas with random values.",
 [D+"aggregate_bitpack/__init__.py", D+"aggregate_bitpack/kernels.py", D+"aggregate_bitpack/spec.py", D+"aggregate_bitpack/bitpack.py"],
 [("word/tail layout and pack/unpack kernels", "xtructure/core/xtructure_decorators/aggregate_bitpack/kernels.py"), ("view classes and accessors", "xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py")],
 [], ["instance.packed", "Packed.unpacked", "Unpacked.packed"])
prop("C12", "Per-field packed accessors are lossless and independent",
 "For a dataclass with packed fields, the <field>_unpacked view returns exactly what was last set with set_unpacked / from_unpacked (values within the declared bits), at any batch shape. Setting one packed field leaves every other field unchanged, and a default instance (default fill) unpacks to zeros.",
 ["inputs", "configurations", "histories"],
 "every content within the declared bits, every width 1..32 and field shape, any order of setting fields, batched and unbatched",
 "Tests check a few widths and random contents.",
 [D+"bitpack_accessors.py", X+"core/field_descriptors.py", D+"aggregate_bitpack/bitpack.py"],
 [("accessor properties over the byte-packed storage", "xtructure/core/xtructure_decorators/bitpack_accessors.py")],
 [], ["instance.<f>_unpacked", "instance.set_unpacked", "Class.from_unpacked"])
prop("C13", "save/load round-trips every instance",
 "Loading a saved instance returns an instance of the same class whose every field (nested ones, bit-packed ones, scalars, any batch shape) has the same dtype, shape and contents as the saved one, whatever the field values and whether or not packing was used on disk. Loading through a class's own load rejects a file of another class.",
 ["inputs", "configurations"],
 "every field content, dtype supported by the file format, field bit width 1..32, batch shape, nesting",
 "Tests save a few instances with arbitrary fixed contents.",
 [X+"io/io.py", D+"aggregate_bitpack/bitpack.py", D+"io.py"],
 [("flatten fields, optional bit packing on disk, npz, metadata", "xtructure/io/io.py")],
 [], ["instance.save", "Class.load", "xtructure.io.save", "xtructure.io.load"])
prop("C14", "unique_mask keeps exactly one cheapest representative per distinct item",
 "unique_mask(items, key, filled) marks exactly one filled entry for each distinct content among the filled entries, namely one with the smallest key (the earliest such position; the earliest position if no key is given), and never marks an unfilled entry. An entry whose key is +inf counts as absent. With return_index / return_inverse, index holds the representatives' positions and index[inverse[i]] is the representative of entry i's group for every present entry i.",
 ["inputs", "configurations"],
 "every batch content, key array, filled mask, key_fn, narrow and wide items, aggregate-packed items",
 "Tests use small fixed batches; exactness for arbitrary contents (including extreme values, wide items and masks) needs all inputs.",
 [N+"dataclass_ops/unique_ops/optimized_unique_ops.py", X+"xtructure_numpy.py"],
 [("lexicographic / signature sort and segment reduction", "xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py")],
 [], ["xnp.unique_mask"])
prop("C15", "update_on_condition: the first true write wins, nothing else changes",
 "xnp.update_on_condition(data, indices, condition, values) writes to each (1-D integer or tuple-of-arrays) index the value of the first position in the batch whose condition is true for that index, and leaves every other entry of every field unchanged. Rows whose condition is false, and positions outside the array, have no effect, for arrays and for dataclasses alike, with array or scalar values.",
 ["inputs", "configurations"],
 "every data, index vector (duplicates, out of range), condition mask, values, index dtype, dataclass layout",
 "Tests check a few duplicate patterns.",
 [N+"array_ops.py", N+"dataclass_ops/logical_ops.py", D+"indexing.py"],
 [("first-true resolution with a guard scatter", "xtructure/core/xtructure_numpy/array_ops.py:_update_array_on_condition"), ("method form", "xtructure/core/xtructure_decorators/indexing.py")],
 [], ["xnp.update_on_condition", "instance.at[idx].set_as_condition"])
prop("C16", "Indexing and .at updates act uniformly on every field and only there",
 "For any index expression valid on the batch dimensions, inst[idx] applies that index to every field including nested ones, and inst.at[idx].set(v) yields an instance where exactly the addressed entries of every field are replaced (by the corresponding entries of v, an instance of the same class, or by the scalar) and all others are unchanged. at[idx].set_as_condition(cond, v) with integer-array, tuple or slice idx and a condition of the addressed shape does this only where cond holds, first true write winning for repeated indices.",
 ["inputs", "configurations"],
 "every content, integer/array/slice/boolean-mask/tuple index, duplicate and out-of-range positions, nested dataclasses, scalar and instance values",
 "Tests use a few fixed indices on fixed data.",
 [D+"indexing.py", D+"aggregate_bitpack/__init__.py"],
 [("tree-mapped getitem / .at updater", "xtructure/core/xtructure_decorators/indexing.py")],
 [], ["instance[idx]", "instance.at[idx].set", "instance.at[idx].set_as_condition"])
prop("C17", "xnp shape and batch operations act on batch dimensions, alike per field",
 "Each xnp operation on a dataclass returns an instance of the same class whose every field (nested ones too) is the corresponding jnp/numpy operation on that field. concat, stack, pad, reshape, flatten, transpose and swapaxes count axes (including negative ones) over the batch dimensions only and leave intrinsic field dimensions in place; pad fills with the class's defaults unless told otherwise; repeat, tile, take, take_along_axis, roll, flip, rot90, split, moveaxis, squeeze, expand_dims, broadcast_to, vstack/hstack/..., full_like/zeros_like/ones_like and the generated field-wise functions pass the same arguments to each field. Contents are only moved, filled or transformed as that operation says, never mixed between fields or entries.",
 ["inputs", "configurations"],
 "every content, batch shape, axis (positive, negative), operation parameters, dataclasses mixing scalar, vector and nested fields",
 "Tests check a few shapes, mostly positive axes and scalar fields.",
 [N+"dataclass_ops/batch_ops.py", N+"dataclass_ops/shape_ops.py", N+"__init__.py", X+"xtructure_numpy.py"],
 [("tree-mapped batch operations with axis normalisation", "xtructure/core/xtructure_numpy/dataclass_ops/")],
 [], ["xnp.*", "instance.reshape", "instance.flatten"])
prop("C18", "Shape, length, default and structure queries describe the instance truthfully",
 "Class.default(batch) yields an instance whose every field has batch shape followed by the declared intrinsic shape, the declared dtype and the declared fill value; for every valid instance shape, batch shape, ndim, len, dtype and structured type (single, batched, unstructured) report what the fields really have. Instances whose fields disagree on the batch shape are never reported as structured, and validation, when on, rejects exactly wrong trailing (intrinsic) shapes, array dtypes or nested classes. The answers follow the current fields also after a field is reassigned.",
 ["inputs", "configurations"],
 "every declared schema (dtype, intrinsic shape, nesting, fill value) and every batch shape including () and zero-length",
 "Tests check a few schemas and shapes.",
 [D+"default.py", D+"shape.py", D+"structure_util.py", D+"validation.py", X+"core/field_descriptors.py"],
 [("default/shape/structure decorators", "xtructure/core/xtructure_decorators/")],
 [], ["Class.default", "instance.shape", "instance.structured_type", "len(instance)"])
prop("C19", "where selects consistently across all fields",
 "For instances a and b and a condition that broadcasts to a's field shapes, xnp.where(cond, a, b) gives for every field (nested and vector fields included) exactly jnp.where(cond, a.field, b.field) in shape, dtype and contents: every element comes from a where the condition is true and from b otherwise; a scalar b fills every field the way jnp.where does. where_no_broadcast gives the same result for matching shapes and raises on mismatching shapes, dtypes or types.",
 ["inputs", "configurations"],
 "every condition, contents, batch shape, intrinsic shapes equal to or different from the batch shape, scalars and instances",
 "Tests check fixed conditions on small instances.",
 [N+"dataclass_ops/logical_ops.py", N+"array_ops.py"],
 [("tree-mapped where with condition expansion", "xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py")],
 [], ["xnp.where", "xnp.where_no_broadcast"])
prop("C20", "Dataclass instances are faithful JAX pytrees",
 "Flattening and unflattening an instance (and passing it through jit, vmap, scan, cond or while) returns an equal instance of the same class with every field and every static field intact; replace changes exactly the named fields and leaves the original untouched, and from_tuple inverts to_tuple. Static fields are never traced and instances differing only in static fields are different tree structures. Asking an instance about its shape or dtype does not change its tree structure.",
 ["inputs", "programs", "configurations"],
 "every instance content, nesting, static field value, transformation",
 "Tests check a few classes under jit/vmap.",
 [X+"core/dataclass.py", D+"__init__.py"],
 [("pytree registration, replace, static fields", "xtructure/core/dataclass.py")],
 [], ["jax.tree_util on instances", "instance.replace"])
prop("C21", "Merge back ends equal a stable merge",
 "Every merge back end (sort based, loop, binary-search-partition, parallel kernel, with or without values) applied to two sorted key arrays of any lengths returns the stable merge: keys in ascending order, the permutation consistent with them, entries of the first array before equal entries of the second, and values moved with their keys. merge_sort_split returns the first n of it and the rest.",
 ["inputs", "configurations"],
 "every pair of sorted key arrays (lengths, ties, infinities) and every back end/environment selection",
 "Tests compare on random arrays; ties and boundary partitions are sampled.",
 [X+"bgpq/merge_split/loop.py", X+"bgpq/merge_split/parallel.py", X+"bgpq/merge_split/common.py", X+"bgpq/_merge.py"],
 [("diagonal binary search partition and block merge loops", "xtructure/bgpq/merge_split/")],
 [], ["merge_sort_split", "merge_arrays_parallel", "merge_arrays_parallel_kv"])
prop("C22", "Equality holds exactly when every field of every entry is equal",
 "For two instances of the same class and batch shape, a == b is the single boolean that is true exactly when all elements of all fields (nested, vector and bit-packed ones included) are equal, and a != b is its exact complement; instances of a different type are never equal. xnp.equal and xnp.not_equal compare element by element, field by field, with no influence between fields or positions.",
 ["inputs", "configurations"],
 "every pair of instances, batch shapes (also unbatched), nested/vector/scalar/bit-packed fields",
 "Tests compare a few equal/unequal pairs.",
 [D+"ops.py", N+"dataclass_ops/comparison_ops.py", X+"xtructure_numpy.py"],
 [("reduced field-wise comparison", D+"ops.py")],
 [], ["instance == instance", "instance != instance", "xnp.equal"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
