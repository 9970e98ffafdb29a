import json
head=open('/verif/DESIGN.md').read().split('\n## 1.')[0].rstrip()+'\n'
doc = r'''
## 1. How a check works

`python3 check.py <ID>` loads `contracts/<ID>.py`, whose `cases(tier)` lists contract instances, and runs each in
a worker process (8 at a time, one process per set of `XTRUCTURE_*` environment variables, because the library reads
them at import or trace time).  `PYTHONPATH` is /repo's working tree; nothing is cached between runs and nothing is
copied from /repo.  There is no build step (setup_cmd is `true`): Xtructure is pure Python.

A case has: `fn` (calls real public methods and returns what the contract talks about), argument shapes, `pre`
(requires), `post` (a list of named ensures), optional sample generator, the functions it puts under contract, and a
mode.

| mode | deciding step |
|---|---|
| `proof` | jaxpr of the real function → one obligation per ensures clause; term normaliser, then z3 (cvc5 second).  Static shapes; contents, masks, indices, states universally quantified. |
| `param` ("any size") | the same over *symbolic* shapes (`jax.export.symbolic_shape`): arrays are uninterpreted functions of their index, reductions/scans/sorts/scatters are axiomatised by witness functions, quantifiers are instantiated goal-directed (`jxv/param.py`); one proof covers all sizes. |
| `py` | symbolic execution of the real Python bytecode-level control flow over symbolic dimension sizes (`jxv/pyexec.py`), used where the behaviour is an exception or a Python value (C18, C19 rejections). |
| `bounded` | the same contract evaluated on real runs of a stated size with seeded inputs.  Labelled bounded, never counted as discharged. |

* **Loops.**  `while`/`scan` of a static-shape jaxpr are unrolled; the path condition that more iterations are
  needed must be proved unsatisfiable, so unrolling is complete, not bounded.  Histories of any length are covered
  by the representation invariants (build establishes, every operation preserves).
* **No alarm without evidence.**  A refuted obligation yields a model; the model is concretised and the real code is run
  on it through XLA with the same contract text.  If that run violates the contract, it is reported with a replay
  file (`replays/`, rerun by `check.py <ID> --replay FILE`).  If a model is found but does not replay (an abstraction was
  involved), the case is searched with concrete samples; a failing sample is reported; otherwise the obligation counts
  as *undischarged*: listed in the evidence and printed, not a violation.  The same holds for solver time-outs and for code the
  generator does not support (it then falls back to more bounded samples).  `no-failing-input-found` is reserved for
  obligations refuted with a model that is exact (no abstraction) and yet could not be executed.
* **Independence from style.**  Contracts call the public API and speak about observable results, so helper extraction,
  renaming, reordering or algorithmic replacement of internals does not touch them.  (C21 and the BGPQ heap-position contracts
  name a few internal entry points, because the merge back ends are internal; if such a name disappears those cases fall away
  with a note and the public-API cases remain.)
* **Trusted base.**  JAX's tracer, XLA's CPU implementation of the primitives (cross-checked: every proof
  case also runs on random inputs and the generator's own evaluation is compared with XLA's result, `engine_crosschecks_against_xla`
  in the evidence), z3/cvc5, the normaliser, CPython.
* **What the extraction drops.**  The jaxpr contains everything the compiled function computes.  Python-level effects
  (exceptions, prints, file access) during tracing are not in it; where they matter they have their own cases
  (`must_raise`, `py` mode, C13's file layer).

### Assumptions specific to any-size proofs
Sizes range over 1..2^28 (C10, C12: 2^24; the k-th root when k sizes are multiplied together); size zero is covered by ordinary
instances.  While tracing, shims make sizes flow through Python code that expects integers: the module global `int` in
xtructure modules is the identity on sizes, `numpy` is a proxy whose `prod/array` accept sizes, `len` returns a symbolic leading size unchanged, and the truth value of a size means
"≠ 0".  Size comparisons that JAX cannot decide split the proof into variants – equal / different, or ≥ / < – until the variants
cover every size (that covering is itself an obligation).  Index terms carry a kind (which array, which symbolic axis they range
over); quantified facts are instantiated only at terms of their kind.  Each obligation is tried in two encodings – 32-bit vectors, and
unbounded integers with explicit wrap-around for the index arithmetic (`ZI`) – and discharged when either is unsatisfiable.

## 2. Properties

Times are the quick tier on 8 idle cores.  "all sizes" = `param` proofs in addition to the instances.

'''
P=[
("C01","Queue","enqueue/dequeue/peek/clear/`q[i]`/size as pre/post/frame over the abstract FIFO sequence (items between head and tail); any capacity, any batch size, any state (wrap-around offsets included).","all sizes","15 s","overflow/underflow excluded by the precondition, as the property says"),
("C02","Stack","same scheme over the abstract LIFO sequence.","all sizes","10 s","as C01"),
("C03","BGPQ order","state invariant `Inv` (every heap node sorted, parent max ≤ child min, buffer sorted, sizes consistent); insert and delete_mins preserve it and have the returned keys as smallest ones; histories from build.  Every heap size of the listed tables (up to 7 rows × 1–3 columns) is its own case; contents are all 8-bit-float keys, plus f16/f32/bf16 instances.","heap size enumerated; 28 bounded large runs (to 70 000 rows)","72 s","keys are finite or +inf; entries stay within the allocated rows"),
("C04","BGPQ entries","same operations; ghost tags identify every stored entry; postcondition: multiset of finite (tag,key) pairs is preserved exactly and every tag's value fields move with it; size.","as C03","64 s","tags concrete: the program only moves that field"),
("C05","HashTable insert/lookup","invariant: buckets filled from the left, entries pairwise distinct, `lookup` finds each stored entry at its slot; insert/lookup/lookup_bucket pre/post/frame against it.  Test classes *carry their hash*, so the proof is over all hash functions and all collision patterns.","tables up to 4 buckets×2 slots proved; larger bounded","50 s","free space, default probing limit"),
("C06","parallel_insert","postcondition against the set of filled contents, per-slot frame, invariant again; scatter back ends (pallas off / lax set / lax unique) and exact/fast dedupe via environment.","batches 1–3, tables ≤4 slots; larger bounded (to 70 000 rows)","125 s","as C05"),
("C07","lookup_parallel","found_i ⇔ mask_i ∧ found(lookup row i); found ⇒ stored item equals the row; array/scalar/traced/omitted mask.","tables ≤8 slots, 1–3 rows; larger bounded","40 s","as C05"),
("C08","in-batch dedupe","unique mask ⇔ filled and no cheaper equal row; index equality ⇔ content equality; key dtypes f16/f32/i16/i32/u8/u32, scalar key, all dedupe modes but `approx`.","batches 1–4; larger bounded (to 70 000)","100 s","as C05"),
("C09","hashing","hash, hash_pair, *_with_uint32ed, streaming on/off agree (relational obligations); words equal ⇔ bytes equal (both directions); every byte reaches the words; batching: row i of a batched hash is the hash of row i for any number of rows.","all batch sizes","90–115 s","mixing multiplications uninterpreted"),
("C10","bit packing","unpack(pack(x)) = x mod 2^bits, length law, byte-level non-interference, bool path; all 32 widths.","all lengths (residue classes × symbolic block count)","90 s","for bits=1 values are reduced by truthiness as the code documents; Pallas pack back end excluded"),
("C11","aggregate packing","packed.unpacked, as_original, unpack_field (slices too), repack of arbitrary words, injectivity; every width in a straddling position.","all batch sizes (one batch dimension; two for some classes); larger bounded","110 s","values within bits"),
("C12","packed accessors","set_unpacked/from_unpacked/_unpacked for every width, frame on other fields, copies of copies (history).","all batch sizes (1 and 2 batch dimensions)","130 s","values within bits"),
("C13","save/load","the real save/load run symbolically with only numpy's file layer replaced by its contract; dtype/shape/content equality for each class, packing on/off, paths, wrong-class rejection, overwrite.","shape instances; larger bounded (to 70 000 rows)","35 s","contract assumed on np.savez_compressed/np.load, cross-checked by real files in a scratch directory"),
("C14","unique_mask","mask, index, inverse postconditions; keys f16/f32, filled masks, key_fn, wide contents.","mask: all numbers of entries; index/inverse: ≤5 entries (thorough ≤7), larger bounded (to 70 000)","85 s","float keys without NaN: integer keys raise in the current code"),
("C15","update_on_condition","first true write per index wins, frame, out-of-range dropped, index dtypes, scalar/array values, dataclasses.","all sizes","55 s","–"),
("C16","indexing / .at","inst[idx] = per-field indexing; set and set_as_condition exact on addressed entries, frame elsewhere.","all sizes","85 s","1-D or tuple index arrays; a boolean-mask or tuple-of-slices index of set_as_condition is not in the property"),
("C17","xnp operations","each operation equals the same-named jnp operation per field over batch axes; defaults filled by pad; 53 functions.","all sizes for the operations JAX can trace symbolically (reshape and flatten included), instances for all; axes outside the batch and impossible shapes must be rejected","63 s","pad of instances whose dtypes differ from the declaration is out of contract; take's axis defaults to None although its doc says 0"),
("C18","queries","default contents, shape/len/dtype/structured queries, validation rejects exactly wrong shapes/dtypes/classes.","default: all sizes; rejection: symbolic dimensions (py mode)","21 s","python-scalar fields' dtype query out of contract; nested content is validated one level"),
("C19","where","equals jnp.where per field; where_no_broadcast rejection.","all sizes","57 s","float conversions uninterpreted"),
("C20","pytrees","flatten/unflatten, jit/vmap/scan/cond/while round trips, replace, tuple conversion, static fields.","all sizes for data; instances for structure","10 s","–"),
("C21","merge back ends","S = a++b; result is the increasing enumeration by (key, position); Pallas kernels executed from the kernel jaxpr of the real pallas_call.","lengths listed (0–5 each, all contents); larger bounded incl. default block 64","40 s","grid instances executed in sequence; out-of-block reads arbitrary"),
("C22","equality","== true iff every element of every field equal; != its complement; xnp.equal element-wise.","all sizes","40 s","–"),
]
t="| id | what is specified and decided | sizes | quick | assumptions beyond section 1 |\n|---|---|---|---|---|\n"
for i,n,w,s,c,a in P:
    t+=f"| {i} {n} | {w} | {s} | {c} | {a} |\n"
why = r'''
Why this reaches what tests cannot: the existing tests sample a handful of contents, shapes and histories; here the contents,
states, masks and hash functions are universally quantified, histories are covered by induction over the
invariant, and sizes are universally quantified wherever the table says so.

### Argument structure of the harder ones

* **Hash table (C05–C08).**  The library's table is generic in the item class, and asks the class for its hash.  The
  contract classes (`HV`, `HB`, `HW`, `HN`, `HP`, … in `contracts/ht.py`) store the hash words as ordinary fields and return them
  from the hash methods: quantifying over contents then quantifies over every hash function, including total
  collisions.  C09 supplies the missing link "the real hash is a deterministic function of content".  The invariant is observational
  ("the real `lookup` finds each entry at its slot"), so it is inductive for any probing scheme a refactoring could choose.
* **BGPQ (C03/C04).**  Keys are only ever compared, so 8-bit floats exhibit every order pattern that fits the listed
  node sizes; wider dtypes are proved as instances as well.  C03 owns order and key multiset; C04 pairs.  Together with C21 (merge =
  stable merge) they cover all back ends.
* **Packing (C10–C12).**  The bit-packers are periodic in the number of values per byte block; for each residue class a
  symbolic block count gives all lengths.
* **C21 partition.**  The binary-search partition works with sentinels outside the arrays; reads outside
  are arbitrary terms, and the proof shows the result does not depend on them.

## 3. Properties not claimed

None: all 22 properties have contracts (MANIFEST `not_applicable` is empty).  Parts of properties outside the reach are the bounded
entries of the table (larger tables/heaps/batches) and the explicitly excluded code: TPU/GPU-only kernels that have no CPU
execution (hash-table Triton/Pallas insert kernels, Pallas pack back end).

## 4. Findings

All defects found on the original tree were small and are repaired by `fix:` commits in /repo; none is left as a known
finding.  `known_findings.json` records each (a fixed entry suppresses nothing):

'''
k=json.load(open('/verif/known_findings.json'))['findings']
fl="".join(f"* {f['property']} `{f['commit']}` – {f['entry'].split(f['commit'])[1].strip()}\n" for f in k)
tail = r'''
False alarms met while building, and what was corrected: C08 with 66 000 rows of one hash was reported as
non-termination (the probing is quadratic in that case, not endless; the case was replaced by one whose run takes seconds);
C05 "default sizing has room for `capacity` items" fails for `hash_size_multiplier=1` (outside the property; default sizing
is checked); C06/C05 with a user-supplied smaller `max_probes` (the statement is for the default limit); C10 bits=1 with
values above 1 (documented truthiness); C17 pad on instances whose dtypes were changed by the caller.

## 5. Planted bugs

Each is in `seeded/<id>/` or, for those whose checks run long, `planted_more/<id>/` (moved there only to keep a full vcheck short;
no check reads either), with patch, demonstration and meta; all were confirmed to compile, pass the 269 stable tests and
fail their demonstration.

'''
import os
rows="| planted change | property | caught by | needs |\n|---|---|---|---|\n"
N=json.load(open('/verif/tools/seeded_notes.json')) if os.path.exists('/verif/tools/seeded_notes.json') else {}
dirs={d:b for b in ('seeded','planted_more') for d in os.listdir('/verif/'+b)}
for d in sorted(dirs):
    m=json.load(open(f'/verif/{dirs[d]}/{d}/meta.json'))
    rows+=f"| {d} | {m['property']} | {N.get(d, m['property']+' check')} | {m['needs']} |\n"
end=r'''
Besides these, several hundred small mutants (`operator, constant, index, branch` edits of each anchored function) were run
against the checks while they were built.  Misses led to: larger bounded instances that cross 8- and 16-bit limits (offsets, slot
indices, bit positions, row counts), narrow index dtypes, -inf keys, square tensor fields for broadcasting, unfilled rows between
colliding groups, histories in addition to single operations, and the any-size tier, which makes size-threshold bugs visible
without having to guess the threshold.  The remaining misses were judged equivalent mutants or belong to another property whose
check catches them.

The other direction was tried the same way: 21 behaviour-preserving rewrites of anchored functions (a helper extracted, a loop
rewritten as `fori_loop`, `jnp.where` for `lax.cond`, `argsort` for `sort_key_val`, `at[].min` for `where`, a recurrence written out, ...)
were applied to copies and every check of the touched property had to stay quiet.  Those that leave the generator's reach at a
symbolic size (reported as undischarged, with bounded contract runs instead) are not alarms.

## 6. Files

`check.py` driver · `jxv/term.py` terms and normaliser · `jxv/interp.py` jaxpr semantics · `jxv/param.py`, `jxv/prun.py` any-size engine ·
`jxv/pyexec.py` symbolic execution of Python code · `jxv/solve.py` z3/cvc5 · `jxv/runcase.py` one case: prove, replay, sample ·
`jxv/contract.py` contract language · `contracts/` the contracts · `tools/` manifest generator and timing report.
'''
open('/verif/DESIGN.md','w').write(head+doc+t+why+fl+tail+rows+end)
