"""C06 parallel_insert is equivalent to inserting the filled items as a set.

For a state satisfying the table invariant (C05) with room for the new contents:
inserted_i => filled_i and xs_i absent before;  every filled absent content has exactly one inserted row;  size' = size + #inserted;
old slots keep their entries;  a slot is new <=> it is the index of exactly one inserted row, and holds that row;
table'[idx_i] = xs_i and lookup(table', xs_i) = idx_i for every filled row;  the invariant holds again.
"""
from .ht import *
from .C05 import FI, Real, big_items, npy_rows

FPI = FI + ("xtructure/hashtable/insert.py:_hashtable_parallel_insert_jit", "xtructure/hashtable/insert.py:_hashtable_parallel_insert_internal",
            "xtructure/hashtable/insert.py:_resolve_slot_conflicts", "xtructure/hashtable/insert.py:_scatter_safe_indices",
            "xtructure/hashtable/insert.py:_scatter_set_xtructurable_drop", "xtructure/hashtable/lookup.py:_hashtable_lookup_parallel_internal",
            "xtructure/hashtable/hash_utils.py:_compute_unique_mask_from_hash_pairs", "xtructure/hashtable/hash_utils.py:get_new_idx_byterized",
            "xtructure/hashtable/table.py:HashTable.parallel_insert")


def case(cls, C, B, N, mask="array", key=None, env=(), tag="", prefill=None):
    n = C * B
    args = st_args(cls, C, B) + (inst(cls, (N,)),)
    if mask in ("array", "traced"):
        args += (S((N,) if mask == "array" else (), bool),)
    if key is not None:
        args += (S((N,), key),)

    def fn(items, fill, xs, *m):
        m = list(m)
        t = mk_state(cls, C, B, items, fill)
        f = m.pop(0) if mask in ("array", "traced") else mask
        k = m.pop(0) if key is not None else None
        t2, ins, uniq, idx = t.parallel_insert(xs, f, k)
        items2 = jax.tree_util.tree_map(lambda l: l[:n], t2.table)
        reb = mk_state(cls, C, B, items2, t2.bucket_fill_levels[:C].astype(jnp.uint32))
        li, lf = jax.vmap(t2.lookup)(xs)
        return dict(inv=found_all(t, items), ins=ins, uniq=uniq, idx=idx.index, old=arrs(t), new=arrs(t2), reb=arrs(reb), inv2=found_all(t2, items2), li=li.index, lf=lf,
                    got=t2[idx])

    def masks(a):
        if mask == "array":
            return [a[3][i] for i in range(N)]
        if mask == "traced":
            return [a[3].v] * N
        return [TRUE if mask in (None, True) else FALSE] * N

    def news(a):
        """row i is the first filled row with an absent content"""
        items, fill, xs = a[:3]
        f = masks(a)
        rows = [row(xs, i) for i in range(N)]
        ab = [And(f[i], Not(present(C, B, items, fill, rows[i]))) for i in range(N)]
        return ab, [And(ab[i], Not(Or(And(f[j], same_tree(rows[i], rows[j])) for j in range(i)))) for i in range(N)]

    def pre(*a):
        items, fill = a[:2]
        _, nw = news(a)
        c = [st_pre(C, B, items, fill), total(fill, C) + Count(nw, np.uint32) <= u32(n)]
        if key is not None and np.dtype(key).kind == "f":
            c += [Not(v.isnan()) for v in a[-1].flat()]
        return And(c)

    def post(a, r):
        items, fill, xs = a[:3]
        f = masks(a)
        rows = [row(xs, i) for i in range(N)]
        ab, nw = news(a)
        items2 = map_tree(r.new.table, lambda l: l[:n])
        fill2 = r.new.fill
        ins = [r.ins[i] for i in range(N)]
        obs = []
        for i in range(N):
            obs.append((f"row {i}: inserted only if filled and absent", Implies(ins[i], ab[i])))
            obs.append((f"row {i}: a new content has exactly one inserted row",
                        Implies(ab[i], Count([And(ins[j], f[j], same_tree(rows[i], rows[j])) if j != i else ins[i] for j in range(N)], np.uint32) == u32(1))))
            obs.append((f"row {i}: index addresses an equal entry", Implies(f[i], same_tree(row(r.got, i), rows[i]))))
            obs.append((f"row {i}: found afterwards", Implies(f[i], r.lf[i])))
            obs.append((f"row {i}: found at the returned index", Implies(f[i], r.li[i] == r.idx[i])))
        obs.append(("size grows by the number inserted", r.new["size"].v == r.old["size"].v + Count(ins, np.uint32)))
        for s in range(n):
            was, now = is_filled(fill, B, s), is_filled(fill2, B, s)
            obs.append((f"slot {s}: keeps its entry", Implies(was, And(now, same_tree(row(items2, s), row(items, s))))))
            obs.append((f"slot {s}: new exactly when one inserted row is there",
                        Implies(Not(was), And(Iff(now, Or(And(ins[i], r.idx[i] == u32(s)) for i in range(N))),
                                              And(Implies(And(ins[i], r.idx[i] == u32(s)), same_tree(row(items2, s), rows[i])) for i in range(N))))))
            obs.append((f"slot {s}: a stored entry is found there", Implies(now, And(r.inv2.found[s], r.inv2.idx[s] == u32(s)))))
        obs.append(("fill levels in range", And(fill2[b] <= u32(B) for b in range(C))))
        obs.append(("state is exactly what the entries determine", same_tree(r.new, r.reb)))
        return obs

    def sample(rng):
        items, fill = rand_state(rng, cls, C, B, free=int(rng.integers(0, min(N, n) + 1)))
        xs = stack([pick_row(rng, cls, items, fill, B) for _ in range(N)])
        if N > 1 and rng.random() < 0.4:
            k = np.arange(N)
            k[1] = 0
            xs = jax.tree_util.tree_map(lambda l: l[k], xs)
        s = (items, fill, xs)
        if mask == "array":
            s += (rng.random(N) < 0.8,)
        if mask == "traced":
            s += (np.bool_(rng.random() < 0.6),)
        if key is not None:
            s += (rng.integers(0, 3, size=N).astype(key),)
        return s

    return Case(name=f"{cls.__name__} {C}x{B} batch {N} mask {mask}{' key ' + np.dtype(key).name if key else ''}{tag}", fn=fn, args=args, post=post, pre=pre,
                assume=lambda a, r: st_inv(C, B, a[0], a[1], r.inv), sample=sample, nsample=8, functions=FPI, abstract_mul=True, env=env, budget=600)


def big_case(cls, C, B, N, batches, hashes=None, env=(), cap=None, keyed=False, tag="", nsample=3, dense=False):
    """bounded: a history of batches on a large table against a set"""
    kw = dict(bucket_size=B) if cap else dict(bucket_size=B, hash_size_multiplier=1)

    def fn(items, m, key):
        t = HashTable.build(cls, SEED, cap or C * B, **kw)

        def step(t, s):
            x, f, k = s
            t2, ins, uq, idx = t.parallel_insert(x, f, k if keyed else None)
            return t2, (ins, uq, idx.index, t2.size, t2[idx])

        t2, (ins, uq, idx, size, got) = jax.lax.scan(step, t, (items, m, key))
        flat = jax.tree_util.tree_map(lambda l: l.reshape((batches * N,) + l.shape[2:]), items)
        li, lf = t2.lookup_parallel(flat)
        si, sf = jax.vmap(t2.lookup)(jax.tree_util.tree_map(lambda l: l[:200], flat))
        return dict(ins=ins, uq=uq, idx=idx, size=size, got=got, li=li.index, lf=lf, lgot=t2[li], sf=sf)

    def post(a, r):
        flat = map_tree(a[0], lambda l: l.reshape((batches * N,) + l.shape[2:]))
        rows = npy_rows(flat)
        got = npy_rows(map_tree(r.got, lambda l: l.reshape((batches * N,) + l.shape[2:])))
        lgot = npy_rows(r.lgot)
        num = lambda A_: [int(v) for v in A_.s.el.reshape(-1)]
        m, ins, uq, idx, li, lf = num(a[1]), num(r.ins), num(r.uq), num(r.idx), num(r.li), num(r.lf)
        key = [float(x) for x in np.asarray(jnp_raw(a[2]))]
        at, okI, okS, okG, okU, okA = {}, True, True, True, True, True
        for b in range(batches):
            best = {}
            rng_ = range(b * N, (b + 1) * N)
            for i in rng_:
                if m[i]:
                    k = (key[i], i) if keyed else i
                    if rows[i] not in best or k < best[rows[i]][0]:
                        best[rows[i]] = (k, i)
            for i in rng_:
                rep = m[i] and best[rows[i]][1] == i
                okU &= bool(uq[i]) == bool(rep)
                okI &= bool(ins[i]) == bool(rep and rows[i] not in at)
            for i in rng_:
                if ins[i]:
                    at[rows[i]] = idx[i]
            for i in rng_:
                if m[i]:
                    okG &= got[i] == rows[i]
                    okA &= rows[i] in at and at[rows[i]] == idx[i]
            okS &= int(r["size"][b].e) == len(at)
        return [
            ("one representative per content, the cheapest", bv(okU)),
            ("exactly the new representatives are inserted", bv(okI)),
            ("size counts the entries", bv(okS)),
            ("the index addresses an equal entry", bv(okG)),
            ("indices never change and are not shared", bv(okA and len(set(at.values())) == len(at))),
            ("found exactly when stored", bv(all(bool(lf[i]) == (k in at) and (k not in at or (li[i] == at[k] and lgot[i] == k)) for i, k in enumerate(rows)))),
            ("single lookup agrees", bv(all(bool(v.e) == (rows[i] in at) for i, v in enumerate(r.sf.flat())))),
        ]

    slots = None if cap else C * B

    def sample(rng):
        it = big_items(rng, cls, batches * N, hashes)
        if slots:  # room for every distinct content
            rows = {}
            keep = np.zeros(batches * N, bool)
            fl = [np.asarray(l).reshape(batches * N, -1) for l in jax.tree_util.tree_leaves(it)]
            for i in range(batches * N):
                k = tuple(int(v) for l in fl for v in l[i])
                if k in rows or len(rows) < slots:
                    rows[k] = 1
                    keep[i] = True
            src = np.where(keep, np.arange(batches * N), 0)
            it = jax.tree_util.tree_map(lambda l: np.asarray(l)[src], it)
        mode = rng.integers(0, 3)
        if dense:  # nearly all distinct, nearly all selected
            ids = np.where(rng.random(batches * N) < 0.02, 0, rng.permutation(batches * N)).astype(np.uint32)
            it, mode = it.replace(x=ids, y=np.stack([ids % 3, ids % 2, ids * 0], 1).astype(np.uint8)), 0
        m = rng.random((batches, N)) < [1.1, 0.7, 0.3][mode]
        it = jax.tree_util.tree_map(lambda l: l.reshape((batches, N) + l.shape[1:]), it)
        key = rng.integers(0, 4, size=(batches, N)).astype(np.float32)
        key[rng.random((batches, N)) < 0.1] = np.inf
        return it, m, key

    shp = jax.tree_util.tree_map(lambda l: S((batches, N) + l.shape[1:], l.dtype), inst(cls, (batches * N,)))
    return Case(name=f"bounded {cls.__name__} " + (f"capacity {cap} bucket {B}" if cap else f"{C}x{B}") + f" {batches} batches of {N} {hashes or ''}{tag}", fn=fn,
                args=(shp, S((batches, N), bool), S((batches, N), np.float32)), post=post, sample=sample, nsample=nsample, mode="bounded",
                bound=f"{nsample} random histories of {batches} batches of {N}", functions=FPI, jit=True, env=env)


def jnp_raw(A_):
    from jxv import interp as ip

    return ip.from_raw(A_.s.el, A_.dtype).reshape(-1)


EXACT = (("XTRUCTURE_HASHTABLE_DEDUPE_MODE", "exact"),)
LAXS = (("XTRUCTURE_HASHTABLE_SORT_BACKEND", "lax_stable"),)
LAXU = (("XTRUCTURE_HASHTABLE_SORT_BACKEND", "lax_unstable"),)


def cases(tier):
    out = [case(HV, 1, 1, 1), case(HV, 1, 2, 2), case(HV, 2, 1, 2)]
    out += [case(HB, 2, 1, 2, mask=m) for m in (None, True, False, "traced")]
    out += [case(HB, 2, 1, 2, key=np.float32), case(HB, 1, 2, 2, key=np.int32)]
    out += [case(HB, 2, 1, 2, env=e, tag=" " + e[0][1]) for e in (EXACT, LAXS, LAXU)]
    out += [case(HB, 1, 3, 3), case(HB, 2, 2, 2), case(HB, 4, 1, 2), case(HN, 2, 1, 2)]
    if tier == "thorough":
        out += [case(HV, 2, 2, 2), case(HB, 2, 2, 3), case(HB, 4, 1, 3), case(HV, 1, 3, 3), case(HB, 2, 3, 2), case(HW, 2, 1, 2)]
    B_ = big_case
    out += [B_(HB, 4, 1, 4, 1, "tiny", nsample=150), B_(HB, 2, 2, 4, 1, "tiny", nsample=100), B_(HB, 8, 1, 8, 1, "tiny", nsample=100), B_(HB, 4, 2, 3, 2, "tiny", nsample=60),
            B_(HV, 16, 1, 16, 1, "chain1", nsample=80), B_(HV, 16, 4, 20, 4, "chain"), B_(HV, 8, 33, 100, 3, "few"), B_(HV, 1, 300, 280, 2, "few"), B_(HV, 2, 256, 520, 1, "few"),
            B_(HW, 8, 4, 15, 2, "few"), B_(HV, 131072, 1, 300, 2, "spread"), B_(HV, 4, 32, 60, 2, "few")]
    B1 = lambda *a, **k: big_case(Real, None, *a, **k)
    out += [B1(8, 100, 3, cap=320), B1(3, 64, 3, cap=200), B1(1, 40, 2, cap=80), B1(300, 200, 3, cap=700), B1(8, 100, 3, cap=320, keyed=True, tag=" keyed"), B1(4, 70000, 1, cap=70000), B1(4, 70000, 1, cap=70000, dense=True, tag=" dense", nsample=1)]
    for e in (EXACT, LAXS, LAXU):
        out.append(B_(HV, 16, 4, 20, 4, "chain", env=e, keyed=True, tag=" keyed " + e[0][1]))
    out.append(B_(HW, 8, 4, 15, 2, "few", keyed=True, env=EXACT, tag=" keyed exact"))
    out.append(B_(HW, 8, 4, 15, 2, "few", keyed=True, tag=" keyed"))
    return out
