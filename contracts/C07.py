"""C07 lookup_parallel agrees with lookup row by row.

lookup_parallel(t, xs, mask):  found_i <=> mask_i and found(lookup(t, xs_i));  found_i => table[idx_i] = xs_i.
A scalar mask is that mask for every row; without a mask every row is looked up.
"""
from .ht import *

FP = ("xtructure/hashtable/lookup.py:_hashtable_lookup_parallel_internal", "xtructure/hashtable/lookup.py:_hashtable_lookup_parallel_jit",
      "xtructure/hashtable/lookup.py:_hashtable_lookup_internal", "xtructure/hashtable/hash_utils.py:get_new_idx_hashed",
      "xtructure/hashtable/table.py:HashTable.lookup_parallel")


def case(cls, C, B, N, mask, tag=""):
    """mask: 'array', 'traced' (a traced scalar), None (argument omitted), True, False"""
    args = st_args(cls, C, B) + (inst(cls, (N,)),)
    if mask == "array":
        args += (S((N,), bool),)
    if mask == "traced":
        args += (S((), bool),)

    def fn(items, fill, xs, *m):
        t = mk_state(cls, C, B, items, fill)
        if mask is None:
            idx, found = t.lookup_parallel(xs)
        else:
            idx, found = t.lookup_parallel(xs, m[0] if m else mask)
        si, sf = jax.vmap(t.lookup)(xs)
        return dict(inv=found_all(t, items), idx=idx.index, found=found, sf=sf, got=t[idx])

    def post(a, r):
        xs = a[2]
        obs = [("result shapes", bv(r.found.shape == (N,) and r.idx.shape == (N,)))]
        if not obs[0][1].e:
            return obs
        for i in range(N):
            on = TRUE if mask in (None, True) else FALSE if mask is False else (a[3][i] if mask == "array" else a[3].v)
            obs.append((f"row {i}: found exactly when looked up and stored", Iff(r.found[i], And(on, r.sf[i]))))
            obs.append((f"row {i}: index addresses an equal entry", Implies(r.found[i], same_tree(row(r.got, i), row(xs, i)))))
        return obs

    def sample(rng):
        items, fill = rand_state(rng, cls, C, B)
        xs = stack([pick_row(rng, cls, items, fill, B) for _ in range(N)])
        s = (items, fill, xs)
        if mask == "array":
            s += (rng.random(N) < 0.7,)
        if mask == "traced":
            s += (np.bool_(rng.random() < 0.6),)
        return s

    return Case(name=f"{cls.__name__} {C}x{B} batch {N} mask {mask}{tag}", fn=fn, args=args, post=post,
                pre=lambda i, f, *_: st_pre(C, B, i, f), assume=lambda a, r: st_inv(C, B, a[0], a[1], r.inv),
                sample=sample, nsample=5, functions=FP, abstract_mul=True)


def big_case(cls, C, B, N, Q, hashes=None):
    """bounded: tables filled by real insertions, every found flag against the single lookup and the inserted set"""
    from .C05 import big_items, npy_rows

    def fn(items, xs, m):
        t = HashTable.build(cls, SEED, C * B, bucket_size=B, hash_size_multiplier=1)
        t, _ = jax.lax.scan(lambda t, x: (t.insert(x)[0], 0), t, items)
        idx, found = t.lookup_parallel(xs, m)
        si, sf = jax.vmap(t.lookup)(xs)
        return dict(idx=idx.index, found=found, sf=sf, got=t[idx], all=jnp.stack([t.lookup_parallel(xs, False)[1], t.lookup_parallel(xs)[1]]))

    def post(a, r):
        stored = set(npy_rows(a[0]))
        q, g = npy_rows(a[1]), npy_rows(r.got)
        m = [bool(v.e) for v in a[2].flat()]
        f = [bool(v.e) for v in r.found.flat()]
        sf = [bool(v.e) for v in r.sf.flat()]
        return [
            ("found exactly when looked up and stored", bv(all(f[i] == (m[i] and q[i] in stored) for i in range(Q)))),
            ("agrees with the single lookup", bv(all(f[i] == (m[i] and sf[i]) for i in range(Q)))),
            ("index addresses an equal entry", bv(all(not f[i] or g[i] == q[i] for i in range(Q)))),
            ("scalar masks", bv(all(not r.all[0][i].e and bool(r.all[1][i].e) == (q[i] in stored) for i in range(Q)))),
        ]

    def sample(rng):
        items = big_items(rng, cls, N, hashes, vacant=False)
        other = big_items(rng, cls, Q, hashes, vacant=False)
        take = rng.integers(0, N, size=Q)
        use = rng.random(Q) < 0.6
        xs = jax.tree_util.tree_map(lambda o, i: np.where(use.reshape((Q,) + (1,) * (o.ndim - 1)), i[take], o).astype(o.dtype), other, items)
        last = np.arange(Q) == Q - 1  # the content of vacant slots
        xs = jax.tree_util.tree_map(lambda l, v: np.where(last.reshape((Q,) + (1,) * (l.ndim - 1)), np.asarray(v), l).astype(l.dtype), xs, cls.default())
        return items, xs, (rng.random(Q) < 0.8) | last

    return Case(name=f"bounded {cls.__name__} {C}x{B} {N} insertions, {Q} queries {hashes or ''}", fn=fn, args=(inst(cls, (N,)), inst(cls, (Q,)), S((Q,), bool)), post=post,
                sample=sample, nsample=2, mode="bounded", bound=f"2 random histories of {N} insertions, {Q} queries", functions=FP, jit=True)


def cases(tier):
    out = []
    for cls, C, B, N, m in [(HV, 1, 2, 2, "array"), (HV, 1, 3, 1, "array"), (HV, 1, 3, 2, "array"), (HV, 2, 1, 2, "array"), (HV, 2, 2, 2, "array"), (HV, 4, 1, 2, "array"), (HV, 2, 1, 3, "array"),
                            (HV, 2, 1, 2, None), (HV, 2, 1, 2, True), (HV, 2, 1, 2, False), (HV, 2, 1, 2, "traced"), (HV, 2, 2, 1, "array"),
                            (HN, 2, 1, 2, "array"), (HW, 2, 1, 2, "array")]:
        out.append(case(cls, C, B, N, m))
    if tier == "thorough":
        out += [case(HV, 2, 3, 2, "array"), case(HV, 4, 2, 1, "array")]
    from .C05 import Real

    for cls, C, B, N, Q, h in [(HV, 16, 4, 60, 40, "chain"), (HV, 8, 33, 250, 60, "few"), (HV, 1, 300, 290, 310, "few"), (Real, 64, 8, 400, 300, None), (HV, 128, 1, 120, 140, "chain"), (HV, 131072, 1, 200, 300, "spread"), (HV, 4, 256, 900, 66000, "few")]:
        out.append(big_case(cls, C, B, N, Q, h))
    return out
