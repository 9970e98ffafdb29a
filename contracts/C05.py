"""C05 HashTable single insert/lookup behaves as a set.

Inv(t):  slots of a bucket are filled from the left; stored entries are pairwise distinct; t.lookup finds every stored entry at its slot.
lookup(t, x):   found <=> x stored; found => table[idx] = x; the table is not changed.
insert(t, x):   inserted <=> x absent and a free slot exists; table'[idx] = x when inserted or present; size' = size + inserted;
                not inserted => t' = t; the old slots keep their entries; Inv(t'); t' holds exactly the old entries and x.
build():        empty, Inv, at least the stated bucket structure.
"""
from .ht import *

FL = ("xtructure/hashtable/lookup.py:_hashtable_lookup_internal", "xtructure/hashtable/lookup.py:_hashtable_lookup_jit",
      "xtructure/hashtable/lookup.py:_hashtable_lookup_bucket_jit", "xtructure/hashtable/hash_utils.py:get_new_idx_hashed",
      "xtructure/hashtable/hash_utils.py:_normalize_probe_step", "xtructure/hashtable/table.py:HashTable.__getitem__")
FI = FL + ("xtructure/hashtable/insert.py:_hashtable_insert_jit", "xtructure/hashtable/table.py:HashTable.insert", "xtructure/hashtable/table.py:_hashtable_build_jit")


def one_sample(cls, C, B):
    def sample(rng):
        items, fill = rand_state(rng, cls, C, B)
        return items, fill, pick_row(rng, cls, items, fill, B)

    return sample


def lookup_case(cls, C, B, tag=""):
    def fn(items, fill, x):
        t = mk_state(cls, C, B, items, fill)
        idx, found = t.lookup(x)
        b, bf, fp = t.lookup_bucket(x)
        return dict(inv=found_all(t, items), idx=idx.index, found=found, got=t[idx], bi=b.index, bs=b.slot_index.astype(jnp.uint32), bf=bf)

    def post(a, r):
        items, fill, x = a
        p = present(C, B, items, fill, x)
        return [
            ("found exactly when stored", Iff(r.found.v, p)),
            ("index addresses the entry", Implies(r.found.v, same_tree(r.got, x))),
            ("index is a filled slot", Implies(r.found.v, Or(And(is_filled(fill, B, s), r.idx.v == u32(s)) for s in range(C * B)))),
            ("bucket lookup agrees", And(Iff(r.bf.v, r.found.v), Implies(r.found.v, r.bi.v * u32(B) + r.bs.v == r.idx.v))),
        ]

    return Case(name=f"lookup {cls.__name__} {C}x{B}{tag}", fn=fn, args=st_args(cls, C, B) + (inst(cls),), post=post,
                pre=lambda i, f, x: st_pre(C, B, i, f), assume=lambda a, r: st_inv(C, B, a[0], a[1], r.inv),
                sample=one_sample(cls, C, B), nsample=6, functions=FL, abstract_mul=True)


def insert_case(cls, C, B, tag=""):
    n = C * B

    def fn(items, fill, x):
        t = mk_state(cls, C, B, items, fill)
        t2, ins, idx = t.insert(x)
        items2 = jax.tree_util.tree_map(lambda l: l[:n], t2.table)
        reb = mk_state(cls, C, B, items2, t2.bucket_fill_levels[:C].astype(jnp.uint32))
        i2, f2 = t2.lookup(x)
        return dict(inv=found_all(t, items), ins=ins, idx=idx.index, old=arrs(t), new=arrs(t2), reb=arrs(reb), inv2=found_all(t2, items2), i2=i2.index, f2=f2,
                    got=t2[idx])

    def post(a, r):
        items, fill, x = a
        p = present(C, B, items, fill, x)
        tot = total(fill, C)
        items2 = map_tree(r.new.table, lambda l: l[:n])
        fill2 = r.new.fill
        ins = r.ins.v
        return [
            ("inserted exactly when absent and space remains", Iff(ins, And(Not(p), tot < u32(n)))),
            ("size grows by one exactly then", r.new["size"].v == r.old["size"].v + Ite(ins, u32(1), u32(0))),
            ("size counts the entries", r.old["size"].v == tot),
            ("nothing changes otherwise", Implies(Not(ins), same_tree(r.new, r.old))),
            ("the index addresses the entry", Implies(Or(ins, p), And(same_tree(r.got, x), r.f2.v, r.i2.v == r.idx.v))),
            ("found afterwards iff it fitted", Iff(r.f2.v, Or(ins, p))),
            ("old slots keep their entries", And(Implies(is_filled(fill, B, s), And(is_filled(fill2, B, s), same_tree(row(items2, s), row(items, s)))) for s in range(n))),
            ("only the new slot is added", And(Implies(And(Not(is_filled(fill, B, s)), is_filled(fill2, B, s)), And(ins, r.idx.v == u32(s))) for s in range(n))),
            ("fill levels in range", And(fill2[b] <= u32(B) for b in range(C))),
            ("state is exactly what the entries determine", same_tree(r.new, r.reb)),
        ] + [(f"slot {s}: a stored entry is found there", Implies(is_filled(fill2, B, s), And(r.inv2.found[s], r.inv2.idx[s] == u32(s)))) for s in range(n)]

    return Case(name=f"insert {cls.__name__} {C}x{B}{tag}", fn=fn, args=st_args(cls, C, B) + (inst(cls),), post=post,
                pre=lambda i, f, x: st_pre(C, B, i, f), assume=lambda a, r: st_inv(C, B, a[0], a[1], r.inv),
                sample=one_sample(cls, C, B), nsample=6, functions=FI, abstract_mul=True)


@xtructure_dataclass
class Real:
    """the library's own hash"""

    x: F.scalar(dtype=jnp.uint32)
    y: F.tensor(dtype=jnp.uint8, shape=(3,))


def npy_rows(tree):
    """concrete rows as tuples"""
    ls = [l.s.el.reshape(l.shape[0], -1) for _, l in leaves(tree)]
    return [tuple(v for l in ls for v in l[i]) for i in range(ls[0].shape[0])]


def big_items(rng, cls, n, hashes, vacant=True):
    """n rows, about a fifth of them repeated, one with the content of a vacant slot"""
    if not vacant:
        return _big_items(rng, cls, n, hashes)
    z, d, i = _big_items(rng, cls, n, hashes), cls.default(), int(rng.integers(n // 2, n))
    at = np.arange(n) == i
    return jax.tree_util.tree_map(lambda l, v: np.where(at.reshape((n,) + (1,) * (l.ndim - 1)), np.asarray(v), l).astype(l.dtype), z, d)


def _big_items(rng, cls, n, hashes):
    t = inst(cls, (n,))
    pool = max(1, int(n * rng.choice([0.5, 0.9, 1.5])))
    ids = rng.integers(0, pool, size=n).astype(np.uint32)
    if cls is Real:
        return t.replace(x=ids, y=np.stack([ids % 3, ids % 2, ids * 0], 1).astype(np.uint8))
    if hashes == "tiny":  # few buckets, every pattern of steps
        z = t.replace(x=ids.astype(t.x.dtype), h1=rng.integers(0, 4, size=n)[ids % n].astype(t.h1.dtype), h2=rng.choice([0, 1, 2, 3, 5, -1], size=n)[ids % n].astype(t.h2.dtype))
        return z
    if hashes == "chain1":
        h1, h2 = rng.integers(0, 16, size=n)[ids % n], rng.choice([1, 3, 5, 7, 15], size=n)[ids % n]
    elif hashes == "chain":  # consecutive buckets, all step patterns
        h1, h2 = ids % 7, np.array([0, 1, 2, 3, 0xFFFFFFFF], np.uint32)[ids % 5]
    elif hashes == "few":
        h1, h2 = np.array([0, 3, 0xFFFFFFFF], np.uint32)[ids % 3], np.array([0, 0xFFFFFFFF], np.uint32)[ids % 2]
    elif hashes == "spread":  # buckets all over the table, pairs of items share one
        h1, h2 = (ids // 2) * np.uint32(2654435761), ids
    else:
        h1, h2 = (ids * np.uint32(2654435761)), (ids * np.uint32(40503) + np.uint32(5))
    z = jax.tree_util.tree_map(lambda l: np.zeros(l.shape, l.dtype), t)
    z = z.replace(h1=h1.astype(np.uint32), h2=h2.astype(np.uint32))
    if cls is HV:
        return z.replace(x=ids)
    w = np.zeros(t.w.shape, np.uint32)
    w[:, 4] = ids
    return z.replace(w=w)


def big_case(cls, C, B, N, hashes=None, cap=None, seed=SEED):
    """bounded: a history of N insertions on a large table against a set"""
    kw = dict(bucket_size=B) if cap else dict(bucket_size=B, hash_size_multiplier=1)

    def fn(items, xs):
        t = HashTable.build(cls, seed, cap or C * B, **kw)

        def step(t, x):
            t2, ins, idx = t.insert(x)
            return t2, (ins, idx.index, t2.size)

        t2, (ins, idx, size) = jax.lax.scan(step, t, items)
        li, lf = jax.vmap(t2.lookup)(items)
        qi, qf = jax.vmap(t2.lookup)(xs)
        return dict(ins=ins, idx=idx, size=size, li=li.index, lf=lf, got=t2[li], qi=qi.index, qf=qf, qgot=t2[qi])

    def post(a, r):
        rows, q = npy_rows(a[0]), npy_rows(a[1])
        slots = (C * B) if not cap else None
        seen, at, ok_i, ok_x, ok_s = set(), {}, True, True, True
        for i, k in enumerate(rows):
            fits = cap or len(seen) < slots
            new = k not in seen and bool(fits)
            ok_i &= bool(r.ins[i].e) == new
            if new:
                seen.add(k)
                at[k] = int(r.idx[i].e)
            if k in seen:
                ok_x &= int(r.idx[i].e) == at[k]
            ok_s &= int(r["size"][i].e) == len(seen)
        g, qg = npy_rows(r.got), npy_rows(r.qgot)
        return [
            ("inserted exactly when absent and space remains", bv(ok_i)),
            ("indices never change and are not shared", bv(ok_x and len(set(at.values())) == len(at))),
            ("size counts the entries", bv(ok_s)),
            ("every stored item is found where it was put", bv(all((k in seen) == bool(r.lf[i].e) and (k not in seen or (int(r.li[i].e) == at[k] and g[i] == k)) for i, k in enumerate(rows)))),
            ("found exactly when stored", bv(all((k in seen) == bool(r.qf[i].e) and (k not in seen or qg[i] == k) for i, k in enumerate(q)))),
        ]

    def sample(rng):
        return big_items(rng, cls, N, hashes, vacant=rng.random() < 0.4), big_items(rng, cls, 40, hashes)

    return Case(name=f"bounded {cls.__name__} " + (f"capacity {cap} bucket {B}" if cap else f"{C}x{B}") + f" {N} insertions {hashes or ''}", fn=fn, args=(inst(cls, (N,)), inst(cls, (40,))), post=post, sample=sample, nsample=2,
                mode="bounded", bound=f"2 random histories of {N} insertions", functions=FI, jit=True)


def fresh_case(cls, cap, B, mult):
    """a new table is empty: size 0 and no item is found"""
    kw = {} if B is None else dict(bucket_size=B)
    kw.update({} if mult is None else dict(hash_size_multiplier=mult))

    def fn(x):
        t = HashTable.build(cls, SEED, cap, **kw)
        i, f = t.lookup(x)
        t2, ins, j = t.insert(x)
        k, g = t2.lookup(x)
        return dict(size=t.size, f=f, ins=ins, size2=t2.size, g=g, same=t2[j], k=k.index, j=j.index)

    def post(a, r):
        return [("empty", And(r["size"].v == lit(0, r["size"].dtype), Not(r.f.v))),
                ("first insertion", And(r.ins.v, r.g.v, r.size2.v == lit(1, r.size2.dtype), same_tree(r.same, a[0]), r.k.v == r.j.v))]

    return Case(name=f"new {cls.__name__} capacity {cap} bucket {B} multiplier {mult}", fn=fn, args=(inst(cls),), post=post, nsample=3, functions=FI, abstract_mul=True)


def cases(tier):
    out = []
    for cls, C, B in [(HV, 1, 1), (HV, 1, 2), (HV, 1, 3), (HV, 2, 1), (HV, 2, 2), (HB, 4, 1), (HB, 2, 3)]:
        out += [lookup_case(cls, C, B), insert_case(cls, C, B)]
    if tier == "thorough":
        out += [f(HV, C, B) for C, B in [(4, 1), (2, 3)] for f in (lookup_case, insert_case)] + [insert_case(HB, 4, 2), lookup_case(HB, 4, 2)]
    for cls in (HN, HW):
        out += [lookup_case(cls, 2, 1), insert_case(cls, 2, 1)]
    if tier == "thorough":
        out += [lookup_case(HV, 4, 2), lookup_case(HB, 8, 1), insert_case(HN, 1, 2)]
    for cap, B, m in [(1, None, None), (5, 2, 1), (3, 1, None), (9, 4, 3), (40, 33, 1)]:
        out.append(fresh_case(HV, cap, B, m))
    for cls, C, B, N, h in [(HV, 16, 4, 80, "chain"), (HV, 8, 33, 300, "few"), (HV, 1, 300, 320, "few"), (Real, 64, 8, 560, None), (HV, 128, 1, 160, "chain"),
                            (HW, 8, 4, 50, "few"), (HV, 4, 32, 150, "few"), (HV, 2, 256, 540, "chain"), (HV, 131072, 1, 400, "spread"), (HV, 16384, 5, 300, "spread")]:
        out.append(big_case(cls, C, B, N, h))
    for cap, B, N in [(50, 8, 50), (100, 3, 100), (7, 8, 7), (33, 1, 33), (300, 5, 300), (500, 300, 500)]:
        out.append(big_case(Real, None, B, N, None, cap=cap))
    return out
