"""C08 in-batch duplicate elimination is exact and picks the cheapest copy.

parallel_insert(xs, filled, key) -> unique mask u, indices:
u_i <=> filled_i and no filled j with equal content has (key_j, j) < (key_i, i)   (without a key: no filled earlier equal row);
filled rows of equal content get the same index, filled rows of different content different ones.
"""
from .ht import *
from .C06 import EXACT, FPI, LAXS, LAXU, big_items, jnp_raw, npy_rows

FD = FPI + ("xtructure/hashtable/hash_utils.py:_compute_unique_mask_from_uint32eds",)
SAFE = (("XTRUCTURE_HASHTABLE_DEDUPE_MODE", "fast"),)


@own_hash
@xtructure_dataclass
class HWs:
    """nine words: the signature path"""

    h1: F.scalar(dtype=jnp.uint32)
    h2: F.scalar(dtype=jnp.uint32)
    w: F.tensor(dtype=jnp.uint32, shape=(7,))


@xtructure_dataclass
class HP:
    """the varying part of HWs"""

    h1: F.scalar(dtype=jnp.uint32)
    h2: F.scalar(dtype=jnp.uint32)
    a: F.scalar(dtype=jnp.uint32)
    b: F.scalar(dtype=jnp.uint32)


def widen(p):
    z = jnp.zeros_like(p.a)
    return HWs(h1=p.h1, h2=p.h2, w=jnp.stack([z, z, z, z, z, p.a, p.b], axis=-1))


def case(cls, N, key=None, scalar_key=False, mask="array", env=(), tag="", **kw):
    args = (inst(cls, (N,)),)
    if mask == "array":
        args += (S((N,), bool),)
    if key is not None:
        args += (S(() if scalar_key else (N,), key),)

    def fn(xs, *m):
        m = list(m)
        t = build(HWs if cls is HP else cls, 1, max(N, 1))
        xs = widen(xs) if cls is HP else xs
        f = m.pop(0) if mask == "array" else mask
        _, _, u, idx = t.parallel_insert(xs, f, m.pop(0) if key is not None else None)
        return dict(u=u, idx=idx.index)

    def pre(*a):
        if key is not None and np.dtype(key).kind == "f":
            return And(Not(v.isnan()) for v in a[-1].flat())
        return TRUE

    def post(a, r):
        xs = a[0]
        f = [a[1][i] for i in range(N)] if mask == "array" else [TRUE if mask in (None, True) else FALSE] * N
        k = None if key is None or scalar_key else a[-1]
        obs = [("result shapes", bv(r.u.shape == (N,) and r.idx.shape == (N,)))]
        if not obs[0][1].e:
            return obs
        sm = {}
        for i in range(N):
            for j in range(i):
                sm[i, j] = sm[j, i] = same_tree(row(xs, i), row(xs, j))
        for i in range(N):
            better = [And(f[j], sm[i, j], TRUE if (k is None and j < i) else FALSE if k is None else (k[j] <= k[i]) if j < i else (k[j] < k[i])) for j in range(N) if j != i]
            obs.append((f"row {i} represents iff it is the cheapest earliest filled copy", Iff(r.u[i], And(f[i], Not(Or(better))))))
            for j in range(i):
                obs.append((f"rows {j},{i} share an index iff equal", Implies(And(f[i], f[j]), Iff(sm[i, j], r.idx[i] == r.idx[j]))))
        return obs

    def sample(rng):
        xs = rand_items(rng, cls, N)
        s = (xs,)
        if mask == "array":
            s += (rng.random(N) < 0.75,)
        if key is not None:
            sh = () if scalar_key else (N,)
            kk = np.asarray(rng.integers(0, 3, size=sh)).astype(key)
            if rng.random() < 0.5:
                top = np.inf if np.dtype(key).kind == "f" else np.iinfo(key).max
                kk = np.where(rng.random(sh) < 0.5, np.asarray(top, dtype=key), kk).astype(key)
            if rng.random() < 0.4 and np.dtype(key).itemsize == 4:
                kk = (np.asarray(16777216) + rng.integers(0, 3, size=sh)).astype(key)
            s += (kk,)
        return s

    return Case(name=f"{cls.__name__} batch {N} mask {mask}{(' scalar' if scalar_key else '') + ' key ' + np.dtype(key).name if key is not None else ''}{tag}", fn=fn, args=args, pre=pre,
                post=post, sample=sample, nsample=12, functions=FD, abstract_mul=True, env=env, budget=600, **kw)


def big_case(cls, N, hashes, key, env=(), tag=""):
    """bounded: a large batch with many duplicates against the definition"""
    def fn(xs, m, k):
        t = build(cls, 1, N) if N < 400 else HashTable.build(cls, SEED, N)
        _, _, u, idx = t.parallel_insert(xs, m, k)
        return dict(u=u, idx=idx.index)

    def post(a, r):
        rows = npy_rows(a[0])
        m = [bool(v.e) for v in a[1].flat()]
        k = jnp_raw(a[2]).tolist()
        best = {}
        for i in range(N):
            if m[i] and (rows[i] not in best or k[i] < k[best[rows[i]]]):
                best[rows[i]] = i
        u = [bool(v.e) for v in r.u.flat()]
        ix = [int(v.e) for v in r.idx.flat()]
        return [("exactly the cheapest earliest copies represent", bv(all(u[i] == (m[i] and best[rows[i]] == i) for i in range(N)))),
                ("copies share their representative's index", bv(all(not m[i] or ix[i] == ix[best[rows[i]]] for i in range(N)))),
                ("different contents have different indices", bv(len({ix[b] for b in best.values()}) == len(best)))]

    def sample(rng):
        k = rng.integers(0, 3, size=N)
        k = (k + (16777216 if np.dtype(key).itemsize == 4 and rng.random() < 0.5 else 0)).astype(key)
        return big_items(rng, cls, N, hashes), rng.random(N) < rng.choice([0.2, 0.8, 1.1]), k

    return Case(name=f"bounded {cls.__name__} batch {N} {hashes or ''} key {np.dtype(key).name}{tag}", fn=fn, args=(inst(cls, (N,)), S((N,), bool), S((N,), key)), post=post, sample=sample,
                nsample=3, mode="bounded", bound=f"3 random batches of {N}", functions=FD, jit=True, env=env)


def cases(tier):
    from .C05 import Real

    out = [case(HV, n) for n in (1, 2, 3)]
    out += [case(HV, 2, mask=m) for m in (None, True, False)]
    out += [case(HV, 3, key=k) for k in (np.float32, np.int32)] + [case(HV, 2, key=k) for k in (np.float16, np.uint32, np.uint8, np.int16)]
    out += [case(HV, 2, key=np.float32, scalar_key=True)]
    out += [case(HV, 3, key=np.float32, env=e, tag=" " + e[0][1]) for e in (EXACT, LAXS, LAXU, SAFE)]
    out += [case(HB, 4), case(HB, 4, key=np.float16)]
    out += [case(HW, 2), case(HWs, 2, key=np.float32), case(HP, 3), case(HW, 2, key=np.int32, env=EXACT, tag=" exact"), case(HN, 3, key=np.float16)]
    if tier == "thorough":
        out += [case(HV, 4), case(HV, 4, key=np.float32), case(HWs, 3), case(HP, 3, key=np.float32), case(HB, 5), case(HB, 4, key=np.int16, env=EXACT, tag=" exact")]
    for cls, N, h, k in [(HV, 200, "few", np.float32), (HV, 300, "chain", np.int32), (HW, 60, "few", np.float32), (Real, 1000, None, np.uint32), (Real, 70000, None, np.float32), (Real, 66000, None, np.int32), (HV, 66000, "spread", np.uint8)]:
        out.append(big_case(cls, N, h, k))
    for e in (EXACT, LAXS, LAXU):
        out.append(big_case(HV, 200, "few", np.float32, env=e, tag=" " + e[0][1]))
    out.append(big_case(HW, 60, "few", np.int32, env=EXACT, tag=" exact"))
    return out
