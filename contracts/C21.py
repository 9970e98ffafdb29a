"""C21 merge back ends equal a stable merge.

With S = concatenation of a and b (both sorted, no NaN): the result is the strictly increasing enumeration of S in the order
(key, position in S); keys and values are those of the enumerated positions.  Pallas kernels are executed by the generator on the
kernel jaxpr of the real pallas_call (grid instances in sequence); concrete runs use Pallas interpret mode.
"""
from .palstub import wrap  # noqa: F401
from .common import *  # noqa: E402
from xtructure.bgpq import merge_split as ms  # noqa: E402
from xtructure.bgpq import _merge  # noqa: E402
from xtructure.bgpq.merge_split import common as mcommon, parallel as mpar  # noqa: E402


CASES = []
KV = dict(XTRUCTURE_BGPQ_MERGE_VALUE_BACKEND="on")


def sorted_(k):
    return And([k[i] <= k[i + 1] for i in range(len(k) - 1)] + [Not(v.isnan()) for v in k.flat()])


def common_dt(a, b):
    return np.dtype(jnp.result_type(a.dtype, b.dtype))


def up(v, dt):
    if v.dt == dt:
        return v
    return v.astype(dt)


def rand_keys(rng, n, dt, special=True):
    dt = np.dtype(dt)
    if jnp.issubdtype(dt, jnp.floating):
        pool = np.array([-np.inf, -2.0, -1.0, -0.0, 0.0, 1.0, 1.5, 3.0, np.inf, float(jnp.finfo(dt).max), float(jnp.finfo(dt).min)])
        return np.sort(rng.choice(pool[3:8] if rng.random() < 0.3 else pool, n)).astype(dt)
    ii = np.iinfo(dt)
    pool = np.array([ii.min, ii.max, 0, 1, 2, 3, 5], dtype=dt)
    return np.sort(rng.choice(pool, n))


def src_list(a, b, dt):
    return [up(v, dt) for v in a.flat()] + [up(v, dt) for v in b.flat()]


def index_post(a, r):
    ak, bk = a
    keys, idx = r
    N = len(ak) + len(bk)
    dt = common_dt(ak, bk)
    obs = [("result shape and dtype", bv(keys.shape == (N,) and idx.shape == (N,) and keys.dtype == dt and np.dtype(idx.dtype).kind in "iu"))]
    if not obs[0][1].e:
        return obs
    S_ = src_list(ak, bk, dt)
    obs.append(("indices address the concatenation", And(Or(idx[p].eqint(s) for s in range(N)) for p in range(N))))
    obs.append(("each key is the key at its index", And(Implies(idx[p].eqint(s), keys[p].same(S_[s])) for p in range(N) for s in range(N))))
    obs.append(("ascending keys", And(keys[p] <= keys[p + 1] for p in range(N - 1))))
    obs.append(("stable: equal keys in concatenation order, nothing repeated",
                And(Or(keys[p] < keys[p + 1], And(keys[p] == keys[p + 1], idx[p] < idx[p + 1])) for p in range(N - 1))))
    return obs


def big_index_post(a, r):
    """concrete evaluation for large sizes"""
    ak, bk = a
    keys, idx = r
    S_ = np.concatenate([ak.s.np, bk.s.np])
    order = np.argsort(S_, kind="stable")
    return [("stable merge", bv(keys.shape == S_.shape and bool(np.all(idx.s.np == order)) and keys.s.np.tobytes() == S_[order].tobytes()))]


def ranks(S_, n):
    """rank of each source position in the stable merge"""
    N = len(S_)
    out = []
    for s in range(N):
        if s < n:
            r = lit(s, np.uint8) + Count([S_[t] < S_[s] for t in range(n, N)], np.uint8)
        else:
            r = lit(s - n, np.uint8) + Count([S_[t] <= S_[s] for t in range(n)], np.uint8)
        out.append(r)
    return out


def pair_post(ak, av, bk, bv_, keys, vals, dt=None):
    n, N = len(ak), len(ak) + len(bk)
    dt = dt or common_dt(ak, bk)
    S_ = src_list(ak, bk, dt)
    rk = ranks(S_, n)
    la, lb, lo = leaves(av), leaves(bv_), leaves(vals)
    good = keys.shape == (N,) and keys.dtype == dt and [p for p, _ in la] == [p for p, _ in lo] and all(
        o.shape == (N,) + x.shape[1:] and o.dtype == x.dtype for (_, x), (_, o) in zip(la, lo))
    obs = [("result structure", bv(good))]
    if not good:
        return obs

    def rowat(ls, i):
        return [x[i] for _, x in ls]

    def rsame(x, y):
        return And(p.same(q) for p, q in zip(x, y))

    obs.append(("keys are the stable merge", And(Implies(rk[s].eqint(p), keys[p].same(S_[s])) for s in range(N) for p in range(N))))
    obs.append(("values move with their keys", And(
        Implies(rk[s].eqint(p), rsame(rowat(lo, p), rowat(la, s) if s < n else rowat(lb, s - n))) for s in range(N) for p in range(N))))
    return obs


def cat(x, y):
    return A(type(x.s)(x.dtype, el=np.concatenate([x.s.el, y.s.el])))


def keycase(name, f, n, m, dt, gpu=False, env=None, functions=(), dt2=None, **kw):
    dt2 = dt2 or dt
    CASES.append(Case(name=name, fn=wrap(f, gpu, env or {}), args=(S((n,), dt), S((m,), dt2)), pre=lambda a, b: And(sorted_(a), sorted_(b)),
                      post=index_post, sample=lambda rng, n=n, m=m, d=dt, e=dt2: (rand_keys(rng, n, d), rand_keys(rng, m, e)),
                      nsample=3, functions=functions, **kw))


def bigcase(name, f, n, m, dt, gpu=False, env=None, functions=()):
    CASES.append(Case(name=name, fn=wrap(f, gpu, env or {}), args=(S((n,), dt), S((m,), dt)), post=big_index_post, mode="bounded",
                      bound=f"sampled inputs of lengths {n} and {m}",
                      sample=lambda rng, n=n, m=m, d=dt: (np.sort(rng.integers(-9, 9, n)).astype(d), np.sort(rng.integers(-9, 9, m)).astype(d)),
                      nsample=2, functions=functions))


SIZES = [(0, 0), (0, 3), (3, 0), (1, 1), (2, 3), (3, 1), (1, 4)]
for n, m in SIZES:
    for dt in (np.float16, np.int32):
        keycase(f"sort {n}+{m} {np.dtype(dt)}", ms.merge_sort_split_idx, n, m, dt, functions=("merge_sort_split_idx",))
        keycase(f"loop {n}+{m} {np.dtype(dt)}", ms.merge_arrays_indices_loop, n, m, dt, functions=("merge_arrays_indices_loop", "merge_indices_kernel_loop"))
        for bs in (1, 2, 3):
            keycase(f"parallel {n}+{m} {np.dtype(dt)} block {bs}", ms.merge_arrays_parallel, n, m, dt, env=dict(XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE=str(bs)),
                    functions=("merge_arrays_parallel", "merge_parallel_kernel", "binary_search_partition"))
for n, m, dt, dt2 in [(2, 2, np.float32, None), (3, 2, jnp.bfloat16, None), (2, 2, np.uint8, None), (2, 3, np.uint32, None), (2, 2, np.int8, np.int16), (2, 2, np.uint8, np.int32)]:
    nm = f"{np.dtype(dt)}" + (f"/{np.dtype(dt2)}" if dt2 else "")
    keycase(f"sort {n}+{m} {nm}", ms.merge_sort_split_idx, n, m, dt, dt2=dt2, functions=("merge_sort_split_idx",))
    keycase(f"loop {n}+{m} {nm}", ms.merge_arrays_indices_loop, n, m, dt, dt2=dt2, functions=("merge_arrays_indices_loop",))
    keycase(f"parallel {n}+{m} {nm}", ms.merge_arrays_parallel, n, m, dt, dt2=dt2, env=dict(XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE="2"), functions=("merge_arrays_parallel",))
for n, m, env, gpu, tag in [
    (3, 2, {}, True, "gpu block"), (4, 4, dict(XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE="3", XTRUCTURE_BGPQ_MERGE_UNROLL_MAX="0"), False, "rolled loop"),
    (3, 4, dict(XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE="4", XTRUCTURE_BGPQ_MERGE_UNROLL_MAX="2"), False, "above the unroll limit"),
    (5, 4, dict(XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE="3"), False, "three blocks"), (7, 1, dict(XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE="2"), False, "skewed a"),
    (1, 7, dict(XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE="2"), False, "skewed b"),
]:
    keycase(f"parallel {n}+{m} {tag}", ms.merge_arrays_parallel, n, m, np.float16, gpu=gpu, env=env, functions=("merge_arrays_parallel",))
for n, m in [(2, 3), (70, 61), (128, 1), (1, 200), (33, 31)]:
    bigcase(f"large sort {n}+{m}", ms.merge_sort_split_idx, n, m, np.float32)
    bigcase(f"large loop {n}+{m}", ms.merge_arrays_indices_loop, n, m, np.float32)
    bigcase(f"large parallel {n}+{m}", ms.merge_arrays_parallel, n, m, np.float32)
    bigcase(f"large parallel gpu block {n}+{m}", ms.merge_arrays_parallel, n, m, np.int32, gpu=True)


# ---- partition
def part_case(n, m, dt):
    def post(a, r):
        k, x, y = a
        i, j = r
        kk = k.v
        obs = [("i + j = k", i.v.astype(np.int32) + j.v.astype(np.int32) == kk)]
        rng_ok = []
        for t in range(n + m + 1):
            lo, hi = max(0, t - m), min(n, t)
            # the largest valid i: everything taken from a precedes what is left of b, and conversely
            def ok(c, t=t):
                q = t - c
                l = TRUE if c == 0 or q >= m else x[c - 1] <= y[q]
                u = TRUE if q == 0 or c >= n else y[q - 1] < x[c]
                return And(l, u)
            rng_ok.append(Implies(kk.eqint(t), And(Or(i.v.eqint(c) for c in range(lo, hi + 1)), *[Implies(i.v.eqint(c), ok(c)) for c in range(lo, hi + 1)])))
        obs.append(("the partition takes exactly the first k of the stable merge", And(rng_ok)))
        return obs

    CASES.append(Case(name=f"partition {n}+{m} {np.dtype(dt)}", fn=mcommon.binary_search_partition, args=(S((), np.int32), S((n,), dt), S((m,), dt)),
                      pre=lambda k, a, b: And(sorted_(a), sorted_(b), k.v >= lit(0, np.int32), k.v <= lit(n + m, np.int32)), post=post,
                      sample=lambda rng: (np.int32(rng.integers(0, n + m + 1)), rand_keys(rng, n, dt), rand_keys(rng, m, dt)),
                      functions=("binary_search_partition",), jit=True))


for n, m, dt in [(1, 1, np.int32), (3, 2, np.float16), (2, 4, np.int32), (5, 3, np.float32), (6, 6, np.float16)]:
    part_case(n, m, dt)


# ---- values
@xtructure_dataclass
class Val:
    x: F.scalar(dtype=jnp.uint32)
    y: F.tensor(dtype=jnp.uint8, shape=(3,))


@xtructure_dataclass
class Val2:
    z: F.tensor(dtype=jnp.int16, shape=(2, 3))
    n: F.scalar(dtype=Val)
    w: F.tensor(dtype=jnp.float32, shape=(2,))


def kvcase(name, f, cls, n, m, dt=np.float16, gpu=False, env=None, cenv=(), functions=(), split=False, dt2=None, **kw):
    dt2 = dt2 or dt

    def pre(ak, av, bk, b):
        return And(sorted_(ak), sorted_(bk))

    def post(a, r):
        ak, av, bk, b = a
        if split:
            k1, v1, k2, v2 = r
            good = k1.shape == (n,) and k2.shape == (m,)
            obs = [("first n and the rest", bv(good))]
            if not good:
                return obs
            keys = cat(k1, k2)
            vals = zipcat(v1, v2)
            return obs + pair_post(ak, av, bk, b, keys, vals)
        keys, vals = r
        return pair_post(ak, av, bk, b, keys, vals)

    CASES.append(Case(name=name, fn=wrap(f, gpu, env or {}), args=(S((n,), dt), inst(cls, (n,)), S((m,), dt2), inst(cls, (m,))), pre=pre, post=post,
                      sample=lambda rng: (rand_keys(rng, n, dt), rand_tree(rng, inst(cls, (n,))), rand_keys(rng, m, dt2), rand_tree(rng, inst(cls, (m,)))),
                      nsample=2, functions=functions, env=cenv, **kw))


def zipcat(v1, v2):
    r = NS()
    for k, x in v1.items():
        r._d[k] = cat(x, v2[k]) if isinstance(x, A) else zipcat(x, v2[k])
    return r


MSS = ("merge_sort_split", "_gather_sorted_values", "merge_array_backend")
for n, m in [(2, 2), (3, 2), (1, 0), (0, 2), (1, 3), (3, 3)]:
    kvcase(f"merge_sort_split sort/gather {n}+{m}", _merge.merge_sort_split, Val, n, m, split=True, functions=MSS)
    kvcase(f"merge_sort_split sort/concat {n}+{m}", _merge.merge_sort_split, Val, n, m, split=True, functions=MSS, cenv=(("XTRUCTURE_BGPQ_VALUE_REORDER", "concat"),))
    kvcase(f"merge_sort_split parallel {n}+{m}", _merge.merge_sort_split, Val, n, m, split=True, functions=MSS,
           cenv=(("XTRUCTURE_BGPQ_MERGE_BACKEND", "parallel"), ("XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE", "2")))
    kvcase(f"merge_sort_split kv {n}+{m}", _merge.merge_sort_split, Val, n, m, split=True, gpu=True, functions=MSS + ("merge_arrays_parallel_kv",),
           cenv=(("XTRUCTURE_BGPQ_MERGE_VALUE_BACKEND", "on"), ("XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE", "2")))
kvcase("merge_sort_split nested", _merge.merge_sort_split, Val2, 2, 2, split=True, functions=MSS)
KVF = ("merge_arrays_parallel_kv", "merge_parallel_kernel (kv)", "binary_search_partition")
for n, m in [(0, 0), (0, 2), (2, 0), (1, 1), (2, 2), (3, 2), (1, 4)]:
    for bs in (1, 2, 4):
        kvcase(f"kv {n}+{m} block {bs}", mpar.merge_arrays_parallel_kv, Val, n, m, gpu=True, env=dict(XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE=str(bs)), functions=KVF)
for pk in ("auto", "pad", "scalar", "shard"):
    kvcase(f"kv packing {pk}", mpar.merge_arrays_parallel_kv, Val2, 2, 2, gpu=True, env=dict(XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE="2", XTRUCTURE_BGPQ_MERGE_VALUE_PACKING=pk), functions=KVF)
kvcase("kv packing auto, small scalar limit", mpar.merge_arrays_parallel_kv, Val2, 2, 2, gpu=True,
       env=dict(XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE="2", XTRUCTURE_BGPQ_MERGE_VALUE_SCALAR_MAX="2"), functions=KVF)
kvcase("kv rolled loop", mpar.merge_arrays_parallel_kv, Val, 2, 3, gpu=True, env=dict(XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE="3", XTRUCTURE_BGPQ_MERGE_UNROLL_MAX="0"), functions=KVF)
kvcase("kv default gpu block", mpar.merge_arrays_parallel_kv, Val, 2, 1, gpu=True, functions=KVF)
kvcase("kv int keys", mpar.merge_arrays_parallel_kv, Val, 2, 2, dt=np.int32, gpu=True, env=dict(XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE="2"), functions=KVF)
kvcase("kv mixed keys", mpar.merge_arrays_parallel_kv, Val, 2, 2, dt=np.int16, dt2=np.int32, gpu=True, env=dict(XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE="2"), functions=KVF)


def cases(tier):
    return CASES
