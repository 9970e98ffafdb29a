"""C14 unique_mask keeps exactly one cheapest representative per distinct item.

present(i)  = filled[i] and key[i] < +inf
mask[i]    <=> present(i) and no present j of equal content comes before i in the order (key, position)
index[inverse[i]] = the position marked in i's group, for every present i;  index lists the marked positions.
"""
from .common import *
import xtructure.numpy as xnp


@xtructure_dataclass
class Wide:
    """six words: beyond the directly sorted key width"""

    w: F.tensor(dtype=jnp.uint32, shape=(6,))


@xtructure_dataclass
class Four:
    w: F.tensor(dtype=jnp.uint32, shape=(4,))


@xtructure_dataclass
class Cols:
    v: F.tensor(dtype=jnp.uint8, shape=(5,))


@xtructure_dataclass
class Nest:
    """bool, vector and nested fields within four words"""

    c: F.scalar(dtype=jnp.bool_)
    d: F.scalar(dtype=Inner)
    b: F.tensor(dtype=jnp.int8, shape=(2,))


@xtructure_dataclass(aggregate_bitpack=True)
class Tiny:
    """aggregate-packed into a tail only"""

    a: F.scalar(dtype=jnp.uint8, bits=5)
    b: F.scalar(dtype=jnp.bool_, bits=1)


@xtructure_dataclass(aggregate_bitpack=True)
class WideAgg:
    """aggregate-packed into five words and a one-byte tail"""

    a: F.tensor(dtype=jnp.uint32, shape=(5,), bits=32)
    t: F.scalar(dtype=jnp.uint8, bits=7)


AGGBITS = {Tiny: dict(a=5, b=1), Agg: BITS, WideAgg: dict(a=32, t=7)}


def case(cls, N, key_dt, filled, ret=(), tag="", size=None, keyfn=None, fill_value=None, **kw):
    args = [inst(cls, (N,))]
    has_key = key_dt is not None
    if has_key:
        args.append(S((N,), key_dt))
    if filled:
        args.append(S((N,), bool))

    def split(a):
        a = list(a)
        x = a.pop(0)
        k = a.pop(0) if has_key else None
        f = a.pop(0) if filled else None
        return x, k, f

    def fn(*a):
        x, k, f = split(a)
        kk = {}
        if keyfn is not None:
            kk["key_fn"] = keyfn
        if size is not None:
            kk.update(size=size, fill_value=fill_value)
        r = xnp.unique_mask(x, key=k, filled=f, return_index="index" in ret, return_inverse="inverse" in ret, **kk)
        return tuple(r) if isinstance(r, (tuple, list)) else (r,)

    def present(k, f, i):
        p = TRUE
        if f is not None:
            p = And(p, f[i])
        if k is not None:
            p = And(p, k[i] < (lit(np.inf, key_dt) if np.dtype(key_dt).kind == "f" else lit(np.iinfo(key_dt).max, key_dt)))
        return p

    def pre(*a):
        x, k, f = split(a)
        c = []
        if k is not None:
            c += [Not(v.isnan()) for v in k.flat()]
        if cls in AGGBITS:
            c.append(within_bits(x, AGGBITS[cls]))
        return And(c) if c else TRUE

    def post(a, r):
        x, k, f = split(a)
        r = list(r)
        mask = r[0]
        rows = [row(x, i) for i in range(N)]
        conc_ = all(isinstance(e, (int, bool)) for _, l in leaves(x) for e in l.s.el.reshape(-1))
        pres = [present(k, f, i) for i in range(N)]
        obs = [("mask shape", bv(mask.shape == (N,) and mask.dtype == np.bool_))]
        if not obs[0][1].e:
            return obs
        if conc_ and N > 30:
            groups, winner = {}, {}
            cont = [tuple(v for _, l in leaves(rw) for v in l.s.el.reshape(-1)) for rw in rows]
            kr = [0 if k is None else _num(k[i]) for i in range(N)]
            for i in range(N):
                if pres[i].e and (cont[i] not in winner or kr[i] < kr[winner[cont[i]]]):
                    winner[cont[i]] = i
            good = all((mask[i].e is True) == (pres[i].e and winner.get(cont[i]) == i) for i in range(N))
            obs.append(("exactly the cheapest earliest copy of each distinct entry is marked", bv(good)))
            sim = lambda i, j: bv(cont[i] == cont[j])
        else:
            sm = {}
            for i in range(N):
                for j in range(i + 1, N):
                    sm[i, j] = sm[j, i] = same_tree(rows[i], rows[j])
            for i in range(N):
                better = []
                for j in range(N):
                    if j == i:
                        continue
                    c = And(pres[j], sm[i, j])
                    if k is None:
                        if j < i:
                            better.append(c)
                    else:
                        better.append(And(c, (k[j] <= k[i]) if j < i else (k[j] < k[i])))
                obs.append((f"entry {i} marked iff it is the cheapest earliest copy", Iff(mask[i], And(pres[i], Not(Or(better))))))
            sim = lambda i, j: TRUE if i == j else sm[i, j]
        cnt = Count([mask[i] for i in range(N)], np.int32)
        idx = inv = None
        if "index" in ret:
            idx = r[1]
            L = idx.shape[0]
            if size is not None:
                obs.append(("index has the requested size", bv(L == size)))
            for q in range(L):
                lq = lit(q, np.int32)
                obs.append((f"index[{q}] is a marked position", Implies(lq < cnt, And(idx[q] >= lit(0, idx.dtype), idx[q] < lit(N, idx.dtype), mask.at(Ite(And(idx[q] >= lit(0, idx.dtype), idx[q] < lit(N, idx.dtype)), idx[q], lit(0, idx.dtype)))))))
                if size is not None:
                    obs.append((f"index[{q}] padding", Implies(lq >= cnt, idx[q] == lit(fill_value or 0, idx.dtype))))
                if L <= 30:
                    obs.append((f"index[{q}] not repeated", And(Implies(lq < cnt, idx[q] != idx[q2]) for q2 in range(q))))
            if size is None or size >= N:
                obs.append(("index long enough", cnt <= lit(L, np.int32)))
        if "inverse" in ret:
            inv = r[-1]
        if inv is not None and idx is not None and (size is None or size >= N):
            for i in range(N):
                z = lit(0, inv.dtype)
                ok = And(inv[i] >= z, inv[i] < lit(idx.shape[0], inv.dtype))
                obs.append((f"inverse[{i}] in range", Implies(pres[i], ok)))
                p = idx.at(Ite(ok, inv[i], z)) if idx.shape[0] else None
                if p is None:
                    obs.append((f"inverse[{i}] has a representative", Not(pres[i])))
                    continue
                if isinstance(p.e, int):
                    j = int(p.e)
                    obs.append((f"index[inverse[{i}]] is the representative of entry {i}", Implies(pres[i], And(bv(0 <= j < N), mask[j] if 0 <= j < N else FALSE, sim(i, j) if 0 <= j < N else FALSE))))
                else:
                    obs.append((f"index[inverse[{i}]] is the representative of entry {i}", Implies(pres[i], Or(And(p.eqint(j), mask[j], sim(i, j)) for j in range(N)))))
        elif inv is not None:
            for i in range(N):
                for j in range(i):
                    obs.append((f"inverse groups {j},{i}", Implies(And(pres[i], pres[j]), Iff(inv[i] == inv[j], sim(i, j)))))
        return obs

    def smp(rng):
        m = int(rng.integers(1, 4))
        pool = rand_tree(rng, inst(cls, (m,)))
        if cls in AGGBITS:
            pool = clip_bits(pool, AGGBITS[cls])
        if rng.random() < 0.4:
            pool = jax.tree_util.tree_map(lambda l: np.concatenate([np.asarray(l)[:-1], ones_like(np.asarray(l)[-1:], cls)]), pool)
            if cls in AGGBITS:
                pool = clip_bits(pool, AGGBITS[cls])
        pick = rng.integers(0, m, size=N)
        out = [jax.tree_util.tree_map(lambda l: np.asarray(l)[pick], pool)]
        if has_key:
            kk = rng.integers(-2, 3, size=N).astype(np.float64)
            if np.dtype(key_dt).kind == "u":
                kk = np.abs(kk)
            kk = kk.astype(key_dt)
            out.append(np.where(rng.random(N) < 0.2, np.inf if np.dtype(key_dt).kind == "f" else np.iinfo(key_dt).max, kk).astype(key_dt))
        if filled:
            out.append(rng.random(N) < 0.75)
        return tuple(out)

    nm = f"{cls.__name__}/N={N}/key={np.dtype(key_dt) if has_key else None}{'/filled' if filled else ''}{'/' + '+'.join(ret) if ret else ''}{tag}"
    return Case(nm, fn, tuple(args), pre=pre, post=post, functions=("xnp.unique_mask",), sample=smp, jit="index" in ret and kw.get("mode") != "bounded", **kw)


def big_case(cls, N, key_dt, filled, ret, pool, nsample=1):
    """bounded: many entries, eager call, against a table of first-cheapest copies"""
    def fn(x, *kf):
        kf = list(kf)
        k = kf.pop(0) if key_dt is not None else None
        r = xnp.unique_mask(x, key=k, filled=kf.pop(0) if filled else None, return_index="index" in ret, return_inverse="inverse" in ret)
        return tuple(r) if isinstance(r, (tuple, list)) else (r,)

    def post(a, r):
        rows = np.concatenate([np.ascontiguousarray(l.s.np).reshape(N, -1).view(np.uint8).reshape(N, -1) for _, l in leaves(a[0])], axis=1)
        gid = np.unique(rows, axis=0, return_inverse=True)[1].reshape(-1)
        k = a[1].s.np.astype(np.float64) if key_dt is not None else np.zeros(N)
        pres = (k < np.inf) & (a[-1].s.np if filled else True)
        order = np.lexsort((np.arange(N), k, gid))
        order = order[pres[order]]
        first = np.ones(len(order), bool)
        first[1:] = gid[order][1:] != gid[order][:-1]
        want = np.zeros(N, bool)
        want[order[first]] = True
        mask = r[0].s.np
        obs = [("exactly the cheapest earliest copy of each distinct entry is marked", bv(bool(np.array_equal(mask, want))))]
        if "index" in ret:
            idx = r[1].s.np.astype(np.int64)
            obs.append(("index lists the marked positions", bv(bool(np.array_equal(np.sort(idx), np.flatnonzero(want))))))
            if "inverse" in ret:
                inv = r[2].s.np.astype(np.int64)[pres]
                ok = bool(np.all((inv >= 0) & (inv < len(idx))))
                if ok:
                    rep = idx[inv]
                    ok = bool(np.all((rep >= 0) & (rep < N))) and bool(np.all(want[rep]) and np.array_equal(gid[rep], gid[pres]))
                obs.append(("index[inverse] is the representative of every present entry", bv(ok)))
        return obs

    st = inst(cls, (N,))

    def sample(rng):
        x = rand_tree(rng, inst(cls, (pool,)))
        if cls in AGGBITS:
            x = clip_bits(x, AGGBITS[cls])
        pick = np.where(rng.random(N) < 0.5, rng.integers(0, pool, size=N), np.arange(N) % pool)
        out = [jax.tree_util.tree_map(lambda l: np.asarray(l)[pick], x)]
        if key_dt is not None:
            out.append(np.where(rng.random(N) < 0.2, np.inf, rng.integers(-2, 3, size=N)).astype(key_dt))
        if filled:
            out.append(rng.random(N) < 0.75)
        return tuple(out)

    return Case(f"{cls.__name__}/N={N}/key={np.dtype(key_dt) if key_dt is not None else None}{'/filled' if filled else ''}/{'+'.join(ret)}/large", fn,
                (st,) + ((S((N,), key_dt),) if key_dt is not None else ()) + ((S((N,), bool),) if filled else ()), post, sample=sample, nsample=nsample, mode="bounded",
                bound=f"{N} entries, {nsample} random inputs", functions=("xnp.unique_mask",))


def _num(v):
    from jxv import interp as ip

    o = np.empty((), dtype=object)
    o[()] = v.e
    return float(ip.from_raw(o, v.dt))


def ones_like(x, cls):
    if x.dtype == np.bool_:
        return np.ones_like(x)
    return np.frombuffer(b"\xff" * x.nbytes, dtype=x.dtype).reshape(x.shape).copy() if x.dtype.kind in "ui" else x


def clip_bits(tree, bits):
    import dataclasses as dc

    ch = {}
    for f in dc.fields(tree):
        v = np.asarray(getattr(tree, f.name))
        if v.dtype.kind == "u" and f.name in bits and bits[f.name] < v.dtype.itemsize * 8:
            v = v & np.array((1 << bits[f.name]) - 1, v.dtype)
        ch[f.name] = v
    return tree.replace(**ch)


def sized_case(cls, key_dt, filled, ret=(), **kw):
    """any number of entries"""
    from .sized import First, Forall, PCase, PS, pinst, prow

    args = lambda D: (pinst(cls, (D.n,)),) + ((PS((D.n,), key_dt),) if key_dt is not None else ()) + ((PS((D.n,), np.bool_),) if filled else ())

    def split(a):
        a = list(a)
        return a.pop(0), a.pop(0) if key_dt is not None else None, a.pop(0) if filled else None

    def fn(*a):
        x, k, f = split(a)
        r = xnp.unique_mask(x, key=k, filled=f, return_index="index" in ret, return_inverse="inverse" in ret)
        return tuple(r) if isinstance(r, (tuple, list)) else (r,)

    def pre(*a):
        x, k, f = split(a[:-1])
        c = TRUE if k is None else Forall(a[-1].n, lambda i: Not(k[i].isnan()))
        return And(c, Forall(a[-1].n, lambda i: within_bits(prow(x, i), AGGBITS[cls]))) if cls in AGGBITS else c

    def post(a, r, D):
        x, k, f = split(a)
        n = D.n
        mask = r[0]

        def present(i):
            return And(TRUE if f is None else f[i], TRUE if k is None else k[i] < lit(np.inf, key_dt))

        def sim(i, j):
            return And(l.rows(i).same(m.rows(j)) for (_, l), (_, m) in zip(leaves(x), leaves(x)))

        def better(j, i):
            return And(present(j), sim(j, i), (j < i) if k is None else Or(k[j] < k[i], And(k[j] == k[i], j < i)))

        obs = [("mask length", bv(len(mask.dims) == 1 and mask.dtype == np.bool_) & (mask.dims[0] == n)),
               ("a marked entry is present", Forall(n, lambda i: Implies(mask[i], present(i)))),
               ("a marked entry is the cheapest earliest copy", Forall(n, lambda i: Implies(And(mask[i], First(n, lambda j: better(j, i)) < n), FALSE))),
               ("the cheapest earliest copy is marked", Forall(n, lambda i: Implies(And(present(i), First(n, lambda j: better(j, i)) >= n), mask[i])))]
        if "inverse" in ret and "index" in ret:
            idx, inv = r[1], r[2]

            def rep(i):
                v = inv[i]
                p = idx[v.astype(np.uint32)]
                pi = p.astype(np.uint32)
                return And(v >= lit(0, v.dt), v.astype(np.uint32) < idx.dims[0], p >= lit(0, p.dt), pi < n, mask[pi], sim(pi, i))

            obs.append(("index[inverse] is the representative", Forall(n, lambda i: Implies(present(i), rep(i)))))
        return obs

    def sample(rng, D):
        out = [rand_tree(rng, l) for l in args(D)[:1]]
        if D.n > 1 and rng.random() < 0.7:
            pick = rng.integers(0, max(1, D.n // 2), size=D.n)
            out = [jax.tree_util.tree_map(lambda l: l[pick], out[0])]
        if cls in AGGBITS:
            out = [clip_bits(out[0], AGGBITS[cls])]
        if key_dt is not None:
            out.append(rng.choice(np.array([0, 1, 2.5, -3, np.inf, -np.inf]), size=D.n).astype(key_dt))
        if filled:
            out.append(rng.random(D.n) < 0.7)
        return tuple(out)

    nm = f"{cls.__name__}[n]/key={np.dtype(key_dt) if key_dt is not None else None}/filled={filled}/ret={','.join(ret)}/any size"
    return PCase(nm, fn, args, post, "n", pre=pre, sample=sample, nsample=2, functions=("xnp.unique_mask",), **kw)


def cases(tier):
    f32, f16, i32, u32_ = np.float32, np.float16, np.int32, np.uint32
    T = tier == "thorough"
    both = ("index", "inverse")
    out = [
        case(One, 4, None, False), case(One, 4, None, True), case(One, 4, f32, False), case(One, 4, f32, True),
        case(One, 3, f16, True), 
        case(Four, 3, f32, True), case(Four, 3, None, True), case(Byte, 5, None, True),
        case(Nest, 3, None, True), case(Nest, 3, f32, True, both),
        case(One, 4, None, True, both), case(One, 4, f32, True, both), case(One, 3, None, False, ("index",)), case(One, 3, f32, True, ("inverse",)),
        case(Agg, 3, None, True), case(Agg, 3, f32, True, both), case(Tiny, 4, None, True), case(Tiny, 3, f32, False, both),
        case(One, 1, None, True, both), case(One, 1, f32, True, both), case(One, 0, None, False, both), case(Mixed, 2, f32, True, both, abstract_mul=True),
        case(One, 3, f32, True, both, "/key_fn", keyfn=lambda x: jnp.stack([x.a, x.a >> 3, x.a ^ 5])),
        case(Wide, 2, None, True, abstract_mul=True), case(Wide, 2, f16, True, abstract_mul=True), case(Cols, 3, None, True, tag="/wide key_fn", keyfn=lambda x: x.v.astype(jnp.uint32), abstract_mul=True),
        case(Cols, 3, f16, True, both, tag="/wide key_fn", keyfn=lambda x: x.v.astype(jnp.uint32), abstract_mul=True),
        case(WideAgg, 2, None, True, abstract_mul=True),
    ]
    out += [sized_case(One, None, False), sized_case(One, None, True), sized_case(One, f32, False), sized_case(One, f32, True), sized_case(Four, None, True), sized_case(Four, f32, True), sized_case(Byte, f16, True),
            sized_case(Nest, f32, True)]
    if T:
        out += [sized_case(Tiny, None, True), sized_case(Agg, f32, True)]
        out += [case(One, 6, f32, True, both), case(One, 7, None, True), case(Four, 4, f32, True, both), case(Wide, 3, f32, True, both, abstract_mul=True),
                case(Wide, 4, None, True, abstract_mul=True), case(Mixed, 3, f32, True, both, abstract_mul=True), case(Wide, 3, None, True, abstract_mul=True), case(Agg, 4, None, True, both)]
    # bounded stand-ins: larger batches; eager (untraced) index output; colliding wide signatures
    n = 400 if T else 120
    for cls in (One, Mixed, Four, Wide, Agg):
        for key in (None, f32):
            out.append(case(cls, n, key, True, both, "/eager", mode="bounded", nsample=3, bound=f"{n} entries, 3 random inputs, eager call"))
    for cls, key in ((One, None), (Four, f32), (Wide, None), (Wide, f32), (Mixed, f32), (Agg, None)):
        out.append(big_case(cls, 70000, key, True, both, 40000))
    out.append(big_case(Four, 33000, None, False, ("index",), 32900))
    out.append(case(One, 5, None, True, both, "/eager", mode="bounded", nsample=12, bound="12 random inputs"))
    c = case(Wide, 12, None, True, both, "/collide", mode="bounded", nsample=6, bound="12 rows with equal wide signatures, 6 random inputs")
    base = np.arange(6, dtype=np.uint32)

    def smp(rng):
        b = base.copy()
        b[1] ^= 1 << 31
        b[2] ^= 1 << 31
        r = np.where(rng.random(12)[:, None] < 0.5, base, b)
        return (inst(Wide, (12,)).replace(w=r), rng.random(12) < 0.8)

    c.sample = smp
    out.append(c)
    return out
