"""Hash-table contracts: value classes that carry their own hash, arbitrary table states and their invariant.

Quantifying over all contents of a value whose hash pair is part of its content covers every hash function: any assignment of
hash pairs to any finite set of distinct contents is one choice of the fields.  The state invariant is stated with the table's
own lookup: every stored entry is found at its slot; the entries are distinct; each bucket's slots are filled from the left.
"""
from .common import *
from xtructure import HashTable

SEED = 7


def own_hash(cls):
    """the hash pair of a value is two of its own fields (all four public hash entry points agree)"""
    cls.hash_pair = lambda self, seed=0: (self.h1, self.h2)
    cls.hash_pair_with_uint32ed = lambda self, seed=0: ((self.h1, self.h2), self.uint32ed)
    cls.hash = lambda self, seed=0: self.h1
    cls.hash_with_uint32ed = lambda self, seed=0: (self.h1, self.uint32ed)
    return cls


@own_hash
@xtructure_dataclass
class HV:
    """three words: two hash words, one word the hash does not see"""

    x: F.scalar(dtype=jnp.uint32)
    h1: F.scalar(dtype=jnp.uint32)
    h2: F.scalar(dtype=jnp.uint32)


@own_hash
@xtructure_dataclass
class HW:
    """eleven words: beyond the directly sorted key width"""

    h1: F.scalar(dtype=jnp.uint32)
    h2: F.scalar(dtype=jnp.uint32)
    w: F.tensor(dtype=jnp.uint32, shape=(9,))


@xtructure_dataclass
class HB:
    """byte-sized hash words, sign-extended: a smaller space that still reaches 0 and 0xFFFFFFFF, for larger tables"""

    x: F.scalar(dtype=jnp.uint8)
    h1: F.scalar(dtype=jnp.int8)
    h2: F.scalar(dtype=jnp.int8)


_wide = lambda v: v.astype(jnp.int32).astype(jnp.uint32)
HB.hash_pair = lambda self, seed=0: (_wide(self.h1), _wide(self.h2))
HB.hash_pair_with_uint32ed = lambda self, seed=0: ((_wide(self.h1), _wide(self.h2)), self.uint32ed)
HB.hash = lambda self, seed=0: _wide(self.h1)
HB.hash_with_uint32ed = lambda self, seed=0: (_wide(self.h1), self.uint32ed)


@own_hash
@xtructure_dataclass
class HN:
    """nested, Boolean, signed and byte-vector fields"""

    h1: F.scalar(dtype=jnp.uint32)
    h2: F.scalar(dtype=jnp.uint32)
    n: F.scalar(dtype=Inner)
    c: F.scalar(dtype=jnp.bool_)


def build(cls, C, B):
    """an empty table with C buckets of B slots"""
    return HashTable.build(cls, SEED, C * B, bucket_size=B, hash_size_multiplier=1)


def bare(i):
    """result index pytree -> the flat slot number"""
    return i.index


def mk_state(cls, C, B, items, fill):
    """the table holding items[b*B+s] in slot s < fill[b] of bucket b"""
    t = build(cls, C, B)
    n = C * B
    _, _, fp = jax.vmap(t.lookup_bucket)(items)
    ok = jnp.arange(B)[None, :] < fill[:, None]
    okf = ok.reshape(-1)

    def put(d, v):
        m = okf.reshape((n,) + (1,) * (v.ndim - 1))
        return jnp.concatenate([jnp.where(m, v, d[:n]), d[n:]], axis=0)

    fill = fill.astype(t.bucket_fill_levels.dtype)
    occ = (jnp.uint32(1) << fill.astype(jnp.uint32)) - jnp.uint32(1) if B < 32 else jnp.where(fill == B, jnp.uint32(0xFFFFFFFF), (jnp.uint32(1) << fill.astype(jnp.uint32)) - jnp.uint32(1))
    if B > 32:
        occ = jnp.zeros_like(occ)
    return t.replace(
        table=jax.tree_util.tree_map(put, t.table, items),
        fingerprints=put(t.fingerprints, fp),
        bucket_fill_levels=jnp.concatenate([fill, t.bucket_fill_levels[C:]]),
        bucket_occupancy=jnp.concatenate([occ.astype(jnp.uint32), t.bucket_occupancy[C:]]),
        size=jnp.sum(fill).astype(jnp.asarray(t.size).dtype),
    )


def arrs(t):
    """the observable and representation arrays of a table"""
    return dict(table=t.table, fingerprints=t.fingerprints, fill=t.bucket_fill_levels, occ=t.bucket_occupancy, size=t.size)


def st_args(cls, C, B):
    return (inst(cls, (C * B,)), S((C,), np.uint32))


def found_all(t, items):
    """(slot, found) of every stored slot's content"""
    idx, f = jax.vmap(t.lookup)(items)
    return dict(idx=idx.index, found=f)


def is_filled(fill, B, s):
    return fill[s // B] > u32(s % B)


def st_pre(C, B, items, fill, free=None):
    n = C * B
    c = [fill[b] <= u32(B) for b in range(C)]
    rows = [row(items, s) for s in range(n)]
    for s in range(n):
        for q in range(s):
            c.append(Implies(And(is_filled(fill, B, s), is_filled(fill, B, q)), Not(same_tree(rows[s], rows[q]))))
    if free is not None:
        c.append(total(fill, C) <= u32(n - free))
    return And(c)


def total(fill, C):
    r = u32(0)
    for b in range(C):
        r = r + fill[b]
    return r


def st_inv(C, B, items, fill, fa):
    """every stored entry is found at its slot"""
    return And(Implies(is_filled(fill, B, s), And(fa.found[s], fa.idx[s] == u32(s))) for s in range(C * B))


def present(C, B, items, fill, x):
    return Or(And(is_filled(fill, B, s), same_tree(row(items, s), x)) for s in range(C * B))


# ------------------------------------------------------------------ samples
HS = np.array([0, 1, 2, 3, 5, 0xFFFFFFFF, 0xFFFFFFFE, 0x80000000], dtype=np.uint32)


def rand_items(rng, cls, n):
    """few distinct contents, few hash patterns"""
    t = inst(cls, (n,))
    k = int(rng.integers(1, 5))
    hs = rng.choice(HS, size=k)
    if rng.random() < 0.25:  # one pattern: that of the content of vacant slots
        hs = np.array([0xFFFFFFFF], np.uint32)

    def leaf(l):
        if np.dtype(l.dtype) == np.bool_:
            return rng.random(l.shape) < 0.5
        v = rng.integers(0, 2 + int(rng.integers(0, 3)), size=l.shape).astype(np.int64)
        return v.astype(l.dtype)

    out = jax.tree_util.tree_map(leaf, t)
    if hasattr(out, "w"):
        w = np.zeros(out.w.shape, np.uint32)
        w[:, -1] = rng.integers(0, 3, size=n)
        w[:, 0] = rng.integers(0, 2, size=n)
        out = out.replace(w=w)
    return out.replace(h1=rng.choice(hs, size=n).astype(t.h1.dtype), h2=rng.choice(hs, size=n).astype(t.h2.dtype))


_HIST = {}


def rand_state(rng, cls, C, B, free=0):
    """(items, fill) reached by real insertions"""
    n = C * B
    key = (cls, C, B)
    if key not in _HIST:
        _HIST[key] = jax.jit(lambda t, x: t.insert(x)[0])
    ins = _HIST[key]
    t = build(cls, C, B)
    m = int(rng.integers(0, n - free + 1))
    for _ in range(8):
        if int(t.size) >= m:
            break
        xs = rand_items(rng, cls, m + 2)
        if rng.random() < 0.5:  # distinct contents
            lf = [l for l in jax.tree_util.tree_leaves(xs)]
            if hasattr(xs, "x"):
                xs = xs.replace(x=(np.arange(m + 2) + int(rng.integers(0, 3))).astype(xs.x.dtype))
        for i in range(m + 2):
            if int(t.size) >= m:
                break
            t = ins(t, jax.tree_util.tree_map(lambda l: jnp.asarray(l[i]), xs))
    items = jax.tree_util.tree_map(lambda l: np.asarray(l)[:n], t.table)
    return items, np.asarray(t.bucket_fill_levels)[:C].astype(np.uint32)


def pick_row(rng, cls, items, fill, B):
    """a query: a stored entry, a near-copy, or a random one"""
    n = len(jax.tree_util.tree_leaves(items)[0])
    filled = [s for s in range(n) if s % B < fill[s // B]]
    if rng.random() < 0.2:  # the content of vacant slots
        return jax.tree_util.tree_map(np.asarray, cls.default())
    x = jax.tree_util.tree_map(lambda l: np.asarray(l)[0], rand_items(rng, cls, 1))
    if filled and rng.random() < 0.6:
        s = int(rng.choice(filled))
        x = jax.tree_util.tree_map(lambda l: np.asarray(l)[s], items)
        if rng.random() < 0.3 and hasattr(x, "x"):
            x = x.replace(x=(x.x + 1).astype(x.x.dtype))
    return x


def stack(rows):
    return jax.tree_util.tree_map(lambda *l: np.stack([np.asarray(a) for a in l]), *rows)
