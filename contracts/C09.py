"""C09 Hashing depends on content only and all variants agree.

Two-copy contracts: the same arbitrary content hashed through every variant (and through classes decorated under every streaming /
aggregation mode) gives the same value; two arbitrary contents have the same words exactly when their fields are bitwise equal.
"""
import os

from .common import *

MODES = {
    "auto": {},
    "off": {"XTRUCTURE_HASH_STREAM": "off"},
    "on": {"XTRUCTURE_HASH_STREAM": "on"},
    "auto-small-threshold": {"XTRUCTURE_HASH_STREAM": "auto", "XTRUCTURE_HASH_STREAM_THRESHOLD_U32": "2"},
}
_n = [0]


def build(ann, env=None, **kw):
    """decorate a class with the given annotations under environment env (read at decoration time)"""
    old = {k: os.environ.get(k) for k in (env or {})}
    os.environ.update(env or {})
    try:
        _n[0] += 1
        return xtructure_dataclass(type(f"H{_n[0]}", (), {"__annotations__": dict(ann), "__module__": __name__}), **kw)
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def f(dt, sh=(), **kw):
    return F.tensor(dtype=dt, shape=sh, **kw)


LAYOUTS = {
    "u32": dict(a=f(jnp.uint32)),
    "u8x1": dict(a=f(jnp.uint8)),
    "u8x3": dict(a=f(jnp.uint8, (3,))),
    "u8x5,bool": dict(a=f(jnp.uint8, (5,)), b=f(jnp.bool_, (2,))),
    "i8,u16x3,i16": dict(a=f(jnp.int8, (4,), fill_value=0), b=f(jnp.uint16, (3,)), c=f(jnp.int16, (), fill_value=0)),
    "f16x3,bf16x2": dict(a=f(jnp.float16, (3,)), b=f(jnp.bfloat16, (2,))),
    "f32,i32x2": dict(a=f(jnp.float32), b=f(jnp.int32, (2,), fill_value=0)),
    "mat": dict(a=f(jnp.uint8, (2, 3)), b=f(jnp.uint16, (3, 1)), c=f(jnp.uint32, (2, 2))),
    "nested": dict(x=F.scalar(dtype=Mixed), y=f(jnp.bool_, (5,)), z=F.scalar(dtype=One)),
    "nested-array": dict(x=F.tensor(dtype=Inner, shape=(2,)), y=f(jnp.uint8)),
    "empty-field": dict(a=f(jnp.uint8, (0,)), b=f(jnp.uint32, (2,)), c=f(jnp.float32, (3, 0))),
    "only-empty": dict(a=f(jnp.uint8, (0,))),
    "packed": dict(p=F.packed_tensor(packed_bits=3, shape=(9,)), q=f(jnp.bool_)),
    "same-bytes": dict(a=f(jnp.uint8, (2,)), b=f(jnp.uint8, (2,)), c=f(jnp.uint8, (2,))),
}
X64 = {"x64": dict(a=f(np.uint64, (2,)), b=f(np.int64, (), fill_value=0), c=f(np.float64, (2,)), d=f(jnp.uint8))}
AGGS = {
    "agg": dict(a=f(jnp.bool_, (), bits=1), b=f(jnp.uint8, (3,), bits=3, fill_value=0), c=f(jnp.uint16, (2, 2), bits=12, fill_value=0), d=f(jnp.uint32, (), bits=21, fill_value=0)),
    "agg-tail1": dict(a=f(jnp.uint8, (), bits=5, fill_value=0)),
    "agg-words": dict(a=f(jnp.uint32, (2,), bits=32)),
    "agg-tail2": dict(a=f(jnp.uint16, (3,), bits=16)),
    "agg-bits": dict(a=f(jnp.bool_, (33,), bits=1), b=f(jnp.uint8, (2,), bits=7, fill_value=0)),
}


def rebuild(C, x):
    """the same content as an instance of the variant class C (same annotations)"""
    return C(**{k: getattr(x, k) for k in C.__dataclass_fields__})


def allh(x, s):
    h = x.hash(s)
    hu, u = x.hash_with_uint32ed(s)
    p = x.hash_pair(s)
    (q0, q1), v = x.hash_pair_with_uint32ed(s)
    return dict(h=h, hu=hu, u=u, p0=p[0], p1=p[1], q0=q0, q1=q1, v=v, w=x.uint32ed)


def agree(o, tag=""):
    return [
        (tag + "hash_with_uint32ed agrees with hash", o["hu"].same(o["h"])),
        (tag + "hash_pair[0] is hash", o["p0"].same(o["h"])),
        (tag + "hash_pair_with_uint32ed agrees with hash_pair", And(o["q0"].same(o["p0"]), o["q1"].same(o["p1"]))),
        (tag + "all words agree", And(o["u"].same(o["w"]), o["v"].same(o["w"]))),
        (tag + "hash is one uint32", bv(all(o[k].shape == () and o[k].dtype == np.uint32 for k in ("h", "hu", "p0", "p1", "q0", "q1")))),
    ]


def agg_pre(ann):
    def ok(x):
        return And(And(within(v, d.bits) for v in getattr(x, k).flat()) for k, d in ann.items())

    def within(v, b):
        r = v.raw()
        return TRUE if v.w <= b else (r >> lit(b, r.dt)) == lit(0, r.dt)

    return ok


def agg_sample(ann, st):
    def mk(rng):
        x = rand_tree(rng, st)
        for k, d in ann.items():
            v = getattr(x, k)
            if v.dtype != np.bool_ and d.bits < v.dtype.itemsize * 8:
                x = x.replace(**{k: v & np.array((1 << d.bits) - 1, v.dtype)})
        return x

    return mk


def suite(nm, ann, modes, kw=None, env=(), agg=False, big=False, sized=True):
    kw = kw or {}
    C = {m: build(ann, e, **kw) for m, e in modes.items()}
    base = C[next(iter(modes))]
    st = inst(base)
    pre1 = agg_pre(ann) if agg else None
    mk = agg_sample(ann, st) if agg else (lambda rng: rand_tree(rng, st))
    SEED = S((), np.uint32)
    out = []
    b = dict(mode="bounded", bound="random contents", nsample=2) if big else dict(nsample=3)
    b.update(env=env, abstract_mul=True)

    def variants(x, s):
        return {m: allh(rebuild(Cm, x), s) for m, Cm in C.items()}

    def post_v(a, r):
        obs = []
        m0 = next(iter(C))
        for m in C:
            obs += agree(r[m], f"{m}: ")
            if m != m0 and not m.startswith("packed"):
                obs.append((f"{m} gives the same hashes as {m0}", And(r[m][k].same(r[m0][k]) for k in ("h", "p0", "p1"))))
        return obs

    out.append(Case(f"agree/{nm}", variants, (st, SEED), post_v, sample=lambda rng: (mk(rng), np.uint32(rng.integers(0, 2**32, dtype=np.uint64))),
                    functions=("hash", "hash_with_uint32ed", "hash_pair", "hash_pair_with_uint32ed", "uint32ed"), **b))
    out.append(Case(f"default-seed/{nm}", lambda x: (allh(x, 0), dict(h=x.hash(), p=x.hash_pair())), (st,),
                    lambda a, r: agree(r[0]) + [("default seed is 0", And(r[1]["h"].same(r[0]["h"]), r[1]["p"][0].same(r[0]["p0"]), r[1]["p"][1].same(r[0]["p1"])))],
                    sample=lambda rng: (mk(rng),), functions=("hash", "hash_pair"), **b))
    if not big:
        def words(x, y):
            return {m: (rebuild(Cm, x).uint32ed, rebuild(Cm, y).uint32ed, rebuild(Cm, x).bytes, rebuild(Cm, y).bytes) for m, Cm in C.items()}

        def post_w(a, r):
            same = same_tree(a[0], a[1])
            return [(f"{m}: {what} equal exactly when all field bytes are equal", Iff(r[m][i].same(r[m][i + 1]), same)) for m in C for i, what in ((0, "words"), (2, "bytes"))]

        def two(rng):
            x = mk(rng)
            if rng.random() < 0.4:
                return x, x
            y = mk(rng)
            if rng.random() < 0.7:  # differ in one field only
                k = list(ann)[int(rng.integers(len(ann)))]
                y = x.replace(**{k: getattr(y, k)})
            return x, y

        out.append(Case(f"injective/{nm}", words, (st, st), post_w, pre=(lambda x, y: And(pre1(x), pre1(y))) if pre1 else None, sample=two,
                        functions=("uint32ed", "bytes"), nsample=6, env=env))
        for bsh in ((3,), (2, 1)):
            bst = inst(base, bsh)

            def rows(xs, s, bsh=bsh):
                g = lambda x: dict(h=x.hash(s), p=x.hash_pair(s), u=x.uint32ed, qu=x.hash_pair_with_uint32ed(s), hu=x.hash_with_uint32ed(s))
                v = jax.vmap
                for _ in bsh[1:]:
                    v = (lambda w: lambda fn: jax.vmap(w(fn)))(v)
                return v(g)(xs), {str(i): g(xs[i]) for i in np.ndindex(*bsh)}

            def post_r(a, r, bsh=bsh):
                obs = []
                for i in np.ndindex(*bsh):
                    one = r[1][str(i)]
                    many = map_tree(r[0], lambda l: l[i] if not isinstance(l[i], V) else A0(l[i]))
                    obs.append((f"row {i} of a batch hashes like the single instance", same_tree(one, many)))
                return obs

            bmk = (lambda bst: agg_sample(ann, bst) if agg else (lambda rng: rand_tree(rng, bst)))(bst)
            out.append(Case(f"batched/{nm}/{list(bsh)}", rows, (bst, SEED), post_r,
                            sample=lambda rng, bmk=bmk: (bmk(rng), np.uint32(rng.integers(0, 2**32, dtype=np.uint64))), functions=("hash", "hash_pair", "uint32ed"), **b))
        if sized:
            out.append(sized_case(nm, C, b))
    return out


def sized_case(nm, C, kw):
    """any number of rows: entry i of the batched hashes is the hash of entry i alone"""
    from .sized import Forall, PCase, pinst

    base = next(iter(C.values()))

    def fn(xs, s, i):
        out = {}
        for m, Cm in C.items():
            g = lambda x: dict(h=rebuild(Cm, x).hash(s), p=rebuild(Cm, x).hash_pair(s), u=rebuild(Cm, x).uint32ed, qu=rebuild(Cm, x).hash_pair_with_uint32ed(s), hu=rebuild(Cm, x).hash_with_uint32ed(s))
            out[m] = (jax.vmap(g)(xs), g(jax.tree_util.tree_map(lambda l: l[i], xs)))
        return out

    def post(a, r, D):
        obs = []
        for m, (many, one) in r._d.items() if hasattr(r, "_d") else r.items():
            for (p, x), (_, y) in zip(leaves(many), leaves(one)):
                obs.append((f"{m}: entry of a batch hashes like the single instance: {'.'.join(map(str, p))}", x.rows(a[2].v).same(y)))
        return obs

    kw = {k: v for k, v in kw.items() if k not in ("mode", "bound")}
    return PCase(f"batched/{nm}/any size", fn, lambda D: (pinst(base, (D.n,)), S((), np.uint32), S((), np.uint32)), post, "n", pre=lambda x, s, i, D: i.v < D.n,
                 sample=lambda rng, D: (rand_tree(rng, pinst(base, (D.n,))), np.uint32(rng.integers(0, 2**32, dtype=np.uint64)), np.uint32(rng.integers(D.n))),
                 functions=("hash", "hash_pair", "hash_with_uint32ed", "uint32ed"), **kw)


def cases(tier):
    out = []
    T = tier == "thorough"
    for nm, ann in LAYOUTS.items():
        out += suite(nm, ann, MODES)
    for nm, ann in AGGS.items():
        m = {"raw": {"XTRUCTURE_HASH_AGG_MODE": "raw"}, "raw-on": {"XTRUCTURE_HASH_AGG_MODE": "raw", "XTRUCTURE_HASH_STREAM": "on"},
             "auto": {"XTRUCTURE_HASH_AGG_MODE": "auto"}, "packed": {"XTRUCTURE_HASH_AGG_MODE": "packed"}, "packed-on": {"XTRUCTURE_HASH_AGG_MODE": "packed", "XTRUCTURE_HASH_STREAM": "on"}}
        out += suite(nm, ann, m, dict(aggregate_bitpack=True), agg=True)
    for k in ([1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 31, 32, 33] if T else [7, 9, 33]):
        out += suite(f"bytes{k}", dict(a=f(jnp.uint8, (k,)), b=f(jnp.uint16, (k,))), MODES)
    for nm, ann in X64.items():
        out += suite(nm, ann, MODES, env=(("JAX_ENABLE_X64", "1"),))
    for nm, ann in {"big": dict(a=f(jnp.float32, (3000, 3)), b=f(jnp.uint8, (4097,)), c=f(jnp.bool_)), "big2": dict(a=f(jnp.uint16, (16384,)), b=f(jnp.uint32, ())),
                    "threshold": dict(a=f(jnp.uint32, (8192,)))}.items():
        out += suite(nm, ann, MODES, big=True)
    return out
