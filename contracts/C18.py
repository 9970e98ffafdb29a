"""C18 Shape, length, default and structure queries describe the instance truthfully.

Shape queries and validation are Python over shapes: the real code runs with symbolic (unbounded) dimensions, every branch explored
(jxv.pyexec).  Default contents are read off the jaxpr of Class.default.
"""
import itertools
from typing import Annotated

from xtructure import StructuredType

from .common import *


@xtructure_dataclass
class Holder:
    """nested fields with intrinsic shapes of their own"""

    n: F.tensor(dtype=Inner, shape=(2,))
    k: F.tensor(dtype=One, shape=(3, 2))
    s: F.scalar(dtype=jnp.uint8)


@xtructure_dataclass
class First:
    """tensor and nested fields come first"""

    v: F.tensor(dtype=jnp.float16, shape=(2, 2))
    h: F.scalar(dtype=Mat)
    x: F.scalar(dtype=jnp.int32)


@xtructure_dataclass
class OnlyNested:
    i: F.tensor(dtype=Inner, shape=(2,))


def fac(shape, dtype):
    return sum((jax.lax.broadcasted_iota(dtype, shape, d) * (7 + d) for d in range(len(shape))), jnp.zeros(shape, dtype)) if shape else jnp.asarray(9, dtype)


def nanfac(shape, dtype):
    return jnp.nan


@xtructure_dataclass
class Fills:
    """every dtype's default fill, explicit fills and factories"""

    u8: F.scalar(dtype=jnp.uint8)
    u16: F.scalar(dtype=jnp.uint16)
    u32: F.scalar(dtype=jnp.uint32)
    i8: F.scalar(dtype=jnp.int8)
    i32: F.tensor(dtype=jnp.int32, shape=(2,))
    f16: F.scalar(dtype=jnp.float16)
    bf: F.scalar(dtype=jnp.bfloat16)
    f32: F.tensor(dtype=jnp.float32, shape=(2, 1))
    b: F.scalar(dtype=jnp.bool_)
    e0: F.scalar(dtype=jnp.uint8, default=0)
    e1: F.scalar(dtype=jnp.int16, default=-3)
    e2: F.scalar(dtype=jnp.bool_, default=True)
    e3: F.tensor(dtype=jnp.float32, shape=(3,), fill_value=-0.5)
    e4: F.tensor(dtype=jnp.uint32, shape=(2,), fill_value=0)
    e5: F.scalar(dtype=jnp.dtype("uint16"), default=513)
    g1: F.tensor(dtype=jnp.int32, shape=(2,), fill_value_factory=fac)
    g2: F.scalar(dtype=jnp.float32, fill_value_factory=nanfac)
    z: F.tensor(dtype=jnp.uint8, shape=(0,))
    legacy: F[jnp.uint16, (2,), 3]
    ann: Annotated[jax.Array, F.scalar(dtype=jnp.uint32, default=11)]
    p: F.packed_tensor(shape=(5,), packed_bits=3)


@xtructure_dataclass(validate=True)
class Strict:
    a: F.scalar(dtype=jnp.uint32)
    v: F.tensor(dtype=jnp.float32, shape=(3,))
    m: F.tensor(dtype=jnp.int32, shape=(2, 3))
    n: F.scalar(dtype=Inner)
    t: F.tensor(dtype=Inner, shape=(2,))


INF = float("inf")
SCHEMA = {
    One: [("a", jnp.uint32, (), 2**32 - 1)],
    Byte: [("a", jnp.uint8, (), 255)],
    Inner: [("p", jnp.int16, (), 0), ("q", jnp.uint8, (2,), 255)],
    Mixed: [("a", jnp.uint32, (), 2**32 - 1), ("b", jnp.float32, (2,), INF), ("c", jnp.bool_, (), False), ("d", Inner, (), None)],
    Mat: [("m", jnp.int32, (2, 3), 0), ("s", jnp.uint8, (), 255)],
    Holder: [("n", Inner, (2,), None), ("k", One, (3, 2), None), ("s", jnp.uint8, (), 255)],
    First: [("v", jnp.float16, (2, 2), INF), ("h", Mat, (), None), ("x", jnp.int32, (), 0)],
    OnlyNested: [("i", Inner, (2,), None)],
    Fills: [("u8", jnp.uint8, (), 255), ("u16", jnp.uint16, (), 65535), ("u32", jnp.uint32, (), 2**32 - 1), ("i8", jnp.int8, (), 0), ("i32", jnp.int32, (2,), 0),
            ("f16", jnp.float16, (), INF), ("bf", jnp.bfloat16, (), INF), ("f32", jnp.float32, (2, 1), INF), ("b", jnp.bool_, (), False), ("e0", jnp.uint8, (), 0),
            ("e1", jnp.int16, (), -3), ("e2", jnp.bool_, (), True), ("e3", jnp.float32, (3,), -0.5), ("e4", jnp.uint32, (2,), 0), ("e5", jnp.uint16, (), 513),
            ("g1", jnp.int32, (2,), fac), ("g2", jnp.float32, (), nanfac), ("z", jnp.uint8, (0,), 255), ("legacy", jnp.uint16, (2,), 3), ("ann", jnp.uint32, (), 11), ("p", jnp.uint8, (3,), 0)],
    Deep: [("n", Mixed, (), None), ("o", One, (), None)],
    Strict: [("a", jnp.uint32, (), 2**32 - 1), ("v", jnp.float32, (3,), INF), ("m", jnp.int32, (2, 3), 0), ("n", Inner, (), None), ("t", Inner, (2,), None)],
}


def arr_leaves(cls, pre=()):
    """(path, dtype, full intrinsic shape) of every array leaf"""
    out = []
    for nm, t, ish, _ in SCHEMA[cls]:
        if t in SCHEMA:
            out += [((nm,) + p, d, ish + s, ) for p, d, s in arr_leaves(t)]
        else:
            out.append(((nm,), t, ish))
    return out


def build(ctx, cls, shapes, pre=(), new=None):
    """an instance whose leaves have the given shapes (raw constructor)"""
    kw = {}
    for nm, t, ish, _ in SCHEMA[cls]:
        kw[nm] = build(ctx, t, shapes, pre + (nm,)) if t in SCHEMA else ctx.arr(shapes[pre + (nm,)], t)
    return cls(**kw)


def spec(ctx, cls, shapes, pre=()):
    """(valid, batch, entries): the batch shape all fields share, if any.  Ranks are concrete, dimensions may be symbolic."""
    batches, ok = [], []
    for nm, t, ish, _ in SCHEMA[cls]:
        k = len(ish)
        if t in SCHEMA:
            v, b = spec(ctx, t, shapes, pre + (nm,))
        else:
            v, b = True, shapes[pre + (nm,)]
        if b is None or len(b) < k:
            return False, None
        ok += [v, ctx.eqs(b[len(b) - k:], ish)]
        batches.append(b[: len(b) - k])
    if len({len(b) for b in batches}) > 1:
        return False, None
    ok += [ctx.eqs(batches[0], b) for b in batches[1:]]
    return ctx.all(ok), batches[0]


def entries(cls):
    """expected per-field entries of .shape for a structured instance"""
    return {nm: (ish, entries(t)) if t in SCHEMA else ish for nm, t, ish, _ in SCHEMA[cls]}


def match_entry(got, want):
    if isinstance(want, tuple) and len(want) == 2 and isinstance(want[1], dict):
        return got.batch == want[0] and all(match_entry(getattr(got, k), w) for k, w in want[1].items()) and got._fields == ("batch",) + tuple(want[1])
    return tuple(got) == tuple(want)


def match_dtype(got, cls):
    return got._fields == tuple(nm for nm, *_ in SCHEMA[cls]) and all(match_dtype(getattr(got, nm), t) if t in SCHEMA else np.dtype(getattr(got, nm)) == np.dtype(t) for nm, t, _, _ in SCHEMA[cls])


def queries(ctx, x, cls, shapes, tag=""):
    """all queries on x against the specification"""
    ok, batch = spec(ctx, cls, shapes)
    out = []
    sh = x.shape
    st = x.structured_type
    if isinstance(sh.batch, tuple):
        out.append(("batch shape", ctx.all([ok, ctx.eqs(sh.batch, batch or ()), (batch is not None)])))
        out.append(("field shapes", ctx.implies(ok, all(match_entry(getattr(sh, k), w) for k, w in entries(cls).items()))))
        out.append(("structured type", st == (StructuredType.SINGLE if sh.batch == () else StructuredType.BATCHED)))
        out.append(("ndim", x.ndim == len(sh.batch)))
        n = type(x).__len__(x)
        out.append(("len", (n == 1) if sh.batch == () else (n == batch[0] if batch else False)))
    else:
        out.append(("unstructured exactly when fields disagree", ctx.all([sh.batch == -1, ctx.not_(ok)])))
        out.append(("structured type", st == StructuredType.UNSTRUCTURED))
        for nm, f in (("len", lambda: type(x).__len__(x)), ("ndim", lambda: x.ndim)):
            try:
                f()
                out.append((f"{nm} raises when unstructured", False))
            except TypeError:
                out.append((f"{nm} raises when unstructured", True))
    out.append(("field names", sh._fields == ("batch",) + tuple(nm for nm, *_ in SCHEMA[cls])))
    out.append(("batch_shape property", x.batch_shape == sh.batch if not isinstance(sh.batch, tuple) else ctx.eqs(x.batch_shape, sh.batch)))
    out.append(("dtype", match_dtype(x.dtype, cls)))
    return [(tag + l, c) for l, c in out]


def named(ctx, p, rank):
    return tuple(ctx.dim("d_" + "_".join(p) + f"_{i}") for i in range(rank))


def cases(tier):
    T = tier == "thorough"
    out = []

    def py(name, fn, functions, **kw):
        out.append(Case(name, fn, (), None, mode="py", functions=functions, nsample=kw.pop("nsample", 6), **kw))

    FN = ("shape", "batch_shape", "ndim", "__len__", "structured_type", "dtype")
    # ---- free shapes: every field has its own symbolic dimensions, given ranks
    for cls in (One, Inner, Mat, Mixed, Holder, First, OnlyNested, Deep):
        lv = arr_leaves(cls)
        base = [len(s) for _, _, s in lv]
        combos = [tuple(b + r for b in base) for r in (0, 1, 2) + ((3,) if T else ())]
        for i in range(len(lv)):
            for r in (0, 1, 2):
                for dr in (-1, 1):
                    c = list(b + r for b in base)
                    c[i] += dr
                    if c[i] >= 0:
                        combos.append(tuple(c))
        combos.append(tuple(max(0, b - 1) for b in base))
        combos.append(tuple(0 for b in base))
        for ranks in dict.fromkeys(combos):
            if sum(ranks) > 18:
                continue

            def g(ctx, cls=cls, ranks=ranks, lv=lv):
                shapes = {p: named(ctx, p, k) for (p, _, _), k in zip(lv, ranks)}
                return queries(ctx, build(ctx, cls, shapes), cls, shapes)

            py(f"queries/{cls.__name__}/ranks={list(ranks)}", g, FN)
    # ---- structured instances: batch dims symbolic, any batch rank; queries, reassign a field, query again
    for cls in (One, Inner, Mat, Mixed, Holder, First, OnlyNested, Deep, Fills):
        lv = arr_leaves(cls)
        for r in range(0, 4):
            def g(ctx, cls=cls, r=r, lv=lv):
                b = named(ctx, ("batch",), r)
                shapes = {p: b + s for p, _, s in lv}
                x = build(ctx, cls, shapes)
                o = queries(ctx, x, cls, shapes, "before: ")
                # reassign one leaf (history): the answers follow the current fields
                c = named(ctx, ("new",), r)
                for p, dt, s in lv[:: max(1, len(lv) - 1)]:
                    y = build(ctx, cls, shapes)
                    queries(ctx, y, cls, shapes)
                    t = y
                    for q in p[:-1]:
                        t = getattr(t, q)
                    sh2 = dict(shapes)
                    sh2[p] = c + s
                    setattr(t, p[-1], ctx.arr(sh2[p], dt))
                    o += queries(ctx, y, cls, sh2, f"after assigning {'.'.join(p)}: ")
                return o

            py(f"structured/{cls.__name__}/rank={r}", g, FN)
    # ---- replace
    for cls in (Mat, Mixed, Holder):
        lv = arr_leaves(cls)
        for r in (0, 1, 2):
            def g(ctx, cls=cls, r=r, lv=lv):
                b, c = named(ctx, ("batch",), r), named(ctx, ("new",), r)
                shapes = {p: b + s for p, _, s in lv}
                x = build(ctx, cls, shapes)
                o = queries(ctx, x, cls, shapes, "original: ")
                p, dt, s = next(l for l in lv if len(l[0]) == 1)
                sh2 = {**shapes, p: c + s}
                y = x.replace(**{p[0]: ctx.arr(c + s, dt)})
                return o + queries(ctx, y, cls, sh2, "replaced: ") + queries(ctx, x, cls, shapes, "original after replace: ")

            py(f"replace/{cls.__name__}/rank={r}", g, FN + ("replace",))
    # ---- default(): shapes and dtypes for symbolic batch dimensions
    for cls in (One, Inner, Mat, Mixed, Holder, First, OnlyNested, Deep):
        lv = arr_leaves(cls)
        for r in range(0, 4):
            def g(ctx, cls=cls, r=r, lv=lv):
                b = named(ctx, ("batch",), r)
                x = cls.default(b) if r else cls.default()
                o = []
                for p, dt, s in lv:
                    t = x
                    for q in p:
                        t = getattr(t, q)
                    o.append((f"{'.'.join(p)}: batch + intrinsic shape", ctx.eqs(tuple(t.shape), b + s)))
                    o.append((f"{'.'.join(p)}: dtype", np.dtype(t.dtype) == np.dtype(dt)))
                o.append(("instance of the class", type(x) is cls))
                return o + queries(ctx, x, cls, {p: b + s for p, _, s in lv})

            py(f"default-shape/{cls.__name__}/rank={r}", g, ("default",) + FN)
    # ---- default(): contents
    for cls in SCHEMA:
        for b in ((), (1,), (3,), (2, 2), (0,), (2, 0, 1)):
            def post(a, res, cls=cls, b=b):
                o = []
                for (p, x), (q, dt, s) in zip(leaves(res), arr_leaves(cls)):
                    fill = fill_of(cls, q)
                    ok = p == q and x.shape == b + s and x.dtype == np.dtype(dt)
                    o.append((f"{'.'.join(q)}: shape and dtype", ok))
                    if ok:
                        if callable(fill):
                            w = np.asarray(jnp.full(x.shape, fill(x.shape, dt), dtype=dt))
                            o.append((f"{'.'.join(q)}: declared fill", And(v.same(lit(c, dt)) for v, c in zip(x.flat(), w.reshape(-1)))))
                        else:
                            o.append((f"{'.'.join(q)}: declared fill", And(v.same(const_val(fill, np.dtype(dt))) for v in x.flat())))
                return o

            out.append(Case(f"default/{cls.__name__}/{list(b)}", lambda cls=cls, b=b: cls.default(b) if b else cls.default(), (), post, functions=("default",), nsample=1))
    # ---- default(): contents for any batch sizes
    from .sized import Forall, PCase, frow, tok

    for cls in SCHEMA:
        for dims in ("n", "nm", "nmk"):
            def post(a, r, D, cls=cls, dims=dims):
                bs = tuple(getattr(D, d) for d in dims)
                o = []
                for (p, x), (q, dt, s) in zip(leaves(r["x"]), arr_leaves(cls)):
                    fill = fill_of(cls, q)
                    ok = p == q and len(x.dims) == len(bs) + len(s) and x.dtype == np.dtype(dt)
                    nm = ".".join(q)
                    o.append((f"{nm}: shape and dtype", And([bv(ok)] + ([g == (w if isinstance(w, V) else u32(w)) for g, w in zip(x.dims, bs + s)] if ok else []))))
                    if ok and not (callable(fill) and fill is fac):
                        f = fill(s, dt) if callable(fill) else fill
                        w = frow(np.full(s, np.asarray(jnp.asarray(f, dt))))
                        o.append((f"{nm}: declared fill", Forall(bs, lambda *i, x=x, w=w: x.rows(*i).same(w))))
                    elif ok:
                        o.append((f"{nm}: declared fill", x.same(r["ref"])))
                return o + [("class", r["ok"].v)]

            def fn(*t, cls=cls):
                b = tuple(x.shape[0] for x in t)
                x = cls.default(b)
                return dict(x=x, ok=jnp.asarray(type(x) is cls), ref=fac(b + (2,), jnp.int32) if cls is Fills else jnp.zeros(()))

            out.append(PCase(f"default/{cls.__name__}[{','.join(dims)}]/any size", fn, lambda D, dims=dims: tuple(tok(getattr(D, d)) for d in dims), post, dims, functions=("default",), nsample=2))
    # ---- random(): shapes and dtypes are those of the schema (they do not depend on the key)
    for cls in SCHEMA:
        for b in ((), (3,), (2, 4), (5, 1, 2), (0,)):
            def post(a, r, cls=cls, b=b):
                o = []
                for (p, x), (q, dt, s) in zip(leaves(r["x"]), arr_leaves(cls)):
                    o.append((f"{'.'.join(q)}: batch + intrinsic shape, declared dtype", bv(p == q and x.shape == b + s and x.dtype == np.dtype(dt))))
                return o + [("the same key gives the same instance", same_tree(r["x"], r["y"])), ("class and batch shape", r.ok.v)]

            def fn(k, cls=cls, b=b):
                key = jax.random.PRNGKey(k)
                x = cls.random(b, key=key) if b else cls.random(key=key)
                d = cls.random(b)
                return dict(x=x, y=cls.random(shape=b, key=key), ok=jnp.asarray(type(x) is cls and x.shape.batch == b and d.shape == x.shape and d.dtype == x.dtype))

            out.append(Case(f"random/{cls.__name__}/{list(b)}", fn, (S((), np.uint32),), post, mode="bounded", bound="2 random keys, this batch shape",
                            functions=("random",), nsample=2))
    # ---- class-level declarations
    def g(ctx):
        o = []
        for cls in SCHEMA:
            o.append((f"{cls.__name__}: declared shapes", cls.default_shape._fields == tuple(n for n, *_ in SCHEMA[cls]) and all(tuple(getattr(cls.default_shape, n)) == s for n, _, s, _ in SCHEMA[cls])))
            o.append((f"{cls.__name__}: declared dtypes", cls.default_dtype._fields == tuple(n for n, *_ in SCHEMA[cls]) and all((d is t) if t in SCHEMA else np.dtype(d) == np.dtype(t) for (n, t, _, _), d in zip(SCHEMA[cls], cls.default_dtype))))
        return o

    py("declarations", g, ("default_shape", "default_dtype"), nsample=1)
    # ---- validation: rejects exactly wrong trailing shapes / dtypes
    fields = {n: (t, s) for n, t, s, _ in SCHEMA[Strict]}

    def mk(ctx, name, t, shape):
        if t in SCHEMA:
            return build(ctx, t, {p: tuple(shape) + s for p, _, s in arr_leaves(t)})
        return ctx.arr(shape, t)

    for nm, (t, s) in fields.items():
        for rank in range(0, len(s) + 3):
            def g(ctx, nm=nm, t=t, s=s, rank=rank):
                kw = {n: mk(ctx, n, t2, s2) for n, (t2, s2) in fields.items()}
                d = named(ctx, (nm,), rank)
                kw[nm] = mk(ctx, nm, t, d)
                good = ctx.eqs(d[len(d) - len(s):], s) if rank >= len(s) else False
                o = []
                try:
                    x = Strict(**kw)
                    o.append(("accepted exactly when the trailing shape is right", good))
                    o.append(("fields kept", all(getattr(x, n) is v for n, v in kw.items())))
                except (ValueError, TypeError):
                    o.append(("rejected exactly when the trailing shape is wrong", ctx.not_(good)))
                return o

            py(f"validate/{nm}/rank={rank}", g, ("__init__ (validate=True)", "check_invariants"))
    for nm, (t, s) in fields.items():
        if t in SCHEMA:
            for other in (One, Mat):
                def g(ctx, nm=nm, s=s, other=other):
                    kw = {n: mk(ctx, n, t2, s2) for n, (t2, s2) in fields.items()}
                    kw[nm] = mk(ctx, nm, other, s)
                    try:
                        Strict(**kw)
                        return [("wrong nested class rejected", False)]
                    except (ValueError, TypeError):
                        return [("wrong nested class rejected", True)]

                py(f"validate/{nm}/class={other.__name__}", g, ("__init__ (validate=True)",))
            continue
        for dt in (jnp.uint8, jnp.uint16, jnp.uint32, jnp.int8, jnp.int16, jnp.int32, jnp.float16, jnp.bfloat16, jnp.float32, jnp.bool_):
            def g(ctx, nm=nm, t=t, s=s, dt=dt):
                b = named(ctx, ("b",), 1)
                kw = {n: mk(ctx, n, t2, b + s2) for n, (t2, s2) in fields.items()}
                kw[nm] = ctx.arr(b + s, dt)
                try:
                    Strict(**kw)
                    return [("accepted exactly when the dtype is right", np.dtype(dt) == np.dtype(t))]
                except (ValueError, TypeError):
                    return [("rejected exactly when the dtype is wrong", np.dtype(dt) != np.dtype(t))]

            py(f"validate/{nm}/dtype={np.dtype(dt)}", g, ("__init__ (validate=True)",), nsample=2)
    # check_invariants on a class without validate=True
    for rank in range(0, 5):
        def g(ctx, rank=rank):
            d = named(ctx, ("m",), rank)
            x = Mat(m=ctx.arr(d, jnp.int32), s=ctx.arr((), jnp.uint8))
            good = ctx.eqs(d[len(d) - 2:], (2, 3)) if rank >= 2 else False
            try:
                x.check_invariants()
                return [("passes exactly when the trailing shape is right", good)]
            except (ValueError, TypeError):
                return [("raises exactly when the trailing shape is wrong", ctx.not_(good))]

        py(f"check_invariants/rank={rank}", g, ("check_invariants",))
    return out


def fill_of(cls, path):
    for nm, t, s, f in SCHEMA[cls]:
        if nm == path[0]:
            return fill_of(t, path[1:]) if t in SCHEMA else f
