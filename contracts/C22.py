"""C22 Equality holds exactly when every field of every entry is equal.

Oracle: conjunction over all fields and elements of the dtype's own equality (IEEE equality for floats).
"""
import xtructure.numpy as xnp

from .common import *


@xtructure_dataclass
class Wide:
    """every dtype, vector and nested fields"""

    u16: F.scalar(dtype=jnp.uint16)
    i8: F.tensor(dtype=jnp.int8, shape=(3,))
    f16: F.scalar(dtype=jnp.float16)
    bf: F.tensor(dtype=jnp.bfloat16, shape=(2,))
    b: F.tensor(dtype=jnp.bool_, shape=(2, 2))
    n: F.tensor(dtype=Inner, shape=(2,))


@xtructure_dataclass
class Packed:
    p: F.packed_tensor(shape=(5,), packed_bits=3)
    q: F.packed_tensor(shape=(9,), packed_bits=1)
    s: F.scalar(dtype=jnp.int32)


@xtructure_dataclass
class Empty:
    pass


@xtructure_dataclass
class Zero:
    z: F.tensor(dtype=jnp.uint8, shape=(0,))
    s: F.scalar(dtype=jnp.uint8)


class SubByte(Byte):
    """subclass that is not decorated"""


@xtructure_dataclass
class Byte2:
    """same fields as Byte, another class"""

    a: F.scalar(dtype=jnp.uint8)


@xtructure_dataclass
class Obj:
    a: F.scalar(dtype=jnp.uint32)
    v: F.tensor(dtype=jnp.uint8, shape=(3,))


def all_eq(x, y):
    return And(u == v for (_, p), (_, q) in zip(leaves(x), leaves(y)) for u, v in zip(p.flat(), q.flat()))


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, args, post, fns, **kw):
        kw.setdefault("nsample", 4)
        out.append(Case(name, fn, args, post, functions=fns, **kw))

    def flip(st):
        """samples: mostly equal pairs differing in one element"""
        def smp(rng):
            x = rand_tree(rng, st)
            ls, td = jax.tree_util.tree_flatten(x)
            ms = [np.array(l) for l in ls]
            sizes = [i for i, m in enumerate(ms) if m.size]
            if sizes and rng.random() < 0.7:
                i = sizes[rng.integers(len(sizes))]
                r = rand_tree(rng, jax.ShapeDtypeStruct(ms[i].shape, ms[i].dtype))
                k = rng.integers(ms[i].size)
                f = ms[i].reshape(-1).copy()
                f[k] = np.asarray(r).reshape(-1)[k]
                ms[i] = f.reshape(ms[i].shape)
            return x, jax.tree_util.tree_unflatten(td, ms)

        return smp

    # the engine's view of one Boolean (or Python bool) result
    def boolean(x):
        x = jnp.asarray(x)
        return x

    CL = [One, Byte, Mixed, Mat, Deep, Wide, Packed, Zero, Obj]
    BS = [(), (1,), (3,), (2, 2), (0,)] + ([(4,), (2, 3), (2, 1, 2)] if T else [])
    for cls in CL:
        for b in BS:
            st = inst(cls, b)

            def post(a, r):
                e = all_eq(*a)
                o = []
                for k, w in (("eq", e), ("ne", ~e)):
                    ok = r[k].shape == () and r[k].dtype == np.bool_
                    o.append((f"{k} is one Boolean", ok))
                    if ok:
                        o.append((f"{k} exactly", Iff(r[k].v, w)))
                return o

            add(f"eq,ne/{cls.__name__}{list(b)}", lambda x, y: dict(eq=boolean(x == y), ne=boolean(x != y)), (st, st), post, ("__eq__", "__ne__"), sample=flip(st), nsample=8)
            add(f"reflexive/{cls.__name__}{list(b)}", lambda x: dict(eq=boolean(x == x), ne=boolean(x != x)), (st,),
                lambda a, r: [("x == x unless a NaN is stored", Iff(r["eq"].v, all_eq(a[0], a[0]))), ("x != x is its complement", Iff(r["ne"].v, ~all_eq(a[0], a[0])))], ("__eq__", "__ne__"), nsample=2)

            # element-wise comparison
            def post2(a, r):
                o = []
                for lab, neg in (("equal", False), ("not_equal", True)):
                    for (p, x), (_, y), (q, g) in zip(leaves(a[0]), leaves(a[1]), leaves(r[lab]) if len(leaves(a[0])) else []):
                        ok = p == q and g.shape == x.shape and g.dtype == np.bool_
                        o.append((f"{lab}: {'.'.join(map(str, p))}", bv(ok) & (And(Iff(h, (u != v) if neg else (u == v)) for u, v, h in zip(x.flat(), y.flat(), g.flat())) if ok else TRUE)))
                    o.append((f"{lab}: same fields", len(leaves(r[lab])) == len(leaves(a[0]))))
                o.append(("same class", r["ok"].v))
                return o

            add(f"equal,not_equal/{cls.__name__}{list(b)}", lambda x, y, cls=cls: dict(equal=xnp.equal(x, y), not_equal=xnp.not_equal(x, y), ok=jnp.asarray(type(xnp.equal(x, y)) is cls and type(xnp.not_equal(x, y)) is cls)),
                (st, st), post2, ("xnp.equal", "xnp.not_equal"), sample=flip(st))
        # inside transformations
        st = inst(cls, (2,))

        def post3(a, r):
            o = []
            for i in range(2):
                e = all_eq(row(a[0], i), row(a[1], i))
                o += [("eq per entry under vmap", Iff(r["eq"][i], e)), ("ne per entry under vmap", Iff(r["ne"][i], ~e))]
            o.append(("eq under jit", Iff(r["jit"].v, all_eq(*a))))
            return o

        add(f"vmap,jit/{cls.__name__}", lambda x, y: dict(eq=jax.vmap(lambda p, q: boolean(p == q))(x, y), ne=jax.vmap(lambda p, q: boolean(p != q))(x, y), jit=jax.jit(lambda p, q: boolean(p == q))(x, y)),
            (st, st), post3, ("__eq__", "__ne__"), sample=flip(st))

    # other types
    def other(x, y):
        sub = SubByte(a=x.a)
        o = {}
        for k, v in dict(other_class=Byte2(a=x.a), array=x.a, number=3, none=None, tuple_=(x.a,), text="Byte", cls=Byte, subclass=sub).items():
            o[f"{k} =="] = jnp.asarray(x == v)
            o[f"{k} !="] = jnp.asarray(x != v)
            if k != "array":  # array == instance is JAX's own comparison
                o[f"{k} reflected =="] = jnp.asarray(v == x)
                o[f"{k} reflected !="] = jnp.asarray(v != x)
        return o

    for b in ((), (3,)):
        st = inst(Byte, b)
        add(f"other types/Byte{list(b)}", other, (st, st), lambda a, r: [(k, Iff(x.v, bv("!=" in k)) if x.shape == () else FALSE) for k, x in r.items()], ("__eq__", "__ne__"), nsample=2)
    add("no fields", lambda: dict(eq=jnp.asarray(Empty() == Empty()), ne=jnp.asarray(Empty() != Empty())), (), lambda a, r: [("eq", r["eq"].v), ("ne", ~r["ne"].v)], ("__eq__", "__ne__"), nsample=1)
    # aggregate views compare like instances
    st = inst(Agg, (2,))
    add("eq/packed-view", lambda x, y: dict(p=jnp.asarray(x.packed == y.packed), u=jnp.asarray(x.packed.unpacked == y.packed.unpacked)), (st, st),
        lambda a, r: [("packed views equal exactly when the fields are", Iff(r["p"].v, all_eq(*a))), ("unpacked views", Iff(r["u"].v, all_eq(*a)))],
        ("Packed.__eq__", "Unpacked.__eq__"), pre=lambda x, y: within_bits(x, BITS) & within_bits(y, BITS), sample=lambda rng, st=st: _agg_pair(rng, st))
    for nm, b in (("large", (700,)), ("large-matrix", (40, 30))):
        st = inst(Wide, b)
        add(f"eq,ne/{nm}", lambda x, y: dict(eq=boolean(x == y), ne=boolean(x != y)), (st, st), lambda a, r: [("eq exactly", Iff(r["eq"].v, all_eq(*a))), ("ne exactly", Iff(r["ne"].v, ~all_eq(*a)))],
            ("__eq__", "__ne__"), sample=flip(st), mode="bounded", bound="batches of 700 / 40x30 rows, random pairs differing in at most one element", nsample=4)
    return out + sized_cases(T)


def sized_cases(T):
    """any batch sizes, including unequal ones resolved by broadcasting where the comparison is defined"""
    from .sized import First, Forall, PCase, pinst

    out = []
    for cls in (One, Mixed, Mat, Wide, Packed):
        for tag, dims, bsh in (("n", "n", lambda D: (D.n,)), ("n,m", "nm", lambda D: (D.n, D.m)), ("n,1,m", "nm", lambda D: (D.n, 1, D.m))):
            def args(D, cls=cls, bsh=bsh):
                return pinst(cls, bsh(D)), pinst(cls, bsh(D))

            def ent(a, p, i, nb):
                x, y = dict(leaves(a[0]))[p], dict(leaves(a[1]))[p]
                return And(u == v for u, v in zip(x.rows(*i).flat(), y.rows(*i).flat()))

            def post(a, r, D, bsh=bsh, cls=cls):
                o = [("one Boolean each", bv(all(r[k].shape == () and r[k].dtype == np.bool_ for k in ("eq", "ne"))))]
                bs = tuple(d if isinstance(d, V) else u32(d) for d in bsh(D))
                nb = len(bs)
                paths = [p for p, _ in leaves(a[0])]
                o += [("== and != are never both true", ~And(r["ne"].v, r["eq"].v)), ("== or != is true", Or((r["ne"].v, r["eq"].v)))]
                for p in paths:
                    o.append((f"== implies every entry of {'.'.join(map(str, p))} is equal", Implies(r["eq"].v, Forall(bs, lambda *i, p=p: ent(a, p, i, nb)))))

                def somewhere(p, i=()):
                    """some entry of field p differs"""
                    if len(i) == nb:
                        return Not(ent(a, p, i, nb))
                    if len(i) == 1 and nb == 3:
                        return somewhere(p, i + (u32(0),))
                    n = bs[len(i)]
                    return First(n, lambda q: somewhere(p, i + (q,))) < n

                o.append(("not == implies some entry of some field differs", Implies(Not(r["eq"].v), Or(somewhere(p) for p in paths)))) if nb == 1 or cls in (One, Mat) else None
                return o

            def smp(rng, D, args=args):
                st = args(D)
                x = rand_tree(rng, st[0])
                ls, td = jax.tree_util.tree_flatten(x)
                ms = [np.array(l) for l in ls]
                if rng.random() < 0.7:
                    k = rng.integers(len(ms))
                    f = ms[k].reshape(-1).copy()
                    q = rng.integers(f.size)
                    f[q] = np.asarray(rand_tree(rng, jax.ShapeDtypeStruct((1,), f.dtype)))[0]
                    ms[k] = f.reshape(ms[k].shape)
                return x, jax.tree_util.tree_unflatten(td, ms)

            if cls is not Wide or dims == "n" or T:
                out.append(PCase(f"eq,ne/{cls.__name__}[{tag}]/any size", lambda x, y: dict(eq=jnp.asarray(x == y), ne=jnp.asarray(x != y)), args, post, dims, sample=smp, nsample=3,
                             functions=("__eq__", "__ne__")))

            def post2(a, r, D, bsh=bsh):
                o = [("same class", r["ok"].v)]
                bs = tuple(d if isinstance(d, V) else u32(d) for d in bsh(D))
                for lab, neg in (("equal", False), ("not_equal", True)):
                    lr = leaves(r[lab])
                    o.append((f"{lab}: same fields", bv([p for p, _ in lr] == [p for p, _ in leaves(a[0])])))
                    for (p, x), (_, y), (_, g) in zip(leaves(a[0]), leaves(a[1]), lr):
                        ok = len(g.dims) == len(x.dims) and g.dtype == np.bool_
                        o.append((f"{lab}: {'.'.join(map(str, p))}", And([bv(ok)] + ([d == e for d, e in zip(g.dims, x.dims)] + [Forall(bs, lambda *i, x=x, y=y, g=g, neg=neg: And(Iff(h, (u != v) if neg else (u == v))
                                 for u, v, h in zip(x.rows(*i).flat(), y.rows(*i).flat(), g.rows(*i).flat())))] if ok else []))))
                return o

            out.append(PCase(f"equal,not_equal/{cls.__name__}[{tag}]/any size", lambda x, y, cls=cls: dict(equal=xnp.equal(x, y), not_equal=xnp.not_equal(x, y), ok=jnp.asarray(type(xnp.equal(x, y)) is cls and type(xnp.not_equal(x, y)) is cls)),
                             args, post2, dims, sample=smp, nsample=2, functions=("xnp.equal", "xnp.not_equal")))
        # one entry per row under vmap over any number of rows
        def post3(a, r, D):
            e = lambda i: And(u == v for (_, p), (_, q) in zip(leaves(a[0]), leaves(a[1])) for u, v in zip(p.rows(i).flat(), q.rows(i).flat()))
            return [("eq per entry under vmap", Forall(D.n, lambda i: Iff(r["eq"][i], e(i)))), ("ne per entry under vmap", Forall(D.n, lambda i: Iff(r["ne"][i], ~e(i))))]

        out.append(PCase(f"vmap/{cls.__name__}[n]/any size", lambda x, y: dict(eq=jax.vmap(lambda p, q: jnp.asarray(p == q))(x, y), ne=jax.vmap(lambda p, q: jnp.asarray(p != q))(x, y)),
                         lambda D, cls=cls: (pinst(cls, (D.n,)), pinst(cls, (D.n,))), post3, "n", nsample=2, functions=("__eq__", "__ne__")))
    return out


def _agg_pair(rng, st):
    def one():
        x = rand_tree(rng, st)
        return jax.tree_util.tree_map_with_path(lambda p, l: l if l.dtype == bool else (np.asarray(l) & ((1 << BITS[p[-1].name]) - 1)).astype(l.dtype), x)

    x = one()
    return (x, jax.tree_util.tree_map(np.array, x)) if rng.random() < 0.5 else (x, one())
