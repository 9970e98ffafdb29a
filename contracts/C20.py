"""C20 Dataclass instances are faithful JAX pytrees.

Contents are symbolic; class, static fields and tree structure are Python-level postconditions returned as constants.
"""
import copy
import dataclasses

import pickle

from xtructure import BGPQ, HashTable, Queue, Stack
from xtructure.core.dataclass import base_dataclass

from .common import *


@base_dataclass(static_fields=("name", "k"))
class Stat:
    """static fields between array fields"""

    x: jax.Array
    name: str
    y: jax.Array
    k: tuple
    v: One


@base_dataclass
class Plain:
    z: jax.Array
    a: jax.Array
    inner: Stat


@base_dataclass(frozen=True, static_fields=("tag",))
class Frozen:
    b: jax.Array
    a: jax.Array
    tag: int = 3


@base_dataclass(kw_only=True)
class KwOnly:
    q: jax.Array
    p: jax.Array


@xtructure_dataclass
class Rev:
    """field names in non-alphabetical order, same dtype and shape everywhere"""

    z: F.scalar(dtype=jnp.uint32)
    m: F.tensor(dtype=jnp.uint32, shape=(2,))
    a: F.scalar(dtype=jnp.uint32)
    b: F.scalar(dtype=Inner)


@xtructure_dataclass(validate=True)
class StrictRev:
    z: F.scalar(dtype=jnp.uint32)
    a: F.tensor(dtype=jnp.uint8, shape=(2,))


def ok(x):
    return jnp.asarray(bool(x))


def get(x, path):
    for p in path:
        x = getattr(x, p)
    return x


def cases(tier):
    T = tier == "thorough"
    out = []

    def add0(name, fn, args, post, fns, **kw):
        kw.setdefault("nsample", 2)
        out.append(Case(name, fn, args, post, functions=fns, **kw))

    def ident(a, r):
        """every instance under 'same' equals the argument, every Boolean under 'ok' holds"""
        o = []
        for k, x in (r["same"].items() if "same" in r.keys() else ()):
            o.append((k, same_tree(a[0], x)))
        for k, x in r["ok"].items():
            o.append((k, x.v))
        return o

    tu = jax.tree_util

    def instances():
        for cls in (One, Byte, Mixed, Mat, Deep, Rev, StrictRev):
            for b in ((), (2,), (2, 3)):
                yield f"{cls.__name__}{list(b)}", cls, inst(cls, b), [f.name for f in dataclasses.fields(cls)], {}
        st = lambda: Stat(x=S((2,), np.float32), name="n0", y=S((), np.uint8), k=(1, "t"), v=inst(One, (2,)))
        yield "Stat", Stat, st(), ["x", "y", "v"], dict(name="n0", k=(1, "t"))
        yield "Plain", Plain, Plain(z=S((2,), np.int32), a=S((2,), np.int32), inner=st()), ["z", "a", "inner"], {}
        yield "Frozen", Frozen, Frozen(b=S((2,), np.int32), a=S((2,), np.int32), tag=7), ["b", "a"], dict(tag=7)
        yield "KwOnly", KwOnly, KwOnly(q=S((2,), np.int32), p=S((2,), np.int32)), ["q", "p"], {}
        yield "Queue", Queue, sds(Queue.build(3, Mixed)), None, dict(max_size=3)
        yield "Stack", Stack, sds(Stack.build(3, Rev)), None, dict(max_size=3)
        yield "BGPQ", BGPQ, sds(BGPQ.build(4, 2, One)), None, dict(max_size=4, batch_size=2)
        yield "HashTable", HashTable, sds(HashTable.build(One, 1, 4, bucket_size=2)), None, dict(seed=1, capacity=4, bucket_size=2)

    from .sized import PCase, pinst

    def sized():
        for cls in (One, Byte, Mixed, Mat, Deep, Rev, StrictRev):
            for tag, dims, bs in (("n", "n", lambda D: (D.n,)), ("n,m", "nm", lambda D: (D.n, D.m))):
                yield f"{cls.__name__}[{tag}]/any size", cls, (dims, lambda D, cls=cls, bs=bs: pinst(cls, bs(D))), [f.name for f in dataclasses.fields(cls)], {}

    import itertools

    for nm, cls, st, order, stat in itertools.chain(instances(), sized()):
        sz = isinstance(st, tuple)
        if sz:
            def add(name, fn, args, post, fns, dims=st[0], **kw):
                k = len(args)
                kw.setdefault("nsample", 2)
                out.append(PCase(name, fn, lambda D, args=args: tuple(a[1](D) for a in args), lambda a, r, D, post=post: post(a, r), dims, functions=fns, **kw))
        else:
            add = add0
        def trip(x, cls=cls, order=order, stat=stat):
            lv, td = tu.tree_flatten(x)
            pl, td2 = tu.tree_flatten_with_path(x)
            y = tu.tree_unflatten(td, lv)
            z = tu.tree_map(lambda l: l, x)
            w = tu.tree_unflatten(td2, [l for _, l in pl])
            res = dict(same=dict(roundtrip=y, tree_map=z, with_path=w, jit=jax.jit(lambda q: q)(x), cond=jax.lax.cond(jnp.asarray(True), lambda q: q, lambda q: tu.tree_map(lambda l: l ^ l if l.dtype == bool else l * 0, q), x),
                                 fori=jax.lax.fori_loop(0, 2, lambda i, q: q, x), scan=jax.lax.scan(lambda c, _: (c, ()), x, None, length=2)[0],
                                 while_=jax.lax.while_loop(lambda c: c[1] < 1, lambda c: (c[0], c[1] + 1), (x, jnp.int32(0)))[0], copied=copy.copy(x)))
            o = {}
            for k, v in res["same"].items():
                o[f"{k}: class"] = type(v) is cls
                o[f"{k}: same structure"] = tu.tree_structure(v) == td
                for s, want in stat.items():
                    o[f"{k}: static {s}"] = getattr(v, s) == want and type(getattr(v, s)) is type(want)
            o["paths name the fields"] = all(get_path(x, p) is l for p, l in pl)
            o["same leaves with and without paths"] = len(lv) == len(pl) and all(u is v for u, (_, v) in zip(lv, pl))
            o["same treedef with and without paths"] = td == td2 and hash(td) == hash(td2)
            o["structure is stable"] = tu.tree_structure(y) == td
            if order is not None:
                arr = [f for f in order if f not in stat]
                top = []
                for p, _ in pl:
                    k = getattr(p[0], "name", str(p[0]))
                    if k not in top:
                        top.append(k)
                o["fields in declaration order, static fields are no leaves"] = top == arr
            o["static fields are no leaves"] = not any(getattr(p[0], "name", "") in stat for p, _ in pl)
            res["ok"] = {k: ok(v) for k, v in o.items()}
            return res

        add(f"roundtrip/{nm}", trip, (st,), ident, ("register_dataclass_type_with_jax_tree_util", "flatten", "unflatten"))

        # queries leave the structure alone
        if hasattr(cls, "is_xtructed"):
            def quer(x, cls=cls, sz=sz):
                td = tu.tree_structure(x)
                x.shape, x.dtype, x.structured_type, x.batch_shape, None if sz else len(x), x.ndim
                y = x.replace()
                n = x[0:1] if x.shape.batch else x
                o = {"same structure after queries": tu.tree_structure(x) == td, "equal to an unqueried instance": tu.tree_structure(y) == td, "results of indexing have the same structure": tu.tree_structure(n) == td,
                     "leaves unchanged": len(tu.tree_leaves(x)) == td.num_leaves}
                z = tu.tree_map(lambda p, q: p, x, y)
                return dict(same=dict(queried=x, mapped=z, replaced=y), ok={k: ok(v) for k, v in o.items()})

            add(f"queries/{nm}", quer, (st,), ident, ("shape", "flatten"))

            def tup(x, cls=cls, order=order):
                t = x.to_tuple()
                y = cls.from_tuple(t)
                return dict(same=dict(from_tuple=y), ok={"tuple in field order": ok(len(t) == len(order) and all(v is getattr(x, f) for v, f in zip(t, order))), "class": ok(type(y) is cls)})

            add(f"tuple/{nm}", tup, (st,), ident, ("to_tuple", "from_tuple"))

        # replace: exactly the named fields
        names = [f.name for f in dataclasses.fields(cls)]
        arrf = [n for n in names if n not in stat]
        for which in [(n,) for n in arrf] + ([tuple(arrf)] if len(arrf) > 1 else []) + ([tuple(arrf[::2])] if len(arrf) > 2 else []):
            def repl(x, new, which=which, names=names, cls=cls):
                before = {n: getattr(x, n) for n in names}
                y = x.replace(**{n: getattr(new, n) for n in which})
                o = {"class": type(y) is cls, "original untouched": all(getattr(x, n) is before[n] for n in names), "another object": y is not x}
                for n in names:
                    o[f"{n} is {'the new' if n in which else 'the old'} one"] = getattr(y, n) is (getattr(new, n) if n in which else before[n])
                o["same structure"] = tu.tree_structure(y) == tu.tree_structure(x)
                return dict(y=y, x=x, ok={k: ok(v) for k, v in o.items()})

            def post(a, r, which=which):
                x, new = a
                o = [(k, v.v) for k, v in r["ok"].items()]
                for (p, l), (_, n), (q, g) in zip(leaves(x), leaves(new), leaves(r["y"])):
                    o.append((f"{'.'.join(map(str, p))}", bv(p == q) & g.same(n if p[0] in which else l)))
                o.append(("original contents", same_tree(x, r["x"])))
                return o

            add(f"replace/{nm}/{','.join(which)}", repl, (st, st), post, ("replace",))
        # static fields distinguish structures
        for s, want in stat.items():
            def stt(x, s=s, want=want):
                other = (want + 1) if isinstance(want, int) else (want + ("u",) if isinstance(want, tuple) else want + "x")
                y = x.replace(**{s: other})
                td, te = tu.tree_structure(x), tu.tree_structure(y)
                o = {"different static value, different structure": td != te, "static value replaced": getattr(y, s) == other, "original keeps its static value": getattr(x, s) == want,
                     "same static value, same structure": tu.tree_structure(y.replace(**{s: want})) == td}
                try:
                    tu.tree_map(lambda p, q: p, x, y)
                    o["mapping over both is rejected"] = False
                except ValueError:
                    o["mapping over both is rejected"] = True
                seen = []
                jax.jit(lambda q: seen.append(getattr(q, s)) or q)(x)
                jax.jit(lambda q: seen.append(getattr(q, s)) or q)(y)
                o["static value is a Python value under jit"] = seen == [want, other] and all(type(v) is type(want) for v in seen)
                f = jax.jit(lambda q: jnp.zeros((3,)) if getattr(q, s) == want else jnp.ones((2,)))
                o["jit specialises on the static value"] = f(x).shape == (3,) and f(y).shape == (2,)
                return dict(same=dict(back=y.replace(**{s: want})), ok={k: ok(v) for k, v in o.items()})

            add(f"static/{nm}/{s}", stt, (st,), ident, ("static_fields",))
    add = add0
    # transformations that change contents go through every field
    for cls in (Mixed, Deep, Rev, Mat):
        st = inst(cls, (3,))

        def tr(x, cls=cls):
            v = jax.vmap(lambda q: q)(x)
            rev = jax.vmap(lambda q: q, out_axes=0)(tu.tree_map(lambda l: l[::-1], x))
            c, ys = jax.lax.scan(lambda c, q: (q, q), x[0], x)
            m = jax.lax.map(lambda q: q, x)
            p = jax.lax.switch(jnp.int32(1), [lambda q: tu.tree_map(lambda l: l[::-1], q), lambda q: q], x)
            return dict(v=v, rev=rev, last=c, ys=ys, m=m, p=p, ok={"classes": ok(all(type(q) is cls for q in (v, rev, c, ys, m, p)))})

        def post(a, r):
            x = a[0]
            o = [(k, same_tree(x, r[k])) for k in ("v", "ys", "m", "p")]
            o.append(("reversed", same_tree(map_tree(x, lambda l: l.map(lambda e: e[::-1])), r["rev"])))
            o.append(("scan carry", same_tree(row(x, 2), r["last"])))
            o += [(k, v.v) for k, v in r["ok"].items()]
            return o

        add(f"vmap,scan,map,switch/{cls.__name__}", tr, (st,), post, ("flatten", "unflatten"))

        def trs(x, cls=cls):
            v = jax.vmap(lambda q: q)(x)
            rev = jax.vmap(lambda q: q)(tu.tree_map(lambda l: l[::-1], x))
            p = jax.lax.switch(jnp.int32(1), [lambda q: tu.tree_map(lambda l: l[::-1], q), lambda q: q], x)
            vj = jax.jit(jax.vmap(lambda q: q.replace()))(x)
            vv = jax.vmap(lambda q, i: (q, i), in_axes=(0, None))(x, 3)[0]
            return dict(v=v, rev=rev, p=p, vj=vj, vv=vv, ok={"classes": ok(all(type(q) is cls for q in (v, rev, p, vj, vv)))})

        def posts(a, r, D):
            from .sized import Forall

            x = a[0]
            o = [(k, same_tree(x, r[k])) for k in ("v", "p", "vj", "vv")]
            for (p, u), (_, w) in zip(leaves(x), leaves(r["rev"])):
                o.append((f"reversed: {'.'.join(map(str, p))}", Forall(D.n, lambda i, u=u, w=w: w.rows(i).same(u.rows(D.n - u32(1) - i)))))
            return o + [(k, v.v) for k, v in r["ok"].items()]

        out.append(PCase(f"vmap,switch/{cls.__name__}[n]/any size", trs, lambda D, cls=cls: (pinst(cls, (D.n,)),), posts, "n", functions=("flatten", "unflatten"), nsample=2))
    # leaves that are no arrays pass through unflatten (transformations use placeholders)
    def ph():
        o = {}
        for cls in (Mixed, Rev, StrictRev):
            x = cls.default((2,))
            lv, td = tu.tree_flatten(x)
            marks = [object() for _ in lv]
            y = tu.tree_unflatten(td, marks)
            o[f"{cls.__name__}: placeholders"] = type(y) is cls and all(u is v for u, v in zip(tu.tree_leaves(y), marks))
            z = tu.tree_map(lambda l: l.shape, x)
            o[f"{cls.__name__}: shapes as leaves"] = type(z) is cls
            b = pickle.loads(pickle.dumps(copy.copy(x)))
            o[f"{cls.__name__}: deepcopy keeps structure"] = tu.tree_structure(copy.deepcopy(x)) == td
            s = jax.eval_shape(lambda q: q, x)
            o[f"{cls.__name__}: eval_shape"] = type(s) is cls and tu.tree_structure(s) == td
            o[f"{cls.__name__}: in containers"] = tu.tree_structure([x, {"k": x}]) == tu.tree_structure([b, {"k": b}])
        return {k: ok(v) for k, v in o.items()}

    add("placeholders", ph, (), lambda a, r: [(k, v.v) for k, v in r.items()], ("unflatten", "__getstate__", "__setstate__"), nsample=1, mode="bounded", bound="one execution per class")

    def unhashable():
        s = Stat(x=jnp.zeros(2), name="a", y=jnp.zeros(()), k=[1], v=One.default())
        return [("an unhashable static value is rejected", lambda: tu.tree_flatten(s), TypeError), ("frozen stays frozen", lambda: setattr(Frozen(b=1, a=2), "a", 5), Exception),
                ("replace rejects unknown fields", lambda: One.default().replace(zz=1), TypeError)]

    out.append(Case("rejections", None, (), None, must_raise=unhashable, functions=("static_fields", "replace")))
    return out


def get_path(x, path):
    for p in path:
        x = getattr(x, p.name) if hasattr(p, "name") else x[getattr(p, "idx", getattr(p, "key", None))]
    return x
