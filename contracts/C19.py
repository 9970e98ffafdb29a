"""C19 where selects consistently across all fields.

Oracle: per field, element-wise selection on numpy-broadcast element arrays (same dtypes), or jnp.where on that field (mixed dtypes).
Rejection by where_no_broadcast: the real Python runs with symbolic dimensions.
"""
import itertools

import xtructure.numpy as xnp

from .C18 import SCHEMA, arr_leaves, build
from .common import *


@xtructure_dataclass
class Vec2:
    """intrinsic sizes that coincide with batch sizes"""

    v: F.tensor(dtype=jnp.float32, shape=(2,))
    w: F.tensor(dtype=jnp.uint8, shape=(3, 2))
    s: F.scalar(dtype=jnp.int16, default=-3)


@xtructure_dataclass
class Kinds:
    """every dtype"""

    u8: F.scalar(dtype=jnp.uint8)
    u16: F.scalar(dtype=jnp.uint16)
    u32: F.scalar(dtype=jnp.uint32)
    i8: F.scalar(dtype=jnp.int8)
    i32: F.scalar(dtype=jnp.int32)
    f16: F.scalar(dtype=jnp.float16)
    bf: F.scalar(dtype=jnp.bfloat16)
    f32: F.scalar(dtype=jnp.float32)
    b: F.scalar(dtype=jnp.bool_)


def truth(v):
    return v if v.w == 0 else ~(v == lit(0, v.dt))


def select(c, x, y):
    """numpy semantics on element arrays; result has x's shape"""
    ce = np.empty(c.shape, dtype=object)
    for i in np.ndindex(*c.shape):
        ce[i] = truth(V(c.s.el[i], c.dtype)).e
    ce = np.broadcast_to(ce, x.shape)
    ye = np.broadcast_to(y.s.el, x.shape)
    out = []
    for i in np.ndindex(*x.shape):
        out.append(Ite(V(ce[i], bool), V(x.s.el[i], x.dtype), V(ye[i], y.dtype)))
    return out


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, args, post, fns=("xnp.where",), **kw):
        kw.setdefault("nsample", 3)
        out.append(Case(name, fn, args, post, functions=fns, **kw))

    def post_sel(a, r, nb=False):
        c, x, y = a
        o = [("same class", r["ok"].v)]
        for (p, fx), (q, fy), (g, fr) in zip(leaves(x), leaves(y), leaves(r["out"])):
            ok = p == g and fr.shape == fx.shape and fr.dtype == fx.dtype
            cc = dict(leaves(c))[p] if isinstance(c, NS) else c
            o.append((".".join(map(str, p)), bv(ok) & (And(u.same(v) for u, v in zip(select(cc, fx, fy), fr.flat())) if ok else TRUE)))
        o.append(("all fields", len(leaves(r["out"])) == len(leaves(x))))
        return o

    def wrap(cls, f):
        return lambda *a: (lambda r: dict(out=r, ok=jnp.asarray(type(r) is cls)))(f(*a))

    CL = [One, Byte, Mixed, Vec2, Deep, Mat, Kinds]
    for cls in CL:
        vec = cls in (Mixed, Vec2, Deep, Mat)
        for b in ((), (3,), (2, 2), (2, 3), (1,), (0,), (3, 1)):
            st = inst(cls, b)
            conds = {(), (1,) if b else ()}
            intr = [l.shape[len(b):] for l in jax.tree_util.tree_leaves(st)]
            shapes = [l.shape for l in jax.tree_util.tree_leaves(st)]
            for k in range(len(b) + 3):
                for s in itertools.product((1, 2, 3), repeat=k):
                    if all(ok_bc(s, t) for t in shapes) and (sum(1 for d in s if d == 1) <= 1 or T):
                        conds.add(s)
            for c in sorted(conds):
                if not all(ok_bc(c, t) for t in shapes):
                    continue
                add(f"where/{cls.__name__}{list(b)}/cond{list(c)}", wrap(cls, xnp.where), (S(c, bool), st, st), post_sel)
            # a condition of another dtype is taken as truth values
            add(f"where/{cls.__name__}{list(b)}/int-cond", wrap(cls, xnp.where), (S((), np.int32), st, st), post_sel)
            if not vec and b:
                add(f"where/{cls.__name__}{list(b)}/uint8-cond", wrap(cls, xnp.where), (S(b, np.uint8), st, st), post_sel)
                add(f"where/{cls.__name__}{list(b)}/float-cond", wrap(cls, xnp.where), (S(b, np.float32), st, st), post_sel)
            # y of a smaller (broadcastable) batch
            for yb in ((), (1,)):
                if yb != b and b and all(ok_bc(l.shape, t) for l, t in zip(jax.tree_util.tree_leaves(inst(cls, yb)), shapes)):
                    add(f"where/{cls.__name__}{list(b)}/y{list(yb)}", wrap(cls, xnp.where), (S((), bool), st, inst(cls, yb)), post_sel)
            # scalar y: exactly jnp.where per field (dtype included)
            for y in (0, -1, 5, 300, 1.5, float("inf"), True, np.uint8(7), np.float32(2.5), np.int32(-9)):
                if (y in (300, 5) or isinstance(y, np.generic)) and not (T or cls in (Kinds, Mixed)):
                    continue
                for c in ((), b) if not vec else ((),):
                    def f(cond, x, y=y):
                        return dict(out=xnp.where(cond, x, y), ref=jax.tree_util.tree_map(lambda q: jnp.where(cond, q, y), x))

                    if y == 300 and cls in (Byte, Kinds):
                        continue  # jnp rejects 300 for uint8
                    if y == -1 and isinstance(y, int) and not isinstance(y, (bool, np.generic)) and any(l.dtype.kind == "u" for l in jax.tree_util.tree_leaves(st)) and not neg_ok():
                        continue
                    add(f"where-scalar/{cls.__name__}{list(b)}/cond{list(c)}/{type(y).__name__}({y})", f, (S(c, bool), st),
                        lambda a, r: [(".".join(map(str, p)), x.same(w)) for (p, x), (_, w) in zip(leaves(r["out"]), leaves(r["ref"]))] + [("all fields", len(leaves(r["out"])) == len(leaves(a[1])))], nsample=1)
            # a traced scalar
            for dt in (np.float32, np.int32, np.uint8, np.bool_):
                def f(cond, x, y):
                    return dict(out=xnp.where(cond, x, y), ref=jax.tree_util.tree_map(lambda q: jnp.where(cond, q, y), x))

                if cls in (Kinds, Vec2) and b in ((), (3,)):
                    add(f"where-array-scalar/{cls.__name__}{list(b)}/{np.dtype(dt)}", f, (S((), bool), st, S((), dt)),
                        lambda a, r: [(".".join(map(str, p)), x.same(w)) for (p, x), (_, w) in zip(leaves(r["out"]), leaves(r["ref"]))], nsample=1)
    # instances whose fields have other dtypes (same class)
    for dx, dy in itertools.permutations((np.uint8, np.int16, np.uint32, np.int32, np.bool_, np.float32), 2):
        mkx = lambda dt: One(a=S((3,), dt))
        add(f"where-mixed/{np.dtype(dx)},{np.dtype(dy)}", lambda c, x, y: dict(out=xnp.where(c, x, y), ref=jax.tree_util.tree_map(lambda p, q: jnp.where(c, p, q), x, y)), (S((3,), bool), mkx(dx), mkx(dy)),
            lambda a, r: [("a", r["out"].a.same(r["ref"].a))], nsample=2)
    # ---- where_no_broadcast
    for cls in CL:
        for b in ((), (3,), (2, 2)):
            st = inst(cls, b)
            dc = jax.tree_util.tree_map(lambda l: S(l.shape, bool), st)
            add(f"where_no_broadcast/{cls.__name__}{list(b)}/dataclass-cond", wrap(cls, xnp.where_no_broadcast), (dc, st, st), post_sel, ("xnp.where_no_broadcast",))
            if len({l.shape for l in jax.tree_util.tree_leaves(st)}) == 1:
                add(f"where_no_broadcast/{cls.__name__}{list(b)}", wrap(cls, xnp.where_no_broadcast), (S(b, bool), st, st), post_sel, ("xnp.where_no_broadcast",))
    add("where-under-jit/Mixed", jax.jit(wrap(Mixed, xnp.where)), (S((), bool), inst(Mixed, (3,)), inst(Mixed, (3,))), post_sel)

    # ---- acceptance and rejection, dimensions symbolic
    def py(name, fn, functions, **kw):
        out.append(Case(name, fn, (), None, mode="py", functions=functions, nsample=kw.pop("nsample", 6), **kw))

    def shp(ctx, nm, ranks, lv):
        return {p: tuple(ctx.dim(f"{nm}_{'_'.join(p)}_{i}") for i in range(k)) for (p, _, _), k in zip(lv, ranks)}

    for cls in (One, Inner, Mat):
        lv = arr_leaves(cls)
        n = len(lv)
        for rc in (0, 1, 2):
            for rx in itertools.product((0, 1, 2), repeat=n):
                for ry in {rx, tuple((r + 1) % 3 for r in rx), rx[:-1] + ((rx[-1] + 1) % 3,)}:
                    def g(ctx, cls=cls, rc=rc, rx=rx, ry=ry, lv=lv):
                        c = tuple(ctx.dim(f"c{i}") for i in range(rc))
                        sx, sy = shp(ctx, "x", rx, lv), shp(ctx, "y", ry, lv)
                        same = ctx.all([ctx.eqs(c, sx[p]) for p in sx] + [ctx.eqs(sx[p], sy[p]) for p in sx])
                        try:
                            r = xnp.where_no_broadcast(ctx.arr(c, jnp.bool_), build(ctx, cls, sx), build(ctx, cls, sy))
                        except ValueError:
                            return [("raises exactly on mismatching shapes", ctx.not_(same))]
                        return [("accepted exactly on equal shapes", same), ("result shapes", ctx.all(ctx.eqs(getattr(r, p[0]).shape, sx[p]) for p in sx))]

                    py(f"no_broadcast-shapes/{cls.__name__}/c{rc}x{rx}y{ry}", g, ("xnp.where_no_broadcast",), nsample=3)
    for dx, dy in itertools.product((jnp.uint8, jnp.uint32, jnp.int32, jnp.float32, jnp.bool_), repeat=2):
        def g(ctx, dx=dx, dy=dy):
            b = (ctx.dim("n"),)
            try:
                r = xnp.where_no_broadcast(ctx.arr(b, jnp.bool_), One(a=ctx.arr(b, dx)), One(a=ctx.arr(b, dy)))
            except ValueError:
                return [("raises exactly on mismatching dtypes", np.dtype(dx) != np.dtype(dy))]
            return [("accepted exactly on equal dtypes", np.dtype(dx) == np.dtype(dy)), ("dtype kept", np.dtype(r.a.dtype) == np.dtype(dx))]

        py(f"no_broadcast-dtypes/{np.dtype(dx)},{np.dtype(dy)}", g, ("xnp.where_no_broadcast",), nsample=2)

    def g(ctx):
        b = (ctx.dim("n"),)
        a, o = One(a=ctx.arr(b, jnp.uint8)), Byte(a=ctx.arr(b, jnp.uint8))
        res = []
        for lab, args in (("other class y", (ctx.arr(b, jnp.bool_), a, o)), ("other class x", (ctx.arr(b, jnp.bool_), o, a)), ("condition of another class", (Byte(a=ctx.arr(b, jnp.bool_)), a, a)),
                          ("array y", (ctx.arr(b, jnp.bool_), a, ctx.arr(b, jnp.uint8)))):
            try:
                xnp.where_no_broadcast(*args)
                res.append((f"{lab}: rejected", False))
            except TypeError:
                res.append((f"{lab}: rejected", True))
        return res

    py("no_broadcast-types", g, ("xnp.where_no_broadcast",), nsample=2)
    for nm, b, c in (("large", (500,), (500,)), ("large-matrix", (40, 30), (30,))):
        add(f"where({nm})", wrap(Kinds, xnp.where), (S(c, bool), inst(Kinds, b), inst(Kinds, b)), post_sel, mode="bounded", bound="batches of 500 / 40x30 rows, random", nsample=2)
    return out + sized_cases(T)


def sized_cases(T):
    """any batch sizes"""
    from .sized import Forall, PCase, PS, batch_case, ite_row, pinst

    out = []
    z = u32(0)
    COND = [("n", "[]", lambda D: (), lambda c, i: c.v), ("n", "[n]", lambda D: (D.n,), lambda c, i: c[i[0]]), ("n", "[1]", lambda D: (1,), lambda c, i: c[0]), ("nm", "[]", lambda D: (), lambda c, i: c.v),
            ("nm", "[n,m]", lambda D: (D.n, D.m), lambda c, i: c[i]), ("nm", "[m]", lambda D: (D.m,), lambda c, i: c[i[1]]), ("nm", "[n,1]", lambda D: (D.n, 1), lambda c, i: c[i[0], z]),
            ("nm", "[1,m]", lambda D: (1, D.m), lambda c, i: c[z, i[1]])]
    for cls in (One, Byte, Kinds, Mixed, Vec2, Deep, Mat):
        vec = cls in (Mixed, Vec2, Deep, Mat)
        for dims, tag, csh, at in COND:
            if vec and tag not in ("[]", "[1]"):
                continue
            bs = (lambda D: (D.n,)) if dims == "n" else (lambda D: (D.n, D.m))
            for dt in (bool, np.int32, np.float32) if cls in (Kinds, Mixed) else (bool,):
                out.append(batch_case(f"where/{cls.__name__}[{','.join(dims)}]/cond{tag}:{np.dtype(dt)}/any size", cls, lambda D, bs=bs: [bs(D), bs(D)], lambda x, y, c: xnp.where(c, x, y), bs,
                                      lambda p, f, i, e, D, at=at: ite_row(truth(at(e[0], i)), f[0].rows(*i), f[1].rows(*i)), dims, extra=lambda D, csh=csh, dt=dt: [(csh(D), dt)], functions=("xnp.where",)))
            if dims == "n" and not vec:
                out.append(batch_case(f"where_no_broadcast/{cls.__name__}[n]/cond{tag}/any size", cls, lambda D: [(D.n,), (D.n,)], lambda x, y, c: xnp.where_no_broadcast(c, x, y), bs,
                                      lambda p, f, i, e, D, at=at: ite_row(truth(at(e[0], i)), f[0].rows(*i), f[1].rows(*i)), dims, extra=lambda D, csh=csh: [(csh(D), bool)], functions=("xnp.where_no_broadcast",))) if tag == "[n]" else None
            # a batch of one for y (fields whose shapes broadcast)
            for yb in ((), (1,)):
                if not vec and tag in ("[]", "[n]", "[m]"):
                    out.append(_y_case(cls, dims, tag, csh, at, bs, yb))
        # a scalar or traced scalar y: exactly jnp.where of the field
        for dims, bs in (("n", lambda D: (D.n,)), ("nm", lambda D: (D.n, D.m))):
            for cb in (False, True):
                if cb and vec:
                    continue

                def post(a, r, D):
                    return [(".".join(map(str, p)), x.same(w)) for (p, x), (_, w) in zip(leaves(r["out"]), leaves(r["ref"]))] + [("all fields", bv(len(leaves(r["out"])) == len(leaves(a[1]))))]

                for y in (0, 1, 1.5, float("inf"), True):
                    out.append(PCase(f"where-scalar/{cls.__name__}[{','.join(dims)}]/cond{'[batch]' if cb else '[]'}/{type(y).__name__}({y})/any size",
                                     lambda c, x, y=y: dict(out=xnp.where(c, x, y), ref=jax.tree_util.tree_map(lambda q: jnp.where(c, q, y), x)),
                                     lambda D, bs=bs, cb=cb, cls=cls: (PS(bs(D) if cb else (), bool), pinst(cls, bs(D))), post, dims, nsample=1, functions=("xnp.where",)))
                for dt in (np.float32, np.int32, np.uint8, np.bool_):
                    out.append(PCase(f"where-array-scalar/{cls.__name__}[{','.join(dims)}]/cond{'[batch]' if cb else '[]'}/{np.dtype(dt)}/any size",
                                     lambda c, x, y: dict(out=xnp.where(c, x, y), ref=jax.tree_util.tree_map(lambda q: jnp.where(c, q, y), x)),
                                     lambda D, bs=bs, cb=cb, cls=cls, dt=dt: (PS(bs(D) if cb else (), bool), pinst(cls, bs(D)), PS((), dt)), post, dims, nsample=1, functions=("xnp.where",)))
        # a condition per field
        for dims, bs in (("n", lambda D: (D.n,)), ("nm", lambda D: (D.n, D.m))):
            for nm in ("where_no_broadcast",):
                def post(a, r, D, bs=bs):
                    c, x, y = a
                    o = [("same class", r["ok"].v)]
                    for (p, u), (_, v), (_, q), (g, w) in zip(leaves(x), leaves(y), leaves(c), leaves(r["out"])):
                        ok = p == g and len(w.dims) == len(u.dims) and w.dtype == u.dtype
                        o.append((".".join(map(str, p)), And([bv(ok)] + ([s == t for s, t in zip(w.dims, u.dims)] + [Forall(u.dims, lambda *i, u=u, v=v, q=q, w=w: w[i].same(Ite(q[i], u[i], v[i])))] if ok else []))))
                    return o

                out.append(PCase(f"{nm}/{cls.__name__}[{','.join(dims)}]/dataclass-cond/any size", lambda c, x, y, nm=nm, cls=cls: (lambda r: dict(out=r, ok=jnp.asarray(type(r) is cls)))(getattr(xnp, nm)(c, x, y)),
                                 lambda D, bs=bs, cls=cls: (jax.tree_util.tree_map(lambda l: PS(l.shape, bool), pinst(cls, bs(D))), pinst(cls, bs(D)), pinst(cls, bs(D))), post, dims, nsample=2, functions=("xnp." + nm,)))
    return out


def _y_case(cls, dims, tag, csh, at, bs, yb):
    from .sized import Forall, PCase, PS, ite_row, pinst

    z = u32(0)

    def post(a, r, D):
        c, x, y = a
        b = [d for d in bs(D)]
        o = [("same class", r["ok"].v)]
        for (p, u), (_, v), (g, w) in zip(leaves(x), leaves(y), leaves(r["out"])):
            ok = p == g and len(w.dims) == len(u.dims) and w.dtype == u.dtype
            o.append((".".join(map(str, p)), And([bv(ok)] + ([s == t for s, t in zip(w.dims, u.dims)] + [Forall(u.dims, lambda *i, u=u, v=v, w=w: w[i].same(Ite(truth(at(c, i)), u[i], v[z] if yb else v.v)))] if ok else []))))
        return o

    return PCase(f"where/{cls.__name__}[{','.join(dims)}]/cond{tag}/y{list(yb)}/any size", lambda c, x, y: (lambda r: dict(out=r, ok=jnp.asarray(type(r) is cls)))(xnp.where(c, x, y)),
                 lambda D: (PS(csh(D), bool), pinst(cls, bs(D)), pinst(cls, yb)), post, dims, nsample=1, functions=("xnp.where",))


def neg_ok():
    try:
        jnp.where(True, jnp.zeros((), jnp.uint8), -1)
        return True
    except OverflowError:
        return False


def ok_bc(s, t):
    return len(s) <= len(t) and all(p == q or p == 1 for p, q in zip(s, t[len(t) - len(s):]))
