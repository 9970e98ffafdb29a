"""Helpers for contracts over arbitrary array sizes (mode "param")."""
from jxv.prun import First, Forall, PA, hint, prow  # noqa: F401

from .common import *  # noqa: F401,F403


def pinst(cls, batch=()):
    """abstract instance with a batch shape that may contain symbolic sizes"""
    d = jax.eval_shape(lambda: cls.default(()))
    return jax.tree_util.tree_map(lambda l: jax.ShapeDtypeStruct(tuple(batch) + tuple(l.shape), l.dtype), d)


def PS(shape, dt):
    return jax.ShapeDtypeStruct(tuple(shape), np.dtype(dt))


def tok(n):
    """carries a size into the traced function"""
    return PS((n,), np.uint8)


def lens(tree, *n):
    """leading dimensions of every field"""
    return And([x.dims[q] == m for _, x in leaves(tree) for q, m in enumerate(n)])


def psame(a, b):
    return same_tree(a, b)


def PCase(name, fn, args, post, dims, **kw):
    return Case(name, fn, args, post, mode="param", dims=tuple(dims), **kw)


def frow(x):
    """a constant (numpy) entry as a view"""
    from jxv.interp import conc

    return PA(conc(np.asarray(x)))


def ite_row(c, a, b):
    """entrywise choice between two entries of one field"""
    from jxv import param as pm
    from jxv import term as tm

    pa, pb = pm.as_p(a.s), pm.as_p(b.s)
    w = pm.dinfo(a.dtype)[1]
    return PA(pm.PArr(pa.shape, pa.dtype, lambda *ix: tm.ite_w(bv(c).e, pa.at(*ix), pb.at(*ix), w)))


def batch_case(name, cls, batches, fn, shape, spec, dims, extra=(), pre=None, sample=None, typed=None, same_dtype=True, **kw):
    """fn(instances..., extra...) -> instance(s) whose every field has batch shape `shape(D)` followed by the intrinsic one, and whose entry at batch
    index i is spec(path, fields (one view per instance), i, extra views, D)"""
    k = len(batches(SizeDummy()))

    def args(D):
        return tuple(pinst(cls, b) for b in batches(D)) + tuple(PS(s, d) for s, d in (extra(D) if callable(extra) else extra))

    def post(a, r, D):
        xs, ex = a[:k], a[k:]
        outs = list(r["out"]._d.values())
        shapes = shape(D)
        shapes = shapes if isinstance(shapes, list) else [shapes]
        obs = [("same class", r["ok"].v), ("number of results", bv(len(outs) == len(shapes)))]
        fl = [leaves(x) for x in xs]
        for j, (o, sh) in enumerate(zip(outs, shapes)):
            t = f"[{j}]" if len(shapes) > 1 else ""
            lo = leaves(o)
            obs.append((f"same fields{t}", bv([p for p, _ in lo] == [p for p, _ in fl[0]])))
            for q, (p, g) in enumerate(lo):
                fs = [f[q][1] for f in fl]
                nb = len(batches(D)[0])
                intr = fs[0].dims[nb:]
                nm = ".".join(map(str, p)) + t
                if len(g.dims) != len(sh) + len(intr) or g.dtype != fs[0].dtype:
                    obs.append((f"{nm}: shape and dtype", FALSE))
                    continue
                dm = [d if isinstance(d, V) else u32(d) for d in sh]
                obs.append((f"{nm}: shape and dtype", And([x == y for x, y in zip(g.dims, dm + list(intr))])))
                obs.append((f"{nm}: entries", Forall(dm, lambda *i, g=g, fs=fs, p=p, j=j: same_if(g.rows(*i), spec(p, fs, i, ex, D) if len(shapes) == 1 else spec(p, fs, i, ex, D, j)))))
        return obs

    smp = None
    if sample is not None:
        def smp(rng, D):
            return tuple(rand_tree(rng, x) for x in args(D)[:k]) + tuple(sample(rng, D))

    def g(*a):
        r = fn(*a)
        items = list(r) if isinstance(r, (list, tuple)) else [r]
        return dict(out=items, ok=jnp.asarray(all(type(x) is cls for x in items)))

    kw.setdefault("nsample", 2)
    return PCase(name, g, args, post, dims, pre=(lambda *a: pre(*a[k:-1], a[-1])) if pre else None, sample=smp, **kw)


def same_if(g, w):
    """w: the expected entry, or (condition, entry)"""
    return Implies(w[0], g.same(w[1])) if isinstance(w, tuple) else g.same(w)


class SizeDummy:
    def __getattr__(self, n):
        return 1
