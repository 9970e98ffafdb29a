"""C17 xnp shape and batch operations act on batch dimensions, alike per field.

Oracle: the numpy operation on each field's array of symbolic elements (batch-aware operations: axes counted over the batch dimensions).
"""
import xtructure.numpy as xnp

from .common import *
from .sized import *


@xtructure_dataclass
class Vec:
    """intrinsic sizes that coincide with batch sizes"""

    v: F.tensor(dtype=jnp.float32, shape=(2,))
    w: F.tensor(dtype=jnp.uint8, shape=(3, 2))
    s: F.scalar(dtype=jnp.int16, default=-3)


@xtructure_dataclass
class Flat:
    """scalar fields only"""

    a: F.scalar(dtype=jnp.uint32, default=7)
    b: F.scalar(dtype=jnp.bool_, default=True)
    n: F.scalar(dtype=One)


def typed(cls, fn):
    def g(*a):
        r = fn(*a)
        items = r if isinstance(r, (list, tuple)) else [r]
        return dict(out=list(items), ok=jnp.asarray(all(type(x) is cls for x in items)), n=jnp.asarray(len(items)))

    return g


def per_field(args, r, spec, nb):
    """spec(list of object arrays (one per argument), path) -> object array or list of them; r: result record"""
    obs = [("same class", r["ok"].v), ("number of results", r["n"].v.eqint(len(r["out"])) if True else None)]
    fl = [leaves(a) for a in args]
    outs = [leaves(o) for o in r["out"]._d.values()] if isinstance(r["out"], NS) else None
    for i, (p, x) in enumerate(fl[0]):
        want = spec([f[i][1].s.el for f in fl], p, x)
        want = want if isinstance(want, list) else [want]
        name = ".".join(map(str, p))
        if len(want) != len(outs):
            obs.append((f"{name}: number of results", FALSE))
            continue
        for j, w in enumerate(want):
            if [q for q, _ in outs[j]] != [q for q, _ in fl[0]]:
                obs.append((f"{name}: same fields", FALSE))
                continue
            g = outs[j][i][1]
            w = np.asarray(w, dtype=object)
            ok = g.shape == w.shape and g.dtype == x.dtype
            obs.append((f"{name}{f'[{j}]' if len(want) > 1 else ''}", bv(ok) & (And(V(e, g.dtype).same(V(c, g.dtype)) for e, c in zip(g.s.el.reshape(-1), w.reshape(-1))) if ok else TRUE)))
    return obs


def const_el(c, dt):
    return const_val(c, dt).e


class Builder:
    def __init__(self, tier):
        self.out = []
        self.T = tier == "thorough"

    def add(self, name, cls, batches, fn, spec, extra=(), pre=None, sample=None, rep=1, **kw):
        """fn(*instances, *extra) ; spec(els, path, A, *extra views)"""
        sts = [inst(cls, b) for b in batches]
        ext = list(extra)
        k = len(sts)

        def post(a, r):
            return per_field(a[:k], r, (lambda els, p, x: spec(els, p, x, *a[k:])) if ext else spec, len(batches[0]))

        kw.setdefault("nsample", 2)
        self.out.append(Case(f"{name}/{cls.__name__}/" + ",".join(str(list(b)) for b in batches), typed(cls, fn), tuple(sts) + tuple(ext), post,
                             pre=(lambda *a: pre(*a[k:])) if pre else None, sample=sample, functions=(f"xnp.{name.split('(')[0]}",), **kw))


def normax(ax, nb):
    return ax + nb if ax < 0 else ax


def rejects():
    """axes outside the batch dimensions and impossible shapes"""

    def calls():
        out = []
        for cls in (Vec, Mixed, Mat, Deep):
            x, y = cls.default((3,)), cls.default((3, 2))
            for bs, v in (("[3]", x), ("[3,2]", y)):
                nb = len(v.shape.batch)
                for ax in (nb, nb + 1, -nb - 1, -nb - 2):
                    out += [(f"{cls.__name__}{bs} concat axis {ax}", lambda v=v, ax=ax: xnp.concat([v, v], axis=ax), Exception),
                            (f"{cls.__name__}{bs} swapaxes 0,{ax}", lambda v=v, ax=ax: xnp.swapaxes(v, 0, ax), Exception),
                            (f"{cls.__name__}{bs} swapaxes {ax},0", lambda v=v, ax=ax: xnp.swapaxes(v, ax, 0), Exception)]
                for ax in (nb + 1, nb + 2, -nb - 2):
                    out.append((f"{cls.__name__}{bs} stack axis {ax}", lambda v=v, ax=ax: xnp.stack([v, v], axis=ax), Exception))
            for axes in ((0, 2), (0,), (0, 0), (0, -3), (1, 0, 2), (-3, 0), (), (0, -2), (2, 1)):
                out.append((f"{cls.__name__}[3,2] transpose {axes}", lambda v=y, a=axes: xnp.transpose(v, a), Exception))
            for shp in ((5,), (4, -1), (-1, -1), (12,), (0,), (3, 2, 2)):
                out.append((f"{cls.__name__}[3,2] reshape {shp}", lambda v=y, s=shp: xnp.reshape(v, s), Exception))
        return out

    return Case("reject/axes and shapes", None, (), None, must_raise=calls, functions=("concat", "stack", "swapaxes", "transpose", "reshape"))


def cases(tier):
    B = Builder(tier)
    B.out.append(rejects())
    add = B.add
    CL = [Mixed, Vec, Deep] if B.T else [Vec, Mixed]
    # ---- concat / stack -------------------------------------------------------------------------------------------------------------------
    for cls in CL + [Mat]:
        for bs, axes in (([(3,), (2,)], (0, -1)), ([(2, 3), (2, 1)], (1, -1)), ([(2, 3), (1, 3)], (0, -2)), ([(2,), (1,), (3,)], (0, -1)), ([(2, 2), (2, 2)], (0, 1, -1, -2)),
                         ([(1, 2, 2), (1, 2, 2)], (0, 1, 2, -1, -2, -3)), ([(2,)], (0, -1)), ([(0,), (2,)], (0,)), ([(2,), (0,)], (-1,))):
            for ax in axes:
                nb = len(bs[0])
                add(f"concat(axis={ax})", cls, bs, lambda *xs, ax=ax: xnp.concat(list(xs), axis=ax), lambda els, p, x, ax=ax, nb=nb: np.concatenate(els, axis=normax(ax, nb)))
        add("concatenate(default)", cls, [(2,), (3,)], lambda *xs: xnp.concatenate(xs), lambda els, p, x: np.concatenate(els, axis=0))
        add("concatenate(axis=-1)", cls, [(2, 1), (2, 2)], lambda *xs: xnp.concatenate(xs, axis=-1), lambda els, p, x: np.concatenate(els, axis=1))
        add("concat(axis=None)", cls, [(2,), (3,)], lambda *xs: xnp.concat(xs, axis=None), lambda els, p, x: np.concatenate(els, axis=None))
        for ax in (0, -1):
            add(f"concat-singles(axis={ax})", cls, [(), (), ()], lambda *xs, ax=ax: xnp.concat(list(xs), axis=ax), lambda els, p, x: np.stack(els, axis=0))
        for bs in ([(), ()], [(2,), (2,)], [(2, 3), (2, 3)], [(2,), (2,), (2,)], [()], [(3,)], [(2, 1)]):
            nb = len(bs[0])
            for ax in range(-(nb + 1), nb + 1):
                add(f"stack(axis={ax})", cls, bs, lambda *xs, ax=ax: xnp.stack(list(xs), axis=ax), lambda els, p, x, ax=ax, nb=nb: np.stack(els, axis=normax(ax, nb + 1)))
        # ---- reshape / flatten / transpose / swapaxes --------------------------------------------------------------------------------------
        for b, shapes in (((6,), [(2, 3), (3, 2), (6,), (1, 6), (-1, 2), (3, -1), 6, -1, (2, 1, 3)]), ((2, 3), [(6,), (3, 2), (2, 3), (-1,), (3, -1), (1, 2, 3), (6, 1)]),
                          ((2, 2), [(4,), (2, 2), (-1, 1), (1, -1, 2)]), ((1,), [(1, 1), (1,)]), ((2, 1, 3), [(3, 2), (-1,), (2, 3)])):
            for sh in shapes:
                t = sh if isinstance(sh, tuple) else (sh,)
                n = int(np.prod(b))
                full = tuple(n // -int(np.prod(t)) if d == -1 else d for d in t)
                add(f"reshape({sh})", cls, [b], lambda x, sh=sh: xnp.reshape(x, sh), lambda els, p, x, full=full, b=b: els[0].reshape(full + els[0].shape[len(b):]))
                add(f"reshape-method({sh})", cls, [b], (lambda x, sh=sh: x.reshape(*sh)) if isinstance(sh, tuple) and len(sh) > 1 else (lambda x, sh=sh: x.reshape(sh)),
                    lambda els, p, x, full=full, b=b: els[0].reshape(full + els[0].shape[len(b):]))
            for nm, f in (("flatten", xnp.flatten), ("ravel", xnp.ravel), ("flatten-method", lambda x: x.flatten())):
                add(nm, cls, [b], f, lambda els, p, x, b=b: els[0].reshape((int(np.prod(b)),) + els[0].shape[len(b):]))
        import itertools

        for b in ((3,), (2, 3), (2, 2), (2, 1, 3)):
            nb = len(b)
            ts = [None] + [p for p in itertools.permutations(range(nb))] + [tuple(a - nb for a in p) for p in itertools.permutations(range(nb))] + ([[1, 0], (-1, 0)] if nb == 2 else [])
            for t in ts:
                perm = tuple(range(nb))[::-1] if t is None else tuple(normax(a, nb) for a in t)
                add(f"transpose({t})", cls, [b], lambda x, t=t: xnp.transpose(x, t) if t is not None else xnp.transpose(x),
                    lambda els, p, x, perm=perm, nb=nb: els[0].transpose(perm + tuple(range(nb, els[0].ndim))))
            add("transpose-method", cls, [b], lambda x: x.transpose(), lambda els, p, x, nb=nb: els[0].transpose(tuple(range(nb))[::-1] + tuple(range(nb, els[0].ndim))))
            for i in range(-nb, nb):
                for j in range(-nb, nb):
                    if nb < 3 or B.T or (i + j) % 2:
                        add(f"swapaxes({i},{j})", cls, [b], lambda x, i=i, j=j: xnp.swapaxes(x, i, j), lambda els, p, x, i=i, j=j, nb=nb: els[0].swapaxes(normax(i, nb), normax(j, nb)))
        # ---- pad ---------------------------------------------------------------------------------------------------------------------------
        dflt = {p: np.asarray(l) for p, l in _default_leaves(cls)}
        for b, ws in (((3,), [1, (1, 2), (0, 2), ((2, 0),), ((1, 1),), 0, (3,)]), ((2, 2), [1, ((1, 0), (0, 2)), ((0, 0), (2, 1)), ((0, 0), (0, 0))]), ((), [1, (1, 2), (0, 1), ((2, 1),), (2, 0)]), ((2, 1, 2), [((0, 1), (1, 0), (2, 0))])):
            for w in ws:
                nb = max(1, len(b))
                spec = [(w, w)] * nb if isinstance(w, int) else list(w) if isinstance(w[0], tuple) else [tuple(w)] if len(w) == 2 else [(w[0], w[0])]
                if b == () and all(q == (0, 0) for q in spec):
                    continue

                def padspec(els, p, x, spec=spec, b=b, nb=nb, fill=None, mode="constant", dflt=dflt):
                    e = els[0] if b else els[0][None]
                    pw = spec + [(0, 0)] * (e.ndim - nb)
                    if mode != "constant":
                        return np.pad(e, pw, mode=mode)
                    sh = tuple(n + l + r for n, (l, r) in zip(e.shape, pw))
                    o = np.empty(sh, dtype=object)
                    d = dflt[p]
                    for ix in np.ndindex(*sh):
                        o[ix] = const_el(fill if fill is not None else d[ix[nb:]][()] if d.ndim else d[()], x.dtype)
                    o[tuple(slice(l, l + n) for n, (l, r) in zip(e.shape, pw))] = e
                    return o

                add(f"pad({w})", cls, [b], lambda x, w=w: xnp.pad(x, w), padspec)
                add(f"pad-method({w})", cls, [b], lambda x, w=w: x.pad(w), padspec)
                for cv in (0, 1):
                    add(f"pad({w},constant_values={cv})", cls, [b], lambda x, w=w, cv=cv: xnp.pad(x, w, constant_values=cv), lambda els, p, x, cv=cv, ps=padspec: ps(els, p, x, fill=cv))
                for mode in ("edge", "wrap", "reflect", "symmetric"):
                    if b and (B.T or w in ((1, 2), 1, ((1, 0), (0, 2)))):
                        add(f"pad({w},{mode})", cls, [b], lambda x, w=w, mode=mode: xnp.pad(x, w, mode=mode), lambda els, p, x, mode=mode, ps=padspec: ps(els, p, x, mode=mode))
        # ---- gather ------------------------------------------------------------------------------------------------------------------------
        for b, ax in (((4,), 0), ((2, 3), 0), ((2, 3), 1)):
            n = b[ax]
            for ish in ((3,), (2, 2), ()):
                I = S(ish, np.int32)

                def tspec(els, p, x, idx, ax=ax, n=n):
                    return _take(x, els[0], idx, ax, n)

                add(f"take(axis={ax},idx{list(ish)})", cls, [b], lambda x, i, ax=ax: xnp.take(x, i, axis=ax), tspec, extra=(I,), pre=lambda i, n=n: And((v >= lit(-n, np.int32)) & (v < lit(n, np.int32)) for v in i.flat()),
                    sample=_smp(cls, [b], ish, -n, n))
            # take_along_axis: one index per entry, intrinsic dimensions follow
            ish = tuple(2 if d == ax else m for d, m in enumerate(b))
            add(f"take_along_axis(axis={ax})", cls, [b], lambda x, i, ax=ax: xnp.take_along_axis(x, i, axis=ax), lambda els, p, x, idx, ax=ax, n=n, b=b: _along(x, els[0], idx, ax, n, b), extra=(S(ish, np.int32),),
                pre=lambda i, n=n: And((v >= lit(-n, np.int32)) & (v < lit(n, np.int32)) for v in i.flat()), sample=_smp(cls, [b], ish, -n, n))
        # ---- field-wise operations ----------------------------------------------------------------------------------------------------------
        def fw(name, b, fx, fn_):
            add(name, cls, [b] if isinstance(b, tuple) else b, fx, lambda els, p, x: fn_(*els))

        for b in ((3,), (2, 2), (2, 3)):
            for k, ax in ((2, 0), (3, None), (1, -1), (2, len(b) - 1), (0, 0)):
                fw(f"repeat({k},axis={ax})", b, lambda x, k=k, ax=ax: xnp.repeat(x, k, axis=ax), lambda e, k=k, ax=ax: np.repeat(e, k, axis=ax))
            for r in (2, (2,), (2, 1), (1, 3), (2, 1, 2), 1):
                fw(f"tile({r})", b, lambda x, r=r: xnp.tile(x, r), lambda e, r=r: np.tile(e, r))
            for sft, ax in ((1, 0), (-1, 0), (2, None), (1, -1), (5, 0), (0, 0)) + ((((1, -1), (0, 1)), (1, (0, 1))) if len(b) == 2 else ()):
                fw(f"roll({sft},axis={ax})", b, lambda x, s=sft, ax=ax: xnp.roll(x, s, axis=ax), lambda e, s=sft, ax=ax: np.roll(e, s, axis=ax))
                fw(f"roll-method({sft},axis={ax})", b, lambda x, s=sft, ax=ax: x.roll(s, axis=ax), lambda e, s=sft, ax=ax: np.roll(e, s, axis=ax))
            for ax in (0, -1, None) + ((1, (0, 1)) if len(b) == 2 else ()):
                fw(f"flip(axis={ax})", b, lambda x, ax=ax: xnp.flip(x, axis=ax), lambda e, ax=ax: np.flip(e, axis=ax))
                fw(f"flip-method(axis={ax})", b, lambda x, ax=ax: x.flip(axis=ax), lambda e, ax=ax: np.flip(e, axis=ax))
            for ax in (0, -1, (0, 1)):
                fw(f"expand_dims({ax})", b, lambda x, ax=ax: xnp.expand_dims(x, ax), lambda e, ax=ax: np.expand_dims(e, ax))
            fw("expand_dims-method(0)", b, lambda x: x.expand_dims(0), lambda e: e[None])
            if len(b) == 2:
                for k in range(-1, 5):
                    for axes in ((0, 1), (1, 0)):
                        fw(f"rot90({k},{axes})", b, lambda x, k=k, axes=axes: xnp.rot90(x, k, axes), lambda e, k=k, axes=axes: np.rot90(e, k, axes))
                fw("rot90-method", b, lambda x: x.rot90(), lambda e: np.rot90(e))
                for s, d in ((0, 1), (1, 0), (0, -1), (-1, 0), ((0, 1), (1, 0)), (0, 0)):
                    fw(f"moveaxis({s},{d})", b, lambda x, s=s, d=d: xnp.moveaxis(x, s, d), lambda e, s=s, d=d: np.moveaxis(e, s, d))
                for how in ("vstack", "hstack", "dstack"):
                    fw(how, [b, b], lambda x, y, how=how: getattr(xnp, how)([x, y]), lambda e, f, how=how: getattr(np, how)([e, f]))
                fw("split(axis=1)", b, lambda x: xnp.split(x, [1], axis=1), lambda e: np.split(e, [1], axis=1))
                fw("split(axis=1,n)", b, lambda x, n=b[1]: xnp.split(x, n, axis=1), lambda e, n=b[1]: np.split(e, n, axis=1))
            fw("split(n)", b, lambda x, n=b[0]: xnp.split(x, n), lambda e, n=b[0]: np.split(e, n))
            fw("split([1,2])", b, lambda x: xnp.split(x, [1, 2]), lambda e: np.split(e, [1, 2]))
            fw("vstack1", [b, b, b], lambda *x: xnp.vstack(x), lambda *e: np.vstack(e))
            fw("hstack1", [b, b], lambda *x: xnp.hstack(x), lambda *e: np.hstack(e))
            fw("dstack1", [b, b], lambda *x: xnp.dstack(x), lambda *e: np.dstack(e))
            for nm, c in (("zeros_like", 0), ("ones_like", 1)):
                add(nm, cls, [b], lambda x, nm=nm: getattr(xnp, nm)(x), lambda els, p, x, c=c: np.full(els[0].shape, const_el(c, x.dtype), dtype=object))
            add("full_like(5)", cls, [b], lambda x: xnp.full_like(x, 5), lambda els, p, x: np.full(els[0].shape, const_el(5, x.dtype), dtype=object))
            for nm in ("atleast_1d", "atleast_2d", "atleast_3d"):
                fw(nm, b, lambda x, nm=nm: getattr(xnp, nm)(x), lambda e, nm=nm: getattr(np, nm)(e))
        fw("atleast_1d()", (), lambda x: xnp.atleast_1d(x), lambda e: np.atleast_1d(e))
        fw("atleast_2d()", (), lambda x: xnp.atleast_2d(x), lambda e: np.atleast_2d(e))
        for b, ax in (((1, 3), 0), ((3, 1), 1), ((1, 2, 1), 0), ((1, 2, 1), 2), ((1, 2, 1), (0, 2)), ((1,), 0), ((1, 3), None)):
            fw(f"squeeze({ax})", b, lambda x, ax=ax: xnp.squeeze(x, axis=ax), lambda e, ax=ax: np.squeeze(e, axis=ax))
        fw("squeeze-method(0)", (1, 2), lambda x: x.squeeze(0), lambda e: e[0])
        fw("broadcast_arrays", [(3,), (1,)], lambda x, y: xnp.broadcast_arrays(x, y)[1], lambda e, f: np.broadcast_arrays(e, f)[1].copy())
        fw("broadcast_arrays0", [(1,), (3,)], lambda x, y: xnp.broadcast_arrays(x, y)[0], lambda e, f: np.broadcast_arrays(e, f)[0].copy())
        fw("broadcast_arrays*", [(2,), (2,)], lambda x, y: xnp.broadcast_arrays(x, y), lambda e, f: [e, f])
    for cls in (Flat,):
        def fw(name, b, fx, fn_):
            add(name, cls, [b] if isinstance(b, tuple) else b, fx, lambda els, p, x: fn_(*els))

        fw("broadcast_to(2,3)", (3,), lambda x: xnp.broadcast_to(x, (2, 3)), lambda e: np.broadcast_to(e, (2, 3)).copy())
        fw("broadcast_to(4,)", (), lambda x: xnp.broadcast_to(x, (4,)), lambda e: np.broadcast_to(e, (4,)).copy())
        fw("broadcast_to-method", (2, 1), lambda x: x.broadcast_to((2, 3)), lambda e: np.broadcast_to(e, (2, 3)).copy())
        fw("column_stack", [(3,), (3,)], lambda x, y: xnp.column_stack([x, y]), lambda e, f: np.column_stack([e, f]))
        fw("column_stack2", [(3,), (3, 2)], lambda x, y: xnp.column_stack([x, y]), lambda e, f: np.column_stack([e, f]))
        fw("block", [(2, 2), (2, 1), (1, 2), (1, 1)], lambda a, b, c, d: xnp.block([[a, b], [c, d]]), lambda a, b, c, d: np.block([[a, b], [c, d]]))
        fw("block1", [(2,), (3,)], lambda a, b: xnp.block([a, b]), lambda a, b: np.block([a, b]))
        for ax in (0, 1, -1, -2):
            I = tuple(2 if d == normax(ax, 2) else m for d, m in enumerate((3, 4)))
            n = (3, 4)[normax(ax, 2)]
            add(f"take_along_axis(axis={ax})", cls, [(3, 4)], lambda x, i, ax=ax: xnp.take_along_axis(x, i, axis=ax), lambda els, p, x, idx, ax=ax, n=n: _along(x, els[0], idx, normax(ax, 2), n, (3, 4)), extra=(S(I, np.int32),),
                pre=lambda i, n=n: And((v >= lit(-n, np.int32)) & (v < lit(n, np.int32)) for v in i.flat()), sample=_smp(cls, [(3, 4)], I, -n, n))
        fw("ops: singles", (), lambda x: xnp.expand_dims(x, 0), lambda e: e[None])
    # integer conversions
    for cls, dt in ((Byte, np.uint32), (One, np.uint8), (One, np.int32), (Flat, np.int32)):
        st = inst(cls, (3,))
        B.out.append(Case(f"astype({np.dtype(dt)})/{cls.__name__}", typed(cls, lambda x, dt=dt: xnp.astype(x, dt)), (st,),
                          lambda a, r, dt=dt: [("same class", r["ok"].v)] + [(".".join(map(str, p)), bv(g.dtype == np.dtype(dt) and g.shape == x.shape) & (And(v.same(u.astype(dt)) for u, v in zip(x.flat(), g.flat())) if g.dtype == np.dtype(dt) and g.shape == x.shape else TRUE))
                                            for (p, x), (_, g) in zip(leaves(a[0]), leaves(r["out"][0]))], functions=("xnp.astype",), nsample=2))
    # larger instances: random contents, concrete
    for nm, b, fx, sp in (("concat", [(300, 2), (41, 2)], lambda *x: xnp.concat(x), lambda els: np.concatenate(els)), ("stack", [(40, 3), (40, 3)], lambda *x: xnp.stack(x, axis=-1), lambda els: np.stack(els, axis=2)),
                          ("flatten", [(37, 11)], xnp.flatten, lambda els: els[0].reshape((407,) + els[0].shape[2:])), ("transpose", [(13, 5, 7)], lambda x: xnp.transpose(x, (2, 0, 1)), lambda els: els[0].transpose((2, 0, 1) + tuple(range(3, els[0].ndim))))):
        add(f"{nm}(large)", Deep, b, fx, lambda els, p, x, sp=sp: sp(els), mode="bounded", bound="batches of several hundred rows, random", nsample=1)
    return B.out + sized_cases(tier) + regroup_cases(tier)


def _default_leaves(cls):
    d = cls.default()
    fl = jax.tree_util.tree_flatten_with_path(d)[0]
    return [(tuple(k.name for k in p), x) for p, x in fl]


def _smp(cls, bs, ish, lo, hi):
    sts = [inst(cls, b) for b in bs]
    return lambda rng: tuple(rand_tree(rng, s) for s in sts) + (rng.integers(lo, hi, size=ish).astype(np.int32),)


def _idx(v, n):
    """index with negative wrap"""
    return Ite(v < lit(0, v.dt), v + lit(n, v.dt), v)


def _take(x, el, idx, ax, n):
    m = np.moveaxis(el, ax, 0)
    a = A_of(m, x.dtype)
    ish = idx.shape
    rows = [a.at(_idx(v, n)) for v in idx.flat()]
    rows = [r.s.el if isinstance(r, A) else _o(r.e) for r in rows]
    st = np.stack(rows, 0) if rows else np.empty((0,) + m.shape[1:], object)
    st = st.reshape(ish + m.shape[1:])
    k = len(ish)
    return np.moveaxis(st, tuple(range(k)), tuple(range(ax, ax + k))) if k else st


def _along(x, el, idx, ax, n, b):
    ish = idx.shape
    sh = ish + el.shape[len(b):]
    out = np.empty(sh, dtype=object)
    for ix in np.ndindex(*ish):
        v = _idx(idx[ix], n)
        fibre = el[tuple(slice(None) if d == ax else i for d, i in enumerate(ix))]
        r = A_of(fibre, x.dtype).at(v)
        if isinstance(r, A):
            out[ix] = r.s.el
        else:
            out[ix] = r.e
    return out


def _o(e):
    o = np.empty((), dtype=object)
    o[()] = e
    return o


def A_of(el, dt):
    from jxv.interp import SArr

    return A(SArr(dt, el=el))


def sized_cases(tier):
    """every batch size at once"""
    out = []
    T = tier == "thorough"

    def add(name, cls, dims, batches, fn, shape, spec, **kw):
        kw.setdefault("functions", (f"xnp.{name.split('(')[0]}",))
        out.append(batch_case(f"{name}/{cls.__name__}/any size", cls, batches, fn, shape, spec, dims, **kw))

    one = u32(1)
    for cls in (Mixed, Vec, Mat) if T else (Mixed, Vec):
        dflt = {p: np.asarray(l) for p, l in _default_leaves(cls)}
        # concat / stack
        cat = lambda p, f, i, e, D: ite_row(i[0] < D.n, f[0].rows(i[0], *i[1:]), f[1].rows(i[0] - D.n, *i[1:]))
        add("concat(axis=0)", cls, "nm", lambda D: [(D.n,), (D.m,)], lambda x, y: xnp.concat([x, y], axis=0), lambda D: (D.n + D.m,), cat)
        add("concatenate()", cls, "nm", lambda D: [(D.n,), (D.m,)], lambda x, y: xnp.concatenate([x, y]), lambda D: (D.n + D.m,), cat)
        add("concat(axis=-1)", cls, "nmk", lambda D: [(D.k, D.n), (D.k, D.m)], lambda x, y: xnp.concat([x, y], axis=-1), lambda D: (D.k, D.n + D.m),
            lambda p, f, i, e, D: ite_row(i[1] < D.n, f[0].rows(i[0], i[1]), f[1].rows(i[0], i[1] - D.n)))
        add("concat(3,axis=-2)", cls, "nmk", lambda D: [(D.n, 2), (D.m, 2), (D.k, 2)], lambda x, y, z: xnp.concat([x, y, z], axis=-2), lambda D: (D.n + D.m + D.k, 2),
            lambda p, f, i, e, D: ite_row(i[0] < D.n, f[0].rows(*i), ite_row(i[0] < D.n + D.m, f[1].rows(i[0] - D.n, i[1]), f[2].rows(i[0] - D.n - D.m, i[1]))))
        for ax in (0, 1, -1):
            add(f"stack(axis={ax})", cls, "n", lambda D: [(D.n,), (D.n,)], lambda x, y, ax=ax: xnp.stack([x, y], axis=ax), lambda D, ax=ax: (2, D.n) if ax == 0 else (D.n, 2),
                lambda p, f, i, e, D, ax=ax: ite_row(i[ax] == u32(0), f[0].rows(i[1 if ax == 0 else 0]), f[1].rows(i[1 if ax == 0 else 0])))
        add("stack(axis=1)2", cls, "nm", lambda D: [(D.n, D.m), (D.n, D.m)], lambda x, y: xnp.stack([x, y], axis=1), lambda D: (D.n, 2, D.m),
            lambda p, f, i, e, D: ite_row(i[1] == u32(0), f[0].rows(i[0], i[2]), f[1].rows(i[0], i[2])))
        # permutations of batch axes
        for t, perm in ((None, (1, 0)), ((1, 0), (1, 0)), ((-1, -2), (1, 0)), ((0, 1), (0, 1))):
            add(f"transpose({t})", cls, "nm", lambda D: [(D.n, D.m)], lambda x, t=t: xnp.transpose(x, t) if t is not None else x.transpose(), lambda D, perm=perm: tuple((D.n, D.m)[q] for q in perm),
                lambda p, f, i, e, D, perm=perm: f[0].rows(*[i[perm.index(q)] for q in range(2)]))
        for t in ((2, 0, 1), (-1, 1, 0)):
            perm = tuple(q % 3 for q in t)
            add(f"transpose({t})", cls, "nmk", lambda D: [(D.n, D.m, D.k)], lambda x, t=t: xnp.transpose(x, t), lambda D, perm=perm: tuple((D.n, D.m, D.k)[q] for q in perm),
                lambda p, f, i, e, D, perm=perm: f[0].rows(*[i[perm.index(q)] for q in range(3)]))
        for a, b in ((0, 1), (-1, 0), (1, -1)):
            sw = (a % 2) != (b % 2)
            add(f"swapaxes({a},{b})", cls, "nm", lambda D: [(D.n, D.m)], lambda x, a=a, b=b: xnp.swapaxes(x, a, b), lambda D, sw=sw: (D.m, D.n) if sw else (D.n, D.m),
                lambda p, f, i, e, D, sw=sw: f[0].rows(i[1], i[0]) if sw else f[0].rows(*i))
        add("moveaxis(0,1)", cls, "nm", lambda D: [(D.n, D.m)], lambda x: xnp.moveaxis(x, 0, 1), lambda D: (D.m, D.n), lambda p, f, i, e, D: f[0].rows(i[1], i[0]))
        add("expand_dims(0)", cls, "n", lambda D: [(D.n,)], lambda x: xnp.expand_dims(x, 0), lambda D: (1, D.n), lambda p, f, i, e, D: f[0].rows(i[1]))
        add("expand_dims(1)", cls, "n", lambda D: [(D.n,)], lambda x: x.expand_dims(1), lambda D: (D.n, 1), lambda p, f, i, e, D: f[0].rows(i[0]))
        add("squeeze(0)", cls, "n", lambda D: [(1, D.n)], lambda x: xnp.squeeze(x, axis=0), lambda D: (D.n,), lambda p, f, i, e, D: f[0].rows(0, i[0]))
        # pad
        for via in ("xnp", "method") if T else ("xnp",):
            for cv in (None, 1):
                fill = lambda p, cv=cv, dflt=dflt: dflt[p] if cv is None else np.full(dflt[p].shape, np.asarray(cv).astype(dflt[p].dtype))
                kw = {} if cv is None else dict(constant_values=cv)
                pf = (lambda x, w, kw=kw: xnp.pad(x, w, **kw)) if via == "xnp" else (lambda x, w, kw=kw: x.pad(w, **kw))
                add(f"pad((1,2),{cv},{via})", cls, "n", lambda D: [(D.n,)], lambda x, pf=pf: pf(x, (1, 2)), lambda D: (D.n + one * u32(3),),
                    lambda p, f, i, e, D, fill=fill: ite_row(And(i[0] >= one, i[0] <= D.n), f[0].rows(i[0] - one), frow(fill(p))))
                add(f"pad(((0,2),(1,0)),{cv},{via})", cls, "nm", lambda D: [(D.n, D.m)], lambda x, pf=pf: pf(x, ((0, 2), (1, 0))), lambda D: (D.n + u32(2), D.m + one),
                    lambda p, f, i, e, D, fill=fill: ite_row(And(i[0] < D.n, i[1] >= one), f[0].rows(i[0], i[1] - one), frow(fill(p))))
            add(f"pad(1,edge,{via})", cls, "n", lambda D: [(D.n,)], (lambda x: xnp.pad(x, 1, mode="edge")) if via == "xnp" else (lambda x: x.pad(1, mode="edge")), lambda D: (D.n + u32(2),),
                lambda p, f, i, e, D: f[0].rows(Ite(i[0] < one, u32(0), Ite(i[0] > D.n, D.n - one, i[0] - one))))
        # gather
        wrapd = lambda v, n: Ite(v < lit(0, v.dt), v.astype(np.uint32) + n, v.astype(np.uint32))
        inr = lambda v, n: And(v >= lit(0, v.dt) - n.astype(np.int32), v < n.astype(np.int32))
        add("take(axis=0)", cls, "nm", lambda D: [(D.n,)], lambda x, i: xnp.take(x, i, axis=0), lambda D: (D.m,), lambda p, f, i, e, D, w=wrapd: f[0].rows(w(e[0][i[0]], D.n)),
            extra=lambda D: [((D.m,), np.int32)], pre=lambda ix, D, inr=inr: Forall(D.m, lambda j: inr(ix[j], D.n)), sample=lambda rng, D: (rng.integers(-D.n, D.n, size=(D.m,)),))
        add("take(axis=1)", cls, "nmk", lambda D: [(D.k, D.n)], lambda x, i: xnp.take(x, i, axis=1), lambda D: (D.k, D.m), lambda p, f, i, e, D, w=wrapd: f[0].rows(i[0], w(e[0][i[1]], D.n)),
            extra=lambda D: [((D.m,), np.int32)], pre=lambda ix, D, inr=inr: Forall(D.m, lambda j: inr(ix[j], D.n)), sample=lambda rng, D: (rng.integers(-D.n, D.n, size=(D.m,)),))
        add("take_along_axis(axis=0)", cls, "nm", lambda D: [(D.n,)], lambda x, i: xnp.take_along_axis(x, i, axis=0), lambda D: (D.m,), lambda p, f, i, e, D, w=wrapd: f[0].rows(w(e[0][i[0]], D.n)),
            extra=lambda D: [((D.m,), np.int32)], pre=lambda ix, D, inr=inr: Forall(D.m, lambda j: inr(ix[j], D.n)), sample=lambda rng, D: (rng.integers(-D.n, D.n, size=(D.m,)),))
        # repetition and rotation along the batch
        add("repeat(2,axis=0)", cls, "n", lambda D: [(D.n,)], lambda x: xnp.repeat(x, 2, axis=0), lambda D: (D.n + D.n,), lambda p, f, i, e, D: f[0].rows(i[0] >> one))
        add("roll(1,axis=0)", cls, "n", lambda D: [(D.n,)], lambda x: xnp.roll(x, 1, axis=0), lambda D: (D.n,), lambda p, f, i, e, D: f[0].rows(Ite(i[0] == u32(0), D.n - one, i[0] - one)))
        add("roll(-1,axis=0)", cls, "n", lambda D: [(D.n,)], lambda x: x.roll(-1, axis=0), lambda D: (D.n,), lambda p, f, i, e, D: f[0].rows(Ite(i[0] == D.n - one, u32(0), i[0] + one)))
        add("flip(axis=0)", cls, "n", lambda D: [(D.n,)], lambda x: xnp.flip(x, axis=0), lambda D: (D.n,), lambda p, f, i, e, D: f[0].rows(D.n - one - i[0]))
        add("flip(axis=1)", cls, "nm", lambda D: [(D.n, D.m)], lambda x: x.flip(axis=1), lambda D: (D.n, D.m), lambda p, f, i, e, D: f[0].rows(i[0], D.m - one - i[1]))
        for k in (1, 2, 3):
            src = {1: lambda i, D: (i[1], D.m - one - i[0]), 2: lambda i, D: (D.n - one - i[0], D.m - one - i[1]), 3: lambda i, D: (D.n - one - i[1], i[0])}[k]
            add(f"rot90({k})", cls, "nm", lambda D: [(D.n, D.m)], lambda x, k=k: xnp.rot90(x, k), lambda D, k=k: (D.n, D.m) if k == 2 else (D.m, D.n), lambda p, f, i, e, D, src=src: f[0].rows(*src(i, D)))
        add("split([1])", cls, "n", lambda D: [(D.n,)], lambda x: xnp.split(x, [1]), lambda D: [(one,), (D.n - one,)], lambda p, f, i, e, D, j: f[0].rows(i[0] + u32(j)), dimcons=("n>=2",))
        for nm, c in (("zeros_like", 0), ("ones_like", 1), ("full_like", 5)):
            add(nm, cls, "nm", lambda D: [(D.n, D.m)], (lambda x, nm=nm: getattr(xnp, nm)(x)) if nm != "full_like" else (lambda x: xnp.full_like(x, 5)), lambda D: (D.n, D.m),
                lambda p, f, i, e, D, c=c, dflt=dflt: frow(np.full(dflt[p].shape, np.asarray(c).astype(dflt[p].dtype))))
    for cls in (Flat,):
        add("tile(2)", cls, "n", lambda D: [(D.n,)], lambda x: xnp.tile(x, 2), lambda D: (D.n + D.n,), lambda p, f, i, e, D: f[0].rows(Ite(i[0] < D.n, i[0], i[0] - D.n)))
        add("vstack", cls, "n", lambda D: [(D.n,), (D.n,)], lambda x, y: xnp.vstack([x, y]), lambda D: (2, D.n), lambda p, f, i, e, D: ite_row(i[0] == u32(0), f[0].rows(i[1]), f[1].rows(i[1])))
        add("hstack", cls, "nm", lambda D: [(D.n,), (D.m,)], lambda x, y: xnp.hstack([x, y]), lambda D: (D.n + D.m,), lambda p, f, i, e, D: ite_row(i[0] < D.n, f[0].rows(i[0]), f[1].rows(i[0] - D.n)))
        add("broadcast_to", cls, "nm", lambda D: [(D.n,)], lambda x, t: xnp.broadcast_to(x, (t.shape[0], x.shape.batch[0])), lambda D: (D.m, D.n), lambda p, f, i, e, D: f[0].rows(i[1]),
            extra=lambda D: [((D.m,), np.uint8)])
        for ax in (0, 1):
            add(f"take_along_axis(axis={ax})", cls, "nmk", lambda D, ax=ax: [(D.n, D.k) if ax == 0 else (D.k, D.n)], lambda x, i, ax=ax: xnp.take_along_axis(x, i, axis=ax), lambda D, ax=ax: (D.m, D.k) if ax == 0 else (D.k, D.m),
                (lambda p, f, i, e, D: (e[0][i] < D.n, f[0].rows(e[0][i].astype(np.uint32), i[1]))) if ax == 0 else (lambda p, f, i, e, D: (e[0][i] < D.n, f[0].rows(i[0], e[0][i].astype(np.uint32)))),
                extra=lambda D, ax=ax: [((D.m, D.k) if ax == 0 else (D.k, D.m), np.uint32)], sample=lambda rng, D, ax=ax: (rng.integers(0, D.n, size=(D.m, D.k) if ax == 0 else (D.k, D.m)),))
    return out


def regroup_cases(tier):
    """flatten / reshape: entry (i, j) of the batch keeps its row-major position, for every batch size"""
    out = []
    for cls in (Mixed, Vec, Mat, Flat) if tier == "thorough" else (Mixed, Vec):
        def add(name, dims, src, dst, fn, at, **kw):
            """at(i, D): position in the result of batch position i of the source"""

            def g(x):
                r = fn(x)
                return dict(out=r, ok=jnp.asarray(type(r) is cls))

            def post(a, r, D):
                obs = [("same class", r["ok"].v)]
                want, got = leaves(a[0]), leaves(r["out"])
                obs.append(("same fields", bv([p for p, _ in want] == [p for p, _ in got])))
                sd, dd = list(src(D)), list(dst(D))
                dm = [d if isinstance(d, V) else u32(d) for d in sd]
                for (p, x), (_, y) in zip(want, got):
                    intr = x.dims[len(sd):]
                    nm = ".".join(map(str, p))
                    if len(y.dims) != len(dd) + len(intr) or x.dtype != y.dtype:
                        obs.append((f"{nm}: shape and dtype", FALSE))
                        continue
                    obs.append((f"{nm}: shape and dtype", And(p_ == q_ for p_, q_ in zip(y.dims, [d if isinstance(d, V) else u32(d) for d in dd] + list(intr)))))
                    obs.append((f"{nm}: entries", Forall(dm, lambda *i, x=x, y=y: y.rows(*at(i, D)).same(x.rows(*i)))))
                return obs

            out.append(PCase(f"{name}/{cls.__name__}/any size", g, lambda D: (pinst(cls, src(D)),), post, dims, nsample=2, functions=(f"xnp.{name.split('(')[0]}",), **kw))

        add("flatten(n,m)", "nm", lambda D: (D.n, D.m), lambda D: (D.n * D.m,), lambda x: xnp.flatten(x), lambda i, D: (i[0] * D.m + i[1],))
        add("flatten(n)", "n", lambda D: (D.n,), lambda D: (D.n,), lambda x: x.flatten(), lambda i, D: (i[0],))
        add("flatten(n,3)", "n", lambda D: (D.n, 3), lambda D: (D.n * u32(3) if isinstance(D.n, V) else D.n * 3,), lambda x: x.flatten(), lambda i, D: (i[0] * u32(3) + i[1],))
        add("flatten(2,n)", "n", lambda D: (2, D.n), lambda D: (D.n + D.n,), lambda x: xnp.flatten(x), lambda i, D: (i[0] * D.n + i[1],))
        add("reshape(n,6->n,2,3)", "n", lambda D: (D.n, 6), lambda D: (D.n, 2, 3), lambda x: xnp.reshape(x, (x.shape.batch[0], 2, 3)), lambda i, D: (i[0], udivc(i[1], 3), i[1] - udivc(i[1], 3) * u32(3)))
        add("reshape(n,2,3->n,6)", "n", lambda D: (D.n, 2, 3), lambda D: (D.n, 6), lambda x: x.reshape((x.shape.batch[0], 6)), lambda i, D: (i[0], i[1] * u32(3) + i[2]))
        add("reshape(n,m->n*m)", "nm", lambda D: (D.n, D.m), lambda D: (D.n * D.m,), lambda x: x.reshape((x.shape.batch[0] * x.shape.batch[1],)), lambda i, D: (i[0] * D.m + i[1],))
        add("reshape(n,m,-1)", "nm", lambda D: (D.n, D.m), lambda D: (D.n * D.m,), lambda x: xnp.reshape(x, (-1,)), lambda i, D: (i[0] * D.m + i[1],))
        add("reshape(n,m->n,1,m)", "nm", lambda D: (D.n, D.m), lambda D: (D.n, 1, D.m), lambda x: xnp.reshape(x, (x.shape.batch[0], 1, x.shape.batch[1])), lambda i, D: (i[0], u32(0), i[1]))
        add("reshape(n,4->-1,2)", "n", lambda D: (D.n, 4), lambda D: (D.n + D.n, 2), lambda x: xnp.reshape(x, (-1, 2)), lambda i, D: (i[0] * u32(2) + (i[1] >> u32(1)), i[1] & u32(1)))
    return out


def udivc(v, c):
    """quotient of a small constant-bounded index"""
    r = u32(0)
    for k in range(1, 8):
        r = Ite(v >= u32(k * c), u32(k), r)
    return r
