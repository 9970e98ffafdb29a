"""C15 update_on_condition: the first true write wins, nothing else changes.

Postcondition per field and entry j:
    result[j] = values[i] for the least i with condition[i] and indices[i] == j,   data[j] if there is none.
"""
import math

from .common import *
from .sized import *
import xtructure.numpy as xnp


def hit(cond, idx, i, j):
    """does update i address the (tuple) position j?"""
    return And(cond[i], *[ix[i].eqint(jj) for ix, jj in zip(idx, j)])


def expect(fieldA, vals, cond, idx, bshape, m):
    """obligations for one field; vals(i) -> list of element V of update i"""
    obs = []
    for j in np.ndindex(*bshape):
        old = fieldA.map(lambda el: np.asarray(el[j], dtype=object)).flat()
        exp = list(old)
        for i in reversed(range(m)):
            h = hit(cond, idx, i, j)
            exp = [Ite(h, v, e) for v, e in zip(vals(i), exp)]
        obs.append((j, exp))
    return obs


def post_for(bshape, m, kind, const=None):
    nb = len(bshape)

    def post(a, r):
        d, idx, cond = a[0], a[1], a[2]
        idx = [idx] if isinstance(idx, A) else [x for x in idx]
        ld, lr = dict(leaves(d)), dict(leaves(r))
        lv = dict(leaves(a[3])) if kind == "inst" else None
        obs = [("same fields, shapes, dtypes", bv(list(ld) == list(lr) and all(ld[k].shape == lr[k].shape and ld[k].dtype == lr[k].dtype for k in ld)))]
        if not obs[0][1].e:
            return obs
        for p in ld:
            if kind == "inst":
                def vals(i, p=p):
                    return lv[p].map(lambda el: np.asarray(el[i], dtype=object)).flat()
            else:
                n = math.prod(ld[p].shape[nb:])

                def vals(i, p=p, n=n):
                    s = const_val(const, ld[p].dtype) if kind == "const" else a[3].v
                    return [s] * n
            for j, exp in expect(ld[p], vals, cond, idx, bshape, m):
                got = lr[p].map(lambda el: np.asarray(el[j], dtype=object)).flat()
                big = math.prod(bshape) > 40
                obs.append((f"entries {np.ravel_multi_index(j, bshape) // 16 * 16}.." if big else f"entry {j}", And(g.same(e) for g, e in zip(got, exp))))
        return obs

    return post



def sampler(data, idxs, m, vals, bshape):
    def s(rng):
        def ri(ix, n):
            info = np.iinfo(ix.dtype)
            x = rng.integers(max(info.min, -2), min(info.max, n + 2) + 1, size=ix.shape)
            x = np.where(rng.random(ix.shape) < 0.1, [info.min, info.max][rng.integers(0, 2)], x)
            return x.astype(ix.dtype)

        if isinstance(idxs, tuple):
            i = tuple(ri(ix, n) for ix, n in zip(idxs, bshape))
        else:
            i = ri(idxs, bshape[0])
        out = (rand_tree(rng, data), i, rng.random((m,)) < 0.7)
        return out if vals is None else out + (rand_tree(rng, vals),)

    return s


def upd_cases(data, bshape, idx_dt, m, kind, tag, const=None, via="xnp", **kw):
    idxs = tuple(S((m,), dt) for dt in idx_dt) if isinstance(idx_dt, tuple) else S((m,), idx_dt)
    cond = S((m,), bool)
    if via == "xnp":
        f = xnp.update_on_condition
    else:
        def f(d, i, c, v):
            return d.at[i].set_as_condition(c, v)
    if kind == "inst":
        vals = jax.tree_util.tree_map(lambda l: S((m,) + l.shape[len(bshape):], l.dtype), data)
        args, fn = (data, idxs, cond, vals), f
    elif kind == "const":
        vals = None
        args, fn = (data, idxs, cond), (lambda d, i, c: f(d, i, c, const))
    else:
        vals = S((), jax.tree_util.tree_leaves(data)[0].dtype)
        args, fn = (data, idxs, cond, vals), f
    return Case(f"{via}/{tag}/m={m}/{kind}", fn, args, post=post_for(bshape, m, kind, const),
                functions=("xnp.update_on_condition" if via == "xnp" else "instance.at[].set_as_condition",),
                sample=sampler(data, idxs, m, vals, bshape), **kw)


def in_range(v, n):
    """the index value v, read in its own integer type, is a position below n (V uint32)"""
    if np.dtype(v.dt).kind == "i":
        w = v.astype(np.int32)
        return And(w >= 0, w.astype(np.uint32) < n)
    return v.astype(np.uint32) < n


def pos(v):
    return v.astype(np.int32).astype(np.uint32) if np.dtype(v.dt).kind == "i" else v.astype(np.uint32)


def sized(data, idt, kind, tag, via="xnp", field=None):
    """the same contract for every array length n and every number of updates m"""
    if via == "xnp":
        f = xnp.update_on_condition
    else:
        def f(d, i, c, v):
            return d.at[i].set_as_condition(c, v)

    def args(D):
        d = data(D.n)
        a = (d, PS((D.m,), idt), PS((D.m,), bool))
        if kind == "inst":
            return a + (jax.tree_util.tree_map(lambda l: PS((D.m,) + tuple(l.shape[1:]), l.dtype), d),)
        return a + (S((), jax.tree_util.tree_leaves(d)[0].dtype),)

    def post(a, r, D):
        d, idx, cond, vals = a
        ld, lr = leaves(d), leaves(r)
        obs = [("same fields, lengths, dtypes", And([bv([p for p, _ in ld] == [p for p, _ in lr])] + [bv(x.dtype == y.dtype and len(x.shape) == len(y.shape)) for (_, x), (_, y) in zip(ld, lr)]
                                                    + [p == q for (_, x), (_, y) in zip(ld, lr) for p, q in zip(x.dims, y.dims)]))]

        def entry(o, written, p):
            j = First(D.m, lambda i: And(cond[i], in_range(idx[i], D.n), pos(idx[i]) == o))
            jj = Ite(j < D.m, j, u32(0))
            got, old = dict(leaves(prow(r, o)))[p], dict(leaves(prow(d, o)))[p]
            want = old if not written else dict(leaves(prow(vals, jj)))[p] if kind == "inst" else vals.v
            return Implies(j < D.m if written else j >= D.m, got.same(want))

        for p, _ in lr:
            if field is not None and p != field:
                continue
            obs += [(f"an entry written to holds the value of the first true write {p}", Forall(D.n, lambda o, p=p: entry(o, True, p))),
                    (f"an entry no true write names is unchanged {p}", Forall(D.n, lambda o, p=p: entry(o, False, p)))]
        return obs

    def smp(rng, D):
        a = args(D)
        info = np.iinfo(idt)
        i = rng.integers(max(info.min, -2), min(info.max, D.n + 2) + 1, size=(D.m,)).astype(idt)
        return (rand_tree(rng, a[0]), i, rng.random((D.m,)) < 0.7, rand_tree(rng, a[3]))

    return PCase(f"{via}/{tag}/any size/{np.dtype(idt)}/{kind}{"" if field is None else "/field " + ".".join(field)}", lambda d, i, c, v: f(d, i, c, v), args, post, ("n", "m"), sample=smp, nsample=6,
                 functions=("xnp.update_on_condition" if via == "xnp" else "instance.at[].set_as_condition",))


# of Mixed
FIELDS = [("a",), ("b",), ("c",), ("d", "p"), ("d", "q")]


@xtructure_dataclass
class Big:
    i: F.scalar(dtype=jnp.int32)
    b: F.tensor(dtype=jnp.uint8, shape=(2,))


def big_case(bshape, idt, m, via="xnp"):
    """bounded: sizes that cross the limits of narrow integers, against a sequential loop"""
    dts = idt if isinstance(idt, tuple) else (idt,)

    def fn(d, idx, c, v):
        i = idx if isinstance(idt, tuple) else idx[0]
        return d.at[i].set_as_condition(c, v) if via == "at" else xnp.update_on_condition(d, i, c, v)

    def post(a, r):
        idx = [x.s.np.astype(np.int64) for x in a[1]]
        c = a[2].s.np
        obs = []
        for f in ("i", "b"):
            want, new = getattr(a[0], f).s.np.copy(), getattr(a[3], f).s.np
            done = set()
            for k in range(m):
                at = tuple(int(x[k]) for x in idx)
                if c[k] and at not in done and all(0 <= p < n for p, n in zip(at, bshape)):
                    done.add(at)
                    want[at] = new[k]
            obs.append((f"field {f}: the first true write wins, nothing else changes", bv(np.array_equal(getattr(r, f).s.np, want))))
        return obs

    def sample(rng):
        def ri(n, dt):
            ii = np.iinfo(dt)
            x = rng.integers(max(ii.min, -3), min(ii.max, n + 3) + 1, size=m)
            edge = rng.choice([n - 1, n - 2, 0, min(ii.max, n), min(ii.max, 32767), min(ii.max, 32768)], size=m)
            return np.clip(np.where(rng.random(m) < 0.3, edge, x), ii.min, ii.max).astype(dt)

        rnd = lambda s: Big(i=rng.integers(-99, 99, size=s).astype(np.int32), b=rng.integers(0, 255, size=s + (2,)).astype(np.uint8))
        return rnd(bshape), tuple(ri(n, dt) for n, dt in zip(bshape, dts)), rng.random(m) < 0.6, rnd((m,))

    return Case(f"bounded {via}/Big{list(bshape)}/{'x'.join(np.dtype(d).name for d in dts)}/m={m}", fn,
                (inst(Big, bshape), tuple(S((m,), d) for d in dts), S((m,), bool), inst(Big, (m,))), post=post, sample=sample, nsample=2, mode="bounded",
                bound=f"data {bshape}, {m} updates, 2 random inputs", functions=("xnp.update_on_condition" if via == "xnp" else "instance.at[].set_as_condition",), jit=True)


def cases(tier):
    out = [sized(lambda n: PS((n,), np.float32), np.int32, "inst", "f32[n]"), sized(lambda n: PS((n, 2), np.int16), np.uint32, "inst", "i16[n,2]"),
           sized(lambda n: PS((n,), np.float32), np.int32, "scalar", "f32[n]"), sized(lambda n: PS((n,), np.int32), np.uint8, "inst", "i32[n]"),
           sized(lambda n: pinst(One, (n,)), np.int32, "scalar", "One[n]", via="at")]
    i32, u32_, u8, i8, u16 = np.int32, np.uint32, np.uint8, np.int8, np.uint16
    T = tier == "thorough"
    # one case per field of the dataclass (each field is updated on its own)
    for via, fs in (("at", FIELDS), ("xnp", FIELDS if T else FIELDS[-1:])):
        out += [sized(lambda n: pinst(Mixed, (n,)), np.int32, "inst", "Mixed[n]", via=via, field=p) for p in fs]
    if T:
        out.append(sized(lambda n: PS((n,), np.int32), np.int16, "inst", "i32[n]"))
    out += [
        upd_cases(inst(Mixed, (3,)), (3,), i32, 4, "inst", "Mixed[3]/i32"),
        upd_cases(inst(Mixed, (2,)), (2,), u32_, 3, "inst", "Mixed[2]/u32"),
        upd_cases(inst(Mixed, (3,)), (3,), i32, 1, "inst", "Mixed[3]/i32"),
        upd_cases(inst(Mixed, (1,)), (1,), i32, 2, "inst", "Mixed[1]/i32"),
        upd_cases(inst(Mixed, (2,)), (2,), i32, 0, "inst", "Mixed[2]/i32"),
        upd_cases(inst(Mat, (3,)), (3,), i32, 3, "inst", "Mat[3]/i32"),
        upd_cases(inst(One, (5,)), (5,), i32, 5, "inst", "One[5]/i32"),
        upd_cases(inst(One, (6,)), (6,), u32_, 4, "scalar", "One[6]/u32"),
        upd_cases(inst(Mixed, (3,)), (3,), i32, 3, "const", "Mixed[3]/i32", const=3),
        upd_cases(inst(Mixed, (3,)), (3,), u8, 3, "inst", "Mixed[3]/u8"),
        upd_cases(inst(Byte, (256,)), (256,), u8, 3, "inst", "Byte[256]/u8"),
        upd_cases(inst(Byte, (130,)), (130,), i8, 2, "inst", "Byte[130]/i8"),
        upd_cases(inst(Mixed, (2, 3)), (2, 3), (i32, i32), 3, "inst", "Mixed[2,3]/(i32,i32)"),
        upd_cases(inst(Mixed, (2, 2)), (2, 2), (i32, u32_), 3, "const", "Mixed[2,2]/(i32,u32)", const=1),
        upd_cases(inst(Byte, (2, 1, 2)), (2, 1, 2), (i32, i32, i32), 3, "inst", "Byte[2,1,2]/(i32)*3"),
        upd_cases(inst(Byte, (16, 17)), (16, 17), (u8, i8), 2, "inst", "Byte[16,17]/(u8,i8)"),
        upd_cases(inst(Mixed, (2, 3)), (2,), i32, 3, "inst", "Mixed[2,3]leading/i32"),
        # raw arrays
        upd_cases(S((4,), np.float32), (4,), i32, 4, "inst", "f32[4]/i32"),
        upd_cases(S((3, 2), np.int16), (3,), i32, 3, "inst", "i16[3,2]/i32"),
    ]
    for via in ("at",):
        out += [
            upd_cases(inst(Mixed, (3,)), (3,), i32, 3, "inst", "Mixed[3]/i32", via=via),
            upd_cases(inst(Mixed, (3,)), (3,), u8, 3, "const", "Mixed[3]/u8", const=3, via=via),
            upd_cases(inst(One, (5,)), (5,), u32_, 4, "scalar", "One[5]/u32", via=via),
            upd_cases(inst(Mixed, (2, 2)), (2, 2), (i32, i32), 3, "inst", "Mixed[2,2]/(i32,i32)", via=via),
        ]
    if T:
        out += [
            upd_cases(inst(Mixed, (4,)), (4,), i32, 6, "inst", "Mixed[4]/i32"),
            upd_cases(inst(One, (8,)), (8,), u16, 8, "inst", "One[8]/u16"),
            upd_cases(inst(Mat, (2, 3)), (2, 3), (i32, i32), 5, "inst", "Mat[2,3]/(i32,i32)"),
            upd_cases(inst(One, (3, 3, 2)), (3, 3, 2), (i32, i32, i32), 4, "inst", "One[3,3,2]/(i32)*3"),
            upd_cases(inst(Byte, (300,)), (300,), u16, 4, "inst", "Byte[300]/u16"),
        ]
    for via in ("xnp", "at"):
        out += [big_case((40000,), np.int16, 300, via), big_case((70000,), u16, 300, via), big_case((70000,), i32, 66000 if via == "xnp" else 300, via),
                big_case((200, 200), (i32, i32), 300, via), big_case((300, 300), (np.int16, u16), 300, via), big_case((4, 70, 260), (u8, u8, i32), 300, via)]
    # bounded stand-ins: sizes beyond the proof instances, same postcondition on real runs
    for cls, b, dt, m in [(Mixed, (50,), i32, 80), (One, (700,), u16, 900 if T else 300), (Mat, (6, 7), (i32, i32), 60), (Byte, (257,), u8, 300)]:
        out.append(upd_cases(inst(cls, b), b, dt, m, "inst", f"{cls.__name__}{list(b)}", mode="bounded", nsample=3,
                             bound=f"data {b}, {m} updates, 3 random inputs"))
    return out
