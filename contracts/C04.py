"""C04 BGPQ neither loses, duplicates nor re-pairs entries (see pq.py for the state invariant Inv).

insert:       Inv(t), room for the batch  =>  the finite-key entries of t' are those of t and of the batch, each with its own key and value.
delete_mins:  Inv(t)  =>  returned + remaining finite-key entries = stored ones, each with its own key and value.
size:         equals the number of finite keys stored, before and after.
make_batched: the given entries first, +inf keys after.
"""
from .pq import *


@xtructure_dataclass
class Wide:
    """ghost tag, bool, float vector, nested class"""

    t: F.scalar(dtype=jnp.uint8)
    c: F.scalar(dtype=jnp.bool_)
    f: F.tensor(dtype=jnp.float16, shape=(2,))
    n: F.scalar(dtype=Inner)


def finite_count(entries):
    return nfin([k for k, _ in entries])


def ins_post(R, b, src, out, r):
    obs = kept_entries(src, out)
    obs.append(("size counts the finite keys", r["size"].v == finite_count(out)))
    obs.append(("size grows by the batch's finite keys", r["size"].v == nfin([k for _, k, _ in src])))
    return obs


def del_post(R, b, src, ret, rest, r):
    obs = kept_entries(src, ret + rest)
    obs.append(("size counts the finite keys", r.q["size"].v == finite_count(rest)))
    obs.append(("size shrinks by the returned finite keys", r.q["size"].v + finite_count(ret) == nfin([k for _, k, _ in src])))
    return obs


def hist_post(b, script, a, r):
    obs, given, ret, n, tag = [], [], [], 0, 0
    outs = list(r)
    obs.append(("start: empty", outs[0]["size"].v == u32(0)))
    for c, o in zip(script, outs[1:]):
        k_ = len(obs)
        if c != "D":
            k, v = a[2 * n], a[2 * n + 1]
            given += [(tag + j, x, row(v, j)) for j, x in enumerate(k.flat())]
            tag += len(k.flat())
            n += 1
        else:
            new = [(x, row(o.v, j)) for j, x in enumerate(o.k.flat())]
            ret += new
            for j, (rk, rv) in enumerate(new):
                obs.append((f"step {k_}.{j}: a returned entry was inserted", Implies(rk.isfinite(), Or(And([k.isfinite(), rv.t.v == lit(t, np.uint8), rk.same(k)] + [
                    x.same(y) for (_, x), (_, y) in zip(payload(rv), payload(v))]) for t, k, v in given))))
        obs.append((f"step {k_}: size", o["size"].v + nfin([k for k, _ in ret]) == nfin([k for _, k, _ in given])))
    for i in range(len(ret)):
        for j in range(i):
            obs.append(("no entry is returned twice", Not(And(ret[i][0].isfinite(), ret[j][0].isfinite(), ret[i][1].t.v == ret[j][1].t.v))))
    return obs


def batched_case(n, b, like, cls=Wide, dt=np.float16):
    def fn(k, v):
        if like:
            return BGPQ.build(4 * b, b, cls, dt).make_batched_like(k, v)
        return BGPQ.make_batched(k, v, b)

    def post(a, r):
        k, v = a
        rk, rv = r
        ok = rk.shape == (b,) and rk.dtype == np.dtype(dt) and all(x.shape[0] == b for _, x in leaves(rv))
        obs = [("shape", bv(ok))]
        if ok:
            obs += [("the given entries first", And([rk[i].same(k[i]) for i in range(n)] + [same_tree(row(rv, i), row(v, i)) for i in range(n)])),
                    ("then +inf keys", And(rk[i].isposinf() for i in range(n, b)))]
        return obs

    return Case(name=f"make_batched{'_like' if like else ''} {n} of {b}", fn=fn, args=(S((n,), dt), inst(cls, (n,))), post=post, nsample=4, functions=FQ_B)


def empty_case(total, b, dt):
    def fn(k):
        q = BGPQ.build(total, b, Wide, dt)
        q2, dk, dv = q.delete_mins()
        return dict(s=jnp.asarray(q.size), s2=jnp.asarray(q2.size), k=dk, m=jnp.asarray(q.max_size), k0=k)

    def post(a, r):
        return [("a new queue is empty", And(r.s.v.eqint(0), r.s2.v.eqint(0), And(x.isposinf() for x in r.k.flat()))), ("room for the requested number", bv(int(r.m.v.e) >= total)),
                ("batch shape", bv(r.k.shape == (b,) and r.k.dtype == np.dtype(dt)))]

    return Case(name=f"new queue {total} batch {b} {np.dtype(dt).name}", fn=fn, args=(S((), dt),), post=post, nsample=2, functions=FQ_B + FQ_D)


def cases(tier):
    out = []
    for R, b in shapes(tier):
        for h in range(R):
            out += [insert_case(R, b, h, ins_post), delete_case(R, b, h, del_post)]
    for dt, cls in ((np.float16, Wide), (np.float32, Tag), (ml_dtypes.bfloat16, Wide)):
        for h in range(3):
            out += [insert_case(3, 2, h, ins_post, dt=dt, cls=cls, tag=" " + cls.__name__), delete_case(3, 2, h, del_post, dt=dt, cls=cls, tag=" " + cls.__name__)]
    for env, be, tag in VARIANTS:
        for h in range(3):
            out += [insert_case(3, 2, h, ins_post, env=env, backend=be, tag=tag), delete_case(3, 2, h, del_post, env=env, backend=be, tag=tag)]
    for total, b, script in [(6, 2, "IIDID"), (5, 2, "IPIDD"), (4, 1, "IIIDID"), (6, 3, "IIDD"), (2, 2, "IDID")]:
        out.append(histories_case(total, b, script, hist_post))
    out += [batched_case(n, b, like) for n, b in [(0, 2), (1, 3), (3, 3), (2, 5)] for like in (False, True)]
    out += [empty_case(t, b, dt) for t, b, dt in [(1, 1, np.float16), (7, 2, np.float16), (9, 3, np.float32), (10, 4, ml_dtypes.bfloat16), (3, 8, np.float16)]]
    return out + big_cases("V: ")
