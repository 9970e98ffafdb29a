"""C03 BGPQ returns the smallest keys in sorted order (see pq.py for the state invariant Inv).

insert:      Inv(t), room for the batch  =>  Inv(t'), and the finite keys stored are those of t and of the batch.
delete_mins: Inv(t)  =>  Inv(t'), the returned keys ascend, no remaining key is smaller, returned + remaining = stored.
build:       Inv (by the histories, which start there).
histories:   from build, every delete_mins returns the sorted prefix of what is stored, padded with +inf.
"""
from .pq import *


def key_tag(entries):
    return [(k, v.t.v) for k, v in entries]


def ins_post(R, b, src, out, r):
    return inv(R, b, r) + kept_keys([(t, k) for t, k, _ in src], key_tag(out))


def del_post(R, b, src, ret, rest, r):
    ks = [k for k, _ in ret]
    return inv(R, b, r.q) + [("returned keys ascending", asc(ks)), ("no remaining key is smaller", And(ks[-1] <= k for k, _ in rest))] + kept_keys(
        [(t, k) for t, k, _ in src], key_tag(ret + rest))


def hist_post(b, script, a, r):
    """what is still stored is described by the tags returned so far"""
    obs, given, gone, n = [], [], [], 0
    tags = 0
    for c, o in zip(script, list(r)[1:]):
        if c != "D":
            given += [(tags + j, x) for j, x in enumerate(a[2 * n].flat())]
            tags += len(a[2 * n].flat())
            n += 1
            continue
        step = len(obs)
        ks, ts = o.k.flat(), o.v.t.flat()
        if all(concrete(x) for x in ks):
            fin = sorted(float(np_val(x)) for _, x in given if x.isfinite().e is True)
            for p in gone:
                if p in fin:
                    fin.remove(p)
            want = (fin + [float("inf")] * b)[:b]
            obs.append((f"{step}: the smallest keys in order", bv([float(np_val(x)) for x in ks] == want)))
            gone += [x for x in want if x != float("inf")]
            continue
        left = [(t, x, And([x.isfinite()] + [Not(And(gk.isfinite(), gt == lit(t, np.uint8))) for gk, gt in gone])) for t, x in given]
        obs.append((f"{step}: the smallest keys in order", And([asc(ks)] + [
            And(Iff(k.isfinite(), Or(And(l, tg == lit(t, np.uint8)) for t, _, l in left)), And(Implies(And(k.isfinite(), tg == lit(t, np.uint8)), k.same(x)) for t, x, _ in left),
                Or(k.isfinite(), k.isposinf())) for k, tg in zip(ks, ts)] + [
            Not(And(ks[i].isfinite(), ks[j].isfinite(), ts[i] == ts[j])) for i in range(b) for j in range(i)] + [
            Implies(And(l, Not(Or(And(k.isfinite(), tg == lit(t, np.uint8)) for k, tg in zip(ks, ts)))), ks[-1] <= x) for t, x, l in left])))
        gone += list(zip(ks, ts))
    return obs


def np_val(v):
    from jxv import interp as ip

    o = np.empty((), object)
    o[()] = v.e
    return ip.from_raw(o, v.dt)[()]


def cases(tier):
    out = []
    for R, b in shapes(tier):
        for h in range(R):
            out += [insert_case(R, b, h, ins_post), delete_case(R, b, h, del_post)]
    for dt in (np.float16, np.float32, ml_dtypes.bfloat16):
        for h in range(3):
            out += [insert_case(3, 2, h, ins_post, dt=dt), delete_case(3, 2, h, del_post, dt=dt)]
    for env, be, tag in VARIANTS:
        for h in range(3):
            out += [insert_case(3, 2, h, ins_post, env=env, backend=be, tag=tag), delete_case(3, 2, h, del_post, env=env, backend=be, tag=tag)]
    for total, b, script in [(6, 2, "IIDID"), (5, 2, "IPIDD"), (4, 1, "IIIDID"), (6, 3, "IIDD"), (2, 2, "IDID")]:
        out.append(histories_case(total, b, script, hist_post))
    return out + big_cases("K: ")
