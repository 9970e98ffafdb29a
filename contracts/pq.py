"""BGPQ contracts: arbitrary heap states and their invariant.

State with h = heap_size, b = batch_size, R = branch_size (finite keys or +inf, never NaN or -inf):
  every row and the buffer ascending;  rows above h all +inf;  h > 0: rows 0..h all finite;
  parent's last key <= child's first key for every node 1..h;  root's last key <= buffer's first key;  buffer_size = finite keys in the buffer.
Values carry a ghost tag (one concrete field naming the slot of origin) and arbitrary further fields; the tag is only ever moved.
"""
from .palstub import wrap  # noqa: F401
from .common import *
from xtructure import BGPQ


@xtructure_dataclass
class Tag:
    """ghost tag, one word, nested vector"""

    t: F.scalar(dtype=jnp.uint8)
    p: F.scalar(dtype=jnp.uint16)
    n: F.scalar(dtype=Inner)


@xtructure_dataclass
class TagS:
    """ghost tag and one word"""

    t: F.scalar(dtype=jnp.uint8)
    p: F.scalar(dtype=jnp.uint16)


FQ_I = ("xtructure/bgpq/bgpq.py:BGPQ.insert", "xtructure/bgpq/_insert.py:_bgpq_insert_jit", "xtructure/bgpq/_insert.py:_bgpq_merge_buffer_jit",
        "xtructure/bgpq/_insert.py:_bgpq_insert_heapify_internal", "xtructure/bgpq/_merge.py:merge_sort_split", "xtructure/bgpq/_merge.py:_gather_sorted_values",
        "xtructure/bgpq/_utils.py:sort_arrays", "xtructure/bgpq/_utils.py:_scatter_update_rows", "xtructure/bgpq/bgpq.py:BGPQ.size")
FQ_D = ("xtructure/bgpq/bgpq.py:BGPQ.delete_mins", "xtructure/bgpq/_delete.py:_bgpq_delete_mins_jit", "xtructure/bgpq/_delete.py:_bgpq_delete_heapify_internal",
        "xtructure/bgpq/_merge.py:merge_sort_split", "xtructure/bgpq/_merge.py:_gather_sorted_values", "xtructure/bgpq/_utils.py:_scatter_update_rows",
        "xtructure/bgpq/bgpq.py:BGPQ.size")


def tagged(vals, start):
    """vals with concrete tags start, start+1, ... in flat order"""
    n = int(np.prod(vals.t.shape))
    return vals.replace(t=jnp.asarray((np.arange(n) + start).astype(np.uint8).reshape(vals.t.shape)))


def mk_heap(R, b, h, keys, vals, bk, bv, cls):
    """heap with the live rows 0..h given; dead rows +inf with arbitrary (given) values"""
    q = BGPQ.build(R * b, b, cls, keys.dtype)
    assert q.key_store.shape == (R, b)
    ks = jnp.concatenate([keys, jnp.full((R - h - 1, b), jnp.inf, keys.dtype)], axis=0)
    return q.replace(key_store=ks, val_store=vals, key_buffer=bk, val_buffer=bv, heap_size=jnp.asarray(h, jnp.asarray(q.heap_size).dtype),
                     buffer_size=jnp.sum(jnp.isfinite(bk)).astype(jnp.asarray(q.buffer_size).dtype))


def reps(q):
    """representation and observables"""
    return dict(ks=q.key_store, vs=q.val_store, kb=q.key_buffer, vb=q.val_buffer, hs=jnp.asarray(q.heap_size).astype(jnp.uint32), bs=jnp.asarray(q.buffer_size).astype(jnp.uint32), size=jnp.asarray(q.size).astype(jnp.uint32))


def st_args(R, b, h, cls, dt):
    return (S((h + 1, b), dt), inst(cls, (R, b)), S((b - 1,), dt), inst(cls, (b - 1,)))


def usable(v):
    return And(Not(v.isnan()), Or(v.isfinite(), v.isposinf()))


def asc(vs):
    return And(vs[i] <= vs[i + 1] for i in range(len(vs) - 1))


def nfin(vs):
    return Count([v.isfinite() for v in vs], np.uint32)


def pre_state(R, b, h, keys, bk):
    rows = [keys[i].flat() if keys.shape else [] for i in range(h + 1)]
    buf = bk.flat()
    c = [usable(v) for r in rows for v in r] + [usable(v) for v in buf]
    c += [asc(r) for r in rows] + [asc(buf)]
    if h > 0:
        c += [rows[i][-1].isfinite() for i in range(h + 1)]
        c += [rows[(i - 1) // 2][-1] <= rows[i][0] for i in range(1, h + 1)]
    if buf:
        c.append(rows[0][-1] <= buf[0])
    return And(c)


def inv(R, b, s):
    """the invariant of a resulting representation, heap size symbolic"""
    rows = [s.ks[i].flat() for i in range(R)]
    buf = s.kb.flat()
    hs = s.hs.v
    live = lambda i: u32(i) <= hs
    out = [("keys are never NaN or -inf", And([usable(v) for r in rows for v in r] + [usable(v) for v in buf])),
           ("rows ascending", And(asc(r) for r in rows)), ("buffer ascending", asc(buf)),
           ("heap size in range", hs < u32(R)),
           ("rows above the heap are empty", And(Implies(Not(live(i)), And(v.isposinf() for v in rows[i])) for i in range(1, R))),
           ("live rows are full", And(Implies(And(live(i), hs > u32(0)), rows[i][-1].isfinite()) for i in range(R))),
           ("root before buffer", rows[0][-1] <= buf[0] if buf else TRUE),
           ("buffer size", s.bs.v == nfin(buf))]
    for i in range(1, R):
        out.append((f"node {i}: parent's keys come first", Implies(live(i), rows[(i - 1) // 2][-1] <= rows[i][0])))
    return out


def slots(s):
    """(key, value) of every slot of a representation"""
    R, b = s.ks.shape
    out = [(s.ks[i][j], row(row(s.vs, i), j)) for i in range(R) for j in range(b)]
    return out + [(s.kb[j], row(s.vb, j)) for j in range(s.kb.shape[0])]


def all_keys(s):
    return [v for v in s.ks.flat()] + [v for v in s.kb.flat()]


def payload(v):
    return [(p, l) for p, l in leaves(v) if p != ("t",)]


def concrete(v):
    from jxv.term import isT

    return not isT(v.e)


def kept_keys(src, out):
    """the finite keys of out are exactly those of src, with multiplicity.

    src: [(tag, key)], out: [(key, tag)].  Proved through a witness: the ghost tags of the finite-key slots of out name each
    finite-key entry of src exactly once, and the key there is that entry's key.  On concrete results the multisets themselves are compared."""
    if all(concrete(k) for k, _ in out):
        fin = lambda vs: sorted(v.e for v in vs if v.isfinite().e is True)
        return [("the stored keys are kept", bv(fin([k for _, k in src]) == fin([k for k, _ in out])))]
    obs = []
    for t, k in src:
        hit = [And(ok.isfinite(), ot == lit(t, np.uint8)) for ok, ot in out]
        obs.append((f"the stored keys are kept: entry {t}", And([Iff(k.isfinite(), exactly1(hit)), Implies(Not(k.isfinite()), Not(Or(hit)))])))
        obs.append((f"the stored keys are kept: key of entry {t}", And(Implies(h_, ok.same(k)) for h_, (ok, _) in zip(hit, out))))
    obs.append(("the stored keys are kept: no others", And(Implies(ok.isfinite(), Or(ot == lit(t, np.uint8) for t, _ in src)) for ok, ot in out)))
    return obs


def exactly1(cs):
    return And([Or(cs)] + [Not(And(cs[i], cs[j])) for i in range(len(cs)) for j in range(i)])


def kept_entries(src, out):
    """the finite-key entries of out are exactly those of src, every entry with its own key and value.

    src: [(tag, key, value)], out: [(key, value)].  Tags are concrete and distinct on both proof and concrete runs."""
    obs = []
    for t, k, v in src:
        hit = [And(ok.isfinite(), ov.t.v == lit(t, np.uint8)) for ok, ov in out]
        obs.append((f"entry {t}: stored exactly once iff its key is finite", And(Iff(k.isfinite(), exactly1(hit)), Implies(Not(k.isfinite()), Not(Or(hit))))))
        obs.append((f"entry {t}: keeps its key", And(Implies(h_, ok.same(k)) for h_, (ok, _) in zip(hit, out))))
        obs.append((f"entry {t}: keeps its value", And(Implies(h_, And(x.same(y) for (_, x), (_, y) in zip(payload(ov), payload(v)))) for h_, (_, ov) in zip(hit, out))))
    obs.append(("only given entries are stored", And(Implies(ok.isfinite(), Or(ov.t.v == lit(t, np.uint8) for t, _, _ in src)) for ok, ov in out)))
    return obs


# ------------------------------------------------------------------ samples
def rand_keys(rng, n, dt, full=False, hi=6):
    k = rng.integers(0, hi, size=n).astype(np.float64)
    if rng.random() < 0.3:
        k = rng.choice([-3.5, -0.0, 0.0, 1.0, float(jnp.finfo(dt).max), float(jnp.finfo(dt).min)], size=n)
    if not full:
        k[rng.random(n) < rng.choice([0.0, 0.3, 0.8])] = np.inf
    return k.astype(dt)


def rand_state(rng, R, b, h, cls, dt, room=0):
    """a random state satisfying the invariant"""
    n = (h + 1) * b
    k = np.sort(rand_keys(rng, n + b - 1, np.float64, full=(h > 0)))
    keys = np.zeros((h + 1, b))
    if h == 0:
        keys[0] = k[:b]
        rest = k[b:]
    else:
        m = int(rng.integers(0, min(b - 1, R * b - n) + 1))
        fin = k[: n + m]
        keys[0] = fin[:b]
        pool = list(rng.permutation(fin[b:]))
        rest = np.array(sorted(pool[n - b:]) + [np.inf] * (b - 1 - m))
        body = sorted(pool[: n - b])
        order = [i for i in range(1, h + 1)]
        # topological random order
        avail, seq = [1, 2], []
        avail = [i for i in (1, 2) if i <= h]
        while avail:
            i = avail.pop(int(rng.integers(0, len(avail))))
            seq.append(i)
            avail += [c for c in (2 * i + 1, 2 * i + 2) if c <= h]
        for j, i in enumerate(seq):
            keys[i] = body[j * b:(j + 1) * b]
    vals, bvv = rand_tree(rng, inst(cls, (R, b))), rand_tree(rng, inst(cls, (b - 1,)))
    return keys.astype(dt), vals, np.asarray(rest).astype(dt), bvv


# ------------------------------------------------------------------ the two operations, from an arbitrary state
import ml_dtypes  # noqa: E402

F8 = ml_dtypes.float8_e5m2  # eight-bit keys: more distinct values than entries, and keys are only compared


def setup(R, b, h, cls, dt, backend):
    heap = lambda keys, vals, bk, bvv: mk_heap(R, b, h, keys, tagged(vals, 0), bk, tagged(bvv, R * b), cls)
    go = (lambda f: wrap(f, True, {})) if backend == "kv" else (lambda f: f)

    def src(keys, vals, bk, bvv, k=None, v=None):
        """(tag, key, value) of the given entries"""
        out = [(i, x, row(row(vals, i // b), i % b)) for i, x in enumerate(keys.flat())]
        out += [(R * b + j, x, row(bvv, j)) for j, x in enumerate(bk.flat())]
        if k is not None:
            out += [(R * b + b - 1 + j, x, row(v, j)) for j, x in enumerate(k.flat())]
        return out

    return heap, go, src


def op_name(op, R, b, h, dt, cls, tag):
    return f"{op} {R}x{b} heap {h}{'' if dt == F8 else ' ' + np.dtype(dt).name}{tag}"


def insert_case(R, b, h, post, cls=TagS, dt=F8, env=(), tag="", backend=None):
    """post(src, entries, result)"""
    heap, go, src = setup(R, b, h, cls, dt, backend)

    def fn(keys, vals, bk, bvv, k, v):
        return reps(heap(keys, vals, bk, bvv).insert(k, tagged(v, R * b + b - 1)))

    def pre(keys, vals, bk, bvv, k, v):
        return And([pre_state(R, b, h, keys, bk), nfin(keys.flat()) + nfin(bk.flat()) + nfin(k.flat()) <= u32(R * b)] + [usable(x) for x in k.flat()])

    def sample(rng):
        return rand_state(rng, R, b, h, cls, dt) + (rand_keys(rng, b, dt), rand_tree(rng, inst(cls, (b,))))

    return Case(name=op_name("insert", R, b, h, dt, cls, tag), fn=go(fn), args=st_args(R, b, h, cls, dt) + (S((b,), dt), inst(cls, (b,))),
                post=lambda a, r: post(R, b, src(*a), slots(r), r), pre=pre, sample=sample, nsample=8, functions=FQ_I, env=env)


def delete_case(R, b, h, post, cls=TagS, dt=F8, env=(), tag="", backend=None):
    """post(src, returned entries, remaining entries, result)"""
    heap, go, src = setup(R, b, h, cls, dt, backend)

    def fn(keys, vals, bk, bvv):
        q2, k, v = heap(keys, vals, bk, bvv).delete_mins()
        return dict(q=reps(q2), k=k, v=v)

    def pre(keys, vals, bk, bvv):
        return pre_state(R, b, h, keys, bk)

    def sample(rng):
        return rand_state(rng, R, b, h, cls, dt)

    return Case(name=op_name("delete", R, b, h, dt, cls, tag), fn=go(fn), args=st_args(R, b, h, cls, dt),
                post=lambda a, r: post(R, b, src(*a), [(x, row(r.v, j)) for j, x in enumerate(r.k.flat())], slots(r.q), r), pre=pre, sample=sample, nsample=8,
                functions=FQ_D, env=env)


def histories_case(total, b, script, post, cls=TagS, dt=F8, env=(), tag="", mode="proof", backend=None, nsample=6):
    """a history from build: script of I (insert), P (insert of a shorter batch through make_batched) and D (delete_mins)"""
    nI = sum(c in "IP" for c in script)
    lens = [max(1, b - 1) if c == "P" else b for c in script if c in "IP"]
    go = (lambda f: wrap(f, True, {})) if backend == "kv" else (lambda f: f)

    def fn(*kv):
        q = BGPQ.build(total, b, cls, dt)
        out, n, t = [dict(size=jnp.asarray(q.size).astype(jnp.uint32))], 0, 0
        for c in script:
            if c == "D":
                q, k, v = q.delete_mins()
                out.append(dict(k=k, v=v, size=jnp.asarray(q.size).astype(jnp.uint32)))
            else:
                k, v = kv[2 * n], tagged(kv[2 * n + 1], t)
                t += lens[n]
                n += 1
                if c == "P":
                    k, v = BGPQ.make_batched(k, v, b) if n % 2 else q.make_batched_like(k, v)
                q = q.insert(k, v)
                out.append(dict(size=jnp.asarray(q.size).astype(jnp.uint32)))
        return out

    args = sum(((S((m,), dt), inst(cls, (m,))) for m in lens), ())

    def pre(*kv):
        c = [usable(x) for k in kv[::2] for x in k.flat()]
        # room at every insertion: at most the capacity inserted so far (deletions only make room)
        c.append(Count([x.isfinite() for k in kv[::2] for x in k.flat()], np.uint32) <= u32(-(-total // b) * b))
        return And(c)

    def sample(rng):
        return sum(((rand_keys(rng, m, dt), rand_tree(rng, inst(cls, (m,)))) for m in lens), ())

    return Case(name=f"history {script} capacity {total} batch {b}{tag}", fn=go(fn), args=args, post=lambda a, r: post(b, script, a, r), pre=pre, sample=sample, nsample=nsample,
                functions=FQ_I + FQ_D + FQ_B, env=env, mode=mode, jit=(mode == "bounded"), bound=f"{nsample} random histories {script}" if mode == "bounded" else "")


FQ_B = ("xtructure/bgpq/bgpq.py:_bgpq_build_jit", "xtructure/bgpq/_insert.py:_bgpq_make_batched_jit", "xtructure/bgpq/_insert.py:_bgpq_make_batched_like_jit")

SHAPES = dict(quick=[(1, 2), (2, 2), (3, 2), (4, 2), (7, 2), (7, 1), (1, 3), (2, 3), (3, 3)],
              thorough=[(1, 1), (2, 1), (3, 1), (15, 1), (5, 2), (6, 2), (8, 2), (15, 2), (4, 3), (5, 3), (7, 3), (1, 4), (2, 4), (3, 4)])


def shapes(tier):
    return SHAPES["quick"] + (SHAPES["thorough"] if tier == "thorough" else [])


MERGE = "XTRUCTURE_BGPQ_MERGE_BACKEND"
VARIANTS = [((("XTRUCTURE_BGPQ_VALUE_REORDER", "concat"),), None, " concat"), ((("XTRUCTURE_BGPQ_SORT_STABLE", "false"),), None, " unstable")]
KERNELS = [(((MERGE, "parallel"),), None, " parallel"), ((("XTRUCTURE_BGPQ_MERGE_VALUE_BACKEND", "on"),), "kv", " kv kernel")]  # C21 proves these equal the stable merge


# ------------------------------------------------------------------ large histories against a model
def model_history(R, b, n_ops, cls=TagS, dt=np.float32, env=(), tag="", nsample=2, grow=0.6, keys="few", backend=None, prefill=0):
    """bounded: n_ops random operations on a large queue against a sorted multiset; prefill: number of live rows to start from (keys 0, 1, 2, ... in rows)"""
    cap = R * b
    k0 = np.arange(prefill * b, dtype=np.float64).reshape(prefill, b)
    p0, t0 = (k0 * 7 % 65521).astype(np.uint16), (k0 % 241).astype(np.uint8)
    assert prefill == 0 or np.array_equal(k0.astype(dt).astype(np.float64), k0)

    def fn(op, k, p):
        q = BGPQ.build(cap, b, cls, dt)
        if prefill:
            pad = lambda l: jnp.concatenate([jnp.asarray(l), jnp.zeros((R - prefill, b), l.dtype)])
            q = mk_heap(R, b, prefill - 1, jnp.asarray(k0.astype(dt)), cls.default((R, b)).replace(p=pad(p0), t=pad(t0)), q.key_buffer, q.val_buffer, cls)
        ids = jnp.arange(n_ops * b, dtype=jnp.uint32).reshape(n_ops, b)

        def step(q, s):
            o, kk, pp, i = s
            v = cls.default((b,)).replace(p=pp, t=(i % 251).astype(jnp.uint8))
            qi = q.insert(kk, v)
            qd, dk, dv = q.delete_mins()
            q2 = jax.tree_util.tree_map(lambda x, y: jnp.where(o, x, y), qi, qd)
            return q2, dict(k=dk, p=dv.p, t=dv.t, size=jnp.asarray(q2.size, jnp.uint32))

        q, out = jax.lax.scan(step, q, (op, k, p, ids))
        return dict(out, left=jnp.concatenate([q.key_store.reshape(-1), q.key_buffer]))

    def sample(rng):
        op = np.zeros(n_ops, bool)
        k = np.full((n_ops, b), np.inf)
        p = rng.integers(0, 65536, size=(n_ops, b)).astype(np.uint16)
        stored = prefill * b
        for i in range(n_ops):
            m = int(rng.integers(0, b + 1)) if rng.random() < 0.4 else b
            phase = grow if (i // max(1, n_ops // 4)) % 2 == 0 else 1 - grow
            if rng.random() < phase and stored + m <= cap:
                op[i] = True
                kk = {"few": rng.integers(-2, 5, size=b).astype(float), "many": rng.normal(size=b) * 100, "desc": -float(i) - rng.random(b), "asc": float(i) + rng.random(b), "mid": rng.integers(-50, 2 * prefill * b + 1, size=b).astype(float)}[keys]
                kk[rng.permutation(b)[m:]] = np.inf
                k[i] = kk
                stored += m
            else:
                stored = max(0, stored - b)
        return op, k.astype(dt), p

    def post(a, r):
        import bisect

        op, k, p = a[0].s.np, a[1].s.np.astype(np.float64), a[2].s.np
        rk, rp, rt, rs = r.k.s.np.astype(np.float64), r.p.s.np, r.t.s.np, r["size"].s.np
        keysl, ents = k0.reshape(-1).tolist(), {}
        for e in zip(keysl, p0.reshape(-1).tolist(), t0.reshape(-1).tolist()):
            ents[e[0]] = [e[1:]]
        ok_k = ok_v = ok_s = True
        for i in range(n_ops):
            if op[i]:
                for j in range(b):
                    if np.isfinite(k[i, j]):
                        bisect.insort(keysl, k[i, j])
                        ents.setdefault(k[i, j], []).append((int(p[i, j]), (i * b + j) % 251))
            else:
                want = keysl[:b]
                ok_k &= list(rk[i, :len(want)]) == want and bool(np.all(np.isposinf(rk[i, len(want):])))
                for j in range(len(want)):
                    e = (int(rp[i, j]), int(rt[i, j]))
                    l = ents.get(rk[i, j], [])
                    if e in l:
                        l.remove(e)
                    else:
                        ok_v = False
                keysl = keysl[b:]
            ok_s &= int(rs[i]) == len(keysl)
        left = r.left.s.np.astype(np.float64)
        ok_s &= bool(np.array_equal(np.sort(left[np.isfinite(left)]), np.array(keysl)))
        return [("K: the smallest keys are returned in order, padded with +inf", bv(ok_k)), ("V: every returned value was stored with its key and not yet returned", bv(ok_v)),
                ("V: size counts the finite keys and the rest is still stored", bv(ok_s))]

    if backend == "kv":
        fn = wrap(fn, True, {})
    return Case(name=f"bounded {R}x{b} {n_ops} operations keys {keys} {np.dtype(dt).name}{f' from {prefill} rows' if prefill else ''}{tag}", fn=fn, args=(S((n_ops,), bool), S((n_ops, b), dt), S((n_ops, b), np.uint16)), post=post, sample=sample,
                nsample=nsample, mode="bounded", bound=f"{nsample} random histories of {n_ops} operations", functions=FQ_I + FQ_D, env=env, jit=True)


BIG = [(64, 16, 160, "few", np.float32), (33, 7, 150, "many", np.float16), (100, 3, 400, "many", np.float32), (255, 1, 600, "many", np.float32), (37, 8, 160, "desc", np.float32),
       (37, 8, 160, "asc", np.float32), (9, 64, 60, "few", ml_dtypes.bfloat16), (1, 5, 40, "few", np.float16), (2, 300, 20, "many", np.float32)]


def big_cases(prefix):
    out, cs = [], []
    for R, b, n, ks, dt in BIG:
        cs.append(model_history(R, b, n, dt=dt, keys=ks))
    for R, pre in ((70000, 69980), (40000, 32700)):
        cs.append(model_history(R, 2, 100, keys="mid", prefill=pre, nsample=1, grow=0.8))
    for env, be, tag in KERNELS:
        cs.append(model_history(5, 4, 24, keys="few", env=env, backend=be, tag=tag))
    for env, be, tag in VARIANTS:
        cs.append(model_history(20, 5, 80, keys="few", env=env, backend=be, tag=tag))
    for c in cs:
        post = c.post
        c.post = lambda a, r, post=post: [(l[3:], v) for l, v in post(a, r) if l.startswith(prefix)]
        out.append(c)
    return out
