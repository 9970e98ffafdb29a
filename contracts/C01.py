"""C01 Queue is an exact FIFO.

Ghost view: seq(q) = [val_store[head + i] for i < tail - head]; representation invariant head <= tail <= max_size.
"""
from .common import *
from .sized import *
from xtructure import Queue


def inv(q, N):
    return And(q.head.v <= q.tail.v, q.tail.v <= u32(N))


def size(q):
    return q.tail.v - q.head.v


def item(q, i, N):
    """i-th oldest item (i: V uint32), meaningful for i < size"""
    j = q.head.v + i
    return row_at(q.val_store, Ite(j < u32(N), j, u32(0)))


def same_seq(q0, off0, q1, off1, n, N):
    """items off0.. of q0 equal items off1.. of q1 for n (V) items"""
    if all(isinstance(x.e, int) for x in (q0.head, q0.tail) for x in (x.v, )) and isinstance(n.e, int):
        a, b = (q0.head.v + off0).e, (q1.head.v + off1).e
        return same_tree(map_tree(q0.val_store, lambda x: x[a: a + n.e]), map_tree(q1.val_store, lambda x: x[b: b + n.e]))
    out = []
    for i in range(N):
        i = u32(i)
        out.append(Implies(i < n, same_tree(item(q0, off0 + i, N), item(q1, off1 + i, N))))
    return And(out)


def op_cases(cls, N, ks, ns, tag="", **kw):
    out = []

    def pre_inv(q, *r):
        return inv(q, N)

    q = sds(jax.eval_shape(lambda: Queue.build(N, cls)))
    T = f"{cls.__name__}/N={N}{tag}"

    out.append(Case(f"build/{T}", lambda N=N, cls=cls: Queue.build(N, cls), (),
                    post=lambda a, r: [("empty", And(r.head.v == 0, r.tail.v == 0))],
                    functions=("Queue.build",), nsample=1))
    out.append(Case(f"size/{T}", lambda q: q.size, (q,), pre=pre_inv,
                    post=lambda a, r: [("size", r.v == size(a[0]))], functions=("Queue.size",)))
    for k in ks:
        items = inst(cls, () if k is None else (k,))
        n = 1 if k is None else k

        def pre(q, it, N=N, n=n):
            return And(inv(q, N), q.tail.v + u32(n) <= u32(N))

        def post(a, r, N=N, n=n, k=k):
            q0, it = a
            obs = [("invariant", inv(r, N)), ("size", size(r) == size(q0) + u32(n)),
                   ("total-enqueued", r.tail.v == q0.tail.v + u32(n)),
                   ("older items unchanged", same_seq(q0, u32(0), r, u32(0), size(q0), N))]
            for j in range(n):
                obs.append((f"new item {j} at the end", same_tree(item(r, size(q0) + u32(j), N), it if k is None else row(it, j))))
            return obs

        out.append(Case(f"enqueue[{k}]/{T}", lambda q, it: q.enqueue(it), (q, items), pre=pre, post=post,
                        functions=("Queue.enqueue",), sample=_sampler(cls, N, k), **kw))
    for n in ns:
        def pre(q, N=N, n=n):
            return And(inv(q, N), u32(n) <= size(q))

        def chk(q0, got, n, N):
            if n == 1:
                return [("oldest item, unbatched", same_tree(item(q0, u32(0), N), got))]
            return [(f"item {j}", same_tree(item(q0, u32(j), N), row(got, j))) for j in range(n)] + [
                ("batch length", And(bv(x.shape[0] == n) for _, x in leaves(got)))]

        def postd(a, r, N=N, n=n, chk=chk):
            q0 = a[0]
            q1, got = r
            return chk(q0, got, n, N) + [("invariant", inv(q1, N)), ("size", size(q1) == size(q0) - u32(n)),
                                         ("total-enqueued", q1.tail.v == q0.tail.v),
                                         ("remaining items unchanged", same_seq(q0, u32(n), q1, u32(0), size(q0) - u32(n), N))]

        def postp(a, r, N=N, n=n, chk=chk):
            return chk(a[0], r, n, N)

        smp = _sampler(cls, N, "q", n)
        out.append(Case(f"dequeue[{n}]/{T}", lambda q, n=n: q.dequeue(n), (q,), pre=pre, post=postd, functions=("Queue.dequeue",), sample=smp, **kw))
        out.append(Case(f"peek[{n}]/{T}", lambda q, n=n: q.peek(n), (q,), pre=pre, post=postp, functions=("Queue.peek",), sample=smp, **kw))
    out.append(Case(f"getitem/{T}", lambda q, i: q[i], (q, S((), jnp.uint32)),
                    pre=lambda q, i, N=N: And(inv(q, N), i.v < size(q)),
                    post=lambda a, r, N=N: [("i-th oldest", same_tree(item(a[0], a[1].v, N), r))], functions=("Queue.__getitem__",),
                    sample=lambda rng, s=_sampler(cls, N, "q", 1): (lambda q: (q, np.uint32(rng.integers(0, int(q.tail) - int(q.head)))))(s(rng)[0]), **kw))
    out.append(Case(f"clear/{T}", lambda q: q.clear(), (q,), pre=pre_inv,
                    post=lambda a, r: [("empty", And(r.head.v == 0, r.tail.v == 0))], functions=("Queue.clear",)))

    return out


def sized(cls):
    """the same contract for every queue length N and every batch size"""
    out = []

    def Q(D, n=0):
        return Queue(max_size=D.N, val_store=pinst(cls, (D.N,)), head=S((), np.uint32), tail=S((), np.uint32))

    def itm(q, i):
        return prow(q.val_store, q.head.v + i)

    def pinv(q, D):
        return And(q.head.v <= q.tail.v, q.tail.v <= D.N)

    def smp(need, room, *extra):
        def s(rng, D):
            q = Q(D)
            lo = need(D)
            tail = int(rng.integers(lo, D.N - room(D) + 1))
            head = int(rng.integers(0, tail - lo + 1))
            q = q.replace(val_store=rand_tree(rng, q.val_store), head=np.uint32(head), tail=np.uint32(tail))
            return (q,) + tuple(rand_tree(rng, e(D)) for e in extra)

        return s

    C = cls.__name__
    # enqueue of a batch / of one entry
    for one in (False, True):
        n = (lambda D: u32(1)) if one else (lambda D: D.k)
        items = (lambda D: pinst(cls)) if one else (lambda D: pinst(cls, (D.k,)))

        def post(a, r, D, n=n, one=one):
            q0, it = a
            m = n(D)
            return [("invariant", pinv(r, D)), ("size", size(r) == size(q0) + m), ("total-enqueued", r.tail.v == q0.tail.v + m),
                    ("store length", lens(r.val_store, D.N)),
                    ("older items unchanged", Forall(D.N, lambda i: Implies(i < size(q0), psame(itm(r, i), itm(q0, i))))),
                    ("new items at the end in order", Forall(m, lambda i: psame(itm(r, size(q0) + i), it if one else prow(it, i))))]

        out.append(PCase(f"enqueue/{C}/any size{'/one' if one else ''}", lambda q, it: q.enqueue(it), lambda D, items=items: (Q(D), items(D)), post,
                         ("N",) if one else ("N", "k"), dimcons=() if one else ("k<=N",), pre=lambda q, it, D, n=n: And(pinv(q, D), q.tail.v + n(D) <= D.N),
                         sample=smp(lambda D: 0, (lambda D: 1) if one else (lambda D: D.k), items), functions=("Queue.enqueue",)))

    def got(q0, r, n):
        """dequeue/peek of one entry returns it unbatched"""
        return [("oldest items in order", psame(itm(q0, u32(0)), r) if n is None else And(lens(r, n), Forall(n, lambda i: psame(itm(q0, i), prow(r, i)))))]

    for name in ("dequeue", "peek"):
        def fn(q, t, name=name):
            return getattr(q, name)(t.shape[0])

        def post(a, r, D, name=name):
            q0 = a[0]
            g = r[1] if name == "dequeue" else r
            one = len(leaves(g)[0][1].shape) == len(leaves(a[0].val_store)[0][1].shape) - 1
            obs = got(q0, g, None if one else D.n) + [("shape", Iff(bv(one), D.n == 1))]
            if name == "dequeue":
                q1 = r[0]
                obs += [("invariant", pinv(q1, D)), ("size", size(q1) == size(q0) - D.n), ("total-enqueued", q1.tail.v == q0.tail.v), ("store length", lens(q1.val_store, D.N)),
                        ("remaining items unchanged", Forall(D.N, lambda i: Implies(i < size(q1), psame(itm(q1, i), itm(q0, D.n + i)))))]
            return obs

        out.append(PCase(f"{name}/{C}/any size", fn, lambda D: (Q(D), tok(D.n)), post, ("N", "n"), dimcons=("n<=N",),
                         pre=lambda q, t, D: And(pinv(q, D), D.n <= size(q)), sample=smp(lambda D: D.n, lambda D: 0, lambda D: tok(D.n)), functions=(f"Queue.{name}",)))
    out.append(PCase(f"getitem/{C}/any size", lambda q, i: q[i], lambda D: (Q(D), S((), np.uint32)),
                     lambda a, r, D: [("i-th oldest", psame(itm(a[0], a[1].v), r))], ("N",), pre=lambda q, i, D: And(pinv(q, D), i.v < size(q)),
                     sample=lambda rng, D, s=smp(lambda D: 1, lambda D: 0): (lambda q: (q, np.uint32(rng.integers(0, int(q.tail) - int(q.head)))))(s(rng, D)[0]), functions=("Queue.__getitem__",)))
    out.append(PCase(f"build, size, clear/{C}/any size", lambda t, q: (lambda b: (b, b.size, q.size, q.clear()))(Queue.build(t.shape[0], cls)), lambda D: (tok(D.N), Q(D)),
                     lambda a, r, D: [("build is empty", And(r[0].head.v == 0, r[0].tail.v == 0, r[1].v == 0, lens(r[0].val_store, D.N))), ("size", r[2].v == size(a[1])),
                                      ("clear", And(r[3].head.v == 0, r[3].tail.v == 0, lens(r[3].val_store, D.N)))], ("N",), pre=lambda t, q, D: pinv(q, D),
                     sample=lambda rng, D, s=smp(lambda D: 0, lambda D: 0): (np.zeros(D.N, np.uint8),) + s(rng, D), functions=("Queue.build", "Queue.size", "Queue.clear")))
    return out


def cases(tier):
    out = [c for cls in (Mixed, Mat) for c in sized(cls)]
    cfg = [(Mixed, 3), (One, 5)]
    if tier == "thorough":
        cfg += [(Mixed, 6), (One, 12), (Mat, 4), (Byte, 1)]
    else:
        cfg += [(Mat, 2), (Byte, 1)]
    for cls, N in cfg:
        out += op_cases(cls, N, [None] + list(range(0, N + 1)), range(0, N + 1))
    # bounded stand-in: large instances, same contracts evaluated on real runs
    for cls, N, kk in [(Mixed, 1000, 257), (One, 70000, 66000), (One, 3000, 1025), (Mat, 200, 130)]:
        n = 3 if N < 5000 or tier == "thorough" else 1
        out += op_cases(cls, N, [None, kk] if N < 5000 else [kk], [1, kk] if N < 5000 else [kk], tag="/large", mode="bounded", nsample=n, bound=f"N={N}, batch {kk}, {n} random states per operation")

    # observational composition through the public API only (default arguments, history, jit'd client code)
    for cls, N, (k1, n1, k2) in [(Mixed, 4, (2, 1, 2)), (One, 6, (3, 2, 3)), (Mat, 5, (1, 1, 4))]:
        def hist(x, y, z, N=N, cls=cls, n1=n1):
            q = Queue.build(N, cls).enqueue(x)
            q, o1 = q.dequeue(n1)
            pk = q.peek()
            q = q.enqueue(y)
            s1 = q.size
            q, o2 = q.dequeue()
            g = q[0]
            qc = q.clear()
            s2 = qc.size
            qc = qc.enqueue(z)
            return o1, pk, s1, o2, g, s2, qc.peek(), qc.size

        def hpost(a, r, k1=k1, n1=n1, k2=k2):
            x, y, z = a
            seq = [row(x, i) for i in range(k1)] + [row(y, i) for i in range(k2)]
            o1, pk, s1, o2, g, s2, p3, s3 = r
            obs = [("first dequeue", And(same_tree(seq[j], o1 if n1 == 1 else row(o1, j)) for j in range(n1)))]
            if n1 < k1:
                obs.append(("peek", same_tree(seq[n1], pk)))
            obs += [("size", s1.v == u32(k1 + k2 - n1)), ("second dequeue", same_tree(seq[n1], o2)),
                    ("index", same_tree(seq[n1 + 1], g)), ("clear", s2.v == 0), ("after clear", same_tree(z, p3)), ("size after clear", s3.v == 1)]
            return obs

        out.append(Case(f"history/{cls.__name__}/{k1},{n1},{k2}", hist, (inst(cls, (k1,)), inst(cls, (k2,)), inst(cls, ())), post=hpost,
                        functions=("Queue.*",)))
    # a large instance (positions beyond 8-bit ranges)
    big = 300
    q = sds(jax.eval_shape(lambda: Queue.build(big, Byte)))
    k = 7 if tier == "thorough" else 2
    out.append(Case(f"enqueue[{k}]/Byte/N=300", lambda q, it: q.enqueue(it), (q, inst(Byte, (k,))),
                    pre=lambda q, it: And(inv(q, big), q.tail.v + u32(k) <= u32(big)),
                    post=lambda a, r: [(f"new item {j}", same_tree(item(r, size(a[0]) + u32(j), big), row(a[1], j))) for j in range(k)] + [("size", size(r) == size(a[0]) + k)],
                    functions=("Queue.enqueue",), sample=_sampler(Byte, big, k)))
    out.append(Case(f"dequeue[{k}]/Byte/N=300", lambda q: q.dequeue(k), (q,),
                    pre=lambda q: And(inv(q, big), u32(k) <= size(q)),
                    post=lambda a, r: [(f"item {j}", same_tree(item(a[0], u32(j), big), row(r[1], j))) for j in range(k)],
                    functions=("Queue.dequeue",), sample=_sampler(Byte, big, "q", k)))
    return out


def _sampler(cls, N, k, need=0):
    from jxv.runcase import rand_leaf

    def s(rng):
        tmpl = sds(jax.eval_shape(lambda: Queue.build(N, cls)))
        n = 0 if k == "q" else 1 if k is None else k
        tail = int(rng.integers(need, N - n + 1))
        head = int(rng.integers(0, tail - need + 1))
        st = jax.tree_util.tree_map(lambda l: rand_leaf(rng, l.shape, l.dtype), tmpl.val_store)
        q = tmpl.replace(val_store=st, head=np.uint32(head), tail=np.uint32(tail))
        if k == "q":
            return (q,)
        it = jax.tree_util.tree_map(lambda l: rand_leaf(rng, l.shape, l.dtype), inst(cls, () if k is None else (k,)))
        return (q, it)

    return s
