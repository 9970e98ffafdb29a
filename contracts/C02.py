"""C02 Stack is an exact LIFO.

Ghost view: seq(s) = [val_store[i] for i < size], bottom first; representation invariant size <= max_size.
"""
from .common import *
from .sized import *
from xtructure import Stack


def inv(s, N):
    return s.size.v <= u32(N)


def item(s, i, N):
    return row_at(s.val_store, Ite(i < u32(N), i, u32(0)))


def same_seq(s0, s1, n, N):
    if isinstance(n.e, int):
        return same_tree(map_tree(s0.val_store, lambda x: x[: n.e]), map_tree(s1.val_store, lambda x: x[: n.e]))
    return And(Implies(u32(i) < n, same_tree(row(s0.val_store, i), row(s1.val_store, i))) for i in range(N))


def op_cases(cls, N, ks, ns, tag="", **kw):
    out = []
    q = sds(jax.eval_shape(lambda: Stack.build(N, cls)))
    T = f"{cls.__name__}/N={N}{tag}"
    for k in ks:
        items = inst(cls, () if k is None else (k,))
        n = 1 if k is None else k

        def pre(s, it, n=n):
            return And(inv(s, N), s.size.v + u32(n) <= u32(N))

        def post(a, r, n=n, k=k):
            s0, it = a
            obs = [("invariant", inv(r, N)), ("size", r.size.v == s0.size.v + u32(n)),
                   ("items below unchanged", same_seq(s0, r, s0.size.v, N))]
            for j in range(n):
                obs.append((f"new item {j} on top in order", same_tree(item(r, s0.size.v + u32(j), N), it if k is None else row(it, j))))
            return obs

        out.append(Case(f"push[{k}]/{T}", lambda s, it: s.push(it), (q, items), pre=pre, post=post, functions=("Stack.push",),
                        sample=_sampler(cls, N, k), **kw))
    for n in ns:
        def pre(s, n=n):
            return And(inv(s, N), u32(n) <= s.size.v)

        def chk(s0, got, n):
            top = s0.size.v
            if n == 1:
                return [("top item, unbatched", same_tree(item(s0, top - u32(1), N), got))]
            return [(f"item {j}", same_tree(item(s0, top - u32(n - j), N), row(got, j))) for j in range(n)] + [
                ("batch length", And(bv(x.shape[0] == n) for _, x in leaves(got)))]

        def postd(a, r, n=n, chk=chk):
            s0 = a[0]
            s1, got = r
            return chk(s0, got, n) + [("invariant", inv(s1, N)), ("size", s1.size.v == s0.size.v - u32(n)),
                                      ("remaining items unchanged", same_seq(s0, s1, s0.size.v - u32(n), N))]

        smp = _sampler(cls, N, "q", n)
        out.append(Case(f"pop[{n}]/{T}", lambda s, n=n: s.pop(n), (q,), pre=pre, post=postd, functions=("Stack.pop",), sample=smp, **kw))
        out.append(Case(f"peek[{n}]/{T}", lambda s, n=n: s.peek(n), (q,), pre=pre, post=lambda a, r, n=n, chk=chk: chk(a[0], r, n), functions=("Stack.peek",), sample=smp, **kw))
    out.append(Case(f"getitem/{T}", lambda s, i: s[i], (q, S((), jnp.uint32)),
                    pre=lambda s, i: And(inv(s, N), i.v < s.size.v),
                    post=lambda a, r: [("i-th from the bottom", same_tree(item(a[0], a[1].v, N), r))], functions=("Stack.__getitem__",),
                    sample=lambda rng, s=_sampler(cls, N, "q", 1): (lambda st: (st, np.uint32(rng.integers(0, int(st.size)))))(s(rng)[0]), **kw))
    return out


def sized(cls):
    """the same contract for every stack length N and every batch size"""
    out = []

    def St(D):
        return Stack(max_size=D.N, val_store=pinst(cls, (D.N,)), size=S((), np.uint32))

    def itm(s, i):
        return prow(s.val_store, i)

    def pinv(s, D):
        return s.size.v <= D.N

    def smp(need, room, *extra):
        def s(rng, D):
            st = St(D)
            st = st.replace(val_store=rand_tree(rng, st.val_store), size=np.uint32(rng.integers(need(D), D.N - room(D) + 1)))
            return (st,) + tuple(rand_tree(rng, e(D)) for e in extra)

        return s

    C = cls.__name__
    for one in (False, True):
        n = (lambda D: u32(1)) if one else (lambda D: D.k)
        items = (lambda D: pinst(cls)) if one else (lambda D: pinst(cls, (D.k,)))

        def post(a, r, D, n=n, one=one):
            s0, it = a
            m = n(D)
            sz0, sz = s0["size"].v, r["size"].v
            return [("invariant", pinv(r, D)), ("size", sz == sz0 + m), ("store length", lens(r.val_store, D.N)),
                    ("items below unchanged", Forall(D.N, lambda i: Implies(i < sz0, psame(itm(r, i), itm(s0, i))))),
                    ("new items on top in order", Forall(m, lambda i: psame(itm(r, sz0 + i), it if one else prow(it, i))))]

        out.append(PCase(f"push/{C}/any size{'/one' if one else ''}", lambda s, it: s.push(it), lambda D, items=items: (St(D), items(D)), post,
                         ("N",) if one else ("N", "k"), dimcons=() if one else ("k<=N",), pre=lambda s, it, D, n=n: And(pinv(s, D), s["size"].v + n(D) <= D.N),
                         sample=smp(lambda D: 0, (lambda D: 1) if one else (lambda D: D.k), items), functions=("Stack.push",)))

    for name in ("pop", "peek"):
        def fn(s, t, name=name):
            return getattr(s, name)(t.shape[0])

        def post(a, r, D, name=name):
            s0 = a[0]
            top = s0["size"].v
            g = r[1] if name == "pop" else r
            one = len(leaves(g)[0][1].shape) == len(leaves(s0.val_store)[0][1].shape) - 1
            obs = [("top items in order", psame(itm(s0, top - u32(1)), g) if one else And(lens(g, D.n), Forall(D.n, lambda i: psame(itm(s0, top - D.n + i), prow(g, i))))),
                   ("shape", Iff(bv(one), D.n == 1))]
            if name == "pop":
                s1 = r[0]
                obs += [("invariant", pinv(s1, D)), ("size", s1["size"].v == top - D.n), ("store length", lens(s1.val_store, D.N)),
                        ("remaining items unchanged", Forall(D.N, lambda i: Implies(i < s1["size"].v, psame(itm(s1, i), itm(s0, i)))))]
            return obs

        out.append(PCase(f"{name}/{C}/any size", fn, lambda D: (St(D), tok(D.n)), post, ("N", "n"), dimcons=("n<=N",),
                         pre=lambda s, t, D: And(pinv(s, D), D.n <= s["size"].v), sample=smp(lambda D: D.n, lambda D: 0, lambda D: tok(D.n)), functions=(f"Stack.{name}",)))
    out.append(PCase(f"getitem/{C}/any size", lambda s, i: s[i], lambda D: (St(D), S((), np.uint32)),
                     lambda a, r, D: [("i-th from the bottom", psame(itm(a[0], a[1].v), r))], ("N",), pre=lambda s, i, D: And(pinv(s, D), i.v < s["size"].v),
                     sample=lambda rng, D, s=smp(lambda D: 1, lambda D: 0): (lambda q: (q, np.uint32(rng.integers(0, int(q.size)))))(s(rng, D)[0]), functions=("Stack.__getitem__",)))
    out.append(PCase(f"build/{C}/any size", lambda t: Stack.build(t.shape[0], cls), lambda D: (tok(D.N),),
                     lambda a, r, D: [("empty", r["size"].v == 0), ("capacity", lens(r.val_store, D.N))], ("N",), functions=("Stack.build",)))
    return out


def cases(tier):
    out = [c for cls in (Mixed, Mat) for c in sized(cls)]
    cfg = [(Mixed, 3), (One, 5), (Mat, 2), (Byte, 1)]
    if tier == "thorough":
        cfg += [(Mixed, 6), (One, 12), (Mat, 4)]
    for cls, N in cfg:
        out.append(Case(f"build/{cls.__name__}/N={N}", lambda N=N, cls=cls: Stack.build(N, cls), (),
                        post=lambda a, r, N=N: [("empty", r.size.v == 0), ("capacity", bv(all(x.shape[0] == N for _, x in leaves(r.val_store))))],
                        functions=("Stack.build",), nsample=1))
        out += op_cases(cls, N, [None] + list(range(0, N + 1)), range(0, N + 1))
    big = 300
    k = 7 if tier == "thorough" else 2
    q = sds(jax.eval_shape(lambda: Stack.build(big, Byte)))
    out.append(Case(f"push[{k}]/Byte/N=300", lambda s, it: s.push(it), (q, inst(Byte, (k,))),
                    pre=lambda s, it: And(inv(s, big), s.size.v + u32(k) <= u32(big)),
                    post=lambda a, r: [(f"new item {j}", same_tree(item(r, a[0].size.v + u32(j), big), row(a[1], j))) for j in range(k)] + [("size", r.size.v == a[0].size.v + k)],
                    functions=("Stack.push",), sample=_sampler(Byte, big, k)))
    out.append(Case(f"pop[{k}]/Byte/N=300", lambda s: s.pop(k), (q,),
                    pre=lambda s: And(inv(s, big), u32(k) <= s.size.v),
                    post=lambda a, r: [(f"item {j}", same_tree(item(a[0], a[0].size.v - u32(k - j), big), row(r[1], j))) for j in range(k)]
                    + [("size", r[0].size.v == a[0].size.v - k)],
                    functions=("Stack.pop",), sample=_sampler(Byte, big, "q", k)))
    # bounded stand-in: large instances, same contracts evaluated on real runs
    for cls, N, kk in [(Mixed, 1000, 257), (One, 70000, 66000), (One, 3000, 1025), (Mat, 200, 130)]:
        n = 3 if N < 5000 or tier == "thorough" else 1
        out += op_cases(cls, N, [None, kk] if N < 5000 else [kk], [1, kk] if N < 5000 else [kk], tag="/large", mode="bounded", nsample=n, bound=f"N={N}, batch {kk}, {n} random states per operation")

    for cls, N, (k1, n1, k2) in [(Mixed, 4, (2, 1, 2)), (One, 6, (3, 2, 3)), (Mat, 5, (1, 1, 4))]:
        def hist(x, y, z, N=N, cls=cls, n1=n1):
            s = Stack.build(N, cls).push(x)
            s, o1 = s.pop(n1)
            z1 = s.size
            s = s.push(y).push(z)
            pk = s.peek()
            b = s[s.size - 2]
            s, o2 = s.pop()
            s, o3 = s.pop(2)
            return o1, z1, pk, b, o2, o3, s.size

        def hpost(a, r, k1=k1, n1=n1, k2=k2):
            x, y, z = a
            o1, z1, pk, b, o2, o3, s3 = r
            xs = [row(x, i) for i in range(k1)]
            rest = xs[:k1 - n1] + [row(y, i) for i in range(k2)]
            obs = [("first pop", And(same_tree(xs[k1 - n1 + j], o1 if n1 == 1 else row(o1, j)) for j in range(n1))),
                   ("size after pop", z1.v == u32(k1 - n1)), ("peek is last push", same_tree(z, pk)),
                   ("index", same_tree(rest[-1], b)), ("pop is last push", same_tree(z, o2)),
                   ("pop of two", And(same_tree(rest[-2 + j], row(o3, j)) for j in range(2))),
                   ("final size", s3.v == u32(len(rest) - 2))]
            return obs

        out.append(Case(f"history/{cls.__name__}/{k1},{n1},{k2}", hist, (inst(cls, (k1,)), inst(cls, (k2,)), inst(cls, ())), post=hpost, functions=("Stack.*",)))
    return out


def _sampler(cls, N, k, need=0):
    def s(rng):
        tmpl = sds(jax.eval_shape(lambda: Stack.build(N, cls)))
        n = 0 if k == "q" else 1 if k is None else k
        size = int(rng.integers(need, N - n + 1))
        q = tmpl.replace(val_store=rand_tree(rng, tmpl.val_store), size=np.uint32(size))
        if k == "q":
            return (q,)
        return (q, rand_tree(rng, inst(cls, () if k is None else (k,))))

    return s
