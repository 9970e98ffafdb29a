"""C16 indexing and .at updates act uniformly on every field and only there.

Ghost semantics: numpy indexing on the batch dimensions of each field (object arrays of the field's elements).
"""
from .common import *
from .sized import *
from .C15 import upd_cases

SENT = "C16"


def getitem_static(cls, b, idx, tag):
    def post(a, r):
        want = map_tree(a[0], lambda x: x.map(lambda el: el[idx]))
        return [("same fields, shapes, dtypes", bv(same_struct(want, r))), ("every field indexed alike", same_tree(want, r))]

    ji = conv(idx)
    return Case(f"getitem/{cls.__name__}{list(b)}[{tag}]", lambda x: x[ji], (inst(cls, b),), post=post, functions=("instance[idx]",), nsample=2)


def conv(idx):
    """numpy index -> what a user of jax passes"""
    f = lambda i: jnp.asarray(i) if isinstance(i, np.ndarray) and i.dtype != bool else i
    return tuple(f(i) for i in idx) if isinstance(idx, tuple) else f(idx)


def set_static(cls, b, idx, tag, val):
    """val: None -> instance of the addressed shape, () -> unbatched instance (broadcast), number -> scalar"""
    ab = np.zeros(b)[idx].shape
    ji = conv(idx)
    if val is None or val == ():
        vb = ab if val is None else ()
        args, fn = (inst(cls, b), inst(cls, vb)), lambda x, v: x.at[ji].set(v)
        kind = "inst" if val is None else "inst-broadcast"
    else:
        args, fn = (inst(cls, b),), lambda x: x.at[ji].set(val)
        kind = f"const {val}"

    def post(a, r):
        la, lr = dict(leaves(a[0])), dict(leaves(r))
        obs = [("same fields, shapes, dtypes", bv(same_struct(a[0], r)))]
        if not obs[0][1].e:
            return obs
        lv = dict(leaves(a[1])) if len(a) > 1 else None
        at = np.zeros(b, bool)
        at[idx] = True
        ok_new, ok_old = [], []
        for p, x in la.items():
            def upd(el, p=p, x=x):
                el = el.copy()
                el[idx] = lv[p].s.el if lv is not None else const_val(val, x.dtype).e
                return el

            want = x.map(upd)
            sel = [(j, want.map(lambda el: np.asarray(el[j], dtype=object)), lr[p].map(lambda el: np.asarray(el[j], dtype=object))) for j in np.ndindex(*b)]
            ok_new += [w.same(g) for j, w, g in sel if at[j]]
            ok_old += [w.same(g) for j, w, g in sel if not at[j]]
        return obs + [("addressed entries replaced in every field", And(ok_new)), ("all other entries unchanged in every field", And(ok_old))]

    return Case(f"set/{cls.__name__}{list(b)}[{tag}]/{kind}", fn, args, post=post, functions=("instance.at[idx].set",), nsample=2)


def norm(i, n):
    """jax index normalisation of a traced signed index"""
    return Ite(i < lit(0, i.dt), i + lit(n, i.dt), i) if np.dtype(i.dt).kind == "i" else i


def inrange(i, n):
    if np.dtype(i.dt).kind == "i":
        return And(i >= lit(-n, i.dt), i < lit(n, i.dt))
    return i < lit(n, i.dt)


def rnd_idx(rng, shape, dt, n, oob=False):
    lo = -n if np.dtype(dt).kind == "i" else 0
    hi = n
    if oob:
        lo, hi = (lo - 2 if lo else 0), hi + 3
    return rng.integers(lo, hi, size=shape).astype(dt)


def getitem_dyn(cls, n, shape, dt):
    """traced integer or 1-D integer array index on the first batch dimension"""
    k = shape[0] if shape else None
    x = inst(cls, (n,))

    def pre(x, i):
        return And(inrange(v, n) for v in i.flat())

    def post(a, r):
        x, i = a
        if k is None:
            return [("the addressed entry, every field", same_tree(row_at(x, norm(i.v, n)), r))]
        return [(f"entry {j}", same_tree(row_at(x, norm(i[j], n)), row(r, j))) for j in range(k)]

    return Case(f"getitem/{cls.__name__}[{n}][traced {np.dtype(dt)}{list(shape)}]", lambda x, i: x[i], (x, S(shape, dt)), pre=pre, post=post,
                functions=("instance[idx]",), sample=lambda rng: (rand_tree(rng, x), rnd_idx(rng, shape, dt, n)), nsample=2)


def getitem_dyn2(cls, b):
    x = inst(cls, b)

    def post(a, r):
        x, i, j = a

        def f(l):
            rr = l.at(norm(i.v, b[0]))
            rr = rr if isinstance(rr, A) else A0(rr)
            rr = rr.at(norm(j.v, b[1]))
            return rr if isinstance(rr, A) else A0(rr)

        return [("the addressed entry, every field", same_tree(map_tree(x, f), r))]

    return Case(f"getitem/{cls.__name__}{list(b)}[traced pair]", lambda x, i, j: x[i, j], (x, S((), np.int32), S((), np.int32)),
                pre=lambda x, i, j: And(inrange(i.v, b[0]), inrange(j.v, b[1])), post=post, functions=("instance[idx]",),
                sample=lambda rng: (rand_tree(rng, x), rnd_idx(rng, (), np.int32, b[0]), rnd_idx(rng, (), np.int32, b[1])), nsample=2)


def set_dyn(cls, n, shape, dt, val=None, **kw):
    """traced index; out-of-range positions have no effect; among duplicates one of the written entries is taken, alike in all fields"""
    k = shape[0] if shape else None
    x = inst(cls, (n,))
    one = cls is One and val == "traced"
    if val is None:
        args, fn = (x, S(shape, dt), inst(cls, () if k is None else (k,))), lambda x, i, v: x.at[i].set(v)
    elif val == "traced":
        args, fn = (x, S(shape, dt), S((), np.uint32)), lambda x, i, v: x.at[i].set(v)
    else:
        args, fn = (x, S(shape, dt)), lambda x, i: x.at[i].set(val)
    m = 1 if k is None else k

    def post(a, r):
        x, i = a[0], a[1]
        idx = [norm(v, n) for v in i.flat()]
        obs = [("same fields, shapes, dtypes", bv(same_struct(x, r)))]
        if not obs[0][1].e:
            return obs

        def newrow(q, j):
            if val is None:
                return a[2] if k is None else row(a[2], q)
            return map_tree(row(x, j), lambda l: l.map(lambda el: _full(el.shape, (a[2].v if one else const_val(val, l.dtype)).e)))

        for j in range(n):
            hits = [v.eqint(j) for v in idx]
            got = row(r, j)
            obs.append((f"entry {j} replaced", Implies(Or(hits), Or(And(h, same_tree(newrow(q, j), got)) for q, h in enumerate(hits)))))
            obs.append((f"entry {j} unchanged if not addressed", Implies(Not(Or(hits)), same_tree(row(x, j), got))))
        return obs

    def smp(rng):
        t = (rand_tree(rng, x), rnd_idx(rng, shape, dt, n, oob=True))
        return t + (() if len(args) == 2 else (rand_tree(rng, args[2]),))

    return Case(f"set/{cls.__name__}[{n}][traced {np.dtype(dt)}{list(shape)}]/{'inst' if val is None else val}", fn, args, post=post,
                functions=("instance.at[idx].set",), sample=smp, nsample=kw.pop("nsample", 2), **kw)


def _full(sh, e):
    o = np.empty(sh, dtype=object)
    o[...] = e
    return o


def cond_static(cls, b, idx, tag, val=None):
    """set_as_condition with a slice (distinct positions) or a static integer"""
    n = b[0]
    pos = np.arange(n)[idx]
    sc = pos.shape == ()
    k = () if sc else pos.shape
    if val is None:
        args, fn = (inst(cls, b), S(k, bool), inst(cls, k + b[1:])), lambda x, c, v: x.at[idx].set_as_condition(c, v)
    else:
        args, fn = (inst(cls, b), S(k, bool)), lambda x, c: x.at[idx].set_as_condition(c, val)

    def post(a, r):
        x, c = a[0], a[1]
        obs = [("same fields, shapes, dtypes", bv(same_struct(x, r)))]
        if not obs[0][1].e:
            return obs
        for j in range(n):
            w = np.flatnonzero(np.atleast_1d(pos) == j)
            got, old = row(r, j), row(x, j)
            if len(w) == 0:
                obs.append(("entries outside the slice unchanged", same_tree(old, got)))
                continue
            cc = c.v if sc else c[int(w[0])]
            new = (a[2] if sc else row(a[2], int(w[0]))) if val is None else map_tree(old, lambda l: l.map(lambda el: _full(el.shape, const_val(val, l.dtype).e)))
            obs.append((f"entry {j} replaced where the condition holds", Implies(cc, same_tree(new, got))))
            obs.append((f"entry {j} unchanged where it does not", Implies(Not(cc), same_tree(old, got))))
        return obs

    return Case(f"cond/{cls.__name__}{list(b)}[{tag}]/{'inst' if val is None else val}", fn, args, post=post,
                functions=("instance.at[idx].set_as_condition",), nsample=2)


def cases(tier):
    s = np.s_
    out = []
    i32, u32_, u8 = np.int32, np.uint32, np.uint8
    mask4 = np.array([True, False, True, True])
    one_d = [("0", 0), ("-1", -1), ("3", 3), ("np.int64(2)", np.int64(2)), ("1:3", s[1:3]), ("::-1", s[::-1]), ("-3::2", s[-3::2]), ("2:2", s[2:2]),
             (":", s[:]), ("[2,0,2]", np.array([2, 0, 2])), ("[[1],[-1]]", np.array([[1], [-1]])), ("mask", mask4), ("None", None)]
    two_d = [("1", 1), ("(1,2)", (1, 2)), ("(0,-1)", (0, -1)), (":,1", s[:, 1]), ("1,:2", s[1, :2]), (":,[2,0]", (slice(None), np.array([2, 0]))),
             ("[0,1],[2,2]", (np.array([0, 1]), np.array([2, 2]))), ("::-1,::2", s[::-1, ::2]), ("1:", s[1:]),
             ("mask2", np.array([[True, False, True], [False, True, False]])), ("mask1", np.array([False, True])), ("None,0", (None, 0))]
    for cls in (Mixed, Mat):
        for tag, idx in one_d:
            out.append(getitem_static(cls, (4,), idx, tag))
            if idx is None or (isinstance(idx, np.ndarray) and idx.dtype != bool and len(set((idx % 4).ravel())) < idx.size):
                continue  # duplicates: covered by the traced cases
            out.append(set_static(cls, (4,), idx, tag, None if not (isinstance(idx, np.ndarray) and idx.dtype == bool) else ()))
            out.append(set_static(cls, (4,), idx, tag, 3))
        for tag, idx in two_d:
            out.append(getitem_static(cls, (2, 3), idx, tag))
            if isinstance(idx, tuple) and idx[0] is None:
                continue
            out.append(set_static(cls, (2, 3), idx, tag, None if not (isinstance(idx, np.ndarray) and idx.dtype == bool) else ()))
            out.append(set_static(cls, (2, 3), idx, tag, 1))
    for cls in (Deep, Agg, One):
        for tag, idx in [("-1", -1), ("1:", s[1:]), ("[1,0]", np.array([1, 0]))]:
            out.append(getitem_static(cls, (3,), idx, tag))
            out.append(set_static(cls, (3,), idx, tag, None))
            out.append(set_static(cls, (3,), idx, tag, 0))
    out.append(set_static(Mixed, (3,), s[:2], ":2", ()))
    out.append(set_static(Deep, (3,), s[::2], "::2", ()))
    for dt in (i32, u32_):
        out += [getitem_dyn(Mixed, 3, (), dt), getitem_dyn(Mat, 3, (4,), dt), getitem_dyn(Deep, 2, (2,), dt),
                set_dyn(Mixed, 3, (), dt), set_dyn(Mixed, 3, (3,), dt), set_dyn(Mat, 4, (3,), dt), set_dyn(Mixed, 4, (3,), dt, 2), set_dyn(One, 4, (2,), dt, "traced")]
    out += [getitem_dyn(One, 5, (2,), u8), set_dyn(One, 5, (2,), u8), getitem_dyn2(Mixed, (2, 3)), set_dyn(Deep, 3, (2,), i32), set_dyn(Agg, 3, (3,), i32),
            set_dyn(Byte, 300, (2,), i32)]
    if tier == "thorough":
        out += [set_dyn(Mixed, 6, (6,), i32), set_dyn(Deep, 5, (5,), i32), getitem_dyn(Mixed, 40, (6,), i32), getitem_dyn(Byte, 300, (2,), i32)]
    for cls in (Mixed, Mat, Deep):
        for tag, idx in [("1:3", s[1:3]), ("::-1", s[::-1]), ("-1", -1), ("2:2", s[2:2])]:
            if tag == "-1":
                idx = 2  # conditional updates take non-negative positions
                tag = "2"
            out.append(cond_static(cls, (4,), idx, tag))
            if cls is not Mat:
                out.append(cond_static(cls, (4,), idx, tag, 1))
    for cls, b, dt, m in [(Deep, (3,), i32, 3), (Agg, (3,), i32, 3), (Mat, (3,), i32, 4), (Mat, (2, 3), (i32, i32), 3), (Deep, (2, 2), (i32, u32_), 3)]:
        out.append(upd_cases(inst(cls, b), b, dt, m, "inst", f"cond/{cls.__name__}{list(b)}", via="at"))
        out.append(upd_cases(inst(cls, b), b, dt, m, "const", f"cond/{cls.__name__}{list(b)}", const=1, via="at"))
    for cls, n, k in [(Mixed, 300, 400), (Mat, 70, 65), (Deep, 129, 50)]:
        c = set_dyn(cls, n, (k,), i32, mode="bounded", nsample=2, bound=f"{n} entries, {k} updates, 2 random inputs")
        out.append(c)
        g = getitem_dyn(cls, n, (k,), i32)
        g.mode, g.bound = "bounded", f"{n} entries, {k} positions, 2 random inputs"
        out.append(g)
    return out + sized_cases(tier)


def sized_cases(tier):
    """every batch size and every number of addressed positions at once"""
    out = []
    s = np.s_
    one, zero = u32(1), u32(0)

    def nrm(v, n):
        return Ite(v < lit(0, v.dt), v.astype(np.uint32) + n, v.astype(np.uint32)) if np.dtype(v.dt).kind == "i" else v.astype(np.uint32)

    def inr(v, n):
        return And(v >= lit(0, np.int32) - n.astype(np.int32), v < n.astype(np.int32)) if np.dtype(v.dt).kind == "i" else v < n

    # slices and static positions: map of result index -> source index, condition on the sizes
    S1 = [("0", 0, (), lambda i, D: (zero,), ()), ("-1", -1, (), lambda i, D: (D.n - one,), ()), ("1:3", s[1:3], lambda D: (2,), lambda i, D: (i[0] + one,), ("n>=3",)),
          ("1:", s[1:], lambda D: (D.n - one,), lambda i, D: (i[0] + one,), ("n>=2",)), ("::-1", s[::-1], lambda D: (D.n,), lambda i, D: (D.n - one - i[0],), ()),
          (":-1", s[:-1], lambda D: (D.n - one,), lambda i, D: (i[0],), ("n>=2",)), ("None", None, lambda D: (1, D.n), lambda i, D: (i[1],), ()), ("...", ..., lambda D: (D.n,), lambda i, D: (i[0],), ())]
    S2 = [(":,1", s[:, 1], lambda D: (D.n,), lambda i, D: (i[0], one), ("m>=2",)), ("0,1:", s[0, 1:], lambda D: (D.m - one,), lambda i, D: (zero, i[0] + one), ("m>=2",)),
          ("1", 1, lambda D: (D.m,), lambda i, D: (one, i[0]), ("n>=2",)), (":,::-1", s[:, ::-1], lambda D: (D.n, D.m), lambda i, D: (i[0], D.m - one - i[1]), ())]
    for cls in (Mixed, Mat):
        for nb, ST in ((1, S1), (2, S2)):
            bs = (lambda D: [(D.n,)]) if nb == 1 else (lambda D: [(D.n, D.m)])
            for tag, idx, sh, src, con in ST:
                shf = sh if callable(sh) else (lambda D, sh=sh: sh)
                out.append(batch_case(f"getitem/{cls.__name__}[{'n' if nb == 1 else 'n,m'}][{tag}]/any size", cls, bs, lambda x, idx=idx: x[idx], shf,
                                      lambda p, f, i, e, D, src=src: f[0].rows(*src(i, D)), "n" if nb == 1 else "nm", dimcons=con, functions=("instance[idx]",)))
        for dt in (np.int32, np.uint32):
            out.append(batch_case(f"getitem/{cls.__name__}[n][traced {np.dtype(dt)}[m]]/any size", cls, lambda D: [(D.n,)], lambda x, i: x[i], lambda D: (D.m,),
                                  lambda p, f, i, e, D: (inr(e[0][i[0]], D.n), f[0].rows(nrm(e[0][i[0]], D.n))), "nm", extra=lambda D, dt=dt: [((D.m,), dt)],
                                  sample=lambda rng, D, dt=dt: (rnd_idx(rng, (D.m,), dt, D.n),), functions=("instance[idx]",)))
            out.append(batch_case(f"getitem/{cls.__name__}[n][traced {np.dtype(dt)}]/any size", cls, lambda D: [(D.n,)], lambda x, i: x[i], lambda D: (),
                                  lambda p, f, i, e, D: (inr(e[0].v, D.n), f[0].rows(nrm(e[0].v, D.n))), "n", extra=lambda D, dt=dt: [((), dt)],
                                  sample=lambda rng, D, dt=dt: (rnd_idx(rng, (), dt, D.n),), functions=("instance[idx]",)))
    # updates: idx, shape of the new entries, predicate "o is addressed", position of o in the new entries
    U1 = [("0", 0, lambda D: (), lambda o, D: o[0] == zero, lambda o, D: (), ()), ("-1", -1, lambda D: (), lambda o, D: o[0] == D.n - one, lambda o, D: (), ()),
          ("1:3", s[1:3], lambda D: (2,), lambda o, D: And(o[0] >= one, o[0] < u32(3)), lambda o, D: (o[0] - one,), ("n>=3",)),
          ("1:", s[1:], lambda D: (D.n - 1,), lambda o, D: o[0] >= one, lambda o, D: (o[0] - one,), ("n>=2",)),
          ("::-1", s[::-1], lambda D: (D.n,), lambda o, D: TRUE, lambda o, D: (D.n - one - o[0],), ()), (":", s[:], lambda D: (D.n,), lambda o, D: TRUE, lambda o, D: (o[0],), ())]
    U2 = [(":,1", s[:, 1], lambda D: (D.n,), lambda o, D: o[1] == one, lambda o, D: (o[0],), ("m>=2",)), ("0", 0, lambda D: (D.m,), lambda o, D: o[0] == zero, lambda o, D: (o[1],), ()),
          ("0,1:", s[0, 1:], lambda D: (D.m - 1,), lambda o, D: And(o[0] == zero, o[1] >= one), lambda o, D: (o[1] - one,), ("m>=2",))]
    for cls in (Mixed, Mat):
        for nb, UT in ((1, U1), (2, U2)):
            for tag, idx, vsh, addr, at, con in UT:
                for val in (None, 3):
                    out.append(_sized_set(cls, nb, tag, idx, vsh, addr, at, con, val))
        for dt in (np.int32, np.uint32):
            for val in (None, 2):
                out.append(_sized_set_dyn(cls, dt, val, nrm, inr))
    for idx, tag, src in ((s[:], ":", lambda o, D: o), (s[::-1], "::-1", lambda o, D: D.n - one - o)):
        if tag == ":" or tier == "thorough":
            out.append(_sized_cond(One, idx, tag, src))
        if tier == "thorough":
            out.append(_sized_cond(Mixed, idx, tag, src))
    return out


def _sized_set(cls, nb, tag, idx, vsh, addr, at, con, val):
    bs = (lambda D: (D.n,)) if nb == 1 else (lambda D: (D.n, D.m))

    def args(D):
        return (pinst(cls, bs(D)),) + ((pinst(cls, vsh(D)),) if val is None else ())

    def fn(x, *v):
        return x.at[idx].set(v[0] if v else val)

    def post(a, r, D):
        la, lr = leaves(a[0]), leaves(r)
        lv = dict(leaves(a[1])) if val is None else None
        obs = [("same fields, shapes, dtypes", And([bv([p for p, _ in la] == [p for p, _ in lr])] + [And([bv(len(x.dims) == len(y.dims) and x.dtype == y.dtype)] + [p == q for p, q in zip(x.dims, y.dims)])
                                                                                                       for (_, x), (_, y) in zip(la, lr)]))]
        for (p, x), (_, g) in zip(la, lr):
            intr = x.shape[nb:]

            def new(o, p=p, x=x, intr=intr):
                if lv is None:
                    return frow(np.full(intr, np.asarray(val).astype(x.dtype)))
                return lv[p].rows(*at(o, D)) if at(o, D) else lv[p]

            nm = ".".join(p)
            obs.append((f"addressed entries replaced: {nm}", Forall(bs(D), lambda *o, x=x, g=g, new=new: Implies(addr(o, D), g.rows(*o).same(new(o))))))
            obs.append((f"all other entries unchanged: {nm}", Forall(bs(D), lambda *o, x=x, g=g: Implies(Not(addr(o, D)), g.rows(*o).same(x.rows(*o))))))
        return obs

    return PCase(f"set/{cls.__name__}[{'n' if nb == 1 else 'n,m'}][{tag}]/{'inst' if val is None else val}/any size", fn, args, post, "n" if nb == 1 else "nm", dimcons=con,
                 functions=("instance.at[idx].set",), nsample=2)


def _sized_set_dyn(cls, dt, val, nrm, inr):
    """traced positions: out-of-range positions have no effect; among duplicates one of the written entries is taken"""
    def args(D):
        return (pinst(cls, (D.n,)), PS((D.m,), dt)) + ((pinst(cls, (D.m,)),) if val is None else ())

    def fn(x, i, *v):
        return x.at[i].set(v[0] if v else val)

    def post(a, r, D):
        la, lr, idx = leaves(a[0]), leaves(r), a[1]
        obs = [("same fields, shapes, dtypes", And([bv([p for p, _ in la] == [p for p, _ in lr])] + [And([bv(len(x.dims) == len(y.dims) and x.dtype == y.dtype)] + [p == q for p, q in zip(x.dims, y.dims)])
                                                                                                       for (_, x), (_, y) in zip(la, lr)]))]
        hit = lambda q, o: And(inr(idx[q], D.n), nrm(idx[q], D.n) == o)
        for (p, x), (_, g) in zip(la, lr):
            intr = x.shape[1:]
            new = (lambda q, p=p: dict(leaves(a[2]))[p].rows(q)) if val is None else (lambda q, x=x, intr=intr: frow(np.full(intr, np.asarray(val).astype(x.dtype))))
            nm = ".".join(p)
            obs.append((f"an addressed entry holds a written value: {nm}", Forall(D.n, lambda o, g=g, new=new: Implies(First(D.m, lambda q: hit(q, o)) < D.m,
                                                                                                       First(D.m, lambda q: And(hit(q, o), g.rows(o).same(new(q)))) < D.m))))
            obs.append((f"all other entries unchanged: {nm}", Forall(D.n, lambda o, g=g, x=x: Implies(First(D.m, lambda q: hit(q, o)) >= D.m, g.rows(o).same(x.rows(o))))))
        return obs

    def smp(rng, D):
        a = args(D)
        return (rand_tree(rng, a[0]), rnd_idx(rng, (D.m,), dt, D.n, oob=True)) + tuple(rand_tree(rng, q) for q in a[2:])

    return PCase(f"set/{cls.__name__}[n][traced {np.dtype(dt)}[m]]/{'inst' if val is None else val}/any size", fn, args, post, "nm", sample=smp, functions=("instance.at[idx].set",), nsample=3)


def _sized_cond(cls, idx, tag, src):
    def post(a, r, D):
        x, c, v = a
        return [(f"entries replaced exactly where the condition holds: {'.'.join(p)}", Forall(D.n, lambda o, p=p, g=g: g.rows(o).same(ite_row(c[src(o, D)], dict(leaves(v))[p].rows(src(o, D)), dict(leaves(x))[p].rows(o)))))
                for p, g in leaves(r)]

    return PCase(f"cond/{cls.__name__}[n][{tag}]/any size", lambda x, c, v: x.at[idx].set_as_condition(c, v), lambda D: (pinst(cls, (D.n,)), PS((D.n,), bool), pinst(cls, (D.n,))), post, "n", timeout=200,
                 functions=("instance.at[idx].set_as_condition",), nsample=3)
