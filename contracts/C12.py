"""C12 Per-field packed accessors are lossless and independent.

Two-state contracts of set_unpacked / from_unpacked / <field>_unpacked over an arbitrary stored byte content.
"""
from .common import *

_cls = {}


def pk(b1, s1, b2, s2, d1=None, d2=None):
    """class with two packed fields and one plain and one nested field"""
    key = (b1, s1, b2, s2, str(d1), str(d2))
    if key not in _cls:
        ns = {"__annotations__": {"p": F.packed_tensor(packed_bits=b1, shape=s1, unpacked_dtype=d1), "r": F.scalar(dtype=jnp.uint32),
                                  "q": F.packed_tensor(packed_bits=b2, shape=s2, unpacked_dtype=d2), "n": F.scalar(dtype=Byte)}, "__module__": __name__}
        _cls[key] = xtructure_dataclass(type(f"Pk{len(_cls)}", (), ns))
    return _cls[key]


def udt(b, d):
    return np.dtype(d) if d is not None else np.dtype(np.bool_ if b == 1 else np.uint8 if b <= 8 else np.uint32)


def fits(x, b):
    """values within the declared bits"""
    w = x.flat()[0].w if x.flat() else 0
    if w == 0 or b >= w:
        return TRUE
    return And((v.raw() >> lit(b, v.raw().dt)) == lit(0, v.raw().dt) for v in x.flat())


def unp(o):
    return o.p_unpacked, o.q_unpacked


def clip(rng, l, b):
    from jxv.runcase import rand_leaf

    v = rand_leaf(rng, l.shape, l.dtype)
    if v.dtype == np.bool_:
        return v
    if rng.random() < 0.3:
        v = np.full_like(v, -1 if v.dtype.kind == "i" else np.iinfo(v.dtype).max)
    wd = v.dtype.itemsize * 8
    return v if b >= wd else v & np.array((1 << b) - 1, v.dtype)


def group(b1, s1, b2, s2, batch, d1=None, d2=None, which=("set_p", "set_q", "set_pq", "from", "partial", "history"), **kw):
    C = pk(b1, s1, b2, s2, d1, d2)
    st = inst(C, batch)
    P, Q = S(batch + s1, udt(b1, d1)), S(batch + s2, udt(b2, d2))
    R_, N_ = S(batch, np.uint32), inst(Byte, batch)
    tag = f"bits={b1}{list(s1)},{b2}{list(s2)}/batch={list(batch)}" + (f"/{np.dtype(d1)},{np.dtype(d2)}" if d1 or d2 else "")
    base = lambda o, u: (o, u[0], u[1])
    out = []

    def chk(label, got, want):
        return (label, bv(got.shape == want.shape and got.dtype == want.dtype) & got.same(want))

    def samp(*ls):
        def s(rng):
            o = []
            for l in ls:
                if isinstance(l, tuple):
                    o.append(clip(rng, l[0], l[1]))
                else:
                    o.append(rand_tree(rng, l))
            return tuple(o)

        return s

    def add(name, fn, args, pre, post, smp):
        if name.split("/")[0] in which:
            out.append(Case(f"{name}/{tag}", fn, args, pre=pre, post=post, functions=("set_unpacked", "<field>_unpacked") if "from" not in name else ("from_unpacked", "<field>_unpacked"),
                            sample=smp, nsample=kw.get("nsample", 2), mode=kw.get("mode", "proof"), bound=kw.get("bound", "")))

    def rest(s0, s1_, *skip):
        return [(f"field {f} untouched", same_tree(getattr(s0, f), getattr(s1_, f))) for f in ("p", "q", "r", "n") if f not in skip]

    add("set_p", lambda s, x: (unp(s), s.set_unpacked(p=x), unp(s.set_unpacked(p=x))), (st, P), lambda s, x: fits(x, b1),
        lambda a, r: [chk("p_unpacked is what was set", r[2][0], a[1]), chk("q_unpacked unchanged", r[2][1], r[0][1])] + rest(a[0], r[1], "p"), samp(st, (P, b1)))
    add("set_q", lambda s, x: (unp(s), s.set_unpacked(q=x), unp(s.set_unpacked(q=x))), (st, Q), lambda s, x: fits(x, b2),
        lambda a, r: [chk("q_unpacked is what was set", r[2][1], a[1]), chk("p_unpacked unchanged", r[2][0], r[0][0])] + rest(a[0], r[1], "q"), samp(st, (Q, b2)))
    add("set_pq", lambda s, x, y: (s.set_unpacked(p=x, q=y), unp(s.set_unpacked(q=y, p=x))), (st, P, Q), lambda s, x, y: And(fits(x, b1), fits(y, b2)),
        lambda a, r: [chk("p_unpacked", r[1][0], a[1]), chk("q_unpacked", r[1][1], a[2])] + rest(a[0], r[0], "p", "q"), samp(st, (P, b1), (Q, b2)))

    def frm(x, y, z, n):
        o = C.from_unpacked(shape=batch, p=x, q=y, r=z, n=n)
        return o, unp(o)

    add("from", frm, (P, Q, R_, N_), lambda x, y, z, n: And(fits(x, b1), fits(y, b2)),
        lambda a, r: [chk("p_unpacked", r[1][0], a[0]), chk("q_unpacked", r[1][1], a[1]), ("plain field", same_tree(r[0].r, a[2])), ("nested field", same_tree(r[0].n, a[3]))],
        samp((P, b1), (Q, b2), R_, N_))

    def part(y):
        o = C.from_unpacked(shape=batch, q=y)
        d = C.default(batch)
        return o, unp(o), d, unp(d)

    def postpart(a, r):
        return [chk("q_unpacked", r[1][1], a[0]), ("missing packed field unpacks to zero", And(v.same(lit(0, v.dt)) for v in r[1][0].flat())),
                ("other fields default", And(same_tree(r[0].r, r[2].r), same_tree(r[0].n, r[2].n), same_tree(r[0].p, r[2].p))),
                ("default instance unpacks to zero", And(v.same(lit(0, v.dt)) for u in (r[3][0], r[3][1]) for v in u.flat()))]

    add("partial/from", part, (Q,), lambda y: fits(y, b2), postpart, samp((Q, b2)))

    def hist(s, x, y, z):
        o = s.set_unpacked(p=x).set_unpacked(q=y)
        o2 = o.set_unpacked(p=z)
        o3 = o2.set_unpacked(q=o.q_unpacked, p=o.p_unpacked)
        return unp(o2), unp(o3)

    add("history", hist, (st, P, Q, P), lambda s, x, y, z: And(fits(x, b1), fits(y, b2), fits(z, b1)),
        lambda a, r: [chk("last p wins", r[0][0], a[3]), chk("q kept", r[0][1], a[2]), chk("copied p", r[1][0], a[1]), chk("copied q", r[1][1], a[2])],
        samp(st, (P, b1), (Q, b2), (P, b1)))
    return out


def group_any(b1, s1, b2, s2, nb=1, d1=None, d2=None, which=("set_p", "from", "history")):
    """any batch sizes"""
    from .sized import Forall, PCase, PS, pinst, tok

    C = pk(b1, s1, b2, s2, d1, d2)
    dims = "nm"[:nb]
    bs = lambda D: tuple(getattr(D, d) for d in dims)
    P, Q = (lambda D: PS(bs(D) + s1, udt(b1, d1))), (lambda D: PS(bs(D) + s2, udt(b2, d2)))
    tag = f"bits={b1}{list(s1)},{b2}{list(s2)}/batch=[{','.join(dims)}]" + (f"/{np.dtype(d1)},{np.dtype(d2)}" if d1 or d2 else "") + "/any size"
    out = []

    def fit(x, b, i):
        w = np.dtype(x.dtype).itemsize * 8
        if x.dtype == np.bool_ or b >= w:
            return TRUE
        return And((v.raw() >> lit(b, v.raw().dt)) == lit(0, v.raw().dt) for v in x.rows(*i).flat())

    def all_fit(x, b, D):
        w = np.dtype(x.dtype).itemsize * 8
        return TRUE if x.dtype == np.bool_ or b >= w else Forall(bs(D), lambda *i: fit(x, b, i))

    def chk(label, got, want, D, *fits_):
        """entry by entry (only where the entry's values fit the declared bits)"""
        if len(got.shape) != len(want.shape) or got.dtype != want.dtype:
            return (label, FALSE)
        return (label, And([p == q for p, q in zip(got.dims, want.dims)] + [Forall(bs(D), lambda *i: Implies(And(fit(x, b, i) for x, b in fits_), got.rows(*i).same(want.rows(*i))))]))

    def rest(s0, s1_, D, *skip):
        return [(f"field {f} untouched", same_tree(getattr(s0, f), getattr(s1_, f))) for f in ("p", "q", "r", "n") if f not in skip]

    def samp(*ls):
        return lambda rng, D: tuple(clip(rng, l(D)[0], l(D)[1]) if isinstance(l(D), tuple) else rand_tree(rng, l(D)) for l in ls)

    st = lambda D: pinst(C, bs(D))

    def add(name, fn, args, post, smp):
        if name in which:
            out.append(PCase(f"{name}/{tag}", fn, args, post, dims, sample=smp, nsample=1, sizelimit=1 << 24, functions=("set_unpacked", "<field>_unpacked") if name != "from" else ("from_unpacked", "<field>_unpacked")))

    add("set_p", lambda s, x: (unp(s), s.set_unpacked(p=x), unp(s.set_unpacked(p=x))), lambda D: (st(D), P(D)),
        lambda a, r, D: [chk("p_unpacked is what was set", r[2][0], a[1], D, (a[1], b1)), chk("q_unpacked unchanged", r[2][1], r[0][1], D)] + rest(a[0], r[1], D, "p"), samp(st, lambda D: (P(D), b1)))

    def frm(x, y, z, n):
        o = C.from_unpacked(shape=x.shape[:nb], p=x, q=y, r=z, n=n)
        d = C.default(x.shape[:nb])
        return o, unp(o), unp(d)

    add("from", frm, lambda D: (P(D), Q(D), PS(bs(D), np.uint32), pinst(Byte, bs(D))),
        lambda a, r, D: [chk("p_unpacked", r[1][0], a[0], D, (a[0], b1)), chk("q_unpacked", r[1][1], a[1], D, (a[1], b2)), ("plain field", same_tree(r[0].r, a[2])), ("nested field", same_tree(r[0].n, a[3])),
                         ("default instance unpacks to zero", Forall(bs(D), lambda *i: And(v.same(lit(0, v.dt)) for u in r[2] for v in u.rows(*i).flat())))],
        samp(lambda D: (P(D), b1), lambda D: (Q(D), b2), lambda D: PS(bs(D), np.uint32), lambda D: pinst(Byte, bs(D))))

    def hist(s, x, y, z):
        o = s.set_unpacked(p=x).set_unpacked(q=y)
        o2 = o.set_unpacked(p=z)
        o3 = o2.set_unpacked(q=o.q_unpacked, p=o.p_unpacked)
        return unp(o2), unp(o3)

    add("history", hist, lambda D: (st(D), P(D), Q(D), P(D)),
        lambda a, r, D: [chk("last p wins", r[0][0], a[3], D, (a[3], b1)), chk("q kept", r[0][1], a[2], D, (a[2], b2)), chk("copied p", r[1][0], a[1], D, (a[1], b1)), chk("copied q", r[1][1], a[2], D, (a[2], b2))],
        samp(st, lambda D: (P(D), b1), lambda D: (Q(D), b2), lambda D: (P(D), b1)))
    return out


def cases(tier):
    out = []
    T = tier == "thorough"
    for b in range(1, 33):
        b2 = (b * 11) % 32 + 1
        out += group(b, (5,), b2, (), (2,), which=("set_p", "set_q", "from", "history"))
        out += group(b, (2, 3), b2, (9,), (), which=("set_pq", "partial"))
        if T:
            out += group(b, (11,), b2, (3, 2), (2, 2))
            out += group(b, (7,), b2, (1,), (3,))
    for b1, d1, b2, d2 in [(1, jnp.uint8, 3, jnp.int32), (4, jnp.uint32, 12, jnp.uint16), (7, jnp.int16, 1, jnp.bool_), (16, jnp.uint16, 31, jnp.int32), (8, jnp.uint8, 2, jnp.uint16), (32, jnp.int32, 24, jnp.uint32)]:
        out += group(b1, (3,), b2, (2, 2), (2,), d1, d2)
    out += group(3, (4,), 13, (2,), (0,)) + group(5, (2,), 9, (3,), (2, 1, 2))
    for b in range(1, 33):
        out += group_any(b, (5,), (b * 11) % 32 + 1, (), which=("set_p", "from", "history") if T or b % 4 == 1 else ("set_p", "from"))
        out += group_any(33 - b, (2, 3), b, (9,), which=("set_p", "from", "history") if T else ("from",))
        if T or b % 4 == 3:
            out += group_any(b, (3,), 33 - b, (2,), nb=2)
    for b in (1, 2, 3, 5, 7, 11, 17, 23, 31, 32):
        out += group(b, (37,), 33 - b, (64,), (41,), which=("set_p", "from"), mode="bounded", nsample=1, bound="41 entries of 37 and 64 values, 1 random input")
    # bit streams and value counts beyond 2**16
    for b, n, b2, n2 in ((5, 14000, 1, 66000), (31, 2200, 2, 33000), (12, 300, 1, 140)):
        out += group(b, (n,), b2, (n2,), (), which=("set_p", "from"), mode="bounded", nsample=1, bound=f"{n} and {n2} values, 1 random input")
    return out
