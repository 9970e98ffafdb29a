"""C11 Aggregate bit-packed views are lossless.

Contracts of .packed, Packed.unpacked / unpack / as_original / unpack_field over arbitrary field contents (within bits) and, for the
other direction, over arbitrary packed words.
"""
import math

from .common import *

_cls = {}


def ag(*fields):
    """aggregate class with the fields (name, dtype, shape, bits | nested tuple)"""
    if fields not in _cls:
        ns = {"__annotations__": {}, "__module__": __name__}
        for f in fields:
            if isinstance(f[1], tuple):
                ns["__annotations__"][f[0]] = F.scalar(dtype=ag(*f[1]))
            else:
                n, dt, sh, b = f
                ns["__annotations__"][n] = F.tensor(dtype=np.dtype(dt), shape=sh, bits=b, fill_value=0)
        _cls[fields] = xtructure_dataclass(type(f"Ag{len(_cls)}", (), ns), aggregate_bitpack=True)
    return _cls[fields]


def leafspecs(fields, prefix=()):
    for f in fields:
        if isinstance(f[1], tuple):
            yield from leafspecs(f[1], prefix + (f[0],))
        else:
            yield prefix + (f[0],), np.dtype(f[1]), f[2], f[3]


def get(o, path):
    for p in path:
        o = getattr(o, p)
    return o


def ddt(b):
    return np.dtype(np.bool_ if b == 1 else np.uint8 if b <= 8 else np.uint32)


def fits_v(v, b):
    if v.w <= b:
        return TRUE
    if v.w == 0:
        return TRUE
    r = v.raw()
    return (r >> lit(b, r.dt)) == lit(0, r.dt)


def num(v):
    """the value as an unsigned 32-bit number (values fit their bits, so no sign)"""
    if v.w == 0:
        return Ite(v, u32(1), u32(0))
    r = v.raw()
    return r if r.dt == np.uint32 else r.astype(np.uint32)


def same_num(x, y):
    if x.shape != y.shape:
        return FALSE
    return And(num(p) == num(q) for p, q in zip(x.flat(), y.flat()))


def clipl(rng, l, b):
    from jxv.runcase import rand_leaf

    v = rand_leaf(rng, l.shape, l.dtype)
    if v.dtype == np.bool_:
        return v
    if rng.random() < 0.3:
        v = np.full_like(v, -1 if v.dtype.kind == "i" else np.iinfo(v.dtype).max)
    wd = v.dtype.itemsize * 8
    return v if b >= wd else v & np.array((1 << b) - 1, v.dtype)


def group(fields, batch, which=None, **kw):
    C = ag(*fields)
    specs = list(leafspecs(fields))
    st = inst(C, batch)
    tag = ",".join(f"{'.'.join(p)}:{dt}{list(sh)}@{b}" for p, dt, sh, b in specs) + f"/batch={list(batch)}"
    out = []

    def ok(x):
        return And(And(fits_v(v, b) for v in get(x, p).flat()) for p, dt, sh, b in specs)

    def mk(rng):
        import jax as _j

        def cv(path, l):
            b = next(b for p, _, _, b in specs if p == tuple(k.name for k in path))
            return clipl(rng, l, b)

        return _j.tree_util.tree_map_with_path(cv, st)

    def add(name, fn, args, post, pre, smp, fns):
        if which is None or name in which:
            out.append(Case(f"{name}/{tag}", fn, args, pre=pre, post=post, functions=fns, sample=smp, nsample=kw.get("nsample", 2), mode=kw.get("mode", "proof"), bound=kw.get("bound", "")))

    def view(s):
        p = s.packed
        return p.unpacked, p.unpack(), p.as_original(), p.unpack(dtype_policy="declared"), p

    def post_view(a, r):
        x = a[0]
        obs = []
        for p, dt, sh, b in specs:
            n = ".".join(p)
            want = get(x, p)
            full = batch + sh
            for k, nm in ((0, "unpacked"), (1, "unpack()")):
                g = get(r[k], p)
                obs.append((f"{nm}.{n}", bv(g.shape == full and g.dtype == ddt(b)) & same_num(g, want)))
            for k, nm in ((2, "as_original"), (3, "declared")):
                g = get(r[k], p)
                obs.append((f"{nm}.{n}", bv(g.shape == full and g.dtype == dt) & g.same(want)))
        tb = sum(b * math.prod(sh) for _, _, sh, b in specs)
        w, t = r[4].words, r[4].tail
        obs.append(("storage", bv(w.shape[:-1] == batch and t.shape[:-1] == batch and 32 * w.shape[-1] + 8 * t.shape[-1] >= tb and 32 * w.shape[-1] + 8 * t.shape[-1] < tb + 32)))
        return obs

    add("roundtrip", view, (st,), post_view, ok, lambda rng: (mk(rng),), (".packed", ".unpacked", "unpack", "as_original"))

    def fields_fn(s):
        p = s.packed
        o = []
        for path, dt, sh, b in specs:
            n = math.prod(sh)
            nm = ".".join(path)
            o.append((p.unpack_field(nm), p.unpack_field(nm, dtype_policy="declared"),
                      p.unpack_field(nm, indices=slice(None, None, -1)) if n else None,
                      p.unpack_field(nm, indices=slice(1, n + 5, 2)) if n else None,
                      p.unpack_field(nm, indices=slice(-2, None)) if n else None,
                      p.unpack_field(nm, indices=[n - 1, 0, n - 1]) if n else None,
                      p.unpack_field(nm, indices=n - 1, dtype_policy="declared") if n else None))
        return tuple(o)

    def post_fields(a, r):
        obs = []
        for i, (path, dt, sh, b) in enumerate(specs):
            n = math.prod(sh)
            nm = ".".join(path)
            x = get(a[0], path)
            xf = x.map(lambda e: e.reshape(batch + (n,)))
            ent = r[i]
            obs.append((f"unpack_field({nm})", bv(ent[0].shape == batch + sh and ent[0].dtype == ddt(b)) & same_num(ent[0], x)))
            obs.append((f"unpack_field({nm}, declared)", bv(ent[1].shape == batch + sh and ent[1].dtype == dt) & ent[1].same(x)))
            if n:
                for k, sel in ((2, slice(None, None, -1)), (3, slice(1, n + 5, 2)), (4, slice(-2, None)), (5, [n - 1, 0, n - 1]), (6, [n - 1])):
                    w = xf.map(lambda e: e[..., sel])
                    obs.append((f"unpack_field({nm}, indices={sel})", same_num(ent[k], w) if k != 6 else ent[k].same(w)))
        return obs

    add("unpack_field", fields_fn, (st,), post_fields, ok, lambda rng: (mk(rng),), ("unpack_field",))

    def inj(x, y):
        p, q = x.packed, y.packed
        return p, q

    def post_inj(a, r):
        same = And(get(a[0], p).same(get(a[1], p)) for p, *_ in specs)
        return [("equal words and tail exactly when all fields are equal", Iff(same_tree(r[0], r[1]), same))]

    def two(rng):
        x = mk(rng)
        return (x, x if rng.random() < 0.5 else mk(rng))

    if batch in ((), (2,)):
        add("injective", inj, (st, st), post_inj, lambda x, y: And(ok(x), ok(y)), two, (".packed",))

    # the other direction: arbitrary packed content -> unpack -> pack reproduces every bit below total_bits
    pst = inst(C.Packed, batch)
    tb = sum(b * math.prod(sh) for _, _, sh, b in specs)

    def back(q):
        return q.as_original().packed

    def post_back(a, r):
        w0, w1 = a[0].words, r.words
        t0, t1 = a[0].tail, r.tail
        nw, nt = w0.shape[-1], t0.shape[-1]
        obs = []
        for j in range(nw):
            hi = max(0, min(32, tb - 32 * j))
            m = (1 << hi) - 1
            obs.append((f"word {j}", And((x & u32(m)) == y for x, y in zip(w0.map(lambda e: e[..., j]).flat(), w1.map(lambda e: e[..., j]).flat()))))
        for j in range(nt):
            hi = max(0, min(8, tb - 32 * nw - 8 * j))
            m = lit((1 << hi) - 1, np.uint8)
            obs.append((f"tail {j}", And((x & m) == y for x, y in zip(t0.map(lambda e: e[..., j]).flat(), t1.map(lambda e: e[..., j]).flat()))))
        return obs or [("empty", TRUE)]

    add("repack", back, (pst,), post_back, None, None, ("as_original", ".packed"))
    return out


def group_any(fields, nb=1, which=("roundtrip", "unpack_field", "injective", "repack")):
    """any batch sizes: entry by entry, for the entries whose values fit"""
    from .sized import Forall, PCase, pinst

    C = ag(*fields)
    specs = list(leafspecs(fields))
    dims = "nm"[:nb]
    bs = lambda D: tuple(getattr(D, d) for d in dims)
    tag = ",".join(f"{'.'.join(p)}:{dt}{list(sh)}@{b}" for p, dt, sh, b in specs) + f"/batch=[{','.join(dims)}]/any size"
    tb = sum(b * math.prod(sh) for _, _, sh, b in specs)
    out = []

    def ok(x, i):
        return And(fits_v(v, b) for p, dt, sh, b in specs for v in get(x, p).rows(*i).flat())

    def shp(g, D, *tail):
        return bv(len(g.dims) == nb + len(tail)) & And([p == q for p, q in zip(g.dims, list(bs(D)) + [u32(t) for t in tail])])

    def rowwise(x, D, f):
        return Forall(bs(D), lambda *i: Implies(ok(x, i), f(i)))

    def mk(rng, l):
        import jax as _j

        return _j.tree_util.tree_map_with_path(lambda path, q: clipl(rng, q, next(b for p, _, _, b in specs if p == tuple(k.name for k in path))), l)

    st = lambda D: pinst(C, bs(D))

    def add(name, fn, args, post, smp, fns):
        if name in which:
            out.append(PCase(f"{name}/{tag}", fn, args, post, dims, sample=smp, nsample=1, sizelimit=1 << 24, functions=fns))

    def view(s):
        p = s.packed
        return p.unpacked, p.unpack(), p.as_original(), p.unpack(dtype_policy="declared"), p

    def post_view(a, r, D):
        x, obs = a[0], []
        for p, dt, sh, b in specs:
            n = ".".join(p)
            want = get(x, p)
            for k, nm in enumerate(("unpacked", "unpack()", "as_original", "declared")):
                g = get(r[k], p)
                t = ddt(b) if k < 2 else dt
                obs.append((f"{nm}.{n}", shp(g, D, *sh) & bv(g.dtype == t) & rowwise(x, D, (lambda i, g=g, want=want: same_num(g.rows(*i), want.rows(*i))) if k < 2 else (lambda i, g=g, want=want: g.rows(*i).same(want.rows(*i))))))
        w, t = r[4].words, r[4].tail
        nw, nt = w.shape[-1], t.shape[-1]
        obs.append(("storage", shp(w, D, nw) & shp(t, D, nt) & bv(tb <= 32 * nw + 8 * nt < tb + 32)))
        return obs

    add("roundtrip", view, lambda D: (st(D),), post_view, lambda rng, D: (mk(rng, st(D)),), (".packed", ".unpacked", "unpack", "as_original"))

    def fields_fn(s):
        p = s.packed
        o = []
        for path, dt, sh, b in specs:
            n = math.prod(sh)
            nm = ".".join(path)
            o.append((p.unpack_field(nm), p.unpack_field(nm, dtype_policy="declared"), p.unpack_field(nm, indices=slice(None, None, -1)) if n else None, p.unpack_field(nm, indices=[n - 1, 0, n - 1]) if n else None))
        return tuple(o)

    def post_fields(a, r, D):
        x, obs = a[0], []
        for i, (path, dt, sh, b) in enumerate(specs):
            n = math.prod(sh)
            nm = ".".join(path)
            want, e = get(x, path), r[i]
            flat = lambda j, want=want: list(want.rows(*j).flat())
            obs.append((f"unpack_field({nm})", shp(e[0], D, *sh) & bv(e[0].dtype == ddt(b)) & rowwise(x, D, lambda j, g=e[0], want=want: same_num(g.rows(*j), want.rows(*j)))))
            obs.append((f"unpack_field({nm}, declared)", shp(e[1], D, *sh) & bv(e[1].dtype == dt) & rowwise(x, D, lambda j, g=e[1], want=want: g.rows(*j).same(want.rows(*j)))))
            if n:
                for k, sel in ((2, range(n - 1, -1, -1)), (3, (n - 1, 0, n - 1))):
                    obs.append((f"unpack_field({nm}, indices={list(sel)[:3]}..)", shp(e[k], D, len(sel)) & rowwise(x, D, lambda j, g=e[k], sel=sel, flat=flat: And(num(u) == num(flat(j)[q]) for u, q in zip(g.rows(*j).flat(), sel)))))
        return obs

    add("unpack_field", fields_fn, lambda D: (st(D),), post_fields, lambda rng, D: (mk(rng, st(D)),), ("unpack_field",))

    def post_inj(a, r, D):
        x, y = a
        return [("words and tail of two entries are equal exactly when their fields are", Forall(bs(D), lambda *i: Implies(ok(x, i) & ok(y, i), Iff(And(getattr(r[0], f).rows(*i).same(getattr(r[1], f).rows(*i)) for f in ("words", "tail")),
                 And(get(x, p).rows(*i).same(get(y, p).rows(*i)) for p, *_ in specs)))))]

    add("injective", lambda x, y: (x.packed, y.packed), lambda D: (st(D), st(D)), post_inj, lambda rng, D: (mk(rng, st(D)), mk(rng, st(D))), (".packed",))

    def post_back(a, r, D):
        obs = []
        for f, wd, base in (("words", 32, 0), ("tail", 8, 32 * getattr(a[0], "words").shape[-1])):
            x, y = getattr(a[0], f), getattr(r, f)
            masks = [(1 << max(0, min(wd, tb - base - wd * j))) - 1 for j in range(x.shape[-1])]
            obs.append((f, shp(y, D, len(masks)) & Forall(bs(D), lambda *i, x=x, y=y, masks=masks: And((u & lit(m, u.dt)) == v for u, v, m in zip(x.rows(*i).flat(), y.rows(*i).flat(), masks)))))
        return obs

    add("repack", lambda q: q.as_original().packed, lambda D: (pinst(C.Packed, bs(D)),), post_back, None, ("as_original", ".packed"))
    return out


u8, u16, U32, i8, i16, i32, bl = "uint8", "uint16", "uint32", "int8", "int16", "int32", "bool"
TABLE = [
    ((("flag", bl, (), 1), ("small", u8, (3,), 3), ("mid", u16, (2, 2), 12), ("big", U32, (), 21)), [(), (2,), (3, 2), (0,), (1,)]),
    ((("a", U32, (5,), 32),), [(), (2,)]),
    ((("a", U32, (3,), 31), ("b", bl, (3,), 1)), [(), (2,)]),
    ((("a", bl, (7,), 1),), [(), (2,)]),
    ((("a", bl, (8,), 1), ("b", u8, (), 8)), [(), (3,)]),
    ((("a", u8, (3,), 8),), [(), (2,)]),
    ((("a", u8, (), 5),), [(), (2,)]),
    ((("a", u16, (), 16), ("b", u16, (), 16)), [()]),
    ((("a", u16, (), 16), ("b", u16, (2,), 16)), [(2,)]),
    ((("a", i8, (2,), 7), ("b", i32, (2,), 20), ("c", i16, (3,), 9)), [(), (2,)]),
    ((("a", u8, (), 1), ("b", U32, (2,), 1)), [(2,)]),
    ((("x", u8, (2,), 4), ("n", (("p", bl, (2,), 1), ("q", U32, (2,), 27), ("m", (("z", u16, (), 11),))), ), ("y", U32, (), 30)), [(), (2,), (2, 2)]),
    ((("n", (("p", bl, (), 1),)), ("k", (("p", bl, (), 1), ("r", u8, (3,), 7)))), [(), (2,)]),
    ((("e", u8, (0,), 3), ("b", u8, (2,), 3)), [(2,)]),
    ((("a", bl, (2, 0, 3), 1), ("c", U32, (2,), 17)), [()]),
]


def cases(tier):
    out = []
    T = tier == "thorough"
    for fields, batches in TABLE:
        for b in batches:
            out += group(fields, b)
    for fields in dict.fromkeys(f for f, _ in TABLE):
        out += group_any(fields) + (group_any(fields, 2, ("roundtrip", "repack")) if T else [])
    # every width, in the straddling position, with neighbours of other widths
    for b in range(1, 33):
        dt = bl if b == 1 else u8 if b <= 8 else u16 if b <= 16 else U32
        o = (b * 7) % 31 + 1
        odt = bl if o == 1 else u8 if o <= 8 else u16 if o <= 16 else U32
        f = (("l", odt, (), o), ("v", dt, (3,), b), ("r", bl, (), 1))
        out += group(f, (2,), which=None if T else ("roundtrip", "unpack_field") if b % 2 else ("roundtrip", "repack", "injective"))
        if T or b % 3 == 1:
            out += group_any(f, which=("roundtrip", "repack"))
            out += group_any(f, 2, which=("roundtrip",)) if T or b % 2 else []
        if T:
            f = (("v", dt, (2, 3), b), ("l", odt, (5,), o), ("w", dt, (), b))
            out += group(f, ())
    for b in (1, 3, 5, 7, 11, 13, 24, 29, 32):
        dt = bl if b == 1 else u8 if b <= 8 else u16 if b <= 16 else U32
        f = (("h", bl, (3,), 1), ("v", dt, (67,), b), ("w", u16, (5, 5), 13))
        out += group(f, (33,), which=("roundtrip", "unpack_field"), mode="bounded", nsample=1, bound="33 entries of 95 values, 1 random input")
    # more values than fit 8- and 16-bit table entries
    out += group((("a", u8, (150,), 3), ("b", u8, (), 5), ("c", u16, (120,), 9)), (), which=("roundtrip",))
    for n, b in ((150, 3), (300, 7), (700, 1), (33500, 2), (66000, 1)):
        dt = bl if b == 1 else u8
        out += group((("h", u16, (3,), 13), ("v", dt, (n,), b), ("w", u16, (5,), 11)), (), which=("roundtrip", "unpack_field"), mode="bounded", nsample=1, bound=f"{n} values, 1 random input")
    return out
