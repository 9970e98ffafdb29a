"""C10 Bit packing round-trips.

from_uint8(to_uint8(x, b), shape, b)[i] = x[i] mod 2**b,  len(to_uint8(x, b)) = packed_num_bytes(n, b) for the real packed_num_bytes.
"""
import math

from .common import *
from xtructure.core.xtructure_decorators.aggregate_bitpack.bitpack import from_uint8, packed_num_bytes, to_uint8


def as_u32(v):
    """element as an unsigned 32-bit value (sign extension of signed inputs, as astype does)"""
    if np.dtype(v.dt) == np.bool_:
        return Ite(v, u32(1), u32(0))
    return v if np.dtype(v.dt) == np.uint32 else v.astype(np.uint32)


def rt(shape, dt, bits, **kw):
    n = math.prod(shape)
    mask = (1 << bits) - 1

    def fn(x):
        p = to_uint8(x, bits)
        return p, from_uint8(p, shape, bits)

    def post(a, r):
        x = a[0]
        p, y = r
        obs = [("packed length", bv(p.shape == (packed_num_bytes(n, bits),) and p.dtype == np.uint8)), ("unpacked shape", bv(y.shape == tuple(shape)))]
        if not obs[1][1].e:
            return obs
        obs.append(("unpacked dtype", bv(y.dtype == (np.bool_ if bits == 1 else np.uint8 if bits <= 8 else np.uint32))))
        if bits == 1:
            want = [v if np.dtype(v.dt) == np.bool_ else v != lit(0, v.dt) for v in x.flat()]
            obs += [(f"element {i // 8 * 8}..", Iff(g, w)) for i, (g, w) in enumerate(zip(y.flat(), want))]
        else:
            obs += [(f"element {i // 8 * 8}..", as_u32(g) == (as_u32(v) & u32(mask))) for i, (g, v) in enumerate(zip(y.flat(), x.flat()))]
        return obs

    return Case(f"roundtrip/{np.dtype(dt)}{list(shape)}/bits={bits}", fn, (S(shape, dt),), post=post, functions=("to_uint8", "from_uint8", "packed_num_bytes"), nsample=2, **kw)


def rt_any(bits, r, dt, fixed=()):
    """any length vpb*k + r (k >= 1, vpb values share whole bytes): all lengths are covered by the residues and the lengths below vpb"""
    from .sized import Forall, PCase, PS

    vpb = 8 // math.gcd(bits, 8)
    mask = (1 << bits) - 1
    size = lambda D: vpb * D.k + r

    def fn(x):
        p = to_uint8(x, bits)
        n = x.shape[0]
        assert p.shape == (packed_num_bytes(n, bits),), "packed length"
        return p, from_uint8(p, x.shape, bits)

    def post(a, res, D):
        x = a[0]
        p, y = res
        nb = D.k * u32(vpb * bits // 8) + u32(-(-(r * bits) // 8) if bits in (1, 2, 4, 8) else (vpb * bits // 8 if r else 0))
        obs = [("packed length", And(bv(p.dtype == np.uint8 and len(p.dims) == 1), p.dims[0] == nb)), ("unpacked shape", And(bv(len(y.dims) == 1), y.dims[0] == x.dims[0])),
               ("unpacked dtype", bv(y.dtype == (np.bool_ if bits == 1 else np.uint8 if bits <= 8 else np.uint32)))]
        n = x.dims[0]

        def one(i):
            return Iff(y[i], x[i] if x.dtype == np.bool_ else x[i] != lit(0, x.dtype)) if bits == 1 else as_u32(y[i]) == (as_u32(x[i]) & u32(mask))

        for j in range(vpb):  # position j of any block
            m = D.k + u32(1 if j < r else 0)
            obs.append((f"element {j} of every block", Forall(m, lambda q, j=j: one(q * u32(vpb) + u32(j)))))
        return obs

    return PCase(f"roundtrip/{np.dtype(dt)}[{vpb}k+{r}]/bits={bits}/any size", fn, lambda D: (PS((size(D),), dt),), post, ("k",), functions=("to_uint8", "from_uint8", "packed_num_bytes"), nsample=1, sizelimit=1 << 24)


def inject(n, bits):
    """equal packed bytes imply equal values: unpacking a packed stream determines every value (two inputs, one obligation)"""
    mask = (1 << bits) - 1

    def fn(x, y):
        return to_uint8(x, bits), to_uint8(y, bits)

    def post(a, r):
        x, y = a
        p, q = r
        cls_ = (lambda u: u != u32(0)) if bits == 1 else (lambda u: u & u32(mask))
        same = And(Iff(cls_(u), cls_(v)) if bits == 1 else cls_(u) == cls_(v) for u, v in zip(x.flat(), y.flat()))
        return [("same bytes exactly when same values", Iff(p.same(q), same))]

    return Case(f"injective/n={n}/bits={bits}", fn, (S((n,), np.uint32), S((n,), np.uint32)), post=post, functions=("to_uint8",), nsample=2)


def length_facts():
    """packed_num_bytes: enough room, never more than one block too much, additive over whole blocks, monotone"""
    def fn():
        bad = []
        for b in range(1, 33):
            block = b * 8 // math.gcd(b, 8) // 8
            vpb = block * 8 // b
            prev = 0
            for n in range(0, 400):
                m = packed_num_bytes(n, b)
                if not (8 * m >= n * b and 8 * m < n * b + 8 * max(block, 1) + 8 and m >= prev and packed_num_bytes(n + vpb, b) == m + block):
                    bad.append((n, b))
                prev = m
        return jnp.asarray(len(bad))

    return Case("packed_num_bytes/n<400", fn, (), post=lambda a, r: [("length formula", r.v == 0)], functions=("packed_num_bytes",), mode="bounded", nsample=1, bound="all n < 400, all widths")


def cases(tier):
    out = []
    T = tier == "thorough"
    for b in range(1, 33):
        vpb = 8 // math.gcd(b, 8)
        lens = {0, 1, vpb, vpb + 1, 2 * vpb + 3}
        if T:
            lens |= set(range(0, 3 * vpb + 2)) | {33, 64}
        for n in sorted(lens):
            out.append(rt((n,), np.uint32, b))
        dts = [np.uint8, np.int32, np.uint16, np.int8] if T else [[np.uint8, np.int32, np.uint16, np.int8][b % 4]]
        for dt in dts:
            out.append(rt((vpb + 1,), dt, b))
        out.append(rt((2, 3), np.uint32, b))
        out.append(inject(vpb + 1, b))
    out += [rt((n,), np.bool_, 1) for n in (0, 1, 7, 8, 9, 17, 64)] + [rt((3, 1, 5), np.bool_, 1), rt((), np.uint32, 5), rt((), np.bool_, 1)]
    for b in range(1, 33):
        for r in range(8 // math.gcd(b, 8)):
            out.append(rt_any(b, r, np.uint32))
            out.append(rt_any(b, r, [np.uint8, np.int32, np.uint16, np.int8][(b + r) % 4]))
    out += [rt_any(1, r, np.bool_) for r in range(8)]
    out.append(length_facts())
    for b in range(1, 33):
        for n in ([1000, 4099] if T else [1001]):
            c = rt((n,), np.uint32, b, mode="bounded", bound=f"{n} random values")
            c.nsample = 1
            out.append(c)
    return out
