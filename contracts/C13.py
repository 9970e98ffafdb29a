"""C13 save/load round-trips every instance.

The real save()/load() run symbolically; only the file layer (np.savez_compressed / np.load, numpy itself) is replaced while tracing by its
assumed contract: every array comes back with the same name, shape, contents and dtype, except that dtypes the npy format cannot name
(bfloat16, float8, ...) come back as untyped bytes.  The concrete runs (cross-checks, replays, bounded cases) use real files.
"""
import os
import pathlib
import shutil
import sys
import tempfile

import xtructure.io as xio

from .common import *

Tracer = jax.core.Tracer


class Untyped:
    """what npz gives back for an extension dtype: raw bytes without the type"""

    def __init__(self, tracer):
        self.t = tracer
        self.shape = tracer.shape
        self.dtype = np.dtype(f"V{np.dtype(tracer.dtype).itemsize}")

    def view(self, dt):
        dt = np.dtype(dt)
        if dt.itemsize != self.dtype.itemsize:
            raise ValueError("itemsize")
        return self.t if dt == self.t.dtype else jax.lax.bitcast_convert_type(self.t, dt)


class Npz(dict):
    files = property(lambda self: list(self))
    f = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass


class NumpyProxy:
    def __init__(self, store):
        self._store = store

    def __getattr__(self, k):
        return getattr(np, k)

    def asarray(self, x, dtype=None, *a, **k):
        if isinstance(x, (Tracer, Untyped)):
            return x if dtype is None or np.dtype(dtype) == x.dtype else x.astype(dtype)
        return np.asarray(x, dtype, *a, **k)

    array = asarray

    def savez_compressed(self, file, *args, allow_pickle=True, **kwds):
        file = os.fspath(file)
        if not file.endswith(".npz"):
            file += ".npz"
        d = Npz()
        for k, v in list(kwds.items()) + [(f"arr_{i}", v) for i, v in enumerate(args)]:
            if isinstance(v, Tracer):
                d[k] = Untyped(v) if np.dtype(v.dtype).kind == "V" else v
            else:
                v = np.asarray(v)
                d[k] = v.view(f"V{v.dtype.itemsize}") if v.dtype.kind == "V" else v
        open(file, "wb").close()
        self._store[os.path.abspath(file)] = d

    savez = savez_compressed

    def load(self, file, *a, **k):
        file = os.fspath(file)
        if not os.path.exists(file):
            raise FileNotFoundError(file)
        return Npz(self._store[os.path.abspath(file)])


class scratch:
    """a scratch directory; symbolic file layer when the instance is being traced"""

    def __init__(self, *trees):
        self.sym = any(isinstance(l, Tracer) for t in trees for l in jax.tree_util.tree_leaves(t))

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="jxv-io-")
        self.patched = []
        if self.sym:
            proxy = NumpyProxy({})
            for n, m in list(sys.modules.items()):
                if n.startswith("xtructure.io") and getattr(m, "np", None) is np:
                    m.np = proxy
                    self.patched.append(m)
        return self.d

    def __exit__(self, *a):
        for m in self.patched:
            m.np = np
        shutil.rmtree(self.d, ignore_errors=True)


def reg(name, ann, **kw):
    c = xtructure_dataclass(type(name, (), {"__annotations__": dict(ann), "__module__": __name__}), **kw)
    globals()[name] = c
    return c


def f(dt, sh=(), **kw):
    return F.tensor(dtype=dt, shape=sh, **kw)


Plain = reg("Plain", dict(a=f(jnp.uint32), b=f(jnp.float32, (2,)), c=f(jnp.bool_, (3,)), d=f(jnp.int8, fill_value=0), e=f(jnp.uint16, (2, 1))))
Wide = reg("Wide", dict(h=f(jnp.float16, (2,)), b=f(jnp.bfloat16, (3,)), i=f(jnp.int32, (), fill_value=-1)))
Fp8 = reg("Fp8", dict(x=f(jnp.float8_e4m3fn, (3,)), y=f(jnp.uint8)))
Bits = reg("Bits", dict(a=f(jnp.uint8, (3,), bits=3), b=f(jnp.bool_, (5,), bits=1), c=f(jnp.uint16, (), bits=12)))
BitsS = reg("BitsS", dict(a=f(jnp.int8, (2,), bits=5, fill_value=0), b=f(jnp.int32, (2,), bits=20, fill_value=0)))
Bits1 = reg("Bits1", dict(a=f(jnp.uint8, (4,), bits=1), b=f(jnp.uint32, (2,), bits=32)))
BitsF = reg("BitsF", dict(a=f(jnp.float32, (2,), bits=8), b=f(jnp.bool_, (2,), bits=3), c=f(jnp.float16, (), bits=1)))
Emp = reg("Emp", dict(a=f(jnp.uint8, (0,), bits=3), b=f(jnp.float32, (2, 0)), c=f(jnp.uint8)))
Names = reg("Names", dict(file=f(jnp.uint32), allow_pickle=f(jnp.bool_, (2,)), path=f(jnp.uint8), args=f(jnp.int16, (), fill_value=0), kwds=f(jnp.uint8, (2,), bits=4)))
NamesIn = reg("NamesIn", dict(file=F.scalar(dtype=Names), arr_0=f(jnp.uint32), data=F.scalar(dtype=One)))
Pk = reg("Pk", dict(p=F.packed_tensor(packed_bits=3, shape=(5,)), q=F.packed_tensor(packed_bits=12, shape=(2, 2)), r=f(jnp.uint8, (), bits=2)))
In1 = reg("In1", dict(a=f(jnp.uint8, (2,), bits=4), b=f(jnp.float32)))
Nest = reg("Nest", dict(x=F.scalar(dtype=In1), y=F.scalar(dtype=In1), a=f(jnp.uint16, (2,), bits=9)))
Nest2 = reg("Nest2", dict(n=F.scalar(dtype=Nest), m=F.tensor(dtype=In1, shape=(2,)), b=f(jnp.bool_)))
AggIO = reg("AggIO", dict(a=f(jnp.bool_, (3,), bits=1), b=f(jnp.uint8, (2,), bits=3), c=f(jnp.uint32, (), bits=21)), aggregate_bitpack=True)
Loose = reg("Loose", dict(a=f(jnp.uint8, (2,), bits=3), b=f(jnp.float32)), validate=False)
Same1 = reg("Same1", dict(a=f(jnp.uint32)))
Same2 = reg("Same2", dict(a=f(jnp.uint32)))


def rt(cls, batch, packed, path="x.npz", via="method", st=None, tag="", **kw):
    st = inst(cls, batch) if st is None else st

    def fn(x):
        with scratch(x) as d:
            p = os.path.join(d, path)
            if via == "method":
                x.save(p, packed=packed)
                y = cls.load(p)
            elif via == "module":
                xio.save(p, x, packed=packed)
                y = xio.load(p)
            elif via == "default":
                x.save(p)
                y = xio.load(p)
            elif via == "pathlib":
                x.save(pathlib.Path(p), packed=packed)
                y = cls.load(pathlib.Path(p))
            return y, dict(same_class=jnp.asarray(type(y) is cls))

    def post(a, r):
        x, y = a[0], r[0]
        obs = [("same class", bool(r[1]["same_class"].v.e) if not hasattr(r[1]["same_class"].v.e, "op") else r[1]["same_class"].v)]
        lx, ly = leaves(x), leaves(y)
        obs.append(("same fields", bv([p for p, _ in lx] == [p for p, _ in ly])))
        for (p, u), (q, v) in zip(lx, ly):
            n = ".".join(map(str, p))
            obs.append((f"{n} has the same shape and dtype", bv(u.shape == v.shape and u.dtype == v.dtype)))
            obs.append((f"{n} has the same contents", u.same(v)))
        return obs

    def samp(rng):
        x = rand_tree(rng, st)
        m = rng.integers(0, 3)
        if m:  # values that fit small widths, so that the packed path is taken
            x = jax.tree_util.tree_map(lambda l: (np.asarray(l) & np.array(1 if m == 1 else 7, l.dtype)) if np.dtype(l.dtype).kind in "iu" else l, x)
        return (x,)

    kw.setdefault("nsample", 4)
    return Case(f"roundtrip/{tag or cls.__name__}/batch={list(batch)}/{'packed' if packed else 'plain'}/{via}/{path}", fn, (st,), post, sample=samp,
                functions=("save", "load"), **kw)


def overwrite():
    def fn(x, y, z):
        with scratch(x, y, z) as d:
            p, q = os.path.join(d, "p.npz"), os.path.join(d, "q.npz")
            x.save(p)
            y.save(q, packed=False)
            a = Bits.load(p)
            z.save(p)
            return a, Bits.load(p), Bits.load(q), Bits.load(p)

    st, st2 = inst(Bits, (2,)), inst(Bits)
    return Case("history/overwrite", fn, (st, st, st2),
                lambda a, r: [("first", same_tree(a[0], r[0])), ("after overwriting", same_tree(a[2], r[1])), ("other file", same_tree(a[1], r[2])), ("loading again", same_tree(a[2], r[3]))],
                functions=("save", "load"), nsample=4)


def rejects():
    def mk(cls, other):
        def go():
            with tempfile.TemporaryDirectory(prefix="jxv-io-") as d:
                p = os.path.join(d, "x.npz")
                cls.default((2,)).save(p)
                other.load(p)

        return go

    return Case("reject/other class", None, (), None, must_raise=lambda: [(f"{o.__name__}.load of a saved {c.__name__}", mk(c, o), TypeError)
                for c, o in ((Same1, Same2), (Same2, Same1), (Plain, Bits), (In1, Nest), (Nest, In1), (One, Same1), (AggIO, Bits))], functions=("load",))


def cases(tier):
    T = tier == "thorough"
    out = [overwrite(), rejects()]
    for cls in (Plain, Wide, Fp8, Bits, BitsS, Bits1, BitsF, Emp, Names, NamesIn, Pk, In1, Nest, Nest2, AggIO, Mixed, Deep, Mat):
        for packed in (True, False):
            for b in [(), (2,), (3, 1), (0,)] + ([(2, 2), (1,), (2, 0)] if T else []):
                out.append(rt(cls, b, packed))
    for cls in (Bits, Plain, Nest):
        out += [rt(cls, (2,), True, path="noext"), rt(cls, (2,), True, path="a.b"), rt(cls, (2,), False, path="new/dir/x.npz"), rt(cls, (2,), True, via="module"),
                rt(cls, (), False, via="module"), rt(cls, (2,), True, via="default"), rt(cls, (2,), True, via="pathlib"), rt(cls, (), False, path="noext", via="pathlib")]
    # unstructured / off-declaration instances of a class without validation
    odd = Loose(a=S((3, 5), np.int32), b=S((4,), np.float16))
    odd2 = Loose(a=S((), np.uint32), b=S((2, 2), jnp.bfloat16))
    odd3 = Loose(a=S((2, 2), np.bool_), b=S((2,), np.uint8))
    for k, o in enumerate((odd, odd2, odd3)):
        for packed in (True, False):
            out.append(rt(Loose, (), packed, st=o, tag=f"Loose-odd{k}"))
    for b in range(1, 33):
        dt = jnp.bool_ if b == 1 else jnp.uint8 if b <= 8 else jnp.uint16 if b <= 16 else jnp.uint32
        c = reg(f"Width{b}", dict(a=f(dt, (5,), bits=b), z=f(jnp.uint8)))
        out.append(rt(c, (2,), True))
        out.append(rt(c, (50, 7), True, mode="bounded", bound="1750 values per field, random", nsample=3))
    for cls, packed in ((One, True), (One, False), (Bits1, True)):
        out.append(rt(cls, (70000,), packed, mode="bounded", bound="70000 rows, random", nsample=1))
    for cls in (Plain, Bits, Nest2, AggIO, Wide):
        out.append(rt(cls, (1000,), True, mode="bounded", bound="1000 rows, random", nsample=2))
    return out
