"""Parametric generator: arrays whose dimensions are symbolic (arbitrary sizes), elements given by index functions.

The real code is traced with symbolic dimensions (jax.export.symbolic_shape); every array with a symbolic dimension is a closure from
32-bit index terms to an element term, inputs are uninterpreted functions of their indices.  Data movement, gather, scatter, sort and
reductions over symbolic dimensions are encoded below; element operations reuse the fixed-shape generator on single elements.
"""
from __future__ import annotations

import itertools
import math
import time
from types import SimpleNamespace as SN

import jax
import jax.numpy as jnp
import numpy as np
from jax import lax
from jax._src.export import shape_poly as sp

from . import interp as ip
from . import solve
from . import term as tm
from .interp import CALLS, IDENT, Interp, SArr, Unsupported, Budget, conc, dinfo, obj
from .term import T, isT

IW = 32  # index width
DIM_MAX = 1 << 28


def isdim(d):
    return not isinstance(d, (int, np.integer))


def symbolic(shape):
    return any(isdim(d) for d in shape)


def k_(x):
    return ("t", x.id) if isT(x) else ("c", x)


class PArr:
    """array with symbolic dimensions: fn(index terms) -> element; only meaningful for in-range indices"""

    __slots__ = ("shape", "dtype", "fn", "memo")
    concrete = False

    def __init__(self, shape, dtype, fn):
        self.shape, self.dtype, self.fn, self.memo = tuple(shape), np.dtype(dtype), fn, {}

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, *ix):
        assert len(ix) == len(self.shape), (ix, self.shape)
        # a dimension of size one has the single index 0
        ix = tuple(0 if (not isdim(d) and d == 1) else i for i, d in zip(ix, self.shape))
        key = tuple(k_(i) for i in ix)
        r = self.memo.get(key, self)
        if r is self:
            r = self.memo[key] = self.fn(*ix)
        return r

    def __repr__(self):
        return f"PArr({self.dtype}{list(self.shape)})"


def psel(el, ix, w):
    """element of an object ndarray at (symbolic) indices; out-of-range indices give an arbitrary in-range element"""
    for i in ix:
        n = el.shape[0]
        if n == 0:
            return False if w == 0 else 0
        if not isT(i):
            el = el[i if 0 <= i < n else 0]
            continue
        r = el[n - 1]
        for q in range(n - 2, -1, -1):
            c = tm.eq(i, q, IW)
            r = ip.vite(c, el[q], r, w) if isinstance(r, np.ndarray) else tm.ite_w(c, el[q], r, w)
        el = r
    if isinstance(el, np.ndarray):
        el = el[()]
    return el


def as_p(x):
    if isinstance(x, PArr):
        return x
    w = dinfo(x.dtype)[1]
    return PArr(x.shape, x.dtype, lambda *ix: psel(x.el, ix, w))


class DimV:
    """value of a dimension expression as a 32-bit term (used to evaluate jax's dimension expressions)"""

    def __init__(self, e):
        self.e = e

    def _o(self, o):
        if isinstance(o, DimV):
            return o.e
        return int(o) & 0xFFFFFFFF

    def __add__(self, o):
        return DimV(tm.bin_("add", self.e, self._o(o), IW))

    __radd__ = __add__

    def __mul__(self, o):
        return DimV(tm.bin_("mul", self.e, self._o(o), IW))

    __rmul__ = __mul__


# ------------------------------------------------------------------ index helpers
def add(a, b):
    return tm.bin_("add", a, b, IW)


def sub(a, b):
    return tm.bin_("sub", a, b, IW)


def const(n):
    return int(n) & 0xFFFFFFFF


def to_index(x, dt):
    """32-bit index term of an index element and whether negative values are possible (signed dtype)"""
    k, w = dinfo(dt)
    if k not in "ui":
        raise Unsupported(f"index dtype {dt}")
    if w > IW:  # sizes are below 2^31: larger magnitudes behave alike
        lo, hi = 1 << 31, (1 << 31) - 1
        low = tm.extract(x, w, 0, IW)
        if k == "u":
            return tm.ite_w(tm.ult(hi, x, w), hi, low, IW), False
        return tm.ite_w(tm.slt(hi, x, w), hi, tm.ite_w(tm.slt(x, (1 << w) - lo, w), lo, low, IW), IW), True
    if w < IW:
        x = tm.sext(x, w, IW) if k == "i" else tm.zext(x, w, IW)
    return x, k == "i"


_fresh = [0]


def fresh(k):
    _fresh[0] += 1
    return f"{k}!{_fresh[0]}"


def bound(names, d):
    """values of these functions are at most the size d, which is at most the sum of its positive parts"""
    b = 0
    for t, k in d._sorted_terms:
        nf = sum(e for _, e in t._factors)
        if k > 0:
            b += k * (DIM_MAX ** nf)
    if b < 1 << 31:
        for n in names:
            tm.BOUND[n] = b


def mentions(root, prefix):
    """a variable with that name prefix occurs in the term"""
    st, seen = [root], set()
    while st:
        t = st.pop()
        if isT(t) and t.id not in seen:
            seen.add(t.id)
            if t.op == "var" and t.p.startswith(prefix):
                return True
            st.extend(t.args)
    return False


def positive(d):
    if not isdim(d):
        return d >= 1
    return sp._bounds_decision(d, sp.BoundsPrecision.BEST)[0] >= 1


def clamp(s, signed, hi):
    """clamp a start index to [0, hi]"""
    if signed:
        s = tm.ite_w(tm.slt(s, 0, IW), 0, s, IW)
        return tm.ite_w(tm.slt(hi, s, IW), hi, s, IW)
    return tm.ite_w(tm.ult(hi, s, IW), hi, s, IW)


class Group:
    """facts, quantified facts (f, tag): f(j) holds for every 32-bit j, and index terms (t, tag) at which to instantiate them"""

    def __init__(self):
        self.facts, self.schemas, self.cands = [], [], []


class PInterp(Interp):
    def __init__(self, dims, **kw):
        super().__init__(**kw)
        self.dims = dims  # name -> 32-bit term
        for d in dims.values():
            if isT(d):
                tm.BOUND[d.p] = DIM_MAX
        self.base = Group()  # facts that always apply
        self.trig = {}  # id of a skolem term -> facts that apply once it occurs in a formula
        self.sk = {}  # witness function name -> evaluation by search
        self.sorts = {}  # sort name -> definition
        self.memo_sc = set()
        self.instm = {}
        self.cse = {}
        self.wide = self.settled = False
        self.probes = {}
        tm.PRODMAX[0] = None

    # -------------------------------------------------------------- dimensions
    def multiplied(self):
        """sizes are multiplied: their products are bounded by the precondition"""
        if not self.settled:
            self.wide = True
            tm.PRODMAX[0] = DIM_MAX

    def dim(self, d):
        if not isdim(d):
            return const(d)
        if isinstance(d, DimV):
            return d.e
        return self._dim(d)

    def _dim(self, d):
        r = 0
        for t, k in d._sorted_terms:
            p = const(k)
            nf = 0
            for f, e in t._factors:
                v = self._factor(f)
                for _ in range(e):
                    p = tm.bin_("mul", p, v, IW)
                    nf += 1
            if nf > 1:
                self.multiplied()
            r = add(r, p)
        return r

    def _factor(self, f):
        if f.var is not None:
            return self.dims[f.var]
        a, b = (self.dim(o if isdim(o) and o._is_constant is None else (o if isdim(o) else int(o))) for o in f.operands)
        if f.operation == "max":
            return tm.ite_w(tm.slt(a, b, IW), b, a, IW)
        if f.operation == "min":
            return tm.ite_w(tm.slt(a, b, IW), a, b, IW)
        # floor division and modulo by a positive value
        self.assumed.add("dimension division by positive dimensions")
        neg = tm.slt(a, 0, IW)
        c = tm.ite_w(neg, tm.bin_("sub", 0xFFFFFFFF, a, IW), a, IW)  # -a-1 when negative
        q, r = tm.bin_("udiv", c, b, IW), tm.bin_("urem", c, b, IW)
        if f.operation == "floordiv":
            return tm.ite_w(neg, tm.bin_("sub", 0xFFFFFFFF, q, IW), q, IW)
        return tm.ite_w(neg, sub(sub(b, 1), r), r, IW)

    # -------------------------------------------------------------- driver
    def eval_jaxpr(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if hasattr(v, "val"):
                return conc(np.asarray(v.val, dtype=v.aval.dtype))
            return env[v]

        for v, x in zip(jaxpr.constvars, consts):
            env[v] = x
        assert len(jaxpr.invars) == len(args)
        for v, x in zip(jaxpr.invars, args):
            env[v] = x
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            outs, ck = None, None
            if eqn.primitive.name not in CALLS and not any("Jaxpr" in type(p).__name__ or isinstance(p, tuple) and any("Jaxpr" in type(q).__name__ for q in p) for p in eqn.params.values()):
                # equal operations on the same arrays have one result
                ck = (eqn.primitive.name, str(sorted(eqn.params.items(), key=lambda kv: kv[0])), tuple(self._ckey(x) for x in ins))
                outs = self.cse.get(ck, (None, None))[1]
            if outs is None:
                outs = self.eqn(eqn, ins)
                if ck is not None:
                    self.cse[ck] = (ins, outs)  # keeps the operands alive: their ids are part of the key
            if not isinstance(outs, (list, tuple)):
                outs = [outs]
            assert len(outs) == len(eqn.outvars), eqn.primitive.name
            for v, x in zip(eqn.outvars, outs):
                if type(v).__name__ != "DropVar":
                    if len(x.shape) != len(v.aval.shape) or x.dtype != v.aval.dtype:
                        raise AssertionError(f"{eqn.primitive.name}: got {x} expected {v.aval}")
                    env[v] = x
            if tm._ctr[0] > self.max_terms:
                raise Budget("term budget exhausted")
        return [read(v) for v in jaxpr.outvars]

    def _ckey(self, x):
        if isinstance(x, SArr) and x.el.size <= 64:
            return (str(x.dtype), x.shape, tuple(k_(e) for e in x.el.reshape(-1)))
        return id(x)

    def eqn(self, eqn, ins):
        name = eqn.primitive.name
        if name == "dim_as_value":
            e = self.dim(eqn.params["dim"])
            dt = eqn.outvars[0].aval.dtype
            return SArr(dt, el=obj([tm.zext(e, IW, dinfo(dt)[1]) if dinfo(dt)[1] > IW else e], ()))
        if name in CALLS:
            return super().eqn(eqn, ins)
        sym = any(isinstance(x, PArr) for x in ins) or any(symbolic(getattr(v.aval, "shape", ())) for v in eqn.outvars) or name == "shape_assertion"
        if not sym:
            if name in ("dynamic_slice", "iota", "broadcast_in_dim", "slice", "pad") and _has_dim(eqn.params):
                sym = True
        if not sym:
            return super().eqn(eqn, ins)
        self.prims[name] = self.prims.get(name, 0) + 1
        if name in IDENT:
            return list(ins) if eqn.primitive.multiple_results else ins[0]
        h = getattr(self, "q_" + name.replace("-", "_"), None)
        if h is None:
            if name in ELEM:
                h = self.elem
            else:
                raise Unsupported(f"primitive {name} on arrays of symbolic size")
        r = h(eqn, ins)
        if isinstance(r, (list, tuple)):
            return [self.norm(x) for x in r]
        return self.norm(r)

    def norm(self, x):
        """arrays with constant dimensions become explicit"""
        if not isinstance(x, PArr) or symbolic(x.shape):
            return x
        n = math.prod(x.shape)
        if n > 4096:
            raise Budget("large constant-size array")
        el = np.empty(x.shape, dtype=object)
        for ix in np.ndindex(*x.shape):
            el[ix] = x.at(*ix)
        return SArr(x.dtype, el=el)

    def out(self, eqn, fn, i=0):
        av = eqn.outvars[i].aval
        return PArr(av.shape, av.dtype, fn)

    # -------------------------------------------------------------- element operations
    def elem(self, eqn, ins):
        av = eqn.outvars[0].aval
        f = SN(primitive=eqn.primitive, params={k: v for k, v in eqn.params.items()}, outvars=[SN(aval=SN(shape=(), dtype=av.dtype))])
        name = eqn.primitive.name
        h = getattr(self, "p_" + name)

        def fn(*ix):
            els = [SArr(x.dtype, el=obj([x.el[()] if not x.shape else as_p(x).at(*ix)], ())) for x in ins]
            if all(e.concrete for e in els):
                r = self.bind_concrete(f, els)
            else:
                r = h(f, els)
            return r.el[()]

        return self.out(eqn, fn)

    def q_bitcast_convert_type(self, eqn, ins):
        (x,) = ins
        src, dst = x.dtype, np.dtype(eqn.outvars[0].aval.dtype)
        (ks, ws), (kd, wd) = dinfo(src), dinfo(dst)
        xp = as_p(x)
        if ks == "b" or kd == "b":
            if ks == kd:
                return x
            if ks == "b" and wd == 8:
                return self.out(eqn, lambda *ix: tm.bool2bv(xp.at(*ix), 8))
            raise Unsupported("bitcast bool")
        if ws == wd:
            return self.out(eqn, xp.at)
        if ws > wd:
            n = ws // wd

            def fn(*ix):
                if isT(ix[-1]):
                    return psel(np.array([tm.extract(xp.at(*ix[:-1]), ws, i * wd, wd) for i in range(n)], dtype=object), ix[-1:], wd)
                return tm.extract(xp.at(*ix[:-1]), ws, ix[-1] * wd, wd)

            return self.out(eqn, fn)
        n = wd // ws
        return self.out(eqn, lambda *ix: tm.concat([(xp.at(*ix, i), ws) for i in range(n)]))

    # -------------------------------------------------------------- structure
    def q_broadcast_in_dim(self, eqn, ins):
        x = ins[0]
        bd = eqn.params["broadcast_dimensions"]
        xp = as_p(x)
        return self.out(eqn, lambda *ix: xp.at(*[0 if (not isdim(d) and d == 1) else ix[b] for d, b in zip(x.shape, bd)]))

    def q_iota(self, eqn, ins):
        d = eqn.params["dimension"]
        dt = np.dtype(eqn.params["dtype"])
        k, w = dinfo(dt)

        def fn(*ix):
            i = ix[d]
            if k in "ui":
                return tm.trunc(i, IW, w) if w <= IW else tm.zext(i, IW, w)
            if dt in (np.dtype(np.float32), np.dtype(np.float64), np.dtype(np.float16)):
                return tm.i2f(i, IW, w, False)
            raise Unsupported(f"iota {dt}")

        return self.out(eqn, fn)

    def q_squeeze(self, eqn, ins):
        (x,) = ins
        xp = as_p(x)
        dims = {d % x.ndim for d in eqn.params["dimensions"]}

        def fn(*ix):
            it = iter(ix)
            return xp.at(*[0 if d in dims else next(it) for d in range(x.ndim)])

        return self.out(eqn, fn)

    def q_expand_dims(self, eqn, ins):
        (x,) = ins
        xp = as_p(x)
        n = len(eqn.outvars[0].aval.shape)
        dims = {d % n for d in eqn.params["dimensions"]}
        return self.out(eqn, lambda *ix: xp.at(*[i for d, i in enumerate(ix) if d not in dims]))

    def q_reshape(self, eqn, ins):
        x = ins[0]
        if eqn.params.get("dimensions") is not None:
            raise Unsupported("reshape with dimensions")
        xp = as_p(x)
        new = tuple(eqn.outvars[0].aval.shape)
        a = [(d, s) for d, s in enumerate(x.shape) if isdim(s) or s != 1]
        b = [(d, s) for d, s in enumerate(new) if isdim(s) or s != 1]
        # matched leading and trailing dimensions, and one group in between
        pre = 0
        while pre < min(len(a), len(b)) and _deq(a[pre][1], b[pre][1]):
            pre += 1
        suf = 0
        while suf < min(len(a), len(b)) - pre and _deq(a[-1 - suf][1], b[-1 - suf][1]):
            suf += 1
        am, bm = a[pre:len(a) - suf], b[pre:len(b) - suf]

        def fn(*ix):
            src = [0] * x.ndim
            for (d, _), (e, _) in zip(a[:pre], b[:pre]):
                src[d] = ix[e]
            for q in range(1, suf + 1):
                src[a[-q][0]] = ix[b[-q][0]]
            if am or bm:
                lin = 0
                for e, s in bm:
                    lin = add(tm.bin_("mul", lin, self.dim(s), IW), ix[e])
                for n, (d, s) in reversed(list(enumerate(am))):
                    if n == 0:
                        src[d] = lin
                    else:
                        src[d] = tm.bin_("urem", lin, self.dim(s), IW)
                        lin = tm.bin_("udiv", lin, self.dim(s), IW)
            return xp.at(*src)

        if am or bm:
            self.multiplied()
        return self.out(eqn, fn)

    def q_transpose(self, eqn, ins):
        (x,) = ins
        xp = as_p(x)
        perm = eqn.params["permutation"]

        def fn(*ix):
            src = [0] * len(perm)
            for o, p in enumerate(perm):
                src[p] = ix[o]
            return xp.at(*src)

        return self.out(eqn, fn)

    def q_concatenate(self, eqn, ins):
        d = eqn.params["dimension"]
        w = dinfo(ins[0].dtype)[1]
        ps = [as_p(x) for x in ins]

        def fn(*ix):
            i = ix[d]
            off, parts = 0, []
            for x in ps:
                n = self.dim(x.shape[d])
                j = sub(i, off)
                off = add(off, n)
                parts.append((tm.ult(i, off, IW), x, j, n))
            r = None
            for q in range(len(parts) - 1, -1, -1):
                c, x, j, n = parts[q]
                if n == 0 and not isT(n):
                    continue
                if c is False and r is not None:
                    continue
                # the element is only looked at when it is selected: keep constant sizes explicit
                e = x.at(*ix[:d], j, *ix[d + 1:])
                r = e if r is None else tm.ite_w(c, e, r, w)
            return r

        return self.out(eqn, fn)

    def q_slice(self, eqn, ins):
        (x,) = ins
        xp = as_p(x)
        st = eqn.params["start_indices"]
        sr = eqn.params["strides"] or (1,) * x.ndim
        return self.out(eqn, lambda *ix: xp.at(*[add(self.dim(s), tm.bin_("mul", i, self.dim(r), IW)) for i, s, r in zip(ix, st, sr)]))

    def q_pad(self, eqn, ins):
        x, v = ins
        xp = as_p(x)
        w = dinfo(x.dtype)[1]
        cfg = eqn.params["padding_config"]

        def fn(*ix):
            ok, src = True, []
            for i, (lo, hi, it), n in zip(ix, cfg, x.shape):
                j = sub(i, self.dim(lo))
                n = self.dim(n)
                if not isdim(it) and it == 0:
                    ok = tm.and_(ok, tm.ult(j, n, IW))
                else:
                    s = add(self.dim(it), 1)
                    q = tm.bin_("udiv", j, s, IW)
                    ok = tm.and_all([ok, tm.eq(tm.bin_("urem", j, s, IW), 0, IW), tm.ult(q, n, IW), tm.not_(tm.slt(j, 0, IW))])
                    j = q
                src.append(j)
            if ok is False:
                return v.el[()]
            return tm.ite_w(ok, xp.at(*src), v.el[()], w)

        return self.out(eqn, fn)

    def q_tile(self, eqn, ins):
        x = as_p(ins[0])
        reps = eqn.params["reps"]
        if symbolic(reps) or max(reps) > 16:
            raise Unsupported("tile with many repetitions")

        def fn(*ix):
            src = []
            for i, d, r in zip(ix, x.shape, reps):
                n, o = self.dim(d), i
                for q in range(1, r):
                    st = tm.bin_("mul", n, q, IW)
                    o = tm.ite_w(tm.ult(i, st, IW), o, sub(i, st), IW)
                src.append(o)
            return x.at(*src)

        return self.out(eqn, fn)

    def q_rev(self, eqn, ins):
        (x,) = ins
        xp = as_p(x)
        dims = eqn.params["dimensions"]
        return self.out(eqn, lambda *ix: xp.at(*[sub(sub(self.dim(n), 1), i) if d in dims else i for d, (i, n) in enumerate(zip(ix, x.shape))]))

    def q_split(self, eqn, ins):
        (x,) = ins
        xp = as_p(x)
        ax, off, outs = eqn.params["axis"], 0, []
        for q, n in enumerate(eqn.params["sizes"]):
            outs.append(self.out(eqn, (lambda *ix, off=off: xp.at(*[add(i, off) if d == ax else i for d, i in enumerate(ix)])), q))
            off = add(off, self.dim(n))
        return outs

    def q_dynamic_slice(self, eqn, ins):
        x, *rest = ins
        st = rest[: x.ndim]
        sizes = eqn.params["slice_sizes"]
        xp = as_p(x)
        s = [self._start(a, n, z) for a, n, z in zip(st, x.shape, sizes)]
        return self.out(eqn, lambda *ix: xp.at(*[add(a, i) for a, i in zip(s, ix)]))

    def _start(self, a, n, size):
        e, sg = to_index(a.el[()], a.dtype)
        return clamp(e, sg, sub(self.dim(n), self.dim(size)))

    def q_dynamic_update_slice(self, eqn, ins):
        x, u, *st = ins
        xp, up = as_p(x), as_p(u)
        w = dinfo(x.dtype)[1]
        s = [self._start(a, n, z) for a, n, z in zip(st, x.shape, u.shape)]

        def fn(*ix):
            off = [sub(i, a) for i, a in zip(ix, s)]
            ok = tm.and_all(tm.ult(o, self.dim(z), IW) for o, z in zip(off, u.shape))
            if ok is False:
                return xp.at(*ix)
            return tm.ite_w(ok, up.at(*off), xp.at(*ix), w)

        return self.out(eqn, fn)

    # -------------------------------------------------------------- gather / scatter
    def q_gather(self, eqn, ins):
        x, idx = ins
        p = eqn.params
        dn, sizes, mode = p["dimension_numbers"], p["slice_sizes"], p["mode"]
        w = dinfo(x.dtype)[1]
        obd = tuple(dn.operand_batching_dims)
        ibd = tuple(dn.start_indices_batching_dims)
        xp, ipx = as_p(x), as_p(idx)
        fill = mode == lax.GatherScatterMode.FILL_OR_DROP
        fv = self._fill(x.dtype, p.get("fill_value")) if fill else None
        odims = eqn.outvars[0].aval.shape
        wdims = [d for d in range(x.ndim) if d not in dn.collapsed_slice_dims and d not in obd]

        def fn(*ix):
            b = [i for d, i in enumerate(ix) if d not in dn.offset_dims]
            off = [0] * x.ndim
            for d, o in zip(wdims, dn.offset_dims):
                off[d] = ix[o]
            ok = True
            for od, sd in zip(obd, ibd):
                off[od] = b[sd]
            for q, d in enumerate(dn.start_index_map):
                e, sg = to_index(ipx.at(*b, q), idx.dtype)
                hi = sub(self.dim(x.shape[d]), self.dim(sizes[d]))
                if fill:
                    ok = tm.and_(ok, tm.ule(e, hi, IW))
                    # outside, the element is not used: no clamping needed
                    off[d] = add(e if not (not isT(e) and not isT(hi) and e > hi) else 0, off[d])
                else:
                    off[d] = add(clamp(e, sg, hi), off[d])
            if ok is False:
                return fv
            v = xp.at(*off)
            return tm.ite_w(ok, v, fv, w) if fill else v

        return self.out(eqn, fn)

    def _pscatter(self, eqn, ins, comb, select=False):
        x, idx, u = ins
        p = eqn.params
        dn, mode = p["dimension_numbers"], p["mode"]
        w = dinfo(x.dtype)[1]
        obd = tuple(dn.operand_batching_dims)
        ibd = tuple(dn.scatter_indices_batching_dims)
        xp, ipx, up = as_p(x), as_p(idx), as_p(u)
        wdims = [d for d in range(x.ndim) if d not in dn.inserted_window_dims and d not in obd]
        uw = list(dn.update_window_dims)
        ub = [d for d in range(u.ndim) if d not in uw]
        wsize = {d: u.shape[q] for d, q in zip(wdims, uw)}
        sdo = list(dn.scatter_dims_to_operand_dims)
        clip = mode == lax.GatherScatterMode.CLIP
        bshape = idx.shape[:-1]
        free = [q for q in range(len(bshape)) if q not in ibd]
        symf = [q for q in free if isdim(bshape[q])]
        if len(symf) > 1:
            raise Unsupported("scatter over several symbolic batch dimensions")
        if symf and any(not isdim(bshape[q]) and bshape[q] != 1 for q in free):
            raise Unsupported("scatter over mixed batch dimensions")
        for d in sdo:
            if d in wsize and isdim(wsize[d]) and symf:
                raise Unsupported("scatter window of symbolic size at a symbolic place")
        name = None
        if symf:
            name = fresh("sc")
            bound([name + ".last"], bshape[symf[0]])

        def target(bix, o):
            """(condition that update bix reaches o, update element index)"""
            off = [0] * x.ndim
            ok = True
            for d in range(x.ndim):
                if d in obd:
                    continue  # batch index chosen to match
                size = self.dim(wsize.get(d, 1))
                s = 0
                if d in sdo:
                    e, sg = to_index(ipx.at(*bix, sdo.index(d)), idx.dtype)
                    hi = sub(self.dim(x.shape[d]), size)
                    if clip:
                        s = clamp(e, sg, hi)
                    else:
                        ok = tm.and_(ok, tm.ule(e, hi, IW))
                        s = e
                o_ = sub(o[d], s)
                if d in sdo or _neq(wsize.get(d, 1), x.shape[d]):
                    ok = tm.and_(ok, tm.ult(o_, size, IW))
                off[d] = o_
            if ok is False:
                return False, None
            ui = [0] * u.ndim
            for q, d in zip(uw, wdims):
                ui[q] = off[d]
            for q, i in zip(ub, bix):
                ui[q] = i
            return ok, ui

        def fn(*o):
            base = [0] * len(bshape)
            for od, sd in zip(obd, ibd):
                base[sd] = o[od]
            old = xp.at(*o)
            if not symf:
                r = old
                for b in itertools.product(*[range(bshape[q]) for q in free]):
                    bix = list(base)
                    for q, v in zip(free, b):
                        bix[q] = v
                    ok, ui = target(bix, o)
                    if ok is False:
                        continue
                    v = up.at(*ui)
                    r = tm.ite_w(ok, comb(r, v) if comb else v, r, w)
                return r
            m = self.dim(bshape[symf[0]])
            if comb:
                if not select or dinfo(x.dtype)[0] == "f":
                    raise Unsupported("combining scatter over a symbolic batch")
                # min / max: the value is one of those that arrive (or the old one) and no other improves on it
                args = tuple((o[d], IW) for d in range(x.ndim))
                r = tm.uf(name + ".val", args, w)
                j = tm.uf(name + ".by", args, IW)

                def reach(jj):
                    bix = list(base)
                    bix[symf[0]] = jj
                    ok, ui = target(bix, o)
                    return tm.and_(tm.ult(jj, m, IW), ok), ui

                beats = lambda a: tm.eq(comb(r, a), r, w)
                key = (name, tuple(k_(a) for a, _ in args))
                c, ui = reach(j)
                if ui is None:
                    return old
                if key not in self.memo_sc:
                    self.memo_sc.add(key)
                    cands = [(j, m)]
                    for q, d in enumerate(sdo):
                        bix = list(base)
                        bix[symf[0]] = 0
                        e, _ = to_index(ipx.at(*bix, q), idx.dtype)
                        if not (isT(e) and e.op == "uf"):
                            cands.append((sub(o[d], e), m))
                    some = tm.or_(tm.eq(r, old, w), tm.and_(c, tm.eq(r, up.at(*ui), w)))

                    def lower(jj):
                        ok, ui = reach(jj)
                        return True if ui is None else tm.implies(ok, beats(up.at(*ui)))

                    self.reg([r, j], [some, beats(old), tm.ule(j, m, IW)], [(lower, m)], cands)
                    if name + ".val" not in self.sk:

                        def best(ev, *oo):
                            bb = [0] * len(bshape)
                            for od, sd in zip(obd, ibd):
                                bb[sd] = oo[od]
                            v, at = ev(xp.at(*oo)), 0
                            for jj in range(ev(m)):
                                bb[symf[0]] = jj
                                ok, ui = target(list(bb), list(oo))
                                if ui is not None and ev(ok):
                                    n = ev(comb(v, up.at(*ui)))
                                    if n != v:
                                        v, at = n, jj
                            return v, at

                        self.sk[name + ".val"] = lambda ev, *a: best(ev, *a)[0]
                        self.sk[name + ".by"] = lambda ev, *a: best(ev, *a)[1]
                return r
            # only the coordinates that decide which updates arrive matter
            args = tuple((o[d], IW) for d in range(x.ndim) if d in sdo or d in obd or _neq(wsize.get(d, 1), x.shape[d]))
            hit = tm.uf(name + ".hit", args, 0)
            j = tm.uf(name + ".last", args, IW)

            def reach(jj):
                bix = list(base)
                bix[symf[0]] = jj
                ok, ui = target(bix, o)
                return tm.and_(tm.ult(jj, m, IW), ok), ui

            key = (name, tuple(k_(a) for a, _ in args))
            c, ui = reach(j)
            if key not in self.memo_sc:
                self.memo_sc.add(key)
                cands = [(j, m)]
                # affine update positions: the candidate that maps to o
                for q, d in enumerate(sdo):
                    bix = list(base)
                    bix[symf[0]] = 0
                    e, _ = to_index(ipx.at(*bix, q), idx.dtype)
                    if not (isT(e) and e.op == "uf"):
                        cands.append((sub(o[d], e), m))
                # the last update that arrives wins (XLA CPU applies updates in order)
                self.reg([hit, j], [tm.implies(hit, c), tm.ule(j, m, IW)], [(lambda jj: tm.implies(reach(jj)[0], tm.and_(hit, tm.ule(jj, j, IW))), m)], cands)
                if name + ".hit" not in self.sk:
                    cd = [d for d in range(x.ndim) if d in sdo or d in obd or _neq(wsize.get(d, 1), x.shape[d])]

                    def last(ev, *a):
                        oo = [0] * x.ndim
                        for d, v in zip(cd, a):
                            oo[d] = v
                        bb = [0] * len(bshape)
                        for od, sd in zip(obd, ibd):
                            bb[sd] = oo[od]
                        for jj in range(ev(m) - 1, -1, -1):
                            bb[symf[0]] = jj
                            if ev(target(list(bb), oo)[0]):
                                return jj
                        return None

                    self.sk[name + ".last"] = lambda ev, *a: last(ev, *a) or 0
                    self.sk[name + ".hit"] = lambda ev, *a: last(ev, *a) is not None
            if ui is None:
                return old
            return tm.ite_w(hit, up.at(*ui), old, w)

        return self.out(eqn, fn)

    def q_scatter(self, eqn, ins):
        return self._pscatter(eqn, ins, None)

    def q_scatter_add(self, eqn, ins):
        k, w = dinfo(ins[0].dtype)
        if k == "f":
            raise Unsupported("float scatter-add")
        return self._pscatter(eqn, ins, lambda a, b: tm.bin_("add", a, b, w))

    def q_scatter_mul(self, eqn, ins):
        k, w = dinfo(ins[0].dtype)
        if k == "f":
            raise Unsupported("float scatter-mul")
        return self._pscatter(eqn, ins, lambda a, b: tm.bin_("mul", a, b, w))

    def q_scatter_min(self, eqn, ins):
        dt = ins[0].dtype
        return self._pscatter(eqn, ins, lambda a, b: ip.e_min(a, b, dt), select=True)

    def q_scatter_max(self, eqn, ins):
        dt = ins[0].dtype
        return self._pscatter(eqn, ins, lambda a, b: ip.e_max(a, b, dt), select=True)

    # -------------------------------------------------------------- reductions
    def _pred(self, eqn, ins, f, init, kind):
        (x,) = ins
        axes = tuple(eqn.params["axes"])
        xp = as_p(x)
        keep = [d for d in range(x.ndim) if d not in axes]
        syma = [d for d in axes if isdim(x.shape[d])]
        if syma:
            # constant dimensions first, then one symbolic dimension after the other
            cst = [d for d in axes if d not in syma]
            if cst:
                xp = self._fold(xp, cst, f, init)
            syma = [d - sum(c < d for c in cst) for d in syma]
            for d in sorted(syma, reverse=True):
                xp = self._skred(xp, d, kind, init)
            return self.out(eqn, xp.at)
        return self.out(eqn, self._fold(xp, axes, f, init).at)

    @staticmethod
    def _fold(x, axes, f, init):
        keep = [d for d in range(x.ndim) if d not in axes]

        def fn(*ix):
            r = None
            for a in itertools.product(*[range(x.shape[d]) for d in axes]):
                src = [0] * x.ndim
                for d, i in zip(keep, ix):
                    src[d] = i
                for d, i in zip(axes, a):
                    src[d] = i
                v = x.at(*src)
                r = v if r is None else f(r, v)
            return init if r is None else r

        return PArr([x.shape[d] for d in keep], x.dtype, fn)

    def _skred(self, xp, ax, kind, init):
        """reduction over one symbolic dimension, by a witness"""
        x = xp
        keep = [d for d in range(x.ndim) if d != ax]
        if kind is None:
            raise Unsupported("sum over a symbolic dimension")
        w = dinfo(x.dtype)[1]
        if w and kind in ("and", "or"):
            raise Unsupported("bitwise reduction over a symbolic dimension")
        name = fresh("rd")
        if not positive(x.shape[ax]):
            raise Unsupported("reduction over a possibly empty dimension")
        bound([name + ".wit"], x.shape[ax])
        n = self.dim(x.shape[ax])
        dt = x.dtype

        def fn(*ix):
            def elt(j):
                src = [0] * x.ndim
                for d, i in zip(keep, ix):
                    src[d] = i
                src[ax] = j
                return xp.at(*src)

            args = tuple((i, IW) for i in ix) or ((0, IW),)
            j = tm.uf(name + ".wit", args, IW)
            key = (name, tuple(k_(i) for i in ix))
            if key not in self.memo_sc:
                self.memo_sc.add(key)
                if kind in ("or", "and"):
                    # or: if any element is true the witness is; and: if any element is false the witness is
                    law = lambda jj: tm.implies(tm.ult(jj, n, IW), tm.implies(elt(jj), elt(j)) if kind == "or" else tm.implies(elt(j), elt(jj)))
                else:
                    le = (lambda a, b: ip.e_le(a, b, dt)) if kind == "max" else (lambda a, b: ip.e_le(b, a, dt))
                    nan = (lambda a: ip.f_isnan(a, dt)) if dinfo(dt)[0] == "f" else (lambda a: False)
                    law = lambda jj: tm.implies(tm.ult(jj, n, IW), tm.or_(nan(elt(j)), tm.and_(tm.not_(nan(elt(jj))), le(elt(jj), elt(j)))))
                self.reg([j], [tm.ult(j, n, IW)], [(law, n)], [(j, n)])
                if name + ".wit" not in self.sk:
                    def wit(ev, *a):
                        es = []
                        for jj in range(ev(n)):
                            src = [0] * x.ndim
                            for d, i in zip(keep, a):
                                src[d] = i
                            src[ax] = jj
                            es.append(ev(xp.at(*src)))
                        if kind == "or":
                            return es.index(True) if True in es else 0
                        if kind == "and":
                            return es.index(False) if False in es else 0
                        b = 0
                        for jj in range(1, len(es)):
                            c = ip.e_lt(es[b], es[jj], dt) if kind == "max" else ip.e_lt(es[jj], es[b], dt)
                            if dinfo(dt)[0] == "f" and ip.f_isnan(es[jj], dt) and not ip.f_isnan(es[b], dt):
                                c = True
                            if c:
                                b = jj
                        return b

                    self.sk[name + ".wit"] = wit
            return elt(j)

        return PArr([x.shape[d] for d in keep], x.dtype, fn)

    def q_reduce_and(self, eqn, ins):
        k, w = dinfo(ins[0].dtype)
        return self._pred(eqn, ins, tm.and_ if k == "b" else (lambda a, b: tm.bin_("bvand", a, b, w)), True if k == "b" else (1 << w) - 1, "and")

    def q_reduce_or(self, eqn, ins):
        k, w = dinfo(ins[0].dtype)
        return self._pred(eqn, ins, tm.or_ if k == "b" else (lambda a, b: tm.bin_("bvor", a, b, w)), False if k == "b" else 0, "or")

    def q_reduce_xor(self, eqn, ins):
        k, w = dinfo(ins[0].dtype)
        return self._pred(eqn, ins, tm.xor_ if k == "b" else (lambda a, b: tm.bin_("bvxor", a, b, w)), False if k == "b" else 0, None)

    def q_reduce_sum(self, eqn, ins):
        k, w = dinfo(ins[0].dtype)
        if k == "f":
            raise Unsupported("float sum")
        return self._pred(eqn, ins, lambda a, b: tm.bin_("add", a, b, w), 0, None)

    def q_reduce_max(self, eqn, ins):
        dt = ins[0].dtype
        return self._pred(eqn, ins, lambda a, b: ip.e_max(a, b, dt), None, "max")

    def q_reduce_min(self, eqn, ins):
        dt = ins[0].dtype
        return self._pred(eqn, ins, lambda a, b: ip.e_min(a, b, dt), None, "min")

    # -------------------------------------------------------------- sort
    def q_sort(self, eqn, ins):
        p = eqn.params
        dim, nk = p["dimension"], p["num_keys"]
        n = ins[0].shape[dim]
        if not isdim(n):
            raise Unsupported("sort along a constant dimension of a symbolic array")
        if not p["is_stable"] and nk < len(ins):
            raise Unsupported("unstable sort")
        ps = [as_p(x) for x in ins]
        dts = [x.dtype for x in ins]
        name = fresh("so")
        bound([name + ".src", name + ".dst"], n)
        N = self.dim(n)

        def put(ix, i):
            return ix[:dim] + (i,) + ix[dim + 1:]

        def rest(ix):
            return tuple((i, IW) for d, i in enumerate(ix) if d != dim)

        def P(ix, i):  # source position of output i
            return tm.uf(name + ".src", rest(ix) + ((i, IW),), IW)

        def Q(ix, i):  # output position of source i
            return tm.uf(name + ".dst", rest(ix) + ((i, IW),), IW)

        def keys(ix, i):
            return [ps[q].at(*put(ix, i)) for q in range(nk)]

        def before(ix, i, j):
            """source i is placed before source j (stable order)"""
            a, b = keys(ix, i), keys(ix, j)
            lt, gt = ip.lex_lt(a, b, dts[:nk]), ip.lex_lt(b, a, dts[:nk])
            return tm.or_(lt, tm.and_(tm.not_(gt), tm.ult(i, j, IW)))

        def declare(ix):
            key = (name, tuple(k_(i) for i, _ in rest(ix)))
            if key in self.memo_sc:
                return
            self.memo_sc.add(key)
            self.sorts[name] = SN(N=N, dim=dim, P=P, Q=Q, before=before)
            if name + ".src" not in self.sk:
                import functools

                def order(ev, a):
                    ixx = tuple(a[:dim]) + (0,) + tuple(a[dim:])
                    return sorted(range(ev(N)), key=functools.cmp_to_key(lambda i, j: -1 if ev(before(ixx, i, j)) else 1))

                def src(ev, *a):
                    o = order(ev, a[:-1])
                    return o[a[-1]] if a[-1] < len(o) else 0

                def dst(ev, *a):
                    o = order(ev, a[:-1])
                    return o.index(a[-1]) if a[-1] in o else 0

                self.sk[name + ".src"], self.sk[name + ".dst"] = src, dst

        def mk(q):
            def fn(*ix):
                declare(ix)
                return ps[q].at(*put(ix, P(ix, ix[dim])))

            return fn

        return [PArr(eqn.outvars[q].aval.shape, dts[q], mk(q)) for q in range(len(ins))]

    # -------------------------------------------------------------- control flow
    def merge(self, c, a, b):
        out = []
        for x, y in zip(a, b):
            if x is y:
                out.append(x)
            elif isinstance(x, PArr) or isinstance(y, PArr):
                w = dinfo(x.dtype)[1]
                xp, yp = as_p(x), as_p(y)
                out.append(PArr(x.shape if symbolic(x.shape) else y.shape, x.dtype, lambda *ix, xp=xp, yp=yp, w=w: tm.ite_w(c, xp.at(*ix), yp.at(*ix), w)))
            else:
                out += super().merge(c, [x], [y])
        return out

    def q_cond(self, eqn, ins):
        return self.p_cond(eqn, ins)

    def q_while(self, eqn, ins):
        p = eqn.params
        cn, bn = p["cond_nconsts"], p["body_nconsts"]
        cc, bc, carry = ins[:cn], ins[cn: cn + bn], ins[cn + bn:]
        cj, bj = p["cond_jaxpr"], p["body_jaxpr"]
        for it in range(self.max_unroll + 1):
            (c,) = self.eval_jaxpr(cj.jaxpr, [conc(q) for q in cj.consts], list(cc) + list(carry))
            if isinstance(c, PArr) or not c.concrete:
                raise Unsupported("while loop with a symbolic trip count")
            if not c.np[()]:
                return list(carry)
            carry = self.eval_jaxpr(bj.jaxpr, [conc(q) for q in bj.consts], list(bc) + list(carry))
        raise Budget("while loop")

    def q_scan(self, eqn, ins):
        p = eqn.params
        nc, ncar, L, rev, j = p["num_consts"], p["num_carry"], p["length"], p["reverse"], p["jaxpr"]
        if isdim(L) or L > 256:
            raise Unsupported("scan of symbolic length")
        consts, carry, xs = ins[:nc], list(ins[nc: nc + ncar]), ins[nc + ncar:]
        nys = len(j.jaxpr.outvars) - ncar
        ys = [None] * L
        for t in (range(L - 1, -1, -1) if rev else range(L)):
            row = []
            for x in xs:
                xp = as_p(x)
                row.append(self.norm(PArr(x.shape[1:], x.dtype, lambda *ix, xp=xp, t=t: xp.at(t, *ix))))
            r = self.eval_jaxpr(j.jaxpr, [conc(q) for q in j.consts], list(consts) + carry + row)
            carry, ys[t] = r[:ncar], r[ncar:]
        outs = list(carry)
        for q in range(nys):
            av = eqn.outvars[ncar + q].aval
            w = dinfo(av.dtype)[1]

            def fn(*ix, q=q, w=w):
                r = None
                for t in range(L - 1, -1, -1):
                    c = tm.eq(ix[0], t, IW)
                    if c is False:
                        continue
                    v = as_p(ys[t][q]).at(*ix[1:])
                    r = v if r is None else tm.ite_w(c, v, r, w)
                return r

            outs.append(PArr(av.shape, av.dtype, fn))
        return outs

    # -------------------------------------------------------------- facts
    def reg(self, triggers, facts=(), schemas=(), cands=()):
        """facts that apply once one of the trigger terms occurs (no triggers: always); schemas and cands: (x, size of its range or None)"""
        if triggers:
            g = Group()
            for t in triggers:
                if isT(t):
                    self.trig.setdefault(t.id, []).append(g)
        else:
            g = self.base
        tag = lambda n: None if n is None else k_(n)
        g.facts += [f for f in facts if f is not True]
        g.schemas += [(f, tag(n)) for f, n in schemas]
        g.cands += [(t, tag(n)) for t, n in cands]

    # -------------------------------------------------------------- concrete evaluation of the witness functions (cross-check only)
    def ufs(self, base, env):
        return _SkUFs(self, base, env)


class Kinds:
    """which index terms are used at the same places (positions of one array, outputs of one sort, ...): a heuristic for the choice of instances"""

    def __init__(self):
        self.up = {}

    def find(self, x):
        r = x
        while self.up.get(r, r) != r:
            r = self.up[r]
        while self.up.get(x, x) != r:
            self.up[x], x = r, self.up[x]
        return r

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.up[a] = b

    @staticmethod
    def free(t):
        """constants and sizes may be anything"""
        return not isT(t) or t.op == "var" and t.p.startswith("dim!") or t.op in ("add", "sub") and all(Kinds.free(a) for a in t.args)

    def visit(self, t):
        if t.op == "uf":
            name = t.p[0]
            if name[:3] == "so!":
                base, f = name.rsplit(".", 1)
                ends = ("so", base, f), ("so", base, "dst" if f == "src" else "src")
                for i, a in enumerate(t.args):
                    if not self.free(a):
                        self.union(a.id, ends[0] if i == len(t.args) - 1 else (name[:-4], i))
                self.union(t.id, ends[1])
            else:
                for i, a in enumerate(t.args):
                    if not self.free(a):
                        self.union(a.id, (name, i))
        elif t.op in ("add", "sub") and not isT(t.args[1]) and isT(t.args[0]):
            self.union(t.id, t.args[0].id)
        elif t.op == "ite":
            for a in t.args[1:]:
                if not self.free(a):
                    self.union(t.id, a.id)
        elif t.op == "eq" and all(not self.free(a) for a in t.args):
            self.union(t.args[0].id, t.args[1].id)

    def known(self, t):
        return isT(t) and t.id in self.up


class Lazy:
    """Proof of one goal with quantified facts: instances are added while the current counter-model violates them, at the index terms
    that occur in the formulas in use."""

    def __init__(self, itp, prover, pre, goal, known=()):
        self.itp, self.prover = itp, prover
        self.seen, self.asserted = set(), []
        self.schemas, self.cands, self.groups, self.srt = [], {}, set(), {}
        self.used, self.gen, self.level = set(), 0, 0
        self.kinds, self.full, self.kseen = Kinds(), False, set()
        self.ints = solve.ProverI(prover.pre, prover.timeout_ms)
        self._group(itp.base)
        for k in known:
            self.add(k)
        self.goal = goal
        self.add(tm.not_(goal))

    def add(self, t, gen=0):
        self.gen = gen
        self.asserted.append(t)
        self._walk(t)

    def _cand(self, t, tag):
        self.cands.setdefault((k_(t), tag), (t, tag, self.gen))

    def _group(self, g):
        if id(g) in self.groups:
            return
        self.groups.add(id(g))
        for f, tag in g.schemas:
            self.schemas.append((f, tag, self.gen))
            if id(f) not in self.itp.probes:
                c = tm.var(fresh("probe"), IW)
                self.itp.probes[id(f)] = f, c, f(c)
            _, c, t = self.itp.probes[id(f)]
            self._kinds(t)
        for t, tag in g.cands:
            self._cand(t, tag)
        for f in g.facts:
            self.asserted.append(f)
            self._walk(f)

    def _kinds(self, root):
        st = [root]
        while st:
            t = st.pop()
            if isT(t) and t.id not in self.kseen:
                self.kseen.add(t.id)
                self.kinds.visit(t)
                st.extend(t.args)

    def fits(self, place, c):
        """is c used at the same places?"""
        return self.full or Kinds.free(c) or place not in self.kinds.up or self.kinds.find(place) == self.kinds.find(c.id)

    def _walk(self, root):
        self._kinds(root)
        st = [root]
        while st:
            t = st.pop()
            if not isT(t) or t.id in self.seen:
                continue
            self.seen.add(t.id)
            st.extend(t.args)
            for g in self.itp.trig.get(t.id, ()):
                self._group(g)
            if t.op == "uf" and t.p[0][:3] == "so!":
                self._sorted(t)

    def _sorted(self, t):
        name, f = t.p[0].rsplit(".", 1)
        d = self.itp.sorts[name]
        rest, c = t.args[:-1], t.args[-1]
        key = (name, tuple(k_(x) for x in rest))
        if key not in self.srt:
            ix = list(rest[:d.dim]) + [0] + list(rest[d.dim:])
            ix = tuple(ix)
            self.srt[key] = SN(key=key, N=d.N, tag=k_(d.N), P=lambda i: d.P(ix, i), Q=lambda i: d.Q(ix, i), before=lambda i, j: d.before(ix, i, j), outs={}, els={},
                               name=name)
        s = self.srt[key]
        inv = isT(c) and c.op == "uf" and c.p[0] == name + (".dst" if f == "src" else ".src") and tuple(k_(x) for x in c.args[:-1]) == key[1]
        if inv:
            return
        inr = tm.ult(c, s.N, IW)
        if f == "src":
            s.outs.setdefault(k_(c), (c, self.gen))
            p = t
            self._cand(c, s.tag)
            self._cand(p, s.tag)
            s.els[k_(p)] = None
            fact = tm.and_(tm.ule(p, s.N, IW), tm.implies(inr, tm.and_(tm.ult(p, s.N, IW), tm.eq(s.Q(p), c, IW))))
        else:
            q = t
            s.els[k_(c)] = None
            s.outs.setdefault(k_(q), (q, self.gen))
            self._cand(q, s.tag)
            fact = tm.and_(tm.ule(q, s.N, IW), tm.implies(inr, tm.and_(tm.ult(q, s.N, IW), tm.eq(s.P(q), c, IW))))
        self.asserted.append(fact)
        self._walk(fact)

    def pool(self):
        """instances not yet in use: (generation, key, term)"""
        out = []
        memo = self.itp.instm
        for i, (f, tag, g) in enumerate(list(self.schemas)):
            place = self.itp.probes[id(f)][1].id
            for c, ct, cg in list(self.cands.values()):
                if tag is not None and ct is not None and tag != ct or not self.fits(place, c):
                    continue
                k = (id(f), k_(c))
                if k in self.used:
                    continue
                if k not in memo:
                    memo[k] = (f, f(c))
                t = memo[k][1]
                if t is not True:
                    out.append((max(g, cg), k, t, (c,)))
        for s in self.srt.values():
            for c, ct, cg in list(self.cands.values()):
                if ct is not None and ct != s.tag or k_(c) in s.els or not self.fits(("so", s.name, "dst"), c):
                    continue
                k = (s.key, "el", k_(c))
                if k in self.used:
                    continue
                # where the element c ends up
                q = s.Q(c)
                out.append((cg, k, tm.implies(tm.ult(c, s.N, IW), tm.and_(tm.ult(q, s.N, IW), tm.eq(s.P(q), c, IW))), (c,)))
            for a, ga in list(s.outs.values()):
                for b, gb in list(s.outs.values()):
                    if a is b:
                        continue
                    k = (s.key, k_(a), k_(b))
                    if k in self.used:
                        continue
                    if k not in memo:
                        memo[k] = (None, tm.implies(tm.and_all([tm.ult(a, s.N, IW), tm.ult(b, s.N, IW), tm.ult(a, b, IW)]), s.before(s.P(a), s.P(b))))
                    out.append((max(ga, gb), k, memo[k][1], (a, b)))
        return out

    def run(self, timeout, small=None, batch=40, limit=4000, levels=3):
        """('proved' | 'refuted' | 'unknown', model)"""
        t0 = time.time()
        z = self.prover.z
        level = self.level
        while True:
            self.level = level
            rem = timeout - (time.time() - t0)
            if rem <= 0 or len(self.used) > limit:
                return "unknown", None
            # a fresh solver every time: z3's incremental mode is much slower on these
            s = self.prover.solver()
            if small is not None:
                s.add(z.elem(small, 0))
            for t in self.asserted:
                if t is not True:
                    s.add(z.elem(t, 0))
            # the integer encoding decides what is hard in machine arithmetic
            st, m = self.prover.check(s, min(rem, 2 if self.ints is not None else rem))
            who = self.prover
            if st == "unknown" and self.ints is not None:
                try:
                    si = self.ints.asserting(self.asserted + ([small] if small is not None else []))
                    q0, t0_ = self.ints.queries, self.ints.time
                    st, m = self.ints.check(si, min(20, max(1, timeout - (time.time() - t0))))
                    self.prover.queries += self.ints.queries - q0
                    self.prover.time += self.ints.time - t0_
                    who = self.ints
                except NotImplementedError:
                    self.ints = None
                    continue
                if st == "unknown":
                    self.ints = None
                    continue
            if st != "sat":
                return ("proved" if st == "unsat" else "unknown"), None
            pool = self.pool()
            ufs, env = who.model_funcs(m)
            vals = tm.evaluate([t for _, _, t, _ in pool], env, ufs)
            lev0 = level
            bad = sorted([(g, q) for q, ((g, _, _, _), v) in enumerate(zip(pool, vals)) if v is False])
            # one instance per fact and index value: equal indices give the same instance in this model
            ixs = {k_(c): c for g, q in bad for c in pool[q][3] if isT(c)}
            at = dict(zip(ixs, tm.evaluate(list(ixs.values()), env, ufs)))
            seen, uniq = set(), []
            for g, q in bad:
                k = (pool[q][1][0],) + tuple(at[k_(c)] if isT(c) else c for c in pool[q][3])
                if k not in seen:
                    seen.add(k)
                    uniq.append((g, q))
            bad = uniq
            while not bad and self.full and level < levels:
                # the model may only satisfy an instance by giving an undefined value to a term the instance introduces
                level += 1
                bad = [(g, q) for q, (g, _, _, _) in enumerate(pool) if g < level]
            if not bad and not self.full:
                self.full = True
                continue
            if not bad and who is not self.prover:
                self.ints = None
                continue
            if not bad:
                return "refuted", m
            for g, q in bad if level != lev0 else bad[:batch]:
                self.used.add(pool[q][1])
                self.add(pool[q][2], g + 1)


class _SkUFs:
    """uninterpreted functions at concrete inputs; witness functions are computed by search from their definitions"""

    def __init__(self, itp, base, env):
        self.itp, self.base, self.env = itp, base, env
        self.memo = {}

    def ev(self, t):
        return tm.evaluate([t], self.env, self)[0]

    def __getitem__(self, name):
        f = self.itp.sk.get(name)
        if f is None:
            return self.base[name]

        def call(*args):
            k = (name, args)
            if k not in self.memo:
                self.memo[k] = f(self.ev, *args)
            return self.memo[k]

        return call


def _deq(a, b):
    if isdim(a) or isdim(b):
        return isdim(a) and isdim(b) and a == b
    return a == b


def _neq(a, b):
    return not _deq(a, b)


def _has_dim(params):
    def f(v):
        if isinstance(v, (tuple, list)):
            return any(f(x) for x in v)
        return type(v).__name__ == "_DimExpr"

    return any(f(v) for v in params.values())


ELEM = {
    "add", "add_any", "sub", "mul", "div", "rem", "neg", "abs", "sign", "and", "or", "xor", "not", "shift_left", "shift_right_logical",
    "shift_right_arithmetic", "population_count", "clz", "is_finite", "eq", "ne", "lt", "le", "gt", "ge", "max", "min", "clamp", "select_n",
    "integer_pow", "square", "convert_element_type",
}
