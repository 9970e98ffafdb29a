"""Symbolic interpreter (strongest-postcondition VC generator) for jaxprs.

Arrays are `SArr`: either a concrete numpy array or a numpy object array of term elements.
Primitives that only move data are executed by the *real* JAX primitive on integer provenance arrays, so
their semantics are JAX's own.  Arithmetic, comparison, gather/scatter with symbolic indices, sort and
control flow are encoded below and cross-checked against XLA on random inputs on every run.
"""
from __future__ import annotations

import time
import itertools
import math
import operator
from functools import lru_cache

import jax
import jax.numpy as jnp
import numpy as np
from jax import lax

from . import term as tm
from .term import T, isT


class Unsupported(Exception):
    """The code uses something outside the generator's reach (never reported as a violation)."""


class Budget(Exception):
    """Unrolling / size budget exhausted."""


# ------------------------------------------------------------------ dtypes
def dinfo(dtype):
    """(kind, width); kind in b,u,i,f; width 0 for bool."""
    try:
        d = np.dtype(dtype)
    except TypeError as e:  # extended dtypes
        raise Unsupported(f"dtype {dtype}") from e
    if d == np.bool_:
        return "b", 0
    if jnp.issubdtype(d, jnp.unsignedinteger):
        return "u", d.itemsize * 8
    if jnp.issubdtype(d, jnp.signedinteger):
        return "i", d.itemsize * 8
    if jnp.issubdtype(d, jnp.floating):
        return "f", d.itemsize * 8
    raise Unsupported(f"dtype {dtype}")


@lru_cache(None)
def finfo(dtype):
    """raw-bit parameters of a float dtype: (width, exponent mask, mantissa mask, has_inf)."""
    d = np.dtype(dtype)
    fi = jnp.finfo(d)
    w = d.itemsize * 8
    em = ((1 << fi.nexp) - 1) << fi.nmant
    mm = (1 << fi.nmant) - 1
    if d.name in ("float8_e4m3fn", "float8_e4m3fnuz", "float8_e5m2fnuz", "float4_e2m1fn", "float8_e4m3b11fnuz"):
        raise Unsupported(f"float format {d}")
    return w, em, mm


_U = {8: np.uint8, 16: np.uint16, 32: np.uint32, 64: np.uint64}


def to_raw(a):
    a = np.asarray(a)
    k, w = dinfo(a.dtype)
    if k == "b":
        return a.astype(object)
    v = np.ascontiguousarray(a).view(_U[w]) if a.ndim else np.ascontiguousarray(a).reshape(1).view(_U[w]).reshape(())
    out = np.empty(a.shape, dtype=object)
    if a.size:
        out.reshape(-1)[:] = v.reshape(-1).tolist()
    return out


def from_raw(o, dtype):
    k, w = dinfo(dtype)
    if k == "b":
        return np.array(o.tolist(), dtype=np.bool_).reshape(o.shape)
    r = np.array([int(x) for x in o.reshape(-1)], dtype=_U[w])
    return r.view(np.dtype(dtype)).reshape(o.shape)


class SArr:
    """Array of elements."""

    __slots__ = ("shape", "dtype", "_np", "_el")

    def __init__(self, dtype, np_=None, el=None):
        self.dtype = np.dtype(dtype) if not hasattr(dtype, "_rules") else dtype
        self._np = np_
        self._el = el
        self.shape = np_.shape if np_ is not None else el.shape

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return int(np.prod(self.shape, dtype=np.int64))

    @property
    def el(self):
        if self._el is None:
            self._el = to_raw(self._np)
        return self._el

    @property
    def concrete(self):
        if self._np is None:
            for x in self._el.reshape(-1):
                if isinstance(x, T):
                    return False
            self._np = from_raw(self._el, self.dtype)
        return True

    @property
    def np(self):
        assert self.concrete
        return self._np

    def __repr__(self):
        return f"SArr({self.dtype}{list(self.shape)})"


class Ref:
    """mutable kernel reference (Pallas): elements are updated in place under the current path condition"""

    concrete = False
    ndim = property(lambda self: len(self.shape))

    def __init__(self, shape, dtype, el, name):
        self.shape, self.dtype, self.el, self.name = tuple(shape), np.dtype(dtype), el, name
        self.writers = {}


def conc(a):
    a = np.asarray(a)
    return SArr(a.dtype, np_=a)


def obj(x, shape):
    r = np.empty(shape, dtype=object)
    r.reshape(-1)[:] = x
    return r


def lift(f, *arrs):
    """elementwise with broadcasting over object arrays, always returning an object ndarray."""
    r = np.frompyfunc(f, len(arrs), 1)(*arrs)
    if not isinstance(r, np.ndarray):
        z = np.empty((), dtype=object)
        z[()] = r
        return z
    return r


def vite(c, a, b, w):
    return lift(lambda x, y: tm.ite_w(c, x, y, w), a, b)


# ------------------------------------------------------------------ typed element operations
def f_isnan(x, dt):
    w, em, mm = finfo(dt)
    return tm.ult(em, tm.bin_("bvand", x, em | mm, w), w)


def f_iszero(x, dt):
    w, em, mm = finfo(dt)
    return tm.eq(tm.bin_("bvand", x, em | mm, w), 0, w)


def f_isfinite(x, dt):
    w, em, mm = finfo(dt)
    return tm.not_(tm.eq(tm.bin_("bvand", x, em, w), em, w))


def f_key(x, dt):
    """unsigned key whose order is the float order (-0 == +0); NaNs excluded by callers."""
    w, em, mm = finfo(dt)
    x = tm.ite_w(f_iszero(x, dt), 0, x, w)
    return tm.ite_w(_sign(x, w), tm.bnot(x, w), tm.bin_("bvor", x, 1 << (w - 1), w), w)


def _sign(x, w):
    return tm._signbit(x, w)


def e_lt(a, b, dt):
    k, w = dinfo(dt)
    if k == "b":
        return tm.and_(tm.not_(a), b)
    if k == "u":
        return tm.ult(a, b, w)
    if k == "i":
        return tm.slt(a, b, w)
    return tm.and_all([tm.not_(f_isnan(a, dt)), tm.not_(f_isnan(b, dt)), tm.ult(f_key(a, dt), f_key(b, dt), w)])


def e_eq(a, b, dt):
    """value equality (IEEE for floats)"""
    k, w = dinfo(dt)
    if k != "f":
        return tm.eq(a, b, w)
    return tm.and_all(
        [
            tm.not_(f_isnan(a, dt)),
            tm.not_(f_isnan(b, dt)),
            tm.or_(tm.eq(a, b, w), tm.and_(f_iszero(a, dt), f_iszero(b, dt))),
        ]
    )


def e_le(a, b, dt):
    k, w = dinfo(dt)
    if k == "f":
        return tm.or_(e_lt(a, b, dt), e_eq(a, b, dt))
    return tm.not_(e_lt(b, a, dt))


def sort_lt(a, b, dt):
    """JAX's total sort order: -0 == +0, all NaNs equal and last."""
    k, w = dinfo(dt)
    if k != "f":
        return e_lt(a, b, dt)
    an, bn = f_isnan(a, dt), f_isnan(b, dt)
    return tm.and_(tm.not_(an), tm.or_(bn, tm.ult(f_key(a, dt), f_key(b, dt), w)))


def lex_lt(a, b, dts):
    """lexicographic sort order of key tuples"""
    r = False
    for q in range(len(dts) - 1, -1, -1):
        l = sort_lt(a[q], b[q], dts[q])
        r = l if q == len(dts) - 1 else tm.or_(l, tm.and_(tm.not_(sort_lt(b[q], a[q], dts[q])), r))
    return r


def sort_enc(rows, nk, dts):
    """stable sort (lax.sort on CPU is stable in JAX): sel[i][p] = element i ends at position p; results per operand"""
    n = len(rows[0])
    before = [[False] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            g = lex_lt([rows[q][j] for q in range(nk)], [rows[q][i] for q in range(nk)], dts[:nk])
            before[j][i] = g
            before[i][j] = tm.not_(g)
    sel = []
    for i in range(n):
        cnt = [True]  # distribution of the rank of i
        for j in range(n):
            if j == i:
                continue
            c = before[j][i]
            new = [False] * (len(cnt) + 1)
            for r_, q in enumerate(cnt):
                new[r_] = tm.or_(new[r_], tm.and_(q, tm.not_(c)))
                new[r_ + 1] = tm.or_(new[r_ + 1], tm.and_(q, c))
            cnt = new
        sel.append(cnt)
    res = []
    for q in range(len(rows)):
        w = dinfo(dts[q])[1]
        o = []
        for pos in range(n):
            r = rows[q][n - 1]
            for i in range(n - 2, -1, -1):
                r = tm.ite_w(sel[i][pos], rows[q][i], r, w)
            o.append(r)
        res.append(o)
    return sel, res


def _one(cs):
    c = [tm.or_all(cs)]
    for i in range(len(cs)):
        for j in range(i):
            c.append(tm.not_(tm.and_(cs[i], cs[j])))
    return tm.and_all(c)


def sort_facts(n, nk, dts, sel, keys):
    """sel is a permutation; the sorted keys ascend"""
    f = [_one([sel[i][p] for p in range(n)]) for i in range(n)] + [_one([sel[i][p] for i in range(n)]) for p in range(n)]
    for p in range(n - 1):
        f.append(tm.not_(lex_lt([keys[q][p + 1] for q in range(nk)], [keys[q][p] for q in range(nk)], dts[:nk])))
    return f


SORT_LEMMA_MAX = 9
_LEMMA = {}


def lemma_sort(n, nk, dts):
    """prove sort_facts for n arbitrary elements (once per process)"""
    k = (n, nk, dts)
    if k not in _LEMMA:
        from . import solve

        rows = [[tm.var(f"sl!{n}!{q}!{i}", dinfo(d)[1]) for i in range(n)] for q, d in enumerate(dts)]
        sel, res = sort_enc(rows, nk, dts)
        st, _, _ = solve.Prover(True).prove(tm.and_all(sort_facts(n, nk, dts, sel, res)), timeout_ms=20000, second=False)
        _LEMMA[k] = st == "proved"
    return _LEMMA[k]


def _nan(dt):
    return int(to_raw(np.array(np.nan, dtype=dt))[()])


def e_max(a, b, dt):
    k, w = dinfo(dt)
    if k == "b":
        return tm.or_(a, b)
    if k == "f":
        r = tm.ite_w(e_lt(a, b, dt), b, a, w)
        r = tm.ite_w(f_isnan(b, dt), b, r, w)
        return tm.ite_w(f_isnan(a, dt), a, r, w)
    return tm.ite_w(e_lt(a, b, dt), b, a, w)


def e_min(a, b, dt):
    k, w = dinfo(dt)
    if k == "b":
        return tm.and_(a, b)
    if k == "f":
        r = tm.ite_w(e_lt(b, a, dt), b, a, w)
        r = tm.ite_w(f_isnan(b, dt), b, r, w)
        return tm.ite_w(f_isnan(a, dt), a, r, w)
    return tm.ite_w(e_lt(b, a, dt), b, a, w)


def _isint(dt):
    return dinfo(dt)[0] in "ui"


def idx_int(x, dt):
    """Python integer value of a concrete index element"""
    k, w = dinfo(dt)
    return tm.sgn(x, w) if k == "i" else int(x)


def idx_eq(x, v, dt):
    k, w = dinfo(dt)
    if k == "i":
        if not (-(1 << (w - 1)) <= v < (1 << (w - 1))):
            return False
        return tm.eq(x, v & ((1 << w) - 1), w)
    if not (0 <= v < (1 << w)):
        return False
    return tm.eq(x, v, w)


def idx_le(x, v, dt):
    """index <= v (v a Python integer)"""
    k, w = dinfo(dt)
    if k == "i":
        if v >= (1 << (w - 1)) - 1:
            return True
        if v < -(1 << (w - 1)):
            return False
        return tm.sle(x, v & ((1 << w) - 1), w)
    if v < 0:
        return False
    if v >= (1 << w) - 1:
        return True
    return tm.ule(x, v, w)


def idx_cands(x, dt, lo, hi):
    """candidate integer values of symbolic index x within [lo, hi] (all values if unknown)"""
    fl = tm.fd_leaves(x)
    if fl:
        vs = {idx_int(c, dt) for c in fl}
        return sorted({min(max(v, lo), hi) for v in vs}), sorted(v for v in vs if lo <= v <= hi)
    r = list(range(lo, hi + 1))
    return r, r


# ------------------------------------------------------------------ primitive tables
MOVE = {
    "broadcast_in_dim", "reshape", "transpose", "slice", "concatenate", "pad", "rev", "squeeze",
    "expand_dims", "split", "copy", "copy_p", "tile",
}
IDENT = {"copy", "copy_p", "stop_gradient", "optimization_barrier", "device_put", "sharding_constraint", "layout_constraint", "reduce_precision"}

CALLS = {"pjit": "jaxpr", "jit": "jaxpr", "closed_call": "call_jaxpr", "core_call": "call_jaxpr", "custom_jvp_call": "call_jaxpr",
         "custom_vjp_call": "call_jaxpr", "custom_vjp_call_jaxpr": "fun_jaxpr", "remat": "jaxpr", "checkpoint": "jaxpr", "remat2": "jaxpr", "run_state": None}


class Interp:
    def __init__(self, prover=None, max_unroll=64, abstract_mul=False, uf_prims=None, max_terms=4_000_000):
        self.prover = prover
        self.pc = []  # path condition (list of Boolean elements)
        self.max_unroll = max_unroll
        self.abstract_mul = abstract_mul
        self.uf_prims = uf_prims or {}
        self.prims = {}
        self.unwind = []  # unwinding obligations that were discharged by the solver
        self.nloops = 0
        self.abstracted = set()
        self.assumed = set()
        self.max_terms = max_terms
        self.deadline = None
        self.calls = {}  # names of the traced functions -> count
        self.lemmas = []  # proved facts about intermediate terms, given to the solver
        self.obligs = []  # (label, condition) side obligations (kernel memory accesses)
        self.grid = ()  # program ids of the kernel instance being executed
        self.kpc = 0  # length of the path condition where the kernel starts
        self.nhavoc = 0

    # -------------------------------------------------------------- driver
    def run(self, closed, args):
        return self.eval_jaxpr(closed.jaxpr, [conc(c) for c in closed.consts], args)

    def eval_jaxpr(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if type(v).__name__ == "Literal" or hasattr(v, "val"):
                return conc(np.asarray(v.val, dtype=v.aval.dtype))
            return env[v]

        for v, x in zip(jaxpr.constvars, consts):
            env[v] = x
        assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
        for v, x in zip(jaxpr.invars, args):
            env[v] = x
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            outs = self.eqn(eqn, ins)
            if not isinstance(outs, (list, tuple)):
                outs = [outs]
            assert len(outs) == len(eqn.outvars), eqn.primitive.name
            for v, x in zip(eqn.outvars, outs):
                if type(v).__name__ == "DropVar":
                    continue
                if tuple(x.shape) != tuple(v.aval.shape) or x.dtype != v.aval.dtype:
                    raise AssertionError(f"{eqn.primitive.name}: got {x} expected {v.aval}")
                env[v] = x
            if tm._ctr[0] > self.max_terms:
                raise Budget("term budget exhausted")
            if self.deadline and time.time() > self.deadline:
                raise Budget("time budget exhausted")
        return [read(v) for v in jaxpr.outvars]

    def eqn(self, eqn, ins):
        name = eqn.primitive.name
        self.prims[name] = self.prims.get(name, 0) + 1
        p = eqn.params
        if name in self.uf_prims:
            return self.uf_prims[name](self, eqn, ins)
        if name in CALLS:
            j = p[CALLS[name]]
            nm = p.get("name")
            if nm:
                self.calls[nm] = self.calls.get(nm, 0) + 1
            if hasattr(j, "consts"):
                return self.eval_jaxpr(j.jaxpr, [conc(c) for c in j.consts], ins)
            return self.eval_jaxpr(j, [], ins)
        h = getattr(self, "p_" + name.replace("-", "_"), None)
        if name in ("while", "cond", "scan", "pallas_call", "get", "swap", "addupdate", "program_id", "num_programs"):
            return h(eqn, ins)
        if name in ("multiple_of", "max_contiguous"):
            return ins[0]
        if name in IDENT:
            return list(ins) if eqn.primitive.multiple_results else ins[0]
        if all(x.concrete for x in ins):
            return self.bind_concrete(eqn, ins)
        if name in MOVE:
            return self.move(eqn, ins)
        if h is None:
            raise Unsupported(f"primitive {name}")
        return h(eqn, ins)

    def bind_concrete(self, eqn, ins):
        subfuns, bp = eqn.primitive.get_bind_params(eqn.params)
        r = eqn.primitive.bind(*subfuns, *[jnp.asarray(x.np) for x in ins], **bp)
        if eqn.primitive.multiple_results:
            return [conc(np.asarray(x)) for x in r]
        return conc(np.asarray(r))

    def move(self, eqn, ins):
        """data movement: run the real primitive on provenance ids"""
        ids = []
        pool = []
        n = 0
        for x in ins:
            s = x.size
            ids.append(jnp.arange(n, n + s, dtype=jnp.int32).reshape(x.shape))
            pool.append(x.el.reshape(-1))
            n += s
        flat = np.concatenate(pool) if pool else np.empty((0,), object)
        r = eqn.primitive.bind(*ids, **eqn.params)
        rs = r if eqn.primitive.multiple_results else [r]
        outs = []
        for q, ov in zip(rs, eqn.outvars):
            q = np.asarray(q)
            outs.append(SArr(ov.aval.dtype, el=_take(flat, q)))
        return outs if eqn.primitive.multiple_results else outs[0]

    # -------------------------------------------------------------- elementwise
    def _bin(self, eqn, ins, f):
        a, b = ins
        return SArr(eqn.outvars[0].aval.dtype, el=_shape(lift(f, a.el, b.el), eqn.outvars[0].aval.shape))

    def _un(self, eqn, ins, f):
        return SArr(eqn.outvars[0].aval.dtype, el=lift(f, ins[0].el))

    def _arith(self, op):
        def go(eqn, ins):
            dt = ins[0].dtype
            k, w = dinfo(dt)
            if k == "f":
                raise Unsupported(f"symbolic float {op}")
            return self._bin(eqn, ins, lambda a, b: tm.bin_(op, a, b, w))

        return go

    def p_add(self, eqn, ins):
        return self._arith("add")(eqn, ins)

    p_add_any = p_add

    def p_sub(self, eqn, ins):
        return self._arith("sub")(eqn, ins)

    def p_mul(self, eqn, ins):
        dt = ins[0].dtype
        k, w = dinfo(dt)
        if k == "f":
            raise Unsupported("symbolic float mul")
        if k == "b":
            return self._bin(eqn, ins, tm.and_)

        def f(a, b):
            if self.abstract_mul and w >= 32:
                if isT(a) and isT(b):
                    return tm.bin_("mul", a, b, w)
                if isT(b):
                    a, b = b, a
                if isT(a) and b not in (0, 1) and b & (b - 1) and not tm.fd_leaves(a) and b > 64:
                    self.abstracted.add(f"mul{w}_{b:#x}")
                    return tm.uf(f"mul{w}_{b:#x}", ((a, w),), w)
            return tm.bin_("mul", a, b, w)

        return self._bin(eqn, ins, f)

    def p_div(self, eqn, ins):
        k, w = dinfo(ins[0].dtype)
        if k == "f":
            raise Unsupported("symbolic float div")
        return self._bin(eqn, ins, lambda a, b: tm.bin_("sdiv" if k == "i" else "udiv", a, b, w))

    def p_rem(self, eqn, ins):
        k, w = dinfo(ins[0].dtype)
        if k == "f":
            raise Unsupported("symbolic float rem")
        return self._bin(eqn, ins, lambda a, b: tm.bin_("srem" if k == "i" else "urem", a, b, w))

    def p_neg(self, eqn, ins):
        k, w = dinfo(ins[0].dtype)
        if k == "f":
            return self._un(eqn, ins, lambda a: tm.bin_("bvxor", a, 1 << (w - 1), w))
        return self._un(eqn, ins, lambda a: tm.neg(a, w))

    def p_abs(self, eqn, ins):
        k, w = dinfo(ins[0].dtype)
        if k == "f":
            return self._un(eqn, ins, lambda a: tm.bin_("bvand", a, (1 << (w - 1)) - 1, w))
        return self._un(eqn, ins, lambda a: tm.ite_w(tm.slt(a, 0, w), tm.neg(a, w), a, w))

    def p_sign(self, eqn, ins):
        k, w = dinfo(ins[0].dtype)
        if k == "u":
            return self._un(eqn, ins, lambda a: tm.ite_w(tm.eq(a, 0, w), 0, 1, w))
        if k == "i":
            return self._un(
                eqn, ins, lambda a: tm.ite_w(tm.eq(a, 0, w), 0, tm.ite_w(tm.slt(a, 0, w), (1 << w) - 1, 1, w), w)
            )
        raise Unsupported("sign float")

    def _bit(self, opb, opv):
        def go(eqn, ins):
            k, w = dinfo(ins[0].dtype)
            if k == "b":
                return self._bin(eqn, ins, opb)
            return self._bin(eqn, ins, lambda a, b: tm.bin_(opv, a, b, w))

        return go

    def p_and(self, eqn, ins):
        return self._bit(tm.and_, "bvand")(eqn, ins)

    def p_or(self, eqn, ins):
        return self._bit(tm.or_, "bvor")(eqn, ins)

    def p_xor(self, eqn, ins):
        return self._bit(tm.xor_, "bvxor")(eqn, ins)

    def p_not(self, eqn, ins):
        k, w = dinfo(ins[0].dtype)
        if k == "b":
            return self._un(eqn, ins, tm.not_)
        return self._un(eqn, ins, lambda a: tm.bnot(a, w))

    def _sh(self, op):
        def go(eqn, ins):
            k, w = dinfo(ins[0].dtype)

            def f(a, b):
                # XLA: shift amount (read as unsigned) >= width gives 0 / sign fill, same as SMT-LIB
                return tm.bin_(op, a, b, w)

            return self._bin(eqn, ins, f)

        return go

    def p_shift_left(self, eqn, ins):
        return self._sh("shl")(eqn, ins)

    def p_shift_right_logical(self, eqn, ins):
        return self._sh("lshr")(eqn, ins)

    def p_shift_right_arithmetic(self, eqn, ins):
        return self._sh("ashr")(eqn, ins)

    def p_population_count(self, eqn, ins):
        k, w = dinfo(ins[0].dtype)

        def f(a):
            r = 0
            for i in range(w):
                r = tm.bin_("add", r, tm.zext(tm.extract(a, w, i, 1), 1, w), w)
            return r

        return self._un(eqn, ins, f)

    def p_clz(self, eqn, ins):
        k, w = dinfo(ins[0].dtype)

        def f(a):
            if isT(a) and tm.fd_leaves(a):
                return tm.fd_map(a, lambda x: w - x.bit_length(), w, ("clz", w))
            r = w
            for i in range(w):
                r = tm.ite_w(tm.eq(tm.extract(a, w, i, 1), 1, 1), w - 1 - i, r, w)
            return r

        return self._un(eqn, ins, f)

    def p_is_finite(self, eqn, ins):
        dt = ins[0].dtype
        return self._un(eqn, ins, lambda a: f_isfinite(a, dt))

    def _cmp(self, f):
        def go(eqn, ins):
            dt = ins[0].dtype
            return self._bin(eqn, ins, lambda a, b: f(a, b, dt))

        return go

    def p_eq(self, eqn, ins):
        return self._cmp(e_eq)(eqn, ins)

    def p_ne(self, eqn, ins):
        return self._cmp(lambda a, b, d: tm.not_(e_eq(a, b, d)))(eqn, ins)

    def p_lt(self, eqn, ins):
        return self._cmp(e_lt)(eqn, ins)

    def p_le(self, eqn, ins):
        return self._cmp(e_le)(eqn, ins)

    def p_gt(self, eqn, ins):
        return self._cmp(lambda a, b, d: e_lt(b, a, d))(eqn, ins)

    def p_ge(self, eqn, ins):
        return self._cmp(lambda a, b, d: e_le(b, a, d))(eqn, ins)

    def p_max(self, eqn, ins):
        return self._cmp(e_max)(eqn, ins)

    def p_min(self, eqn, ins):
        return self._cmp(e_min)(eqn, ins)

    def p_clamp(self, eqn, ins):
        lo, x, hi = ins
        dt = x.dtype
        return SArr(dt, el=_shape(lift(lambda l, a, h: e_min(e_max(l, a, dt), h, dt), lo.el, x.el, hi.el), x.shape))

    def p_select_n(self, eqn, ins):
        c, *cs = ins
        k, w = dinfo(cs[0].dtype)
        kc, wc = dinfo(c.dtype)
        if kc == "b":
            return SArr(cs[0].dtype, el=_shape(lift(lambda q, a, b: tm.ite_w(q, b, a, w), c.el, cs[0].el, cs[1].el), cs[0].shape))

        def f(q, *vs):
            r = vs[-1]
            for i in range(len(vs) - 2, -1, -1):
                r = tm.ite_w(idx_eq(q, i, c.dtype), vs[i], r, w)
            return r

        return SArr(cs[0].dtype, el=_shape(lift(f, c.el, *[x.el for x in cs]), cs[0].shape))

    def p_integer_pow(self, eqn, ins):
        k, w = dinfo(ins[0].dtype)
        y = eqn.params["y"]
        if k == "f" or y < 0:
            raise Unsupported("integer_pow")

        def f(a):
            r = 1
            for _ in range(y):
                r = tm.bin_("mul", r, a, w)
            return r

        return self._un(eqn, ins, f)

    def p_square(self, eqn, ins):
        k, w = dinfo(ins[0].dtype)
        if k == "f":
            raise Unsupported("square float")
        return self._un(eqn, ins, lambda a: tm.bin_("mul", a, a, w))

    def p_convert_element_type(self, eqn, ins):
        (x,) = ins
        src, dst = x.dtype, eqn.outvars[0].aval.dtype
        if src == dst:
            return x
        ks, ws = dinfo(src)
        kd, wd = dinfo(dst)

        def f(a):
            if not isT(a):
                v = from_raw(obj([a], (1,)), src)
                return to_raw(np.asarray(lax.convert_element_type(jnp.asarray(v), dst)))[0]
            if ks == "b":
                one = 1 if kd in "ui" else int(to_raw(np.array(1, dst))[()])
                return tm.ite_w(a, one, 0, wd)
            if kd == "b":
                return tm.not_(f_iszero(a, src)) if ks == "f" else tm.not_(tm.eq(a, 0, ws))
            if ks in "ui" and kd in "ui":
                if wd <= ws:
                    return tm.trunc(a, ws, wd)
                return tm.zext(a, ws, wd) if ks == "u" else tm.sext(a, ws, wd)
            if ks in "ui" and kd == "f" and np.dtype(dst) in (np.dtype(np.float32), np.dtype(np.float64), np.dtype(np.float16)):
                return tm.i2f(a, ws, wd, ks == "i")
            if ws and wd:  # an uninterpreted function of the raw bits: only congruence is used
                self.assumed.add(f"convert {src}->{dst} uninterpreted")
                return tm.uf(f"cvt:{src}:{dst}", ((a, ws),), wd)
            raise Unsupported(f"symbolic convert {src}->{dst}")

        return SArr(dst, el=lift(f, x.el))

    def p_bitcast_convert_type(self, eqn, ins):
        (x,) = ins
        src, dst = x.dtype, eqn.outvars[0].aval.dtype
        ks, ws = dinfo(src)
        kd, wd = dinfo(dst)
        if ks == "b" or kd == "b":
            if ks == kd:
                return x
            if ks == "b" and wd == 8:
                return SArr(dst, el=lift(lambda a: tm.bool2bv(a, 8), x.el))
            raise Unsupported("bitcast bool")
        if ws == wd:
            return SArr(dst, el=x.el)
        oshape = eqn.outvars[0].aval.shape
        out = np.empty(oshape, dtype=object)
        if ws > wd:
            n = ws // wd
            for ix in np.ndindex(*x.shape):
                for i in range(n):
                    out[ix + (i,)] = tm.extract(x.el[ix], ws, i * wd, wd)
        else:
            n = wd // ws
            for ix in np.ndindex(*oshape):
                out[ix] = tm.concat([(x.el[ix + (i,)], ws) for i in range(n)])
        return SArr(dst, el=out)

    def p_iota(self, eqn, ins):
        return self.bind_concrete(eqn, ins)

    # -------------------------------------------------------------- reductions
    def _red(self, eqn, ins, f, init=None):
        (x,) = ins
        axes = tuple(eqn.params["axes"])
        keep = [d for d in range(x.ndim) if d not in axes]
        n = int(np.prod([x.shape[d] for d in axes], dtype=np.int64))
        a = x.el.transpose(keep + list(axes)).reshape([x.shape[d] for d in keep] + [n])
        out = np.empty(a.shape[:-1], dtype=object)
        dt = eqn.outvars[0].aval.dtype
        for ix in np.ndindex(*a.shape[:-1]):
            row = a[ix]
            if n == 0:
                if init is None:
                    raise Unsupported("empty reduction")
                out[ix] = init
                continue
            r = row[0]
            for e in row[1:]:
                r = f(r, e)
            out[ix] = r
        return SArr(dt, el=out)

    def p_reduce_and(self, eqn, ins):
        k, w = dinfo(ins[0].dtype)
        if k == "b":
            return self._red(eqn, ins, tm.and_, True)
        return self._red(eqn, ins, lambda a, b: tm.bin_("bvand", a, b, w), (1 << w) - 1)

    def p_reduce_or(self, eqn, ins):
        k, w = dinfo(ins[0].dtype)
        if k == "b":
            return self._red(eqn, ins, tm.or_, False)
        return self._red(eqn, ins, lambda a, b: tm.bin_("bvor", a, b, w), 0)

    def p_reduce_xor(self, eqn, ins):
        k, w = dinfo(ins[0].dtype)
        if k == "b":
            return self._red(eqn, ins, tm.xor_, False)
        return self._red(eqn, ins, lambda a, b: tm.bin_("bvxor", a, b, w), 0)

    def p_reduce_sum(self, eqn, ins):
        k, w = dinfo(ins[0].dtype)
        if k == "f":
            raise Unsupported("float sum")
        return self._red(eqn, ins, lambda a, b: tm.bin_("add", a, b, w), 0)

    def p_reduce_prod(self, eqn, ins):
        k, w = dinfo(ins[0].dtype)
        if k == "f":
            raise Unsupported("float prod")
        return self._red(eqn, ins, lambda a, b: tm.bin_("mul", a, b, w), 1)

    def p_reduce_max(self, eqn, ins):
        dt = ins[0].dtype
        return self._red(eqn, ins, lambda a, b: e_max(a, b, dt))

    def p_reduce_min(self, eqn, ins):
        dt = ins[0].dtype
        return self._red(eqn, ins, lambda a, b: e_min(a, b, dt))

    def _arg(self, eqn, ins, better):
        (x,) = ins
        (ax,) = eqn.params["axes"]
        dt = x.dtype
        k, w = dinfo(dt)
        odt = eqn.outvars[0].aval.dtype
        _, ow = dinfo(odt)
        a = np.moveaxis(x.el, ax, -1)
        out = np.empty(a.shape[:-1], dtype=object)
        for ix in np.ndindex(*a.shape[:-1]):
            row = a[ix]
            bv, bi = row[0], 0
            for i in range(1, len(row)):
                c = better(row[i], bv)
                if k == "f":
                    c = tm.and_(tm.not_(f_isnan(bv, dt)), tm.or_(c, f_isnan(row[i], dt)))
                bv = tm.ite_w(c, row[i], bv, w)
                bi = tm.ite_w(c, i, bi, ow)
            out[ix] = bi
        return SArr(odt, el=out)

    def p_argmax(self, eqn, ins):
        dt = ins[0].dtype
        return self._arg(eqn, ins, lambda n, b: e_lt(b, n, dt))

    def p_argmin(self, eqn, ins):
        dt = ins[0].dtype
        return self._arg(eqn, ins, lambda n, b: e_lt(n, b, dt))

    def _cum(self, eqn, ins, f):
        (x,) = ins
        ax = eqn.params["axis"]
        a = np.moveaxis(x.el, ax, 0).copy()
        if eqn.params["reverse"]:
            a = a[::-1].copy()
        for i in range(1, a.shape[0]):
            a[i, ...] = lift(f, a[i - 1], a[i])
        if eqn.params["reverse"]:
            a = a[::-1]
        return SArr(x.dtype, el=np.moveaxis(a, 0, ax))

    def p_cumsum(self, eqn, ins):
        k, w = dinfo(ins[0].dtype)
        if k == "f":
            raise Unsupported("float cumsum")
        return self._cum(eqn, ins, lambda a, b: tm.bin_("add", a, b, w))

    def p_cummax(self, eqn, ins):
        dt = ins[0].dtype
        return self._cum(eqn, ins, lambda a, b: e_max(a, b, dt))

    def p_cummin(self, eqn, ins):
        dt = ins[0].dtype
        return self._cum(eqn, ins, lambda a, b: e_min(a, b, dt))

    # -------------------------------------------------------------- slicing / gather / scatter
    def _fill(self, dt, fv):
        k, w = dinfo(dt)
        if fv is not None:
            return to_raw(np.asarray(fv).astype(dt))[()]
        if k == "f":
            return _nan(dt)
        if k == "i":
            return 1 << (w - 1)
        if k == "u":
            return (1 << w) - 1
        return True

    def p_dynamic_slice(self, eqn, ins):
        x, *starts = ins
        sizes = eqn.params["slice_sizes"]
        k, w = dinfo(x.dtype)
        a = x.el
        for d, s in enumerate(starts):
            a = self._clip_take(a, d, s.el[()], s.dtype, sizes[d], w)
        return SArr(x.dtype, el=a)

    def _clip_take(self, a, d, i, dt, size, w):
        hi = a.shape[d] - size

        def sl(v):
            ix = [slice(None)] * a.ndim
            ix[d] = slice(v, v + size)
            return a[tuple(ix)]

        if not isT(i):
            return sl(min(max(idx_int(i, dt), 0), hi))
        cands, _ = idx_cands(i, dt, 0, hi)
        r = sl(cands[-1])
        for v in reversed(cands[:-1]):
            c = idx_le(i, 0, dt) if v == 0 else idx_eq(i, v, dt)
            r = vite(c, sl(v), r, w)
        return r

    def p_dynamic_update_slice(self, eqn, ins):
        x, u, *starts = ins
        k, w = dinfo(x.dtype)
        opts = []
        for d, s in enumerate(starts):
            hi = x.shape[d] - u.shape[d]
            i = s.el[()]
            if not isT(i):
                opts.append([(min(max(idx_int(i, s.dtype), 0), hi), True)])
            else:
                cands, _ = idx_cands(i, s.dtype, 0, hi)
                cur = []
                for v in cands:
                    if v == 0:
                        c = idx_le(i, 0, s.dtype)
                    elif v == hi:
                        c = tm.not_(idx_le(i, hi - 1, s.dtype))
                    else:
                        c = idx_eq(i, v, s.dtype)
                    if hi == 0:
                        c = True
                    cur.append((v, c))
                opts.append(cur)
        out = x.el.copy()
        for combo in itertools.product(*opts):
            c = tm.and_all(q for _, q in combo)
            if c is False:
                continue
            sl = tuple(slice(v, v + n) for (v, _), n in zip(combo, u.shape))
            out[sl] = vite(c, u.el, x.el[sl], w) if c is not True else u.el
            if c is not True:
                # several combos are mutually exclusive, write on top of the running result
                pass
        if sum(len(o) > 1 for o in opts):
            # recompute with accumulation (windows of different combos may overlap)
            out = x.el.copy()
            for combo in itertools.product(*opts):
                c = tm.and_all(q for _, q in combo)
                if c is False:
                    continue
                sl = tuple(slice(v, v + n) for (v, _), n in zip(combo, u.shape))
                out[sl] = vite(c, u.el, out[sl], w)
        return SArr(x.dtype, el=out)

    def p_gather(self, eqn, ins):
        x, idx = ins
        p = eqn.params
        dn = p["dimension_numbers"]
        sizes = p["slice_sizes"]
        mode = p["mode"]
        k, w = dinfo(x.dtype)
        obd = tuple(getattr(dn, "operand_batching_dims", ()) or ())
        ibd = tuple(getattr(dn, "start_indices_batching_dims", ()) or ())
        bshape = idx.shape[:-1]
        wdims = [d for d in range(x.ndim) if d not in dn.collapsed_slice_dims and d not in obd]
        drop = [d for d in range(x.ndim) if d in dn.collapsed_slice_dims or d in obd]
        oshape = eqn.outvars[0].aval.shape
        bpos = [d for d in range(len(oshape)) if d not in dn.offset_dims]
        out = np.empty(oshape, dtype=object)
        fill_mode = mode == lax.GatherScatterMode.FILL_OR_DROP
        fv = self._fill(x.dtype, p.get("fill_value")) if fill_mode else None
        I = idx.el
        for b in np.ndindex(*bshape):
            a = x.el
            ok = True
            for od, sd in zip(obd, ibd):
                ix = [slice(None)] * a.ndim
                ix[od] = slice(b[sd], b[sd] + 1)
                a = a[tuple(ix)]
            for kk, d in enumerate(dn.start_index_map):
                i = I[b + (kk,)]
                hi = x.shape[d] - sizes[d]
                if fill_mode:
                    ok = tm.and_(ok, tm.and_(idx_le(i, hi, idx.dtype), tm.not_(idx_le(i, -1, idx.dtype))))
                a = self._clip_take(a, d, i, idx.dtype, sizes[d], w)
            for d in range(x.ndim):
                if d not in dn.start_index_map and d not in obd and a.shape[d] != sizes[d]:
                    ix = [slice(None)] * a.ndim
                    ix[d] = slice(0, sizes[d])
                    a = a[tuple(ix)]
            a = a.reshape([sizes[d] for d in wdims])
            if fill_mode and ok is not True:
                a = lift(lambda e: tm.ite_w(ok, e, fv, w), a)
            ix = [slice(None)] * len(oshape)
            for q, v in zip(bpos, b):
                ix[q] = v
            out[tuple(ix)] = a if a.ndim else a[()]
        return SArr(x.dtype, el=out)

    def _scatter(self, eqn, ins, comb):
        x, idx, u = ins
        p = eqn.params
        dn = p["dimension_numbers"]
        mode = p["mode"]
        k, w = dinfo(x.dtype)
        obd = tuple(getattr(dn, "operand_batching_dims", ()) or ())
        ibd = tuple(getattr(dn, "scatter_indices_batching_dims", ()) or ())
        bshape = idx.shape[:-1]
        wdims_op = [d for d in range(x.ndim) if d not in dn.inserted_window_dims and d not in obd]
        uw = list(dn.update_window_dims)
        ub = [d for d in range(u.ndim) if d not in uw]
        wsize = {d: u.shape[q] for d, q in zip(wdims_op, uw)}
        full = [wsize.get(d, 1) for d in range(x.ndim)]
        out = x.el.copy()
        I = idx.el
        clip = mode == lax.GatherScatterMode.CLIP
        for b in np.ndindex(*bshape):
            ix = [slice(None)] * u.ndim
            for q, v in zip(ub, b):
                ix[q] = v
            win = u.el[tuple(ix)]
            if not isinstance(win, np.ndarray):
                win = obj([win], ())
            win = win.reshape(full)
            opts = [[(0, True)] for _ in range(x.ndim)]
            for od, sd in zip(obd, ibd):
                opts[od] = [(b[sd], True)]
            for kk, d in enumerate(dn.scatter_dims_to_operand_dims):
                i = I[b + (kk,)]
                hi = x.shape[d] - full[d]
                if not isT(i):
                    v = idx_int(i, idx.dtype)
                    if clip:
                        v = min(max(v, 0), hi)
                    opts[d] = [(v, True)] if 0 <= v <= hi else []
                elif clip:
                    cands, _ = idx_cands(i, idx.dtype, 0, hi)
                    cur = []
                    for v in cands:
                        c = True
                        if v == 0 and hi > 0:
                            c = idx_le(i, 0, idx.dtype)
                        elif v == hi and hi > 0:
                            c = tm.not_(idx_le(i, hi - 1, idx.dtype))
                        elif hi > 0:
                            c = idx_eq(i, v, idx.dtype)
                        cur.append((v, c))
                    opts[d] = cur
                else:
                    _, cands = idx_cands(i, idx.dtype, 0, hi)
                    opts[d] = [(v, idx_eq(i, v, idx.dtype)) for v in cands]
            # windows with dims not scattered must fit (they start at 0)
            for combo in itertools.product(*opts):
                c = tm.and_all(q for _, q in combo)
                if c is False:
                    continue
                sl = tuple(slice(v, v + n) for (v, _), n in zip(combo, full))
                old = out[sl]
                new = lift(comb, old, win) if comb else win
                out[sl] = vite(c, new, old, w)
        return SArr(x.dtype, el=out)

    def p_scatter(self, eqn, ins):
        return self._scatter(eqn, ins, None)

    def p_scatter_add(self, eqn, ins):
        k, w = dinfo(ins[0].dtype)
        if k == "f":
            raise Unsupported("float scatter-add")
        if k == "b":
            return self._scatter(eqn, ins, tm.or_)
        return self._scatter(eqn, ins, lambda a, b: tm.bin_("add", a, b, w))

    def p_scatter_mul(self, eqn, ins):
        k, w = dinfo(ins[0].dtype)
        if k == "f":
            raise Unsupported("float scatter-mul")
        return self._scatter(eqn, ins, lambda a, b: tm.bin_("mul", a, b, w))

    def p_scatter_min(self, eqn, ins):
        dt = ins[0].dtype
        return self._scatter(eqn, ins, lambda a, b: e_min(a, b, dt))

    def p_scatter_max(self, eqn, ins):
        dt = ins[0].dtype
        return self._scatter(eqn, ins, lambda a, b: e_max(a, b, dt))

    # -------------------------------------------------------------- sort
    def p_sort(self, eqn, ins):
        p = eqn.params
        dim, nk = p["dimension"], p["num_keys"]
        arrs = [np.moveaxis(x.el, dim, -1) for x in ins]
        outs = [np.empty(a.shape, dtype=object) for a in arrs]
        dts = [x.dtype for x in ins]
        ws = [dinfo(d)[1] for d in dts]
        n = arrs[0].shape[-1]
        if not p["is_stable"] and nk < len(ins):
            if n > 16:
                raise Unsupported("unstable sort")
            self.assumed.add("an unstable sort of at most 16 elements keeps the order of equal keys (XLA CPU)")
        for b in np.ndindex(*arrs[0].shape[:-1]):
            rows = [a[b] for a in arrs]

            sel, res = sort_enc(rows, nk, dts)
            for q in range(len(rows)):
                for pos in range(n):
                    outs[q][b + (pos,)] = res[q][pos]
            if any(isT(c) for r_ in sel for c in r_):
                self._sort_lemmas(n, nk, dts, sel, [outs[q][b] for q in range(nk)])
        return [SArr(d, el=np.moveaxis(o, -1, dim)) for d, o in zip(dts, outs)]

    def _sort_lemmas(self, n, nk, dts, sel, keys):
        """facts about a sort of n elements, each an instance of a formula proved once per (n, key dtypes) in lemma_sort"""
        if not (3 <= n <= SORT_LEMMA_MAX) or self.prover is None:
            return
        if not lemma_sort(n, nk, tuple(dts[:nk])):
            return
        self.lemmas += sort_facts(n, nk, dts, sel, keys)

    def p_top_k(self, eqn, ins):
        raise Unsupported("top_k")

    # -------------------------------------------------------------- control flow
    def merge(self, c, a, b):
        """elementwise ite(c, a, b) of two SArr lists"""
        out = []
        for x, y in zip(a, b):
            if x is y:
                out.append(x)
                continue
            k, w = dinfo(x.dtype)
            out.append(SArr(x.dtype, el=vite(c, x.el, y.el, w)))
        return out

    def merge_lanes(self, c, a, b):
        out = []
        for x, y in zip(a, b):
            if x is y:
                out.append(x)
                continue
            k, w = dinfo(x.dtype)
            m = np.broadcast_to(c.reshape(c.shape + (1,) * (len(x.shape) - c.ndim)), x.shape)
            out.append(SArr(x.dtype, el=lift(lambda q, u, v: tm.ite_w(q, u, v, w), m, x.el, y.el)))
        return out

    def _active(self, c):
        """may condition c hold on this path?  (True / False; unknown counts as True)"""
        if c is True or c is False:
            return c
        if self.prover is None:
            return True
        r = self.prover.sat(*self.pc, c)
        self.unwind.append(r)
        return r != "unsat"

    def p_while(self, eqn, ins):
        p = eqn.params
        cn, bn = p["cond_nconsts"], p["body_nconsts"]
        cc, bc, carry = ins[:cn], ins[cn : cn + bn], ins[cn + bn :]
        cj, bj = p["cond_jaxpr"], p["body_jaxpr"]
        self.nloops += 1
        depth = len(self.pc)
        active = True
        try:
            for it in range(self.max_unroll + 1):
                (c,) = self.eval_jaxpr(cj.jaxpr, [conc(q) for q in cj.consts], list(cc) + list(carry))
                # a batched predicate (vmapped loop): lanes whose predicate is false keep their carry
                act = tm.and_(active, c.el[()]) if c.shape == () else tm.or_all(c.el.reshape(-1))
                if act is False or not self._active(act):
                    return carry
                if it == self.max_unroll:
                    raise Budget(f"while loop still active after {it} unrollings")
                if act is not True:
                    self.pc.append(act)
                new = self.eval_jaxpr(bj.jaxpr, [conc(q) for q in bj.consts], list(bc) + list(carry))
                carry = self.merge(act, new, carry) if c.shape == () else self.merge_lanes(c.el, new, carry)
                active = act
            raise Budget("while")
        finally:
            del self.pc[depth:]

    def p_cond(self, eqn, ins):
        idx, *ops = ins
        br = eqn.params["branches"]
        i = idx.el[()]
        kd, _ = dinfo(idx.dtype)
        if not isT(i):
            v = int(i) if kd == "b" else idx_int(i, idx.dtype)
            v = min(max(v, 0), len(br) - 1)
            return self.eval_jaxpr(br[v].jaxpr, [conc(q) for q in br[v].consts], ops)
        res = None
        conds = []
        for v in range(len(br)):
            if kd == "b":
                c = i if v else tm.not_(i)
            elif v == 0:
                c = idx_le(i, 0, idx.dtype) if len(br) > 1 else True
            elif v == len(br) - 1:
                c = tm.not_(idx_le(i, v - 1, idx.dtype))
            else:
                c = idx_eq(i, v, idx.dtype)
            conds.append(c)
        outs = []
        for v, c in enumerate(conds):
            if c is False:
                continue
            self.pc.append(c)
            try:
                outs.append((c, self.eval_jaxpr(br[v].jaxpr, [conc(q) for q in br[v].consts], ops)))
            finally:
                self.pc.pop()
        res = outs[-1][1]
        for c, o in reversed(outs[:-1]):
            res = self.merge(c, o, res)
        return res

    def p_scan(self, eqn, ins):
        p = eqn.params
        nc, ncar, L, rev, j = p["num_consts"], p["num_carry"], p["length"], p["reverse"], p["jaxpr"]
        if L > 4096:
            raise Budget(f"scan of length {L}")
        consts, carry, xs = ins[:nc], list(ins[nc : nc + ncar]), ins[nc + ncar :]
        nys = len(j.jaxpr.outvars) - ncar
        ys = [None] * L
        order = range(L - 1, -1, -1) if rev else range(L)
        for t in order:
            row = [SArr(x.dtype, el=_as_arr(x.el[t])) if x._np is None else conc(x._np[t]) for x in xs]
            r = self.eval_jaxpr(j.jaxpr, [conc(q) for q in j.consts], list(consts) + carry + row)
            carry = r[:ncar]
            ys[t] = r[ncar:]
        outs = list(carry)
        for q in range(nys):
            av = eqn.outvars[ncar + q].aval
            o = np.empty(av.shape, dtype=object)
            for t in range(L):
                e = ys[t][q].el
                o[t] = e if e.ndim else e[()]
            outs.append(SArr(av.dtype, el=o))
        return outs


    # -------------------------------------------------------------- Pallas kernels
    def havoc(self, shape, dtype):
        """arbitrary values (uninitialised or out-of-range memory)"""
        k, w = dinfo(dtype)
        el = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            self.nhavoc += 1
            el[ix] = tm.var(f"havoc!{self.nhavoc}", w)
        return el

    def p_pallas_call(self, eqn, ins):
        p = eqn.params
        gm = p["grid_mapping"]
        jp = p["jaxpr"]
        if p.get("input_output_aliases"):
            raise Unsupported("pallas_call with input/output aliases")
        if gm.num_index_operands or gm.num_dynamic_grid_bounds or len(jp.invars) != len(ins) + len(p["out_avals"]):
            raise Unsupported("pallas_call with scratch or scalar-prefetch operands")
        avals = [(x.shape, x.dtype) for x in ins] + [(a.shape, a.dtype) for a in p["out_avals"]]
        for bm, (sh, _) in zip(gm.block_mappings, avals):
            blk = tuple(getattr(d, "block_size", d) for d in bm.block_shape)
            if blk != tuple(sh):
                raise Unsupported("pallas_call with block specs other than whole arrays")
        refs = [Ref(x.shape, x.dtype, x.el.copy(), f"in{i}") for i, x in enumerate(ins)]
        outs = [Ref(a.shape, a.dtype, self.havoc(a.shape, a.dtype), f"out{i}") for i, a in enumerate(p["out_avals"])]
        old = self.grid, self.kpc
        try:
            for pid in itertools.product(*[range(int(g)) for g in gm.grid]):
                self.grid = (pid, tuple(int(g) for g in gm.grid))
                self.kpc = len(self.pc)
                self.eval_jaxpr(jp, [], refs + outs)
        finally:
            self.grid, self.kpc = old
        self.assumed.add("Pallas kernel instances executed one after another; an output cell written by several instances keeps the last write")
        return [SArr(r.dtype, el=r.el) for r in outs]

    def p_program_id(self, eqn, ins):
        return conc(np.int32(self.grid[0][eqn.params["axis"]]))

    def p_num_programs(self, eqn, ins):
        return conc(np.int32(self.grid[1][eqn.params["axis"]]))

    def _ref_index(self, eqn, ref, flat):
        """list of per-dimension candidates: (kind, data)"""
        ts = jax.tree_util.tree_unflatten(eqn.params["tree"], list(flat))
        if len(ts) == 0:
            return None
        if len(ts) != 1 or type(ts[0]).__name__ != "NDIndexer":
            raise Unsupported("kernel reference transform " + type(ts[0]).__name__)
        dims = []
        for ix, n in zip(ts[0].indices, ref.shape):
            if type(ix).__name__ == "Slice":
                if getattr(ix, "stride", 1) != 1:
                    raise Unsupported("strided kernel slice")
                st, sz = ix.start, ix.size
                if not isinstance(sz, int):
                    raise Unsupported("dynamic kernel slice size")
                dims.append(("slice", st, sz, n))
            else:
                if getattr(ix, "shape", ()) != ():
                    raise Unsupported("array index into a kernel reference")
                dims.append(("int", ix, 1, n))
        return dims

    def _ref_cells(self, dims):
        """start positions: per dim a list of (condition, start) covering every in-range start, and the out-of-range condition"""
        out, bad = [], False
        for kind, st, sz, n in dims:
            if isinstance(st, SArr):
                e, dt = st.el[()], st.dtype
                if isT(e):
                    cs = [(idx_eq(e, k, dt), k) for k in range(0, n - sz + 1)]
                    cs = [(c, k) for c, k in cs if c is not False]
                    fl = tm.fd_leaves(e)
                    if not (fl and all(0 <= idx_int(v, dt) <= n - sz for v in fl)):
                        bad = tm.or_(bad, tm.not_(tm.or_all(c for c, _ in cs)))
                    out.append(cs)
                    continue
                st = idx_int(e, dt)
            st = int(st)
            if 0 <= st <= n - sz:
                out.append([(True, st)])
            else:
                out.append([])
                bad = True
        return out, bad

    def _guard(self):
        return tm.and_all(self.pc[self.kpc:])

    def p_get(self, eqn, ins):
        ref, flat = ins[0], ins[1:]
        dims = self._ref_index(eqn, ref, flat)
        if dims is None:
            return SArr(ref.dtype, el=ref.el.copy())
        starts, bad = self._ref_cells(dims)
        k, w = dinfo(ref.dtype)
        shape = eqn.outvars[0].aval.shape
        combos = list(itertools.product(*starts))
        res = None
        if bad is not False:
            g = tm.and_(self._guard(), bad)
            if not combos or self._active(g):
                res = self.havoc(shape, ref.dtype)
                self.assumed.add("out-of-range kernel reads return arbitrary values")
        for combo in reversed(combos):
            sel = tuple(s if d[0] == "int" else slice(s, s + d[2]) for (c, s), d in zip(combo, dims))
            e = _as_arr(ref.el[sel])
            e = _shape(e, shape)
            res = e.copy() if res is None else vite(tm.and_all(c for c, _ in combo), e, res, w)
        return SArr(ref.dtype, el=res)

    def p_swap(self, eqn, ins):
        ref, val, flat = ins[0], ins[1], ins[2:]
        dims = self._ref_index(eqn, ref, flat)
        k, w = dinfo(ref.dtype)
        g = self._guard()
        if dims is None:
            old = SArr(ref.dtype, el=ref.el.copy())
            ref.el = vite(g, val.el, ref.el, w) if g is not True else val.el.copy()
            return old
        old = self.p_get(eqn, [ref] + list(flat)) if type(eqn.outvars[0]).__name__ != "DropVar" else None
        starts, bad = self._ref_cells(dims)
        if bad is not False:
            self.obligs.append(("kernel writes stay inside the output", tm.not_(tm.and_(tm.and_all(self.pc), bad))))
        for combo in itertools.product(*starts):
            c = tm.and_(g, tm.and_all(q for q, _ in combo))
            if c is False:
                continue
            sel = tuple(s if d[0] == "int" else slice(s, s + d[2]) for (_, s), d in zip(combo, dims))
            cur = _as_arr(ref.el[sel])
            new = _shape(val.el, cur.shape) if val.el.shape != cur.shape else val.el
            r = new if c is True else vite(c, new, cur, w)
            ref.el[sel] = r if r.ndim else r[()]
        if old is None:
            return SArr(ref.dtype, el=_shape(val.el, eqn.outvars[0].aval.shape))
        return old


def _take(flat, q):
    out = np.empty(q.shape, dtype=object)
    if q.size:
        out.reshape(-1)[:] = flat[q.reshape(-1)]
    return out


def _shape(o, shape):
    if o.shape != tuple(shape):
        o = np.broadcast_to(o, shape).copy()
    return o


def _as_arr(e):
    if isinstance(e, np.ndarray):
        return e
    z = np.empty((), dtype=object)
    z[()] = e
    return z
