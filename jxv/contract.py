"""Contract language: typed views over (symbolic or concrete) arrays, cases, and the obligation runner."""
from __future__ import annotations

import dataclasses
import os
import time
import traceback
from typing import Any, Callable

import jax
import jax.numpy as jnp
import numpy as np

from . import interp as ip
from . import term as tm
from .interp import SArr, conc, dinfo, e_eq, e_le, e_lt
from .term import T, isT


# ---------------------------------------------------------------------- values
class V:
    """A typed element."""

    __slots__ = ("e", "dt")

    def __init__(self, e, dt):
        self.e = e
        self.dt = np.dtype(dt)

    # -- coercion
    def _c(self, o):
        if isinstance(o, V):
            if o.dt != self.dt:
                raise TypeError(f"dtype mismatch {self.dt} {o.dt}")
            return o.e
        return lit(o, self.dt).e

    @property
    def w(self):
        return dinfo(self.dt)[1]

    # -- booleans
    def __and__(self, o):
        o = self._c(o)
        if self.w == 0:
            return V(tm.and_(self.e, o), self.dt)
        return V(tm.bin_("bvand", self.e, o, self.w), self.dt)

    def __or__(self, o):
        o = self._c(o)
        if self.w == 0:
            return V(tm.or_(self.e, o), self.dt)
        return V(tm.bin_("bvor", self.e, o, self.w), self.dt)

    def __xor__(self, o):
        o = self._c(o)
        if self.w == 0:
            return V(tm.xor_(self.e, o), self.dt)
        return V(tm.bin_("bvxor", self.e, o, self.w), self.dt)

    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        if self.w == 0:
            return V(tm.not_(self.e), self.dt)
        return V(tm.bnot(self.e, self.w), self.dt)

    def __bool__(self):
        if isinstance(self.e, bool):
            return self.e
        raise TypeError("symbolic V used as bool")

    # -- comparisons (value semantics of the dtype)
    def __eq__(self, o):
        return V(e_eq(self.e, self._c(o), self.dt), bool)

    def __ne__(self, o):
        return ~(self == o)

    def __lt__(self, o):
        return V(e_lt(self.e, self._c(o), self.dt), bool)

    def __le__(self, o):
        return V(e_le(self.e, self._c(o), self.dt), bool)

    def __gt__(self, o):
        return V(e_lt(self._c(o), self.e, self.dt), bool)

    def __ge__(self, o):
        return V(e_le(self._c(o), self.e, self.dt), bool)

    __hash__ = None

    def same(self, o):
        """bitwise identity"""
        return V(tm.eq(self.e, self._c(o), self.w), bool)

    def eqint(self, n):
        """mathematical equality of an integer element with the Python integer n"""
        return V(ip.idx_eq(self.e, n, self.dt), bool)

    # -- arithmetic (modular)
    def _ar(self, op, o, rev=False):
        a, b = self.e, self._c(o)
        if rev:
            a, b = b, a
        return V(tm.bin_(op, a, b, self.w), self.dt)

    def __add__(self, o):
        return self._ar("add", o)

    __radd__ = __add__

    def __sub__(self, o):
        return self._ar("sub", o)

    def __rsub__(self, o):
        return self._ar("sub", o, True)

    def __mul__(self, o):
        return self._ar("mul", o)

    def __lshift__(self, o):
        return self._ar("shl", o)

    def __rshift__(self, o):
        k, _ = dinfo(self.dt)
        return self._ar("ashr" if k == "i" else "lshr", o)

    # -- floats
    def isnan(self):
        k, w = dinfo(self.dt)
        return V(ip.f_isnan(self.e, self.dt) if k == "f" else False, bool)

    def isfinite(self):
        k, w = dinfo(self.dt)
        return V(ip.f_isfinite(self.e, self.dt) if k == "f" else True, bool)

    def isposinf(self):
        return self.same(lit(np.inf, self.dt))

    def astype(self, dt):
        dt = np.dtype(dt)
        ks, ws = dinfo(self.dt)
        kd, wd = dinfo(dt)
        if ks == "b":
            return V(tm.ite_w(self.e, 1, 0, wd), dt)
        if ks in "ui" and kd in "ui":
            if wd <= ws:
                return V(tm.trunc(self.e, ws, wd), dt)
            return V(tm.zext(self.e, ws, wd) if ks == "u" else tm.sext(self.e, ws, wd), dt)
        raise TypeError(f"astype {self.dt}->{dt}")

    def raw(self):
        """raw bits as an unsigned value of the same width"""
        if self.w == 0:
            return V(tm.ite_w(self.e, 1, 0, 8), np.uint8)
        return V(self.e, {8: np.uint8, 16: np.uint16, 32: np.uint32, 64: np.uint64}[self.w])

    def __repr__(self):
        return f"V({self.e}:{self.dt})"


def lit(x, dt):
    dt = np.dtype(dt)
    if dinfo(dt)[1] == 0:
        return V(bool(x), dt)
    if isinstance(x, (int, np.integer)) and dinfo(dt)[0] in "ui":
        return V(int(x) & ((1 << dinfo(dt)[1]) - 1), dt)
    return V(ip.to_raw(np.asarray(x, dtype=dt))[()], dt)


TRUE, FALSE = V(True, bool), V(False, bool)


def bv(x):
    """to a Boolean V"""
    if isinstance(x, V):
        return x
    if isinstance(x, (bool, np.bool_)):
        return V(bool(x), bool)
    raise TypeError(x)


def And(*xs):
    if len(xs) == 1 and not isinstance(xs[0], (V, bool, np.bool_)):
        xs = list(xs[0])
    r = True
    for x in xs:
        r = tm.and_(r, bv(x).e)
    return V(r, bool)


def Or(*xs):
    if len(xs) == 1 and not isinstance(xs[0], (V, bool, np.bool_)):
        xs = list(xs[0])
    r = False
    for x in xs:
        r = tm.or_(r, bv(x).e)
    return V(r, bool)


def Not(x):
    return ~bv(x)


def Implies(a, b):
    return V(tm.implies(bv(a).e, bv(b).e), bool)


def Iff(a, b):
    return V(tm.not_(tm.xor_(bv(a).e, bv(b).e)), bool)


def Ite(c, a, b):
    if isinstance(a, V) and isinstance(b, V):
        assert a.dt == b.dt
        return V(tm.ite_w(bv(c).e, a.e, b.e, a.w), a.dt)
    if isinstance(a, V):
        return V(tm.ite_w(bv(c).e, a.e, a._c(b), a.w), a.dt)
    if isinstance(b, V):
        return V(tm.ite_w(bv(c).e, b._c(a), b.e, b.w), b.dt)
    raise TypeError


def Count(conds, dt=np.uint32):
    r = lit(0, dt)
    for c in conds:
        r = r + Ite(bv(c), lit(1, dt), lit(0, dt))
    return r


# ---------------------------------------------------------------------- arrays
class A:
    """View of an SArr for contracts."""

    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    @property
    def shape(self):
        return tuple(self.s.shape)

    @property
    def ndim(self):
        return len(self.s.shape)

    @property
    def dtype(self):
        return self.s.dtype

    def __len__(self):
        return self.s.shape[0]

    def __getitem__(self, i):
        """static indexing"""
        e = self.s.el[i]
        if isinstance(e, np.ndarray):
            return A(SArr(self.s.dtype, el=e))
        return V(e, self.s.dtype)

    @property
    def v(self):
        """scalar value"""
        return V(self.s.el[()], self.s.dtype)

    def flat(self):
        return [V(e, self.s.dtype) for e in self.s.el.reshape(-1)]

    def reshape(self, *sh):
        if len(sh) == 1 and isinstance(sh[0], tuple):
            sh = sh[0]
        return A(SArr(self.s.dtype, el=self.s.el.reshape(sh)))

    def map(self, f):
        """apply a numpy data-movement function to the object array"""
        return A(SArr(self.s.dtype, el=np.asarray(f(self.s.el), dtype=object)))

    def same(self, o):
        """bitwise identical arrays"""
        if isinstance(o, V):
            return And(x.same(o) for x in self.flat())
        if self.shape != o.shape or self.dtype != o.dtype:
            return FALSE
        w = dinfo(self.dtype)[1]
        r = True
        for x, y in zip(self.s.el.reshape(-1), o.s.el.reshape(-1)):
            r = tm.and_(r, tm.eq(x, y, w))
        return V(r, bool)

    def at(self, *idx, default=None):
        """select with symbolic (or concrete) leading index V; caller guarantees in-bounds or gives default"""
        el = self.s.el
        w = dinfo(self.dtype)[1]
        for i in idx:
            if isinstance(i, (int, np.integer)):
                el = el[int(i)]
                continue
            n = el.shape[0]
            if not isT(i.e):
                v = ip.idx_int(i.e, i.dt)
                if not (0 <= v < n):
                    assert default is not None, f"contract index {v} out of range {n}"
                    return default
                el = el[v]
                continue
            r = el[n - 1]
            for k in range(n - 2, -1, -1):
                c = ip.idx_eq(i.e, k, i.dt)
                if isinstance(r, np.ndarray):
                    r = ip.vite(c, el[k], r, w)
                else:
                    r = tm.ite_w(c, el[k], r, w)
            el = r
        if isinstance(el, np.ndarray):
            return A(SArr(self.s.dtype, el=el))
        return V(el, self.s.dtype)

    def __repr__(self):
        return f"A({self.dtype}{list(self.shape)})"


class NS:
    """Record view of a pytree (attributes / items by key path)."""

    def __init__(self):
        object.__setattr__(self, "_d", {})

    def __getattr__(self, k):
        try:
            return self._d[k]
        except KeyError:
            raise AttributeError(k)

    def __getitem__(self, k):
        return self._d[k]

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        return iter(self._d.values())

    def keys(self):
        return self._d.keys()

    def items(self):
        return self._d.items()

    def leaves(self):
        """list of (path, A)"""
        out = []
        for k, x in self._d.items():
            if isinstance(x, NS):
                out += [((k,) + p, y) for p, y in x.leaves()]
            else:
                out.append(((k,), x))
        return out


def leaves(x):
    return [((), x)] if isinstance(x, A) else x.leaves()


def _pk(k):
    for a in ("name", "idx", "key"):
        if hasattr(k, a):
            return getattr(k, a)
    return str(k)


def view(tree_paths, sarrs):
    """Build an NS/A from key paths and SArrs."""
    if len(tree_paths) == 1 and len(tree_paths[0]) == 0:
        return A(sarrs[0])
    root = NS()
    for path, s in zip(tree_paths, sarrs):
        n = root
        for k in path[:-1]:
            k = _pk(k)
            if k not in n._d:
                n._d[k] = NS()
            n = n._d[k]
        n._d[_pk(path[-1])] = A(s)
    return root


def paths_of(tree):
    fl, td = jax.tree_util.tree_flatten_with_path(tree)
    return [p for p, _ in fl], [x for _, x in fl], td


def same_tree(a, b, sub=None):
    """bitwise equality of two record views with equal structure"""
    la, lb = leaves(a), leaves(b)
    if [p for p, _ in la] != [p for p, _ in lb]:
        return FALSE
    return And(x.same(y) for (_, x), (_, y) in zip(la, lb))


def map_tree(a, f):
    if isinstance(a, A):
        return f(a)
    r = NS()
    for k, x in a.items():
        r._d[k] = map_tree(x, f)
    return r


def sds(tree):
    """pytree of arrays -> pytree of ShapeDtypeStruct"""
    return jax.tree_util.tree_map(lambda x: jax.ShapeDtypeStruct(jnp.shape(x), jnp.result_type(x)), tree)


def S(shape, dt):
    return jax.ShapeDtypeStruct(tuple(shape), np.dtype(dt))


# ---------------------------------------------------------------------- cases
@dataclasses.dataclass
class Case:
    """A contract instance: `requires` pre(args), `ensures` post(args, result) for the real code `fn`."""

    name: str
    fn: Callable
    args: tuple
    post: Callable
    pre: Callable = None
    sample: Callable = None  # rng -> tuple of concrete pytrees satisfying pre (or nearly; pre is re-evaluated)
    nsample: int = 4
    functions: tuple = ()
    tier: str = "quick"
    env: tuple = ()  # ((name, value), ...) environment for the worker process
    abstract_mul: bool = False
    max_unroll: int = 64
    timeout: float = 60.0  # per obligation (s)
    budget: float = 300.0  # whole case (s)
    uf: Any = None  # object with .prims (interpreter handlers), .install(tables), .from_model
    mode: str = "proof"  # "proof": obligations by the verifier; "py": Python paths over symbolic integers (pyexec); "param": arbitrary sizes (prun); "bounded": concrete contract evaluation only
    bound: str = ""  # stated bound of a bounded case
    must_raise: Any = None  # contract on rejected inputs: calling fn must raise this exception type
    static_check: Callable = None  # extra Python-level postconditions: (out_struct) -> [(label, bool)]
    seed_extra: int = 0
    assume: Callable = None  # assume(args, result): an invariant of the pre-state that the real code itself evaluates as part of fn's result
    dims: tuple = ()  # mode "param": names of the symbolic sizes; args, pre, post and sample then take the sizes too
    dimcons: tuple = ()  # constraints on the sizes, e.g. "m<=n"
    dimmax: int = 6  # sampled sizes
    sizelimit: int = 1 << 28  # largest size considered
    maxvariants: int = 24
    jit: bool = False  # run the real code under jax.jit in concrete runs (where eager calls take another path)


class Result(dict):
    pass


def _names(args):
    """variable names of all input elements"""
    ps, ls, td = paths_of(args)
    return ps, ls, td


def make_inputs(args):
    ps, ls, td = _names(args)
    sarrs = []
    names = {}
    for n, (p, l) in enumerate(zip(ps, ls)):
        k, w = dinfo(l.dtype)
        el = np.empty(l.shape, dtype=object)
        base = "a" + jax.tree_util.keystr(p).replace("'", "").replace('"', "")
        for ix in np.ndindex(*l.shape):
            nm = base + ("[" + ",".join(map(str, ix)) + "]" if ix else "")
            names[nm] = w
            el[ix] = tm.var(nm, w)
        sarrs.append(SArr(l.dtype, el=el))
    return ps, ls, td, sarrs, names


def env_from_concrete(ps, leaves_):
    env = {}
    for p, x in zip(ps, leaves_):
        base = "a" + jax.tree_util.keystr(p).replace("'", "").replace('"', "")
        r = ip.to_raw(np.asarray(x))
        for ix in np.ndindex(*r.shape):
            env[base + ("[" + ",".join(map(str, ix)) + "]" if ix else "")] = r[ix]
    return env


def concrete_from_env(ps, ls, td, env):
    out = []
    for p, l in zip(ps, ls):
        base = "a" + jax.tree_util.keystr(p).replace("'", "").replace('"', "")
        o = np.empty(l.shape, dtype=object)
        for ix in np.ndindex(*l.shape):
            o[ix] = env[base + ("[" + ",".join(map(str, ix)) + "]" if ix else "")]
        out.append(ip.from_raw(o, l.dtype))
    return out


def norm_post(post):
    """list of (label, bool element) with equal labels conjoined, in order"""
    d = {}
    for lab, c in post:
        c = bv(c).e
        d[lab] = tm.and_(d[lab], c) if lab in d else c
    return d


def eval_contract(case, in_paths, in_leaves, out_paths, out_leaves):
    """Evaluate pre and post on concrete data: (pre_bool, {label: bool})"""
    ins = view_args(in_paths, [conc(np.asarray(x)) for x in in_leaves])
    pre = True if case.pre is None else bv(case.pre(*ins)).e
    if pre is not True:
        return False, {}
    out = view(out_paths, [conc(np.asarray(x)) for x in out_leaves])
    if case.assume is not None and bv(case.assume(ins, out)).e is not True:
        return False, {}
    return True, norm_post(case.post(ins, out))


def eval_pre(case, in_paths, in_leaves):
    ins = view_args(in_paths, [conc(np.asarray(x)) for x in in_leaves])
    return True if case.pre is None else bv(case.pre(*ins)).e


def view_args(paths, sarrs):
    """args is a tuple: first path key is the argument position"""
    groups = {}
    for p, s in zip(paths, sarrs):
        groups.setdefault(_pk(p[0]), []).append((p[1:], s))
    n = max(groups) + 1 if groups else 0
    out = []
    for i in range(n):
        g = groups.get(i, [])
        if not g:
            out.append(NS())
        else:
            out.append(view([p for p, _ in g], [s for _, s in g]))
    return tuple(out)


def run_real(case, td, in_leaves):
    """execute the real code on concrete inputs (XLA on CPU)"""
    args = jax.tree_util.tree_unflatten(td, [jnp.asarray(x) for x in in_leaves])
    out = (jax.jit(case.fn) if case.jit else case.fn)(*args)
    fl, _ = jax.tree_util.tree_flatten_with_path(out)
    return [p for p, _ in fl], [np.asarray(x) for _, x in fl]
