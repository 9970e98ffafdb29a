"""Path-exploring symbolic execution of the Python part of the code under test over unbounded integers.

Shape queries, validation and size computations are Python over array *shapes*; a jaxpr fixes those.  Here the real functions run
with dimensions that are z3 integers (`SymInt`): arithmetic builds terms, and every Python branch on a symbolic comparison is
explored both ways when z3 says both are feasible.  Each finished path yields obligations  requires ∧ path ⇒ ensures, for all
dimensions at once.  The same contract function runs on concrete dimensions with real arrays (sampling, replay)."""
from __future__ import annotations

import builtins
import contextlib
import sys
import time

import numpy as np

from . import solve  # noqa: F401  (puts z3 on the path)
import z3


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class Explorer:
    def __init__(self, max_paths=4000, budget=120):
        self.solver = z3.Solver()
        self.solver.set("timeout", 10000)
        self.vars = {}
        self.max_paths = max_paths
        self.end = time.time() + budget
        self.queries = 0
        self.todo = [[]]
        self.reset([])

    def reset(self, prefix):
        self.prefix, self.dec, self.pc = prefix, [], []

    def feasible(self, *extra):
        self.queries += 1
        r = self.solver.check(*(self.base + self.pc + list(extra)))
        if r == z3.unknown:
            raise Unsupported("z3 could not decide a branch")
        return r == z3.sat

    base: list = []

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = len(self.dec)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            t, f = self.feasible(cond), self.feasible(z3.Not(cond))
            if not t and not f:
                raise Infeasible()
            d = t
            if t and f:
                self.todo.append(self.dec + [False])
        self.dec.append(d)
        self.pc.append(cond if d else z3.Not(cond))
        return d


_cur: list = [None]


def _z(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    return None


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return _cur[0].branch(self.e)

    def __and__(self, o):
        return SymBool(z3.And(self.e, zb(o)))

    def __or__(self, o):
        return SymBool(z3.Or(self.e, zb(o)))

    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        return SymBool(z3.Not(self.e))


def zb(c):
    if isinstance(c, SymBool):
        return c.e
    if isinstance(c, (bool, np.bool_)):
        return z3.BoolVal(bool(c))
    if z3.is_expr(c):
        return c
    raise TypeError(c)


def _pyfloordiv(a, b):
    # z3 Int division is Euclidean; Python floors.  They agree for b > 0.
    q = a / b
    return z3.If(b > 0, q, z3.If(a == q * b, q, q - 1)) if not (z3.is_int_value(b) and b.as_long() > 0) else q


class SymInt:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def _op(self, o, f):
        z = _z(o)
        if z is None:
            return NotImplemented
        return f(self.e, z)

    def __eq__(self, o):
        r = self._op(o, lambda a, b: SymBool(a == b))
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._op(o, lambda a, b: SymBool(a != b))
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._op(o, lambda a, b: SymBool(a < b))

    def __le__(self, o):
        return self._op(o, lambda a, b: SymBool(a <= b))

    def __gt__(self, o):
        return self._op(o, lambda a, b: SymBool(a > b))

    def __ge__(self, o):
        return self._op(o, lambda a, b: SymBool(a >= b))

    def __add__(self, o):
        return self._op(o, lambda a, b: SymInt(z3.simplify(a + b)))

    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, lambda a, b: SymInt(z3.simplify(a - b)))

    def __rsub__(self, o):
        return self._op(o, lambda a, b: SymInt(z3.simplify(b - a)))

    def __mul__(self, o):
        return self._op(o, lambda a, b: SymInt(z3.simplify(a * b)))

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(-self.e)

    def __floordiv__(self, o):
        return self._op(o, lambda a, b: SymInt(_pyfloordiv(a, b)))

    def __rfloordiv__(self, o):
        return self._op(o, lambda a, b: SymInt(_pyfloordiv(b, a)))

    def __mod__(self, o):
        return self._op(o, lambda a, b: SymInt(a - b * _pyfloordiv(a, b)))

    def __bool__(self):
        return _cur[0].branch(self.e != 0)

    def __index__(self):
        raise Unsupported("a symbolic dimension was used as a machine integer")

    __int__ = __index__
    __float__ = __index__
    __hash__ = None

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "<sym>"


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.int, SymInt))

    def __call__(cls, *a):
        if len(a) == 1 and isinstance(a[0], SymInt):
            return a[0]
        return builtins.int(*a)


class IntProxy(metaclass=_IntMeta):
    """stands for the builtin `int` in the modules under test: the identity on symbolic integers"""


class FakeArr:
    """an array known only by shape, dtype and (for fills) value"""

    def __init__(self, shape, dtype, fill=None):
        self.shape, self.dtype, self.fill = tuple(shape), np.dtype(dtype), fill
        self.ndim = len(self.shape)


class _Np:
    """jax.numpy seen by the modules under test: shape-only operations on FakeArr are the assumed contracts of the jnp functions"""

    def __init__(self, real):
        self._real = real

    def __getattr__(self, k):
        return getattr(self._real, k)

    def asarray(self, x, *a, **k):
        if isinstance(x, FakeArr):
            dt = a[0] if a else k.get("dtype")
            return x if dt is None or np.dtype(dt) == x.dtype else FakeArr(x.shape, dt)
        return self._real.asarray(x, *a, **k)

    def where(self, c, x, y):
        if not any(isinstance(v, FakeArr) for v in (c, x, y)):
            return self._real.where(c, x, y)
        sh = tuple(x.shape)
        for o in (c, y):
            if len(o.shape) != len(sh) or not all(bool(p == q) for p, q in zip(o.shape, sh)):
                raise Unsupported("broadcasting where on symbolic shapes")
        return FakeArr(sh, self._real.result_type(x.dtype, y.dtype))

    def result_type(self, *a):
        return self._real.result_type(*[v.dtype if isinstance(v, FakeArr) else v for v in a])

    def broadcast_to(self, x, shape):
        if not isinstance(x, FakeArr):
            return self._real.broadcast_to(x, shape)
        shape = tuple(shape)
        if len(x.shape) > len(shape) or not all(bool(p == q) or bool(p == 1) for p, q in zip(x.shape, shape[len(shape) - len(x.shape):])):
            raise ValueError("incompatible shapes for broadcasting")
        return FakeArr(shape, x.dtype)

    def full(self, shape, fill_value, dtype=None):
        return FakeArr(shape, dtype, fill_value)

    def shape(self, x):
        return x.shape if isinstance(x, FakeArr) else self._real.shape(x)

    def ndim(self, x):
        return x.ndim if isinstance(x, FakeArr) else self._real.ndim(x)


@contextlib.contextmanager
def patched():
    import jax.numpy as jnp

    px = _Np(jnp)
    undo = []
    for n, m in list(sys.modules.items()):
        if n.startswith("xtructure.") and m is not None:
            d = m.__dict__
            if d.get("jnp") is jnp:
                undo.append((d, "jnp", jnp))
                d["jnp"] = px
            if "int" not in d:
                undo.append((d, "int", None))
                d["int"] = IntProxy
    try:
        yield
    finally:
        for d, k, v in undo:
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v


class Ctx:
    """what a contract function sees: symbolic (ex given) or concrete (vals given)"""

    def __init__(self, ex=None, vals=None):
        self.ex, self.vals = ex, vals
        self.sym = ex is not None
        self.used = {}

    def dim(self, name, lo=0, hi=None):
        if self.sym:
            v = self.ex.vars.get(name)
            if v is None:
                v = self.ex.vars[name] = z3.Int(name)
                self.ex.base = self.ex.base + [v >= lo] + ([v <= hi] if hi is not None else [])
            return SymInt(v)
        v = int(self.vals[name])
        if v < lo or (hi is not None and v > hi):
            raise Infeasible()
        self.used[name] = v
        return v

    def assume(self, c):
        if self.sym:
            e = zb(c)
            self.ex.pc.append(e)
            if not self.ex.feasible():
                raise Infeasible()
        elif not bool(c):
            raise Infeasible()

    def arr(self, shape, dtype, fill=None):
        if self.sym:
            return FakeArr(shape, dtype)
        import jax.numpy as jnp

        return jnp.zeros(tuple(shape), dtype)

    # formulas over dimensions, in both modes
    def eqs(self, a, b):
        """two shape tuples are equal"""
        if len(a) != len(b):
            return False
        return self.all(x == y for x, y in zip(a, b))

    def all(self, cs):
        cs = list(cs)
        if any(isinstance(c, SymBool) or z3.is_expr(c) for c in cs):
            return SymBool(z3.And([zb(c) for c in cs]))
        return all(bool(c) for c in cs)

    def any(self, cs):
        cs = list(cs)
        if any(isinstance(c, SymBool) or z3.is_expr(c) for c in cs):
            return SymBool(z3.Or([zb(c) for c in cs]))
        return any(bool(c) for c in cs)

    def not_(self, c):
        return ~c if isinstance(c, SymBool) else not c

    def iff(self, a, b):
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            return SymBool(zb(a) == zb(b))
        return bool(a) == bool(b)

    def implies(self, a, b):
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            return SymBool(z3.Implies(zb(a), zb(b)))
        return (not a) or bool(b)


class _Vals(dict):
    """dimension values; unnamed ones are drawn when first asked for"""

    def __init__(self, rng, const=None, init=()):
        super().__init__(init)
        self.rng, self.const = rng, const

    def __missing__(self, k):
        self[k] = self.const if self.const is not None else int(self.rng.integers(0, 4))
        return self[k]


def run_py_case(case, R, rng, in_repo, replay=None, marker=None):
    """fills R with obligations / violations"""
    import traceback

    def concrete(vals, origin):
        """(ok, info): run the contract on real arrays of these dimensions"""
        ctx = Ctx(vals=vals)
        vals = vals if isinstance(vals, _Vals) else _Vals(None, 1, vals)
        inputs = lambda: [dict(path=k, dtype="int", shape=[], raw=[int(v)], value=str(v)) for k, v in sorted(vals.items())]
        try:
            posts = case.fn(ctx)
        except Infeasible:
            return None, {}
        except Exception as e:
            if in_repo(e.__traceback__):
                return False, dict(label="no-exception", detail=f"{type(e).__name__}: {str(e)[:300]}", origin=origin, inputs=inputs())
            R["notes"].append(f"harness error {type(e).__name__}: {e} {traceback.format_exc()[-400:]}")
            return None, {}
        for lab, c in posts:
            if not bool(c):
                return False, dict(label=lab, detail=f"postcondition '{lab}' is false on the real result", origin=origin, inputs=inputs())
        return True, {}

    if replay is not None:
        ok, info = concrete({i["path"]: i["raw"][0] for i in replay["inputs"]}, "replay")
        R["replay_ok"] = ok
        R["replay_info"] = {k: v for k, v in info.items() if k in ("label", "detail")}
        return

    ex = Explorer(budget=case.budget)
    npaths = 0
    status = {}
    t0 = time.time()

    def refute(conds):
        """a model of the path (small dimensions preferred), replayed on the real code"""
        for hi in (3, 8, 64):
            s = z3.Solver()
            s.set("timeout", 10000)
            s.add(*ex.base, *conds, *[v <= hi for v in ex.vars.values()])
            if s.check() == z3.sat:
                m = s.model()
                vals = {n: m.eval(v, model_completion=True).as_long() for n, v in ex.vars.items()}
                ok, info = concrete(vals, "counterexample")
                if ok is False:
                    R["violations"].append(info)
                    return True
        return False

    undecided = None
    try:
        while ex.todo and not R["violations"]:
            ex.reset(ex.todo.pop())
            npaths += 1
            if npaths > ex.max_paths or time.time() > ex.end:
                raise Unsupported("path budget")
            _cur[0] = ex
            try:
                with patched():
                    posts = case.fn(Ctx(ex))
            except Infeasible:
                continue
            except Unsupported:
                raise
            except Exception as e:
                if in_repo(e.__traceback__):
                    if refute(ex.pc):
                        break
                    raise Unsupported(f"{type(e).__name__} on a symbolic path, not reproduced: {str(e)[:200]}")
                raise Unsupported(f"{type(e).__name__}: {str(e)[:200]} {traceback.format_exc()[-600:]}")
            for lab, c in posts:
                ex.queries += 1
                g = zb(c)
                r = ex.solver.check(*(ex.base + ex.pc + [z3.Not(g)]))
                if r == z3.unsat:
                    status.setdefault(lab, "proved")
                elif r == z3.sat and refute(ex.pc + [z3.Not(g)]):
                    status[lab] = "refuted"
                    break
                else:
                    status[lab] = "refuted-unreplayed" if r == z3.sat else "unknown"
    except Unsupported as e:
        undecided = f"outside the path explorer's reach: {e}; bounded contract evaluation instead"
    finally:
        _cur[0] = None
    R["paths"] = npaths
    R["queries"] = ex.queries
    R["solver_s"] = round(time.time() - t0, 3)
    if undecided:
        R["notes"].append(undecided)
        R["undecided"] = True
    elif not status:
        R["notes"].append("zero obligations")
        R["undecided"] = True
    else:
        R["obligations"] = [dict(label=l, status=s, backend="z3", s=0.0) for l, s in status.items()]
        if any(s != "proved" for s in status.values()):
            R["undecided"] = True
    # the same contract on real arrays
    n = case.nsample * (10 if R.get("undecided") else 1)
    names = list(ex.vars) or []
    if not R["violations"]:
        for k in range(n):
            vals = _Vals(rng)
            vals.update({v: int(rng.integers(0, 4)) for v in names})
            if k % 3 == 0:
                c = int(rng.integers(0, 4))
                vals = _Vals(rng, c)
            ok, info = concrete(vals, "sample")
            if ok is None:
                continue
            R["samples"] += 1
            if ok is False:
                R["violations"].append(info)
                break
            if not vals:
                break
