"""Translation of terms to z3 and the discharge of obligations."""
from __future__ import annotations

import os
import shutil
import subprocess
import sys
import tempfile
import time

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)  # appended: numpy/jax still come from the project's environment
import z3  # noqa: E402

from . import term as tm  # noqa: E402
from .term import T, isT  # noqa: E402


class Z:
    """Term -> z3 translator (memoised)."""

    def __init__(self):
        self.memo = {}
        self.vars = {}
        self.ufs = {}

    def const(self, c, w):
        return z3.BoolVal(bool(c)) if w == 0 else z3.BitVecVal(int(c), w)

    def elem(self, x, w):
        return self.tr(x) if isT(x) else self.const(x, w)

    def tr(self, root):
        if not isT(root):
            if isinstance(root, bool):
                return z3.BoolVal(root)
            raise ValueError("width of constant unknown")
        memo = self.memo
        st = [root]
        while st:
            t = st[-1]
            if t.id in memo:
                st.pop()
                continue
            pend = [a for a in t.args if isT(a) and a.id not in memo]
            if pend:
                st.extend(pend)
                continue
            st.pop()
            memo[t.id] = self._node(t)
        return memo[root.id]

    def _a(self, x, w):
        return self.memo[x.id] if isT(x) else self.const(x, w)

    def _node(self, t):
        op, w = t.op, t.w
        if op == "var":
            v = z3.Bool(t.p) if w == 0 else z3.BitVec(t.p, w)
            self.vars[t.p] = (v, w)
            return v
        if op == "not":
            return z3.Not(self._a(t.args[0], 0))
        if op == "and":
            return z3.And(self._a(t.args[0], 0), self._a(t.args[1], 0))
        if op == "xor":
            return z3.Xor(self._a(t.args[0], 0), self._a(t.args[1], 0))
        if op == "ite":
            return z3.If(self._a(t.args[0], 0), self._a(t.args[1], w), self._a(t.args[2], w))
        if op in ("eq", "ult", "slt"):
            ww = t.p
            a, b = self._a(t.args[0], ww), self._a(t.args[1], ww)
            return a == b if op == "eq" else (z3.ULT(a, b) if op == "ult" else a < b)
        if op == "bvnot":
            return ~self._a(t.args[0], w)
        if op == "sext":
            return z3.SignExt(w - t.p, self._a(t.args[0], t.p))
        if op == "concat":
            parts = []
            for n, s in t.p:
                if isinstance(s, int):
                    parts.append(z3.BitVecVal(s, n))
                else:
                    x = self.memo[s[0].id]
                    parts.append(x if (s[1] == 0 and n == s[0].w) else z3.Extract(s[1] + n - 1, s[1], x))
            parts.reverse()
            return parts[0] if len(parts) == 1 else z3.Concat(*parts)
        if op == "uf":
            name, ws = t.p
            f = self.ufs.get(name)
            if f is None:
                f = z3.Function(name, *[z3.BitVecSort(n) if n else z3.BoolSort() for n in ws], z3.BitVecSort(w) if w else z3.BoolSort())
                self.ufs[name] = f
            return f(*[self._a(a, n) for a, n in zip(t.args, ws)])
        if op == "i2f":
            iw, signed = t.p
            a = self._a(t.args[0], iw)
            so = {16: z3.Float16(), 32: z3.Float32(), 64: z3.Float64()}[w]
            f = z3.fpSignedToFP(z3.RNE(), a, so) if signed else z3.fpUnsignedToFP(z3.RNE(), a, so)
            return z3.fpToIEEEBV(f)
        a, b = self._a(t.args[0], w), self._a(t.args[1], w)
        if op == "add":
            return a + b
        if op == "sub":
            return a - b
        if op == "mul":
            return a * b
        if op == "bvand":
            return a & b
        if op == "bvor":
            return a | b
        if op == "bvxor":
            return a ^ b
        if op == "shl":
            return a << b
        if op == "lshr":
            return z3.LShR(a, b)
        if op == "ashr":
            return a >> b
        if op == "udiv":
            return z3.UDiv(a, b)
        if op == "urem":
            return z3.URem(a, b)
        if op == "sdiv":
            # XLA: x / 0 = -1
            return z3.If(b == 0, z3.BitVecVal(-1, w), a / b)
        if op == "srem":
            return z3.SRem(a, b)
        raise NotImplementedError(op)


class Prover:
    """One solver context: precondition asserted, queries under assumptions."""

    def __init__(self, pre, timeout_ms=60000):
        self.z = Z()
        self.pre = pre
        self.timeout_ms = timeout_ms
        self.queries = 0
        self.time = 0.0
        self._inc = None
        self.log = []

    def _inc_solver(self):
        if self._inc is None:
            s = z3.Solver()
            s.set("timeout", 15000)
            if self.pre is not True:
                s.add(self.z.elem(self.pre, 0))
            self._inc = s
        return self._inc

    def sat(self, *conds):
        """'sat' / 'unsat' / 'unknown' of pre & conds (incremental; used for loop activity)."""
        c = tm.and_all(conds)
        if c is False:
            return "unsat"
        t0 = time.time()
        s = self._inc_solver()
        s.push()
        s.add(self.z.elem(c, 0))
        r = s.check()
        s.pop()
        self.queries += 1
        self.time += time.time() - t0
        return str(r)

    def solver(self):
        s = z3.Solver()
        if self.pre is not True:
            s.add(self.z.elem(self.pre, 0))
        return s

    def check(self, s, rem):
        """('sat' | 'unsat' | 'unknown', model) of the assertions of s within rem seconds"""
        t0 = time.time()
        s.set("timeout", max(1, int(rem * 1000)))
        r = s.check()
        self.queries += 1
        self.time += time.time() - t0
        return str(r), (s.model() if r == z3.sat else None)

    def model_funcs(self, m):
        """(functions, environment) of model m for term.evaluate"""
        pr = self

        class F:
            def __init__(self):
                self.t = {}

            def __getitem__(self, n):
                if n not in self.t:
                    d, e = pr.model_table(m, n)
                    if d is None:
                        self.t[n] = pr.model_uf(m, n)
                    else:
                        self.t[n] = lambda *a, d=d, e=e: e.get(tuple(a), d)
                return self.t[n]

        class E:
            def __init__(self):
                self.v = {}

            def __getitem__(self, n):
                if n not in self.v:
                    x = pr.z.vars.get(n)
                    self.v[n] = 0 if x is None else pr.model_env(m, {n: x[1]})[n]
                return self.v[n]

        return F(), E()

    def prove(self, goal, extra=True, timeout_ms=None, tactic=None, second=True):
        """Returns (status, model-or-None, backend); status in proved/refuted/unknown."""
        if goal is True:
            return "proved", None, "normaliser"
        if self.pre is False or extra is False:
            return "proved", None, "normaliser"
        t0 = time.time()
        timeout_ms = timeout_ms or self.timeout_ms
        s = (tactic or z3.Solver)() if not isinstance(tactic, str) else z3.Tactic(tactic).solver()
        s.set("timeout", int(timeout_ms))
        if self.pre is not True:
            s.add(self.z.elem(self.pre, 0))
        if extra is not True:
            s.add(self.z.elem(extra, 0))
        s.add(z3.Not(self.z.elem(goal, 0)))
        r = s.check()
        self.queries += 1
        self.time += time.time() - t0
        if r == z3.unsat:
            return "proved", None, "z3"
        if r == z3.sat:
            return "refuted", s.model(), "z3"
        if not second:
            return "unknown", None, "z3"
        # second back end: cvc5 on the same VC
        t1 = time.time()
        st = self._cvc5(s, timeout_ms)
        self.time += time.time() - t1
        if st == "unsat":
            return "proved", None, "cvc5"
        return "unknown", None, "z3"

    def _cvc5(self, s, timeout_ms):
        exe = shutil.which("cvc5")
        if not exe:
            return "unknown"
        fd, path = tempfile.mkstemp(suffix=".smt2")
        try:
            txt = s.to_smt2()
            with os.fdopen(fd, "w") as f:
                f.write("(set-logic ALL)\n" + txt)
            r = subprocess.run([exe, f"--tlimit={int(timeout_ms)}", path], capture_output=True, text=True, timeout=timeout_ms / 1000 + 20)
            o = r.stdout.strip().splitlines()
            return o[0] if o and o[0] in ("sat", "unsat") else "unknown"
        except Exception:
            return "unknown"
        finally:
            os.unlink(path)

    def model_env(self, m, names):
        """Concrete values of the named variables in model m: {name: int/bool}; names: {name: width}."""
        env = {}
        for n, w in names.items():
            if w == 0:
                v = m.eval(z3.Bool(n), model_completion=True)
                env[n] = z3.is_true(v)
            else:
                v = m.eval(z3.BitVec(n, w), model_completion=True)
                env[n] = v.as_long()
        return env

    def model_table(self, m, name):
        """(default value, {args: value}) of UF `name` in model m; default None when it is not a constant"""
        f = self.z.ufs.get(name)
        if f is None:
            return 0, {}
        fi = m[f]
        if fi is None:
            return 0, {}

        def val(e):
            return z3.is_true(e) if z3.is_bool(e) else e.as_long()

        try:
            els = val(fi.else_value()) if z3.is_bv_value(fi.else_value()) or z3.is_true(fi.else_value()) or z3.is_false(fi.else_value()) else None
            ents = {}
            for i in range(fi.num_entries()):
                e = fi.entry(i)
                ents[tuple(val(e.arg_value(k)) for k in range(e.num_args()))] = val(e.value())
            return els, ents
        except Exception:
            return None, {}

    def model_uf(self, m, name):
        """Callable for UF `name` in model m."""
        f = self.z.ufs.get(name)
        if f is None:
            return lambda *a: 0

        dom = [f.domain(i) for i in range(f.arity())]

        def call(*args):
            za = [z3.BoolVal(bool(a)) if d.kind() == z3.Z3_BOOL_SORT else z3.BitVecVal(int(a), d.size()) for a, d in zip(args, dom)]
            v = m.eval(f(*za), model_completion=True)
            return z3.is_true(v) if z3.is_bool(v) else v.as_long()

        return call


class ZI(Z):
    """Term -> z3 over the integers (values of width w are 0 .. 2**w-1); exact, used where order reasoning on machine words is hard"""

    def __init__(self):
        super().__init__()
        self.side = []

    def const(self, c, w):
        return z3.BoolVal(bool(c)) if w == 0 else z3.IntVal(int(c))

    def _fresh(self, x, w):
        self.side += [x >= 0, x < (1 << w)]
        return x

    def _node(self, t):
        op, w = t.op, t.w
        if op == "var":
            v = z3.Bool(t.p) if w == 0 else self._fresh(z3.Int(t.p), w)
            self.vars[t.p] = (v, w)
            return v
        if op in ("not", "and", "xor", "ite"):
            return super()._node(t)
        if op in ("eq", "ult", "slt"):
            ww = t.p
            a, b = self._a(t.args[0], ww), self._a(t.args[1], ww)
            if op == "eq":
                return a == b
            if op == "slt":
                h = 1 << (ww - 1)
                a, b = z3.If(a >= h, a - 2 * h, a), z3.If(b >= h, b - 2 * h, b)
            return a < b
        if op == "bvnot":
            return (1 << w) - 1 - self._a(t.args[0], w)
        if op == "concat":
            r, at = 0, 0
            for n, s in t.p:
                if isinstance(s, int):
                    x = z3.IntVal(s)
                else:
                    x, lo, sw = self.memo[s[0].id], s[1], s[0].w
                    if lo + n < sw:
                        x = z3.If(x >= (1 << (sw - 1)), x - (1 << (sw - 1)), x) if lo + n == sw - 1 else x % (1 << (lo + n))
                    if lo:
                        x = z3.If(x >= (1 << lo), z3.IntVal(1), z3.IntVal(0)) if n == 1 and lo + n == sw else x / (1 << lo)
                r = r + x * (1 << at)
                at += n
            return z3.simplify(r) if not z3.is_expr(r) else r
        if op == "uf":
            name, ws = t.p
            f = self.ufs.get(name)
            if f is None:
                f = z3.Function(name, *[z3.IntSort() if n else z3.BoolSort() for n in ws], z3.IntSort() if w else z3.BoolSort())
                self.ufs[name] = f
            r = f(*[self._a(a, n) for a, n in zip(t.args, ws)])
            return self._fresh(r, w) if w else r
        if op in ("add", "sub", "mul"):
            a, b = self._a(t.args[0], w), self._a(t.args[1], w)
            m = 1 << w
            from . import term as tm

            if op == "add":
                if tm._maxval(t.args[0], w) + tm._maxval(t.args[1], w) < m:
                    return a + b
                return z3.If(a + b >= m, a + b - m, a + b)
            if op == "sub":
                return z3.If(a < b, a - b + m, a - b)
            if not isT(t.args[1]) and tm._maxval(t.args[0], w) * t.args[1] < m:
                return a * b
        if op in ("bvor", "bvand", "bvxor", "lshr", "udiv", "urem") and not isT(t.args[1]):
            a, c = self._a(t.args[0], w), t.args[1]
            top = 1 << (w - 1)
            if c == top and op != "lshr" and op[0] == "b":
                up = a >= top
                return z3.If(up, a, a + top) if op == "bvor" else z3.If(up, z3.IntVal(top), z3.IntVal(0)) if op == "bvand" else z3.If(up, a - top, a + top)
            if op == "bvand" and c & (c + 1) == 0:
                return a % (c + 1)
            if op == "lshr":
                return a / (1 << c) if c < w else z3.IntVal(0)
            if op in ("udiv", "urem") and c:
                return a / c if op == "udiv" else a % c
        raise NotImplementedError(op)


class ProverI(Prover):
    """integer encoding of the same queries"""

    def __init__(self, pre, timeout_ms=60000):
        super().__init__(pre, timeout_ms)
        self.z = ZI()

    def asserting(self, terms):
        s = z3.Solver()
        for t in ([] if self.pre is True else [self.pre]) + list(terms):
            if t is not True:
                s.add(self.z.elem(t, 0))
        s.add(*self.z.side)
        return s

    def model_funcs(self, m):
        pr = self

        def num(e):
            return z3.is_true(e) if z3.is_bool(e) else e.as_long()

        class F:
            def __init__(self):
                self.t = {}

            def __getitem__(self, n):
                f = pr.z.ufs.get(n)
                if f is None:
                    return lambda *a: 0
                if n not in self.t:
                    memo = {}

                    def call(*a):
                        if a not in memo:
                            v = num(m.eval(f(*[z3.BoolVal(bool(x)) if f.domain(i).kind() == z3.Z3_BOOL_SORT else z3.IntVal(int(x)) for i, x in enumerate(a)]), model_completion=True))
                            memo[a] = v if isinstance(v, bool) else max(0, v) & 0xFFFFFFFF
                        return memo[a]

                    self.t[n] = call
                return self.t[n]

        class E:
            def __init__(self):
                self.v = {}

            def __getitem__(self, n):
                if n not in self.v:
                    x = pr.z.vars.get(n)
                    self.v[n] = 0 if x is None else num(m.eval(x[0], model_completion=True))
                return self.v[n]

        return F(), E()
