"""Contract cases over symbolic array sizes (mode "param")."""
from __future__ import annotations

import itertools
import math
import sys
import time
import traceback

import jax
import numpy as np
from jax import export
from jax._src import core
from jax._src.export import shape_poly as sp

from . import contract as ct
from . import interp as ip
from . import param as pm
from . import solve
from . import term as tm
from .contract import A, NS, V, And, Implies, bv, lit, norm_post
from .interp import Budget, SArr, Unsupported, conc, dinfo
from .param import IW, PArr, isdim
from .term import isT

U = np.uint32


# ------------------------------------------------------------------ contract views
class Ctx:
    """symbolic (itp set) or concrete evaluation of a contract"""

    def __init__(self, itp=None, dims=None):
        self.itp, self.D, self.n, self.inpre = itp, dims, 0, False

    def dim(self, d):
        return V(self.itp.dim(d) if isdim(d) else int(d), U)


CTX = Ctx()


def ix_(i):
    """index value -> 32-bit term"""
    if isinstance(i, V):
        return pm.to_index(i.e, i.dt)[0]
    return int(i) & 0xFFFFFFFF


class PA(A):
    """view of an array of any size; indexing takes V or int"""

    @property
    def dims(self):
        return tuple(CTX.dim(d) for d in self.s.shape)

    def __len__(self):
        return int(self.s.shape[0])

    def __getitem__(self, i):
        i = i if isinstance(i, tuple) else (i,)
        x = pm.as_p(self.s)
        i = tuple(ix_(q) for q in i)
        n = len(i)
        if n == x.ndim:
            return V(x.at(*i), x.dtype)
        return PA(PArr(x.shape[n:], x.dtype, lambda *r: x.at(*i, *r)))

    def rows(self, *i):
        """sub-array at leading indices (0-d arrays stay arrays)"""
        x = pm.as_p(self.s)
        i = tuple(ix_(q) for q in i)
        n = len(i)
        return PA(PArr(x.shape[n:], x.dtype, lambda *r: x.at(*i, *r)))

    @property
    def v(self):
        return V(pm.as_p(self.s).at(), self.s.dtype)

    def flat(self):
        assert not pm.symbolic(self.shape)
        return [self[ix] if ix else self.v for ix in np.ndindex(*self.shape)]

    def _whole(self):
        return PA(PArr(self.shape, self.dtype, pm.as_p(self.s).at))

    def same(self, o):
        if isinstance(o, V):
            return Forall(self.dims, lambda *i: (self[i] if i else self.v).same(o))
        if len(self.shape) != len(o.shape) or self.dtype != o.dtype:
            return V(False, bool)
        c = And([True] + [a == b for a, b in zip(self.dims, o.dims)])
        if c.e is False:
            return c
        return And(c, Forall(self.dims, lambda *i: (self[i] if i else self.v).same(o[i] if i else o.v)))


def Forall(dims, body):
    """for all indices below the given dimensions (dims: V, int or a single one); in a postcondition the indices become arbitrary
    constants, in a precondition the statement is instantiated by the prover"""
    if isinstance(dims, (V, int)):
        dims = (dims,)
    dims = [d if isinstance(d, V) else lit(d, U) for d in dims]
    if all(not isT(d.e) for d in dims):
        return And([True] + [bv(body(*[lit(q, U) for q in ix])) for ix in itertools.product(*[range(d.e) for d in dims])])
    if CTX.inpre:
        body = in_ctx(CTX, body)
        sy = [q for q, d in enumerate(dims) if isT(d.e)]
        if len(sy) != 1:
            raise Unsupported("quantified precondition over several symbolic dimensions")

        def f(j, q=sy[0]):
            it = [[j] if r == q else list(range(d.e)) for r, d in enumerate(dims)]
            return tm.implies(tm.ult(j, dims[q].e, IW), tm.and_all(bv(body(*[V(i, U) for i in ix])).e for ix in itertools.product(*it)))

        CTX.itp.reg((), schemas=[(f, dims[sy[0]].e)])
        return V(True, bool)
    vs, rng = [], []
    for d in dims:
        x = V(tm.var(pm.fresh("q"), IW), U) if isT(d.e) or d.e > 8 else None
        if x is not None and tm._maxval(d.e, IW) < 1 << 31:
            tm.BOUND[x.e.p] = tm._maxval(d.e, IW)
        if x is not None and isT(d.e) and d.e.op == "var":
            tm.LT[x.e.p] = {d.e.id}
        vs.append(x)
        if x is not None:
            rng.append(x < d)
            CTX.itp.reg([x.e], cands=[(x.e, d.e)])
    out = []
    for ix in itertools.product(*[[x] if x is not None else [lit(q, U) for q in range(d.e)] for x, d in zip(vs, dims)]):
        out.append(bv(body(*ix)))
    return Implies(And([True] + rng), And([True] + out))


def in_ctx(ctx, f):
    """f evaluated in the context of its definition (quantified facts are instantiated later)"""
    def g(*a):
        global CTX
        old, CTX = CTX, ctx
        try:
            return f(*a)
        finally:
            CTX = old

    return g


def First(n, pred):
    """the least index below n that satisfies pred (n when there is none)"""
    n = n if isinstance(n, V) else lit(n, U)
    if CTX.itp is None:
        for i in range(n.e):
            if bv(pred(lit(i, U))).e is True:
                return lit(i, U)
        return n
    if not isT(n.e) and n.e <= 16:
        r = n
        for i in range(n.e - 1, -1, -1):
            r = ct.Ite(bv(pred(lit(i, U))), lit(i, U), r)
        return r
    itp, pred = CTX.itp, in_ctx(CTX, pred)
    j = tm.var(pm.fresh("first"), IW)
    if isT(n.e) and tm._maxval(n.e, IW) < 1 << 31:
        tm.BOUND[j.p] = tm._maxval(n.e, IW)
    itp.reg([j], [tm.ule(j, n.e, IW), tm.implies(tm.ult(j, n.e, IW), bv(pred(V(j, U))).e)],
            [(lambda c: tm.implies(tm.and_(tm.ult(c, n.e, IW), bv(pred(V(c, U))).e), tm.ule(j, c, IW)), n.e)], [(j, n.e)])
    return V(j, U)


def hint(*ix):
    """an index at which quantified facts should be instantiated"""
    if CTX.itp is not None:
        for i in ix:
            CTX.itp.reg((), cands=[(ix_(i), None)])


def prow(tree, *i):
    """the sub-entry at leading indices of every field"""
    return ct.map_tree(tree, lambda x: x.rows(*i))


def pview(paths, arrs):
    """like contract.view, with PA leaves"""
    r = ct.view(paths, arrs)

    def f(x):
        return PA(x.s)

    return ct.map_tree(r, f)


def pview_args(paths, arrs):
    return tuple(ct.map_tree(x, lambda a: PA(a.s)) if not (isinstance(x, NS) and not x._d) else x for x in ct.view_args(paths, arrs))


# ------------------------------------------------------------------ dimensions
class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, sp._DimExpr))

    def __call__(cls, *a, **k):
        return a[0] if len(a) == 1 and not k and isinstance(a[0], sp._DimExpr) else int(*a, **k)


class IntOrDim(metaclass=_IntMeta):
    """`int` as seen by the traced code: the identity on sizes, which are integers"""


def _hasdim(x):
    return isinstance(x, sp._DimExpr) or isinstance(x, (list, tuple)) and any(map(_hasdim, x)) or isinstance(x, np.ndarray) and x.dtype == object


class NpOrDim:
    """`numpy` as seen by the traced code: arrays of sizes and their products may be symbolic"""

    def __getattr__(self, n):
        return getattr(np, n)

    @staticmethod
    def array(x, dtype=None, **k):
        return np.array(x, dtype=object) if _hasdim(x) else np.array(x, dtype=dtype, **k)

    @staticmethod
    def asarray(x, dtype=None, **k):
        return np.array(x, dtype=object) if _hasdim(x) else np.asarray(x, dtype=dtype, **k)

    @staticmethod
    def prod(x, *a, **k):
        return math.prod(np.array(x, dtype=object).reshape(-1)) if _hasdim(x) and not a and not (set(k) - {"dtype"}) else np.prod(x, *a, **k)


def len_or_dim(x):
    """`len` as seen by the traced code: the leading size of an array may be symbolic"""
    sh = getattr(x, "shape", None)
    if isinstance(sh, tuple) and sh and isinstance(sh[0], sp._DimExpr):
        return sh[0]
    return len(x)


class EqLog:
    """records the size comparisons that jax answers 'not equal' without being able to decide them"""

    def __enter__(self):
        self.orig = sp._DimExpr.__eq__
        self.log = []
        log, orig = self.log, self.orig

        def eq(a, b):
            r = orig(a, b)
            if r is False:
                if isinstance(b, sp._DimExpr):
                    if a.scope is b.scope:
                        log.append((a, b))
                elif isinstance(b, (int, np.integer)) and not isinstance(b, bool):
                    log.append((a, int(b)))
            return r

        sp._DimExpr.__eq__ = eq
        self.geq = geq = sp._geq_decision
        self.cut = None

        def dec(e1, e2, msg):
            try:
                return geq(e1, e2, msg)
            except core.InconclusiveDimensionOperation:
                self.cut = (e1, e2)
                raise

        sp._geq_decision = dec
        # truth of a size: whether it differs from zero
        sp._DimExpr.__bool__ = lambda a: not eq(a, 0)
        self.mods = [m for n, m in list(sys.modules.items()) if n.partition(".")[0] == "xtructure" and m is not None and "int" not in vars(m)]
        self.npmods = [m for n, m in list(sys.modules.items()) if n.partition(".")[0] == "xtructure" and getattr(m, "np", None) is np]
        self.lenmods = [m for n, m in list(sys.modules.items()) if n.partition(".")[0] == "xtructure" and m is not None and "len" not in vars(m)]
        for m in self.mods:
            m.int = IntOrDim
        for m in self.lenmods:
            m.len = len_or_dim
        for m in self.npmods:
            m.np = NpOrDim()
        return self

    def __exit__(self, *a):
        sp._DimExpr.__eq__ = self.orig
        sp._geq_decision = self.geq
        del sp._DimExpr.__bool__
        for m in self.mods:
            del m.int
        for m in self.lenmods:
            del m.len
        for m in self.npmods:
            m.np = np

    def undecided(self):
        out, seen = [], set()
        for a, b in self.log:
            d = a - b
            if not isdim(d):
                continue
            try:
                lb, ub = sp._bounds_decision(d, sp.BoundsPrecision.BEST)
                if lb > 0 or ub < 0:
                    continue
            except Exception:
                pass
            k = (str(a), str(b))
            if k not in seen and (k[1], k[0]) not in seen:
                seen.add(k)
                out.append((a, b))
        return out


def make_dims(names, asg, cons, cuts=()):
    """symbolic dimensions for a variant: asg maps names to a representative name or a constant"""
    free = [n for n in names if asg.get(n, n) == n]
    cs = []
    for n in free:
        cs.append(f"{n}>=1")
    for c in cons:
        cs.append(_subst(c, asg))
    # comparisons the traced code makes: e1 >= e2 or e1 < e2
    cs += [f"{_subst(a, asg)} >= {_subst(b, asg)}" if t else f"{_subst(b, asg)} >= {_subst(a, asg)} + 1" for a, b, t in cuts]
    cs = [c for c in cs if any(_has(c, n) for n in free)]
    d = {}
    if free:
        for n, s in zip(free, export.symbolic_shape(",".join(free), constraints=cs)):
            d[n] = s
    for n in names:
        r = asg.get(n, n)
        d[n] = r if isinstance(r, int) else d[r]
    return NSDims(d)


def _has(c, n):
    import re

    return re.search(rf"\b{n}\b", c) is not None


def _subst(c, asg):
    import re

    for n, r in asg.items():
        c = re.sub(rf"\b{n}\b", str(r), c)
    return c


class NSDims:
    def __init__(self, d):
        self.__dict__.update(d)
        self._d = d


def con_holds(c, vals):
    return eval(c, {}, dict(vals))  # noqa: S307  (constraint strings are ours)


# ------------------------------------------------------------------ runner
def run_param(case, R, seed_rng, marker, check_mod, replay=None):
    """check_mod: runcase module (shared helpers)"""
    global CTX
    rc = check_mod
    rng = seed_rng
    pm.DIM_MAX = case.sizelimit
    t0 = time.time()
    names = list(case.dims)
    cons = list(case.dimcons)
    deadline = t0 + case.budget

    interesting = set()  # sizes near the constants the code compares sizes with

    def concrete(D):
        args = case.args(NSDims(D))
        if case.sample:
            tree = case.sample(rng, NSDims(D))
            leaves = [np.asarray(x).astype(l.dtype) for x, l in zip(jax.tree_util.tree_leaves(tree), jax.tree_util.tree_leaves(args))]
            return args, leaves
        return args, [rc.rand_leaf(rng, l.shape, l.dtype) for l in jax.tree_util.tree_leaves(args)]

    def pick_dims(big=False):
        for _ in range(200):
            hi = case.dimmax if not big else 3 * case.dimmax
            D = {n: int(rng.integers(1, hi + 1)) for n in names}
            near = [c for c in interesting if 1 <= c <= 5000]
            if near and rng.random() < 0.6:
                D = {n: int(rng.choice(near)) if rng.random() < 0.5 else d for n, d in D.items()}
            if all(con_holds(c, D) for c in cons):
                return D
        return None

    def evaluate_concrete(D, args, leaves, op, ol):
        global CTX
        ps, _, _ = ct.paths_of(args)
        CTX = Ctx(None, D)
        Dv = NSDims({n: lit(v, U) for n, v in D.items()})
        ins = pview_args(ps, [conc(np.asarray(x)) for x in leaves])
        if case.pre is not None and bv(case.pre(*ins, Dv)).e is not True:
            return False, {}
        return True, norm_post(case.post(ins, pview(op, [conc(np.asarray(x)) for x in ol]), Dv))

    def pre_concrete(D, args, leaves):
        global CTX
        if case.pre is None:
            return True
        ps, _, _ = ct.paths_of(args)
        CTX = Ctx(None, D)
        return bv(case.pre(*pview_args(ps, [conc(np.asarray(x)) for x in leaves]), NSDims({n: lit(v, U) for n, v in D.items()}))).e is True

    def check(D, args, leaves, origin):
        ps, _, td = ct.paths_of(args)
        if not pre_concrete(D, args, leaves):
            return None, dict(reason="precondition false")
        marker.set(dict(case=case.name, origin=origin, inputs=rc.ser(ps, leaves), dims=D))
        try:
            op, ol = ct.run_real(case, td, leaves)
        except Exception as e:
            marker.clear()
            if rc.in_repo(e.__traceback__):
                return False, dict(label="no-exception", detail=f"{type(e).__name__}: {str(e)[:300]}", origin=origin, inputs=rc.ser(ps, leaves), dims=D)
            return None, dict(reason=f"harness error {type(e).__name__}: {e}")
        marker.clear()
        pre, posts = evaluate_concrete(D, args, leaves, op, ol)
        for lab, c in posts.items():
            if c is not True:
                return False, dict(label=lab, origin=origin, inputs=rc.ser(ps, leaves), outputs=rc.ser(op, ol), dims=D,
                                   detail=f"postcondition '{lab}' is false on the real output (sizes {D})")
        return True, dict(paths=op, leaves=ol)

    if replay is not None:
        D = replay["dims"]
        args = case.args(NSDims(D))
        ok, info = check(D, args, rc.deser(replay["inputs"]), "replay")
        R["replay_ok"] = ok
        R["replay_info"] = {k: v for k, v in info.items() if k in ("label", "detail", "reason")}
        return

    def sample_loop(n, variants=()):
        done = tries = 0
        while done < n and tries < 8 * n + 8:
            tries += 1
            D = pick_dims()
            if D is None:
                return True
            args, leaves = concrete(D)
            ok, info = check(D, args, leaves, "sample")
            if ok is None:
                if "harness" in info.get("reason", ""):
                    R["notes"].append(info["reason"])
                    return True
                continue
            done += 1
            R["samples"] += 1
            if not ok:
                R["violations"].append(info)
                return False
            for v in variants:
                if v["covers"](D):
                    cross(v, D, args, leaves, info)
                    break
        return True

    def envs(v, D, args, leaves):
        ps, ls, _ = ct.paths_of(args)
        env = rc._Env()
        base = rc._UFs()
        for n in names:
            env[f"dim!{n}"] = D[n]
        for p, x, sym in zip(ps, leaves, v["symleaf"]):
            nm = _base(p)
            raw = ip.to_raw(np.asarray(x))
            if sym:
                def f(*ix, raw=raw):
                    for i, n in zip(ix, raw.shape):
                        if not (0 <= i < n):
                            return False if raw.dtype == object and raw.size and isinstance(raw.flat[0], bool) else 0
                    return raw[ix]

                base[nm] = f
            else:
                for ix in np.ndindex(*raw.shape):
                    env[nm + ("[" + ",".join(map(str, ix)) + "]" if ix else "")] = raw[ix]
        return env, base

    def cross(v, D, args, leaves, info):
        env, base = envs(v, D, args, leaves)
        ufs = v["itp"].ufs(base, env)
        for pc, outs, _ in v["paths"]:
            if not tm.evaluate([pc], env, ufs)[0]:
                continue
            if len(outs) != len(info["leaves"]):
                R["notes"].append("ENGINE-MISMATCH: number of outputs")
                R["mismatch"] = True
                return
            for o, x in zip(outs, info["leaves"]):
                shp = tuple(ufs.ev(v["itp"].dim(d)) for d in o.shape)
                if shp != tuple(x.shape):
                    R["notes"].append(f"ENGINE-MISMATCH: shape {shp} vs {x.shape}")
                    R["mismatch"] = True
                    return
                raw = ip.to_raw(x)
                op_ = pm.as_p(o)
                ixs = list(np.ndindex(*x.shape))
                got = tm.evaluate([op_.at(*ix) for ix in ixs], env, ufs)
                for ix, g in zip(ixs, got):
                    if not rc._rawsame(g, raw[ix]):
                        R["notes"].append(f"ENGINE-MISMATCH: symbolic semantics differ from XLA at sizes {D}, element {ix}")
                        R["mismatch"] = True
                        return
            R["crosschecked"] += 1
            return
        R["notes"].append("ENGINE-MISMATCH: no traced path covers a sampled input")
        R["mismatch"] = True

    def fallback(msg):
        R["notes"].append(msg)
        R["undecided"] = True
        sample_loop(max(40, case.nsample * 10))

    # ---- variants: the general trace and the special sizes at which jax's size comparisons come out differently
    todo = [({}, ())]
    seen = {((), ())}
    variants = []
    open_ = []
    cutx = {}
    while todo:
        asg, cuts = todo.pop(0)
        if len(variants) >= case.maxvariants:
            open_.append(f"more than {case.maxvariants} size variants")
            break
        try:
            ok0 = _consistent(names, asg, cons)
            if not ok0:
                continue
            D = make_dims(names, asg, cons, cuts)
        except ValueError as e:  # constraints unsatisfiable for this variant
            continue
        try:
            with EqLog() as lg:
                args = case.args(D)
                traced = rc.trace_paths(case.fn, args)
        except Exception as e:
            if lg.cut is not None and isinstance(e, core.InconclusiveDimensionOperation):
                # the code compares sizes: one variant per outcome
                a, b = map(str, lg.cut)
                interesting.update(c + q for c in _consts(lg.cut) for q in (-1, 0, 1))
                if not any((x, y) == (a, b) for x, y, _ in cuts) and len(cuts) < 6:
                    for t in (True, False):
                        key = (tuple(sorted((n, str(r)) for n, r in asg.items())), cuts + ((a, b, t),))
                        if key not in seen:
                            seen.add(key)
                            todo.append((asg, cuts + ((a, b, t),)))
                    cutx[a, b] = lg.cut
                    continue
            if rc.in_repo(e.__traceback__) and not isinstance(e, Exception) or isinstance(e, rc.PathLimit):
                return fallback(f"not traceable: {e}")
            return fallback(f"sizes not traceable symbolically ({type(e).__name__}: {str(e)[:160]}); bounded contract evaluation instead")
        dis = lg.undecided()
        v = dict(asg=asg, cuts=cuts, D=D, args=args, traced=traced, dis=dis)
        variants.append(v)
        for a, b in dis:
            na = _new_asg(asg, a, b, names)
            if na is None:
                open_.append(f"{a} = {b}")
                continue
            if na is False:
                continue
            key = (tuple(sorted((n, str(r)) for n, r in na.items())), cuts)
            if key not in seen:
                seen.add(key)
                todo.append((na, cuts))
    R["variants"] = [dict(sizes={n: str(x) for n, x in v["asg"].items()} or "general", comparisons=[f"{a} {'>=' if t else '<'} {b}" for a, b, t in v["cuts"]], excluded=[f"{a} = {b}" for a, b in v["dis"]]) for v in variants]
    if open_:
        R["notes"].append("sizes left to sampling: " + "; ".join(sorted(set(open_))[:8]))

    # ---- generate and discharge
    solved = {}
    total_q = total_s = 0

    def small_model(v, prover, lazy):
        """counter-model with small sizes, replayed on the real code"""
        for lim in (3, 6, 12, 40, 300, 5000, 70000):
            if time.time() > deadline:
                return None
            small = tm.and_all([tm.not_(tm.mk("ult", (lim, e), 0, IW)) if isT(e) else e <= lim for e in v["rep"].values()])
            st, m = lazy.run(min(15, deadline - time.time()), small)
            if st != "refuted":
                continue
            env = prover.model_env(m, {f"dim!{n}": IW for n in names})
            D = {n: (v["asg"].get(n, n) if isinstance(v["asg"].get(n, n), int) else env[f"dim!{v['asg'].get(n, n)}"]) for n in names}
            args = case.args(NSDims(D))
            ps, ls, _ = ct.paths_of(args)
            leaves = []
            for p, l, sym in zip(ps, ls, v["symleaf"]):
                nm = _base(p)
                w = dinfo(l.dtype)[1]
                o = np.empty(l.shape, dtype=object)
                if sym:
                    els, ents = prover.model_table(m, nm)
                    if els is None:
                        if o.size > 20000:
                            leaves = None
                            break
                        f = prover.model_uf(m, nm)
                        for ix in np.ndindex(*l.shape):
                            x = f(*ix)
                            o[ix] = bool(x) if w == 0 else x
                    else:
                        o.reshape(-1)[:] = bool(els) if w == 0 else els
                        for ix, x in ents.items():
                            if all(i < n for i, n in zip(ix, l.shape)):
                                o[ix] = bool(x) if w == 0 else x
                else:
                    nms = {ix: nm + ("[" + ",".join(map(str, ix)) + "]" if ix else "") for ix in np.ndindex(*l.shape)}
                    e = prover.model_env(m, {k: w for k in nms.values()})
                    for ix, k in nms.items():
                        o[ix] = e[k]
                leaves.append(ip.from_raw(o, l.dtype))
            if leaves is None:
                return None
            ok, info = check(D, args, leaves, "counterexample")
            if ok is False:
                return info
        return None

    def run_variant(v):
        global CTX
        args, asg = v["args"], v["asg"]
        dimt = {n: tm.var(f"dim!{n}", IW) for n in names}
        rep = {}
        for n in names:
            r = asg.get(n, n)
            rep[n] = int(r) if isinstance(r, int) else dimt[r]
        itp = pm.PInterp(rep, prover=None, max_unroll=case.max_unroll, abstract_mul=case.abstract_mul)
        ctx = CTX = Ctx(itp, v["D"])
        ps, ls, td = ct.paths_of(args)
        ins, symleaf = [], []
        for p, l in zip(ps, ls):
            nm = _base(p)
            w = dinfo(l.dtype)[1]
            if pm.symbolic(l.shape):
                symleaf.append(True)
                ins.append(PArr(l.shape, l.dtype, lambda *ix, nm=nm, w=w: tm.uf(nm, tuple((i, IW) for i in ix), w)))
            else:
                symleaf.append(False)
                el = np.empty(l.shape, dtype=object)
                for ix in np.ndindex(*l.shape):
                    el[ix] = tm.var(nm + ("[" + ",".join(map(str, ix)) + "]" if ix else ""), w)
                ins.append(SArr(l.dtype, el=el))
        v["symleaf"] = symleaf
        views = pview_args(ps, ins)
        Dv = NSDims({n: V(rep[n], U) for n in names})
        pre = []
        for n in names:
            if isT(rep[n]):
                pre += [tm.ule(1, rep[n], IW), tm.not_(tm.mk("ult", (pm.DIM_MAX, rep[n]), 0, IW))]  # not simplified by itself
        for c in cons:
            pre.append(bv(con_holds(c, Dv._d)).e)
        cutt = []
        for a, b, t in v["cuts"]:
            e1, e2 = cutx[a, b]
            c = tm.sle(itp.dim(e2) if isdim(e2) else pm.const(e2), itp.dim(e1) if isdim(e1) else pm.const(e1), IW)
            cutt.append(c if t else tm.not_(c))
        pre += cutt
        for a, b in v["dis"]:
            pre.append(tm.not_(tm.eq(itp.dim(a), itp.dim(b), IW)))
        ctx.inpre = True
        if case.pre is not None:
            pre.append(bv(case.pre(*views, Dv)).e)
        ctx.inpre = False
        paths = []
        for closed, shp, dec in v["traced"]:
            outs = itp.run(closed, ins)
            n = len(outs) - len(dec)
            pc = tm.and_all(c.el[()] if d else tm.not_(c.el[()]) for c, d in zip(outs[n:], dec))
            paths.append((pc, outs[:n], ct.paths_of(shp)[0]))
        goals = {}
        for pc, outs, op in paths:
            for lab, c in norm_post(case.post(views, pview(op, outs), Dv)).items():
                goals[lab] = tm.and_(goals.get(lab, True), tm.implies(pc, c))
        itp.settled = True
        if itp.wide:
            lim = 1 << ((case.sizelimit.bit_length() - 1) // max(1, len([n for n in names if isT(rep[n])])))
            pre += [tm.not_(tm.mk("ult", (lim, rep[n]), 0, IW)) for n in names if isT(rep[n])]
            R["notes"].append(f"sizes up to {lim} (index arithmetic multiplies sizes)")
        else:
            tm.PRODMAX[0] = None
        v["itp"], v["paths"], v["pre"], v["goals"], v["rep"] = itp, paths, tm.and_all(pre), goals, rep
        R["prims"] = {k: R.get("prims", {}).get(k, 0) + n for k, n in itp.prims.items()} | {k: n for k, n in R.get("prims", {}).items() if k not in itp.prims}
        R["calls"] = itp.calls
        R["notes"] += [x for x in sorted(itp.assumed) if x not in R["notes"]]

        def covers(D):
            for n in names:
                r = asg.get(n, n)
                if isinstance(r, int) and D[n] != r or isinstance(r, str) and D[n] != D[r]:
                    return False
            env = {f"dim!{n}": D[n] for n in names}
            if not all(tm.evaluate(cutt, env, {})):
                return False
            return all(not tm.evaluate([tm.eq(itp.dim(a), itp.dim(b), IW)], env, {})[0] for a, b in v["dis"])

        v["covers"] = covers

    try:
        for v in variants:
            run_variant(v)
            if time.time() > deadline:
                return fallback("time budget")
    except (Unsupported, Budget) as e:
        return fallback(f"outside the generator's reach: {e}; bounded contract evaluation instead")
    except RecursionError:
        return fallback("recursion limit")
    except Exception as e:
        if solve.os.environ.get("JXV_VERBOSE"):
            traceback.print_exc()
        return fallback(f"contract not applicable to the result structure: {type(e).__name__}: {str(e)[:200]}")
    if not any(v["goals"] for v in variants):
        return fallback("zero obligations")

    sample_loop(case.nsample, variants)
    if R["violations"]:
        return

    for v in variants:
        tm.PRODMAX[0] = pm.DIM_MAX if v["itp"].wide else None
        tag = "" if not v["asg"] else " [" + ",".join(f"{n}={r}" for n, r in sorted(v["asg"].items())) + "]"
        tag += "" if not v["cuts"] else " [" + ", ".join(f"{a} {'>=' if t else '<'} {b}" for a, b, t in v["cuts"]) + "]"
        prover = solve.Prover(v["pre"], timeout_ms=int(case.timeout * 1000))
        if v["pre"] is not True and prover.sat(True) == "unsat":
            if not v["asg"] and not v["cuts"]:
                R["notes"].append("VACUOUS precondition")
                R["undecided"] = True
            continue
        known = []
        for lab, g in v["goals"].items():
            t1 = time.time()
            if g is True:
                R["obligations"].append(dict(label=lab + tag, status="proved", backend="normaliser", s=0.0))
                continue
            rem = deadline - time.time()
            if rem < 1:
                R["obligations"].append(dict(label=lab + tag, status="unknown", backend="budget", s=0.0))
                continue
            lazy = pm.Lazy(v["itp"], prover, v["pre"], g, known)
            st, m = lazy.run(min(case.timeout, rem))
            be = "z3"
            R["instances"] = R.get("instances", 0) + len(lazy.used)
            if st == "proved" and not pm.mentions(g, "q!"):
                known.append(g)
            elif st == "refuted":
                st = "refuted-unreplayed"
                info = small_model(v, prover, lazy)
                if info is not None:
                    R["violations"].append(info)
                    st = "refuted"
            R["obligations"].append(dict(label=lab + tag, status=st, backend=be, s=round(time.time() - t1, 3)))
            if st == "refuted":
                break
        R["queries"] = R.get("queries", 0) + prover.queries
        R["solver_s"] = round(R.get("solver_s", 0) + prover.time, 3)
        if R["violations"]:
            return
    if any(o["status"] in ("unknown", "refuted-unreplayed") for o in R["obligations"]):
        R["undecided"] = True
        sample_loop(max(30, case.nsample * 8), variants)
    if R.get("mismatch"):
        for o in R["obligations"]:
            o["status"] = "untrusted"
        R["undecided"] = True
        if not R["violations"]:
            sample_loop(max(40, case.nsample * 10))


    return


def _base(p):
    return "a" + jax.tree_util.keystr(p).replace("'", "").replace('"', "")


def _consts(es):
    out = set()
    for e in es:
        if not isdim(e):
            out.add(int(e))
        else:
            out |= {abs(int(k)) for t, k in e._sorted_terms if t.is_constant}
    return out


def _consistent(names, asg, cons):
    """some sizes satisfy the constraints under asg (searched among small sizes)"""
    free = [n for n in names if asg.get(n, n) == n]
    for vals in itertools.product(*[(1, 2, 3, 4, 5, 8, 16, 40, 300) for _ in free]):
        d = dict(zip(free, vals))
        D = {n: (asg[n] if isinstance(asg.get(n, n), int) else d[asg.get(n, n)]) for n in names}
        if all(con_holds(c, D) for c in cons):
            return True
    return False


def _new_asg(asg, a, b, names):
    """the assignment under which a = b: None when it cannot be expressed, False when impossible"""
    av = a._to_var()
    if av is None and isinstance(b, sp._DimExpr) and b._to_var() is not None:
        a, b, av = b, a, b._to_var()
    if av is None:
        # k*n = c, n + c = c'
        if not isinstance(b, int):
            return None
        d = a - b
        if len(d._get_vars()) != 1:
            return None
        (n,) = d._get_vars()
        sol = [q for q in range(1, 4097) if d._evaluate_int(n, q) == 0] if hasattr(d, "_evaluate_int") else _solve1(d, n)
        if sol is None:
            return None
        if not sol:
            return False
        b, av = sol[0], n
    if isinstance(b, int):
        if b < 1:
            return False
        new = {n: (b if asg.get(n, n) == av else asg.get(n, n)) for n in names}
    else:
        bvn = b._to_var()
        if bvn is None:
            return None
        keep, drop = sorted((av, bvn), key=names.index)
        new = {n: (keep if asg.get(n, n) == drop else asg.get(n, n)) for n in names}
    return {n: r for n, r in new.items() if r != n}


def _solve1(d, n):
    """integer solutions >= 1 of a linear expression in one variable"""
    k = c = 0
    for t, q in d._sorted_terms:
        if t.is_constant:
            c += q
        elif t.to_var() == n:
            k += q
        else:
            return None
    if k == 0:
        return None
    x = -c / k
    return [int(x)] if x == int(x) and x >= 1 else []
