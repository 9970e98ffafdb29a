"""Run one contract case: trace the real code, generate obligations, discharge, cross-check, replay."""
from __future__ import annotations

import json
import os
import sys
import time
import traceback
import zlib

import jax
import numpy as np

from . import contract as ct
from . import interp as ip
from . import solve
from . import term as tm
from .contract import bv, norm_post, view, view_args
from .interp import Budget, SArr, Unsupported, conc, dinfo

REPO = os.environ.get("JXV_REPO", "/repo")


def ser(paths, leaves):
    out = []
    for p, x in zip(paths, leaves):
        x = np.asarray(x)
        out.append(
            dict(path=jax.tree_util.keystr(p), dtype=str(x.dtype), shape=list(x.shape),
                 raw=[(bool(v) if isinstance(v, bool) else int(v)) for v in ip.to_raw(x).reshape(-1)],
                 value=str(x.tolist())[:400])
        )
    return out


def deser(items):
    out = []
    for it in items:
        o = np.empty(tuple(it["shape"]), dtype=object)
        if o.size:
            o.reshape(-1)[:] = it["raw"]
        import ml_dtypes  # noqa: F401  (registers bfloat16 names)

        out.append(ip.from_raw(o, np.dtype(it["dtype"])))
    return out


def in_repo(tb):
    """was the exception raised below a frame of the code under test?"""
    for fr, _ in traceback.walk_tb(tb):
        f = fr.f_code.co_filename
        if f.startswith(REPO + "/xtructure/"):
            return True
    return False


def rand_leaf(rng, shape, dt):
    k, w = dinfo(dt)
    mode = rng.integers(0, 4)
    if k == "b":
        return rng.random(shape) < [0.5, 0.5, 0.9, 0.1][mode]
    if k == "f":
        vals = rng.integers(-3, 4, size=shape).astype(np.float64)
        vals = np.where(rng.random(shape) < 0.15, np.inf, vals)
        return vals.astype(dt)
    if mode == 0:
        raw = rng.integers(0, 1 << min(w, 63), size=shape, dtype=np.uint64)
    elif mode in (1, 2):
        raw = rng.integers(0, 4, size=shape, dtype=np.uint64)
    else:
        raw = rng.choice(np.array([0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1], dtype=np.uint64), size=shape)
    raw = np.asarray(raw, dtype=np.uint64)
    return raw.astype({8: np.uint8, 16: np.uint16, 32: np.uint32, 64: np.uint64}[w]).view(np.dtype(dt)).reshape(shape)


class Marker:
    """tells the parent which concrete input is being executed (to decide non-termination)"""

    def __init__(self, path):
        self.path = path

    def set(self, obj):
        if self.path:
            with open(self.path + ".tmp", "w") as f:
                json.dump(obj, f)
            os.replace(self.path + ".tmp", self.path)

    def clear(self):
        if self.path and os.path.exists(self.path):
            os.unlink(self.path)


def check_concrete(case, ps, td, leaves, marker, origin, ufinfo=None):
    """Run the real code on concrete inputs and evaluate the contract.  Returns (ok, info)."""
    if ct.eval_pre(case, ps, leaves) is not True:
        return None, dict(reason="precondition false")
    marker.set(dict(case=case.name, origin=origin, inputs=ser(ps, leaves), uf=ufinfo))
    try:
        op, ol = ct.run_real(case, td, leaves)
    except Exception as e:  # the real code raised on an input satisfying the contract
        marker.clear()
        if in_repo(e.__traceback__) or _jax_origin(e):
            return False, dict(label="no-exception", detail=f"{type(e).__name__}: {str(e)[:300]}", origin=origin,
                               inputs=ser(ps, leaves), uf=ufinfo)
        return None, dict(reason=f"harness error {type(e).__name__}: {e}")
    marker.clear()
    pre, posts = ct.eval_contract(case, ps, leaves, op, ol)
    if pre is not True:
        return None, dict(reason="the assumed invariant is false for this input")
    for lab, c in posts.items():
        if c is not True:
            return False, dict(label=lab, origin=origin, inputs=ser(ps, leaves), outputs=ser(op, ol), uf=ufinfo,
                               detail=f"postcondition '{lab}' is false on the real output")
    return True, dict(paths=op, leaves=ol)


def _jax_origin(e):
    return in_repo(e.__traceback__)


class PathLimit(Exception):
    pass


def trace_paths(fn, args, max_paths=64):
    """Trace fn; where its Python code branches on a traced Boolean, trace every decision sequence separately.

    Returns [(closed_jaxpr, output shape pytree, decisions)]; the jaxpr returns (outputs, conditions), so that the path is taken
    exactly when every condition equals its decision."""
    from jax._src import core as jcore

    T = jcore.Tracer
    orig = T.__dict__["__bool__"]
    todo, done = [[]], []
    while todo:
        prefix = todo.pop()
        dec, conds = [], []
        st = {}

        def hook(self):
            if self.aval.shape != () or getattr(self, "_trace", None) is not st.get("trace"):
                return orig(self)
            k = len(dec)
            d = prefix[k] if k < len(prefix) else True
            dec.append(d)
            conds.append(self.astype(bool) if self.aval.dtype != np.bool_ else self)
            return d

        def wrapped(*a):
            for l in jax.tree_util.tree_leaves(a):
                st["trace"] = getattr(l, "_trace", None)
                break
            out = fn(*a)
            return out, tuple(conds)

        T.__bool__ = hook
        try:
            closed, shp = jax.make_jaxpr(wrapped, return_shape=True)(*args)
        finally:
            T.__bool__ = orig
        done.append((closed, shp[0], list(dec)))
        for k in range(len(prefix), len(dec)):
            todo.append(dec[:k] + [False])
        if len(done) + len(todo) > max_paths:
            raise PathLimit(f"more than {max_paths} Python-level paths")
    return done


def run_case(case, seed=0, marker_path=None, replay=None):
    t0 = time.time()
    tm.reset()
    marker = Marker(marker_path)
    rng = np.random.default_rng([seed, zlib.crc32(case.name.encode()), case.seed_extra])
    R = dict(name=case.name, mode=case.mode, functions=list(case.functions), obligations=[], violations=[], notes=[],
             samples=0, crosschecked=0, bound=case.bound)
    uf = case.uf() if case.uf else None

    if case.must_raise is not None:
        _must_raise(case, R)
        R["wall"] = round(time.time() - t0, 3)
        return R

    if case.mode == "py":
        from . import pyexec

        R["mode"] = "proof"
        pyexec.run_py_case(case, R, rng, in_repo, replay, marker)
        R["wall"] = round(time.time() - t0, 3)
        return R

    if case.mode == "param":
        import sys as _sys

        from . import prun

        R["mode"] = "proof"
        prun.run_param(case, R, rng, marker, _sys.modules[__name__], replay)
        R["wall"] = round(time.time() - t0, 3)
        return R

    ps, ls, td, sarrs, names = ct.make_inputs(case.args)

    def finish():
        R["wall"] = round(time.time() - t0, 3)
        return R

    def concrete_inputs():
        if case.sample:
            tree = case.sample(rng)
            l2 = jax.tree_util.tree_leaves(tree)
            assert len(l2) == len(ls), (len(l2), len(ls))
            return [np.asarray(x).astype(l.dtype) if np.asarray(x).dtype != l.dtype else np.asarray(x) for x, l in zip(l2, ls)]
        return [rand_leaf(rng, l.shape, l.dtype) for l in ls]

    if replay is not None:
        leaves = deser(replay["inputs"])
        if uf and replay.get("uf"):
            uf.install_dict(replay["uf"])
        ok, info = check_concrete(case, ps, td, leaves, marker, "replay", replay.get("uf"))
        R["replay_ok"] = ok
        R["replay_info"] = {k: v for k, v in info.items() if k in ("label", "detail", "reason")}
        return finish()

    def sample_loop(n, symbolic=None):
        tries = 0
        done = 0
        while done < n and tries < 8 * n + 8:
            tries += 1
            if uf:
                uf.install_random(rng)
            leaves = concrete_inputs()
            ok, info = check_concrete(case, ps, td, leaves, marker, "sample", uf.dump() if uf else None)
            if ok is None:
                if "harness" in info.get("reason", ""):
                    R["notes"].append(info["reason"])
                    break
                continue
            done += 1
            R["samples"] += 1
            if not ok:
                R["violations"].append(info)
                return False
            if symbolic is not None:
                cross(symbolic, leaves, info)
        return True

    def cross(symbolic, leaves, info):
        """the symbolic result evaluated at this input must equal what XLA computed"""
        env = _Env(ct.env_from_concrete(ps, leaves))
        outs = None
        for pc, o in symbolic:
            if tm.evaluate([pc], env, _ufs(uf))[0]:
                outs = o
        if outs is None:
            R["notes"].append("ENGINE-MISMATCH: no traced path covers a sampled input")
            R["mismatch"] = True
            return
        symbolic = outs
        flat = np.concatenate([s.el.reshape(-1) for s in symbolic]) if symbolic else np.empty(0, object)
        got = tm.evaluate(list(flat), env, _ufs(uf))
        want = np.concatenate([ip.to_raw(x).reshape(-1) for x in info["leaves"]]) if symbolic else []
        if len(got) != len(want):
            R["notes"].append("ENGINE-MISMATCH: result sizes differ from XLA on a sampled input")
            R["mismatch"] = True
            return
        for g, w_, in zip(got, want):
            if not _rawsame(g, w_):
                R["notes"].append("ENGINE-MISMATCH: symbolic semantics differ from XLA on a sampled input")
                R["mismatch"] = True
                return
        R["crosschecked"] += 1

    if case.mode == "bounded":
        try:
            sample_loop(case.nsample)
        except (Unsupported, Budget) as e:
            R["notes"].append(f"bounded: {e}")
        return finish()

    # ---- trace the real code
    try:
        traced = trace_paths(case.fn, case.args)
    except PathLimit as e:
        R["notes"].append(f"outside the generator's reach: {e}; bounded contract evaluation instead")
        R["undecided"] = True
        sample_loop(max(40, case.nsample * 10))
        return finish()
    except Exception as e:
        if in_repo(e.__traceback__):
            # confirm with a concrete execution
            for _ in range(12):
                if uf:
                    uf.install_random(rng)
                ok, info = check_concrete(case, ps, td, concrete_inputs(), marker, "trace-error", uf.dump() if uf else None)
                if ok is False:
                    R["violations"].append(info)
                    return finish()
                if ok is True:
                    break
            R["notes"].append(f"trace failed: {type(e).__name__}: {str(e)[:300]}")
        else:
            R["notes"].append(f"harness trace error: {type(e).__name__}: {str(e)[:300]}")
        R["undecided"] = True
        return finish()
    if len(traced) > 1:
        R["paths"] = len(traced)

    views = view_args(ps, sarrs)
    pre = True if case.pre is None else bv(case.pre(*views)).e
    prover = solve.Prover(pre, timeout_ms=int(case.timeout * 1000))

    side = {}

    def attempt(abstract):
        prover.pre, prover._inc = pre, None
        itp = ip.Interp(prover, max_unroll=case.max_unroll, abstract_mul=abstract, uf_prims=uf.prims if uf else None)
        itp.deadline = t0 + max(0.7 * case.budget, 5)
        res = []
        for closed, shp, dec in traced:
            outs = itp.run(closed, sarrs)
            n = len(outs) - len(dec)
            pc = tm.and_all(c.el[()] if d else tm.not_(c.el[()]) for c, d in zip(outs[n:], dec))
            res.append((pc, outs[:n], ct.paths_of(shp)[0]))
        side.clear()
        side.update(norm_post([(l, ct.V(c, bool)) for l, c in itp.obligs]))
        return itp, res

    def posts_of(paths):
        d = {}
        if case.assume is not None:
            asm = tm.and_all(tm.implies(pc, bv(case.assume(views, view(ops_, outs))).e) for pc, outs, ops_ in paths)
            prover.pre = tm.and_(pre, asm)
            prover._inc = None
        if itp.lemmas:
            prover.pre = tm.and_(prover.pre, tm.and_all(itp.lemmas))
            prover._inc = None
        for pc, outs, ops_ in paths:
            for lab, c in norm_post(case.post(views, view(ops_, outs))).items():
                d[lab] = tm.and_(d.get(lab, True), tm.implies(pc, c))
        d.update(side)
        return d

    try:
        itp, paths = attempt(case.abstract_mul)
    except (Unsupported, Budget) as e:
        R["notes"].append(f"outside the generator's reach: {e}; bounded contract evaluation instead")
        R["undecided"] = True
        sample_loop(max(40, case.nsample * 10))
        return finish()
    except RecursionError:
        R["notes"].append("recursion limit")
        R["undecided"] = True
        sample_loop(max(40, case.nsample * 10))
        return finish()
    R["prims"] = itp.prims
    R["loops"] = itp.nloops
    R["calls"] = itp.calls
    R["terms"] = tm.size([e for _, outs, _ in paths for s in outs for e in s.el.reshape(-1)])
    if itp.assumed:
        R["notes"] += sorted(itp.assumed)
    if itp.abstracted:
        R["abstracted"] = sorted(itp.abstracted)
    try:
        posts = posts_of(paths)
    except Exception as e:
        R["notes"].append(f"contract not applicable to the result structure: {type(e).__name__}: {str(e)[:300]}")
        R["undecided"] = True
        # the concrete evaluation decides whether the observable result is wrong
        sample_loop(max(10, case.nsample))
        return finish()
    if not posts:
        R["notes"].append("zero obligations")
        R["undecided"] = True
        return finish()

    # ---- vacuity: requires must be satisfiable
    if prover.pre is not True:
        r = prover.sat(True)
        if r == "unsat":
            R["notes"].append("VACUOUS precondition")
            R["undecided"] = True
            return finish()
    # ---- cross-check the generator against XLA and evaluate the contract on samples
    sample_loop(case.nsample, [(pc, outs) for pc, outs, _ in paths])
    if R["violations"]:
        return finish()

    todo = {}
    for lab, c in posts.items():
        if c is True:
            R["obligations"].append(dict(label=lab, status="proved", backend="normaliser", s=0.0))
        else:
            todo[lab] = c

    deadline = t0 + case.budget

    known = []  # obligations already discharged: facts for the later ones

    def handle_refuted(m, labels):
        """replay a counter-model against the real code"""
        env = prover.model_env(m, names)
        leaves = ct.concrete_from_env(ps, ls, td, env)
        if uf:
            uf.install_model(prover, m)
        ok, info = check_concrete(case, ps, td, leaves, marker, "counterexample", uf.dump() if uf else None)
        return ok, info, leaves

    def prove_set(labels, goals, abstract):
        goal = tm.and_all(goals[l] for l in labels)
        rem = deadline - time.time()
        if rem < 1:
            return "unknown", None, "budget"
        if len(labels) > 1:  # joint attempt: give up early, the obligations are then tried one by one
            rem = min(rem, 12)
        return prover.prove(goal, extra=tm.and_all(known), timeout_ms=int(1000 * min(case.timeout, rem)), second=len(labels) == 1)

    def process(goals, abstract):
        """returns dict label -> (status, backend, secs)"""
        res = {}
        labels = list(goals)
        if not labels:
            return res
        t1 = time.time()
        st, m, be = prove_set(labels, goals, abstract)
        if st == "proved":
            for l in labels:
                res[l] = ("proved", be, round((time.time() - t1) / len(labels), 3))
            return res
        if st == "refuted":
            ok, info, leaves = handle_refuted(m, labels)
            if ok is False:
                R["violations"].append(info)
                for l in labels:
                    res[l] = ("refuted", be, 0.0) if l == info["label"] else ("open", be, 0.0)
                return res
            if abstract:
                return None  # spurious: refine
            R["notes"].append("counter-model did not replay on the real code: " + (info.get("reason") or "contract holds there"))
            R["spurious"] = True
        if len(labels) == 1:
            res[labels[0]] = ("unknown" if st == "unknown" else "refuted-unreplayed", be, round(time.time() - t1, 3))
            return res
        known.clear()
        for l in labels:
            t1 = time.time()
            st, m, be = prove_set([l], goals, abstract)
            if st == "proved":
                known.append(goals[l])
            if st == "refuted":
                ok, info, leaves = handle_refuted(m, [l])
                if ok is False:
                    R["violations"].append(info)
                    res[l] = ("refuted", be, round(time.time() - t1, 3))
                    return res
                if abstract:
                    return None
                res[l] = ("refuted-unreplayed", be, round(time.time() - t1, 3))
            else:
                res[l] = (st, be, round(time.time() - t1, 3))
        return res

    res = process(todo, bool(itp.abstracted))
    if res is None:
        # abstraction too coarse: exact multiplication
        R["notes"].append("abstraction refined: exact multiplication")
        try:
            itp, paths = attempt(False)
            posts2 = posts_of(paths)
            res = process({l: posts2[l] for l in todo}, False)
        except (Unsupported, Budget) as e:
            R["notes"].append(str(e))
            res = {l: ("unknown", "budget", 0.0) for l in todo}
    for l, (st, be, s) in res.items():
        R["obligations"].append(dict(label=l, status=st, backend=be, s=s))
    if any(o["status"] in ("unknown", "refuted-unreplayed") for o in R["obligations"]) and not R["violations"]:
        R["undecided"] = True
        sample_loop(max(20, case.nsample * 5))
    if R.get("mismatch"):  # the generator disagrees with XLA here: nothing it proved counts
        for o in R["obligations"]:
            o["status"] = "untrusted"
        R["undecided"] = True
        if not R["violations"]:
            sample_loop(max(40, case.nsample * 10))
    R["queries"] = prover.queries
    R["solver_s"] = round(prover.time, 3)
    return finish()


def _rawsame(g, w):
    return bool(g) == bool(w) if isinstance(w, (bool, np.bool_)) else int(g) == int(w)


class _Env(dict):
    def __missing__(self, name):
        if name.startswith("havoc!"):
            return 0
        raise KeyError(name)


class _UFs(dict):
    def __missing__(self, name):
        if name.startswith("mul"):
            w, c = name[3:].split("_")
            w, c = int(w), int(c, 16)
            return lambda a: (a * c) & ((1 << w) - 1)
        if name.startswith("cvt:"):
            _, src, dst = name.split(":")
            import ml_dtypes  # noqa: F401

            def cvt(a):
                x = np.empty((1,), object)
                x[0] = int(a)
                return int(ip.to_raw(np.asarray(jax.lax.convert_element_type(ip.from_raw(x, np.dtype(src)), np.dtype(dst))))[0])

            return cvt
        raise KeyError(name)


def _ufs(uf):
    d = _UFs()
    if uf:
        d.update(uf.callables())
    return d


def _must_raise(case, R):
    """rejected inputs: the real code must raise"""
    R["mode"] = "bounded"
    R["bound"] = R["bound"] or "one execution per rejected call"
    for lab, thunk, exc in case.must_raise():
        try:
            thunk()
        except exc:
            R["samples"] += 1
            continue
        except Exception as e:
            R["violations"].append(dict(label=lab, detail=f"raised {type(e).__name__} instead of {exc}: {str(e)[:200]}", origin="execution", inputs=[]))
            continue
        R["violations"].append(dict(label=lab, detail="no exception raised", origin="execution", inputs=[]))
