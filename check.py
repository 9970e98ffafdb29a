#!/usr/bin/env python3
"""Entry point of every check:  check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--case NAME]"""
from __future__ import annotations

import argparse
import hashlib
import json
import os
import queue
import re
import select
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from contracts import assumptions  # noqa: E402

REPO = os.environ.get("JXV_REPO", "/repo")
PY = os.environ.get("JXV_PYTHON", "/opt/venv/bin/python")
HANG = float(os.environ.get("JXV_HANG", "100"))  # seconds one concrete run of the real code may take
TRUSTED = [
    "JAX tracing: jax.make_jaxpr of the real public functions yields the program XLA runs",
    "XLA/CPU implements the jaxpr primitives as encoded in jxv/interp.py (cross-checked on sampled inputs on every run)",
    "z3 5.3.2 (second back end cvc5 1.1.2) and jxv's term normaliser",
    "CPython executes the Python part of the functions while tracing (shapes, static configuration)",
]


def worker_env(extra):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("XTRUCTURE_"):
            del e[k]
    e.update(JAX_PLATFORMS="cpu", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=f"{REPO}:{HERE}",
             XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1", OMP_NUM_THREADS="1",
             JXV_REPO=REPO, TF_CPP_MIN_LOG_LEVEL="3")
    e.update({k: v for k, v in extra})
    return e


class BrokenDeclaration(RuntimeError):
    """the code under test raised while the contracts' documented declarations (classes, containers) were set up"""


class Worker:
    def __init__(self, prop, tier, env):
        self.p = subprocess.Popen([PY, "-m", "jxv.worker", prop, tier], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=(sys.stderr if os.environ.get("JXV_DEBUG") else subprocess.DEVNULL),
                                  env=worker_env(env), cwd=HERE, text=True, bufsize=1)
        r = self.read(240)
        if r and r.get("in_repo"):
            raise BrokenDeclaration(r["what"], r["fatal"])
        if not r or "fatal" in r:
            raise RuntimeError("worker failed to start: " + ((r or {}).get("fatal") or "no answer"))

    def read(self, timeout, poll=None):
        """next JSON line, or None on timeout/death; poll() may return True to give up early"""
        end = time.time() + timeout
        while True:
            r, _, _ = select.select([self.p.stdout], [], [], 1.0)
            if r:
                line = self.p.stdout.readline()
                if not line:
                    return None
                return json.loads(line)
            if time.time() > end or (poll and poll()):
                return None

    def send(self, **m):
        self.p.stdin.write(json.dumps(m) + "\n")
        self.p.stdin.flush()

    def kill(self):
        try:
            self.p.kill()
            self.p.wait(10)
        except Exception:
            pass


QUICK_S, THOROUGH_S = 420.0, 6 * 3600.0


def run_all(prop, tier, seed, only=None, jobs=None):
    began = time.time()
    limit = QUICK_S if tier == "quick" else THOROUGH_S  # after that, cases get a short budget (and are reported as undischarged)
    stop = threading.Event()  # a violation was replayed: the verdict is settled, the remaining cases are not run
    w0 = Worker(prop, tier, ())
    w0.send(cmd="list")
    cases = w0.read(120)
    if only:
        cases = [c for c in cases if re.search(only, c["name"])]
    spare = [w0]
    q: "queue.Queue" = queue.Queue()
    groups = {}
    for c in cases:
        groups.setdefault(tuple(map(tuple, c["env"])), []).append(c)
    # heavy cases first, grouped by environment so that workers are reused
    order = sorted(groups.items(), key=lambda g: -max(c["budget"] for c in g[1]))
    work = []
    for env, cs in order:
        cs = sorted(cs, key=lambda c: -c["budget"])
        work += [(env, c) for c in cs]
    jobs = jobs or min(int(os.environ.get("JXV_JOBS", "8")), max(1, len(work)))
    lock = threading.Lock()
    results = []
    tmp = tempfile.mkdtemp(prefix="jxv-")

    def take(env):
        with lock:
            for i, (e, c) in enumerate(work):
                if e == env:
                    return work.pop(i)
            return work.pop(0) if work else None

    def loop(k):
        w, wenv = None, ()
        if k == 0:
            w, wenv = spare.pop(), ()
        while True:
            item = take(wenv)
            if item is None or stop.is_set():
                break
            env, c = item
            if w is None or env != wenv:
                if w:
                    w.kill()
                try:
                    w, wenv = Worker(prop, tier, env), env
                except RuntimeError as e:
                    with lock:
                        results.append(dict(name=c["name"], error=str(e)[-2000:]))
                    w = None
                    continue
            marker = os.path.join(tmp, f"m{k}")
            if os.path.exists(marker):
                os.unlink(marker)
            left = began + limit - time.time()
            budget = max(8.0, min(c["budget"], left))
            w.send(cmd="run", name=c["name"], seed=seed, marker=marker, budget=budget)

            def hung():
                if stop.is_set():
                    return True
                try:
                    return time.time() - os.stat(marker).st_mtime > HANG
                except OSError:
                    return False

            r = w.read(budget * 1.3 + min(c["timeout"], budget) + 120, hung)
            if r is None and stop.is_set():
                w.kill()
                w = None
                break
            if r is None:
                info = None
                if os.path.exists(marker):
                    info = json.load(open(marker))
                w.kill()
                w = None
                r = dict(name=c["name"], mode=c["mode"], timeout=True, obligations=[], violations=[], notes=["case timed out"])
                if info is not None:
                    # confirm non-termination of the real code on this input in a fresh process
                    try:
                        w2 = Worker(prop, tier, env)
                        w2.send(cmd="run", name=c["name"], seed=seed, replay=info)
                        r2 = w2.read(HANG)
                        if r2 is None and w2.p.poll() is None:
                            r["violations"].append(dict(label="terminates", detail=f"the real code did not return within {HANG:.0f}s on this input (twice)",
                                                        origin=info["origin"], inputs=info["inputs"], uf=info.get("uf")))
                        w2.kill()
                    except RuntimeError:
                        pass
            r["env"] = c["env"]
            if w and r.get("rss", 0) > 2000:  # a fresh process for the next case: keeps eight workers inside the memory
                w.kill()
                w = None
            with lock:
                results.append(r)
            if any(not any(matches(f, prop, c["name"], v) for f in known()["findings"]) for v in r.get("violations", [])):
                stop.set()
            if os.environ.get("JXV_VERBOSE"):
                obs = r.get("obligations", [])
                print(f"  {r.get('name')}: {sum(o['status']=='proved' for o in obs)}/{len(obs)} proved, samples={r.get('samples')} "
                      f"terms={r.get('terms')} rss={r.get('rss')} wall={r.get('wall')} {'UNDECIDED' if r.get('undecided') else ''} {r.get('notes') or ''} {r.get('error') or ''} {(r.get('trace') or '')[-700:]}"
                      f" {[ (v['label'], v.get('detail','')[:160]) for v in r.get('violations', [])] or ''}"
                      f" slow={sorted(((o['s'],o['label'],o['status']) for o in obs if o['s']>2 or o['status']!='proved'), reverse=True)[:6]}", flush=True)
        if w:
            w.kill()

    ths = [threading.Thread(target=loop, args=(k,)) for k in range(jobs)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for w in spare:
        w.kill()
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)
    return results


def known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}


def matches(f, prop, case, v):
    if f.get("status") != "open" or f["property"] != prop or f.get("case") != case:
        return False
    if f.get("label") and f["label"] != v["label"]:
        return False
    if f.get("detail") and f["detail"] not in v.get("detail", ""):
        return False
    if f.get("inputs") is not None and f["inputs"] != [i.get("raw") for i in v.get("inputs", [])]:
        return False
    return True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    t0 = time.time()
    if a.replay:
        rp = json.load(open(a.replay))
        try:
            w = Worker(prop, rp.get("tier", tier), tuple(map(tuple, rp.get("env", []))))
        except BrokenDeclaration as e:
            print(f"{e.args[0]}\nVIOLATION property={prop} replay={a.replay}")
            sys.exit(1)
        if "case" not in rp:
            sys.exit(0)
        w.send(cmd="run", name=rp["case"], seed=a.seed, replay=rp)
        r = w.read(HANG)
        w.kill()
        print(json.dumps(r, indent=1))
        if r is None or r.get("replay_ok") is False or r.get("violations"):
            print(f"VIOLATION property={prop} replay={a.replay}")
            sys.exit(1)
        sys.exit(0)
    try:
        results = run_all(prop, tier, a.seed, a.case)
    except BrokenDeclaration as e:
        # replay: loading the contract module again
        try:
            Worker(prop, tier, ()).kill()
            print(f"check error: {e} (not reproduced)", file=sys.stderr)
            sys.exit(2)
        except BrokenDeclaration as e2:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", f"{prop}-declaration.json")
            with open(path, "w") as fh:
                json.dump(dict(property=prop, label="declarations are accepted", detail=e2.args[0], trace=e2.args[1]), fh, indent=1)
            print(f"# documented declarations used by the contracts are rejected by the code: {e2.args[0]}")
            print(f"VIOLATION property={prop} replay={path}")
            sys.exit(1)
    except RuntimeError as e:
        print(f"check error: {e}", file=sys.stderr)
        sys.exit(2)
    obligations = discharged = samples = cross = bounded_runs = 0
    undis, notes, backends, fns, prims = [], [], {}, {}, {}
    solver_s = 0.0
    nviol = 0
    errors = []
    lines = []
    cases_ev = []
    kf = known()
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for r in sorted(results, key=lambda r: str(r.get("name"))):
        if r.get("error"):
            errors.append(f"{r.get('name')}: {r['error']}")
            continue
        obs = r.get("obligations", [])
        ok = sum(o["status"] == "proved" for o in obs)
        obligations += len(obs)
        discharged += ok
        for o in obs:
            if o["status"] == "proved":
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            else:
                undis.append(f"{r['name']}/{o['label']}: {o['status']} ({o['backend']})")
        if r.get("undecided") and not obs:
            undis.append(f"{r['name']}: {'; '.join(r['notes'])}")
        if r.get("mode") == "bounded":
            bounded_runs += r.get("samples", 0)
        else:
            samples += r.get("samples", 0)
        cross += r.get("crosschecked", 0)
        solver_s += r.get("solver_s", 0) or 0
        for f in r.get("functions", []):
            fns[f] = fns.get(f, 0) + ok
        for p_, n in (r.get("prims") or {}).items():
            prims[p_] = prims.get(p_, 0) + n
        for n in r.get("notes", []):
            notes.append(f"{r['name']}: {n}")
        cases_ev.append(dict(case=r["name"], kind=("bounded stand-in: " + r.get("bound", "")) if r.get("mode") == "bounded" else "proof",
                             obligations=len(obs), discharged=ok, samples=r.get("samples", 0), crosschecked=r.get("crosschecked", 0),
                             terms=r.get("terms"), loops=r.get("loops"), wall_s=r.get("wall")))
        seen = set()
        for v in r.get("violations", []):
            f = next((f for f in kf["findings"] if matches(f, prop, r["name"], v)), None)
            if f:
                lines.append(f"KNOWN-FINDING: property={prop} {f['what']}")
                continue
            if v["label"] in seen:
                continue
            seen.add(v["label"])
            nviol += 1
            rec = dict(property=prop, case=r["name"], tier=tier, **v)
            rec["env"] = r.get("env", [])
            h = hashlib.sha1(json.dumps(rec, sort_keys=True, default=str).encode()).hexdigest()[:10]
            path = os.path.join(HERE, "replays", f"{prop}-{h}.json")
            rec["how_to_replay"] = f"{HERE}/check.py {prop} --replay {path}"
            with open(path, "w") as fh:
                json.dump(rec, fh, indent=1, default=str)
            tail = " no-failing-input-found" if v.get("no_input") else ""
            lines.append(f"VIOLATION property={prop} replay={path}{tail}")
            print(f"# {r['name']}: obligation '{v['label']}' fails: {v.get('detail','')}")
    level = "proof"
    man = os.path.join(HERE, "MANIFEST.json")
    try:
        for c in json.load(open(man))["checks"]:
            if c["property"] == prop:
                level = c["level"]
    except Exception:
        pass
    ev = dict(
        property=prop, tier=tier, seed=a.seed, level=level,
        coverage=dict(
            obligations=obligations, discharged=discharged,
            checker_cmd=f"check.py {prop} --tier {tier} (z3 {_zv()} via jxv; VCs regenerated from {REPO} on every run)",
            trusted_base=TRUSTED,
            backends=backends, solver_s=round(solver_s, 2), undischarged=undis,
            functions_under_contract=fns, contract_evaluations_on_real_runs=samples,
            engine_crosschecks_against_xla=cross, bounded_contract_runs=bounded_runs,
            primitives_interpreted=prims, cases=cases_ev, notes=notes[:60], errors=errors,
            evaluations=samples + bounded_runs,
            distinct_nontrivial=samples + bounded_runs,
            rule="contract evaluated on the real XLA output of an input satisfying the precondition (random, seeded); bounded stand-ins and engine cross-checks only, the deciding step is the verifier",
        ),
        assumptions=assumptions.of(prop),
        wall_s=round(time.time() - t0, 2), violations=nviol,
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for l in dict.fromkeys(lines):
        print(l)
    print(f"# {prop} [{tier}]: {discharged}/{obligations} obligations discharged {backends}, {samples} contract runs, {bounded_runs} bounded runs, "
          f"{cross} engine cross-checks, {len(undis)} undischarged, {len(errors)} errors, {time.time()-t0:.1f}s")
    for u in undis[:10]:
        print("#   undischarged:", u)
    for e in errors[:5]:
        print("#   error:", e)
    if nviol:
        sys.exit(1)
    if obligations + samples + bounded_runs == 0:
        print("check error: nothing was decided", file=sys.stderr)
        sys.exit(2)
    sys.exit(0)


def _zv():
    return "5.3.2"


if __name__ == "__main__":
    main()
