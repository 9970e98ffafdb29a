"""Worker process: loads the contracts of one property and runs cases on request (JSON lines)."""
import json
import os
import sys
import traceback


def main():
    real = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    sys.setrecursionlimit(200000)
    prop, tier = sys.argv[1], sys.argv[2]
    import importlib

    try:
        from jxv import runcase

        mod = importlib.import_module(f"contracts.{prop}")
        cases = {c.name: c for c in mod.cases(tier)}
    except Exception as e:
        deep = False
        try:
            from jxv.runcase import in_repo

            deep = in_repo(e.__traceback__)
        except Exception:
            pass
        real.write(json.dumps(dict(fatal=traceback.format_exc(), in_repo=deep, what=f"{type(e).__name__}: {str(e)[:300]}")) + "\n")
        return
    real.write(json.dumps(dict(ready=True)) + "\n")
    for line in sys.stdin:
        m = json.loads(line)
        try:
            if m["cmd"] == "list":
                out = [dict(name=c.name, tier=c.tier, env=list(c.env), budget=c.budget, mode=c.mode, timeout=c.timeout, bound=c.bound) for c in cases.values()]
            elif m["cmd"] == "run":
                c = cases[m["name"]]
                if m.get("budget") is not None:
                    c.budget = min(c.budget, m["budget"])
                out = runcase.run_case(c, m.get("seed", 0), m.get("marker"), m.get("replay"))
            else:
                out = dict(error="?")
        except Exception as e:
            out = dict(name=m.get("name"), error=f"{type(e).__name__}: {e}", trace=traceback.format_exc()[-3000:])
        if isinstance(out, dict):
            out["rss"] = rss()
        real.write(json.dumps(out, default=str) + "\n")


def rss():
    """resident memory of this process in MB"""
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * 4096 >> 20


if __name__ == "__main__":
    import threading

    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()
    os._exit(0)
