#!/usr/bin/env python3
"""prove.py <property> OUT.json: discharge the obligations of contracts/<property>.py

A contract file has CASES, a list of (name, function of a Ctx).  A case builds symbolic
inputs that satisfy the precondition, executes the real source of /repo symbolically and
states the postconditions as goals; every goal must hold on every path.
"""
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from pyvc.ctx import Ctx            # noqa: E402
from pyvc.terms import Unsupported  # noqa: E402
from pyvc.machine import ForkInLoop, PyRaise  # noqa: E402


def run_case(prop, i, seconds):
    mod = importlib.import_module("contracts." + prop.lower())
    name, fn = mod.CASES[i][:2]
    t0 = time.time()
    c = Ctx(prop, name, t0 + seconds)
    err = None
    try:
        fn(c)
    except (Unsupported, ForkInLoop) as e:
        err = f"{name}: {type(e).__name__}: {e}"
        if os.environ.get("PYVC_TRACE"):
            traceback.print_exc(limit=-14)
    except PyRaise as e:
        err = f"{name}: exception outside of an exploration: {e}"
    except RecursionError:
        err = f"{name}: recursion limit of the engine"
    except Exception as e:   # an engine error is not an answer
        err = f"{name}: engine error: {type(e).__name__}: {e}"
        if os.environ.get("PYVC_TRACE"):
            traceback.print_exc()
    return c.result(err, time.time() - t0)


def die_with_parent():
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # PR_SET_PDEATHSIG
        if os.getppid() == 1:
            os._exit(1)
    except Exception:
        pass


def worker(prop, i, seconds, q):
    try:
        os.setsid()
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        die_with_parent()
        r = run_case(prop, i, seconds)
    except BaseException as e:
        r = None
        if os.environ.get("PYVC_TRACE"):
            traceback.print_exc()
    q.put((i, r))


def main():
    prop, out = sys.argv[1], sys.argv[2]
    only = sys.argv[3:]
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    mod = importlib.import_module("contracts." + prop.lower())
    cases = [i for i, x in enumerate(mod.CASES) if not only or any(x[0].startswith(o) or "=" + x[0] == o for o in only)]
    skipped = [mod.CASES[i][0] for i in cases if tier == "quick" and "thorough" in mod.CASES[i][2:] and not only]
    cases = [i for i in cases if mod.CASES[i][0] not in skipped]
    per = getattr(mod, "SECONDS", 150) * (3 if tier == "thorough" else 1)
    total = float(os.environ.get("PYVC_TOTAL", 330 if tier == "quick" else 760))
    jobs = int(os.environ.get("PYVC_JOBS", "6"))
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    todo = list(cases)
    stop = []
    signal.signal(signal.SIGTERM, lambda *a: stop.append(1))     # write down what there is
    live = {}
    res = {}
    while todo or live:
        if stop:
            break
        while todo and len(live) < jobs and time.time() - t0 < total:
            i = todo.pop(0)
            p = ctx.Process(target=worker, args=(prop, i, min(per, max(5, total - (time.time() - t0))), q))
            p.start()
            live[i] = (p, time.time())
        try:
            i, r = q.get(timeout=0.5)
            res[i] = r
            p, _ = live.pop(i)
            p.join()
        except Exception:
            pass
        for i, (p, st) in list(live.items()):
            over = time.time() - st > per + 40 or time.time() - t0 > total + 20
            if over or not p.is_alive():
                if p.is_alive():
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        p.kill()
                    p.join()
                    live.pop(i)
                    res.setdefault(i, None)
                else:
                    # finished: its answer may still be in the queue
                    try:
                        while True:
                            k, r = q.get(timeout=0.3)
                            res[k] = r
                            live.pop(k, None)
                    except Exception:
                        pass
                    if i in live:
                        live.pop(i)
                        res.setdefault(i, None)
        if time.time() - t0 > total + 30:
            break
    for p, _ in live.values():
        if p.is_alive():
            p.kill()
    for i in cases:
        res.setdefault(i, None)
    rep = dict(obligations=[], backends={}, solver_s=0.0, functions=set(), vacuity={}, unsupported=[], trusted=set(),
               assumptions=set(), wall_s=0)
    for i in cases:
        name = mod.CASES[i][0]
        r = res[i]
        if r is None:
            rep["unsupported"].append(f"{name}: no answer within the time limit")
            rep["obligations"].append(dict(name=name, status="undecided", detail="no answer within the time limit"))
            continue
        for o in r["obligations"]:
            o["case"] = name
            if o["status"] == "refuted" and "helper" in mod.CASES[i][2:]:
                # the contract of a helper the property is proved with, not the property
                o["status"] = "undecided"
                o["detail"] = "the callee no longer meets the contract this property is proved with: " + o["detail"]
        rep["obligations"] += r["obligations"]
        for b, k in r["backends"].items():
            rep["backends"][b] = rep["backends"].get(b, 0) + k
        rep["solver_s"] += r["solver_s"]
        rep["functions"] |= set(r["functions"])
        rep["trusted"] |= set(r["trusted"])
        rep["assumptions"] |= set(r["assumptions"])
        rep["vacuity"][name] = dict(r["vacuity"], wall_s=round(r["wall"], 1))
        if r["error"]:
            rep["unsupported"].append(r["error"])
    if skipped:
        rep["thorough_only"] = skipped
    rep["trusted"] |= set(getattr(mod, "TRUSTED", []))
    rep["assumptions"] |= set(getattr(mod, "ASSUMPTIONS", []))
    rep["solver_s"] = round(rep["solver_s"], 2)
    rep["wall_s"] = round(time.time() - t0, 2)
    for k in ("functions", "trusted", "assumptions"):
        rep[k] = sorted(rep[k])
    json.dump(rep, open(out + ".part", "w"), indent=1)
    os.replace(out + ".part", out)
    if only or os.environ.get("PYVC_SHOW"):
        show(rep)
    sys.stdout.flush()
    os._exit(0)      # without waiting for what killed workers left in the queue


def show(rep):
    for o in rep["obligations"]:
        print(o["status"].ljust(11), o["name"], o.get("backend", ""), o.get("s", ""), "" if o["status"] == "discharged" else o.get("detail", ""))
        if o.get("model"):
            print("     ", json.dumps(o["model"])[:600])
    for k in ("backends", "solver_s", "functions", "vacuity", "unsupported", "wall_s"):
        print(k, rep[k])


if __name__ == "__main__":
    main()
