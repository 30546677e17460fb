#!/usr/bin/env python3
"""xcheck.py [seed]: the engine against the repository's interpreter.

The same function of /repo is called with the same numbers in both: concretely by /opt/venv/bin/python, and by the engine, once
with concrete array lengths and once with a symbolic length that is only assumed to have that value (so that loops and
reductions are summarised rather than unrolled).  Every element of the engine's result is to be provably within 1e-9 of the
real one.  Where that is not proved (aggregates are known through lemmas that need not be complete) its negation is tried: if
that is proved on a path that is satisfiable, the engine computes something else than Python does, an error."""
import json
import os
import random
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO_PY = "/opt/venv/bin/python"

REAL = r'''
import json, sys, logging
logging.disable(logging.CRITICAL)
import numpy as np
sys.path.insert(0, "/repo/src")
from climate_indices import compute, utils, indices, eto, lmoments, palmer
out = []
for qual, args in json.load(sys.stdin):
    a = []
    for k, x in args:
        if k == "arr":
            a.append(np.array([float("nan") if v is None else v for v in x]))
        elif k == "arr2":
            a.append(np.array([[float("nan") if v is None else v for v in r] for r in x]))
        elif k == "per":
            a.append(compute.Periodicity[x])
        else:
            a.append(x)
    f = eval(qual)
    try:
        r = f(*a)
        def flat(r):
            if isinstance(r, np.ndarray):
                return [list(r.shape), [None if v != v else float(v) for v in r.ravel()]]
            if isinstance(r, (tuple, list)):
                return [flat(x) for x in r]
            return [[], [None if r != r else float(r)]]
        out.append(["ok", isinstance(r, tuple), flat(r)])
    except Exception as e:
        out.append(["raise", type(e).__name__, None])
json.dump(out, sys.stdout)
'''


def cases(rng):
    def series(n, miss=0.1, lo=-5, hi=60):
        return [None if rng.random() < miss else float(rng.randint(lo, hi)) / rng.choice((1, 2, 4)) for _ in range(n)]
    for _ in range(4):
        yield "compute.sum_to_scale", [("arr", series(rng.randint(1, 9))), ("int", rng.randint(1, 5))]
        yield "compute.scale_values", [("arr", series(rng.randint(1, 30))), ("int", rng.randint(1, 4)), ("per", "monthly")]
        yield "utils.reshape_to_2d", [("arr", series(rng.randint(1, 30))), ("int", 12)]
        yield "utils.count_zeros_and_non_missings", [("arr", [rng.choice((None, 0.0, 1.0, -2.0)) for _ in range(rng.randint(1, 12))])]
    for _ in range(2):
        yield "indices.percentage_of_normal", [("arr", series(rng.randint(13, 30), lo=0)), ("int", rng.randint(1, 3)), ("int", 2000), ("int", 2000),
                                               ("int", rng.randint(2000, 2002)), ("per", "monthly")]
        y = rng.choice((1899, 1999, 2000, 2003))
        yield "utils.transform_to_366day", [("arr", series(rng.randint(360, 800))), ("int", y), ("int", 2)]
        yield "utils.transform_to_gregorian", [("arr", series(732)), ("int", y)]
        yield "utils.gregorian_length_as_366day", [("int", rng.randint(1, 2000)), ("int", y)]
        yield "utils.compute_days", [("int", y), ("int", 5), ("int", rng.randint(1, 12)), ("int", rng.randint(1800, 2000))]
    yield "indices.pci", [("arr", series(365, 0, 0))]
    yield "indices.pci", [("arr", series(366, 0, 0))]
    yield "indices.pci", [("arr", series(364, 0, 0))]
    yield "utils.sign_change", [("arr", [1.0, -1.0, 0.0, 2.0]), ("arr", [2.0, 1.0, -1.0, 3.0])]


def main():
    import z3
    from pyvc.ctx import Ctx
    from pyvc.terms import R, F, Not, And, Or, SR, zi, zb, is_num, rv, n_le, n_eq
    from pyvc.terms import Unsupported
    from pyvc import arrays as A
    from contracts import lib
    seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
    todo = list(cases(random.Random(seed)))
    real = json.loads(subprocess.run([REPO_PY, "-c", REAL], input=json.dumps(todo), capture_output=True, text=True, check=True).stdout)
    count = dict(proved=0, incomplete=0, wrong=0, unsupported=0)
    for (qual, args), (status, tup, exp) in zip(todo, real):
        for symbolic in (False, True):
            c = Ctx("X", qual, time.time() + 60)
            c.canaries = False
            suspects = []
            a = []
            for k, x in args:
                if k == "arr":
                    n = len(x)
                    if symbolic:
                        n = c.int("n", 1)
                        v = c.array("v", (n,))
                        c.assume(n == len(x))
                        rd = v.reader()
                        for i, q in enumerate(x):
                            e = R(rd((i,)))
                            c.assume(zb(e.nan) if q is None else z3.And(z3.Not(zb(e.nan)), e.val == rv(F(q))))
                        a.append(v)
                    else:
                        vals = [F(0) if q is None else F(q) for q in x]
                        nans = [q is None for q in x]

                        def at(idx, vals=vals, nans=nans):
                            i = idx[0]
                            if isinstance(i, int):
                                return SR(vals[i], nans[i], False, True) if 0 <= i < len(vals) else SR(F(77), False, False, True)
                            t, b = z3.RealVal(0), z3.BoolVal(False)
                            for j in range(len(vals)):
                                t = z3.If(i == j, z3.RealVal(str(vals[j])), t)
                                b = z3.If(i == j, z3.BoolVal(nans[j]), b)
                            return SR(t, b, False, True)
                        a.append(A.new(c.m, (len(x),), "f", at, "v"))
                elif k == "per":
                    a.append(c.fn("compute.Periodicity").members[x])
                else:
                    a.append(x)
            got = dict(proved=0, incomplete=0, wrong=0)

            def goal(name, g):
                if c.m.prove(g)[0] == "unsat":
                    got["proved"] += 1
                elif c.m.prove(Not(g))[0] == "unsat" and c.m.prove(False)[0] != "unsat" and len(c.m.pc) == 0:
                    got["wrong"] += 1
                    print("WRONG", qual, args, name)
                elif c.m.prove(Not(g))[0] == "unsat":
                    # wrong, or a path that is impossible without the engine's lemmas showing it
                    suspects.append((name, [str(f)[:200] for f in c.m.pc][-4:]))
                    got["incomplete"] += 1
                else:
                    got["incomplete"] += 1

            def close(x, e):
                if not is_num(x):
                    x = x.get((0,) * x.ndim)
                x = R(x)
                if e is None:
                    return x.nan
                t = F(1, 10 ** 9) * (1 + abs(F(e)))
                return And(Not(x.nan), Not(x.inf), n_le(SR(F(e) - t, False, False), x), n_le(x, SR(F(e) + t, False, False)))

            def same(r, e, name):
                shape, vals = e
                if len(getattr(r, "shape", ())) != len(shape):
                    goal(name + " dimensions", False)
                elif shape:
                    goal(name + " shape", And(*[n_eq(p, q) for p, q in zip(r.shape, shape)]) if len(r.shape) == len(shape) else False)
                    idx = [(i,) if len(shape) == 1 else (i // shape[1], i % shape[1]) for i in range(len(vals))]
                    step = max(1, len(idx) // 12)
                    for k in range(0, len(idx), step):
                        goal(f"{name} {idx[k]}", close(r.get(idx[k]), vals[k]))
                else:
                    goal(name, close(r, vals[0]))

            def post(kind, r):
                if kind == "raise" or status == "raise":
                    goal("exception", kind == "raise" and status == "raise" and r.name == tup)
                    return
                if tup:
                    for q, e in zip(r, exp):
                        same(q, e, "part")
                else:
                    same(r, exp, "result")
            try:
                c.explore(lambda: c.call(qual, *a), post)
            except Unsupported as e:
                count["unsupported"] += 1
                print("out of reach", qual, "symbolic" if symbolic else "concrete", str(e)[:100])
                continue
            for k in got:
                count[k] += got[k]
            if got["proved"] == 0 and suspects:
                print("suspicious", qual, args, suspects[:2])
            print(qual, "symbolic" if symbolic else "concrete", got, flush=True)
    print(count)
    sys.exit(1 if count["wrong"] else 0)


main()
