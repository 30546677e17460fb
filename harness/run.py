"""Evaluate the run-time contracts of one property on the real code (repository interpreter).

usage: run.py <property> <out.json> [--hints file] | run.py --replay <file>
"""
import json
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        mod = load(d["property"])
        m = getattr(mod, "check_" + d["property"])(d["case"])
        print("VIOLATED: " + m if m else "holds")
        sys.exit(1 if m else 0)
    prop, out = sys.argv[1], sys.argv[2]
    hints = []
    if "--hints" in sys.argv:
        hints = json.load(open(sys.argv[sys.argv.index("--hints") + 1]))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    mod = load(prop)
    shard, shards = (int(x) for x in os.environ.get("SHARD", "0/1").split("/"))
    cli = prop in ("C19", "C20")
    rng = random.Random(f"{prop}-{seed}" + ("" if cli or not shard else f"-{shard}"))
    n = mod.COUNTS[prop] * (12 if tier == "thorough" else 1)
    limit = 500 if tier == "thorough" else 90
    chk = getattr(mod, "check_" + prop)
    ev = skipped = 0
    samples, fails = [], []
    seen = set()
    stopped = False

    results = []
    for h in hints:
        if not h.get("replay"):
            results.append("none")
            continue
        try:
            m = chk(h["replay"])
            ev += 1
            results.append("fail" if m else "pass")
            if m:
                fails.append(dict(case=h["replay"], message=m))
        except mod.Skip:
            results.append("skip")
        except Exception:
            results.append("error")
    if fails:
        n = 0

    def near(c):
        """the counterexample's structure with generated values"""
        import copy
        for j in range(60):
            d = copy.deepcopy(c)
            for k in ("v", "pet", "w", "u", "t"):
                if isinstance(d.get(k), list) and len(d[k]) > 1:
                    style = rng.choice(["scale", "gamma", "gappy", "zeros"])
                    d[k] = [round(rng.gammavariate(1.5, 40), 3) if style == "gamma" else
                            None if x is None else x * rng.choice([0.5, 1, 2, 10]) if style == "scale" else
                            (float("nan") if rng.random() < 0.1 else round(rng.gammavariate(1.2, 30), 2)) if style == "gappy" else
                            (0.0 if rng.random() < 0.3 else round(rng.gammavariate(0.9, 50), 2)) for x in d[k]]
                    d[k] = [float("nan") if x is None else x for x in d[k]]
            yield d

    def cases():
        for h in hints:
            if h.get("replay") and not fails:
                yield from near(h["replay"])
        hg = getattr(mod, "hinted_" + prop, None)
        if hg:
            for h in hints:
                try:
                    yield from hg(rng, h)
                except Exception:
                    pass
        yield from getattr(mod, "gen_" + prop)(rng, n)
    for k, c in enumerate(cases()):
        if cli and k % shards != shard:
            continue
        if time.time() - t0 > limit:
            stopped = True
            break
        try:
            m = chk(c)
            ev += 1
            seen.add(hash(json.dumps(c, sort_keys=True)))
        except mod.Skip:
            skipped += 1
            continue
        except Exception:
            if hints:       # a counterexample that doesn't fit the harness
                skipped += 1
                continue
            m = None
            fails.append(dict(case=c, message="harness error: " + traceback.format_exc(), harness=True))
            ev += 1
            if len(fails) > 3:
                break
        if len(samples) < 3:
            samples.append(short(c))
        if m:
            fails.append(dict(case=c, message=m))
            if len(fails) >= 3:
                break
    json.dump(dict(property=prop, evaluations=ev, skipped=skipped, samples=samples, distinct=len(seen), fails=fails, stopped_early=stopped,
                   seed=seed, tier=tier, hints=results, wall_s=round(time.time() - t0, 2)), open(out, "w"))


def short(c):
    d = {}
    for k, v in c.items():
        if isinstance(v, list) and len(v) > 6:
            d[k] = [repr(x) for x in v[:5]] + [f"... {len(v)} values"]
        else:
            d[k] = v if not isinstance(v, float) else repr(v)
    return d


def load(prop):
    if prop in ("C19", "C20"):
        import cli_props
        return cli_props
    import props
    return props


main()
