"""C05: fitted parameters depend only on the same calendar step in the calibration years.

Relational: two records that agree in calendar step s of the calibration years, and differ arbitrarily elsewhere,
give the same parameters of step s (for every s)."""
from contracts.index import *


def inputs(c, p, two_d):
    m = c.m
    if two_d:
        rows = c.int("years", 1)
        n = n_mul(rows, p)
        v, rv_ = c.rows("v", rows, p)
        u, ru = c.rows("u", rows, p)
    else:
        n = c.int("n", 1)
        rows = ceil_div(m, n, p)
        v, u = c.array("v", (n,)), c.array("u", (n,))
        r1, r2 = v.reader(), u.reader()
        rv_, ru = (lambda k: r1((k,))), (lambda k: r2((k,)))
    return n, rows, v, rv_, ru


def mixed(c, n, rows, p, two_d, keep, rv_, ru):
    """rv where keep(row, step), ru elsewhere"""
    m = c.m

    def at(y, s, k):
        cond = keep(y, s)
        if m.entails(cond, 300):
            return rv_(k)
        if m.entails(Not(cond), 300):
            return ru(k)
        return n_ite(cond, rv_(k), ru(k))
    if two_d:
        return A.new(m, (rows, p), "f", lambda i: at(i[0], i[1], A.unflat(m, i[0], i[1], p)))

    def flat(i):
        y, s = A.divmod_const(m, i[0], p)
        return at(y, s, i[0])
    return A.new(m, (n,), "f", flat)


def years(c, rows):
    start, c0, c1 = c.int("start_year"), c.int("c0_year"), c.int("c1_year")
    c.assume(n_le(c0, c1))
    end = n_add(start, n_sub(rows, 1))
    outside = Or(n_lt(c0, start), n_lt(end, c1))
    return start, c0, c1, end, outside


def base(c, dist, p, two_d):
    callees.fit(c)
    callees.reshape_to_2d(c)
    n, rows, v, rv_, ru = inputs(c, p, two_d)
    start, c0, c1, end, outside = years(c, rows)
    fit = "compute.gamma_parameters" if dist == "gamma" else "compute.pearson_parameters"
    per = periodicity(c, p)
    flat = lambda d: json_series(sum(d, []) if two_d else d)
    common = lambda d: dict(v=flat(d["v"]), p=p, scale=1, start=d["start_year"], c0=d["c0_year"], c1=d["c1_year"], dist=dist,
                            kind="2d" if two_d else "1d", style="", pseed=1, step=d.get("step", 0))
    return n, rows, v, rv_, ru, start, c0, c1, end, outside, fit, per, flat, common


def params(dist, p, two_d):
    def fn(c):
        m = c.m
        n, rows, v, rv_, ru, start, c0, c1, end, outside, fit, per, flat, common = base(c, dist, p, two_d)
        s = c.int("step", 0, p - 1)

        def replay(d):
            a, b = flat(d["v"]), flat(d["u"])
            lo, hi = d["start_year"], d["start_year"] + -(-len(a) // p) - 1
            if d["c0_year"] >= lo and d["c1_year"] <= hi:
                lo, hi = d["c0_year"], d["c1_year"]
            out = [x if i % p == d["step"] and lo <= d["start_year"] + i // p <= hi else y for i, (x, y) in enumerate(zip(a, b))]
            return dict(common(d), what="params", w=out)
        c.replay = replay

        def run():
            first, last = (0, n_sub(rows, 1)) if m.decide(outside) else (n_sub(c0, start), n_sub(c1, start))
            keep = lambda y, t: And(n_eq(t, s), n_le(first, y), n_le(y, last))
            w = mixed(c, n, rows, p, two_d, keep, rv_, ru)
            a = c.call(fit, v, start, c0, c1, per)
            return a, c.call(fit, w, start, c0, c1, per)

        def post(kind, r):
            if kind == "raise":
                return c.unreachable("no exception")
            for j, (a, b) in enumerate(zip(*r)):
                c.goal(f"parameter {j}: one value per calendar step", And(is_arr(a, 1), n_eq(a.shape[0], p)))
                c.goal(f"parameter {j} of a step depends on nothing else", n_same(a.get((s,)), b.get((s,))))
                if dist == "pearson":
                    x = R(a.get((s,)))
                    c.goal(f"parameter {j} is a number", Not(Or(x.nan, x.inf)))
                    if j == 0:
                        c.goal("probability of zero in [0, 1]", And(r_le(0, x.val), r_le(x.val, 1)))
                    if j == 2:
                        c.goal("scale not negative", r_le(0, x.val))
        c.explore(run, post)
    return fn


def fallback(dist, p, two_d):
    def fn(c):
        n, rows, v, rv_, ru, start, c0, c1, end, outside, fit, per, flat, common = base(c, dist, p, two_d)
        c.assume(outside)
        s = c.int("step", 0, p - 1)
        c.replay = lambda d: dict(common(d), what="fallback")

        def post(kind, r):
            if kind == "raise":
                return c.unreachable("no exception")
            for j, (a, b) in enumerate(zip(*r)):
                c.goal(f"parameter {j} is that of the whole record", n_same(a.get((s,)), b.get((s,))))
        c.explore(lambda: (c.call(fit, v, start, c0, c1, per), c.call(fit, v, start, start, end, per)), post)
    return fn


def index(dist, p):
    """transformed values of one calendar step do not depend on other calendar steps"""
    def fn(c):
        m = c.m
        n, rows, v, rv_, ru, start, c0, c1, end, outside, fit, per, flat, common = base(c, dist, p, False)
        callees.fitted(c, dist, p)
        s = c.int("step", 0, p - 1)
        w = mixed(c, n, rows, p, False, lambda y, t: n_eq(t, s), rv_, ru)

        def replay(d):
            a, b = flat(d["v"]), flat(d["u"])
            return dict(common(d), what="index", w=[x if i % p == d["step"] else y for i, (x, y) in enumerate(zip(a, b))])
        c.replay = replay
        f = f"compute.transform_fitted_{dist}"

        def post(kind, r):
            if kind == "raise":
                return c.unreachable("no exception")
            a, b = r
            y = c.index("y", rows)
            i = n_add(n_mul(y, p), s)
            at = lambda x: x.get((i,)) if x.ndim == 1 else x.get((y, s))
            c.assume(n_lt(i, n))
            c.goal("index of a step depends on nothing else", n_same(at(a), at(b)))
        c.explore(lambda: (c.call(f, v, start, c0, c1, per), c.call(f, w, start, c0, c1, per)), post)
    return fn


# the cases in which the contract callees.fitted is proved
FITTED = []
CASES = [x for x in HELPERS if x[0].startswith("reshape")]
for dist in ("gamma", "pearson"):
    for p in (12, 366):
        for two_d in (False, True):
            t = f"{dist} {PERIODS[p]}{' (years, steps)' if two_d else ''}"
            CASES.append((t + " parameters", params(dist, p, two_d)))
            FITTED.append(CASES[-1] + ("helper",))
            CASES.append((t + " calibration period not covered", fallback(dist, p, two_d)))
        CASES.append((f"{dist} {PERIODS[p]} index", index(dist, p)))
