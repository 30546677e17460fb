"""C03: sliding totals are exact sums of the last `scale` steps."""
from pyvc.terms import *
from contracts.lib import *


def sums(c):
    n = c.int("n", 0)
    scale = c.int("scale", 1)
    v = c.array("v", (n,))
    r1 = v.reader()
    rd = lambda k: r1((k,))
    c.replay = lambda d: dict(v=json_series(d["v"]), p=12, scale=d["scale"], kind="1d", what="sum")

    def post(kind, r):
        if kind == "raise":
            return c.unreachable("no exception")
        c.goal("as many totals as inputs", And(is_arr(r, 1), n_eq(r.shape[0], n)))
        i = c.index("i", n)
        c.goal("total of the window", n_same(r.get((i,)), total(c.m, rd, i, scale)))
        c.goal("scale 1 leaves the values as they are", Implies(n_eq(scale, 1), n_same(r.get((i,)), rd(i))))
    c.explore(lambda: c.call("compute.sum_to_scale", v, scale), post)


def scaled(p, two_d):
    def fn(c):
        m = c.m
        scale = c.int("scale", 1)
        if two_d:
            years = c.int("years", 1)
            n = n_mul(years, p)
            v = c.array("v", (years, p))
            r2 = v.reader()
            rd = lambda k: r2(A.unravel(m, (years, p), k))
        else:
            n = c.int("n", 1)
            v = c.array("v", (n,))
            r1 = v.reader()
            rd = lambda k: r1((k,))
        c.assume(m.any(n, lambda k: Not(R(rd(k)).nan)))
        c.replay = lambda d: dict(v=json_series(sum(d["v"], []) if two_d else d["v"]), p=p, scale=d["scale"],
                                  kind="2d" if two_d else "1d", what="scale")
        pos = lambda k: nonneg(rd(k))

        def post(kind, r):
            if kind == "raise":
                return c.unreachable("no exception")
            rows = ceil_div(m, n, p)
            c.goal("rows of one year", And(is_arr(r, 2), n_eq(r.shape[0], rows), n_eq(r.shape[1], p)))
            y = c.index("y", rows)
            s = m.ranged_int("step", 0, p - 1)
            i = n_add(n_mul(y, p), s)
            x = r.get((y, s))
            c.goal("total in its place", Implies(n_lt(i, n), n_same(x, total(m, pos, i, scale))))
            c.goal("final year padded with missing values", Implies(n_le(n, i), R(x).nan))
        c.explore(lambda: c.call("compute.scale_values", v, scale, periodicity(c, p)), post)
    return fn


def reshaped(p):
    def fn(c):
        m = c.m
        n = c.int("n", 1)
        v = c.array("v", (n,))
        rd = v.reader()
        c.replay = lambda d: dict(v=json_series(d["v"]), p=p, what="reshape", kind="1d")

        def post(kind, r):
            if kind == "raise":
                return c.unreachable("no exception")
            rows = ceil_div(m, n, p)
            c.goal("shape", And(is_arr(r, 2), n_eq(r.shape[0], rows), n_eq(r.shape[1], p)))
            y = c.index("y", rows)
            s = m.ranged_int("step", 0, p - 1)
            i = n_add(n_mul(y, p), s)
            c.goal("every value in its place", Implies(n_lt(i, n), n_same(r.get((y, s)), rd((i,)))))
            c.goal("padding is missing", Implies(n_le(n, i), R(r.get((y, s))).nan))
        c.explore(lambda: c.call("utils.reshape_to_2d", v, p), post)
    return fn


CASES = [("sum_to_scale", sums)]
for p in (12, 366):
    CASES.append((f"scale_values {PERIODS[p]}", scaled(p, False)))
    CASES.append((f"scale_values {PERIODS[p]} (years, steps)", scaled(p, True)))
    CASES.append((f"reshape_to_2d {p}", reshaped(p)))
