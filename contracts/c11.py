"""C11: percentage of normal = total / mean of the calendar step's totals in the calibration years."""
from pyvc.terms import *
from contracts.lib import *
from contracts import callees, c03

HELPERS = [x + ("helper",) for x in c03.CASES if x[0] == "sum_to_scale"]


def normal(m, tot, n, a, ncal, s, p):
    """mean of the non-missing totals of step s in ncal years from position a on (years that the record contains)"""
    last = n_sub(n_sub(n, a), s)                       # steps of the record from the step's first calibration value on
    k = ceil_div(m, last, p)
    years = ncal if m.decide(n_le(ncal, k)) else (k if m.decide(n_le(0, k)) else 0)
    return FL.fnanmean(m, years, lambda y: tot(n_add(a, n_add(n_mul(y, p), s))))


def case(p):
    def fn(c):
        m = c.m
        m.unroll = 6
        callees.sum_to_scale(c)
        n = c.int("n", 1)
        scale = c.int("scale", 1)
        start, c0, c1 = c.int("start_year"), c.int("c0_year"), c.int("c1_year")
        v = c.array("v", (n,))
        r1 = v.reader()
        c.assume(And(n_le(start, c0), n_le(c0, c1), n_le(n_mul(n_add(n_sub(c1, c0), 1), p), n)))
        tot = lambda i: total(m, lambda k: r1((k,)), i, scale)
        c.replay = lambda d: dict(v=json_series(d["v"]), p=p, scale=d["scale"], start=d["start_year"], c0=d["c0_year"],
                                  c1=d["c1_year"], kind="1d", style="")

        def post(kind, r):
            if kind == "raise":
                return c.unreachable("no exception")
            c.goal("one value per input value", And(is_arr(r, 1), n_eq(r.shape[0], n)))
            s = m.ranged_int("step", 0, p - 1)
            y = c.index("y", ceil_div(m, n, p))
            i = n_add(n_mul(y, p), s)
            c.assume(n_lt(i, n))
            x = R(r.get((i,)))
            t = R(tot(i))
            a = n_mul(n_sub(c0, start), p)
            mean = R(normal(m, tot, n, a, n_add(n_sub(c1, c0), 1), s, p))
            pos = And(Not(mean.nan), r_lt(F(0), mean.val))
            c.goal("missing exactly where the total is or the normal is not positive", Iff(x.nan, Or(t.nan, Not(pos))))
            c.goal("ratio of total and normal", Implies(And(Not(t.nan), pos), r_eq(r_mul(x.val, mean.val), t.val)))
        c.explore(lambda: c.call("indices.percentage_of_normal", v, scale, start, c0, c1, periodicity(c, p)), post)
    return fn


CASES = list(HELPERS)
for p in (12, 366):
    CASES.append((f"percentage_of_normal {PERIODS[p]}", case(p)))
