"""C21: element i of compute_days is an exact count of calendar days."""
from pyvc.terms import *

CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def leap(y):
    return And(n_eq(zi(y) % 4, 0), Or(Not(n_eq(zi(y) % 100, 0)), n_eq(zi(y) % 400, 0)))


def day_number(y, mo):
    """days from 1 Jan of year 1 to the first day of month mo (1..12) of year y"""
    p = zi(y) - 1
    d = 365 * p + p / 4 - p / 100 + p / 400
    c = CUM[11]
    for k in range(10, -1, -1):
        c = i_ite(n_eq(mo, k + 1), CUM[k], c)
    return d + zi(c) + zi(i_ite(And(n_lt(2, mo), leap(y)), 1, 0))


def body(c, args, kw, year, month, start, n):
    m = c.m

    def post(kind, v):
        if kind == "raise":
            c.unreachable("no exception")
            return
        c.goal("one value per month", And(len(v.shape) == 1, n_eq(v.shape[0], n)))
        c.goal("integers", v.kind == "i")
        i = c.index("i", n)
        k = zi(month) - 1 + i
        spec = lambda j: day_number(zi(year) + (zi(month) - 1 + j) / 12, (zi(month) - 1 + j) % 12 + 1) - day_number(start, 1)
        c.goal("element i is the day count of month i", n_eq(v.get((i,)), spec(i)))
        d = n_sub(v.get((i + 1,)), v.get((i,)))
        c.goal("steps of 28 to 31 days", Implies(n_lt(i + 1, n), And(n_le(28, d), n_le(d, 31))))
    c.explore(lambda: c.call("utils.compute_days", *args, **kw), post)


def general(c):
    year = c.int("initial_year", 1, 9999)
    n = c.int("total_months", 0)
    month = c.int("initial_month", 1, 12)
    start = c.int("units_start_year", 1, 9999)
    c.replay = lambda v: dict(y=v["initial_year"], m=v["initial_month"], n=v["total_months"], u=v["units_start_year"], dflt=False)
    c.assume(zi(year) + (zi(month) - 1 + n) / 12 <= 9999)
    body(c, [year, n, month, start], {}, year, month, start, n)


def defaults(c):
    year = c.int("initial_year", 1, 9999)
    n = c.int("total_months", 0)
    c.replay = lambda v: dict(y=v["initial_year"], m=1, n=v["total_months"], u=1800, dflt=True)
    c.assume(year + n / 12 <= 9999)
    body(c, [year, n], {}, year, 1, 1800, n)


CASES = [("any month and start year", general), ("defaults", defaults)]
