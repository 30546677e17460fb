"""C04: conversion between real calendar days and 366-day years.

Loop invariants: the running offsets are the number of days of the years before, and the day the postcondition speaks of
(arbitrary, chosen before the code runs) has its value once the loop is past its year."""
from pyvc.terms import *
from pyvc import npmodel
from pyvc.havoc import LoopContract
from contracts.lib import *
from contracts.c10 import same


def off(m, start, k):
    """days of the k calendar years from start on"""
    L = npmodel.leaps_upto
    return n_add(n_mul(365, k), n_sub(L(n_sub(n_add(start, k), 1), m), L(n_sub(start, 1), m)))


def leap(m, y):
    return npmodel.isleap(y, m)


class Years(LoopContract):
    def __init__(self, c, start, total):
        self.c, self.start, self.total = c, start, total
        self.targets = []       # (year, function of the buffer: has the day of that year its value)
        k = lambda st: st[-1][1]
        m = c.m
        self.ints = [("days before", lambda x, st: n_eq(x, off(m, start, k(st)))),
                     ("366-day years before", lambda x, st: n_eq(x, n_mul(366, k(st))))]
        # instances of the calendar lemmas below
        self.lemmas = [lambda st: n_le(n_mul(365, k(st)), off(m, start, k(st))),
                       lambda st: n_le(n_add(off(m, start, k(st)), n_mul(365, n_sub(total, k(st)))), off(m, start, total)),
                       lambda st: n_eq(off(m, start, n_add(k(st), 1)), n_add(off(m, start, k(st)), i_ite(leap(m, n_add(start, k(st))), 366, 365))),
                       lambda st: Implies(n_lt(k(st), total), n_le(n_add(
                           off(m, start, n_add(k(st), 1)), n_mul(365, n_sub(n_sub(total, k(st)), 1))), off(m, start, total)))]
        # the day of the postcondition lies before the years after its own
        self.lemmas += [lambda st: And(*[Implies(n_lt(y, k(st)), n_le(n_add(off(m, start, n_add(y, 1)), n_mul(365, n_sub(n_sub(k(st), y), 1))),
                                                                      off(m, start, k(st)))) for y, _ in self.targets]),
                        lambda st: And(*[n_eq(off(m, start, n_add(y, 1)), n_add(off(m, start, y), i_ite(leap(m, n_add(start, y)), 366, 365)))
                                         for y, _ in self.targets])]
    def target(self, y, f):
        """f(read): the day of year y has its value; holds once a loop is past that year"""
        self.targets.append((y, f))

        def past(read, buf, stack):
            n, k = stack[-1]
            if buf.ndim != 1 or n is None:
                return None
            return Implies(n_lt(y, k), f(read))
        self.buffers = list(self.buffers) + [(f"day of a year past ({len(self.targets)})", past)]


def position(lp, d):
    """offset in the 366-day year of day d (0-based) of the calendar year"""
    return n_ite(Or(lp, n_lt(d, 59)), d, n_add(d, 1))


def setup(c):
    m = c.m
    m.cap_ms, m.int_first, m.opaque_calendar = 2000, True, True
    start, total = c.int("start", 1, 9999), c.int("years", 1, 9999)
    c.assume(n_le(n_add(start, total), 10000))
    y = c.int("year", 0)
    c.assume(n_lt(y, total))
    # instances of the calendar lemmas below
    last = n_sub(total, 1)
    c.assume(n_le(n_mul(365, y), off(m, start, y)))
    c.assume(n_eq(off(m, start, total), n_add(off(m, start, last), i_ite(leap(m, n_add(start, last)), 366, 365))))
    k = Years(c, start, total)
    c.I.loop_contract = k
    return start, total, y, k


def expect366(m, rd, start, y, d):
    """value of day d of year y in the 366-day form"""
    lp = leap(m, n_add(start, y))
    o = off(m, start, y)
    at = lambda j: rd(n_add(o, j))
    mean = f_div(f_add(at(58), at(59)), F(2))
    return n_ite(Or(lp, n_lt(d, 59)), at(d), n_ite(n_eq(d, 59), mean, at(n_sub(d, 1))))


def padded(c, v, n):
    r0 = v.reader()
    return lambda i: n_ite(n_lt(i, n), r0((i,)), NAN)


def to_366(c):
    m = c.m
    start, total, y, k = setup(c)
    n = c.int("n", 1)
    v = c.array("v", (n,))
    d = c.int("day", 0, 365)
    e = expect366(m, padded(c, v, n), start, y, d)
    at = n_add(n_mul(366, y), d)
    k.target(y, lambda read: same(read((at,)), e))
    c.replay = lambda r: dict(v=json_series(r["v"]), start=r["start"], years=r["years"], kind="1d")

    def post(kind, r):
        if kind == "raise":
            return c.unreachable("no exception")
        c.goal("366 values per year", And(is_arr(r, 1), n_eq(r.shape[0], n_mul(366, total))))
        c.goal("each date at its place, Feb. 29th interpolated, missing beyond the record", same(r.get((at,)), e))
    c.explore(lambda: c.call("utils.transform_to_366day", v, start, total), post)


def days(r):
    """case of the harness: the years of the counterexample, each day another value"""
    y0, n = r["start"], min(r["years"], 40)
    return dict(v=[float(i) for i in range(off(None, y0, n))], start=y0, years=n, kind="1d")


def to_gregorian(c):
    m = c.m
    start, total, y, k = setup(c)
    v = c.array("v", (n_mul(366, total),))
    rd = v.reader()
    d = c.int("day", 0, 365)
    lp = leap(m, n_add(start, y))
    c.assume(Or(lp, n_lt(d, 365)))
    e = rd((n_add(n_mul(366, y), position(lp, d)),))
    at = n_add(off(m, start, y), d)
    k.target(y, lambda read: same(read((at,)), e))
    c.replay = days

    def post(kind, r):
        if kind == "raise":
            return c.unreachable("no exception")
        c.goal("the true number of days", And(is_arr(r, 1), n_eq(r.shape[0], off(m, start, total))))
        c.goal("each date from its place", same(r.get((at,)), e))
    c.explore(lambda: c.call("utils.transform_to_gregorian", v, start), post)


def round_trip(c):
    m = c.m
    start, total, y, k = setup(c)
    n = c.int("n", 1)
    v = c.array("v", (n,))
    rd = padded(c, v, n)
    d = c.int("day", 0, 365)
    lp = leap(m, n_add(start, y))
    c.assume(Or(lp, n_lt(d, 365)))
    e = rd(n_add(off(m, start, y), d))
    p, q = n_add(n_mul(366, y), position(lp, d)), n_add(off(m, start, y), d)
    k.target(y, lambda read: same(read((p,)), e))
    k.target(y, lambda read: same(read((q,)), e))
    c.replay = days

    def post(kind, r):
        if kind == "raise":
            return c.unreachable("no exception")
        c.goal("as many days as the years have", And(is_arr(r, 1), n_eq(r.shape[0], off(m, start, total))))
        c.goal("each day as before", same(r.get((q,)), e))
    c.explore(lambda: c.call("utils.transform_to_gregorian", c.call("utils.transform_to_366day", v, start, total), start), post)


class Length(LoopContract):
    """the loop of the length conversion: k years taken off"""

    def __init__(self, c, start, length):
        m = c.m
        k = lambda st: st[-1][1]
        o = lambda j: off(m, start, j)
        before = lambda st: n_sub(k(st), 1)
        self.ints = [("year", lambda x, st: n_eq(x, n_add(start, k(st)))),
                     ("days left", lambda x, st: n_eq(x, n_sub(length, o(k(st))))),
                     ("converted", lambda x, st: n_eq(x, i_ite(n_le(o(k(st)), length), n_mul(366, k(st)),
                                                               n_add(n_mul(366, before(st)), n_sub(length, o(before(st)))))))]
        self.relations = [("years begun", lambda loop, st: Or(n_eq(k(st), 0), n_lt(o(before(st)), length)))]
        self.lemmas = [lambda st: n_eq(o(n_add(k(st), 1)), n_add(o(k(st)), i_ite(leap(m, n_add(start, k(st))), 366, 365))),
                       lambda st: Implies(n_lt(0, k(st)), n_eq(o(k(st)), n_add(o(before(st)), i_ite(leap(m, n_add(start, before(st))), 366, 365))))]
        self.o = o


def length(c):
    m = c.m
    m.opaque_calendar = True
    start = c.int("start", 1)
    n = c.int("length", 0)
    w = Length(c, start, n)
    c.I.loop_contract = w
    # the number of complete years, and lemma instances about it
    y = c.int("complete", 0)
    c.assume(And(n_le(w.o(y), n), n_lt(n, w.o(n_add(y, 1)))))

    def after(st):
        k = st[-1][1]
        mono = lambda a, b: Implies(n_le(a, b), n_le(n_add(w.o(a), n_mul(365, n_sub(b, a))), w.o(b)))
        return And(mono(k, y), mono(n_add(y, 1), k), Implies(n_lt(0, k), mono(n_add(y, 1), n_sub(k, 1))))
    w.lemmas.append(after)
    c.replay = lambda r: dict(length=r["length"], start=r["start"])

    def post(kind, r):
        if kind == "raise":
            return c.unreachable("no exception")
        c.goal("366 per complete year and the days of the last", n_eq(r, n_add(n_mul(366, y), n_sub(n, w.o(y)))))
    c.explore(lambda: c.call("utils.gregorian_length_as_366day", n, start), post)


def calendar_lemmas(c):
    """what the loop proofs use of the number of leap years"""
    m = c.m
    start, a, b = c.int("start", 1), c.int("a", 0), c.int("b", 0)
    c.assume(n_le(a, b))
    c.canaries = False
    c.goal("a year has 365 or 366 days", n_eq(off(m, start, n_add(a, 1)), n_add(off(m, start, a), i_ite(leap(m, n_add(start, a)), 366, 365))))
    c.goal("no years, no days", n_eq(off(m, start, 0), 0))
    c.goal("every year has at least 365 days", n_le(n_add(off(m, start, a), n_mul(365, n_sub(b, a))), off(m, start, b)))


# a failing obligation of a loop cut by invariants may be the invariants' fault: only what the real code confirms is reported
CASES = [("calendar lemmas", calendar_lemmas)] + [(n, f, "helper") for n, f in (
    ("to 366 days", to_366), ("to calendar days", to_gregorian), ("there and back", round_trip), ("length", length))]
