"""C13: Thornthwaite PET follows its defining equation for each month and year."""
from pyvc.terms import *
from contracts.lib import *
from contracts import callees, c03, c14
from contracts.c15 import radians

DAYS = {False: [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31], True: [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]}
HELPERS = [x + ("helper",) for x in c03.CASES if x[0] == "reshape_to_2d 12"] + [
    x + ("helper",) for x in c14.CASES if x[0].startswith(("monthly means", "mean of daily", "daylight of"))]


def daylight(m, rad, leap, k):
    """mean daylight hours of month k: in [0, 24]"""
    return m.ufapp("daylight%d_%d" % (leap, k), rad)


def monthly_daylight(c):
    """_monthly_mean_daylight_hours (proved in C14 "monthly means"): a number of hours for each month"""
    m = c.m

    def fn(args):
        la, leap = args
        if not is_num(la) or not isinstance(leap, bool):
            return NotImplemented
        la = R(la)
        if not m.entails(And(Not(la.nan), r_le(r_neg(c14.HALF_PI), la.val), r_le(la.val, c14.HALF_PI))):
            return NotImplemented
        vals = []
        for k in range(12):
            v = daylight(m, la.val, leap, k)
            m.axiom(And(r_le(F(0), v), r_le(v, F(24))), v)
            vals.append(SR(v, False, False, True))

        def at(idx):
            i = idx[0]
            if isinstance(i, int):
                return vals[i]
            r = vals[11]
            for k in reversed(range(11)):
                r = n_ite(n_eq(i, k), vals[k], r)
            return r
        return A.new(m, (12,), "f", at)
    callees.install(c, "eto._monthly_mean_daylight_hours", fn)


def leap(y):
    d = lambda k: n_eq(n_mod(y, k), 0)
    return And(d(4), Or(Not(d(100)), d(400)))


def n_mod(a, k):
    return a % k if isinstance(a, int) else zi(a) % k


def table(vals, s):
    r = vals[-1]
    for k in reversed(range(len(vals) - 1)):
        r = n_ite(n_eq(s, k), vals[k], r)
    return r


def heat(m, rows, rd):
    """annual heat index from the monthly mean temperatures of the record"""
    def term(k):
        mean = FL.fnanmean(m, rows, lambda y: nonneg(rd(n_add(n_mul(y, 12), k))))
        return FL.power(m, f_div(mean, F(5)), F("1.514"))
    terms = [term(k) for k in range(12)]
    return FL.fsum(m, 12, lambda k: table(terms, k) if not isinstance(k, int) else terms[k])


def case(fname, two_d):
    def fn(c):
        m = c.m
        m.refine = True
        callees.reshape_to_2d(c)
        monthly_daylight(c)
        if two_d:
            rows = c.int("years", 1)
            n = n_mul(rows, 12)
            t, rd = c.rows("t", rows, 12)
        else:
            n = c.int("n", 1)
            rows = ceil_div(m, n, 12)
            t = c.array("t", (n,))
            r1 = t.reader()

            def rd(k):
                if m.entails(n_lt(k, n)):
                    return r1((k,))
                return n_ite(n_lt(k, n), r1((k,)), NAN)
        la = c.real("latitude")
        c.assume(And(r_le(F(-90), la.val), r_le(la.val, F(90))))
        start = c.int("start_year")
        # every calendar month observed at least once
        for k in range(12):
            c.assume(n_lt(0, m.count(rows, lambda y, k=k: Not(R(rd(n_add(n_mul(y, 12), k))).nan))))
        c.replay = lambda v: dict(t=json_series(sum(v["t"], []) if two_d else v["t"]), lat=v["latitude"], start=v["start_year"],
                                  kind="2d" if two_d else "1d", f="pet" if fname == "indices.pet" else "eto")

        def post(kind, r):
            if kind == "raise":
                return c.unreachable("no exception")
            c.goal("one value per month, one dimension", And(is_arr(r, 1), n_eq(r.shape[0], n)))
            y = c.index("y", rows)
            i0 = n_mul(y, 12)
            I = heat(m, rows, rd)
            a = f_add(f_add(f_sub(f_mul(F("0.000000675"), FL.power(m, I, 3)), f_mul(F("0.0000771"), FL.power(m, I, 2))),
                            f_mul(F("0.01792"), I)), F("0.49239"))
            positive = not m.decide(f_eq(I, F(0)))
            if positive:
                # stepping stones
                c.goal("heat index positive", f_lt(F(0), I))
                c.assume(f_lt(F(0), I))
                c.goal("exponent positive", f_lt(F(0), a))
                c.assume(f_lt(F(0), a))
            rad = radians(m, la)
            lp = leap(n_add(start, y))
            lp = m.decide(lp)
            for k in range(12):
                i = n_add(i0, k)
                inside = n_lt(i, n)
                x = R(r.get((i,)))
                t0 = rd(i)
                N = n_ite(lp, F(DAYS[True][k]), F(DAYS[False][k]))
                L = n_ite(lp, SR(daylight(m, rad, True, k), False, False), SR(daylight(m, rad, False, k), False, False))
                if positive:
                    base = mk(r_div(f_mul(F(10), nonneg(t0)).val, R(I).val), R(t0).nan, False)
                    e = f_mul(f_mul(f_mul(F(16), f_div(L, F(12))), f_div(N, F(30))), FL.power(m, base, a))
                else:
                    e = n_ite(R(t0).nan, NAN, F(0))
                c.goal(f"month {k + 1}: equation", Implies(inside, n_same(x, e)))
                c.goal(f"month {k + 1}: missing exactly where the temperature is", Implies(inside, Iff(x.nan, R(t0).nan)))
                c.goal(f"month {k + 1}: never negative", Implies(inside, Not(f_lt(x, F(0)))))
        c.explore(lambda: c.call(fname, t, la, start), post)
    return fn


def pet(two_d):
    """indices.pet is eto_thornthwaite of the same arguments"""
    def fn(c):
        m = c.m
        m.refine = True
        if two_d:
            rows = c.int("years", 1)
            n = n_mul(rows, 12)
            t, rd = c.rows("t", rows, 12)
        else:
            n = c.int("n", 1)
            t = c.array("t", (n,))
            r1 = t.reader()
            rd = lambda k: r1((k,))
        la = c.real("latitude")
        c.assume(And(r_le(F(-90), la.val), r_le(la.val, F(90))))
        start = c.int("start_year")
        c.assume(m.any(n, lambda k: Not(R(rd(k)).nan)))
        c.replay = lambda v: dict(t=json_series(sum(v["t"], []) if two_d else v["t"]), lat=v["latitude"], start=v["start_year"],
                                  kind="2d" if two_d else "1d", f="pet")
        calls = []

        def stub(args):
            # what the caller may rely on: an array of the input's size
            out = c.array("pet", (n,))
            calls.append((args, out))
            return out
        callees.install(c, "eto.eto_thornthwaite", stub)

        def run():
            del calls[:]
            return c.call("indices.pet", t, la, start), list(calls)

        def post(kind, r):
            if kind == "raise":
                return c.unreachable("no exception")
            r, cs = r
            if len(cs) != 1 or r is not cs[0][1]:
                return c.unreachable("the result of one call of eto_thornthwaite")
            x, l2, s2 = cs[0][0]
            c.goal("shape handed on", And(is_arr(x, 2 if two_d else 1), *[n_eq(a, b) for a, b in zip(x.shape, t.shape)]))
            i = c.index("i", n)
            idx = A.unravel(m, t.shape, i) if two_d else (i,)
            c.goal("temperatures handed on", n_same(x.get(idx), rd(i)))
            c.goal("latitude and start year handed on", And(n_same(l2, la), n_same(s2, start)))
        c.explore(run, post)
    return fn


CASES = list(HELPERS)
for two_d in (False, True):
    CASES.append((f"eto_thornthwaite{' (years, 12)' if two_d else ''}", case("eto.eto_thornthwaite", two_d)))
    CASES.append((f"pet{' (years, 12)' if two_d else ''}", pet(two_d)))
