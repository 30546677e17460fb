"""C15: Hargreaves PET follows its defining equation for each day."""
from pyvc.terms import *
from contracts.lib import *
from contracts import callees, c03, c14
from contracts.c14 import between, fin

HELPERS = [x + ("helper",) for x in c03.CASES if x[0] == "reshape_to_2d 366"] + [
    x + ("helper",) for x in c14.CASES if x[0] in ("declination", "sunset hour angle")]


def radians(m, la):
    """latitude in radians"""
    return r_mul(la.val, r_div(m.pi if hasattr(m, "pi") else c14.PI, F(180)))


def sunset_spec(m, rad, day):
    x = r_neg(r_mul(m.ufapp("tan", rad), m.ufapp("tan", c14.declination_spec(m, day))))
    y = r_ite(r_lt(x, F(-1)), F(-1), r_ite(r_lt(F(1), x), F(1), x))
    return m.ufapp("acos", y)


def ra_spec(m, rad, day):
    """FAO-56 extraterrestrial radiation: 24 * 60 / pi * 0.082 * dr * (ws sin sin + cos cos sin ws)"""
    PI = c14.PI
    de = c14.declination_spec(m, day)
    ws = sunset_spec(m, rad, day)
    dr = r_add(F(1), r_mul(F("0.033"), m.ufapp("cos", r_mul(r_div(r_mul(F(2), PI), F(365)), rv(day)))))
    sin, cos = (lambda t: m.ufapp("sin", t)), (lambda t: m.ufapp("cos", t))
    inner = r_add(r_mul(r_mul(ws, sin(rad)), sin(de)), r_mul(r_mul(cos(rad), cos(de)), sin(ws)))
    return r_mul(r_mul(r_mul(r_div(F(1440), PI), F("0.082")), dr), inner)


def equation(m, tmin, tmax, tmean, ra):
    f = f_mul(f_add(tmean, F("17.8")), FL.sqrt(m, f_sub(tmax, tmin)))
    return f_mul(f_mul(f_mul(F("0.0023"), f), F("0.408")), SR(ra, False, False))


def case(two_d):
    def fn(c):
        m = c.m
        m.refine = True
        callees.reshape_to_2d(c)
        if two_d:
            rows = c.int("years", 1)
            n = n_mul(rows, 366)
            lo, rlo = c.rows("lo", rows, 366)
            hi, rhi = c.rows("hi", rows, 366)
            t, rt = c.rows("t", rows, 366)
        else:
            n = c.int("n", 1)
            rows = ceil_div(m, n, 366)
            lo, hi, t = (c.array(k, (n,)) for k in ("lo", "hi", "t"))
            a, b, d = lo.reader(), hi.reader(), t.reader()
            rlo, rhi, rt = (lambda k: a((k,))), (lambda k: b((k,))), (lambda k: d((k,)))
        la = c.real("latitude")
        c.assume(And(r_le(F(-90), la.val), r_le(la.val, F(90))))
        fl = lambda x: json_series(sum(x, []) if two_d else x)
        c.replay = lambda v: dict(t=fl(v["t"]), lo=fl(v["lo"]), hi=fl(v["hi"]), lat=v["latitude"], kind="2d" if two_d else "1d")

        def post(kind, r):
            if kind == "raise":
                return c.unreachable("no exception")
            c.goal("one value per day, one dimension", And(is_arr(r, 1), n_eq(r.shape[0], n)))
            y = c.index("y", rows)
            s = m.ranged_int("step", 0, 365)
            i = n_add(n_mul(y, 366), s)
            c.assume(n_lt(i, n))
            x = R(r.get((i,)))
            ra = ra_spec(m, radians(m, la), n_add(s, 1))
            e = equation(m, rlo(i), rhi(i), rt(i), ra)
            c.goal("missing exactly where a temperature is missing or the range is negative",
                   Iff(x.nan, Or(R(rlo(i)).nan, R(rhi(i)).nan, R(rt(i)).nan, f_lt(rhi(i), rlo(i)))))
            c.goal("equation", n_same(x, e))
        c.explore(lambda: c.call("eto.eto_hargreaves", lo, hi, t, la), post)
    return fn


def sizes(c):
    """arrays of different sizes are rejected"""
    ns = [c.int(k, 1) for k in ("n1", "n2", "n3")]
    arrs = [c.array(k, (n,)) for k, n in zip(("lo", "hi", "t"), ns)]
    la = c.real("latitude")
    c.assume(Or(Not(n_eq(ns[0], ns[1])), Not(n_eq(ns[1], ns[2]))))

    def post(kind, r):
        c.goal("different sizes raise ValueError", kind == "raise" and r.name == "ValueError")
    c.canaries = "raise"
    c.explore(lambda: c.call("eto.eto_hargreaves", *arrs, la), post)


CASES = HELPERS + [("hargreaves", case(False)), ("hargreaves (years, days)", case(True)), ("hargreaves sizes", sizes)]
