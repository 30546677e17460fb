"""C14: solar geometry within its physical bounds."""
from pyvc.terms import *
from pyvc.machine import PI

DECL_MAX = r_mul(F("23.45"), r_div(PI, F(180)))
HALF_PI = r_div(PI, F(2))


def fin(x):
    x = R(x)
    return And(Not(x.nan), Not(x.inf))


def between(lo, x, hi):
    x = R(x)
    return And(fin(x), r_le(lo, x.val), r_le(x.val, hi))


def lat(c, name="latitude"):
    v = c.real(name)
    c.assume(And(r_le(r_neg(HALF_PI), v.val), r_le(v.val, HALF_PI)))
    return v


def degrees(v):
    return dict(what="lat", lat=min(90.0, max(-90.0, v["latitude"] * 57.29577951308232)))


def declination_spec(m, day):
    """0.409 sin(2 pi day / 365 - 1.39)"""
    return r_mul(F("0.409"), m.ufapp("sin", r_sub(r_mul(r_div(r_mul(F(2), PI), F(365)), rv(day)), F("1.39"))))


def daylight_spec(m, la, day):
    """24/pi acos(-tan(latitude) tan(declination)), the cosine limited to [-1, 1]"""
    x = r_neg(r_mul(m.ufapp("tan", la.val), m.ufapp("tan", declination_spec(m, day))))
    y = r_ite(r_lt(x, F(-1)), F(-1), r_ite(r_lt(F(1), x), F(1), x))
    return r_mul(r_div(F(24), PI), m.ufapp("acos", y))


def declination(c):
    day = c.int("day", 1, 366)
    c.replay = lambda v: dict(what="dec", d=v["day"])

    def post(kind, v):
        if kind == "raise":
            return c.unreachable("accepted for every day 1..366")
        c.goal("within +-23.45 degrees", between(r_neg(DECL_MAX), v, DECL_MAX))
        c.goal("formula", r_eq(R(v).val, declination_spec(c.m, day)))
    c.explore(lambda: c.call("eto._solar_declination", day), post)


def declination_rejects(c):
    day = c.int("day")
    c.assume(Or(n_lt(day, 1), n_lt(366, day)))

    def post(kind, v):
        c.goal("other days raise ValueError", kind == "raise" and v.name == "ValueError")
    c.explore(lambda: c.call("eto._solar_declination", day), post)
    c.live += 1


def sunset(c):
    la = lat(c)
    de = c.real("declination")
    c.assume(And(r_le(r_neg(DECL_MAX), de.val), r_le(de.val, DECL_MAX)))
    m = c.m

    def both():
        return c.call("eto._sunset_hour_angle", la, de), c.call("eto._sunset_hour_angle", f_neg(la), de), \
            c.call("eto._sunset_hour_angle", F(0), de)

    def post(kind, v):
        if kind == "raise":
            return c.unreachable("accepted for every latitude and declination")
        a, b, z = (R(x) for x in v)
        c.goal("in [0, pi]", between(F(0), a, PI))
        p = r_mul(m.ufapp("tan", la.val), m.ufapp("tan", de.val))
        c.goal("polar day: pi", Implies(r_le(F(1), p), r_eq(a.val, PI)))
        c.goal("polar night: 0", Implies(r_le(p, F(-1)), r_eq(a.val, F(0))))
        c.goal("otherwise acos(-tan tan)", Implies(And(r_lt(F(-1), p), r_lt(p, F(1))), r_eq(a.val, m.ufapp("acos", r_neg(p)))))
        c.goal("equator: pi/2", r_eq(z.val, HALF_PI))
        c.goal("opposite latitudes add up to pi", r_eq(r_add(a.val, b.val), PI))
    c.explore(both, post)


def daylight(c):
    h = c.real("angle")
    c.assume(And(r_le(F(0), h.val), r_le(h.val, PI)))

    def post(kind, v):
        if kind == "raise":
            return c.unreachable("accepted for every hour angle")
        c.goal("in [0, 24]", between(F(0), v, F(24)))
        c.goal("24/pi times the angle", r_eq(r_mul(R(v).val, PI), r_mul(F(24), h.val)))
    c.explore(lambda: c.call("eto._daylight_hours", h), post)


def hours(c, la, day):
    return c.call("eto._daylight_hours", c.call("eto._sunset_hour_angle", la, c.call("eto._solar_declination", day)))


def composed(c):
    la = lat(c)
    day = c.int("day", 1, 366)
    c.replay = lambda v: degrees(v)

    def post(kind, v):
        if kind == "raise":
            return c.unreachable("no valid latitude or day rejected")
        a, b, z = v
        c.goal("daylight in [0, 24] hours", between(F(0), a, F(24)))
        c.goal("24/pi acos(-tan tan)", r_eq(R(a).val, daylight_spec(c.m, la, day)))
        c.goal("12 hours at the equator", r_eq(R(z).val, F(12)))
        c.goal("opposite latitudes add up to 24 hours", r_eq(r_add(R(a).val, R(b).val), F(24)))
    c.explore(lambda: (hours(c, la, day), hours(c, f_neg(la), day), hours(c, F(0), day)), post)


def monthly(leap):
    def fn(c):
        la = lat(c)
        c.replay = degrees

        def post(kind, v):
            if kind == "raise":
                return c.unreachable("accepted for every latitude")
            c.goal("12 monthly means", And(len(v.shape) == 1, n_eq(v.shape[0], 12)))
            days = [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
            first = 1
            for k in range(12):
                s = F(0)
                for d in range(first, first + days[k]):
                    s = r_add(s, daylight_spec(c.m, la, d))
                x = R(v.get((k,)))
                c.goal(f"month {k + 1}: mean daylight of its days", And(fin(x), r_eq(x.val, r_div(s, F(days[k])))))
                first += days[k]
        c.explore(lambda: c.call("eto._monthly_mean_daylight_hours", la, leap), post)
    return fn


def mean_lemma(c):
    """the mean of 28 to 31 numbers in [0, 24] is in [0, 24]: with the goals of "daylight of a latitude and day" the monthly
    means of the other cases are"""
    vals = []
    for k in range(31):
        v = c.real(f"day{k}")
        c.assume(And(r_le(F(0), v.val), r_le(v.val, F(24))))
        vals.append(v.val)
    for n in (28, 29, 30, 31):
        s = vals[0]
        for v in vals[1:n]:
            s = r_add(s, v)
        c.goal(f"mean of {n} days in [0, 24] hours", between(F(0), mk(r_div(s, F(n))), F(24)))
    c.live += 1


CASES = [("declination", declination), ("declination outside the year", declination_rejects), ("sunset hour angle", sunset),
         ("daylight", daylight), ("daylight of a latitude and day", composed),
         ("mean of daily values", mean_lemma), ("monthly means", monthly(False)), ("monthly means, leap year", monthly(True))]
