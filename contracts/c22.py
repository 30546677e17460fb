"""C22: invalid arguments raise ValueError on every path, for all values of the arguments."""
from pyvc import arrays as A
from pyvc.terms import *
from contracts.lib import *

SUB = ("ValueError", "UnicodeError", "JSONDecodeError", "LinAlgError_ValueError")
CASES = []


def case(name):
    """a case that calls fn(c) -> thunk, which must raise ValueError"""
    def deco(build):
        def fn(c):
            c.canaries = "raise"
            thunk = build(c)
            c.replay = lambda d: dict(what="bad", name=name, seed=1)

            def post(kind, r):
                c.goal("raises ValueError", kind == "raise" and r.name in SUB)
            c.explore(thunk, post)
        CASES.append((name, fn))
        return build
    return deco


def observed1(c, rd, n):
    c.assume(c.m.any(n, lambda k: Not(R(rd((k,))).nan)))


def series(c, name="v", n=None):
    n = c.int("n_" + name, 1) if n is None else n
    v = c.array(name, (n,))
    observed1(c, v.reader(), n)
    return v


def cube(c):
    a, b, d = c.int("a", 1), c.int("b", 1), c.int("d", 1)
    v = c.array("v", (a, b, d))
    seen(c, v, (a, b, d))
    return v


def seen(c, v, shape):
    """one element is not missing"""
    n = 1
    for s in shape:
        n = n_mul(n, s)
    idx = A.unravel(c.m, shape, c.index("seen", n))
    c.assume(Not(R(v.reader()(idx)).nan))


def matrix(c, bad, name="v"):
    """(rows, k) with k not in bad"""
    a, k = c.int("rows", 1), c.int("columns", 1)
    for x in bad:
        c.assume(Not(n_eq(k, x)))
    v = c.array(name, (a, k))
    seen(c, v, (a, k))
    return v


def years(c):
    s, a, b = c.int("start"), c.int("c0"), c.int("c1")
    c.assume(n_le(a, b))
    return s, a, b


def dist(c, name="gamma"):
    return distribution(c, name)


UNKNOWN = (None, "monthly", "daily", 12, 366, 0)


for per in (12, 366):
    for d in ("gamma", "pearson"):
        @case(f"spi of a 3-D array ({PERIODS[per]}, {d})")
        def _(c, per=per, d=d):
            v, (s, a, b) = cube(c), years(c)
            return lambda: c.call("indices.spi", v, c_scale(c), dist(c, d), s, a, b, periodicity(c, per))


def c_scale(c):
    if not hasattr(c, "scale"):
        c.scale = c.int("scale", 1)
    return c.scale


for bad in UNKNOWN:
    for d in ("gamma", "pearson"):
        @case(f"spi with periodicity {bad!r} ({d})")
        def _(c, bad=bad, d=d):
            v, (s, a, b), k = series(c), years(c), c_scale(c)
            return lambda: c.call("indices.spi", v, k, dist(c, d), s, a, b, bad)

        @case(f"spei with periodicity {bad!r} ({d})")
        def _(c, bad=bad, d=d):
            n = c.int("n", 1)
            v, w, (s, a, b), k = series(c, "v", n), c.array("w", (n,)), years(c), c_scale(c)
            # some total is observed
            i = c.index("i", n)
            c.assume(And(Not(R(total(c.m, lambda j: f_sub(v.reader()((j,)), w.reader()((j,))), i, k)).nan)))
            return lambda: c.call("indices.spei", v, w, k, dist(c, d), bad, s, a, b)

    @case(f"percentage_of_normal with periodicity {bad!r}")
    def _(c, bad=bad):
        v, (s, a, b), k = series(c), years(c), c_scale(c)
        return lambda: c.call("indices.percentage_of_normal", v, k, s, a, b, bad)

    @case(f"scale_values with periodicity {bad!r}")
    def _(c, bad=bad):
        v, k = series(c), c_scale(c)
        return lambda: c.call("compute.scale_values", v, k, bad)

    for f in ("gamma_parameters", "pearson_parameters", "transform_fitted_gamma", "transform_fitted_pearson"):
        @case(f"{f} with periodicity {bad!r}")
        def _(c, bad=bad, f=f):
            v, (s, a, b) = series(c), years(c)
            return lambda: c.call("compute." + f, v, s, a, b, bad)


for bad in (None, "gamma", "pearson", 3):
    for per in (12, 366):
        @case(f"spi with distribution {bad!r} ({PERIODS[per]})")
        def _(c, bad=bad, per=per):
            v, (s, a, b), k = series(c), years(c), c_scale(c)
            return lambda: c.call("indices.spi", v, k, bad, s, a, b, periodicity(c, per))

        @case(f"spei with distribution {bad!r} ({PERIODS[per]})")
        def _(c, bad=bad, per=per):
            n = c.int("n", 1)
            v, w, (s, a, b), k = series(c, "v", n), c.array("w", (n,)), years(c), c_scale(c)
            return lambda: c.call("indices.spei", v, w, k, bad, periodicity(c, per), s, a, b)


for per in (12, 366):
    for d in ("gamma", "pearson"):
        @case(f"spei of unequal sizes ({PERIODS[per]}, {d})")
        def _(c, per=per, d=d):
            n, k2 = c.int("n", 1), c.int("n_w", 1)
            c.assume(Not(n_eq(n, k2)))
            v, w, (s, a, b), k = series(c, "v", n), c.array("w", (k2,)), years(c), c_scale(c)
            return lambda: c.call("indices.spei", v, w, k, dist(c, d), periodicity(c, per), s, a, b)

    @case(f"scale_values of a 3-D array ({PERIODS[per]})")
    def _(c, per=per):
        v, k = cube(c), c_scale(c)
        return lambda: c.call("compute.scale_values", v, k, periodicity(c, per))

    for f in ("gamma_parameters", "pearson_parameters", "transform_fitted_gamma", "transform_fitted_pearson"):
        @case(f"{f} of a 3-D array ({PERIODS[per]})")
        def _(c, per=per, f=f):
            v, (s, a, b) = cube(c), years(c)
            return lambda: c.call("compute." + f, v, s, a, b, periodicity(c, per))

        @case(f"{f} of a wrong second dimension ({PERIODS[per]})")
        def _(c, per=per, f=f):
            v, (s, a, b) = matrix(c, (12, 366)), years(c)
            return lambda: c.call("compute." + f, v, s, a, b, periodicity(c, per))

    @case(f"percentage_of_normal with a scale below 1 ({PERIODS[per]})")
    def _(c, per=per):
        v, (s, a, b), k = series(c), years(c), c.int("scale", None, None)
        c.assume(n_lt(k, 1))
        return lambda: c.call("indices.percentage_of_normal", v, k, s, a, b, periodicity(c, per))

    @case(f"percentage_of_normal without a scale ({PERIODS[per]})")
    def _(c, per=per):
        v, (s, a, b) = series(c), years(c)
        return lambda: c.call("indices.percentage_of_normal", v, None, s, a, b, periodicity(c, per))

    @case(f"percentage_of_normal calibrated before the data ({PERIODS[per]})")
    def _(c, per=per):
        v, (s, a, b), k = series(c), years(c), c_scale(c)
        c.assume(n_lt(a, s))
        return lambda: c.call("indices.percentage_of_normal", v, k, s, a, b, periodicity(c, per))

    @case(f"percentage_of_normal calibrated for longer than the data ({PERIODS[per]})")
    def _(c, per=per):
        v, (s, a, b), k = series(c), years(c), c_scale(c)
        c.assume(n_lt(v.shape[0], n_mul(n_add(n_sub(b, a), 1), per)))
        return lambda: c.call("indices.percentage_of_normal", v, k, s, a, b, periodicity(c, per))

    @case(f"reshape_to_2d of a wrong second dimension ({per})")
    def _(c, per=per):
        v = matrix(c, (per,))
        return lambda: c.call("utils.reshape_to_2d", v, per)

    @case(f"reshape_to_2d of a 3-D array ({per})")
    def _(c, per=per):
        v = cube(c)
        return lambda: c.call("utils.reshape_to_2d", v, per)


def latitudes(c, limit=F(90)):
    lat = c.real("latitude")
    c.assume(Or(r_lt(lat.val, -limit), r_lt(limit, lat.val)))
    return lat


@case("pet at a latitude out of range")
def _(c):
    v, lat, y = series(c), latitudes(c), c.int("start")
    return lambda: c.call("indices.pet", v, lat, y)


@case("pet at a latitude that is not a number")
def _(c):
    v, y = series(c), c.int("start")
    return lambda: c.call("indices.pet", v, NAN, y)


@case("pet without a latitude")
def _(c):
    v, y = series(c), c.int("start")
    return lambda: c.call("indices.pet", v, None, y)


@case("pet of (years, 12) temperatures at a latitude out of range")
def _(c):
    n = c.int("years", 1)
    v, lat, y = c.array("v", (n, 12)), latitudes(c), c.int("start")
    seen(c, v, (n, 12))
    return lambda: c.call("indices.pet", v, lat, y)


@case("eto_thornthwaite at a latitude out of range")
def _(c):
    v, lat, y = series(c), latitudes(c), c.int("start")
    return lambda: c.call("eto.eto_thornthwaite", v, lat, y)


@case("eto_thornthwaite at a latitude that is not a number")
def _(c):
    v, y = series(c), c.int("start")
    return lambda: c.call("eto.eto_thornthwaite", v, NAN, y)


@case("eto_thornthwaite of a wrong second dimension")
def _(c):
    v, y, lat = matrix(c, (12,)), c.int("start"), c.real("latitude")
    return lambda: c.call("eto.eto_thornthwaite", v, lat, y)


@case("eto_thornthwaite of a 3-D array")
def _(c):
    v, y, lat = cube(c), c.int("start"), c.real("latitude")
    return lambda: c.call("eto.eto_thornthwaite", v, lat, y)


@case("pet of a wrong second dimension")
def _(c):
    v, y, lat = matrix(c, (12,)), c.int("start"), c.real("latitude")
    return lambda: c.call("indices.pet", v, lat, y)


@case("eto_hargreaves of unequal sizes")
def _(c):
    a, b, d = c.int("n_lo", 1), c.int("n_hi", 1), c.int("n_t", 1)
    c.assume(Or(Not(n_eq(a, b)), Not(n_eq(b, d))))
    lo, hi, t, lat = c.array("lo", (a,)), c.array("hi", (b,)), c.array("t", (d,)), c.real("latitude")
    return lambda: c.call("eto.eto_hargreaves", lo, hi, t, lat)


@case("eto_hargreaves at a latitude out of range")
def _(c):
    n, lat = c.int("n", 1), latitudes(c)
    lo, hi, t = c.array("lo", (n,)), c.array("hi", (n,)), c.array("t", (n,))
    return lambda: c.call("eto.eto_hargreaves", lo, hi, t, lat)


@case("eto_hargreaves of a wrong second dimension")
def _(c):
    a, k, lat = c.int("rows", 1), c.int("columns", 1), c.real("latitude")
    c.assume(Not(n_eq(k, 366)))
    lo, hi, t = (c.array(x, (a, k)) for x in ("lo", "hi", "t"))
    return lambda: c.call("eto.eto_hargreaves", lo, hi, t, lat)


@case("pci of a wrong number of days")
def _(c):
    n = c.int("n", 1)
    c.assume(And(Not(n_eq(n, 365)), Not(n_eq(n, 366))))
    v = series(c, "v", n)
    return lambda: c.call("indices.pci", v)


for n in (365, 366):
    @case(f"pci of {n} days with a missing value")
    def _(c, n=n):
        v = c.array("v", (n,))
        i = c.m.ranged_int("missing", 0, n - 1)
        j = c.m.ranged_int("observed", 0, n - 1)
        rd = v.reader()
        c.assume(And(R(rd((i,))).nan, Not(R(rd((j,))).nan)))
        return lambda: c.call("indices.pci", v)


@case("transform_to_366day of a 2-D array")
def _(c):
    v, y, k = matrix(c, ()), c.int("start", 1, 9999), c.int("years", 1)
    return lambda: c.call("utils.transform_to_366day", v, y, k)


@case("transform_to_gregorian of a 2-D array")
def _(c):
    v, y = matrix(c, ()), c.int("start", 1, 9999)
    return lambda: c.call("utils.transform_to_gregorian", v, y)


@case("transform_to_gregorian of a partial year")
def _(c):
    n, y = c.int("n", 1), c.int("start", 1, 9999)
    c.assume(Not(n_eq(zi(n) % 366, 0)))
    v = c.array("v", (n,))
    return lambda: c.call("utils.transform_to_gregorian", v, y)


@case("reshape_to_divs_years_months of a 1-D array")
def _(c):
    v = c.array("v", (c.int("n", 1),))
    return lambda: c.call("utils.reshape_to_divs_years_months", v)


@case("reshape_to_divs_years_months of a wrong second dimension")
def _(c):
    v = matrix(c, (12,))
    return lambda: c.call("utils.reshape_to_divs_years_months", v)


@case("reshape_to_divs_years_months of a wrong third dimension")
def _(c):
    a, b, d = c.int("a", 1), c.int("b", 1), c.int("d", 1)
    c.assume(Not(n_eq(d, 12)))
    v = c.array("v", (a, b, d))
    return lambda: c.call("utils.reshape_to_divs_years_months", v)


@case("sign_change of unequal sizes")
def _(c):
    a, b = c.int("a", 0), c.int("b", 0)
    c.assume(Not(n_eq(a, b)))
    return lambda: c.call("utils.sign_change", c.array("x", (a,)), c.array("y", (b,)))


@case("pdsi of unequal sizes")
def _(c):
    n, k = c.int("n", 1), c.int("n_w", 1)
    c.assume(Not(n_eq(n, k)))
    v, w, (s, a, b), awc = series(c, "v", n), c.array("w", (k,)), years(c), c.real("awc")
    return lambda: c.call("palmer.pdsi", v, w, awc, s, a, b)


@case("pdsi of a wrong second dimension")
def _(c):
    r, k = c.int("rows", 1), c.int("columns", 1)
    c.assume(Not(n_eq(k, 12)))
    v, w, (s, a, b), awc = c.array("v", (r, k)), c.array("w", (r, k)), years(c), c.real("awc")
    seen(c, v, (r, k))
    return lambda: c.call("palmer.pdsi", v, w, awc, s, a, b)


@case("lmoments.fit of fewer than four observed values")
def _(c):
    n = c.int("n", 0)
    v = c.array("v", (n,))
    rd = v.reader()
    c.assume(n_lt(c.m.count(n, lambda k: Not(R(rd((k,))).nan)), 4))
    return lambda: c.call("lmoments.fit", v)


@case("solar declination of a day outside 1 to 366")
def _(c):
    d = c.int("day")
    c.assume(Or(n_lt(d, 1), n_lt(366, d)))
    return lambda: c.call("eto._solar_declination", d)


@case("Periodicity of an unknown name")
def _(c):
    return lambda: c.I.call(c.I.getattr(c.fn("compute.Periodicity"), "from_string"), ["weekly"], {})
