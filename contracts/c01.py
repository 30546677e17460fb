"""C01: SPI and SPEI values are aligned with the input and within [-3.09, 3.09]."""
from pyvc.terms import *
from pyvc.interp import PyDict
from contracts.lib import *
from contracts import callees
from contracts.index import HELPERS

LIM = F("3.09")


def parameters(c, dist, p):
    names = ("alpha", "beta") if dist == "gamma" else ("prob_zero", "loc", "scale", "skew")
    arrs = {k: c.array(k, (p,)) for k in names}
    return arrs, PyDict(c.m, dict(arrs))


def case(index, dist, p, two_d, given):
    def fn(c):
        m = c.m
        callees.fit(c)
        callees.sum_to_scale(c)
        callees.reshape_to_2d(c)
        if two_d:
            years = c.int("years", 1)
            n = n_mul(years, p)
            shape = (years, p)
        else:
            n = c.int("n", 1)
            shape = (n,)

        def arr(name):
            v = c.array(name, shape)
            r = v.reader()
            return v, (lambda k: r(A.unravel(m, shape, k))) if two_d else (lambda k: r((k,)))
        v, rd = arr("v")
        scale = c.int("scale", 1)
        start, c0, c1 = c.int("start_year"), c.int("c0_year"), c.int("c1_year")
        c.assume(n_le(c0, c1))
        params = parameters(c, dist, p)[1] if given else None

        def replay(d):
            r = dict(v=json_series(sum(d["v"], []) if two_d else d["v"]), p=p, scale=d["scale"], start=d["start_year"], c0=d["c0_year"],
                     c1=d["c1_year"], dist=dist, kind="2d" if two_d else "1d", style="")
            if index == "spei":
                r["pet"] = json_series(sum(d["pet"], []) if two_d else d["pet"])
            if given:
                r["pars"] = {k: json_series(d[k]) for k in (("alpha", "beta") if dist == "gamma" else ("prob_zero", "loc", "scale", "skew"))}
            return r
        c.replay = replay
        if index == "spi":
            run = lambda: c.call("indices.spi", v, scale, distribution(c, dist), start, c0, c1, periodicity(c, p), params)
        else:
            pet = arr("pet")[0]
            run = lambda: c.call("indices.spei", v, pet, scale, distribution(c, dist), periodicity(c, p), start, c0, c1, params)

        def post(kind, r):
            if kind == "raise":
                return c.unreachable("no exception")
            if not is_arr(r):
                return c.goal("an array", False)
            observed = m.any(n, lambda k: Not(R(rd(k)).nan))
            i = c.index("i", n)
            if r.ndim == 1:
                c.goal("one value per time step", n_eq(r.shape[0], n))
                x = R(r.get((i,)))
            else:
                c.goal("1-D", Not(observed))
                c.goal("one value per time step", And(r.ndim == 2, n_eq(r.shape[0], years), n_eq(r.shape[1], p)))
                x = R(r.get(A.unravel(m, shape, i)))
            c.goal("missing or within the limits", Or(x.nan, And(Not(x.inf), r_le(-LIM, x.val), r_le(x.val, LIM))))
            c.goal("no observed value: returned unchanged", Implies(Not(observed), x.nan))
        c.explore(run, post)
    return fn


CASES = list(HELPERS)
for idx in ("spi", "spei"):
    for dist in ("gamma", "pearson"):
        for p in (12, 366):
            for two_d in (False, True):
                for given in (False, True):
                    CASES.append((f"{idx} {dist} {PERIODS[p]}{' (years, steps)' if two_d else ''}{' given parameters' if given else ''}",
                                  case(idx, dist, p, two_d, given)))
