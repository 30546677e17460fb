"""Inputs, execution and definitions shared by the SPI / SPEI contracts."""
import z3
from pyvc.terms import *
from pyvc.interp import PyDict
from contracts.lib import *
from contracts import callees, c03

LIM = F("3.09")
NAMES = {"gamma": ("alpha", "beta"), "pearson": ("prob_zero", "loc", "scale", "skew")}
HELPERS = [x + ("helper",) for x in c03.CASES if x[0].startswith(("sum_to_scale", "reshape_to_2d"))]


class Index:
    """symbolic inputs of one SPI or SPEI call and what the definition says about them"""

    def __init__(self, c, index, dist, p, two_d=False, given=False, finite_params=False):
        m = c.m
        self.c, self.m, self.index, self.dist, self.p, self.two_d, self.given = c, m, index, dist, p, two_d, given
        self.fit = callees.fit(c)
        callees.sum_to_scale(c)
        callees.reshape_to_2d(c)
        if two_d:
            self.years = c.int("years", 1)
            self.n = n_mul(self.years, p)
            self.shape = (self.years, p)
            self.rows = self.years
        else:
            self.n = c.int("n", 1)
            self.shape = (self.n,)
            self.rows = ceil_div(m, self.n, p)
        self.v, self.rd = self.arr("v")
        self.pet = self.rpet = None
        if index == "spei":
            self.pet, self.rpet = self.arr("pet")
        self.scale = c.int("scale", 1)
        self.start, self.c0, self.c1 = c.int("start_year"), c.int("c0_year"), c.int("c1_year")
        c.assume(n_le(self.c0, self.c1))
        self.params = self.parrs = None
        if given:
            self.parrs = {k: c.array(k, (p,), nan=not finite_params) for k in NAMES[dist]}
            self.params = PyDict(m, dict(self.parrs))
        c.replay = self.replay

    def arr(self, name):
        c = self.c
        if self.two_d:
            return c.rows(name, self.years, self.p)
        v = c.array(name, self.shape)
        r = v.reader()
        return v, lambda k: r((k,))

    def flat(self, d):
        return json_series(sum(d, []) if self.two_d else d)

    def replay(self, d):
        r = dict(v=self.flat(d["v"]), p=self.p, scale=d["scale"], start=d["start_year"], c0=d["c0_year"],
                 c1=d["c1_year"], dist=self.dist, kind="2d" if self.two_d else "1d", style="")
        if self.pet is not None:
            r["pet"] = self.flat(d["pet"])
        if self.given:
            r["pars"] = {k: json_series(d[k]) for k in NAMES[self.dist]}
        return r

    # ------------------------------------------------------------ execution
    def run(self, params="own", **kw):
        c = self.c
        d = distribution(c, self.dist)
        per = periodicity(c, self.p)
        params = self.params if params == "own" else params
        if self.index == "spi":
            return c.call("indices.spi", kw.get("v", self.v), self.scale, d, self.start, self.c0, self.c1, per, params)
        return c.call("indices.spei", kw.get("v", self.v), kw.get("pet", self.pet), self.scale, d, per, self.start, self.c0, self.c1, params)

    # ------------------------------------------------------------ definition
    def term(self, k):
        """summand of step k"""
        x = nonneg(self.rd(k))
        if self.index == "spei":
            x = f_add(f_sub(x, self.rpet(k)), F(1000))
        return x

    def total(self, i):
        """sliding total of step i, missing also beyond the record"""
        t = total(self.m, self.term, i, self.scale)
        if self.m.entails(n_lt(i, self.n)):
            return t
        return n_ite(n_lt(i, self.n), t, NAN)

    def at(self, y, s):
        return self.total(n_add(n_mul(y, self.p), s))

    def observed(self):
        return self.m.any(self.n, lambda k: Not(R(self.rd(k)).nan))

    def calibration(self):
        """first calibration row and number of rows"""
        end = n_add(self.start, n_sub(self.rows, 1))
        outside = Or(n_lt(self.c0, self.start), n_lt(end, self.c1))
        # split instead of a conditional bound: the callers reason about one of the two periods at a time
        if self.m.decide(outside):
            return 0, self.rows
        return n_sub(self.c0, self.start), n_add(n_sub(self.c1, self.c0), 1)

    def column(self, s):
        """number of calibration years and the totals of calendar step s in them"""
        a, n = self.calibration()
        return n, lambda k: self.at(n_add(a, k), s)

    # ---- gamma
    def gamma_fit(self, s):
        n, x = self.column(s)
        return gamma_fit(self.m, n, x)

    def zero_share(self, s):
        c = self.m.count(self.rows, lambda k: f_eq(self.at(k, s), F(0)))
        return f_div(R(c), R(self.rows))

    def gamma_index(self, x, s, shape, scale):
        return gamma_index(self.m, x, self.zero_share(s), shape, scale)

    # ---- Pearson
    def pearson_fit(self, s):
        """p0, loc, scale, skew"""
        n, x = self.column(s)
        return pearson_fit(self, n, x)

    def pearson_index(self, x, p0, loc, scale, skew):
        return pearson_index(self.m, x, p0, loc, scale, skew)

    def expected(self, i, s):
        """index of step i, which is in calendar step s"""
        x = self.total(i)
        if self.given:
            pars = [self.parrs[k].get((s,)) for k in NAMES[self.dist]]
        else:
            pars = self.gamma_fit(s) if self.dist == "gamma" else self.pearson_fit(s)
        if self.dist == "gamma":
            return self.gamma_index(x, s, *pars)
        return self.pearson_index(x, *pars)


def gamma_fit(m, n, x):
    """Thom's estimates from the non-zero, non-missing values"""
    nz = lambda k: n_ite(f_eq(x(k), F(0)), NAN, x(k))
    mean = FL.fnanmean(m, n, nz)
    mean_log = FL.fnanmean(m, n, lambda k: FL.log(m, nz(k)))
    a = f_sub(FL.log(m, mean), mean_log)
    shape = f_div(f_add(F(1), FL.sqrt(m, f_add(F(1), f_div(f_mul(F(4), a), F(3))))), f_mul(F(4), a))
    return shape, f_div(mean, shape)


def gamma_index(m, x, q, shape, scale):
    g = FL.gamma_cdf(m, x, shape, F(0), scale)
    z = FL.clip(FL.norm_ppf(m, f_add(q, f_mul(f_sub(F(1), q), g))), -LIM, LIM)
    return n_ite(Or(R(x).nan, f_eq(x, F(0))), NAN, z)


def pearson_fit(ix, n, x):
    m = ix.m
    arr = A.new(m, (n,), "f", lambda idx: x(idx[0]))
    obs = m.count(n, lambda k: Not(R(x(k)).nan))
    zeros = m.count(n, lambda k: f_eq(x(k), F(0)))
    few = n_lt(n_sub(obs, zeros), 4)
    d = ix.fit([arr]).d
    p0 = n_ite(n_lt(0, zeros), f_div(R(zeros), R(obs)), F(0))
    return tuple(n_ite(few, F(0), v) for v in (p0, d["loc"], d["scale"], d["skew"]))


TRACE = F("0.0005")


def pearson_index(m, x, p0, loc, scale, skew):
    """normal quantile of p0 + (1 - p0) F(x), with the special cases"""
    x, p0, loc, scale, skew = R(x), R(p0), R(loc), R(scale), R(skew)
    f = R(FL.pearson3_cdf(m, x, skew, loc, scale))
    end = R(f_sub(loc, f_div(f_mul(F(2), scale), skew)))     # loc - 2 scale / skew
    below = f_lt(x, TRACE)
    f = n_ite(And(below, f_lt(F(0), p0)), F(0), n_ite(And(below, Not(p0.nan), f_le(p0, F(0))), TRACE, f))
    f = n_ite(And(f_le(F(0), skew), f_le(x, end)), TRACE, f)
    f = n_ite(And(f_lt(skew, F(0)), f_le(end, x)), F("0.9995"), f)
    f = R(f)
    pr = FL.clip(f_add(p0, f_mul(f_sub(F(1), p0), f)), F(0), F(1))
    z = FL.clip(FL.norm_ppf(m, pr), -LIM, LIM)
    return n_ite(R(x).nan, NAN, z)
