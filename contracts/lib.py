"""Specification functions shared by the contracts (independent of the code under contract)."""
from pyvc.terms import *
from pyvc import floats as FL
from pyvc import arrays as A

PERIODS = {12: "monthly", 366: "daily"}


def periodicity(c, p):
    return c.fn("compute.Periodicity").members[PERIODS[p]]


def distribution(c, name):
    return c.fn("indices.Distribution").members[name]


def total(m, rd, i, scale):
    """sum of the elements i-scale+1 .. i, missing if that starts before the record or any of them is missing"""
    s = FL.fsum(m, scale, lambda k: rd(n_add(n_sub(i, n_sub(scale, 1)), k)))
    return n_ite(n_lt(i, n_sub(scale, 1)), NAN, s)


def missing_in_window(m, rd, i, scale):
    """the window of element i starts before the record or contains a missing value"""
    w = m.any(scale, lambda k: R(rd(n_add(n_sub(i, n_sub(scale, 1)), k))).nan)
    return Or(n_lt(i, n_sub(scale, 1)), w)


def nonneg(x):
    """negative values as zero, missing stays missing"""
    x = R(x)
    return mk(r_ite(r_lt(x.val, F(0)), F(0), x.val), x.nan, x.inf)


def jnum(x):
    return float("nan") if x is None else x


def ceil_div(m, n, p):
    return A.divmod_const(m, n_add(n, p - 1), p)[0]


def json_series(v):
    """series of a counterexample for harness/props.py (None: missing)"""
    return [float("nan") if x is None else x for x in v]


def is_arr(v, nd=None):
    return isinstance(v, A.Arr) and (nd is None or v.ndim == nd)
