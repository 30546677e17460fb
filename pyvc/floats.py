"""Elementary functions on the engine's floats, and reductions over sequences."""
import z3
from .terms import *
from .machine import PyRaise, PI, ikey, tkey

DOMAIN_STD = None


def isnp(*xs):
    return any(isinstance(x, SR) and x.np for x in xs)


def tag(x, np):
    """the same float, marked as coming from numpy"""
    if np and isinstance(x, SR) and not x.np:
        return SR(x.val, x.nan, x.inf, True, None)
    return x


def isnan(x):
    if is_b(x) or is_i(x):
        return False
    return R(x).nan


def isinf(x):
    if is_b(x) or is_i(x):
        return False
    x = R(x)
    return And(Not(x.nan), x.inf)


def isfinite(x):
    if is_b(x) or is_i(x):
        return True
    x = R(x)
    return And(Not(x.nan), Not(x.inf))


def simp(c):
    return c if isinstance(c, bool) else bsimp(c)


def pi_times(x):
    """PI * x as a raw real"""
    return r_mul(PI, x)


# ---------------------------------------------------------------- elementary functions
def _uf1(m, name, x, bad, at_inf=None, at_ninf=None):
    """x SR; bad(val) -> NaN condition; infinite arguments give at_inf / at_ninf (number or None for NaN)"""
    x = R(x)
    nan = Or(x.nan, And(Not(x.inf), bad(x.val)))
    v = m.ufapp(name, x.val)
    res = SR(v, simp(nan), False)
    if x.inf is not False:
        pos = at_inf if at_inf is not None else NAN
        neg = at_ninf if at_ninf is not None else NAN
        res = n_ite(And(Not(x.nan), x.inf), n_ite(r_lt(x.val, 0), neg, pos), mk(res.val, res.nan, res.inf))
        res = R(res)
    return mk(res.val, res.nan, res.inf)


def log(m, x, name="log"):
    x = R(x)
    if concrete(x.val) and x.nan is False and x.inf is False and x.val == 1:
        return F(0)
    z = simp(And(Not(x.nan), Not(x.inf), r_eq(x.val, 0)))
    r = R(_uf1(m, name, x, lambda v: r_lt(v, 0), INF, None))
    if z is False:
        return mk(r.val, r.nan, r.inf)
    return mk(r_ite(z, F(-1), r.val), And(Not(z), r.nan), Or(z, r.inf))


def exp(m, x):
    x = R(x)
    if concrete(x.val) and x.val == 0 and x.nan is False and x.inf is False:
        return F(1)
    return _uf1(m, "exp", x, lambda v: False, INF, F(0))


def sqrt(m, x):
    x = R(x)
    if concrete(x.val) and x.nan is False and x.inf is False:
        for k in (0, 1, 4, 9, 16, 25):
            if x.val == k:
                return F({0: 0, 1: 1, 4: 2, 9: 3, 16: 4, 25: 5}[k])
    return _uf1(m, "sqrt", x, lambda v: r_lt(v, 0), INF, None)


def trig(m, name, x):
    return _uf1(m, name, x, lambda v: False)


def acos(m, x):
    return _uf1(m, "acos", x, lambda v: Or(r_lt(v, -1), r_lt(1, v)))


def power(m, a, b):
    """numpy power of floats"""
    if isinstance(b, bool):
        b = int(b)
    if isinstance(b, F) and b.denominator == 1:
        b = int(b)
    if isinstance(b, int):
        if b == 0:
            return F(1)
        if 0 < b <= 6:
            r = a
            for _ in range(b - 1):
                r = n_mul(r, a)
            return r
        if -6 <= b < 0:
            return f_div(F(1), power(m, a, -b))
    if isinstance(b, F) and b == F(1, 2):
        return sqrt(m, a)
    a, b = R(a), R(b)
    if b.inf is not False or a.inf is not False:
        raise_if = Or(a.inf, b.inf)
        if simp(raise_if) is not False:
            # infinite operands: leave the value open
            nan0 = m.fresh_bool("pw")
            v = m.ufapp("pow", a.val, b.val)
            return SR(z3.If(zb(raise_if), m.fresh_real("pw"), v),
                      z3.If(zb(raise_if), nan0, zb(Or(a.nan, b.nan, r_lt(a.val, 0)))), False)
    v = m.ufapp("pow", a.val, b.val)
    bz = simp(And(Not(b.nan), r_eq(b.val, 0)))
    if bz is not False and m.entails(Not(bz), 500):
        bz = False
    neg = simp(r_lt(a.val, 0))
    if neg is not False and m.entails(Not(neg)):
        neg = False
    if neg is not False:
        if concrete(b.val):
            negnan = neg
        else:
            key = ("pownan", tkey(b.val))
            if key not in m.cache:
                m.cache[key] = (m.fresh_bool("nonint"), b.val)
            negnan = And(neg, m.cache[key][0])
    else:
        negnan = False
    nan = Or(And(a.nan, Not(bz)), b.nan, negnan)
    zinf = simp(And(r_eq(a.val, 0), r_lt(b.val, 0)))
    if zinf is not False and m.entails(Not(zinf), 500):
        zinf = False
    val = r_ite(zinf, F(1), v)
    return mk(val, nan, And(Not(Or(a.nan, b.nan)), zinf))


def fabs(x):
    if is_b(x) or is_i(x):
        x = x if not is_b(x) else n_add(x, 0)
        return i_ite(n_lt(x, 0), n_neg(x), x)
    x = R(x)
    return mk(r_ite(r_lt(x.val, 0), r_neg(x.val), x.val), x.nan, x.inf)


def sign(x):
    if is_b(x) or is_i(x):
        return i_ite(n_lt(x, 0), -1, i_ite(n_eq(x, 0), 0, 1))
    y = R(x)
    s = r_ite(r_lt(y.val, 0), F(-1), r_ite(And(Not(y.inf), r_eq(y.val, 0)), F(0), F(1)))
    return mk(s, y.nan, False)


def clip(x, lo, hi):
    """numpy clip of one element (NaN bounds not supported)"""
    if is_r(x):
        y = R(x)
        if y.inf is False and all(b is None or isinstance(b, (int, F)) for b in (lo, hi)):
            v = y.val
            if lo is not None:
                v = r_ite(r_lt(v, F(lo)), F(lo), v)
            if hi is not None:
                v = r_ite(r_lt(F(hi), v), F(hi), v)
            return mk(v, y.nan, False)
    if lo is not None:
        x = n_ite(n_lt(x, lo), lo, x)
    if hi is not None:
        x = n_ite(n_lt(hi, x), hi, x)
    return x


def npmax(a, b):
    if num_kind(a, b) != "r":
        return n_ite(n_lt(a, b), b, a)
    x = n_ite(f_lt(a, b), b, a)
    nan = Or(isnan(a), isnan(b))
    x = R(x)
    return mk(x.val, nan, x.inf)


def npmin(a, b):
    if num_kind(a, b) != "r":
        return n_ite(n_lt(b, a), b, a)
    x = R(n_ite(f_lt(b, a), b, a))
    nan = Or(isnan(a), isnan(b))
    return mk(x.val, nan, x.inf)


def to_int_trunc(m, x):
    """int(x) of a finite float"""
    if is_i(x) or is_b(x):
        return n_add(x, 0)
    if isinstance(x, F):
        return int(x)
    x = R(x)
    if m.decide(x.nan):
        raise PyRaise("ValueError", "cannot convert float NaN to integer")
    if m.decide(x.inf):
        raise PyRaise("OverflowError", "cannot convert float infinity to integer")
    if x.q is not None:
        a, b = x.q
        if m.decide(n_le(0, a)):
            from .arrays import divmod_const
            return divmod_const(m, a, b)[0]
        from .arrays import divmod_const
        return n_neg(divmod_const(m, n_neg(a), b)[0])
    if concrete(x.val):
        return int(x.val)
    if m.decide(r_le(0, x.val)):
        return isimp(z3.ToInt(x.val))
    return n_neg(isimp(z3.ToInt(-x.val)))


# ---------------------------------------------------------------- distribution functions of scipy
def norm_ppf(m, p, loc=F(0), scale=F(1)):
    p = R(p)
    v = m.ufapp("ppf", p.val)
    fin = Not(p.inf)
    nan = Or(p.nan, p.inf, r_lt(p.val, 0), r_lt(1, p.val))
    z, o = simp(And(fin, r_eq(p.val, 0))), simp(And(fin, r_eq(p.val, 1)))
    r = mk(r_ite(z, F(-1), r_ite(o, F(1), v)), nan, And(Not(nan), Or(z, o)))
    if not (isinstance(loc, F) and loc == 0 and isinstance(scale, F) and scale == 1):
        r = f_add(f_mul(r, scale), loc)
    return r


def norm_cdf(m, x):
    return _uf1(m, "ncdf", x, lambda v: False, F(1), F(0))


def gamma_cdf(m, x, a, loc=F(0), scale=F(1)):
    """NaN unless shape and scale are positive"""
    x, a, scale, loc = R(x), R(a), R(scale), R(loc)
    if not (concrete(loc.val) and loc.val == 0 and loc.nan is False and loc.inf is False):
        x = R(f_sub(x, loc))
    infs = simp(Or(a.inf, scale.inf))
    nan = Or(x.nan, a.nan, scale.nan, r_le(a.val, 0), r_le(scale.val, 0))
    v = m.ufapp("gcdf", x.val, a.val, scale.val)
    if infs is not False:
        # an infinite shape or scale: value left open in [0, 1] or NaN, but a function of the arguments
        fl = [z3.If(zb(c), z3.RealVal(1), z3.RealVal(0)) for c in (a.inf, scale.inf, r_lt(a.val, 0), r_lt(scale.val, 0))]
        w = m.ufapp("gcdfinf", x.val, *fl)
        m.axiom(z3.And(w >= -1, w <= 1), w)
        v = r_ite(infs, w, v)
        nan = Or(nan, And(infs, zr(w) < 0))
    if x.inf is not False:
        v = r_ite(And(x.inf, r_lt(x.val, 0)), F(0), r_ite(x.inf, F(1), v))
    return mk(v, nan, False)


def pearson3_cdf(m, x, skew, loc=F(0), scale=F(1)):
    x, skew, loc, scale = R(x), R(skew), R(loc), R(scale)
    for t in (skew, loc, scale):
        if simp(t.inf) is not False:
            raise Unsupported("infinite Pearson parameter")
    nan = Or(x.nan, skew.nan, loc.nan, scale.nan, r_le(scale.val, 0))
    v = m.ufapp("pcdf", x.val, skew.val, loc.val, scale.val)
    if x.inf is not False:
        v = r_ite(And(x.inf, r_lt(x.val, 0)), F(0), r_ite(x.inf, F(1), v))
    return mk(v, nan, False)


# ---------------------------------------------------------------- reductions
def kind_of(xs):
    return num_kind(*xs)


def fsum(m, n, f, skipnan=False):
    """sum of numbers f(k), 0 <= k < n, numpy float semantics"""
    body = m.probe_body(f)
    if is_b(body):
        return m.count(n, f)
    if is_i(body):
        return m.isum(n, f)
    b = R(body)

    def val(k):
        x = R(f(k))
        v = x.val
        if x.inf is not False:
            v = r_ite(simp(x.inf), F(0), v)
        if x.nan is not False:
            v = r_ite(simp(x.nan), F(0), v)
        return v
    total = m.rsum(n, val)
    nan = False
    if not skipnan and b.nan is not False:
        nan = m.any(n, lambda k: simp(R(f(k)).nan))
    inf = False
    if b.inf is not False and simp(And(Not(b.nan), b.inf)) is not False:
        pinf = m.any(n, lambda k: (lambda x: simp(And(Not(x.nan), x.inf, r_lt(0, x.val))))(R(f(k))))
        ninf = m.any(n, lambda k: (lambda x: simp(And(Not(x.nan), x.inf, r_lt(x.val, 0))))(R(f(k))))
        nan = Or(nan, And(pinf, ninf))
        inf = Or(pinf, ninf)
        total = r_ite(pinf, F(1), r_ite(ninf, F(-1), total))
    return mk(total, nan, inf)


def fmean(m, n, f):
    s = fsum(m, n, f)
    return f_div(s, R_of_int(n))


def R_of_int(n):
    return R(n) if not isinstance(n, int) else F(n)


def fnanmean(m, n, f):
    s = fsum(m, n, f, skipnan=True)
    body = m.probe_body(f)
    if not is_r(body):
        return fmean(m, n, f)
    c = m.count(n, lambda k: simp(Not(R(f(k)).nan)))
    s = R(s)
    if m.entails(n_lt(0, c)):
        return mk(r_div(s.val, rv(c)), s.nan, s.inf)
    z = simp(n_eq(c, 0))
    q = R(f_div(s, R_of_int(c)))
    return mk(q.val, Or(z, q.nan), And(Not(z), q.inf))


def extremum(m, n, f, which, skipnan):
    """min / max of a sequence: a constant known to be attained and to bound"""
    body = m.probe_body(f)
    if isinstance(n, int) and n <= 12 and not skipnan:
        if n == 0:
            raise PyRaise("ValueError", "zero-size array to reduction operation")
        v = f(0)
        for k in range(1, n):
            v = (npmax if which == "max" else npmin)(v, f(k))
        return v
    raise Unsupported("minimum or maximum of an array")
