"""C18: Pearson III fits are the L-moment estimates of the sample.

The sample enters through its order statistics (trusted contract of np.sort: a function of the observed values whatever
their order), so a result stated in terms of them depends neither on missing values nor on the order."""
import z3
from pyvc.terms import *
from pyvc import arrays as A
from pyvc import npmodel
from pyvc import floats as FL
from pyvc.machine import PI
from pyvc.machine import PyRaise
from contracts import callees
from contracts.lib import *

SMALL, THIRD = F("1e-6"), F("0.333333333")


def sample(c, zeros=False):
    n = c.int("n", 0)
    v = c.array("v", (n,))
    r1 = v.reader()
    if zeros:
        r0, r1 = r1, lambda idx: SR(F(0), R(r0(idx)).nan, False, True)
        v = A.new(c.m, (n,), "f", r1, "v")
    at, count = npmodel.order_statistics(c.m, n, lambda k: r1((k,)))
    c.replay = lambda d: dict(v=json_series(d["v"]), a=1.0, b=2.0, pseed=1)
    return n, v, at, count, FL.fnanmean(c.m, n, lambda k: r1((k,)))


def moments(m, at, count):
    """first three sample L-moments from the unbiased probability weighted moments (Hosking)"""
    S = lambda k: R(at(k)).val
    N = rv(count)
    b0 = r_div(m.rsum(count, S), N)
    b1 = r_div(m.rsum(count, lambda k: r_mul(S(k), rv(k))), r_mul(N, r_sub(N, F(1))))
    b2 = r_div(m.rsum(count, lambda k: r_mul(r_mul(S(k), rv(k)), r_sub(rv(k), F(1)))), r_mul(r_mul(N, r_sub(N, F(1))), r_sub(N, F(2))))
    return lmom(b0, b1, b2)


def lmom(b0, b1, b2):
    return b0, r_sub(r_mul(F(2), b1), b0), r_add(r_sub(r_mul(F(6), b2), r_mul(F(6), b1)), b0)


def poly(x, *cs):
    """cs[0] + cs[1] x + cs[2] x^2 ..."""
    t = F(0)
    for q in reversed(cs):
        t = r_add(F(q), r_mul(x, t))
    return t


def alpha_low(t3):
    """Hosking's approximation of the shape for t3 below one third"""
    z = r_mul(r_mul(PI, F(3)), r_mul(t3, t3))
    return r_div(poly(z, "1", "0.2906"), poly(z, "0", "1", "0.1882", "0.0442"))


def alpha_high(t3):
    z = r_sub(F(1), t3)
    return r_div(poly(z, "0", "0.36067", "-0.59567", "0.25361"), poly(z, "1", "-2.78861", "2.56096", "-0.77045"))


def pearson3(m, l2, l3, alpha):
    """scale and skew from the shape"""
    u = lambda name, x: m.ufapp(name, x)
    root = u("sqrt", alpha)
    g = u("exp", r_sub(u("lgamma", alpha), u("lgamma", r_add(alpha, F("0.5")))))
    scale = r_mul(r_mul(r_mul(u("sqrt", PI), l2), g), root)
    return scale, r_ite(r_lt(l3, F(0)), r_div(F(-2), root), r_div(F(2), root))


def estimates(zeros):
    """the sample L-moments: _estimate_lmoments"""
    def fn(c):
        m = c.m
        n, v, at, count, mean = sample(c, zeros)

        def post(kind, r):
            if kind == "raise":
                c.goal("ValueError only for fewer than four observed values", And(r.name == "ValueError", n_lt(count, 4)))
                return
            c.goal("at least four observed values", n_le(4, count))
            x = [R(r.get((k,))) for k in range(3)]
            c.goal("three numbers", And(is_arr(r, 1), n_eq(r.shape[0], 3), *[And(Not(q.nan), Not(q.inf)) for q in x]))
            l1, l2, l3 = moments(m, at, count)
            if zeros:
                c.goal("only zeros: no second L-moment", r_eq(x[1].val, F(0)))
                return
            c.goal("the second L-moment", r_eq(x[1].val, l2))
            some = Not(r_eq(l2, F(0)))
            c.goal("the first L-moment", Implies(some, r_eq(x[0].val, l1)))
            c.goal("the first L-moment is the mean of the observed values", Implies(some, n_same(r.get((0,)), mean)))
            # the code gives the ratio
            c.goal("the third L-moment", Implies(some, r_eq(r_mul(x[2].val, l2), l3)))
        c.explore(lambda: c.call("lmoments._estimate_lmoments", v), post)
    return fn


def estimated(c, count):
    """_estimate_lmoments by its contract: the moments are some numbers that the sample determines"""
    m = c.m
    L = [c.real(nm) for nm in ("l1", "l2", "t3")]

    def fn(args):
        if m.decide(n_lt(count, 4)):
            raise PyRaise("ValueError", "too few values")
        return A.new(m, (3,), "f", lambda idx: c.I.choose(idx[0], L) if not isinstance(idx[0], int) else L[idx[0]])
    callees.install(c, "lmoments._estimate_lmoments", fn)
    return [R(x).val for x in L]


def fit(c):
    m = c.m
    n, v, at, count, mean = sample(c)
    l1, l2, ratio = estimated(c, count)

    def post(kind, r):
        enough = n_le(4, count)
        t3 = r_ite(r_lt(ratio, F(0)), r_neg(ratio), ratio)
        valid = And(r_lt(F(0), l2), r_lt(t3, F(1)))
        if kind == "raise":
            c.goal("ValueError only for fewer than four observed values or L-moments that no distribution has",
                   And(r.name == "ValueError", Or(Not(enough), Not(valid))))
            return
        c.goal("at least four observed values", enough)
        loc, scale, skew = (R(r.d[k]) for k in ("loc", "scale", "skew"))
        c.goal("L-moments of a distribution", valid)
        for x in (loc, scale, skew):
            c.goal("numbers", And(Not(x.nan), Not(x.inf)))
        c.goal("location is the first L-moment", r_eq(loc.val, l1))
        c.goal("normal limit for (almost) no skew", Implies(r_le(t3, SMALL), And(r_eq(scale.val, r_mul(l2, m.ufapp("sqrt", PI))), r_eq(skew.val, F(0)))))
        for name, alpha, where in (("below", alpha_low(t3), And(r_lt(SMALL, t3), r_lt(t3, THIRD))), ("above", alpha_high(t3), r_le(F(1, 3), t3))):
            if not m.decide(where):
                continue
            sc, sk = pearson3(m, l2, ratio, alpha)
            c.goal(f"scale ({name} one third)", r_eq(scale.val, sc))
            c.goal(f"skew ({name} one third)", r_eq(skew.val, sk))
        c.goal("the scale is positive", r_lt(F(0), scale.val))
        c.goal("skew has the sign of the third L-moment", And(Implies(r_lt(F(0), skew.val), r_lt(F(0), ratio)), Implies(r_lt(skew.val, F(0)), r_lt(ratio, F(0)))))
    c.explore(lambda: c.call("lmoments.fit", v), post)


def equivariance(c):
    """Consequences of the definition, by induction over the sums P_j(k) = sum of i (i-1) .. (i-j+1) x(i) for i < k: of the
    sample x + a (whose order statistics are those of x plus a) and of the sample b x, b > 0."""
    c.canaries = False
    k = c.int("k", 0)
    K = rv(k)
    x, a, b = (c.real(nm).val for nm in ("x", "shift", "factor"))
    c.assume(b > 0)
    P = [c.real(f"P{j}").val for j in range(3)]
    w = [F(1), K, r_mul(K, r_sub(K, F(1)))]
    tri = lambda K: [K, r_div(r_mul(K, r_sub(K, F(1))), F(2)), r_div(r_mul(r_mul(K, r_sub(K, F(1))), r_sub(K, F(2))), F(3))]
    add = lambda P, T: [r_add(p, r_mul(a, t)) for p, t in zip(P, T)]
    step = lambda P, x: [r_add(p, r_mul(q, x)) for p, q in zip(P, w)]
    c.goal("sums of the shifted sample: empty", And(*[r_eq(q, F(0)) for q in add([F(0)] * 3, tri(F(0)))]))
    for j, (p, q) in enumerate(zip(step(add(P, tri(K)), r_add(x, a)), add(step(P, x), tri(r_add(K, F(1)))))):
        c.goal(f"sums of the shifted sample: one value more ({j})", r_eq(p, q))
    for j, (p, q) in enumerate(zip(step([r_mul(b, p) for p in P], r_mul(b, x)), [r_mul(b, p) for p in step(P, x)])):
        c.goal(f"sums of the multiplied sample: one value more ({j})", r_eq(p, q))
    n = c.int("n", 4)
    N = rv(n)
    B = [c.real(f"b{j}").val for j in range(3)]       # P_j / (N (N-1) ..)
    D = [N, r_mul(N, r_sub(N, F(1))), r_mul(r_mul(N, r_sub(N, F(1))), r_sub(N, F(2)))]
    c.goal("weighted moments of the shifted sample", And(*[r_eq(r_mul(r_add(B[j], r_div(a, F(j + 1))), D[j]),
                                                                r_add(r_mul(B[j], D[j]), r_mul(a, tri(N)[j]))) for j in range(3)]))
    l, ls, lb = lmom(*B), lmom(*[r_add(B[j], r_div(a, F(j + 1))) for j in range(3)]), lmom(*[r_mul(b, q) for q in B])
    c.goal("a shift moves the first L-moment only", And(r_eq(ls[0], r_add(l[0], a)), r_eq(ls[1], l[1]), r_eq(ls[2], l[2])))
    c.goal("a factor multiplies all three", And(*[r_eq(q, r_mul(b, p)) for p, q in zip(l, lb)]))
    t = c.real("t").val
    for name, alpha in (("below", alpha_low(t)), ("above", alpha_high(t))):
        s1, k1 = pearson3(c.m, l[1], t, alpha)
        s2, k2 = pearson3(c.m, r_mul(b, l[1]), t, alpha)
        c.goal(f"a factor multiplies the scale and leaves the skew ({name} one third)", And(r_eq(s2, r_mul(b, s1)), r_eq(k1, k2)))


CASES = [("sample L-moments", estimates(False), "helper"), ("sample L-moments of zeros", estimates(True), "helper"), ("fit", fit),
         ("shift and factor", equivariance)]
