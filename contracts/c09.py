"""C09: precomputed fitting parameters reproduce the direct result.

1. on the transformations: their own parameters, passed in, give the same result; parameters of one step are used for
   that step only; a partial set of Pearson parameters is rejected (real bodies);
2. spi and spei, with 1. as the contract of the transformations: parameters fitted to the scaled series of the same data,
   under the current or the deprecated keys, give the result of a call without parameters."""
from contracts import palmerlib
from contracts.index import *
from contracts import c05

PARS = {"gamma": ("alpha", "beta"), "pearson": ("prob_zero", "loc", "scale", "skew")}
OLD = {"alpha": "alphas", "beta": "betas", "skew": "skews", "scale": "scales", "loc": "locs", "prob_zero": "probabilities_of_zero"}


def at(r, p, y, s):
    return r.get((n_add(n_mul(y, p), s),)) if r.ndim == 1 else r.get((y, s))


class Inputs:
    """totals, years and parameters of a call of a transformation"""

    def __init__(self, c, dist, p, two_d):
        self.c, self.p = c, p
        if two_d:
            self.rows = c.int("years", 1)
            self.n = n_mul(self.rows, p)
            self.v, rd = c.rows("v", self.rows, p)
        else:
            self.n = c.int("n", 1)
            self.rows = ceil_div(c.m, self.n, p)
            self.v = c.array("v", (self.n,))
        self.start, self.c0, self.c1 = c.int("start_year"), c.int("c0_year"), c.int("c1_year")
        c.assume(n_le(self.c0, self.c1))
        self.per = periodicity(c, p)
        self.args = (self.v, self.start, self.c0, self.c1, self.per)
        self.replay = lambda d: dict(v=json_series(sum(d["v"], []) if two_d else d["v"]), p=p, scale=1, start=d["start_year"],
                                     c0=d["c0_year"], c1=d["c1_year"], dist=dist, kind="2d" if two_d else "1d", style="", pseed=1)

    def element(self):
        y, s = self.c.index("y", self.rows), self.c.int("step", 0, self.p - 1)
        self.c.assume(n_lt(n_add(n_mul(y, self.p), s), self.n))
        return y, s


def transform(dist, p, two_d):
    def fn(c):
        callees.reshape_to_2d(c)
        if dist == "pearson":
            callees.fitted(c, dist, p)
        x = Inputs(c, dist, p, two_d)
        c.replay = lambda d: dict(x.replay(d), what="transform")
        f = f"compute.transform_fitted_{dist}"

        def run():
            pars = c.call(f"compute.{dist}_parameters", *x.args)
            return c.call(f, *x.args), c.call(f, *x.args, *pars)

        def post(kind, r):
            if kind == "raise":
                return c.unreachable("no exception")
            y, s = x.element()
            c.goal("its own parameters give the direct result", n_same(at(r[0], p, y, s), at(r[1], p, y, s)))
        c.explore(run, post)
    return fn


def own_step(dist, p, two_d):
    def fn(c):
        callees.reshape_to_2d(c)
        x = Inputs(c, dist, p, two_d)
        c.replay = lambda d: dict(x.replay(d), what="own")
        y, s = x.element()
        one = [c.array(k, (p,)) for k in PARS[dist]]
        other = [c.array(k + "_elsewhere", (p,)) for k in PARS[dist]]
        two = [A.new(c.m, (p,), "f", lambda i, a=a.reader(), b=b.reader(): n_ite(n_eq(i[0], s), a(i), b(i))) for a, b in zip(one, other)]
        f = f"compute.transform_fitted_{dist}"

        def post(kind, r):
            if kind == "raise":
                return c.unreachable("no exception")
            c.goal("parameters are used for their own step only", n_same(at(r[0], p, y, s), at(r[1], p, y, s)))
        c.explore(lambda: (c.call(f, *x.args, *one), c.call(f, *x.args, *two)), post)
    return fn


def partial(p, two_d):
    def fn(c):
        callees.reshape_to_2d(c)
        x = Inputs(c, "pearson", p, two_d)
        c.canaries = "raise"
        given = [c.array(k, (p,)) for k in PARS["pearson"]]
        for mask in range(1, 15):
            q = [a if mask >> i & 1 else None for i, a in enumerate(given)]
            c.replay = lambda d: dict(x.replay(d), what="partial", mask=mask)

            def post(kind, r):
                c.goal("a partial set of Pearson parameters raises ValueError", kind == "raise" and r.name == "ValueError")
            c.explore(lambda: c.call("compute.transform_fitted_pearson", *x.args, *q), post)
    return fn


def partial_spi(p, two_d):
    def fn(c):
        ix = Index(c, "spi", "pearson", p, two_d)
        c.canaries = "raise"
        given = [c.array(k, (p,)) for k in PARS["pearson"]]
        c.assume(ix.observed())
        for mask in range(1, 15):
            q = PyDict(c.m, {k: a if mask >> i & 1 else None for i, (k, a) in enumerate(zip(PARS["pearson"], given))})
            c.replay = lambda d: dict(ix.replay(d), what="partial", mask=mask, pseed=1)

            def post(kind, r):
                if kind == "value":
                    return c.unreachable("partial parameters are rejected")
                c.goal("a partial set of Pearson parameters raises ValueError", r.name == "ValueError")
            c.explore(lambda: ix.run(q), post)
    return fn


def abstract_transform(c, dist, p):
    """contracts of the parameter function and of the transformation: the transformation is a function of totals, years and
    parameters, and gives the same when its parameters are left out and when they are those of the parameter function"""
    m = c.m
    log = []

    def same_reader(a, b):
        if a is b:
            return True
        if a.ndim != b.ndim or a.kind != b.kind or any(m.prove(n_eq(x, y), 2000)[0] != "unsat" for x, y in zip(a.shape, b.shape)):
            return False
        idx = tuple(m.fresh_int("any") for _ in a.shape)
        pc = m.pc
        try:
            m.pc = pc + [zb(And(*[And(n_le(0, i), n_lt(i, n)) for i, n in zip(idx, a.shape)]))]
            return m.prove(n_same(a.get(idx), b.get(idx)), 4000)[0] == "unsat"
        finally:
            m.pc = pc

    def freeze(a):
        rd = a.reader()
        return A.new(m, a.shape, a.kind, lambda i: rd(i))

    def fresh(name, shape):
        s = [z3.IntSort()] * len(shape)
        v = z3.Function(m.fresh_name(name), *s, z3.RealSort())
        b = z3.Function(m.fresh_name(name + "_nan"), *s, z3.BoolSort())
        return A.new(m, shape, "f", lambda i: SR(v(*[zi(k) for k in i]), b(*[zi(k) for k in i]), False, True))

    def shaped(x):
        """the totals as rows"""
        if not is_arr(x) or x.kind != "f":
            return None
        if x.ndim == 1:
            return c.call("utils.reshape_to_2d", x, p) if m.entails(n_le(1, x.shape[0])) else None
        return freeze(x) if x.ndim == 2 and x.shape[1] == p else None

    def years(args):
        return [a for a in args[1:5]]

    def same_years(a, b):
        return a[3] is b[3] and all(m.entails(n_eq(i, j)) for i, j in zip(a[:3], b[:3]))

    def pars(args):
        x = shaped(args[0])
        if x is None:
            return NotImplemented
        out = tuple(fresh(k, (p,)) for k in PARS[dist])
        log.append(("pars", x, years(args), out))
        return out

    def trans(args):
        x = shaped(args[0])
        if x is None:
            return NotImplemented
        yr, given = years(args), list(args[5:])
        if any(g is None for g in given):
            if not all(g is None for g in given):
                return NotImplemented
            given = None
        if given is not None:
            if not all(is_arr(g, 1) for g in given):
                return NotImplemented
            for kind, x2, yr2, out in [r[:4] for r in log]:
                if kind == "pars" and same_years(yr, yr2) and same_reader(x, x2) and all(same_reader(a, b) for a, b in zip(given, out)):
                    given = None
                    break
        for r in log:
            if r[0] == "trans" and (r[4] is None) == (given is None) and same_reader(x, r[1]) and (
                    same_years(yr, r[2]) if given is None else all(same_reader(a, b) for a, b in zip(given, r[4]))):
                return freeze(r[3])
        out = fresh("z", x.shape)
        log.append(("trans", x, yr, out, given and [freeze(g) for g in given]))
        return freeze(out)
    callees.install(c, f"compute.transform_fitted_{dist}", trans)
    callees.install(c, f"compute.{dist}_parameters", pars)
    return log


def case(index, dist, p, two_d, deprecated=False):
    def fn(c):
        m = c.m
        ix = Index(c, index, dist, p, two_d)
        log = abstract_transform(c, dist, p)
        if deprecated:
            ix.params = PyDict(m, {k: c.array(k, (p,)) for k in PARS[dist]})
        c.replay = lambda d: dict(ix.replay(d), what="dep" if deprecated else index, pseed=1)
        per = periodicity(c, p)

        def run():
            log.clear()
            if deprecated:
                old = PyDict(m, {OLD[k]: v for k, v in ix.params.d.items()})
                return ix.run(ix.params), ix.run(old)
            if index == "spi":
                sc = c.call("compute.scale_values", ix.v, ix.scale, per)
            else:
                # totals of precipitation (negatives as zero) minus PET plus 1000
                sc = c.call("compute.sum_to_scale", A.new(m, (ix.n,), "f", lambda i: ix.term(i[0])), ix.scale)
            pars = c.call(f"compute.{dist}_parameters", sc, ix.start, ix.c0, ix.c1, per)
            d = PyDict(m, dict(zip(PARS[dist], pars)))
            return ix.run(None), ix.run(d)

        def post(kind, r):
            if kind == "raise":
                return c.unreachable("no exception")
            y, s = c.index("y", ix.rows), m.ranged_int("step", 0, p - 1)
            c.assume(n_lt(n_add(n_mul(y, p), s), ix.n))
            c.goal("index with the parameters given is the direct one" if not deprecated else "deprecated keys give the same index",
                   n_same(at(r[0], p, y, s), at(r[1], p, y, s)))
        c.explore(run, post)
    return fn


CASES = list(HELPERS)
for dist in ("gamma", "pearson"):
    for p in (12, 366):
        for two_d in (False, True):
            t = f"{PERIODS[p]}{' (years, steps)' if two_d else ''}"
            CASES.append((f"{dist} transformation {t}", transform(dist, p, two_d)))
            CASES.append((f"{dist} transformation {t} own step", own_step(dist, p, two_d)))
            if dist == "pearson":
                CASES.append((f"{dist} transformation {t} partial", partial(p, two_d)))
                CASES.append((f"spi {dist} {t} partial", partial_spi(p, two_d)))
            for idx in ("spi", "spei"):
                CASES.append((f"{idx} {dist} {t}", case(idx, dist, p, two_d)))
            CASES.append((f"spei {dist} {t} deprecated keys", case("spei", dist, p, two_d, True)))
CASES.append(("palmer.pdsi", palmerlib.reuse, "helper"))
