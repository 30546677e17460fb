"""C08: a wetter total never gets a lower index, within one call and one calendar step.

1. transform_fitted_gamma / transform_fitted_pearson, on arrays of totals: of two values of a step the larger one doesn't
   have the smaller result (real bodies; parameters fitted or given);
2. spi and spei with 1. as the contract of the transformations."""
from contracts.index import *
from contracts import c05

PARS = {"gamma": ("alpha", "beta"), "pearson": ("prob_zero", "loc", "scale", "skew")}


def precondition(dist, x1, x2, pars=None):
    """what the property asks of the two totals"""
    pre = [Not(R(x1).nan), Not(R(x2).nan), f_le(x1, x2)]
    if dist == "gamma":
        return pre + [Not(f_eq(x1, F(0))), Not(f_eq(x2, F(0)))]
    pre.append(f_le(TRACE, x1))
    if pars:
        p0, loc, scale, skew = pars
        end = f_sub(loc, f_div(f_mul(F(2), scale), skew))
        pre += [Or(And(f_le(F(0), skew), f_lt(end, x)), And(f_lt(skew, F(0)), f_lt(x, end))) for x in (x1, x2)]
    return pre


def at(r, p, y, s):
    return r.get((n_add(n_mul(y, p), s),)) if r.ndim == 1 else r.get((y, s))


def transform(dist, p, two_d, given):
    def fn(c):
        m = c.m
        callees.reshape_to_2d(c)
        fitted = None if given else callees.fitted(c, dist, p)
        if two_d:
            rows = c.int("years", 1)
            n = n_mul(rows, p)
            v, rd = c.rows("v", rows, p)
        else:
            n = c.int("n", 1)
            rows = ceil_div(m, n, p)
            v = c.array("v", (n,))
            r1 = v.reader()
            rd = lambda k: r1((k,))
        start, c0, c1 = c.int("start_year"), c.int("c0_year"), c.int("c1_year")
        c.assume(n_le(c0, c1))
        parrs = {k: c.array(k, (p,)) for k in PARS[dist]} if given else {}
        s = c.int("step", 0, p - 1)
        y1, y2 = c.int("first_row", 0), c.int("second_row", 0)
        i1, i2 = (n_add(n_mul(y, p), s) for y in (y1, y2))
        c.assume(And(n_lt(i1, n), n_lt(i2, n)))
        x1, x2 = rd(i1), rd(i2)
        for f in precondition(dist, x1, x2):
            c.assume(f)
        if given and dist == "pearson":
            p0 = parrs["prob_zero"].get((s,))
            c.assume(And(f_le(F(0), p0), f_le(p0, F(1))))
        c.replay = lambda d: dict(v=json_series(sum(d["v"], []) if two_d else d["v"]), p=p, scale=1, start=d["start_year"],
                                  c0=d["c0_year"], c1=d["c1_year"], dist=dist, kind="2d" if two_d else "1d", style="",
                                  params=given, pseed=1)

        def run():
            if fitted:
                fitted.last = None
            r = c.call(f"compute.transform_fitted_{dist}", v, start, c0, c1, periodicity(c, p), *parrs.values())
            return r, fitted and fitted.last

        def post(kind, r):
            if kind == "raise":
                return c.unreachable("no exception")
            r, fp = r
            c.goal("an array of the totals' size", And(is_arr(r), n_eq(r.size(), n) if r.ndim == 1 else n_eq(r.shape[0], rows)))
            if dist == "pearson" and (given or fp):
                for f in precondition(dist, x1, x2, [R(a.get((s,))) for a in (parrs.values() if given else fp)]):
                    c.assume(f)
            c.goal("the larger total doesn't have the smaller result", Not(f_lt(at(r, p, y2, s), at(r, p, y1, s))))
        c.explore(run, post)
    return fn


def case(index, dist, p, two_d, given):
    def fn(c):
        m = c.m
        ix = Index(c, index, dist, p, two_d, given=given)
        s = c.int("step", 0, p - 1)
        y1, y2 = c.int("first_row", 0), c.int("second_row", 0)
        i1, i2 = (n_add(n_mul(y, p), s) for y in (y1, y2))
        c.assume(And(n_lt(i1, ix.n), n_lt(i2, ix.n)))
        x1, x2 = ix.at(y1, s), ix.at(y2, s)
        for f in precondition(dist, x1, x2):
            c.assume(f)

        def monotone(args):
            x = args[0]
            if not is_arr(x) or x.kind != "f" or (x.ndim == 2 and x.shape[1] != p):
                return NotImplemented
            out = A.new(m, (ix.rows, p), "f", ix_z(x))
            a, b = at(x, p, y1, s), at(x, p, y2, s)
            m.assume(Or(Not(And(*precondition(dist, a, b))), Not(f_lt(out.get((y2, s)), out.get((y1, s))))))
            return out

        def ix_z(x):
            z = z3.Function(m.fresh_name("z"), z3.IntSort(), z3.IntSort(), z3.RealSort())
            b = z3.Function(m.fresh_name("z_nan"), z3.IntSort(), z3.IntSort(), z3.BoolSort())
            i = z3.Function(m.fresh_name("z_inf"), z3.IntSort(), z3.IntSort(), z3.BoolSort())
            return lambda k: SR(z(zi(k[0]), zi(k[1])), b(zi(k[0]), zi(k[1])), i(zi(k[0]), zi(k[1])), True)
        callees.install(c, f"compute.transform_fitted_{dist}", monotone)

        def post(kind, r):
            if kind == "raise":
                return c.unreachable("no exception")
            c.goal("the larger total doesn't have the smaller index", Not(f_lt(at(r, p, y2, s), at(r, p, y1, s))))
        c.explore(ix.run, post)
    return fn


CASES = list(HELPERS) + c05.FITTED
for dist in ("gamma", "pearson"):
    for p in (12, 366):
        for two_d in (False, True):
            for given in (False, True):
                t = f"{PERIODS[p]}{' (years, steps)' if two_d else ''}{' given parameters' if given else ''}"
                CASES.append((f"{dist} transformation {t}", transform(dist, p, two_d, given)))
                for idx in ("spi", "spei"):
                    CASES.append((f"{idx} {dist} {t}", case(idx, dist, p, two_d, given)))
