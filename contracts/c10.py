"""C10: frame conditions: no function changes an array, or the dictionary of fitting parameters, that it is given.

Arrays live in buffers; a view shares the buffer of the array it was made from.  A call meets its frame if every buffer passed
in has its content as before on every path out of the function, exceptional ones included."""
from pyvc.havoc import LoopContract
from contracts.index import *
from contracts import c13, c14, palmerlib


def same(x, y):
    x, y = R(x), R(y)
    return And(Iff(x.nan, y.nan), Or(x.nan, And(Iff(x.inf, y.inf), r_eq(x.val, y.val))))


def frame(c, thunk, arrays, params=None, what=None):
    """arrays: {name: input array}; params: the dictionary passed in"""
    m = c.m
    before = {k: a.buf.content for k, a in arrays.items()}
    given = dict(params.d) if params is not None else None

    def post(kind, r):
        for k, a in arrays.items():
            b = a.buf.content
            if b is before[k]:
                c.goal(f"{k} unchanged", True)
                continue
            idx = tuple(c.index("i", n) for n in a.shape)
            c.goal(f"{k} unchanged", same(b.at(idx), before[k].at(idx)))
        if given is not None:
            c.goal("dictionary unchanged", set(params.d) == set(given) and all(params.d[k] is given[k] for k in given))
    c.canaries = "raise"
    c.explore(thunk, post)


OLD = {"alpha": "alphas", "beta": "betas", "skew": "skews", "scale": "scales", "loc": "locs", "prob_zero": "probabilities_of_zero"}


def index(name, dist, p, two_d, given, deprecated=0):
    """deprecated: 1: all parameters under their old keys, 2: every second one"""
    def fn(c):
        x = Index(c, name, dist, p, two_d, given)
        if deprecated:
            x.params = PyDict(c.m, {OLD[k] if deprecated == 1 or i % 2 else k: a for i, (k, a) in enumerate(x.parrs.items())})
        real_helpers(c)
        arrays = {"the data": x.v}
        if x.pet is not None:
            arrays["the PET"] = x.pet
        for k, a in (x.parrs or {}).items():
            arrays["parameter " + k] = a
        c.replay = lambda d: dict(c10(x.replay(d)), what=name + ("_p" if given else ""), deprecated=deprecated)
        frame(c, x.run, arrays, x.params)
    return fn


def c10(r):
    r.setdefault("pet", [50.0] * len(r["v"]))
    r.update(pseed=1, style="")
    return r


def real_helpers(c):
    """aliasing matters: the helpers themselves, not their contracts"""
    for q in ("compute.sum_to_scale", "utils.reshape_to_2d"):
        c.I.contracts.pop(q, None)


def data(c, p, two_d, name="v"):
    if two_d:
        years = c.int("years", 1)
        return c.rows(name, years, p)[0]
    return c.array(name, (c.int("n", 1),))


def flat(v):
    return json_series(sum(v, []) if v and isinstance(v[0], list) else v)


def simple(qual, p, two_d, what, args, pars=()):
    """args(c, v, per, arrays by name): the arguments of the call"""
    def fn(c):
        callees.fit(c)
        v = data(c, p, two_d)
        ps = {k: c.array(k, (p,)) for k in pars}
        start, c0, c1 = c.int("start_year"), c.int("c0_year"), c.int("c1_year")
        c.assume(n_le(c0, c1))
        scale = c.int("scale", 1)
        c.replay = lambda d: c10(dict(v=flat(d["v"]), p=p, scale=d["scale"], start=d["start_year"], c0=d["c0_year"], c1=d["c1_year"],
                                      dist="gamma", kind="2d" if two_d else "1d", what=what))
        a = args(v=v, scale=scale, per=periodicity(c, p), years=(start, c0, c1), ps=[ps[k] for k in pars])
        frame(c, lambda: c.call(qual, *a), dict({"the data": v}, **{"parameter " + k: x for k, x in ps.items()}))
    return fn


def pet(fname, two_d):
    def fn(c):
        callees.reshape_to_2d(c)
        c13.monthly_daylight(c)
        real_helpers(c)
        t = data(c, 12, two_d, "t")
        la = c.real("latitude")
        start = c.int("start_year")
        rows = t.shape[0] if two_d else ceil_div(c.m, t.shape[0], 12)
        rd = t.reader()

        def at(y, k):
            if two_d:
                return rd((y, k))
            i = n_add(n_mul(y, 12), k)
            return n_ite(n_lt(i, t.shape[0]), rd((i,)), NAN)
        for k in range(12):    # every calendar month observed, as in C13
            c.assume(n_lt(0, c.m.count(rows, lambda y, k=k: Not(R(at(y, k)).nan))))
        c.assume(And(r_le(F(-90), la.val), r_le(la.val, F(90))))
        c.replay = lambda d: c10(dict(v=[(x + 10) * 4 for x in flat(d["t"])], p=12, scale=1, start=1990, c0=1990, c1=1991, dist="gamma",
                                      kind="2d" if two_d else "1d", what="pet" if fname == "indices.pet" else "eto"))
        frame(c, lambda: c.call(fname, t, la, start), {"the temperatures": t})
    return fn


def hargreaves(two_d):
    def fn(c):
        if two_d:
            years = c.int("years", 1)
            lo, hi, t = (c.rows(k, years, 366)[0] for k in ("tmin", "tmax", "tmean"))
        else:
            n = c.int("n", 1)
            lo, hi, t = (c.array(k, (n,)) for k in ("tmin", "tmax", "tmean"))
        la = c.real("latitude")
        c.replay = lambda d: c10(dict(v=[(x + 10) * 4 for x in flat(d["tmean"])], p=366, scale=1, start=1990, c0=1990, c1=1991, dist="gamma",
                                      kind="2d" if two_d else "1d", what="harg"))
        frame(c, lambda: c.call("eto.eto_hargreaves", lo, hi, t, la),
              {"the minimum temperatures": lo, "the maximum temperatures": hi, "the mean temperatures": t})
    return fn


class Loops(LoopContract):
    """no candidates: whatever a loop changes is arbitrary afterwards"""
    def applies(self, fname, n):
        return not isinstance(n, int) or n >= 12


def cut(c):
    c.m.int_first, c.m.cap_ms = True, 150
    c.I.loop_contract = Loops()


def palmer(two_d, given):
    def fn(c):
        if two_d:
            years = c.int("years", 1)
            p, e = c.rows("p", years, 12)[0], c.rows("e", years, 12)[0]
        else:
            n = c.int("n", 1)
            p, e = c.array("p", (n,)), c.array("e", (n,))
        awc = c.real("awc")
        c.assume(r_le(F(1), awc.val))
        start, c0, c1 = c.int("start"), c.int("c0"), c.int("c1")
        arrays = {"the precipitation": p, "the PET": e}
        d = None
        if given:
            ps = {k: c.array(k, (12,)) for k in ("alpha", "beta", "gamma", "delta")}
            arrays.update({"parameter " + k: a for k, a in ps.items()})
            d = PyDict(c.m, ps)
        c.replay = lambda r: c10(dict(v=[1.0] * 24, p=12, scale=1, start=1990, c0=1990, c1=1991, dist="gamma", kind="1d", what="palmer"))
        palmerlib.install_parts(c, arrays)
        frame(c, lambda: c.call("palmer.pdsi", p, e, awc, start, c0, c1, d), arrays, d)
    return fn


def lm(c):
    cut(c)
    v = data(c, 12, False)
    c.replay = lambda d: c10(dict(v=flat(d["v"]), p=12, scale=1, start=1990, c0=1990, c1=1991, dist="gamma", kind="1d", what="lm"))
    frame(c, lambda: c.call("lmoments.fit", v), {"the data": v})


def days(qual, what):
    def fn(c):
        cut(c)
        v = data(c, 12, False)
        start = c.int("start", 1, 9000)
        years = c.int("years", 1, 900)
        c.replay = lambda d: c10(dict(v=[1.0] * 24, p=12, scale=1, start=1990, c0=1990, c1=1991, dist="gamma", kind="1d", what=what))
        args = (v, start, years) if what == "t366" else (v, start)
        frame(c, lambda: c.call(qual, *args), {"the data": v})
    return fn


def pci(n):
    def fn(c):
        v = c.array("v", (n,))
        c.replay = lambda d: c10(dict(v=[1.0] * 24, p=12, scale=1, start=1990, c0=1990, c1=1991, dist="gamma", kind="1d", what="pci"))
        frame(c, lambda: c.call("indices.pci", v), {"the data": v})
    return fn


def count(c):
    v = data(c, 12, True)
    u = c.rows("u", c.int("years2", 1), 12)[0]
    c.replay = lambda d: c10(dict(v=flat(d["v"]), p=12, scale=1, start=1990, c0=1990, c1=1991, dist="gamma", kind="2d", what="count"))
    frame(c, lambda: (c.call("utils.count_zeros_and_non_missings", v), c.call("utils.sign_change", v, u)), {"the data": v, "the other": u})


CASES, PALMER = [], []
for dist in ("gamma", "pearson"):
    for k, what in ((1, "deprecated keys"), (2, "deprecated and new keys")):
        CASES.append((f"spei {dist} monthly given parameters under {what}", index("spei", dist, 12, False, True, k)))
for two_d in (False, True):
    sh = " (years, steps)" if two_d else ""
    for p in (12, 366):
        per = PERIODS[p]
        for given in (False, True):
            g = " given parameters" if given else ""
            for dist in ("gamma", "pearson"):
                for name in ("spi", "spei"):
                    CASES.append((f"{name} {dist} {per}{sh}{g}", index(name, dist, p, two_d, given)))
                CASES.append((f"transform_fitted_{dist} {per}{sh}{g}",
                              simple("compute.transform_fitted_" + dist, p, two_d, "tg" if dist == "gamma" else "tp",
                                     lambda v, scale, per, years, ps: (v,) + years + (per,) + tuple(ps), NAMES[dist] if given else ())))
        for dist in ("gamma", "pearson"):
            CASES.append((f"{dist}_parameters {per}{sh}",
                          simple(f"compute.{dist}_parameters", p, two_d, "gpar" if dist == "gamma" else "ppar",
                                 lambda v, scale, per, years, ps: (v,) + years + (per,))))
        CASES.append((f"scale_values {per}{sh}", simple("compute.scale_values", p, two_d, "scale", lambda v, scale, per, years, ps: (v, scale, per))))
        CASES.append((f"reshape_to_2d {per}{sh}", simple("utils.reshape_to_2d", p, two_d, "rs", lambda v, scale, per, years, ps, p=p: (v, p))))
        if not two_d:
            CASES.append((f"percentage_of_normal {per}", simple("indices.percentage_of_normal", p, two_d, "pnp",
                                                                lambda v, scale, per, years, ps: (v, scale) + years + (per,))))
    CASES.append((f"pet{sh}", pet("indices.pet", two_d)))
    CASES.append((f"eto_thornthwaite{sh}", pet("eto.eto_thornthwaite", two_d)))
    CASES.append((f"eto_hargreaves{sh}", hargreaves(two_d)))
    for given in (False, True):
        PALMER.append((f"palmer.pdsi{sh}{' given parameters' if given else ''}", palmer(two_d, given), "helper"))
CASES += PALMER + palmerlib.PARTS
CASES += [("sum_to_scale", simple("compute.sum_to_scale", 12, False, "sum", lambda v, scale, per, years, ps: (v, scale))),
          ("lmoments.fit", lm), ("transform_to_366day", days("utils.transform_to_366day", "t366")),
          ("transform_to_gregorian", days("utils.transform_to_gregorian", "tgreg")), ("pci 365", pci(365)), ("pci 366", pci(366)),
          ("count_zeros_and_non_missings, sign_change", count)]
