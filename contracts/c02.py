"""C02: a missing value never becomes a number."""
from contracts.index import *
from contracts import c03, c11, c13, c15


def simp_or(a, b):
    r = Or(a, b)
    return r if isinstance(r, bool) else bsimp(r)


def narrowed(fn, words, adapt):
    """the goals of another property's case whose names contain one of the words"""
    def f(c):
        c.only, c.adapt = words, adapt
        fn(c)
    return f


def sums(c):
    m = c.m
    n = c.int("n", 0)
    scale = c.int("scale", 1)
    v = c.array("v", (n,))
    r1 = v.reader()
    c.replay = lambda d: dict(v=json_series(d["v"]), p=12, scale=d["scale"], kind="1d", what="sum")

    def post(kind, r):
        if kind == "raise":
            return c.unreachable("no exception")
        i = c.index("i", n)
        c.goal("missing exactly where the window is incomplete or contains a missing value",
               And(is_arr(r, 1), n_eq(r.shape[0], n),
                   Iff(R(r.get((i,))).nan, missing_in_window(m, lambda k: r1((k,)), i, scale))))
    c.explore(lambda: c.call("compute.sum_to_scale", v, scale), post)


def scaled(p, two_d):
    def fn(c):
        m = c.m
        scale = c.int("scale", 1)
        if two_d:
            years = c.int("years", 1)
            n = n_mul(years, p)
            v, rd = c.rows("v", years, p)
        else:
            n = c.int("n", 1)
            v = c.array("v", (n,))
            r1 = v.reader()
            rd = lambda k: r1((k,))
        c.assume(m.any(n, lambda k: Not(R(rd(k)).nan)))
        c.replay = lambda d: dict(v=json_series(sum(d["v"], []) if two_d else d["v"]), p=p, scale=d["scale"],
                                  kind="2d" if two_d else "1d", what="scale")

        def post(kind, r):
            if kind == "raise":
                return c.unreachable("no exception")
            y = c.index("y", ceil_div(m, n, p))
            s = m.ranged_int("step", 0, p - 1)
            i = n_add(n_mul(y, p), s)
            x = R(r.get((y, s))).nan
            c.goal("missing exactly where the window is incomplete or contains a missing value",
                   Implies(n_lt(i, n), Iff(x, missing_in_window(m, rd, i, scale))))
            c.goal("missing beyond the record", Implies(n_le(n, i), x))
        c.explore(lambda: c.call("compute.scale_values", v, scale, periodicity(c, p)), post)
    return fn


def index(name, dist, p, two_d, given):
    def fn(c):
        ix = Index(c, name, dist, p, two_d, given)
        m = c.m
        c.adapt = lambda r: dict(r, what=name)

        def post(kind, r):
            if kind == "raise":
                return c.unreachable("no exception")
            s = m.ranged_int("step", 0, p - 1)
            y = c.index("y", ix.rows)
            i = n_add(n_mul(y, p), s)
            c.assume(n_lt(i, ix.n))
            x = R(r.get((i,)) if r.ndim == 1 else r.get((y, s)))
            # of spei: precipitation or PET missing
            either = ix.rd if not ix.rpet else (lambda k: mk(F(0), simp_or(R(ix.rd(k)).nan, R(ix.rpet(k)).nan), False))
            bad = missing_in_window(m, either, i, ix.scale)
            c.goal("a missing total has a missing index", Implies(R(ix.total(i)).nan, x.nan))
            c.goal("a total is missing where the window is incomplete", Implies(bad, R(ix.total(i)).nan))
        c.explore(ix.run, post)
    return fn


CASES = list(HELPERS)
CASES.append(("sum_to_scale missing", sums))
for p in (12, 366):
    for two_d in (False, True):
        t = f"{PERIODS[p]}{' (years, steps)' if two_d else ''}"
        CASES.append((f"scale_values {t}", scaled(p, two_d)))
        for name in ("spi", "spei"):
            for dist in ("gamma", "pearson"):
                for given in (False, True):
                    CASES.append((f"{name} {dist} {t}{' given parameters' if given else ''}", index(name, dist, p, two_d, given)))
for name, fn, *tags in c11.CASES:
    if "helper" not in tags:
        CASES.append((name, narrowed(fn, ("missing exactly where", "no exception"), lambda r: dict(r, what="pnp"))))
for name, fn, *tags in c13.CASES:
    if "helper" in tags and not any(name == x[0] for x in CASES):
        CASES.append((name, fn) + tuple(tags))
    elif name.startswith(("pet", "eto_thornthwaite")):
        CASES.append((name, narrowed(fn, ("missing exactly where", "no exception", "heat index positive", "exponent positive", "handed on", "one call"),
                                     lambda r: dict(v=r["t"], lat=r["lat"], start=r["start"], what="pet", kind=r["kind"], f=r["f"]))))
for name, fn, *tags in c15.CASES:
    if "helper" in tags and not any(name == x[0] for x in CASES):
        CASES.append((name, fn) + tuple(tags))
    elif name in ("hargreaves", "hargreaves (years, days)"):
        CASES.append((name, narrowed(fn, ("missing exactly where", "no exception"),
                                     lambda r: dict(v=r["t"], lo=r["lo"], hi=r["hi"], lat=r["lat"], what="harg", kind=r["kind"]))))
