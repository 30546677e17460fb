"""C06: gamma SPI/SPEI is the standard normal quantile of the fitted mixed gamma."""
from contracts.index import *


def case(index, p, two_d):
    def fn(c):
        ix = Index(c, index, "gamma", p, two_d)
        m = c.m

        def post(kind, r):
            if kind == "raise":
                return c.unreachable("no exception")
            s = m.ranged_int("step", 0, p - 1)
            y = c.index("y", ix.rows)
            i = n_add(n_mul(y, p), s)
            c.assume(n_lt(i, ix.n))
            x = r.get((i,)) if r.ndim == 1 else r.get((y, s))
            c.goal("index of step i by definition", n_same(x, ix.expected(i, s)))
        c.explore(ix.run, post)
    return fn


CASES = list(HELPERS)
for idx in ("spi", "spei"):
    for p in (12, 366):
        for two_d in (False, True):
            CASES.append((f"{idx} {PERIODS[p]}{' (years, steps)' if two_d else ''}", case(idx, p, two_d)))
