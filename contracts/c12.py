"""C12: Oliver's precipitation concentration index."""
import z3
from pyvc.terms import *
from contracts.lib import *

MONTHS = {365: (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31), 366: (31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)}


def monthly(m, rd, n):
    out, a = [], 0
    for d in MONTHS[n]:
        out.append(R(FL.fsum(m, d, lambda k, a=a: rd((n_add(a, k),)))).val)
        a += d
    return out


def formula(n):
    def fn(c):
        v = c.array("v", (n,), nan=False)
        rd = v.reader()
        c.replay = lambda d: dict(v=d["v"], kind="1d", f=2.0)
        M = monthly(c.m, rd, n)
        tot = F(0)
        for t in M:
            tot = r_add(tot, t)
        sq = F(0)
        for t in M:
            sq = r_add(sq, r_mul(t, t))
        # (a list of another length is refused, so the length needs no symbol)

        def post(kind, r):
            if kind == "raise":
                return c.unreachable("no exception")
            c.goal("one value", And(is_arr(r, 1), n_eq(r.shape[0], 1)))
            x = R(r.get((0,)))
            nz = Not(r_eq(tot, F(0)))
            c.goal("100 times the squared monthly totals over the squared annual total",
                   Implies(nz, And(Not(x.nan), Not(x.inf), r_eq(r_mul(x.val, r_mul(tot, tot)), r_mul(F(100), sq)))))
        c.explore(lambda: c.call("indices.pci", v), post)
    return fn


def bounds(c):
    """consequences of the formula for non-negative monthly totals"""
    c.canaries = False
    M = [c.real(f"month{k + 1}").val for k in range(12)]
    for x in M:
        c.assume(x >= 0)
    S = sum(M[1:], M[0])
    Q = sum([x * x for x in M[1:]], M[0] * M[0])
    cross = [M[i] * M[j] for i in range(12) for j in range(i)]
    diff = [(M[i] - M[j]) * (M[i] - M[j]) for i in range(12) for j in range(i)]
    D, X = sum(diff[1:], diff[0]), sum(cross[1:], cross[0])
    c.goal("12 Q - S^2 is the sum of the squared differences", 12 * Q - S * S == D)
    c.goal("S^2 - Q is twice the sum of the products", S * S - Q == 2 * X)
    for i in range(12):
        for j in range(i):
            a, b = M[i], M[j]
            if i < 3:
                c.goal("squares and products of non-negative totals are not negative", z3.And((a - b) * (a - b) >= 0, a * b >= 0))
    s, q, d, x, pci = (c.real(n).val for n in ("S2", "Q", "differences", "products", "pci"))
    c.assume(z3.And(s > 0, d >= 0, x >= 0, 12 * q - s == d, s - q == 2 * x, pci * s == 100 * q))
    c.goal("between 100/12 and 100", z3.And(pci * 12 >= 100, pci <= 100))
    t = c.real("factor").val
    c.assume(t > 0)
    p2 = c.real("pci of the scaled rainfall").val
    c.assume(p2 * (t * t * s) == 100 * (t * t * q))
    c.assume(t * t > 0)
    c.goal("unchanged when all rainfall is multiplied by a positive factor", p2 == pci)


CASES = [("pci of 365 days", formula(365)), ("pci of 366 days", formula(366)), ("bounds of the formula", bounds)]
