"""C16: the Palmer soil moisture accounting conserves water.

The loops of the accounting are cut at their heads (pyvc/havoc.py); the storage carried from month to month is recognised
by its invariants, not by the names of the variables, and ghost state holds the storage that the last month ended with."""
from pyvc.terms import *
from pyvc.interp import PyDict
from pyvc.havoc import LoopContract, written_index
from pyvc import arrays as A
from contracts.lib import *
from contracts import callees, c03

TERMS = ("spdat", "pldat", "prdat", "rdat", "tldat", "etdat", "rodat", "sssdat", "ssudat")


class Cut(Exception):
    """the accounting is over"""


class Balance(LoopContract):
    def __init__(self, c, n, bottom):
        self.c, self.n, self.bottom = c, n, bottom
        self.months = 0
        self.last = None
        ok = lambda x: And(Not(x.nan), Not(x.inf))
        top = lambda x: And(ok(x), r_le(F(0), x.val), r_le(x.val, F(1)))
        low = lambda x: And(ok(x), r_le(F(0), x.val), r_le(x.val, bottom))
        past = lambda st: n_lt(self.n, position(st))     # the padding of the final year lies behind
        self.cells = [("in the surface layer", lambda x, st: top(x)),
                      ("in the lower layer", lambda x, st: low(x)),
                      ("in the surface layer within the record", lambda x, st: Or(past(st), top(x))),
                      ("in the lower layer within the record", lambda x, st: Or(past(st), low(x))),
                      ("the surface layer of the last month", lambda x, st: same(x, self.last.d["surface"])),
                      ("the lower layer of the last month", lambda x, st: same(x, self.last.d["lower"]))]

    def start(self):
        """ghost: the storage before the first month"""
        self.last = PyDict(self.c.m, {"surface": F(1), "lower": R_num(self.bottom)})

    def goal(self, name, g):
        self.c.goal(name, g)

    def month(self):
        """the dictionary of the monthly terms and the month that this iteration stored, if any"""
        m = self.c.m
        d = next((o for o in m.heap if isinstance(o, PyDict) and all(k in o.d for k in TERMS + ("precips", "pet"))), None)
        if d is None:
            raise Unsupported("the monthly terms are not where the contract looks for them")
        node = d.d["sssdat"].buf.content
        if not isinstance(node, A.Write):
            return None, None
        idx = written_index(m, node, 2)
        if idx is None:
            raise Unsupported("a month's storage is not stored as one element")
        return d, idx

    def ghost(self, loop):
        d, idx = self.month()
        if d is not None:
            self.last.d["surface"] = d.d["sssdat"].get(idx)
            self.last.d["lower"] = d.d["ssudat"].get(idx)

    def step(self, loop, stack):
        c = self.c
        d, idx = self.month()
        if d is None:
            return
        self.months += 1
        t = {k: R(d.d[k].get(idx)) for k in TERMS + ("precips", "pet")}
        before = next(s for k, s in loop.before.items() if loop.heap[k] is self.last)
        inside = n_lt(n_add(n_mul(idx[0], 12), idx[1]), self.n)

        def goal(name, f):
            c.goal(name, Implies(inside, f))
        for k in TERMS:
            goal(f"{k[:-3]} is a number", And(Not(t[k].nan), Not(t[k].inf)))
        p, e = t["precips"].val, t["pet"].val
        sp, pl, pr, r, tl, et, ro, s, u = (t[k].val for k in TERMS)
        add, sub, eq, le, z = r_add, r_sub, r_eq, r_le, F(0)
        goal("precipitation = evapotranspiration + recharge + runoff - loss", eq(p, sub(add(add(et, r), ro), tl)))
        goal("change in storage = recharge - loss", eq(sub(add(s, u), sp), sub(r, tl)))
        goal("the month starts from the storage that the last one ended with",
             eq(sp, add(R(before["surface"]).val, R(before["lower"]).val)))
        goal("surface layer within 0 and 1 inch", And(le(z, s), le(s, F(1))))
        goal("lower layer within 0 and its capacity", And(le(z, u), le(u, self.bottom)))
        goal("evapotranspiration between 0 and the potential", And(le(z, et), le(et, e)))
        goal("recharge between 0 and the potential", And(le(z, r), le(r, pr)))
        goal("loss between 0 and the potential", And(le(z, tl), le(tl, pl)))
        goal("runoff never negative", le(z, ro))
        goal("runoff only from full layers", Or(le(ro, z), eq(add(s, u), add(self.bottom, F(1)))))
        goal("potential recharge is the free capacity", eq(pr, sub(add(self.bottom, F(1)), sp)))


def R_num(v):
    return SR(v, False, False) if not isinstance(v, F) else v


def same(x, g):
    g = R(g)
    return And(Iff(x.nan, g.nan), Or(x.nan, And(Iff(x.inf, g.inf), r_eq(x.val, g.val))))


def position(stack):
    """month number at this point"""
    if len(stack) == 1:
        n, j = stack[0]
        return n_mul(j, 12)
    return n_add(n_mul(stack[0][1], 12), stack[1][1])


def months(two_d, contract=Balance):
    def fn(c):
        m = c.m
        callees.reshape_to_2d(c)
        if two_d:
            years = c.int("years", 1)
            n = n_mul(years, 12)
            p, rp = c.rows("p", years, 12, nan=False)
            e0, re_ = c.rows("e", years, 12, nan=False)
            e = A.new(m, (years, 12), "f", lambda i: nonneg(re_(A.unflat(m, i[0], i[1], 12))), "pet")
        else:
            n = c.int("n", 1)
            p, e0 = c.array("p", (n,), nan=False), c.array("e", (n,), nan=False)
            re_ = e0.reader()
            e = A.new(m, (n,), "f", lambda i: nonneg(re_(i)), "pet")
        awc = c.real("awc")
        c.assume(r_le(F(1), awc.val))
        start, c0, c1 = c.int("start"), c.int("c0"), c.int("c1")
        c.assume(n_le(c0, c1))
        b = contract(c, n, r_sub(awc.val, F(1)))
        c.I.loop_contract = b
        fl = lambda x: sum(x, []) if two_d else x

        def rep(d):
            k = 48    # the months of the counterexample over and over
            P, E = [([max(x, 0.0) for x in fl(d[y])] * k)[:k] for y in "pe"]
            return dict(what="data", P=P, E=E, awc=d["awc"], start=1950, i0=0, i1=k // 12, years=k // 12)
        c.replay = rep

        def cut(args):
            raise Cut()
        for f in ("_calc_cafec_coefficients", "_calc_zindex_factors", "_calc_kfactors"):
            callees.install(c, "palmer." + f, cut)

        def run():
            b.start()
            try:
                c.call("palmer.pdsi", p, e, awc, start, c0, c1, None)
            except Cut:
                return "accounted"

        def post(kind, r):
            if kind == "raise":
                return c.unreachable("no exception")
            c.goal("the months are accounted for", b.months > 0)
        c.explore(run, post)
    return fn


HELPERS = [x + ("helper",) for x in c03.CASES if x[0] == "reshape_to_2d 12"]
CASES = HELPERS + [("accounting", months(False), "helper"), ("accounting (years, 12)", months(True), "helper")]
