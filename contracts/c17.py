"""C17: Palmer indices follow the NOAA procedure.

The published procedure (Palmer 1965; NOAA's pdi.f) is a recursion over the months with a backtracking assignment.  It is
proved piecewise, each piece from an arbitrary state:
 1. a month of the recursion: Z, the probability that the spell has ended and X1, X2, X3 from those of the month before,
    and whether the month's index is assigned or left pending;
 2. the assignment of the pending months by backtracking, and of PHDI and PMDI;
 3. the coefficients and the climatic characteristic from the sums of the calibration years.
The state carried from month to month is that of the procedure; the loop over the months is cut by invariants."""
import z3
from pyvc.terms import *
from pyvc import floats as FL
from pyvc.interp import PyDict
from pyvc.havoc import LoopContract
from pyvc import arrays as A
from contracts.lib import *
from contracts import callees
from contracts import c16
from contracts.c16 import position


def same(x, y):
    x, y = R(x), R(y)
    return And(Iff(x.nan, y.nan), Or(x.nan, And(Iff(x.inf, y.inf), r_eq(x.val, y.val))))


MONTHLY = ("precips", "pet", "spdat", "pldat", "prdat", "cp", "z", "ppr", "px1", "px2", "px3", "x", "pdsi", "phdi", "wplm")
PENDING = ("sx", "sx1", "sx2", "sx3", "indexj", "indexm")
CHANGED = ("cp", "z", "ppr", "px1", "px2", "px3", "x", "pdsi", "phdi", "wplm", "indexj", "indexm", "sx1", "sx2", "sx3")
COEFF = ("alpha", "beta", "gamma", "delta", "ak")


def lit(s):
    return F(s)


def case_spec(pro, x1, x2, x3):
    """PMDI: the established spell weighted with the one that may replace it"""
    share = f_div(pro, F(100))
    mix = lambda o: f_add(f_mul(f_sub(F(1), share), x3), f_mul(share, o))
    ab = lambda x: n_ite(n_lt(x, F(0)), f_neg(x), x)
    return n_ite(f_eq(x3, F(0)), n_ite(n_lt(ab(x2), ab(x1)), x1, x2),
                 n_ite(Or(f_le(pro, F(0)), f_le(F(100), pro)), x3, n_ite(f_le(x3, F(0)), mix(x1), mix(x2))))


def recursion(m, z, x1, x2, x3, v, pro, decide):
    """one month: (px1, px2, px3, ppr, pv, x, how); how: 1, 2, 3 the series that is assigned, 0 pending"""
    add, sub, mul, div, le, lt, eq = f_add, f_sub, f_mul, f_div, f_le, f_lt, f_eq
    O = F(0)
    go = lambda x: add(mul(lit("0.897"), x), div(z, F(3)))

    def spell():        # the established spell goes on
        return O, O, go(x3), O, O, go(x3), 3

    def incipient(px3, ppr, pv):
        px1 = n_ite(lt(O, go(x1)), go(x1), O)
        px2 = n_ite(lt(go(x2), O), go(x2), O)
        if decide(eq(px3, O)):
            if decide(le(F(1), px1)):
                return O, None, px1, ppr, pv, px1, 1
            if decide(le(px2, F(-1))):
                return px1, O, px2, ppr, pv, px2, 2
            if decide(eq(px1, O)):
                return px1, px2, px3, ppr, pv, px2, 2
            if decide(eq(px2, O)):
                return px1, px2, px3, ppr, pv, px1, 1
        return px1, px2, px3, ppr, pv, px3, 0

    def ending(pv, ze):
        q = ze if decide(eq(pro, F(100))) else add(ze, v)
        ppr = mul(div(pv, q), F(100))
        if decide(le(F(100), ppr)):
            return incipient(O, F(100), pv)
        return incipient(go(x3), ppr, pv)

    def wet():
        pv = add(sub(z, lit("0.15")), n_ite(lt(v, O), v, O))
        if decide(le(O, pv)):
            return spell()
        return ending(pv, add(mul(lit("-2.691"), x3), lit("1.5")))

    def dry():
        pv = add(add(z, lit("0.15")), n_ite(lt(O, v), v, O))
        if decide(le(pv, O)):
            return spell()
        return ending(pv, sub(mul(lit("-2.691"), x3), lit("1.5")))
    if decide(Or(eq(pro, F(100)), eq(pro, O))):
        if decide(And(le(lit("-0.5"), x3), le(x3, lit("0.5")))):
            return incipient(O, O, O)
        if decide(lt(O, x3)):
            return spell() if decide(le(lit("0.15"), z)) else wet()
        return spell() if decide(le(z, lit("-0.15"))) else dry()
    return wet() if decide(lt(O, x3)) else dry()


class Months(LoopContract):
    def __init__(self, c, data, given):
        self.c, self.data, self.given = c, data, given
        self.steps = 0
        k = lambda key, st: And(n_le(0, self.data.d[key]), n_le(self.data.d[key], position(st)))
        self.t = c.int("t", 0)
        self.relations = [("pending months are months of the past", lambda loop, st: And(k("k8", st), k("k8max", st), n_le(self.data.d["k8"], self.data.d["k8max"]))),
                          ("the pending months are the last ones", lambda loop, st: self.pending(position(st), n_lt(self.t, self.data.d["k8"]))),
                          ("months to be finished are months of the record", lambda loop, st: self.recorded())]

    def applies(self, fname, n):
        return True

    def pending(self, now, cond):
        """an arbitrary pending month"""
        d = self.data.d
        q, r = A.divmod_const(self.c.m, n_add(n_sub(now, d["k8"]), self.t), 12)
        return Implies(cond, And(r_eq(R(d["indexj"].get((self.t,))).val, rv(q)), r_eq(R(d["indexm"].get((self.t,))).val, rv(r))))

    def recorded(self):
        """an arbitrary month of those finished at the end"""
        d = self.data.d
        j, k = self.last.d["year"], self.last.d["month"]
        return Implies(n_lt(self.t, d["k8max"]), And(r_eq(R(d["indexj"].get((self.t,))).val, rv(j)), r_eq(R(d["indexm"].get((self.t,))).val, rv(k)),
                                                     n_le(0, j), n_lt(j, d["n_years"]), n_le(0, k), n_le(k, 11)))

    def ghost(self, loop):
        """the month that is entered at position t of the pending ones"""
        if len(self.c.I.loop_stack) < 2:
            return
        (_, y, _), (_, k, _) = self.c.I.loop_stack[-2:]
        k8 = next(s for i, s in loop.before.items() if loop.heap[i] is self.data)["k8"]
        self.last.d["year"] = n_ite(n_eq(k8, self.t), y, self.last.d["year"])
        self.last.d["month"] = n_ite(n_eq(k8, self.t), k, self.last.d["month"])

    def fixed(self, loop):
        d = self.data
        cells = [(d, k, k != "pro") for k in ("v", "pro", "x1", "x2", "x3", "k8", "k8max", "pv", "ze", "uw", "ud", "year", "month", "iass")]
        return cells + [(self.last, k, True) for k in ("assigned", "year", "month")], [(d.d[k], k != "ppr") for k in CHANGED]

    def start(self):
        self.last = PyDict(self.c.m, {"assigned": 0, "year": 0, "month": 0})

    def goal(self, name, g):
        self.c.goal(name, g)

    def step(self, loop, stack):
        if len(stack) < 2:
            return
        c, m, d = self.c, self.c.m, self.data.d
        self.steps += 1
        i = (stack[0][1], stack[1][1])
        before = next(s for k, s in loop.before.items() if loop.heap[k] is self.data)
        bufs = {id(loop.heap[k]): s for k, s in loop.before.items()}
        x1, x2, x3, v, pro = (before[k] for k in ("x1", "x2", "x3", "v", "pro"))
        g = {k: a.get(i) for k, a in self.given.items() if k in MONTHLY}
        co = {k: a.get((i[1],)) for k, a in self.given.items() if k in COEFF}
        cafec = f_sub(f_add(f_add(f_mul(co["alpha"], g["pet"]), f_mul(co["beta"], g["prdat"])), f_mul(co["gamma"], g["spdat"])),
                      f_mul(co["delta"], g["pldat"]))
        z = f_mul(co["ak"], f_sub(g["precips"], cafec))
        now = lambda k: d[k].get(i)
        c.goal("Z is the departure from the climatically appropriate precipitation times K", same(now("z"), z))
        z = now("z")
        px1, px2, px3, ppr, pv, x, how = recursion(m, z, x1, x2, x3, v, pro, m.decide)
        if px2 is None:
            px2 = bufs[id(d["px2"].buf)].at(i)      # as it was (zero)
        for k, e in (("px1", px1), ("px2", px2), ("px3", px3), ("ppr", ppr), ("x", x)):
            c.goal(f"{k} of the month", same(now(k), e))
        for k, e in (("x1", px1), ("x2", px2), ("x3", px3), ("pro", ppr), ("v", pv)):
            c.goal(f"{k} carried on to the next month", same(d[k], e))
        k8 = before["k8"]
        was = next(s for k, s in loop.before.items() if loop.heap[k] is self.last)["assigned"]
        if how == 0:
            c.goal("an undecided month is left pending", And(n_eq(d["k8"], n_add(k8, 1)), n_eq(self.last.d["assigned"], was)))
            c.goal("the pending months are counted", n_eq(d["k8max"], n_add(k8, 1)))
            for k, e in (("sx1", px1), ("sx2", px2), ("sx3", px3)):
                c.goal(f"{k} kept for the pending month", same(d[k].get((k8,)), e))
            return
        c.goal("no month is left pending", n_eq(d["k8"], 0))
        direct = And(same(now("pdsi"), x), same(now("phdi"), n_ite(f_eq(px3, F(0)), x, px3)), same(now("wplm"), case_spec(ppr, px1, px2, px3)))
        c.goal("the series of the spell is assigned, from this month back", Or(n_eq(self.last.d["assigned"], how), And(n_eq(k8, 0), direct)))


def arrays(c, years):
    m = c.m
    given = {k: c.array(k, (years, 12), nan=False) for k in MONTHLY}
    given.update({k: c.array(k, (12,), nan=False) for k in COEFF})
    size = c.int("pending", 40)
    c.assume(n_le(n_mul(years, 12), size))
    given.update({k: c.array(k, (size,), nan=False) for k in PENDING})
    return given


def pmdi(c):
    """_case by its contract ("PMDI")"""
    callees.install(c, "palmer._case", lambda args: case_spec(*args) if len(args) == 4 else NotImplemented)


def weighted(c):
    """_case"""
    pro, x1, x2, x3 = (c.real(k) for k in ("pro", "x1", "x2", "x3"))

    def post(kind, r):
        if kind == "raise":
            return c.unreachable("no exception")
        c.goal("the spells weighted by the probability that the established one has ended", same(r, case_spec(pro, x1, x2, x3)))
    c.explore(lambda: c.call("palmer._case", pro, x1, x2, x3), post)


def month(c):
    m = c.m
    years = c.int("years", 1)
    given = arrays(c, years)
    data = PyDict(m, dict(given))
    data.d.update(n_years=years, k8=0, k8max=0, v=F(0), pro=F(0), x1=F(0), x2=F(0), x3=F(0))
    # (the procedure begins with all of them zero)
    b = Months(c, data, given)
    c.I.loop_contract = b

    def assign(args):
        if args != [data]:
            return NotImplemented
        d = data.d
        now = n_add(n_mul(12, d["year"]), d["month"])
        c.goal("precondition of the assignment: pending months are the last ones", And(
            n_le(0, d["k8"]), n_le(d["k8"], now), b.pending(now, n_le(b.t, d["k8"])), n_le(1, d["iass"]), n_le(d["iass"], 3)))
        b.last.d["assigned"] = d["iass"]
        d["k8"] = 0
        return None
    callees.install(c, "palmer._assign", assign)
    pmdi(c)

    def run():
        b.start()
        return c.call("palmer._calc_zindex", data)

    def post(kind, r):
        if kind == "raise":
            return c.unreachable("no exception")
        c.goal("months are processed", b.steps > 0)
        c.goal("precondition of the last months: they are months of the record", And(n_le(0, data.d["k8max"]), n_le(data.d["k8max"], given["sx"].shape[0]), b.recorded()))
    c.explore(run, post)


class Backtracking(LoopContract):
    """going back over the pending months"""

    def __init__(self, c, k8, how, given, t, at, other):
        m = c.m
        S = z3.Function(m.fresh_name("series"), z3.IntSort(), z3.IntSort())
        self.S = S
        first, second = (lambda i: R(given["sx1"].get((i,)))), (lambda i: R(given["sx2"].get((i,))))

        def recursion(i):
            """the series that month i belongs to: that of the month after it, as long as its index is not zero"""
            z1, z2 = r_eq(first(i).val, F(0)), r_eq(second(i).val, F(0))
            return n_eq(S(zi(i)), n_ite(n_eq(S(zi(n_add(i, 1))), 2), n_ite(z2, 1, 2), n_ite(z1, 2, 1)))
        self.recursion = recursion
        self.value = lambda i: n_ite(n_eq(S(zi(i)), 1), first(i), second(i))
        c.assume(n_eq(S(zi(k8)), how))
        self.ints = [("series of the month after", lambda x, st: n_eq(x, S(zi(n_sub(k8, st[-1][1])))))]
        self.lemmas = [lambda st: Implies(n_lt(st[-1][1], k8), recursion(n_sub(n_sub(k8, st[-1][1]), 1)))]
        x = given["x"].get(at(k8))
        self.expected = lambda i: n_ite(n_eq(i, k8), x, n_ite(n_eq(how, 3), given["sx3"].get((i,)), self.value(i)))
        e = self.expected(t)
        px3 = given["px3"].get(at(t))
        old = {k: given[k].get(other) for k in ("pdsi", "phdi", "wplm")}
        self.results = {"pdsi": e, "phdi": n_ite(f_eq(px3, F(0)), e, px3), "wplm": case_spec(*[given[k].get(at(t)) for k in ("ppr", "px1", "px2", "px3")])}

        def chosen(read, buf, st):
            if buf.ndim != 1:   # (series of pending months)
                return None
            return Implies(And(n_lt(t, k8), n_le(n_sub(k8, st[-1][1]), t)), same(read((t,)), self.value(t)))
        self.buffers = [("value of a month gone back to", chosen),
                        ("value of this month", lambda read, buf, st: same(read((k8,)), x) if buf.ndim == 1 else None)]
        copied = given["sx3"].get((t,))
        self.buffers.append(("value copied", lambda read, buf, st: Implies(And(n_lt(t, k8), n_lt(t, st[-1][1])), same(read((t,)), copied))
                             if buf.ndim == 1 else None))
        for k, e in self.results.items():
            self.buffers.append((k + " of a month assigned", lambda read, buf, st, e=e:
                                 Implies(n_lt(t, st[-1][1]), same(read(at(t)), e)) if buf.ndim == 2 else None))
        for k, e in old.items():
            self.buffers.append((k + " of another month", lambda read, buf, st, e=e: same(read(other), e) if buf.ndim == 2 else None))
        self.old = old

    def applies(self, fname, n):
        return not isinstance(n, int)


def assignment(c):
    m = c.m
    years = c.int("years", 1)
    given = arrays(c, years)
    year, mon = c.int("year", 0), c.int("month", 0, 11)
    c.assume(n_lt(year, years))
    k8 = c.int("k8", 0)
    how = c.int("iass", 1, 3)
    now = n_add(n_mul(12, year), mon)
    c.assume(n_le(k8, now))
    at = lambda i: A.divmod_const(m, n_add(n_sub(now, k8), i), 12)
    size = given["sx"].shape[0]
    # the pending months are the last ones (invariant of the months)
    for nm, part in (("indexj", 0), ("indexm", 1)):
        given[nm] = A.new(m, (size,), "f", lambda idx, part=part: FL.R_of_int(at(idx[0])[part]), nm)
    t = c.int("t", 0)
    c.assume(n_le(t, k8))
    other = (c.int("other_year", 0), c.int("other_month", 0, 11))
    c.assume(n_lt(other[0], years))
    o = n_add(n_mul(12, other[0]), other[1])
    c.assume(Or(n_lt(o, n_sub(now, k8)), n_lt(now, o)))
    data = PyDict(m, dict(given))
    data.d.update(k8=k8, year=year, month=mon, iass=how)
    b = Backtracking(c, k8, how, given, t, at, other)
    c.I.loop_contract = b
    pmdi(c)

    def post(kind, r):
        if kind == "raise":
            return c.unreachable("no exception")
        c.assume(Implies(n_lt(t, k8), b.recursion(t)))
        for k, e in b.results.items():
            c.goal(f"{k} of a pending month and of this one", same(data.d[k].get(at(t)), e))
        for k, e in b.old.items():
            c.goal(f"{k} of the other months as before", same(data.d[k].get(other), e))
        for k in MONTHLY + ("sx1", "sx2", "sx3", "indexj", "indexm"):
            if k not in b.results:
                c.goal("nothing else is changed", data.d[k].buf.content is given[k].buf.content or data.d[k] is given[k])
        c.goal("no month is left pending", n_eq(data.d["k8"], 0))
    c.explore(lambda: c.call("palmer._assign", data), post)


class Finish(LoopContract):
    def __init__(self, c, given, t, fj, fm, other, last):
        here = (fj(t), fm(t))
        x, px3 = given["x"].get(here), given["px3"].get(here)
        self.results = {"pdsi": x, "phdi": n_ite(f_eq(px3, F(0)), x, px3), "wplm": case_spec(*[given[k].get(last) for k in ("ppr", "px1", "px2", "px3")])}
        self.old = {k: given[k].get(other) for k in self.results}
        self.lemmas = [lambda st: Not(And(n_eq(fj(st[-1][1]), other[0]), n_eq(fm(st[-1][1]), other[1])))]
        for k in self.results:
            self.buffers = list(self.buffers) + [
                (k + " of a month left pending", lambda read, buf, st, k=k: Implies(n_lt(t, st[-1][1]), same(read(here), self.results[k]))),
                (k + " of another month", lambda read, buf, st, k=k: same(read(other), self.old[k]))]


def finish(c):
    m = c.m
    years = c.int("years", 1)
    given = arrays(c, years)
    size = given["sx"].shape[0]
    fs = []
    for nm, hi in (("indexj", None), ("indexm", 12)):
        f = z3.Function(m.fresh_name(nm), z3.IntSort(), z3.IntSort())
        fs.append(lambda i, f=f: f(zi(i)))
        given[nm] = A.new(m, (size,), "f", lambda idx, f=f: FL.R_of_int(f(zi(idx[0]))), nm)
    fj, fm = fs
    count = c.int("k8max", 0)
    c.assume(n_le(count, size))
    t = c.int("t", 0)
    c.assume(n_lt(t, count))
    other = (c.int("other_year", 0), c.int("other_month", 0, 11))
    c.assume(n_lt(other[0], years))
    b = Finish(c, given, t, fj, fm, other, (n_sub(years, 1), 11))
    inside = lambda i: And(n_le(0, fj(i)), n_lt(fj(i), years), n_le(0, fm(i)), n_lt(fm(i), 12))
    c.assume(inside(t))
    b.lemmas.append(lambda st: inside(st[-1][1]))       # precondition: they are months of the record
    c.I.loop_contract = b
    data = PyDict(m, dict(given))
    data.d.update(k8max=count)
    pmdi(c)

    def post(kind, r):
        if kind == "raise":
            return c.unreachable("no exception")
        for k, e in b.results.items():
            c.goal(f"{k} of a month left pending at the end", same(data.d[k].get((fj(t), fm(t))), e))
        for k, e in b.old.items():
            c.goal(f"{k} of the other months as before", same(data.d[k].get(other), e))
    c.explore(lambda: c.call("palmer._finish_up", data), post)


SUMS = {"p": "precips", "pet": "pet", "sp": "spdat", "pl": "pldat", "pr": "prdat", "r": "rdat", "tl": "tldat", "et": "etdat", "ro": "rodat"}


class Accounts(LoopContract):
    """ghost: sums of the terms of one calendar month over the calibration years so far"""

    def __init__(self, c, data, mon, first, last):
        self.c, self.data, self.mon, self.first, self.last = c, data, mon, first, last
        self.relations = [(f"sum of {k} over the calibration years", lambda loop, st, k=k:
                           same(data.d[k + "sum"].get((mon,)), self.sums.d[k])) for k in SUMS]

    def start(self):
        self.sums = PyDict(self.c.m, {k: SR(F(0), False, False, True) for k in SUMS})

    def ghost(self, loop):
        I = self.c.I
        if len(I.loop_stack) < 2:
            return
        (_, y, _), (_, k, _) = I.loop_stack[-2:]
        here = And(n_eq(k, self.mon), n_le(self.first, y), n_le(y, self.last))
        for s, a in SUMS.items():
            self.sums.d[s] = n_ite(here, f_add(self.sums.d[s], self.data.d[a].get((y, k))), self.sums.d[s])


def sums(c):
    m = c.m
    years = c.int("years", 1)
    awc = c.real("awc")
    c.assume(r_le(F(1), awc.val))
    arr = {k: c.array(k, (years, 12), nan=False) for k in ("precips", "pet", "spdat", "pldat", "prdat", "rdat", "tldat", "etdat", "rodat", "sssdat", "ssudat")}
    arr.update({k + "sum": A.new(m, (12,), "f", lambda idx: SR(F(0), False, False, True), k + "sum") for k in SUMS})
    first, last = c.int("first", 0), c.int("last", 0)
    data = PyDict(m, dict(arr))
    data.d.update(n_years=years, awc=awc, awc_bot=f_sub(awc, F(1)), calibration_year_initial_idx=first, calibration_year_final_idx=last)
    b = Accounts(c, data, c.int("calendar_month", 0, 11), first, last)
    c.I.loop_contract = b

    def run():
        b.start()
        return c.call("palmer._calc_water_balances", data)

    def post(kind, r):
        if kind == "raise":
            return c.unreachable("no exception")
        for k in SUMS:
            c.goal(f"the sum of {k} is that of the calibration years", same(data.d[k + "sum"].get((b.mon,)), b.sums.d[k]))
    c.explore(run, post)


def coefficients(c):
    """potential-to-actual ratios and the climatic characteristic"""
    m = c.m
    years = c.int("years", 1)
    arr = {k: c.array(k, (years, 12), nan=False) for k in ("precips", "pet", "spdat", "pldat", "prdat")}
    arr.update({k + "sum": c.array(k + "sum", (12,), nan=False) for k in SUMS})
    first, last = c.int("first", 0), c.int("last", 0)
    c.assume(And(n_le(first, last), n_lt(last, years)))
    ncal = n_add(n_sub(last, first), 1)
    data = PyDict(m, dict(arr))
    data.d.update(n_years=years, n_calb_years=ncal, calibration_year_initial_idx=first, calibration_year_final_idx=last)
    S = lambda k, i: arr[k + "sum"].get((i,))

    def ratio(a, b, empty):
        return lambda i: n_ite(f_eq(S(b, i), F(0)), n_ite(f_eq(S(a, i), F(0)), F(1), F(0)) if empty else F(0), f_div(S(a, i), S(b, i)))
    co = dict(alpha=ratio("et", "pet", True), beta=ratio("r", "pr", True), gamma=ratio("ro", "sp", True), delta=ratio("tl", "pl", False))

    def run():
        c.call("palmer._calc_cafec_coefficients", data)
        c.call("palmer._calc_zindex_factors", data)

    def post(kind, r):
        if kind == "raise":
            return c.unreachable("no exception")
        i = m.ranged_int("i", 0, 11)
        for k, f in co.items():
            c.goal(f"{k}: actual over potential", same(data.d[k].get((i,)), f(i)))
        demand = f_add(f_add(S("pet", i), S("r", i)), S("ro", i))
        c.goal("moisture demand over supply", same(data.d["trat"].get((i,)), f_div(demand, f_add(S("p", i), S("tl", i)))))
    c.explore(run, post)


def kfactors(c):
    """the climatic characteristic: mean absolute departure of the calibration years, scaled to 17.67 over the year"""
    m = c.m
    years = c.int("years", 1)
    arr = {k: c.array(k, (years, 12), nan=False) for k in ("precips", "pet", "spdat", "pldat", "prdat")}
    arr.update({k: c.array(k, (12,), nan=False) for k in ("alpha", "beta", "gamma", "delta", "trat")})
    first, last = c.int("first", 0), c.int("last", 0)
    c.assume(And(n_le(first, last), n_lt(last, years)))
    ncal = n_add(n_sub(last, first), 1)
    data = PyDict(m, dict(arr))
    data.d.update(n_years=years, n_calb_years=ncal, calibration_year_initial_idx=first, calibration_year_final_idx=last)
    at = lambda k, *i: arr[k].get(i)
    b = Departures(c, arr, first)
    c.I.loop_contract = b

    def run():
        b.start()
        c.call("palmer._calc_kfactors", data)

    def post(kind, r):
        if kind == "raise":
            return c.unreachable("no exception")
        trat = lambda i: at("trat", i)
        for k in range(12):
            c.goal("sum of the absolute departures of the calibration years", same(b.total.content.at((k,)), b.sums.d[k]))
        dbar = lambda k: SR(b.total.content.at((k,)).val / rv(ncal), False, False, True)     # (at least one year)
        khat = lambda k: f_add(f_mul(lit("1.5"), FL.log(m, f_div(f_add(trat(k), lit("2.8")), dbar(k)), "log10")), lit("0.5"))
        total = FL.fsum(m, 12, lambda k: f_mul(dbar(k), khat(k)))
        for k in range(12):
            c.goal("K: 17.67 times the month's share", same(data.d["ak"].get((k,)), f_div(f_mul(lit("17.67"), khat(k)), total)))
    c.explore(run, post)


class Departures(LoopContract):
    """ghost: sums of the absolute departures of each calendar month over the calibration years so far"""

    def __init__(self, c, arr, first):
        self.c, self.arr, self.first = c, arr, first
        def total(k):
            def holds(read, buf, st):
                self.total = buf
                return same(read((k,)), self.sums.d[k])
            return holds
        self.buffers = [(f"sum of the departures of month {k}", total(k)) for k in range(12)]

    def start(self):
        self.sums = PyDict(self.c.m, {k: SR(F(0), False, False, True) for k in range(12)})

    def ghost(self, loop):
        I = self.c.I
        if len(I.loop_stack) < 2:
            return
        (_, y, _), (_, k, _) = I.loop_stack[-2:]
        y = n_add(self.first, y)
        g = lambda n, *i: self.arr[n].get(i)
        hat = f_sub(f_add(f_add(f_mul(g("alpha", k), g("pet", y, k)), f_mul(g("beta", k), g("prdat", y, k))), f_mul(g("gamma", k), g("spdat", y, k))),
                    f_mul(g("delta", k), g("pldat", y, k)))
        d = f_sub(g("precips", y, k), hat)
        d = n_ite(f_lt(d, F(0)), f_neg(d), d)
        for j in range(12):
            self.sums.d[j] = n_ite(n_eq(k, j), f_add(self.sums.d[j], d), self.sums.d[j])


class Terms(c16.Balance):
    """the terms of a month by Palmer's two-layer accounting, from the storage that the month before ended with"""

    def step(self, loop, stack):
        c = self.c
        d, idx = self.month()
        if d is None:
            return
        self.months += 1
        t = {k: d.d[k].get(idx) for k in c16.TERMS + ("precips", "pet")}
        before = next(s for k, s in loop.before.items() if loop.heap[k] is self.last)
        ss, su, p, pet = R(before["surface"]).val, R(before["lower"]).val, R(t["precips"]).val, R(t["pet"]).val
        low, add, sub, le, z = self.bottom, r_add, r_sub, r_le, F(0)
        awc = add(low, F(1))
        lesser = lambda a, b: r_ite(le(a, b), a, b)
        drawn = lambda need: r_div(r_mul(need, su), awc)
        wet = le(pet, p)
        excess, need = sub(p, pet), sub(pet, p)
        rs = lesser(excess, sub(F(1), ss))
        ru = lesser(sub(excess, rs), sub(low, su))
        sl = lesser(ss, need)
        ul = lesser(su, drawn(sub(need, sl)))
        by = lambda a, b: r_ite(wet, a, b)
        spec = dict(spdat=add(ss, su), prdat=sub(awc, add(ss, su)),
                    pldat=r_ite(le(pet, ss), pet, lesser(add(ss, su), add(drawn(sub(pet, ss)), ss))),
                    rdat=by(add(rs, ru), z), rodat=by(sub(excess, add(rs, ru)), z), tldat=by(z, add(sl, ul)),
                    etdat=by(pet, add(p, add(sl, ul))), sssdat=by(add(ss, rs), sub(ss, sl)), ssudat=by(add(su, ru), sub(su, ul)))
        inside = n_lt(n_add(n_mul(idx[0], 12), idx[1]), self.n)
        for k, e in spec.items():
            c.goal(f"{k[:-3]} of the month", Implies(inside, same(t[k], SR(e, False, False, True) if not isinstance(e, F) else e)))


STEPS = ("_calc_water_balances", "_calc_cafec_coefficients", "_calc_zindex_factors", "_calc_kfactors", "_calc_zindex", "_finish_up")
ZERO_STATE = ("v", "pro", "x1", "x2", "x3", "k8", "k8max")
OUT = ("pdsi", "phdi", "wplm", "z")


def procedure(given_params):
    """the whole: the parts above, from the initial state, over the record by years; each by its contract"""
    def fn(c):
        m = c.m
        callees.reshape_to_2d(c)
        n = c.int("n", 1)
        p, e = c.array("p", (n,), nan=False), c.array("e", (n,), nan=False)
        awc = c.real("awc")
        c.assume(r_le(F(1), awc.val))
        start, c0, c1 = c.int("start"), c.int("c0"), c.int("c1")
        c.assume(And(n_le(start, c0), n_le(c0, c1)))
        params = {k: c.array("given_" + k, (12,), nan=False) for k in ("alpha", "beta", "gamma", "delta")} if given_params else None
        i, mon = c.index("i", n), m.ranged_int("calendar_month", 0, 11)
        y, k = A.divmod_const(m, i, 12)
        log, seen, final = [], {}, {}
        nonneg = lambda x: n_ite(f_lt(x, F(0)), F(0), x)

        def begin(d):
            years = ceil_div(m, n, 12)
            for nm, a in (("precips", p), ("pet", e)):
                c.goal("the months of the record by years", And(n_eq(d[nm].shape[0], years), d[nm].shape[1] == 12,
                                                             same(d[nm].get((y, k)), nonneg(a.get((i,))) if nm == "precips" else a.get((i,)))))
            c.goal("number of years", n_eq(d["n_years"], years))
            c.goal("available water of the lower layer", And(same(d["awc"], awc), same(d["awc_bot"], f_sub(awc, F(1)))))
            c.goal("calibration years", And(n_eq(d["calibration_year_initial_idx"], n_sub(c0, start)),
                                            n_eq(d["calibration_year_final_idx"], n_sub(c1, start)), n_eq(d["n_calb_years"], n_add(n_sub(c1, c0), 1))))
            for s in SUMS:
                c.goal("sums of the calibration years begin at zero", And(n_eq(d[s + "sum"].shape[0], 12), same(d[s + "sum"].get((mon,)), F(0))))

        def step(name):
            def run(args):
                d = args[0].d
                if not log:
                    begin(d)
                if name == "_calc_zindex":
                    for s in ZERO_STATE:
                        c.goal("the recursion begins with no spell", same(d[s], F(0)))
                    for s in PENDING:
                        c.goal("room for all months left pending", And(n_le(n_mul(12, d["n_years"]), d[s].shape[0]), n_le(40, d[s].shape[0])))
                    for s in ("ppr", "px1", "px2", "px3"):
                        c.goal("no month has a spell", same(d[s].get((y, k)), F(0)))
                    if given_params:
                        for s, a in params.items():
                            c.goal("the coefficients given", same(d[s].get((mon,)), a.get((mon,))))
                if name == "_calc_cafec_coefficients":
                    for s in ("alpha", "beta", "gamma", "delta"):
                        d[s] = c.array(s, (12,), nan=False)
                        final[s] = d[s]
                if name == "_finish_up":
                    for s in OUT:
                        d[s] = c.array("final_" + s, (d["n_years"], 12))
                        final[s] = d[s]
                log.append(name)
                return None
            return run
        for s in STEPS:
            callees.install(c, "palmer." + s, step(s))

        def run():
            del log[:]
            final.clear()
            return c.call("palmer.pdsi", p, e, awc, start, c0, c1, PyDict(m, dict(params)) if params else None), list(log), dict(final)

        def post(kind, r):
            if kind == "raise":
                return c.unreachable("no exception")
            r, log, final = r
            c.goal("all steps in their order", log == [s for s in STEPS if not (given_params and s == "_calc_cafec_coefficients")])
            r = r.items if hasattr(r, "items") else r
            for nm, a in zip(OUT, r):
                c.goal(f"{nm}: the months of the record", And(n_eq(a.shape[0], n), same(a.get((i,)), final[nm].get((y, k)))))
            for s in ("alpha", "beta", "gamma", "delta"):
                c.goal("the coefficients are returned", same(r[4].d[s].get((mon,)), (params or final)[s].get((mon,))))
        c.explore(run, post)
    return fn


CASES = [("water balance", c16.months(False, Terms), "helper"), ("PMDI", weighted, "helper"), ("month", month, "helper"), ("assignment", assignment, "helper"), ("last months", finish, "helper"),
         ("sums", sums, "helper"), ("coefficients", coefficients, "helper"), ("climatic characteristic", kfactors, "helper"), ("procedure", procedure(False), "helper"),
         ("procedure with given coefficients", procedure(True), "helper")] + c16.HELPERS
