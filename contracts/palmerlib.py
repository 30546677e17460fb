"""The parts of palmer.pdsi and what each of them may change: used by the frame conditions (C10) and by C09."""
from pyvc.terms import *
from pyvc.interp import PyDict
from pyvc.havoc import LoopContract
from pyvc import arrays as A
from contracts import callees
from contracts.lib import *
from contracts.c17 import MONTHLY, PENDING, SUMS, STEPS, same

COEFF = ("alpha", "beta", "gamma", "delta")
BALANCE = ("spdat", "pldat", "prdat", "rdat", "tldat", "etdat", "rodat", "sssdat", "ssudat")
ASSIGNED = ("sx", "pdsi", "phdi", "wplm")
WRITES = {"_calc_water_balances": BALANCE + tuple(k + "sum" for k in SUMS), "_calc_cafec_coefficients": COEFF, "_calc_zindex_factors": ("trat",),
          "_calc_kfactors": ("ak",), "_assign": ASSIGNED, "_finish_up": ("pdsi", "phdi", "wplm"),
          "_calc_zindex": ASSIGNED + ("cp", "z", "ppr", "px1", "px2", "px3", "x", "indexj", "indexm", "sx1", "sx2", "sx3")}
STATE = ("v", "pro", "x1", "x2", "x3", "k8", "k8max", "pv", "ze", "uw", "ud", "year", "month", "iass")


class Anything(LoopContract):
    """no candidates: whatever a loop changes is arbitrary afterwards"""
    def __init__(self, c, data, writes):
        self.c, self.data, self.writes = c, data, writes

    def applies(self, fname, n):
        return not isinstance(n, int) or fname.endswith("_calc_water_balances")


class Months(Anything):
    def applies(self, fname, n):
        return True

    def fixed(self, loop):
        d = self.data
        return [(d, k, False) for k in STATE], [(d.d[k], False) for k in self.writes]

    def goal(self, name, g):
        self.c.goal(name, g)


def state(c):
    m = c.m
    years = c.int("years", 1)
    size = c.int("pending", 40)
    c.assume(n_le(n_mul(years, 12), size))
    given = {k: c.array(k, (years, 12)) for k in dict.fromkeys(MONTHLY + BALANCE)}
    given.update({k: c.array(k, (12,)) for k in COEFF + ("ak", "trat") + tuple(k + "sum" for k in SUMS)})
    given.update({k: c.array(k, (size,)) for k in PENDING})
    awc = c.real("awc")
    c.assume(r_le(F(1), awc.val))
    first, last = c.int("first", 0), c.int("last", 0)
    c.assume(And(n_le(first, last), n_lt(last, years)))
    data = PyDict(m, dict(given))
    data.d.update(n_years=years, awc=awc, awc_bot=f_sub(awc, F(1)), n_calb_years=n_add(n_sub(last, first), 1), calibration_year_initial_idx=first,
                  calibration_year_final_idx=last)
    for k in STATE[:5] + STATE[7:11]:
        data.d[k] = F(0)
    for k in ("k8", "k8max", "year", "month", "iass"):
        data.d[k] = 0
    return given, data, years, size


def part(name):
    """a part of the procedure changes nothing but its results"""
    def fn(c):
        m = c.m
        given, data, years, size = state(c)
        callees.install(c, "palmer._case", lambda args: SR(m.fresh_real("case"), m.fresh_bool("case_nan"), m.fresh_bool("case_inf"), True))
        if name == "_assign":
            k8, y, mon = c.int("k8", 0), c.int("year", 0), c.int("month", 0, 11)
            c.assume(And(n_lt(y, years), n_le(k8, n_add(n_mul(12, y), mon))))
            data.d.update(k8=k8, year=y, month=mon, iass=c.int("iass", 1, 3))
        elif name == "_calc_water_balances":
            # (functions of numbers)
            num = lambda: SR(m.fresh_real("term"), m.fresh_bool("term_nan"), m.fresh_bool("term_inf"), True)
            numbers = lambda args: all(is_num(a) for a in args)
            callees.install(c, "palmer._calc_potential_loss", lambda args: num() if numbers(args) else NotImplemented)
            callees.install(c, "palmer._calc_recharge", lambda args: tuple(num() for _ in range(6)) if numbers(args) else NotImplemented)
        elif name == "_calc_zindex":
            def assign(args):
                d = args[0].d
                if args[0] is not data:
                    return NotImplemented
                for k in ASSIGNED:
                    d[k].buf.content = A.Leaf(m, c.array("assigned_" + k, d[k].shape).buf.content.fn)
                d["k8"] = 0
                return None
            callees.install(c, "palmer._assign", assign)
        if name in ("_assign", "_finish_up"):
            import z3
            # the months that are written are months of the record (preconditions proved under C17)
            for nm, hi in (("indexj", years), ("indexm", 12)):
                f = z3.Function(m.fresh_name(nm), z3.IntSort(), z3.IntSort())

                def at(idx, f=f, hi=hi):
                    v = f(zi(idx[0]))
                    m.axiom(z3.And(v >= 0, v < zi(hi)), v)
                    return R(v)
                given[nm] = data.d[nm] = A.new(m, (size,), "f", at, nm)
            if name == "_finish_up":
                data.d["k8max"] = c.int("k8max", 0)
                c.assume(n_le(data.d["k8max"], size))
        c.I.loop_contract = (Months if name == "_calc_zindex" else Anything)(c, data, WRITES[name])
        before = {k: a.buf.content for k, a in given.items()}

        def post(kind, r):
            for k, a in given.items():
                if k not in WRITES[name]:
                    c.goal("nothing but its results is changed", data.d.get(k) is a and a.buf.content is before[k])
        c.canaries = "raise"
        c.explore(lambda: c.call("palmer." + name, data), post)
    return fn


PARTS = [(f"palmer.{k}", part(k), "helper") for k in WRITES]


def install_parts(c, inputs):
    """the parts by their contracts: each changes its results (whole arrays may become others) and nothing else"""
    m = c.m

    def fresh(buf):
        return A.Leaf(m, c.array("r", (1,) * buf.ndim).buf.content.fn)

    def stand(name):
        def run(args):
            d = args[0].d
            if not all(k in d for k in ("precips", "pet", "pdsi")):
                return NotImplemented
            for k in WRITES[name]:
                if k not in d:
                    continue
                b = d[k].buf
                c.goal("no result shares memory with an array passed in", not any(b is a.buf for a in inputs.values()))
                if not any(b is a.buf for a in inputs.values()):
                    b.content = fresh(b)
            made = {"_calc_cafec_coefficients": COEFF, "_calc_zindex_factors": ("trat",), "_calc_kfactors": ("ak",)}.get(name, ())
            for k in made:
                d[k] = c.array("made_" + k, (12,))
            return None
        return run
    for s in STEPS:
        callees.install(c, "palmer." + s, stand(s))


def reuse(c):
    """with the coefficients that a first call computed, all that the remaining parts see is as in that call: the results are the
    same (the parts are functions of that state: C17; what each may change: the frame conditions)"""
    m = c.m
    callees.reshape_to_2d(c)
    n = c.int("n", 1)
    p, e = c.array("p", (n,)), c.array("e", (n,))
    awc = c.real("awc")
    c.assume(r_le(F(1), awc.val))
    start, c0, c1 = c.int("start"), c.int("c0"), c.int("c1")
    years = ceil_div(m, n, 12)
    sums = {k: c.array(k, (12,)) for k in WRITES["_calc_water_balances"] if k.endswith("sum")}
    terms = {k: c.array(k, (years, 12)) for k in BALANCE}
    coeff = {k: c.array("computed_" + k, (12,)) for k in COEFF}
    i, mon = c.index("i", n), m.ranged_int("calendar_month", 0, 11)
    y, k = A.divmod_const(m, i, 12)
    t = c.int("position", 0)
    states, entry = [], []

    def value(v):
        if isinstance(v, A.Arr):
            at = (t,) if v.ndim == 1 and not (is_i(v.shape[0]) and v.shape[0] == 12) else (mon,) if v.ndim == 1 else (y, k)
            return (tuple(v.shape), v.get(at))
        return v

    def view(d):
        return {k: value(v) for k, v in d.items() if k not in ("calibrate",)}

    def stand(name):
        def run(args):
            d = args[0].d
            if name == "_calc_water_balances":
                entry.append(view(d))
                for k, a in {**sums, **terms}.items():
                    d[k] = a
            elif name == "_calc_cafec_coefficients":
                for k, a in coeff.items():
                    d[k] = a
            elif name == "_calc_zindex_factors":
                states.append(view(d))
            return None
        return run
    for s in STEPS:
        callees.install(c, "palmer." + s, stand(s))

    def run():
        del states[:], entry[:]
        call = lambda ps: c.call("palmer.pdsi", p, e, awc, start, c0, c1, ps)
        a = call(None)
        ps = a.items[4] if hasattr(a, "items") and not isinstance(a, tuple) else a[4]
        if ps is None:
            return "nothing observed"
        call(ps)
        return [list(entry), list(states)]

    def agree(a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return And(len(a[0]) == len(b[0]), *[n_eq(x, y) for x, y in zip(a[0], b[0])], same(a[1], b[1]))
        if is_num(a) and is_num(b):
            return same(a, b)
        return a is b or (type(a) is type(b) and a == b)

    def post(kind, r):
        if kind == "raise":
            return c.unreachable("no exception")
        if isinstance(r, str):
            return
        for nm, (a, b) in (("water balance", r[0]), ("Z index", r[1])):
            skip = COEFF if nm == "water balance" else ()
            for k in sorted(set(a) | set(b)):
                if k not in skip:
                    c.goal(f"{nm}: the same state with the coefficients passed back in", agree(a[k], b[k]) if k in a and k in b else False)
    c.explore(run, post)
