"""Contracts of helper functions, for callers that are verified against them.

Each entry installs an abstract version of the function: it returns what the contract says and nothing is known of
the body.  The proofs that the real bodies meet the contracts are the cases listed next to it; a property whose
cases use a contract includes those cases.  Outside of the contract's precondition the body itself is interpreted.
"""
import z3
from pyvc.terms import *
from pyvc.interp import Builtin, PyDict
from pyvc import arrays as A
from contracts import lib


def install(c, qual, fn):
    I = c.I
    try:
        f = c.fn(qual)
    except Exception:
        return     # the function is gone: nothing to abstract

    def run(args, kw):
        names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
        if f.node.args.vararg or f.node.args.kwarg or f.node.args.kwonlyargs:
            return I.call_func(f, args, kw)
        d = I.bind(f, args, kw)
        args = [d[n] for n in names]
        r = fn(args)
        if r is NotImplemented:
            I.used_contracts.discard(qual)
            return I.call_func(f, args, {})
        return r
    I.contracts[qual] = Builtin(qual, run)


def sum_to_scale(c):
    m = c.m

    def fn(args):
        v, scale = args[0], args[1]
        if not (lib.is_arr(v, 1) and v.kind == "f" and is_i(scale)) or not m.entails(n_le(1, scale)):
            return NotImplemented
        r1 = v.reader()
        rd = lambda k: r1((k,))
        return A.new(m, (v.shape[0],), "f", lambda idx: lib.total(m, rd, idx[0], scale))
    install(c, "compute.sum_to_scale", fn)


def reshape_to_2d(c):
    m = c.m

    def fn(args):
        v, p = args[0], args[1]
        if not (lib.is_arr(v, 1) and v.kind == "f" and p in (12, 366)) or not m.entails(n_le(1, v.shape[0])):
            return NotImplemented
        n = v.shape[0]
        rd = v.reader()

        def at(idx):
            i = A.unflat(m, idx[0], idx[1], p)
            if m.entails(n_lt(i, n)):
                return rd((i,))
            return n_ite(n_lt(i, n), rd((i,)), NAN)
        return A.new(m, (lib.ceil_div(m, n, p), p), "f", at)
    install(c, "utils.reshape_to_2d", fn)


def fit(c):
    """lmoments.fit (proved under C18): a function of the sequence it is given; finite location and skew, positive scale.
    Precondition here: the sample has a fit, else ValueError passes through to the caller."""
    m = c.m

    def fn(args):
        x = args[0]
        rd = x.reader()
        ag = m.agg("fn", x.shape[0], lambda j: rd((j,)), "fit")
        if not ag.res:
            for name in ("loc", "skew", "scale"):
                v = z3.Real(f"fit_{name}_{ag.base}")
                m.agg_of[v.get_id()] = ag
                m.keep.append(v)
                ag.res[name] = v
            m.axiom(ag.res["scale"] > 0, ag.res["scale"])
        return PyDict(m, {k: SR(v, False, False, True) for k, v in ag.res.items()})
    install(c, "lmoments.fit", fn)
    m.assumptions.add("precondition: every calendar step's calibration totals have a Pearson III fit where the code asks for "
                      "one (lmoments.fit raises ValueError otherwise and the exception passes through)")
    return fn


def fitted(c, dist, p):
    """gamma_parameters / pearson_parameters (proved in C05 "parameters"): one value per calendar step, and the parameters of
    a step are a function of that step's values in the calibration years; Pearson parameters are numbers, the probability of
    zero in [0, 1] and the scale not negative"""
    m = c.m

    def fn(args):
        v, start, c0, c1, per = args
        if per is not lib.periodicity(c, p) or not lib.is_arr(v) or v.kind != "f" or not all(is_i(x) for x in (start, c0, c1)):
            return NotImplemented
        if not m.entails(n_le(c0, c1)):
            return NotImplemented
        if v.ndim == 1 and m.entails(n_le(1, v.shape[0])):
            n = v.shape[0]
            rows = lib.ceil_div(m, n, p)
            rd = v.reader()

            def at(y, s):
                i = A.unflat(m, y, s, p)
                if m.entails(n_lt(i, n)):
                    return rd((i,))
                return n_ite(n_lt(i, n), rd((i,)), NAN)
        elif v.ndim == 2 and v.shape[1] == p and m.entails(n_le(1, v.shape[0])):
            rows = v.shape[0]
            rd = v.reader()
            at = lambda y, s: rd((y, s))
        else:
            return NotImplemented
        end = n_add(start, n_sub(rows, 1))
        if m.decide(Or(n_lt(c0, start), n_lt(end, c1))):
            first, cnt = 0, rows
        else:
            first, cnt = n_sub(c0, start), n_add(n_sub(c1, c0), 1)
        names = ("alpha", "beta") if dist == "gamma" else ("prob_zero", "loc", "scale", "skew")

        def par(name):
            def elem(idx):
                ag = m.agg("fn", cnt, lambda k: at(n_add(first, k), idx[0]), dist + " parameters")
                if name not in ag.res:
                    v, b = z3.Real(f"{dist}_{name}_{ag.base}"), z3.Bool(f"{dist}_{name}_nan_{ag.base}")
                    for x in (v, b):
                        m.agg_of[x.get_id()] = ag
                        m.keep.append(x)
                    if dist == "pearson":
                        b = False
                        if name == "prob_zero":
                            m.axiom(z3.And(v >= 0, v <= 1), v)
                        elif name == "scale":
                            m.axiom(v >= 0, v)
                    ag.res[name] = SR(v, b, False, True)
                return ag.res[name]
            return A.new(m, (p,), "f", elem)
        fn.last = tuple(par(name) for name in names)
        return fn.last
    fn.last = None
    install(c, f"compute.{dist}_parameters", fn)
    return fn
