"""What a contract is written with: symbolic inputs, execution of the real code, goals."""
import time
import z3
from .terms import *
from .machine import Machine, Forall, PyRaise, ikey
from .interp import Interp, PyDict, PyList
from . import arrays as A
from . import floats as FL

STANDARD_TRUST = [
    "pyvc interpreter: executes the Python source of /repo symbolically (pyvc/*.py; cross-checked against the repository's "
    "interpreter by pyvc/xcheck.py)",
    "models of numpy / math / calendar / datetime / scipy.stats functions (pyvc/npmodel.py, pyvc/floats.py)",
    "SMT solvers z3 and cvc5",
]
STANDARD_ASSUMPTIONS = [
    "floating point arithmetic is exact real arithmetic plus NaN and infinities: rounding and the sign of zero are not represented",
    "integers are mathematical integers",
]


class Ctx:
    def __init__(self, prop, case, deadline):
        self.prop = prop
        self.case = case
        self.m = Machine()
        self.m.deadline = deadline
        self.I = Interp(self.m)
        self.obs = {}
        self.order = []
        self.inputs = []
        self.backends = {}
        self.live = 0
        self.dead = 0
        self.paths = 0
        self.label = ""
        self.canaries = True
        self.suspects = 0
        self.only = None        # words: only the goals whose name contains one of them
        self.adapt = None       # applied to the replay case (contracts that reuse another property's case)
        self.replay = None      # concrete inputs of a counterexample -> case of harness/props.py

    # ------------------------------------------------------------ inputs
    def int(self, name, lo=None, hi=None):
        if lo is not None and hi is not None:
            v = self.m.ranged_int(name, lo, hi)
        else:
            v = self.m.fresh_int(name)
            if lo is not None:
                self.m.axiom(v >= lo, v)
            if hi is not None:
                self.m.axiom(v <= hi, v)
        self.inputs.append((name, "int", v))
        return v

    def real(self, name, nan=False):
        v = self.m.fresh_real(name)
        b = self.m.fresh_bool(name + "_nan") if nan else False
        r = SR(v, b, False)
        self.inputs.append((name, "real", r))
        return r

    def array(self, name, shape, nan=True, kind="f", np=True):
        """array of arbitrary finite numbers, any of them NaN if nan"""
        m = self.m
        d = len(shape)
        ints = [z3.IntSort()] * d
        if kind == "f":
            fv = z3.Function(m.fresh_name(name), *ints, z3.RealSort())
            fb = z3.Function(m.fresh_name(name + "_nan"), *ints, z3.BoolSort()) if nan else None

            m.input_decl[fv.name()] = (name, shape)
            if nan:
                m.input_decl[fb.name()] = (name, shape)

            def fn(idx):
                z = [zi(i) for i in idx]
                return SR(fv(*z), fb(*z) if nan else False, False, True)
        else:
            fi = z3.Function(m.fresh_name(name), *ints, z3.IntSort())

            m.input_decl[fi.name()] = (name, shape)

            def fn(idx):
                return fi(*[zi(i) for i in idx])
        a = A.new(m, tuple(shape), kind, fn, name)
        self.inputs.append((name, "array", a, a.buf.content))
        return a

    def rows(self, name, years, p, nan=True):
        """2-D array (years, p) of arbitrary numbers, named by their position in the flattened array; and its reader by position"""
        m = self.m
        fv = z3.Function(m.fresh_name(name), z3.IntSort(), z3.RealSort())
        fb = z3.Function(m.fresh_name(name + "_nan"), z3.IntSort(), z3.BoolSort()) if nan else None
        n = n_mul(years, p)
        m.input_decl[fv.name()] = (name, (n,))
        if nan:
            m.input_decl[fb.name()] = (name, (n,))

        def at(k):
            return SR(fv(zi(k)), fb(zi(k)) if nan else False, False, True)
        a = A.new(m, (years, p), "f", lambda idx: at(A.unflat(m, idx[0], idx[1], p)), name)
        self.inputs.append((name, "array", a, a.buf.content))
        return a, at

    def forall(self, key, fn):
        """universal fact about the input array `key`: fn(index tuple) holds for every index"""
        self.m.pc.append(Forall(key, fn))

    def assume(self, f):
        self.m.assume(f)

    def index(self, name="i", n=None):
        """an arbitrary index 0 <= i < n (to be used for a universally quantified postcondition)"""
        i = self.m.fresh_int(name)
        self.m.assume(And(n_le(0, i), n_lt(i, n)) if n is not None else True)
        return i

    # ------------------------------------------------------------ execution
    def fn(self, qual):
        return self.I.func(qual)

    def call(self, qual, *args, **kw):
        f = self.fn(qual) if isinstance(qual, str) else qual
        return self.I.call(f, list(args), kw)

    def explore(self, thunk, post, limit=600):
        """run the thunk on every path; post(kind, value) states the goals of the path"""
        m = self.m
        res = m.explore(thunk, limit)
        self.paths += len(res)
        if not res:
            raise Unsupported("no path")
        saved_pc = m.pc
        for delta, out, snap in res:
            before = m.snapshot()
            m.pc = saved_pc + list(delta)
            m.restore(snap)
            try:
                # goals may branch themselves (e.g. on slice bounds)
                sub = m.explore(lambda: post(*out), limit)
                for d2, o2, _ in sub:
                    if o2[0] == "raise":
                        m.pc = saved_pc + list(delta) + list(d2)
                        r = m.prove(False)
                        if r[0] != "unsat":
                            raise Unsupported(f"the contract itself raised {o2[1]}")
            finally:
                m.pc = saved_pc
                m.restore(before)
            if self.canaries and (out[0] == "value" or self.canaries == "raise"):
                m.pc = saved_pc + list(delta)
                m.restore(snap)
                # the full prover on the first path, the plain solver on the others
                r = self.m.prove(False, 1500)[0] if self.live < 1 else str(self.m.quick([], 1500))
                m.pc = saved_pc
                m.restore(before)
                if r == "unsat":
                    self.dead += 1
                else:
                    self.live += 1
        return res

    # ------------------------------------------------------------ goals
    def goal(self, name, g, ms=None):
        """an obligation: g must hold here"""
        if self.only and not any(w in name for w in self.only):
            return True
        full = f"{self.case}: {name}"
        o = self.obs.get(full)
        if o is None:
            o = self.obs[full] = dict(name=full, status="discharged", backend="", s=0.0, paths=0, detail="")
            self.order.append(full)
        o["paths"] += 1
        if o["status"] == "refuted":
            return False
        if self.m.deadline and time.time() > self.m.deadline:
            o["status"] = "undecided"
            o["detail"] = "time limit of the case"
            return False
        r, backend, dt, model = self.m.prove(g, ms)
        o["s"] = round(o["s"] + dt, 3)
        if r == "unsat":
            self.backends[backend] = self.backends.get(backend, 0) + 1
            if backend not in o["backend"]:
                o["backend"] = (o["backend"] + "+" + backend).strip("+")
            return True
        if r == "sat":
            o["status"] = "refuted"
            o["detail"] = "counterexample found by " + backend
        else:
            o["status"] = "undecided"
            o["detail"] = "no solver answer"
            if not self.m.candidate or self.suspects >= 4:
                return False
            # perhaps a counterexample: replayed on the real code, no answer by itself
            self.suspects += 1
            self.m.last_solver, model = self.m.candidate
        if True:
            try:
                o["model"] = self.concretise(self.small_model(model))
            except Exception as e:
                o["model"] = {"error": str(e)}
            o["model"]["obligation"] = full
            if self.replay:
                try:
                    o["model"]["replay"] = (self.adapt or (lambda r: r))(self.replay(o["model"]))
                except Exception as e:
                    o["model"]["replay_error"] = str(e)
        return False

    def goal_cases(self, name, g, conds):
        """the goal in the cases c1; not c1 and c2; ...; none of them"""
        m = self.m
        n = len(m.pc)
        ok = True
        try:
            for c in list(conds) + [True]:
                if not isinstance(c, bool):
                    m.pc.append(zb(c))
                    ok = self.goal(name, g if isinstance(g, bool) else m.context_simplify(bsimp(g))) and ok
                    m.pc.pop()
                    m.pc.append(zb(Not(c)))
                elif c:
                    return self.goal(name, g if isinstance(g, bool) else m.context_simplify(bsimp(g))) and ok
        finally:
            del m.pc[n:]

    def unreachable(self, name):
        return self.goal(name, False)

    def small_model(self, model):
        """prefer a counterexample with small integers"""
        s = self.m.last_solver
        s.set("timeout", 3000)
        vs = [i[2] for i in self.inputs if i[1] == "int"]
        for lim in (14, 40, 130, 400, 2000):
            s.push()
            for v in vs:
                lo, hi = self.m.ranges.get(v.get_id(), (None, None))
                if "year" in str(v) and not str(v).startswith("years"):
                    continue
                if lo is None:
                    s.add(v <= lim, v >= -lim)
            if s.check() == z3.sat:
                model = s.model()
                s.pop()
                break
            s.pop()
        return model

    def concretise(self, model):
        out = {}
        m = self.m

        def ev(t):
            if isinstance(t, (int, F)):
                return t
            v = model.eval(t, model_completion=True)
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return F(v.numerator_as_long(), v.denominator_as_long())
            if z3.is_algebraic_value(v):
                a = v.approx(20)
                return F(a.numerator_as_long(), a.denominator_as_long())
            if z3.is_true(v):
                return True
            if z3.is_false(v):
                return False
            return 0

        def num(x):
            x = R(x)
            if x.nan is not False and ev(zb(x.nan)) is True:
                return None
            return float(ev(x.val))
        for item in self.inputs:
            if item[1] == "int":
                out[item[0]] = int(ev(item[2]))
            elif item[1] == "real":
                out[item[0]] = num(item[2])
            else:
                a, content = item[2], item[3]
                dims = [int(ev(zi(s))) for s in a.shape]
                size = 1
                for s in dims:
                    size *= max(s, 0)
                if size > 20000 or len(dims) > 2:
                    out[item[0]] = {"shape": dims}
                    continue
                pr = m.probing
                m.probing += 1
                try:
                    def at(idx):
                        v = content.fn(idx)
                        return num(v) if a.kind == "f" else int(ev(v))
                    if len(dims) == 1:
                        out[item[0]] = [at((i,)) for i in range(dims[0])]
                    else:
                        out[item[0]] = [[at((i, j)) for j in range(dims[1])] for i in range(dims[0])]
                finally:
                    m.probing = pr
        return out

    # ------------------------------------------------------------ result
    def result(self, err, wall):
        obs = [self.obs[n] for n in self.order]
        if err or not obs:
            obs.append(dict(name=f"{self.case}: complete", status="undecided", detail=err or "no obligation was generated", paths=0))
        if self.canaries and not err and self.live == 0:
            for o in obs:
                o["status"] = "undecided"
                o["detail"] = "vacuous: no reachable path satisfies the preconditions"
        return dict(obligations=obs, backends=self.backends, solver_s=self.m.stats["solver_s"] + self.m.stats["entails_s"],
                    functions=sorted(self.I.functions) + sorted("contract of " + c for c in self.I.used_contracts),
                    trusted=STANDARD_TRUST, assumptions=STANDARD_ASSUMPTIONS + sorted(self.m.assumptions),
                    vacuity=dict(paths=self.paths, reachable=self.live, unreachable=self.dead), error=err, wall=wall)
