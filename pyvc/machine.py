"""Path exploration, facts, aggregates and the solver interface of the engine."""
import os
import subprocess
import tempfile
import time
import z3
from .terms import *

PI = z3.Real("PI")


class PyRaise(Exception):
    """a Python exception raised by the interpreted program"""

    def __init__(self, name, msg="", obj=None):
        self.name = name
        self.msg = msg
        self.obj = obj
        super().__init__(f"{name}: {msg}")


class PathEnd(Exception):
    pass


class ForkInLoop(Exception):
    pass


class Forall:
    """universal fact: for every index tuple idx of the input named `key`, fn(idx) holds"""

    def __init__(self, key, fn, name=""):
        self.key = key
        self.fn = fn
        self.name = name


def ikey(i):
    if isinstance(i, int):
        return i
    return ("z", i.get_id())


def tkey(t):
    """hashable identity of a scalar"""
    if isinstance(t, (bool, int, F)):
        return (type(t).__name__, t)
    if isinstance(t, SR):
        return ("SR", tkey(t.val), tkey(t.nan), tkey(t.inf))
    return ("z", t.get_id())


class Agg:
    """aggregate over 0 <= k < n of a body f(k): a constant about which lemmas are known

    rsum, isum  f gives a raw real / an int       any  f gives a Bool
    fn          a functional of the whole sequence (results res[name])
    """

    def __init__(self, m, kind, n, f, tag=None):
        self.m = m
        self.kind = kind
        self.n = n
        self.f = f
        self.tag = tag
        self.id = len(m.aggs)
        self.ev = {}
        base = m.fresh_name(kind)
        self.base = base
        self.res = {}
        if kind == "rsum":
            self.const = z3.Real(base)
        elif kind == "isum":
            self.const = z3.Int(base)
        elif kind == "any":
            self.const = z3.Bool(base)
        elif kind == "fn":
            self.const = z3.Bool(base)
        m.aggs.append(self)
        m.agg_of[self.const.get_id()] = self

    def at(self, k):
        return memo_pc(self.m, self.ev, ikey(k), k, lambda: self.f(k))


def memo_pc(m, memo, key, keep, fn):
    """memoised value; one that was simplified with the help of the path condition is used only where that holds"""
    es = memo.get(key)
    if es:
        for _, pcs, v in es:
            if pcs is None:
                return v
            if pcs <= m.pc_ids():
                m.used += 1
                return v
    u = m.used
    v = fn()
    memo.setdefault(key, []).append((keep, m.pc_ids() if m.used != u else None, v))
    return v


SLOW = float(os.environ.get("PYVC_SLOW", "1"))     # factor of all time limits of the solvers


def tsize(t, limit=400):
    """number of nodes of a term (up to limit)"""
    seen, stack = set(), [t]
    while stack and len(seen) < limit:
        x = stack.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            stack.extend(x.children())
    return len(seen)


def atoms(t):
    """identities of the uninterpreted symbols and applications in a term"""
    out, seen, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, z3.ExprRef) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.get_id())
            stack.extend(x.children())
    return frozenset(out)


class Machine:
    SOLVER_MS = 20000

    def __init__(self):
        self.axioms = []
        self.pc = []
        self.aggs = []
        self.agg_of = {}
        self.agg_memo = {}
        self.fn_decls = {}
        self.skolems = {}
        self.models = []
        self.heap = []
        self.counter = 0
        self.input_decl = {}
        self.ranges = {}
        self.trace = None
        self.cache = {}
        self.nofork = 0
        self.stats = {"entails": 0, "entails_s": 0.0, "solver_s": 0.0, "queries": 0}
        self.ax_seen = set()
        self.assumptions = set()
        self.keep = []
        self.uf = {}
        self.uf_apps = {}
        self.names = {}
        self.agg_sig = {}
        self.defs = set()       # definitions of named terms
        self.soft = set()       # facts that slow most proofs down: only used with refine
        self.unroll = 31        # loops of a known, smaller number of iterations are unrolled if no path forks
        self.opaque_calendar = False    # leap years by name
        self.int_first = False  # questions about integers only are decided from facts about integers only
        self.cap_ms = 10 ** 9   # limit for the questions asked during the symbolic execution
        self.refine = False     # more work on loop summaries (asked for by the contract)
        self.deadline = None
        self.probing = 0
        self.used = 0       # simplifications that depend on the path condition
        self.pc_memo = (None, 0, None)
        self.body_dep = {}
        self.deps = {}
        self.index_hints = []
        self.skolem_log = []
        self.sum_candidates = []
        self.trig = None
        self.axioms.append((z3.And(PI > z3.RealVal("3.14159265358979"), PI < z3.RealVal("3.14159265358980")), PI))

    # ------------------------------------------------------------ names and facts
    def fresh_name(self, base):
        self.counter += 1
        return f"{base}!{self.counter}"

    def fresh_int(self, base="k"):
        return z3.Int(self.fresh_name(base))

    def fresh_real(self, base="x"):
        return z3.Real(self.fresh_name(base))

    def fresh_bool(self, base="b"):
        return z3.Bool(self.fresh_name(base))

    def ranged_int(self, base, lo, hi):
        """an integer constant in lo..hi (numbers, lo <= hi)"""
        v = z3.Int(self.fresh_name(base))
        self.ranges[v.get_id()] = (lo, hi)
        self.keep.append(v)
        self.axioms.append((z3.And(v >= lo, v <= hi), v))
        return v

    def axiom(self, f, trig=None):
        """a fact; with trig it matters only to queries in which the term trig occurs"""
        trig = trig if trig is not None else self.trig
        if isinstance(f, bool):
            return
        i = f.get_id()
        if i in self.ax_seen:
            return
        self.ax_seen.add(i)
        self.axioms.append((f, trig))

    def assume(self, f):
        """add to the path condition"""
        if f is True:
            return
        if f is False:
            raise PathEnd()
        self.pc.append(f)

    def pc_ids(self):
        pc, n, ids = self.pc_memo
        if pc is not self.pc or n != len(pc):
            ids = frozenset(id(p) if isinstance(p, Forall) else (p if isinstance(p, bool) else p.get_id()) for p in self.pc)
            self.pc_memo = (self.pc, len(self.pc), ids)
            self.keep.append(list(self.pc))
        return ids

    # ------------------------------------------------------------ solver
    def basic_facts(self, extra=(), opaque=False):
        """path condition and the axioms about terms that occur in it or in the query"""
        out = [zb(p) for p in self.pc if not isinstance(p, Forall)]
        seen = set()
        stack = list(out) + [zb(e) for e in extra]
        waiting = {}
        for f, t in self.axioms:
            if opaque and f.get_id() in self.defs or f.get_id() in self.soft and not self.refine:
                continue
            if t is None:
                out.append(f)
                stack.append(f)
            else:
                waiting.setdefault(t.get_id(), []).append(f)
        stack = [t.get_id() for t in stack if info(t)]
        while stack:
            i = stack.pop()
            if i in seen:
                continue
            seen.add(i)
            if i in waiting:
                fs = waiting.pop(i)
                out.extend(fs)
                stack.extend(f.get_id() for f in fs if info(f))
            r = INFO[i]
            for j, k in zip(r.ids, r.kids):
                if j not in seen:
                    if j not in INFO:
                        info(k)
                    stack.append(j)
        return out

    def left(self, ms):
        return ms if not self.deadline else int(max(500, min(ms, 1000 * (self.deadline - time.time()))))

    def over(self):
        return bool(self.deadline) and time.time() > self.deadline

    def quick(self, extra, ms=1500, opaque=False):
        if self.over():
            return z3.unknown
        extra = [zb(e) for e in extra]
        fs = self.basic_facts(extra, opaque)
        if self.int_first and not any(has_real(e) for e in extra):
            # questions about indices: the facts about numbers are left out
            fs = [f for f in fs if not has_real(f)]
        fs = fs + extra
        ms = min(ms, self.cap_ms)
        t = time.time()
        # the run time of the solver depends on chance: several short runs instead of one long one
        for seed in range(4 if ms >= 2000 else 2 if ms >= 1000 else 1):
            s = self.last_quick = z3.Solver()
            s.set("timeout", int(ms * SLOW / (1 if ms < 1000 else 2)))
            if seed:
                s.set("random_seed", seed)
            s.add(*fs)
            r = s.check()
            if r != z3.unknown or self.over():
                break
        self.stats["entails"] += 1
        self.stats["entails_s"] += time.time() - t
        return r

    def entails(self, c, ms=1500):
        if isinstance(c, bool):
            return c
        c = bsimp(c)
        if isinstance(c, bool):
            return c
        if c.get_id() in self.pc_ids():
            self.used += 1
            return True
        key = (c.get_id(), tuple(id(p) if isinstance(p, Forall) else (p.get_id() if not isinstance(p, bool) else p)
                                 for p in self.pc))
        if key in self.cache:
            r = self.cache[key][0]
        else:
            r = bool(self.defs) and self.quick([Not(c)], ms // 3, True) == z3.unsat
            r = r or self.quick([Not(c)], ms) == z3.unsat
            self.cache[key] = (r, c, list(self.pc))
        self.used += r
        return r

    def decide(self, c):
        """branch on a condition: the truth value taken on this path"""
        if isinstance(c, bool):
            return c
        c = bsimp(c)
        if isinstance(c, bool):
            return c
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the symbolic execution used up")
        if self.defs and self.opaque_calendar:
            # without the definitions first, both ways
            for v, q in ((True, c), (False, bsimp(Not(c)))):
                if q.get_id() in self.pc_ids() or self.quick([Not(q)], 500, True) == z3.unsat:
                    self.used += 1
                    return v
        if self.entails(c):
            return True
        if self.entails(Not(c)):
            return False
        if self.nofork:
            raise ForkInLoop()
        tr = self.trace
        if tr is None:
            raise Unsupported("branch outside of an exploration")
        if tr.pos < len(tr.choices):
            v = tr.choices[tr.pos]
        else:
            v = True
            tr.choices.append(True)
            tr.open.append(tr.pos)
        tr.pos += 1
        self.assume(c if v else Not(c))
        return v

    # ------------------------------------------------------------ exploration
    def snapshot(self):
        return [(o, o.get_state()) for o in self.heap]

    def restore(self, snap):
        for o, st in snap:
            o.set_state(st)
        self.heap = [o for o, _ in snap]

    def explore(self, thunk, limit=600):
        """run thunk on every path; list of (pc delta, outcome, heap snapshot)"""
        saved_trace, saved_pc, saved_nf = self.trace, list(self.pc), self.nofork
        snap = self.snapshot()
        results = []
        work = [[]]
        n = 0
        uid = self.explorations = getattr(self, "explorations", 0) + 1
        try:
            while work:
                choices = work.pop()
                n += 1
                if n > limit:
                    raise Unsupported(f"more than {limit} paths")
                self.restore(snap)
                self.pc = list(saved_pc)
                self.nofork = 0
                self.trace = Trace(list(choices), uid)
                k = len(choices)
                try:
                    try:
                        out = ("value", thunk())
                    except PyRaise as e:
                        out = ("raise", e)
                except PathEnd:
                    out = None
                tr = self.trace
                for pos in tr.open:
                    if pos >= k:
                        work.append(tr.choices[:pos] + [False])
                if out is not None:
                    results.append((self.pc[len(saved_pc):], out, self.snapshot()))
        finally:
            self.trace = saved_trace
            self.pc = saved_pc
            self.nofork = saved_nf
            self.restore(snap)
        return results

    # ------------------------------------------------------------ aggregates
    def probe_body(self, f):
        self.probing += 1
        u = self.used
        try:
            b = f(z3.Int(f"k!probe{self.probing}"))
        finally:
            self.probing -= 1
        self.body_dep[tkey(b)] = (self.used != u, b)
        return b

    def agg(self, kind, n, f, tag=None, body=None):
        if body is None:
            body = self.probe_body(f)
        # a body that was simplified with the path condition is f's body only where that holds
        key = (kind, tag, ikey(n), tkey(body), self.probing)
        for a, _, _, pcs in self.agg_memo.get(key, ()):
            if pcs is None or pcs <= self.pc_ids():
                self.used += pcs is not None
                return a
        pcs = self.pc_ids() if self.body_dep.get(tkey(body), (True,))[0] else None
        if kind != "fn":
            # the same values written differently
            sig = (kind, tag, ikey(n), self.probing, atoms(body))
            for a, b, p in self.agg_sig.get(sig, ()):
                if (p is None or p <= self.pc_ids()) and self.same_body(b, body):
                    self.used += p is not None
                    self.agg_memo.setdefault(key, []).append((a, n, body, p if pcs is None else pcs))
                    return a
        a = Agg(self, kind, n, f, tag)
        if kind != "fn":
            self.agg_sig.setdefault(sig, []).append((a, body, pcs))
        a.body = body
        a.probe = z3.Int(f"k!probe{self.probing + 1}")
        a.deps = [t for t in ([n, body] if not isinstance(body, SR) else [n, body.val, body.nan, body.inf])
                  if isinstance(t, z3.ExprRef)]
        self.deps["sorted_" + a.base] = a.deps
        self.agg_memo.setdefault(key, []).append((a, n, body, pcs))
        return a

    def same_body(self, a, b):
        """two bodies have the same value whatever the path and the index"""
        spc, self.pc = self.pc, []
        try:
            ne = Not(Iff(a, b)) if is_b(a) else (zi(a) != zi(b) if is_i(a) and is_i(b) else zr(a) != zr(b))
            return self.quick([ne], 100, True) == z3.unsat
        finally:
            self.pc = spc

    def rsum(self, n, f):
        """sum over 0<=k<n of a raw real f(k)"""
        if isinstance(n, int):
            if n <= 0:
                return F(0)
            if n <= 12:
                t = F(0)
                for k in range(n):
                    t = r_add(t, f(k))
                return self.named(t) if n >= 8 else t
        body = self.probe_body(f)
        if isinstance(body, (int, F)):
            if body == 0:
                return F(0)
            return r_mul(F(body), rv(self.pos(n)))
        a = self.agg("rsum", n, f, None, body)
        if not hasattr(a, "nonneg"):
            # a sum of terms that are never negative, whatever the path
            spc, self.pc = self.pc, []
            try:
                a.nonneg = self.quick([zr(body) < 0], 200) == z3.unsat
            finally:
                self.pc = spc
            if a.nonneg:
                f = a.const >= 0
                self.soft.add(f.get_id())
                self.axiom(f, a.const)
        return a.const

    def named(self, t):
        """a constant that stands for a large term (terms with the same value after simplification get the same one)"""
        if not isinstance(t, z3.ExprRef) or tsize(t) < 60:
            return t
        t = z3.simplify(t)
        if t.get_id() not in self.names:
            c = self.fresh_real("let")
            self.names[t.get_id()] = (t, c)
            self.deps[str(c)] = [t]
            f = c == t
            self.defs.add(f.get_id())
            self.axiom(f, c)
        return self.names[t.get_id()][1]

    def isum(self, n, f):
        if isinstance(n, int):
            if n <= 0:
                return 0
            if n <= 12:
                t = 0
                for k in range(n):
                    t = n_add(t, f(k))
                return t
        body = self.probe_body(f)
        if isinstance(body, bool):
            body = int(body)
        if isinstance(body, int):
            return n_mul(body, self.pos(n))
        for cand in self.sum_candidates:
            v = cand(self, n, f)
            if v is not None:
                return v
        return self.agg("isum", n, f, None, body).const

    def count(self, n, p):
        """how many 0<=k<n have p(k)"""
        body = self.probe_body(p)
        if isinstance(body, bool):
            return self.pos(n) if body else 0
        if isinstance(n, int) and n <= 12:
            t = 0
            for k in range(n):
                t = n_add(t, i_ite(p(k), 1, 0))
            return t
        if z3.is_not(body):
            # count of the negation: one aggregate for both
            return n_sub(self.pos(n), self.count(n, lambda k: Not(p(k))))
        a = self.agg("isum", n, lambda k: i_ite(p(k), 1, 0), "count", body)
        a.p = p
        return a.const

    def any(self, n, p):
        if isinstance(n, int) and n <= 12:
            return Or(*[p(k) for k in range(n)])
        body = self.probe_body(p)
        if isinstance(body, bool):
            if not body:
                return False
            return n_lt(0, n)
        return self.agg("any", n, p, None, body).const

    def pos(self, n):
        if isinstance(n, int):
            return max(n, 0)
        return n if self.entails(n >= 0) else i_ite(n >= 0, n, 0)

    # lemma instantiation ------------------------------------------------------
    def instantiate(self, goal, rounds=5, limit=1500):
        """quantifier-free consequences of the universal facts and of the aggregates, in rounds:
        yields the list of all lemmas so far after each round"""
        out = []
        done = set()
        w = Walk(self)
        w.add([zb(goal)] + self.basic_facts([goal]))
        pending = []

        def emit(key, fn):
            if key in done:
                return
            if self.over():
                raise Unsupported("time budget of the case used up")
            done.add(key)
            f = fn()
            if f is True:
                return
            f = zb(f)
            out.append(f)
            pending.append(f)

        def rng(k, n):
            return And(n_le(0, k), n_lt(k, n))

        for rnd in range(rounds):
            if (self.deadline and time.time() > self.deadline) or len(out) > limit:
                break
            before = len(out)
            aggs = [self.aggs[i] for i in sorted(w.live)]
            for fa in [p for p in self.pc if isinstance(p, Forall)]:
                for decl, (key, shape) in list(self.input_decl.items()):
                    if key != fa.key:
                        continue
                    for args in list(w.apps.get(decl, {}).values()):
                        ix = tuple(a.as_long() if z3.is_int_value(a) else a for a in args)
                        emit(("fa", id(fa), tuple(ikey(i) for i in ix)), lambda: fa.fn(ix))
            for a in aggs:
                if a.kind in ("rsum", "isum"):
                    lt = r_lt if a.kind == "rsum" else n_lt
                    le = r_le if a.kind == "rsum" else n_le
                    eq = r_eq if a.kind == "rsum" else n_eq
                    z = zr if a.kind == "rsum" else zi

                    def sign(a=a, lt=lt):
                        k = self.fresh_int("ks")
                        a.neg = And(rng(k, a.n), lt(a.at(k), 0))
                        return Or(a.neg, a.const >= 0)
                    if a.tag != "count":
                        emit(("sign", a.id), sign)

                    def zero(a=a):
                        return Implies(n_le(a.n, 0), a.const == 0)
                    emit(("zero", a.id), zero)

                    def single(a=a, z=z):
                        return Implies(n_eq(a.n, 1), a.const == z(a.at(0)))
                    if isinstance(a.n, z3.ExprRef):
                        emit(("one", a.id), single)

                    def allzero(a=a, eq=eq):
                        k = self.fresh_int("kz")
                        return Or(And(rng(k, a.n), Not(eq(a.at(k), 0))), a.const == 0)
                    emit(("allzero", a.id), allzero)
                if a.tag == "count":
                    emit(("cnt", a.id), lambda a=a: And(n_le(0, a.const), Implies(n_le(0, a.n), n_le(a.const, a.n))))

                    def full(a=a):
                        k = self.fresh_int("kf")
                        return Or(And(rng(k, a.n), Not(a.p(k))), Implies(n_le(0, a.n), n_eq(a.const, a.n)))
                    emit(("cntfull", a.id), full)
                if a.kind == "any":
                    if isinstance(a.n, z3.ExprRef):
                        emit(("one", a.id), lambda a=a: Implies(n_eq(a.n, 1), Iff(a.const, a.at(0))))

                    def wit(a=a):
                        k = self.fresh_int("kw")
                        return Implies(a.const, And(rng(k, a.n), a.at(k)))
                    emit(("wit", a.id), wit)
            # bodies at the indices that matter
            for a in aggs:
                if a.kind == "fn":
                    continue
                cnt = 0
                for t in w.candidates(a):
                    if isinstance(a.n, int) and isinstance(t, int) and not 0 <= t < a.n:
                        continue
                    if a.kind == "any":
                        emit(("nany", a.id, ikey(t)), lambda a=a, t=t: Implies(And(rng(t, a.n), a.at(t)), a.const))
                    elif a.tag == "count":
                        emit(("cel", a.id, ikey(t)), lambda a=a, t=t: Implies(rng(t, a.n), And(
                            Implies(a.p(t), a.const >= 1), Implies(Not(a.p(t)), n_le(a.const, n_sub(a.n, 1))))))
                    elif hasattr(a, "neg") and cnt < 8:
                        cnt += 1
                        emit(("sel", a.id, ikey(t)), lambda a=a, t=t: Implies(rng(t, a.n), Or(a.neg, (r_le if a.kind == "rsum" else n_le)(a.at(t), a.const))))
            for i, a in enumerate(aggs):
                for b in aggs[:i]:
                    if a.kind != b.kind or a.tag != b.tag or a.kind == "any" or a.tag == "count":
                        continue
                    if a.kind == "rsum" and self.real_decls(a) != self.real_decls(b):
                        continue
                    emit(("cong", a.id, b.id), lambda a=a, b=b: self.congruence(a, b))
            # counts: subset gives <=
            cnts = [a for a in aggs if a.tag == "count"]
            for a in cnts:
                for b in cnts:
                    if a is not b:
                        emit(("sub", a.id, b.id), lambda a=a, b=b: self.subset(a, b))
            for key, fn in self.uf_lemmas(w):
                emit(key, fn)
            if len(out) == before and rnd > 0:
                return
            w.add(pending)
            w.add(self.basic_facts(pending))
            del pending[:]
            yield out

    def real_decls(self, a):
        """names of the real-valued inputs and functions a sum is made of"""
        if not hasattr(a, "rdecls"):
            names = set()
            seen = set()
            stack = [t for t in a.deps]
            while stack:
                t = stack.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and t.sort() == z3.RealSort():
                    names.add(t.decl().name())
                if t.get_id() in self.agg_of:
                    stack.extend(self.agg_of[t.get_id()].deps)
                stack.extend(kids(t))
            a.rdecls = frozenset(names)
        return a.rdecls

    def subset(self, a, b):
        k = self.fresh_int("kc")
        return Or(Not(n_eq(a.n, b.n)),
                  And(n_le(0, k), n_lt(k, a.n), a.p(k), Not(b.p(k))), n_le(a.const, b.const))

    def congruence(self, a, b):
        k = self.fresh_int("kc")
        rng = And(n_le(0, k), n_lt(k, a.n))
        va, vb = a.at(k), b.at(k)
        if a.kind == "rsum":
            diff = Not(r_eq(va, vb))
        elif a.kind == "isum":
            diff = Not(n_eq(va, vb))
        elif a.kind == "any":
            diff = Not(Iff(va, vb))
        else:
            diff = Not(n_same(va, vb))
            eqs = [n_same(ra, b.res[name]) for name, ra in a.res.items() if name in b.res]
            if not eqs:
                return True
            return Or(Not(n_eq(a.n, b.n)), And(rng, diff), And(*eqs))
        if isinstance(diff, bool) and diff:
            return True
        return Or(Not(n_eq(a.n, b.n)), And(rng, diff), a.const == b.const)

    # ------------------------------------------------------------ equal aggregates
    def occurring(self, terms):
        """aggregates that occur in the terms themselves (not in bodies)"""
        out = {}
        for t in subterms(terms):
            a = self.agg_of.get(t.get_id())
            if a is None:
                nf = info(t)
                if nf.uf and nf.kids and nf.name in self.fn_decls:
                    a = self.fn_decls[nf.name]
            if a is not None:
                out[a.id] = a
        return [out[i] for i in sorted(out)]

    def light(self, terms, small=False):
        """instances of the universal facts (no element satisfies an `any`, Forall) at the indices of the terms"""
        out = []
        done = set()
        w = Walk(self)
        w.add([zb(t) if isinstance(t, bool) else t for t in terms])
        pcs = [p for p in self.pc if isinstance(p, z3.ExprRef)]
        for rnd in range(2):
            new = []
            anys = [a for a in self.occurring(pcs + list(terms) + out) if a.kind == "any" and (not small or self.is_flat(a))]
            own = {a.id for a in self.occurring(list(terms) + out)}
            for fa in [p for p in self.pc if isinstance(p, Forall)]:
                for decl, (key, shape) in list(self.input_decl.items()):
                    if key != fa.key:
                        continue
                    for args in list(w.apps.get(decl, {}).values()):
                        ix = tuple(a.as_long() if z3.is_int_value(a) else a for a in args)
                        k = ("fa", id(fa), tuple(ikey(i) for i in ix))
                        if k not in done:
                            done.add(k)
                            new.append(fa.fn(ix))
            if not small and rnd == 0:
                for a in self.occurring(list(terms)):
                    if a.tag == "count" and self.is_flat(a):
                        k = self.fresh_int("kf")
                        new.append(Or(And(n_le(0, k), n_lt(k, a.n), Not(a.p(k))), Implies(n_le(0, a.n), n_eq(a.const, a.n))))
                        k = self.fresh_int("kf")
                        new.append(Or(And(n_le(0, k), n_lt(k, a.n), a.p(k)), n_eq(a.const, 0)))
                        new.append(n_le(0, a.const))
            for a in anys:
                if a.id in own and ("wit", a.id) not in done:
                    done.add(("wit", a.id))
                    k = self.fresh_int("kw")
                    new.append(Implies(a.const, And(n_le(0, k), n_lt(k, a.n), a.at(k))))
                for t in w.candidates(a):
                    k = ("nany", a.id, ikey(t))
                    if k in done or len(done) > 200:
                        continue
                    done.add(k)
                    new.append(Implies(And(n_le(0, t), n_lt(t, a.n), a.at(t)), a.const))
            new = [zb(f) for f in new if f is not True]
            if not new:
                break
            out += new
            w.add(new)
        return out

    def sweep(self, terms, depth=0):
        """equalities between aggregates that occur in the terms, each proved for an arbitrary element"""
        facts = []
        if depth > 6:
            return facts
        reps = {}
        for a in self.occurring(terms):
            key = (a.kind, a.tag)
            for b in reps.setdefault(key, []):
                if self.deadline and time.time() > self.deadline:
                    return facts
                if self.same_agg(a, b, depth):
                    if a.kind == "fn":
                        facts += [zb(n_same(ra, b.res[name])) for name, ra in a.res.items() if name in b.res]
                    else:
                        facts.append(a.const == b.const)
                    break
                if a.tag == "count" and self.same_agg(a, b, depth, True):
                    facts.append(zb(Implies(n_le(0, a.n), n_eq(n_add(a.const, b.const), a.n))))
                    break
            else:
                reps[key].append(a)
        return facts

    def same_agg(self, a, b, depth, complement=False):
        key = ("same", complement, a.id, b.id, tuple(id(p) if isinstance(p, Forall) else (p if isinstance(p, bool) else p.get_id()) for p in self.pc))
        if key in self.cache:
            return self.cache[key][0]
        r = self.same_agg0(a, b, depth, complement)
        self.cache[key] = (r, list(self.pc))
        return r

    def deep_args(self, a):
        """arguments at which input functions are read in the body and in nested aggregates"""
        if not hasattr(a, "dargs"):
            d = {}
            for t in subterms(body_terms(a)):
                nf = info(t)
                if nf.uf and nf.kids and nf.name in self.input_decl:
                    d.setdefault(nf.name, {})[tuple(nf.ids)] = nf.kids
                b = self.agg_of.get(t.get_id())
                if b is not None:
                    for decl, x in self.deep_args(b).items():
                        d.setdefault(decl, {}).update(x)
            a.dargs = d
        return a.dargs

    def signature(self, a):
        """what an aggregate is made of: functions and nested aggregates"""
        if not hasattr(a, "sig"):
            names, nested = set(), set()
            for t in subterms(body_terms(a)):
                nf = info(t)
                if nf.uf and nf.kids and nf.name.startswith("f_"):
                    names.add(nf.name)
                b = self.agg_of.get(t.get_id())
                if b is not None:
                    nested.add(self.signature(b))
            a.sig = (a.kind, a.tag, frozenset(names), frozenset(nested))
        return a.sig

    def ieq(self, x, y):
        """are two integer terms equal here (a model of the path condition where they differ settles it quickly)"""
        c = n_eq(x, y)
        if isinstance(c, bool):
            return c
        ids = frozenset(id(p) if isinstance(p, Forall) else (p if isinstance(p, bool) else p.get_id()) for p in self.pc)
        for known, model in self.models:
            if ids <= known and z3.is_false(model.eval(c, model_completion=True)):
                return False
        if (c.get_id(), ids) in self.cache:
            return self.cache[(c.get_id(), ids)][0]
        s = z3.Solver()
        s.set("timeout", int(1500 * SLOW))
        s.add(*self.basic_facts([c]))
        s.add(zb(Not(c)))
        r = s.check()
        if r == z3.sat:
            self.models.insert(0, (ids, s.model()))
            del self.models[12:]
        self.cache[(c.get_id(), ids)] = (r == z3.unsat, c, list(self.pc))
        return r == z3.unsat

    def same_agg0(self, a, b, depth, complement=False):
        if a.kind in ("rsum", "fn") and not (self.real_decls(a) <= self.real_decls(b) or self.real_decls(b) <= self.real_decls(a)):
            return False
        if a.kind in ("any", "isum") and not (self.all_decls(a) & self.all_decls(b)):
            return False
        if self.signature(a) != self.signature(b) or not self.ieq(a.n, b.n):
            return False
        if a.probe.eq(b.probe):
            pa, pb = self.deep_args(a), self.deep_args(b)
            for decl in set(pa) & set(pb):
                if len(pa[decl]) == len(pb[decl]) == 1:
                    for x, y in zip(*list(pa[decl].values()), *list(pb[decl].values())):
                        if info(x).intsort and not self.ieq(x, y):
                            return False
        k = self.skolems.setdefault(depth, z3.Int(f"k!sweep{depth}"))
        saved = self.pc
        self.pc = saved + [zb(And(n_le(0, k), n_lt(k, a.n)))]
        try:
            va, vb = a.at(k), b.at(k)
            if a.kind == "rsum":
                g = r_eq(va, vb)
            elif a.kind == "any":
                g = Iff(va, vb)
            elif a.tag == "count":
                g = Iff(a.p(k), Not(b.p(k)) if complement else b.p(k))
            elif a.kind == "isum":
                g = n_eq(va, vb)
            else:
                g = n_same(va, vb)
            if isinstance(g, bool):
                return g
            return self.prove_swept(g, depth + 1, 1500) is not None
        finally:
            self.pc = saved

    def prove_swept(self, g, depth, ms):
        """name of the solver that proves g from the path condition, equal aggregates and instances of universal facts"""
        ng = zb(Not(g))
        if depth == 0:
            self.last_facts = []
        if self.quick([ng], ms) == z3.unsat:
            return "z3"
        facts = self.sweep([ng], depth)
        if depth == 0:
            self.last_facts = facts
        if facts and self.quick([ng] + facts, ms) == z3.unsat:
            return "z3"
        cong = self.congruences([ng])
        lem = self.light([ng] + cong, depth > 0)
        if lem or cong:
            if depth < 4:
                facts = self.sweep([ng] + lem, depth)
                if depth == 0:
                    self.last_facts = facts
            cong = self.congruences([ng] + lem)
            extra = self.light(cong, depth > 0)
            if self.quick([ng] + facts + lem + cong + extra, ms) == z3.unsat:
                return "z3"
        return None

    def congruences(self, terms, limit=30):
        """two sums over the same range differ only if some elements differ; for pairs that were not proved equal outright"""
        out = []
        flat = [a for a in self.occurring(terms) if a.kind in ("rsum", "isum", "any") and self.is_flat(a)]
        for i, a in enumerate(flat):
            for b in flat[:i]:
                if a.kind != b.kind or a.tag != b.tag or (a.kind == "rsum" and self.real_decls(a) != self.real_decls(b)):
                    continue
                if a.kind != "rsum" and not (self.all_decls(a) & self.all_decls(b)):
                    continue
                key = ("congf", a.id, b.id, self.pc_ids())
                if key not in self.cache:
                    self.cache[key] = (zb(self.congruence(a, b)) if self.ieq(a.n, b.n) else None,)
                f = self.cache[key][0]
                if f is not None and not self.entails(f):
                    out.append(f)
                    if len(out) >= limit:
                        return out
        return out

    def is_flat(self, a):
        """no aggregate inside of the body depends on the bound variable"""
        if not hasattr(a, "pats"):
            a.pats, a.nested = patterns(self, a)
        return not a.nested

    def all_decls(self, a):
        """names of all functions (inputs) an aggregate is made of"""
        if not hasattr(a, "adecls"):
            names = set()
            seen = set()
            stack = list(a.deps)
            while stack:
                t = stack.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                nf = info(t)
                if nf.uf and nf.kids:
                    names.add(nf.name)
                if t.get_id() in self.agg_of:
                    stack.extend(self.agg_of[t.get_id()].deps)
                stack.extend(nf.kids)
            a.adecls = frozenset(names)
        return a.adecls

    # ------------------------------------------------------------ uninterpreted functions of the reals
    MONO = {"log": 1, "log10": 1, "exp": 1, "sqrt": 1, "ppf": 1, "asin": 1, "acos": -1}

    def ufapp(self, name, *args):
        """raw real application of an uninterpreted real function"""
        zargs = [z3.simplify(zr(a)) for a in args]
        if name not in self.uf:
            self.uf[name] = z3.Function("f_" + name, *([z3.RealSort()] * (len(zargs) + 1)))
        t = self.uf[name](*zargs)
        apps = self.uf_apps.setdefault(name, {})
        if t.get_id() not in apps:
            apps[t.get_id()] = (zargs, t)
            old, self.trig = self.trig, t
            try:
                self.uf_axioms(name, zargs, t)
            finally:
                self.trig = old
        return t

    def uf_axioms(self, name, a, t):
        x = a[0]
        if name == "sqrt":
            self.axiom(z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)))
        elif name in ("sin", "cos"):
            self.axiom(z3.And(t >= -1, t <= 1))
            self.sincos(x)
        elif name == "acos":
            self.axiom(z3.Implies(z3.And(x >= -1, x <= 1), z3.And(t >= 0, t <= PI)))
            self.axiom(z3.And(z3.Implies(x == 1, t == 0), z3.Implies(x == 0, t == PI / 2), z3.Implies(x == -1, t == PI)))
            u = z3.simplify(-x)
            if not u.eq(x):
                s = self.uf["acos"](u)
                self.axiom(z3.Implies(z3.And(x >= -1, x <= 1), t + s == PI))
        elif name == "tan":
            u = z3.simplify(-x)
            self.axiom(t + self.uf["tan"](u) == 0)
            self.axiom(z3.Implies(x == 0, t == 0))
            self.axiom(z3.Implies(z3.And(x > 0, x < PI / 2), t > 0))
        elif name == "exp":
            self.axiom(t > 0)
            self.axiom(z3.Implies(x == 0, t == 1))
        elif name in ("log", "log10"):
            self.axiom(z3.Implies(x == 1, t == 0))
        elif name == "pow":
            self.axiom(z3.Implies(x > 0, t > 0))
            self.axiom(z3.Implies(z3.And(x == 0, a[1] > 0), t == 0))
            self.axiom(z3.Implies(a[1] == 0, t == 1))
            self.axiom(z3.Implies(a[1] == 1, t == x))
            self.axiom(z3.Implies(a[1] == 2, t == x * x))
        elif name in ("gcdf", "pcdf", "ncdf"):
            self.axiom(z3.And(t >= 0, t <= 1))
            if name == "gcdf":
                self.axiom(z3.Implies(x <= 0, t == 0))

    def sincos(self, x):
        pass

    def uf_lemmas(self, w):
        for name, apps in list(self.uf_apps.items()):
            items = [x for i, x in apps.items() if i in w.seen]
            if len(items) > 40:
                continue
            if name in self.MONO:
                sg = self.MONO[name]
                for i, (a, t) in enumerate(items):
                    for b, u in items[:i]:
                        if sg > 0:
                            f = lambda a=a, b=b, t=t, u=u: z3.And(z3.Implies(a[0] < b[0], t < u), z3.Implies(b[0] < a[0], u < t))
                            if name in ("log", "log10", "sqrt"):
                                f = lambda a=a, b=b, t=t, u=u: z3.Implies(z3.And(a[0] >= 0, b[0] >= 0),
                                    z3.And(z3.Implies(a[0] < b[0], t < u), z3.Implies(b[0] < a[0], u < t)))
                            if name == "ppf":
                                f = lambda a=a, b=b, t=t, u=u: z3.Implies(z3.And(a[0] > 0, b[0] > 0, a[0] < 1, b[0] < 1),
                                    z3.And(z3.Implies(a[0] < b[0], t < u), z3.Implies(b[0] < a[0], u < t)))
                            yield ("mono", name, t.get_id(), u.get_id()), f
                        else:
                            yield ("mono", name, t.get_id(), u.get_id()), (
                                lambda a=a, b=b, t=t, u=u: z3.Implies(z3.And(a[0] >= -1, b[0] >= -1, a[0] <= 1, b[0] <= 1),
                                    z3.And(z3.Implies(a[0] < b[0], t > u), z3.Implies(b[0] < a[0], u > t))))
            elif name in ("gcdf", "pcdf"):
                for i, (a, t) in enumerate(items):
                    for b, u in items[:i]:
                        yield ("mono", name, t.get_id(), u.get_id()), (
                            lambda a=a, b=b, t=t, u=u: z3.Implies(
                                z3.And(*[p == q for p, q in zip(a[1:], b[1:])]),
                                z3.And(z3.Implies(a[0] <= b[0], t <= u), z3.Implies(b[0] <= a[0], u <= t))))
            elif name == "pow":
                for i, (a, t) in enumerate(items):
                    for b, u in items[:i]:
                        yield ("mono", name, t.get_id(), u.get_id()), (
                            lambda a=a, b=b, t=t, u=u: z3.Implies(
                                z3.And(a[1] == b[1], a[1] > 0, a[0] >= 0, b[0] >= 0),
                                z3.And(z3.Implies(a[0] < b[0], t < u), z3.Implies(b[0] < a[0], u < t))))

    def suspect(self, r):
        """remember a model of the negated goal although not all facts were given to the solver"""
        if r == z3.sat:
            self.candidate = (self.last_quick, self.last_quick.model())

    def context_simplify(self, goal):
        """replace comparisons inside the goal whose truth the path condition settles"""
        for _ in range(3):
            if isinstance(goal, bool):
                break
            at, seen, stack = [], set(), [goal]
            while stack:
                x = stack.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_bool(x) and z3.is_app(x) and not z3.is_true(x) and not z3.is_false(x) and not (
                        z3.is_and(x) or z3.is_or(x) or z3.is_not(x) or z3.is_app_of(x, z3.Z3_OP_ITE)) and not (
                        z3.is_eq(x) and z3.is_bool(x.arg(0))):
                    at.append(x)
                stack.extend(x.children())
            s = z3.Solver()
            s.set("timeout", 150)
            s.add(*self.basic_facts([goal], True))
            sub = []
            for x in at[:120]:
                for v, t in ((True, z3.Not(x)), (False, x)):
                    if s.check(t) == z3.unsat:
                        sub.append((x, z3.BoolVal(v)))
                        break
            if not sub:
                break
            goal = bsimp(z3.substitute(goal, *sub))
        return goal

    def open_condition(self, goal):
        """the condition nearest to the root of the goal that is not settled"""
        seen, level = set(), [zb(goal)]
        while level:
            nxt = []
            for x in level:
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app_of(x, z3.Z3_OP_ITE):
                    at = [x.arg(0)]
                    while at:
                        y = at.pop(0)
                        if z3.is_and(y) or z3.is_or(y) or z3.is_not(y):
                            at.extend(y.children())
                        elif not (z3.is_true(y) or z3.is_false(y)):
                            return y
                nxt.extend(x.children())
            level = nxt
        return None

    def prove_split(self, goal, facts, until, depth=0):
        """prove by cases"""
        if isinstance(goal, bool) or depth > 5 or time.time() > until or self.over():
            return goal is True
        x = self.open_condition(goal)
        if x is None:
            return False
        for c in (x, z3.Not(x)):
            self.pc.append(c)
            try:
                g = bsimp(z3.substitute(zb(goal), (x, z3.BoolVal(c is x))))
                if g is True:
                    continue
                if self.quick([Not(g)] + facts, 1000) == z3.unsat:
                    continue
                g = self.context_simplify(g)
                if g is True:
                    continue
                if depth % 2 and self.prove_swept(g, 0, 2000):
                    continue
                if not self.prove_split(g, facts, until, depth + 1):
                    return False
            finally:
                self.pc.pop()
        return True

    # ------------------------------------------------------------ obligations
    def prove(self, goal, ms=None):
        """('unsat'|'sat'|'unknown', backend, seconds, model or None)"""
        ms = int((ms or self.SOLVER_MS) * SLOW)
        self.candidate = None
        if not isinstance(goal, bool):
            goal = bsimp(goal)
        t0 = time.time()
        if goal is True:
            return "unsat", "simplifier", 0.0, None
        self.stats["queries"] += 1
        r = z3.unknown
        if self.defs:
            # first without the definitions of large terms
            r = self.quick([Not(goal)], 1000, True)
            self.suspect(r)
            if r != z3.unsat:
                g2 = self.context_simplify(goal)
                if g2 is True:
                    r = z3.unsat
                elif g2 is not goal:
                    goal = g2
                    r = self.quick([Not(goal)], 1000, True)
                    self.suspect(r)
        if r != z3.unsat:
            r = self.quick([Not(goal)], 2000)
            self.suspect(r)
        backend = "z3"
        if r == z3.unknown:
            s = z3.Solver()
            s.add(*self.basic_facts([Not(goal)]))
            s.add(zb(Not(goal)))
            backend = second_opinion(s, self.left(3000))
            r = z3.unsat if backend else r
        if r == z3.unsat:
            dt = time.time() - t0
            self.stats["solver_s"] += dt
            return "unsat", backend, dt, None
        if not isinstance(goal, bool):
            w = Walk(self)
            w.add([zb(goal)] + self.basic_facts([goal]))
            mono = [f() for _, f in self.uf_lemmas(w)]
            if mono:
                mono = [f for f in mono if not isinstance(f, bool)]
                if self.quick([Not(goal)] + mono, 3000) == z3.unsat:
                    dt = time.time() - t0
                    self.stats["solver_s"] += dt
                    return "unsat", "z3", dt, None
        if self.prove_swept(goal, 0, 4000):
            dt = time.time() - t0
            self.stats["solver_s"] += dt
            return "unsat", "z3", dt, None
        facts = self.last_facts
        if self.prove_split(goal, facts, time.time() + 25 * SLOW):
            dt = time.time() - t0
            self.stats["solver_s"] += dt
            return "unsat", "z3", dt, None
        rounds = 0
        r = z3.unknown
        model = None
        for lem in self.instantiate(Not(goal)):
            lem = facts + lem
            rounds += 1
            s = z3.Solver()
            s.set("timeout", ms if rounds >= 3 else ms // 4)
            s.add(*self.basic_facts([Not(goal)] + lem))
            s.add(*lem)
            s.add(zb(Not(goal)))
            r = s.check()
            if r == z3.sat:
                self.candidate = (s, s.model())
            if r == z3.unsat or self.over():
                break
        backend = "z3"
        if not rounds:
            return "unknown", "", time.time() - t0, None
        model = s.model() if r == z3.sat else None
        self.last_solver = s
        if r == z3.unknown:
            b = second_opinion(s, self.left(ms))
            if b:
                r, backend = z3.unsat, b
        dt = time.time() - t0
        self.stats["solver_s"] += dt
        return str(r), backend, dt, model


class Walk:
    """ground terms of a query: applications with integer arguments and aggregates"""

    def __init__(self, m):
        self.m = m
        self.seen = set()
        self.apps = {}
        self.live = set()
        self.consts = {}

    def add(self, terms):
        stack = [t for t in terms if isinstance(t, z3.ExprRef)]
        while stack:
            t = stack.pop()
            i = t.get_id()
            if i in self.seen:
                continue
            self.seen.add(i)
            nf = info(t)
            ch = nf.kids
            if nf.uf:
                if ch:
                    if nf.name in self.m.fn_decls:
                        self.live.add(self.m.fn_decls[nf.name].id)
                    if any(info(c).intsort for c in ch):
                        self.apps.setdefault(nf.name, {})[tuple(nf.ids)] = ch
                elif i in self.m.agg_of:
                    self.live.add(self.m.agg_of[i].id)
                elif nf.intsort:
                    self.consts[i] = t
            stack.extend(ch)

    def candidates(self, a):
        """values of the bound variable at which the body of the aggregate meets a ground term"""
        m = self.m
        if not hasattr(a, "pats"):
            a.pats, a.nested = patterns(m, a)
        out = {}

        def put(k):
            if k is not None:
                out[ikey(k)] = k
        for decl, args in a.pats:
            for ground in self.apps.get(decl, {}).values():
                put(solve_args(m, args, ground, a.probe))
        for sub in a.nested:
            for i in self.live:
                b = m.aggs[i]
                if b is not sub and b.kind == sub.kind and b.tag == sub.tag:
                    for k in match_agg(m, sub, b, a.probe):
                        put(k)
        if not a.pats and not a.nested:
            for t in self.consts.values():
                out[ikey(t)] = t
        return list(out.values())


def subterms(terms):
    seen = set()
    stack = [t for t in terms if isinstance(t, z3.ExprRef)]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        yield t
        stack.extend(kids(t))


def has(t, v):
    return v.get_id() in leaves(t)


def body_terms(a):
    b = a.body
    return [t for t in ([b] if not isinstance(b, SR) else [b.val, b.nan, b.inf]) if isinstance(t, z3.ExprRef)]


def patterns(m, a):
    """applications in the body that mention the bound variable, and aggregates that depend on it"""
    pats, nested = [], []
    for t in subterms(body_terms(a)):
        nf = info(t)
        if nf.uf:
            ch = nf.kids
            if ch and any(info(c).intsort and has(c, a.probe) for c in ch):
                pats.append((nf.name, ch))
            elif not ch and t.get_id() in m.agg_of:
                b = m.agg_of[t.get_id()]
                if any(has(d, a.probe) for d in b.deps):
                    nested.append(b)
    return pats, nested


def solve_args(m, args, ground, probe):
    from . import arrays as A
    for p, g in zip(args, ground):
        if not info(p).intsort:
            continue
        if z3.is_app_of(p, z3.Z3_OP_MOD) or z3.is_app_of(p, z3.Z3_OP_IDIV):
            continue
        k = solve_lin(m, p, g, probe)
        if k is not None:
            return k
    # (e div P, e mod P)
    if len(args) >= 2 and z3.is_app_of(args[-1], z3.Z3_OP_MOD) and z3.is_int_value(args[-1].arg(1)):
        P = args[-1].arg(1).as_long()
        e = A.unflat(m, args[-2], args[-1], P)
        if isinstance(e, z3.ExprRef) and has(e, probe):
            g = A.unflat(m, conc(ground[-2]), conc(ground[-1]), P)
            return solve_lin(m, e, zi(g), probe)
    return None


def conc(t):
    return t.as_long() if z3.is_int_value(t) else t


def solve_lin(m, p, g, probe):
    from . import arrays as A
    d, c = A.lin(p)
    i = probe.get_id()
    if i not in d:
        return None
    k = d[i][1]
    rest = {j: v for j, v in d.items() if j != i}
    if any(has(v[0], probe) for v in rest.values()):
        return None
    r = n_sub(conc(g), A.unlin(rest, c))
    if k == 1:
        return r
    if k == -1:
        return n_neg(r)
    return A.divmod_const(m, r if k > 0 else n_neg(r), abs(k))[0]


def match_agg(m, sub, b, probe):
    """values of probe for which the nested aggregate may coincide with the ground one"""
    pats = [(info(t).name, kids(t)) for t in subterms(body_terms(sub)) if info(t).uf and kids(t)]
    gr = [(info(t).name, kids(t)) for t in subterms(body_terms(b)) if info(t).uf and kids(t)]
    n = 0
    for d, args in pats:
        for e, g in gr:
            if d == e:
                g2 = [z3.substitute(x, (b.probe, sub.probe)) if not b.probe.eq(sub.probe) else x for x in g]
                k = solve_args(m, args, g2, probe)
                if k is not None and (isinstance(k, int) or not has(k, sub.probe)) and (isinstance(k, int) or not has(k, probe)):
                    yield k
                    n += 1
                    if n > 6:
                        return


def second_opinion(s, ms):
    """name of another solver (or configuration) that finds the assertions unsatisfiable"""
    t = z3.Solver()
    t.set("arith.solver", 2)
    t.set("timeout", ms)
    t.add(*s.assertions())
    if t.check() == z3.unsat:
        return "z3"
    if cvc5_check(s, ms):
        return "cvc5"
    return None


def cvc5_check(s, ms):
    """True if cvc5 finds the assertions unsatisfiable"""
    name = None
    try:
        txt = s.to_smt2()
        if "(set-logic" not in txt:
            txt = "(set-logic ALL)\n" + txt
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
            fh.write(txt)
            name = fh.name
        p = subprocess.run(["cvc5", f"--tlimit={ms}", name], capture_output=True, text=True, timeout=ms / 1000 + 5)
        return p.stdout.strip().split("\n")[0] == "unsat"
    except Exception:
        return False
    finally:
        if name:
            os.unlink(name)


class Trace:
    def __init__(self, choices, uid=0):
        self.choices = choices
        self.uid = uid
        self.pos = 0
        self.open = []
