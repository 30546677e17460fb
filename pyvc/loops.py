"""Loops: unrolled when short and free of branches, else summarised for every number of iterations.

A summarised loop is re-executed at a symbolic iteration j.  Loop-carried scalars
get a closed form (invariant, reassigned, accumulated sum) or become a state
sequence sigma(j) with the step equation and the inductive invariants found among
the candidates; arrays are written cell by cell (the iteration that writes a cell
is solved for and checked to be the only one) or accumulated.  Anything else is
Unsupported.
"""
import ast
import os
import sys
import time
import z3
from .terms import *
from .machine import PyRaise, PathEnd, ForkInLoop, ikey, tkey
from . import arrays as A
from . import floats as FL

UNROLL = 31


def note(st, ex):
    if os.environ.get("PYVC_LOOPS"):
        print(f"loop at line {st.lineno} not summarised: {ex}", file=sys.stderr)


class Poison:
    """value of a variable before the body assigns it"""


class Stop(Exception):
    def __init__(self, how):
        self.how = how


def names_stored(body):
    out = set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
    return out


class Loops:
    def __init__(self, I):
        self.I = I
        self.m = I.m

    # ------------------------------------------------------------ sequences
    def sequence(self, v):
        from .interp import RangeVal, SeqVal, PyList
        I, m = self.I, self.m
        if isinstance(v, RangeVal):
            if all(isinstance(x, int) for x in (v.start, v.stop, v.step)):
                r = range(v.start, v.stop, v.step)
                if len(r) <= self.m.unroll:
                    return list(r)
                return SeqVal(len(r), lambda k: n_add(v.start, n_mul(k, v.step)))
            if not isinstance(v.step, int) or v.step == 0:
                raise Unsupported("symbolic range step")
            if v.step > 0:
                n = n_sub(v.stop, v.start)
            else:
                n = n_sub(v.start, v.stop)
            if abs(v.step) != 1:
                n = A.divmod_const(m, n_add(n, abs(v.step) - 1), abs(v.step))[0]
            if isinstance(n, int):
                n = max(n, 0)
                if n <= self.m.unroll:
                    return [n_add(v.start, k * v.step) for k in range(n)]
            elif not m.decide(n_le(0, n)):
                return []
            return SeqVal(n, lambda k: n_add(v.start, n_mul(k, v.step)))
        if isinstance(v, A.Arr):
            n = v.shape[0]
            if isinstance(n, int) and n <= self.m.unroll:
                return [I.getitem(v, k) for k in range(n)] if v.kind == "never" else SeqVal(n, lambda k: I.getitem(v, k))
            return SeqVal(n, lambda k: I.getitem(v, k))
        if isinstance(v, SeqVal):
            return v
        return I.iterate(v)

    # ------------------------------------------------------------ for
    def run_for(self, st, env):
        I, m = self.I, self.m
        seq = self.sequence(I.eval(st.iter, env))
        if isinstance(seq, list):
            items = seq
            n = len(items)
            elem = None
        else:
            n = seq.n
            elem = seq.elem
        lc = I.loop_contract
        if lc is not None and lc.applies(I.calls[-1] if I.calls else "", n):
            from .havoc import HavocLoop
            e2 = elem if elem is not None else (lambda k: I.getitem(tuple(items), k) if not (items and consecutive(items)) else n_add(items[0], k))
            HavocLoop(self, st, env, n, e2, lc).run()
            return
        if isinstance(n, int) and n <= self.m.unroll:
            get = (lambda k: items[k]) if elem is None else elem
            snap = m.snapshot()
            pc = list(m.pc)
            m.nofork += 1
            try:
                try:
                    self.unroll(st, env, n, get)
                    return
                finally:
                    m.nofork -= 1
            except ForkInLoop:
                m.restore(snap)
                m.pc = pc
            if n > 3 and (elem is not None or all(is_num(x) for x in items)):
                try:
                    e2 = elem if elem is not None else (lambda k: I.getitem(tuple(items), k)
                                                        if not consecutive(items) else n_add(items[0], k))
                    SymLoop(self, st, env, n, e2).run()
                    return
                except Unsupported as ex:
                    note(st, ex)
                    m.restore(snap)
                    m.pc = pc
            self.unroll(st, env, n, get)
            return
        if elem is None:
            if n <= 400:
                self.unroll(st, env, n, lambda k: items[k])
                return
            raise Unsupported("long list loop")
        snap = m.snapshot()
        pc = list(m.pc)
        try:
            SymLoop(self, st, env, n, elem).run()
        except Unsupported as ex:
            note(st, ex)
            if not (isinstance(n, int) and n <= 400):
                raise
            m.restore(snap)
            m.pc = pc
            self.unroll(st, env, n, elem)

    def unroll(self, st, env, n, get):
        from .interp import BreakEx, ContinueEx
        I = self.I
        for k in range(n):
            I.assign(st.target, get(k), env)
            try:
                I.exec_block(st.body, env)
            except ContinueEx:
                pass
            except BreakEx:
                return
        I.exec_block(st.orelse, env)

    # ------------------------------------------------------------ while
    def run_while(self, st, env):
        from .interp import BreakEx, ContinueEx
        I, m = self.I, self.m
        lc = I.loop_contract
        if lc is not None and lc.applies(I.calls[-1] if I.calls else "", None):
            from .havoc import HavocLoop
            HavocLoop(self, st, env, None, None, lc).run()
            return
        snap = m.snapshot()
        pc = list(m.pc)
        m.nofork += 1
        try:
            try:
                k = 0
                while True:
                    if not I.truth(I.eval(st.test, env)):
                        I.exec_block(st.orelse, env)
                        return
                    k += 1
                    if k > 200:
                        raise ForkInLoop()
                    try:
                        I.exec_block(st.body, env)
                    except ContinueEx:
                        pass
                    except BreakEx:
                        return
            finally:
                m.nofork -= 1
        except ForkInLoop:
            m.restore(snap)
            m.pc = pc
        SymLoop(self, st, env, None, None).run()

    def listcomp(self, e, env, seq):
        """[f(x) for x in seq] of symbolic or large length, without conditions"""
        from .interp import ListArr, Env
        I, m = self.I, self.m
        g = e.generators[0]
        snap0 = m.snapshot()
        pc0 = list(m.pc)
        memo = {}

        def at(j):
            key = ikey(j)
            if key in memo:
                return memo[key][1]
            saved = m.snapshot()
            spc = m.pc
            m.restore(snap0)
            m.pc = pc0 + [zb(And(n_le(0, j), n_lt(j, seq.n)))]
            try:
                def thunk():
                    cenv = Env(m, env, env.globs)
                    I.assign(g.target, seq.elem(j), cenv)
                    return I.eval(e.elt, cenv)
                res = m.explore(thunk)
            finally:
                m.restore(saved)
                m.pc = spc
            v = None
            for d, out, snap in reversed(res):
                if out[0] == "raise":
                    raise Unsupported("exception in a symbolic comprehension")
                x = out[1]
                if not is_num(x):
                    raise Unsupported("comprehension of non-numbers")
                v = x if v is None else n_ite(simp(And(*d)), x, v)
            memo[key] = (j, v)
            return v
        j0 = m.fresh_int("j")
        p = at(j0)
        kind = num_kind(p).replace("r", "f")
        buf = A.Buf(m, A.Leaf(m, lambda idx: at(idx[0])))
        return ListArr(m, buf, (seq.n,), kind)


def consecutive(items):
    return all(isinstance(x, int) for x in items) and items == list(range(items[0], items[0] + len(items)))


def simp(c):
    return c if isinstance(c, bool) else bsimp(c)


class Cell:
    """a loop-carried scalar: a variable, a dictionary entry or a list element"""

    def __init__(self, owner, key):
        self.owner = owner
        self.key = key
        self.init = None
        self.kind = None
        self.np = False
        self.level = None
        self.how = None
        self.ph = None

    @property
    def name(self):
        return str(self.key)

    def get(self, state):
        st = state.get(id(self.owner))
        if st is None:
            return None
        try:
            v = st[self.key]
        except (KeyError, IndexError):
            return None
        return v

    def put(self, v):
        from .interp import Env, PyDict, PyList
        if isinstance(self.owner, Env):
            self.owner.vars[self.key] = v
        elif isinstance(self.owner, PyDict):
            self.owner.d[self.key] = v
        else:
            self.owner.items[self.key] = v


class Guard:
    """content of an array that the loop writes, as seen at the start of iteration j"""

    def __init__(self, loop, buf, j, mode):
        self.loop, self.buf, self.j, self.mode = loop, buf, j, mode

    def at(self, idx):
        return self.loop.read_guard(self, idx)


class PathRes:
    pass


class SymLoop:
    def __init__(self, loops, st, env, n, elem):
        self.L = loops
        self.I = loops.I
        self.m = loops.m
        self.st = st
        self.env = env
        self.is_while = n is None
        self.n = self.m.fresh_int("iterations") if n is None else n
        self.elem = elem
        self.memo = {}
        self.cells = []
        self.bufs = {}          # id -> (buf, pre content)
        self.bufmode = {}       # id -> 'map' | 'acc'
        self.levels = 0
        self.reads = {}
        self.dry = False
        self.ufs = {}
        self.invs = []
        self.rec = []
        self.inverters = {}
        self.accmemo = {}

    # ------------------------------------------------------------ running the body
    def body(self, j):
        from .interp import BreakEx, ContinueEx, ReturnEx
        I = self.I
        if self.is_while:
            if not I.truth(I.eval(self.st.test, self.env)):
                raise PathEnd()
        else:
            I.assign(self.st.target, self.elem(j), self.env)
        try:
            I.exec_block(self.st.body, self.env)
        except ContinueEx:
            pass
        except BreakEx:
            return "break"
        except ReturnEx:
            return "return"
        return "next"

    def exec_at(self, j, setup):
        """paths of the body at iteration j from the state that setup() installs"""
        m = self.m
        saved, spc, sctx, snf = m.snapshot(), m.pc, self.I.loopctx, m.nofork
        m.restore(self.snap)
        m.pc = self.base_pc + ([zb(And(n_le(0, j), n_lt(j, self.n)))] if not self.is_while else
                               [zb(And(n_le(0, j), n_lt(j, self.n)))])
        self.I.loopctx = sctx[:0] + self.ctx + ((self.uid, ikey(j)),)
        try:
            m.pc = m.pc + list(setup() or [])
            res = m.explore(lambda: self.body(j))
        finally:
            m.restore(saved)
            m.pc = spc
            self.I.loopctx = sctx
            m.nofork = snf
        out = []
        for delta, o, snap in res:
            p = PathRes()
            p.delta = delta
            p.cond = simp(And(*[zb(d) for d in delta])) if delta else True
            p.kind, p.out = o
            p.state = {id(ob): s for ob, s in snap}
            p.keep = snap
            out.append(p)
        return out

    def run(self):
        m, I = self.m, self.I
        self.base_pc = list(m.pc)
        I.counter.n += 1
        self.ctx = I.loopctx
        self.uid = (self.st.lineno, self.st.col_offset, I.counter.n)
        self.tag = f"L{self.st.lineno}_{abs(hash((self.ctx, self.uid, tuple(d.get_id() for d in self.base_pc if isinstance(d, z3.ExprRef))))) % 10**9}"
        if self.is_while:
            m.assume(self.n >= 0)
            self.base_pc = list(m.pc)
        self.snap = m.snapshot()
        self.pre = {id(o): s for o, s in self.snap}
        self.j0 = m.fresh_int("j")
        if isinstance(self.n, int) and self.n == 0:
            return
        self.discover()
        self.classify()
        self.verify()
        self.finish()

    # ------------------------------------------------------------ what the body changes
    def discover(self):
        from .interp import Env, PyDict, PyList
        m = self.m
        names = names_stored(self.st.body)
        if not self.is_while:
            names |= {n.id for n in ast.walk(self.st.target) if isinstance(n, ast.Name)}
        self.names = names
        self.temps = []
        for nm in sorted(names):
            e = self.env
            d = e.declared.get(nm)
            if d:
                raise Unsupported("global or nonlocal variable assigned in a loop")
            v = e.vars.get(nm)
            from .interp import LazyVal
            if isinstance(v, LazyVal):
                try:
                    v = v.force()
                except Unsupported:
                    v = None
            if v is not None and is_num(v):
                c = Cell(e, nm)
                self.add_cell(c, v)
            else:
                self.temps.append(nm)
        for rnd in range(12):
            self.memo.clear()
            for b in self.bufs.values():
                self.bufmode.setdefault(id(b[0]), "ph")
            paths = self.exec_at(self.j0, lambda: self.setup_ph(self.j0))
            changed = False
            for p in paths:
                if p.kind == "raise":
                    continue
                if p.out in ("break", "return"):
                    raise Unsupported(f"{p.out} in a symbolic loop")
                for o, pre in self.snap:
                    post = p.state.get(id(o))
                    if isinstance(o, A.Buf):
                        base = self.bufs[id(o)][2] if id(o) in self.bufs else pre
                        if post is not base and id(o) not in self.bufs:
                            self.bufs[id(o)] = (o, pre, Guard(self, o, self.j0, "ph"))
                            changed = True
                    elif isinstance(o, Env):
                        if o is self.env:
                            continue
                        for k in post:
                            if k not in pre or post[k] is not pre[k]:
                                if self.find(o, k) is None:
                                    raise Unsupported(f"enclosing variable {k} assigned in a loop")
                    elif isinstance(o, PyDict):
                        for k in post:
                            if k not in pre:
                                raise Unsupported("dictionary entry created in a symbolic loop")
                            c = self.find(o, k)
                            if c is None and not same_val(post[k], pre[k]):
                                if not (is_num(post[k]) and is_num(pre[k])):
                                    raise Unsupported(f"dictionary entry {k} rebound in a loop")
                                self.add_cell(Cell(o, k), pre[k])
                                changed = True
                    elif isinstance(o, PyList):
                        if len(post) != len(pre):
                            raise Unsupported("list grows in a symbolic loop")
                        for k, (x, y) in enumerate(zip(pre, post)):
                            if self.find(o, k) is None and not same_val(x, y):
                                if not (is_num(x) and is_num(y)):
                                    raise Unsupported("list element rebound in a loop")
                                self.add_cell(Cell(o, k), x)
                                changed = True
                for c in self.cells:
                    v = c.get(p.state)
                    if v is None or not is_num(v):
                        if isinstance(v, Poison) or v is None:
                            continue
                        raise Unsupported(f"loop variable {c.name} changes type")
                    k = num_kind(v)
                    if order(k) > order(c.kind):
                        c.kind = k
                        changed = True
                    if FL.isnp(v) and not c.np:
                        c.np = True
                        changed = True
                    if changed:
                        self.make_ph(c)
            if not changed:
                self.paths0 = paths
                return
        raise Unsupported("loop state does not stabilise")

    def find(self, owner, key):
        for c in self.cells:
            if c.owner is owner and c.key == key:
                return c
        return None

    def add_cell(self, c, init):
        c.init = init
        c.kind = num_kind(init)
        c.np = FL.isnp(init)
        self.make_ph(c)
        self.cells.append(c)

    def make_ph(self, c):
        m = self.m
        if c.kind == "i":
            c.ph = m.fresh_int("ph")
        elif c.kind == "b":
            c.ph = m.fresh_bool("ph")
        else:
            c.ph = SR(m.fresh_real("ph"), m.fresh_bool("phn"), False, c.np)

    def setup_ph(self, j):
        for c in self.cells:
            c.put(c.ph)
        for nm in self.temps:
            self.env.vars[nm] = Poison()
        for b, pre, g in self.bufs.values():
            b.content = g
        return []

    # ------------------------------------------------------------ guards
    def ph_read(self, buf, idx):
        """placeholder for an element the loop may have changed in an earlier iteration"""
        key = ("ph", id(buf))
        if key not in self.ufs:
            kind = "f"
            probe = self.bufs[id(buf)][1].at(tuple(0 if isinstance(i, int) else i for i in idx))
            kind = num_kind(probe)
            srt = {"r": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[kind]
            args = [z3.IntSort()] * len(idx)
            nm = self.m.fresh_name("phbuf")
            self.ufs[key] = (kind, z3.Function(nm, *args, srt), z3.Function(nm + "n", *args, z3.BoolSort()))
        kind, f, fn = self.ufs[key]
        z = [zi(i) for i in idx]
        if kind == "r":
            return SR(f(*z), fn(*z), False, True)
        return f(*z)

    def read_guard(self, g, idx):
        bid = id(g.buf)
        buf, pre, _ = self.bufs[bid]
        if g.mode == "ph":
            self.reads.setdefault(bid, []).append(idx)
            return self.ph_read(buf, idx)
        if self.bufmode.get(bid) == "acc":
            return self.acc_value(buf, g.j, idx)
        if g.mode == "verify":
            self.reads.setdefault((bid, "v"), []).append((idx, list(self.m.pc)))
        return pre.at(idx)

    # ------------------------------------------------------------ classification
    def mentions(self, terms, names):
        return mentions(self.m, terms, names)

    def classify(self):
        m = self.m
        paths = [p for p in self.paths0 if p.kind != "raise"]
        if not paths:
            # every iteration raises
            for p in self.paths0:
                pass
        todo = list(self.cells)
        self.order = []

        def ph_names(cs):
            out = set()
            for c in cs:
                if c.kind == "r":
                    out |= {str(c.ph.val), str(c.ph.nan)}
                else:
                    out.add(str(c.ph))
            return out
        level = 0
        while todo:
            done = []
            for c in todo:
                others = ph_names([d for d in todo if d is not c])
                own = ph_names([c])
                vals = [(p, c.get(p.state)) for p in paths]
                if all(v is not None and is_num(v) and same_num(v, c.ph) for p, v in vals):
                    c.how = "inv"
                    done.append(c)
                    continue
                if any(isinstance(v, Poison) or v is None for p, v in vals):
                    raise Unsupported(f"loop variable {c.name} undefined")
                bad = False
                for p, v in vals:
                    if self.mentions(parts(v) + list(p.delta), others | own):
                        bad = True
                        break
                if not bad:
                    c.how = "asg"
                    done.append(c)
                    continue
                ok = c.kind in ("i", "r")
                if ok:
                    for p, v in vals:
                        if self.mentions(list(p.delta), others | own):
                            ok = False
                            break
                        g = increment(v, c.ph)
                        if g is None or self.mentions(parts(g), others | own):
                            ok = False
                            break
                if ok:
                    c.how = "acc"
                    done.append(c)
            if not done:
                break
            for c in done:
                c.level = level
                todo.remove(c)
                self.order.append(c)
            level += 1
        for c in todo:
            c.how = "rec"
            c.level = level
        self.rec = todo
        self.levels = level + 1
        # arrays: first as plain writes
        for bid in self.bufs:
            self.bufmode[bid] = "map"
        if self.rec:
            self.find_invariants()

    # ------------------------------------------------------------ closed forms
    def closed(self, c, j):
        """value of cell c at the start of iteration j"""
        m = self.m
        if c.how == "inv":
            return c.init
        if c.how == "asg":
            if isinstance(j, int) and j == 0:
                return lift(c.init, c)
            j1 = n_sub(j, 1)
            v = self.merged(c, j1, c.level)
            z = simp(n_eq(j, 0))
            return FL.tag(n_ite(z, lift(c.init, c), v), c.np)
        if c.how == "acc":
            f = lambda i: self.inc(c, i)
            if c.kind == "i":
                s = m.isum(j, f)
                return n_add(c.init, s)
            s = FL.fsum(m, j, f)
            return FL.tag(f_add(lift(c.init, c), s), c.np)
        return self.sigma(c, j)

    def inc(self, c, i):
        key = (id(c), ikey(i))
        if key not in self.accmemo:
            v = None
            for p in reversed([p for p in self.at(i, c.level) if p.kind != "raise"]):
                g = increment(c.get(p.state), c.ph)
                if g is None:
                    raise Unsupported("increment")
                v = g if v is None else n_ite(p.cond, g, v)
            if v is None:
                v = 0 if c.kind == "i" else F(0)
            self.accmemo[key] = (i, v)
        return self.accmemo[key][1]

    def merged(self, c, j, level=None):
        v = None
        for p in reversed([p for p in self.at(j, level) if p.kind != "raise"]):
            x = lift(c.get(p.state), c)
            v = x if v is None else n_ite(p.cond, x, v)
        if v is None:
            v = lift(c.init, c)
        return FL.tag(v, c.np)

    def sigma(self, c, j):
        m = self.m
        key = ("sigma", id(c))
        if key not in self.ufs:
            nm = f"s_{self.tag}_{c.name}"
            srt = {"r": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[c.kind]
            self.ufs[key] = (z3.Function(nm, z3.IntSort(), srt), z3.Function(nm + "_n", z3.IntSort(), z3.BoolSort()))
            f, fn = self.ufs[key]
            self.guarded(True, n_same(self.sig(c, 0), lift(c.init, c)))
        v = self.sig(c, j)
        k = ("inv", ikey(j))
        if k not in self.ufs:
            self.ufs[k] = j
            vals = {d.name: self.sig_full(d, j) for d in self.rec}
            for lab, fn in self.invs:
                f = fn(vals)
                if f is not None:
                    self.guarded(And(n_le(0, j), n_le(j, self.n)), f)
        return v

    def sig_full(self, c, j):
        if ("sigma", id(c)) not in self.ufs:
            self.sigma(c, j)
        return self.sig(c, j)

    def sig(self, c, j):
        f, fn = self.ufs[("sigma", id(c))]
        if c.kind == "r":
            nn = ("nonan", id(c)) in self.ufs
            return SR(f(zi(j)), False if nn else fn(zi(j)), False, c.np)
        return f(zi(j))

    def guarded(self, cond, f):
        g = [p for p in self.base_pc if isinstance(p, z3.ExprRef)]
        x = Implies(And(*([zb(q) for q in g] + [cond])), f)
        if x is not True:
            self.m.axiom(zb(x))

    def at(self, j, level=None):
        """paths of iteration j: cells below `level` have their closed forms, the others placeholders"""
        level = self.levels if level is None else level
        key = (level, ikey(j))
        if key in self.memo:
            return self.memo[key][1]

        def setup():
            for c in self.cells:
                if c.level is not None and c.level < level:
                    c.put(self.closed(c, j))
                else:
                    c.put(c.ph)
            for nm in self.temps:
                self.env.vars[nm] = Poison()
            for b, pre, g in self.bufs.values():
                b.content = Guard(self, b, j, "run")
            return []
        # the closed forms at j may need other iterations: compute them outside of the restored state
        vals = [(c, self.closed(c, j) if c.level is not None and c.level < level else c.ph) for c in self.cells]

        def setup2():
            for c, v in vals:
                c.put(v)
            for nm in self.temps:
                self.env.vars[nm] = Poison()
            for b, pre, g in self.bufs.values():
                b.content = Guard(self, b, j, "run")
            return []
        paths = self.exec_at(j, setup2)
        for p in paths:
            if p.kind != "raise" and p.out in ("break", "return"):
                raise Unsupported(f"{p.out} in a symbolic loop")
        self.memo[key] = (j, paths)
        if level == self.levels and self.rec:
            ok = [p for p in paths if p.kind != "raise"]
            for c in self.rec:
                v = None
                for p in reversed(ok):
                    x = lift(c.get(p.state), c)
                    v = x if v is None else n_ite(p.cond, x, v)
                if v is not None:
                    j1 = n_add(j, 1)
                    self.guarded(And(n_le(0, j), n_lt(j, self.n)), n_same(self.sigma(c, j1), v))
        return paths

    # ------------------------------------------------------------ invariants of recurrent state
    def find_invariants(self):
        m, I = self.m, self.I
        cands = []
        for c in self.rec:
            if c.kind == "r":
                cands.append((f"{c.name} is not NaN", lambda vals, c=c: Not(R(vals[c.name]).nan)))
        for gen in I.inv_candidates:
            cands.extend(gen([c.name for c in self.rec if c.kind == "r"]))
        init = {c.name: lift(c.init, c) for c in self.rec}
        live = [(lab, fn) for lab, fn in cands if self.prove0(self.base_pc, fn(init))]
        while True:
            ph = {c.name: c.ph for c in self.rec}

            def setup():
                self.setup_ph(self.j0)
                # cells with closed forms
                return [zb(fn(ph)) for lab, fn in live]
            paths = self.exec_at(self.j0, setup)
            drop = set()
            for p in paths:
                if p.kind == "raise":
                    continue
                post = {c.name: c.get(p.state) for c in self.rec}
                hyp = (self.base_pc + [zb(And(n_le(0, self.j0), n_lt(self.j0, self.n)))] +
                       [zb(fn(ph)) for lab, fn in live] + list(p.delta))
                for lab, fn in live:
                    if lab not in drop and not self.prove0(hyp, fn(post)):
                        drop.add(lab)
            if not drop:
                break
            live = [x for x in live if x[0] not in drop]
        self.invs = live
        for c in self.rec:
            if any(lab == f"{c.name} is not NaN" for lab, fn in live):
                self.ufs[("nonan", id(c))] = True
        I.found_invs = getattr(I, "found_invs", []) + [lab for lab, fn in live]

    def prove0(self, hyp, f):
        if f is True:
            return True
        if f is False:
            f = z3.BoolVal(False)
        m = self.m
        spc = m.pc
        m.pc = list(hyp)
        try:
            return m.entails(zb(f), 3000)
        finally:
            m.pc = spc

    # ------------------------------------------------------------ arrays
    def writes(self, p, buf):
        """write nodes of a path on buf, newest first"""
        node = p.state[id(buf)]
        out = []
        while isinstance(node, A.Write):
            out.append(node)
            node = node.old
            if not isinstance(node, (A.Write, Guard)) and node is self.bufs[id(buf)][1]:
                break
        return out

    def region(self, j, buf, b):
        """does iteration j write buffer index b"""
        r = False
        for p in self.possible(j):
            w = [nd.cond(b) for nd in self.writes(p, buf)]
            pc = True if self.m.refine and self.m.entails(p.cond, 300) else p.cond
            r = Or(r, And(pc, Or(*w) if w else False))
        return simp(r)

    def possible(self, j):
        """paths of iteration j that the path condition of the caller leaves open"""
        ps = [p for p in self.at(j) if p.kind != "raise"]
        if len(ps) < 2 or not self.m.refine:
            return ps
        out = [p for p in ps if not self.m.entails(Not(p.cond), 300)]
        return out or ps

    def value(self, j, buf, b, old):
        v = old
        for p in reversed([p for p in self.at(j) if p.kind != "raise"]):
            nodes = self.writes(p, buf)
            x = None
            for nd in reversed(nodes):
                c = nd.cond(b)
                if c is False:
                    continue
                val = nd.val(b)
                x = val if c is True else n_ite(c, val, old if x is None else x)
            if x is None:
                x = old
            v = x if v is old and p.cond is True else n_ite(p.cond, x, v)
        return v

    def written(self, j, buf, b):
        """the value iteration j leaves at an index b that it writes"""
        v = None
        for p in reversed(self.possible(j)):
            x = None
            for nd in reversed(self.writes(p, buf)):
                c = nd.cond(b)
                if c is False:
                    continue
                val = nd.val(b)
                x = val if x is None or c is True else n_ite(c, val, x)
            if x is not None:
                v = x if v is None else n_ite(p.cond, x, v)
        return v

    def verify(self):
        """reads of arrays that the loop writes are not affected by earlier iterations"""
        m = self.m
        for bid, (buf, pre, g) in self.bufs.items():
            if bid not in self.reads:
                continue
            # reads at iteration j0 in the final configuration
            j = m.fresh_int("jv")
            i = m.fresh_int("iv")
            self.reads[(bid, "v")] = []
            vals = [(c, self.closed(c, j)) for c in self.cells]

            def setup():
                for c, v in vals:
                    c.put(v)
                for nm in self.temps:
                    self.env.vars[nm] = Poison()
                for b2, pre2, g2 in self.bufs.values():
                    b2.content = Guard(self, b2, j, "verify" if b2 is buf else "run")
                return []
            try:
                paths = self.exec_at(j, setup)
                # contents are lazy: force the written values at generic cells
                b = None
                for p in paths:
                    if p.kind == "raise":
                        continue
                    for c in self.cells:
                        c.get(p.state)
                    for b2, pre2, g2 in self.bufs.values():
                        for nd in self.writes(p, b2):
                            bb = self.generic_index(b2)
                            nd.cond(bb)
                            nd.val(bb)
                ok = True
                for idx, pc in self.reads[(bid, "v")]:
                    r = self.region(i, buf, idx)
                    hyp = self.base_pc + [zb(And(n_le(0, i), n_lt(i, j), n_lt(j, self.n)))] + [
                        q for q in pc if isinstance(q, z3.ExprRef)]
                    if not self.prove0(hyp, Not(r)):
                        ok = False
                        break
            except Unsupported:
                ok = False
            if not ok:
                self.try_acc(buf)

    def generic_index(self, buf):
        key = ("gen", id(buf))
        if key not in self.ufs:
            nd = self.ndim_of(buf)
            self.ufs[key] = tuple(self.m.fresh_int("b") for _ in range(nd))
        return self.ufs[key]

    def ndim_of(self, buf):
        content = self.bufs[id(buf)][1]
        # every buffer records its dimension through the arrays that use it
        return buf.ndim

    def try_acc(self, buf):
        """every write adds to the element it writes"""
        m = self.m
        bid = id(buf)
        key = ("ph", bid)
        if key not in self.ufs:
            raise Unsupported("array recurrence")
        kind, f, fn = self.ufs[key]
        names = {f.name(), fn.name()}
        ph_all = set()
        for c in self.rec:
            pass
        for p in self.paths0:
            if p.kind == "raise":
                continue
            if self.mentions(list(p.delta), names):
                raise Unsupported("array recurrence in a condition")
            for c in self.cells:
                v = c.get(p.state)
                if v is not None and is_num(v) and self.mentions(parts(v), names):
                    raise Unsupported("scalar depends on an accumulated array")
            for b2, pre2, g2 in self.bufs.values():
                bb = self.generic_index(b2)
                for nd in self.writes(p, b2):
                    if b2 is buf:
                        if self.acc_inc(p, nd, bb, names) is None:
                            raise Unsupported("array recurrence")
                    elif self.mentions(parts(nd.val(bb)) + parts(nd.cond(bb)), names):
                        raise Unsupported("array depends on an accumulated array")
        self.bufmode[bid] = "acc"
        self.accnames = getattr(self, "accnames", {})
        self.accnames[bid] = names
        self.memo.clear()

    def acc_inc(self, p, nd, b, names):
        """(cond, increment) of one accumulating write at index b"""
        c = nd.cond(b)
        if c is False:
            return (False, F(0))
        if self.mentions(parts(c), names):
            return None
        v = nd.val(b)
        for t in ufapps(v, names):
            idx = t.children()
            ph = self.ph_read_app(t)
            g = increment(v, ph)
            if g is None or self.mentions(parts(g), names):
                continue
            same = And(*[n_eq(x, y) for x, y in zip(idx, b)])
            if self.prove0(self.base_pc + list(p.delta) + [zb(c)], same):
                return (c, g)
        return None

    def ph_read_app(self, t):
        for key, v in self.ufs.items():
            if isinstance(key, tuple) and key[0] == "ph" and v[1].name() == t.decl().name():
                kind, f, fn = v
                if kind == "r":
                    return SR(t, fn(*t.children()), False, True)
                return t
        raise Unsupported("placeholder")

    def at_acc(self, buf, j):
        """paths of iteration j with buf read as placeholders (to extract increments)"""
        key = ("acc", id(buf), ikey(j))
        if key in self.memo:
            return self.memo[key][1]
        vals = [(c, self.closed(c, j)) for c in self.cells]

        def setup():
            for c, v in vals:
                c.put(v)
            for nm in self.temps:
                self.env.vars[nm] = Poison()
            for b2, pre2, g2 in self.bufs.values():
                b2.content = Guard(self, b2, j, "ph" if b2 is buf else "run")
            return []
        paths = self.exec_at(j, setup)
        self.memo[key] = (j, paths)
        return paths

    def acc_value(self, buf, j, idx):
        """element idx of an accumulated array at the start of iteration j"""
        m = self.m
        pre = self.bufs[id(buf)][1]
        names = self.accnames[id(buf)]

        def g(i):
            v = F(0)
            for p in reversed([p for p in self.at_acc(buf, i) if p.kind != "raise"]):
                t = F(0)
                for nd in self.writes(p, buf):
                    r = self.acc_inc(p, nd, idx, names)
                    if r is None:
                        raise Unsupported("array recurrence")
                    c, x = r
                    if c is False:
                        continue
                    t = n_add(t, x if c is True else n_ite(c, x, F(0)))
                v = t if p.cond is True else n_ite(p.cond, t, v)
            return v
        s = FL.fsum(m, j, g)
        return n_add(pre.at(idx), s)

    # finding the iteration that writes a given index ----------------------------
    def inverter(self, buf):
        if id(buf) in self.inverters:
            return self.inverters[id(buf)]
        m = self.m
        b = self.generic_index(buf)
        j = self.j0
        cands = []
        for p in self.at(j):
            if p.kind == "raise":
                continue
            for nd in self.writes(p, buf):
                c = nd.cond(b)
                if isinstance(c, bool):
                    continue
                for q in conjuncts(c):
                    r = solve_for(q, j)
                    if r is not None and not self.mentions(parts_i(r[0]), {str(j)}):
                        cands.append(r)
        j2 = m.fresh_int("j2")
        found = None
        tried = set()
        for num, den in cands[:6]:
            def J(bb, num=num, den=den):
                t = num if isinstance(num, int) else z3.substitute(num, *[(x, zi(y)) for x, y in zip(b, bb)])
                t = t if isinstance(t, int) else isimp(t)
                return t if den == 1 else A.divmod_const(m, t, den)[0]
            jb = J(b)
            k = ikey(jb)
            if k in tried:
                continue
            tried.add(k)
            r = self.region(j2, buf, b)
            hyp = self.base_pc + [zb(And(n_le(0, j2), n_lt(j2, self.n))), zb(r)]
            if self.prove0(hyp, n_eq(jb, j2)):
                found = J
                break
        self.inverters[id(buf)] = found
        return found

    def final(self, buf):
        """content of buf after the loop"""
        m = self.m
        pre = self.bufs[id(buf)][1]
        if self.bufmode[id(buf)] == "acc":
            return A.Leaf(self.m, lambda idx: self.acc_value(buf, self.n, idx))
        J = self.inverter(buf)
        if J is not None and not self.m.refine:
            def fn(idx):
                j = J(idx)
                inr = simp(And(n_le(0, j), n_lt(j, self.n)))
                old = pre.at(idx)
                return old if inr is False else n_ite(inr, self.value(j, buf, idx, old), old)
            return A.Leaf(self.m, fn)
        if J is not None:
            def cond(idx):
                j = J(idx)
                inr = simp(And(n_le(0, j), n_lt(j, self.n)))
                return inr if inr is False else simp(And(inr, self.region(j, buf, idx)))
            return A.Write(self.m, cond, lambda idx: self.written(J(idx), buf, idx), pre)
        return A.Leaf(self.m, lambda idx: self.skolem(buf, idx))

    def skolem(self, buf, b):
        """element written by an iteration that cannot be solved for: a constant that the contract's
        index hints relate to the writing iteration"""
        m = self.m
        pre = self.bufs[id(buf)][1]
        old = pre.at(b)
        kind = num_kind(old)
        if kind == "r":
            c = SR(m.fresh_real("cell"), m.fresh_bool("celln"), False, True)
        else:
            c = m.fresh_int("cell")
        k3 = m.fresh_int("kw")
        w3 = And(n_le(0, k3), n_lt(k3, self.n), self.region(k3, buf, b))
        self.guarded(True, Or(n_same(c, old), w3))
        for j in m.index_hints:
            k2 = m.fresh_int("kl")
            later = And(n_lt(j, k2), n_lt(k2, self.n), self.region(k2, buf, b))
            self.guarded(And(n_le(0, j), n_lt(j, self.n), self.region(j, buf, b)),
                         Or(later, n_same(c, self.value(j, buf, b, old))))
            m.skolem_log.append((k2, j, k3))
        return c

    # ------------------------------------------------------------ state after the loop
    def finish(self):
        from .interp import LazyVal
        m, I = self.m, self.I
        n = self.n
        # exceptions
        raising = [p for p in self.at(self.j0) if p.kind == "raise"]
        if raising:
            kinds = {p.out.name for p in raising}
            names = sorted(kinds)

            def rc(j, nm):
                return simp(Or(*[p.cond for p in self.at(j) if p.kind == "raise" and p.out.name == nm]))
            for nm in names:
                bad = m.any(n, lambda j, nm=nm: rc(j, nm))
                if m.decide(bad):
                    e = PyRaise(nm, "in a loop")
                    e.poison = True
                    raise e
        closed = {}
        for c in self.cells:
            if c.how == "inv":
                continue
            if c.how == "asg":
                closed[c] = LazyVal(lambda c=c: self.closed(c, n))
            else:
                closed[c] = LazyVal(lambda c=c: self.closed(c, n))
        contents = {}
        for bid, (buf, pre, g) in self.bufs.items():
            contents[bid] = (buf, self.final(buf))
        for c, v in closed.items():
            c.put(v)
        for buf, content in contents.values():
            buf.content = content
        for nm in self.temps:
            pre = self.pre[id(self.env)].get(nm, None) if id(self.env) in self.pre else None
            had = id(self.env) in self.pre and nm in self.pre[id(self.env)]

            def get(nm=nm, had=had, pre=pre):
                if isinstance(n, int) or m.entails(n_lt(0, n)):
                    last = n_sub(n, 1)
                    v = None
                    for p in reversed([p for p in self.at(last) if p.kind != "raise"]):
                        x = p.state[id(self.env)].get(nm)
                        if x is None or not is_num(x):
                            raise Unsupported(f"value of {nm} after a symbolic loop")
                        v = x if v is None else n_ite(p.cond, x, v)
                    if v is not None:
                        return v
                raise Unsupported(f"value of {nm} after a symbolic loop")
            if had and not (isinstance(n, int) or m.entails(n_lt(0, n))):
                self.env.vars[nm] = LazyVal(get)
            else:
                self.env.vars[nm] = LazyVal(get)
        if self.is_while:
            # the condition held at every iteration before n and fails at n
            for j in [n_sub(n, 1)] + list(m.index_hints):
                f = self.test_at(j)
                m.assume(zb(Implies(And(n_le(0, j), n_lt(j, n)), f)))
            t = I.eval(self.st.test, self.env)
            if not is_b(t):
                t = truth(t)
            m.assume(zb(Not(t)))
            m.assumptions.add("while loops end")
        I.exec_block(self.st.orelse, self.env)

    def test_at(self, j):
        m = self.m
        vals = [(c, self.closed(c, j)) for c in self.cells]
        saved, spc = m.snapshot(), m.pc
        m.restore(self.snap)
        m.pc = self.base_pc + [zb(And(n_le(0, j), n_lt(j, self.n)))]
        try:
            for c, v in vals:
                c.put(v)
            t = self.I.eval(self.st.test, self.env)
            return t if is_b(t) else truth(t)
        finally:
            m.restore(saved)
            m.pc = spc


# ---------------------------------------------------------------- helpers
def order(k):
    return {"b": 0, "i": 1, "r": 2}[k]


def lift(v, c):
    if c.kind == "r" and not is_r(v):
        return A.R_num(v)
    if c.kind == "i" and is_b(v):
        return A._ii(v)
    return v


def same_val(x, y):
    if x is y:
        return True
    if is_num(x) and is_num(y):
        return same_num(x, y)
    if isinstance(x, str) and isinstance(y, str):
        return x == y
    return False


def same_num(x, y):
    if num_kind(x) != num_kind(y):
        return False
    return tkey(R(x) if is_r(x) else x) == tkey(R(y) if is_r(y) else y)


def parts(v):
    if isinstance(v, SR):
        return [t for t in (v.val, v.nan, v.inf) if isinstance(t, z3.ExprRef)]
    return [v] if isinstance(v, z3.ExprRef) else []


parts_i = parts


def mentions(m, terms, names):
    """does a term depend on one of the named symbols (also through aggregates)"""
    seen = set()
    stack = [t for t in terms if isinstance(t, z3.ExprRef)]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            nm = t.decl().name()
            if t.num_args() == 0 or t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if nm in names:
                    return True
            a = m.agg_of.get(i)
            if a is not None:
                stack.extend(a.deps)
            elif nm in m.deps:
                stack.extend(m.deps[nm])
            stack.extend(kids(t))
    return False


def ufapps(v, names):
    out = []
    seen = set()
    stack = parts(v)
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().name() in names and t.sort() != z3.BoolSort():
            out.append(t)
        stack.extend(kids(t))
    return out


def strip(v, p):
    """v - p for z3 terms if v is a sum with the summand p, else None"""
    if v.eq(p):
        return 0
    if z3.is_add(v):
        ch = []
        stack = list(v.children())
        while stack:
            x = stack.pop(0)
            if z3.is_add(x):
                stack = list(x.children()) + stack
            else:
                ch.append(x)
        k = [i for i, x in enumerate(ch) if x.eq(p)]
        if len(k) == 1:
            rest = [x for i, x in enumerate(ch) if i != k[0]]
            t = rest[0]
            for x in rest[1:]:
                t = t + x
            return t
    return None


def increment(v, ph):
    """v - ph as a number, or None if v is not ph plus something"""
    if is_i(ph):
        if not (is_i(v)) or isinstance(v, int):
            return None
        g = strip(v, ph)
        if g is None:
            if z3.is_app_of(v, z3.Z3_OP_ITE):
                a, b = increment(v.arg(1), ph), increment(v.arg(2), ph)
                if a is not None and b is not None:
                    return i_ite(v.arg(0), a, b)
            g = z3.simplify(v - ph)
        g = g if isinstance(g, int) else isimp(g)
        if isinstance(g, int) or not has_const(g, ph):
            return g
        return None
    if not isinstance(v, SR) or not isinstance(ph, SR):
        return None
    if not isinstance(v.val, z3.ExprRef):
        return None
    if v.inf is not False:
        return None
    g = strip(v.val, ph.val)
    if g is None:
        if z3.is_app_of(v.val, z3.Z3_OP_ITE):
            c = v.val.arg(0)
            a = increment(SR(v.val.arg(1), v.nan, False), ph)
            b = increment(SR(v.val.arg(2), v.nan, False), ph)
            if a is not None and b is not None and not has_const(c, ph.val):
                return n_ite(c, a, b)
        g = z3.simplify(v.val - ph.val)
        if z3.is_rational_value(g):
            g = F(g.numerator_as_long(), g.denominator_as_long())
    if isinstance(g, int):
        g = F(g)
    if isinstance(g, z3.ExprRef) and has_const(g, ph.val):
        return None
    nan = v.nan
    if isinstance(ph.nan, bool):
        pass
    elif isinstance(nan, bool):
        return None
    else:
        if nan.eq(ph.nan):
            nan = False
        elif z3.is_or(nan) and any(x.eq(ph.nan) for x in nan.children()):
            rest = [x for x in nan.children() if not x.eq(ph.nan)]
            nan = Or(*rest) if rest else False
        else:
            t = z3.simplify(z3.substitute(nan, (ph.nan, z3.BoolVal(True))))
            if not z3.is_true(t):
                return None
            nan = bsimp(z3.substitute(nan, (ph.nan, z3.BoolVal(False))))
        if isinstance(nan, z3.ExprRef) and has_const(nan, ph.nan):
            return None
    return mk(g, nan, False)


def has_const(t, c):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            return True
        stack.extend(x.children())
    return False


def conjuncts(c):
    if z3.is_and(c):
        out = []
        for x in c.children():
            out.extend(conjuncts(x))
        return out
    return [c]


def solve_for(q, j):
    """j = num / den from an equation, or the largest j allowed by a lower bound on num - den*j"""
    if z3.is_not(q):
        x = q.arg(0)
        if z3.is_le(x):      # not (a <= b)  ->  b + 1 <= a
            return bound(x.arg(1) + 1, x.arg(0), j)
        if z3.is_ge(x):
            return bound(x.arg(0) + 1, x.arg(1), j)
        return None
    if z3.is_eq(q) and q.arg(0).sort() == z3.IntSort():
        d, c = A.lin(q.arg(0) - q.arg(1))
        if j.get_id() not in d:
            return None
        k = d[j.get_id()][1]
        rest = {i: v for i, v in d.items() if i != j.get_id()}
        # k*j + rest + c == 0
        if k < 0:
            return A.unlin(rest, c), -k
        return A.unlin({i: (x, -v) for i, (x, v) in rest.items()}, -c), k
    if z3.is_le(q):
        return bound(q.arg(0), q.arg(1), j)
    if z3.is_ge(q):
        return bound(q.arg(1), q.arg(0), j)
    return None


def bound(lo, hi, j):
    """lo <= hi: if hi - lo = num - k*j with k > 0 then j <= num / k"""
    if lo.sort() != z3.IntSort():
        return None
    d, c = A.lin(hi - lo)
    if j.get_id() not in d:
        return None
    k = d[j.get_id()][1]
    if k >= 0:
        return None
    rest = {i: v for i, v in d.items() if i != j.get_id()}
    return A.unlin(rest, c), -k
