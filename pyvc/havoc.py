"""Loops by invariants.

The loop is cut at its head: whatever its body may change (found by executing the body symbolically until nothing new
is written) becomes arbitrary there, except for the invariants.  One path executes the body once from such a state (an
arbitrary iteration) and ends at the next loop head, where the invariants and the contract's step goals are obligations;
another one leaves the loop.  The invariants are those of the contract's candidates that hold at first and that the body
preserves (found by dropping what fails); `required` ones are obligations.
"""
import ast
import os
import z3
from .terms import *
from .machine import PyRaise, PathEnd, ikey
from . import arrays as A
from . import floats as FL
from .loops import Poison, names_stored, same_val, order


class LoopContract:
    """what is known of and asked from the loops of some functions"""
    cells = ()        # candidate invariants of real-valued state: (label, fn(value, stack) -> condition)
    ints = ()         # the same of integers
    buffers = ()      # candidate invariants of buffers: (label, fn(read, shape or ndim, stack) -> condition or None)
    relations = ()    # candidate invariants between values: (label, fn(state, stack) -> condition or None)
    lemmas = ()       # facts proved elsewhere: fn(stack) -> condition (or None), true of every number of iterations
    required = ()     # labels that are obligations
    fixed = None      # function of the loop: (cells, buffers) that it may change, instead of searching for them and for
                      # the invariants; cells: [(object, key, finite)], buffers: [(array, finite)]; all of it is checked

    def applies(self, fname, n):
        """cut this loop of n iterations (None: while) of the function"""
        return True

    def ghost(self, loop):
        """at the end of an iteration: changes of the ghost state"""

    def step(self, loop, stack):
        """at the end of an iteration; goals may be stated here"""

    def goal(self, name, g):
        pass


class Cell:
    def __init__(self, oi, key, kind, np):
        self.oi, self.key, self.kind, self.np = oi, key, kind, np
        self.live = []


class Plan:
    pass


class HavocLoop:
    def __init__(self, loops, st, env, n, elem, contract):
        self.L, self.I, self.m = loops, loops.I, loops.m
        self.st, self.env, self.n, self.elem = st, env, n, elem
        self.is_while = n is None
        self.contract = contract

    # ------------------------------------------------------------ execution
    def body(self, j):
        from .interp import BreakEx, ContinueEx
        I = self.I
        if self.is_while:
            if not I.truth(I.eval(self.st.test, self.env)):
                raise PathEnd()
        else:
            I.assign(self.st.target, self.elem(j), self.env)
        try:
            I.exec_block(self.st.body, self.env)
        except ContinueEx:
            pass
        except BreakEx:
            return "break"
        return "next"

    def run(self):
        m, I = self.m, self.I
        if isinstance(self.n, int) and self.n == 0:
            I.exec_block(self.st.orelse, self.env)
            return
        if self.n is not None and not isinstance(self.n, int) and not m.decide(n_lt(0, self.n)):
            I.exec_block(self.st.orelse, self.env)
            return
        self.heap = list(m.heap)
        self.pre = {k: o.get_state() for k, o in enumerate(self.heap)}
        plan = self.plan()
        dry = I.dry > 0
        if not dry:
            for lab in self.contract.required:
                for k, f in self.facts(plan, self.stack(0), [lab]):
                    self.contract.goal(f"{lab}: holds when the loop begins", f)
        it = m.decide(self.named("iteration", m.fresh_bool)) if (not dry or plan.escapes) else False
        if it:
            j = self.iteration()
            self.havoc(plan, j)
            self.before = {k: o.get_state() for k, o in enumerate(self.heap)}
            I.loop_stack.append((self.n, j, self))
            try:
                r = self.body(j)
                if r == "next":
                    self.contract.ghost(self)
            finally:
                I.loop_stack.pop()
            if r == "break":
                return
            if not dry:
                for lab in self.contract.required:
                    for k, f in self.facts(plan, self.stack(n_add(j, 1)), [lab]):
                        self.contract.goal(f"{lab}: preserved", f)
                if getattr(plan, "fixed", False):
                    self.check_fixed(plan, j)
                self.contract.step(self, self.stack(j))
            raise PathEnd()
        j = self.n
        if self.is_while:
            j = m.fresh_int("iterations")
            m.assume(n_le(0, j))
        self.havoc(plan, j)
        if self.is_while:
            if I.truth(I.eval(self.st.test, self.env)):
                raise PathEnd()
            m.assumptions.add("while loops end")
        elif isinstance(self.st.target, ast.Name):
            x = self.elem(n_sub(self.n, 1))
            self.env.vars[self.st.target.id] = x
        I.exec_block(self.st.orelse, self.env)

    def key(self):
        """this loop at this point of this path"""
        tr = self.m.trace
        if tr is None:
            return None
        return (tr.uid, len(self.heap), tuple(tr.choices[:tr.pos]), self.st.lineno, self.st.col_offset, tuple(ikey(j) for _, j, _ in self.I.loop_stack))

    def named(self, name, make):
        """an arbitrary value, the same whenever a path is executed again (to find what was proved of it)"""
        k = self.key()
        if k is None:
            return make(name)
        k = (name, make.__name__) + k
        if k not in self.I.plans:
            self.I.plans[k] = make(name)
        return self.I.plans[k]

    def iteration(self):
        """number of an arbitrary iteration"""
        m = self.m
        if isinstance(self.n, int):
            return self.named("j", lambda nm: m.ranged_int(nm, 0, self.n - 1))
        j = self.named("j", m.fresh_int)
        m.assume(n_le(0, j))
        if not self.is_while:
            m.assume(n_lt(j, self.n))
        return j

    def stack(self, j):
        return [(n, k) for n, k, _ in self.I.loop_stack] + [(self.n, j)]

    # ------------------------------------------------------------ state
    def value(self, c):
        st = self.heap[c.oi].get_state()
        try:
            return st[c.key]
        except (KeyError, IndexError):
            return None

    def put(self, oi, key, v):
        from .interp import Env, PyDict
        o = self.heap[oi]
        if isinstance(o, Env):
            o.vars[key] = v
        elif isinstance(o, PyDict):
            o.d[key] = v
        else:
            o.items[key] = v

    def havoc(self, plan, j):
        m = self.m
        for c in plan.cells:
            if c.kind == "i":
                v = self.named(f"h_{c.oi}_{c.key}", m.fresh_int)
            elif c.kind == "b":
                v = self.named(f"h_{c.oi}_{c.key}", m.fresh_bool)
            else:
                v = self.named(f"h_{c.oi}_{c.key}", m.fresh_real)
                if "finite" in c.live:
                    v = SR(v, False, False, c.np)
                else:
                    v = SR(v, self.named(f"hn_{c.oi}_{c.key}", m.fresh_bool), self.named(f"hi_{c.oi}_{c.key}", m.fresh_bool), c.np)
            self.put(c.oi, c.key, v)
        for oi, key in plan.temps:
            self.put(oi, key, Poison())
        for oi, (kind, fin) in plan.bufs.items():
            self.heap[oi].content = self.named(f"h_{oi}_{kind}{fin}", lambda nm: self.anything(self.heap[oi], kind, fin))
        for lemma in self.contract.lemmas:
            f = lemma(self.stack(j))
            if f is not None:
                m.assume(f)
        for k, f in self.facts(plan, self.stack(j)):
            m.assume(zb(f))

    def anything(self, buf, kind, fin):
        m = self.m
        nm = m.fresh_name("h_" + (buf.name or "buf"))
        ints = [z3.IntSort()] * buf.ndim
        if kind == "r":
            f = z3.Function(nm, *ints, z3.RealSort())
            fn = z3.Function(nm + "_nan", *ints, z3.BoolSort())
            fi = z3.Function(nm + "_inf", *ints, z3.BoolSort())

            def at(idx):
                z = [zi(i) for i in idx]
                return SR(f(*z), False if fin else fn(*z), False if fin else fi(*z), True)
        else:
            f = z3.Function(nm, *ints, z3.IntSort() if kind == "i" else z3.BoolSort())

            def at(idx):
                return f(*[zi(i) for i in idx])
        return A.Leaf(m, at)

    def facts(self, plan, stack, labels=None):
        """invariants of the present state: (where, condition)"""
        out = []
        for c in plan.cells:
            for lab in (c.live if labels is None else labels):
                fn = self.cell_facts(c.kind).get(lab)
                v = self.value(c)
                if fn is None or v is None or not is_num(v):
                    continue
                if c.kind == "i" and not is_i(v):
                    out.append(((c.oi, c.key, lab), False))
                    continue
                out.append(((c.oi, c.key, lab), fn(R_(v) if c.kind == "r" else v, stack)))
        for lab, fn in self.contract.buffers:
            for oi in plan.bufs:
                if lab in plan.buf_live.get(oi, ()) if labels is None else lab in labels:
                    b = self.heap[oi]
                    f = fn(b.content.at, b, stack)
                    if f is not None:
                        out.append(((oi, "buf", lab), f))
        for lab, fn in self.contract.relations:
            if (lab in plan.live if labels is None else lab in labels):
                f = fn(self, stack)
                if f is not None:
                    out.append((("rel", lab), f))
        return out

    def cell_facts(self, kind):
        if kind != "r":
            return dict(self.contract.ints) if kind == "i" else {}
        d = {"finite": lambda x, stack: And(Not(x.nan), Not(x.inf))}
        d.update(self.contract.cells)
        return d

    # ------------------------------------------------------------ plan
    def plan(self):
        m, I = self.m, self.I
        key = self.key()
        # the same path prefix has the same state
        if key is not None and key in I.plans:
            return I.plans[key]
        p = self.fixed_plan() if self.contract.fixed else self.make_plan()
        if key is not None:
            I.plans[key] = p
        return p

    def paths(self, plan):
        """outcomes of an arbitrary iteration"""
        m, I = self.m, self.I
        I.dry += 1

        def thunk():
            j = self.iteration()
            self.havoc(plan, j)
            I.loop_stack.append((self.n, j, self))
            try:
                r = self.body(j)
                if r == "next":
                    self.contract.ghost(self)
                return r, j
            finally:
                I.loop_stack.pop()
        from .interp import ReturnEx

        def outer():
            try:
                return thunk()
            except ReturnEx:
                return "return", None
        try:
            return m.explore(outer)
        finally:
            I.dry -= 1

    def fixed_plan(self):
        """the contract says what the body changes; the labels are obligations"""
        m = self.m
        plan = Plan()
        plan.temps, plan.live, plan.buf_live = [], [lab for lab, _ in self.contract.relations], {}
        cells, bufs = self.contract.fixed(self)
        pos = {id(o): k for k, o in enumerate(self.heap)}
        plan.cells = []
        for o, key, fin in cells:
            k = pos[id(o)]
            v = self.pre_value(k, key)
            if v is None or not is_num(v):
                plan.temps.append((k, key))
                continue
            c = Cell(k, key, num_kind(v), FL.isnp(v))
            if c.kind == "r":
                c.np = True
            c.live = [lab for lab in self.cell_facts(c.kind) if lab != "finite" or fin]
            plan.cells.append(c)
        names = names_stored(self.st.body)
        if not self.is_while:
            names |= {n.id for n in ast.walk(self.st.target) if isinstance(n, ast.Name)}
        own = {c.key for c in plan.cells if c.oi == pos[id(self.env)]}
        plan.temps += [(pos[id(self.env)], nm) for nm in sorted(names - own)]
        plan.bufs = {pos[id(a.buf)]: (num_kind(self.pre[pos[id(a.buf)]].at((0,) * a.buf.ndim)), fin) for a, fin in bufs}
        plan.buf_live = {k: [lab for lab, _ in self.contract.buffers] for k in plan.bufs}
        plan.escapes = False
        plan.fixed = True
        for k, f in self.facts(plan, self.stack(0)):
            self.contract.goal(f"{k[-1]}: holds when the loop begins", f)
        for k, (kind, fin) in plan.bufs.items():
            if fin and kind == "r":
                x = R_(self.pre[k].at(tuple(m.fresh_int("b") for _ in range(self.heap[k].ndim))))
                self.contract.goal("finite: holds when the loop begins", And(Not(x.nan), Not(x.inf)))
        return plan

    def check_fixed(self, plan, j):
        """at the end of an iteration"""
        m = self.m
        n = len(plan.cells), len(plan.temps), len(plan.bufs)
        snap = [(o, o.get_state()) for o in self.heap]
        if self.changed(plan, snap) and (len(plan.cells), len(plan.bufs)) != (n[0], n[2]):
            raise Unsupported("the loop changes more than its contract says")
        for k, f in self.facts(plan, self.stack(n_add(j, 1))):
            self.contract.goal(f"{k[-1]}: preserved", f)
        head = {id(self.heap[k]): s for k, s in self.before.items()}
        for k, (kind, fin) in plan.bufs.items():
            b = self.heap[k]
            if fin and kind == "r" and b.content is not head[id(b)]:
                x = R_(b.content.at(tuple(m.fresh_int("b") for _ in range(b.ndim))))
                self.contract.goal("finite: preserved", And(Not(x.nan), Not(x.inf)))

    def make_plan(self):
        """what the body changes, and the candidates that hold at first and are preserved"""
        from .interp import LazyVal
        m, I = self.m, self.I
        plan = Plan()
        plan.cells, plan.temps, plan.bufs, plan.live, plan.buf_live = [], [], {}, [], {}
        names = names_stored(self.st.body)
        if not self.is_while:
            names |= {n.id for n in ast.walk(self.st.target) if isinstance(n, ast.Name)}
        ei = next(k for k, o in enumerate(self.heap) if o is self.env)
        for nm in sorted(names):
            if self.env.declared.get(nm):
                raise Unsupported("global or nonlocal variable assigned in a loop")
            v = self.env.vars.get(nm)
            if isinstance(v, LazyVal):
                try:
                    v = v.force()
                except Unsupported:
                    v = None
            if v is not None and is_num(v):
                plan.cells.append(Cell(ei, nm, num_kind(v), FL.isnp(v)))
            else:
                plan.temps.append((ei, nm))
        # what an earlier execution of the loop changed (changing more is safe)
        warm = I.warm.setdefault((self.st.lineno, self.st.col_offset, len(self.heap)), {})
        for k, key, kind, np in warm.get("cells", ()):
            v = self.pre_value(k, key)
            if v is not None and is_num(v) and not self.find(plan, k, key) and order(kind) >= order(num_kind(v)):
                plan.cells.append(Cell(k, key, kind, np))
        for k, key in warm.get("temps", ()):
            if (k, key) not in plan.temps and self.pre_value(k, key) is None:
                plan.temps.append((k, key))
        for k in warm.get("bufs", ()):
            if isinstance(self.heap[k], A.Buf):
                plan.bufs[k] = None
        st0 = self.stack(0)
        spc = m.pc
        known = {}
        first = True
        while True:
            if first:
                # all candidates that hold at first
                for c in plan.cells:
                    c.live = list(self.cell_facts(c.kind))
                plan.live = [lab for lab, _ in self.contract.relations]
                plan.buf_live = {k: [lab for lab, _ in self.contract.buffers] for k in plan.bufs}
                for k in plan.bufs:
                    b = self.heap[k]
                    if k not in known:
                        kind = num_kind(self.pre[k].at((0,) * b.ndim))
                        fin = False
                        if kind == "r":
                            x = R_(self.pre[k].at(tuple(m.fresh_int("b") for _ in range(b.ndim))))
                            fin = m.entails(And(Not(x.nan), Not(x.inf)))
                        known[k] = (kind, fin)
                    plan.bufs[k] = known[k]
                for f in self.facts(plan, st0):
                    if f[0] not in known:
                        known[f[0]] = m.entails(zb(f[1]), 2000)
                self.drop(plan, [(k, f) for k, f in self.facts(plan, st0) if not known[k]])
                first = False
            res = self.paths(plan)
            plan.escapes = any(out[0] == "raise" or out[1][0] != "next" for _, out, _ in res)
            res = [(delta, out, snap) for delta, out, snap in res if out[0] != "raise" and out[1][0] == "next"]
            if any([self.changed(plan, snap) for _, _, snap in res]):
                first = True
                known = {k: v for k, v in known.items() if isinstance(k, int)}
                continue
            bad, unfin = [], []
            for delta, out, snap in res:
                saved = m.snapshot()
                m.restore(snap)
                m.pc = spc + list(delta)
                try:
                    gone = {k for k, _ in bad}
                    for k, f in self.facts(plan, self.stack(n_add(out[1][1], 1))):
                        if k not in gone and not m.entails(zb(f), 2000):
                            bad.append((k, f))
                    for oi, (kind, fin) in plan.bufs.items():
                        if fin and oi not in unfin:
                            b = self.heap[oi]
                            idx = tuple(m.fresh_int("b") for _ in range(b.ndim))
                            x = R_(b.content.at(idx))
                            if not m.entails(And(Not(x.nan), Not(x.inf)), 1000):
                                unfin.append(oi)
                finally:
                    m.restore(saved)
                    m.pc = spc
            if not bad and not unfin:
                break
            self.drop(plan, bad)
            for oi in unfin:
                plan.bufs[oi] = (plan.bufs[oi][0], False)
        if os.environ.get("PYVC_LOOPS"):
            print("cut loop at line", self.st.lineno, "iterations", self.n, "dry", I.dry, "paths", len(res), "escapes", plan.escapes)
            for c in plan.cells:
                print("   ", c.key, c.kind, c.live)
            for k in plan.bufs:
                print("    buffer", self.heap[k].name, plan.bufs[k], plan.buf_live.get(k))
            print("    ", plan.live)
        warm["cells"] = [(c.oi, c.key, c.kind, c.np) for c in plan.cells]
        warm["temps"] = list(plan.temps)
        warm["bufs"] = list(plan.bufs)
        return plan

    def pre_value(self, k, key):
        try:
            return self.pre[k][key]
        except (KeyError, IndexError, TypeError):
            return None

    def changed(self, plan, snap):
        """record what this outcome changes beyond the plan"""
        from .interp import Env, PyList, PyDict
        changed = False
        state = {id(o): s for o, s in snap}
        for k, o in enumerate(self.heap):
            post, pre = state.get(id(o)), self.pre[k]
            if post is None:
                continue
            if isinstance(o, A.Buf):
                if k not in plan.bufs and post is not pre:
                    plan.bufs[k] = None
                    changed = True
                continue
            if isinstance(o, Env) and o is self.env:
                continue
            if isinstance(o, PyList):
                if len(post) != len(pre):
                    raise Unsupported("list grows in a loop cut by invariants")
                items = list(enumerate(zip(pre, post)))
            elif isinstance(o, (Env, PyDict)):
                for key in post:
                    if key not in pre and (k, key) not in plan.temps:
                        plan.temps.append((k, key))
                        changed = True
                items = [(key, (pre[key], post[key])) for key in post if key in pre]
            else:
                if post is not pre and not same_state(pre, post):
                    raise Unsupported(f"object changed in a loop ({type(o).__name__})")
                continue
            for key, (x, y) in items:
                if same_val(x, y) or self.find(plan, k, key) or (k, key) in plan.temps:
                    continue
                if isinstance(x, Poison):
                    plan.temps.append((k, key))
                    changed = True
                    continue
                if not (is_num(x) and is_num(y)):
                    raise Unsupported(f"{key} rebound in a loop cut by invariants")
                plan.cells.append(Cell(k, key, num_kind(x), FL.isnp(x)))
                changed = True
        for c in plan.cells:
            try:
                v = state[id(self.heap[c.oi])][c.key]
            except (KeyError, IndexError):
                continue
            if isinstance(v, Poison):
                continue
            if not is_num(v):
                raise Unsupported(f"loop variable {c.key} changes type")
            if order(num_kind(v)) > order(c.kind):
                c.kind = num_kind(v)
                changed = True
            if FL.isnp(v) and not c.np:
                c.np = changed = True
        return changed

    def find(self, plan, oi, key):
        return next((c for c in plan.cells if c.oi == oi and c.key == key), None)

    def drop(self, plan, bad):
        keep = set(self.contract.required)
        for k, _ in bad:
            if k[-1] in keep:
                continue
            if k[0] == "rel":
                if k[1] in plan.live:
                    plan.live.remove(k[1])
            elif k[1] == "buf":
                if k[2] in plan.buf_live[k[0]]:
                    plan.buf_live[k[0]].remove(k[2])
            else:
                c = self.find(plan, k[0], k[1])
                if k[2] in c.live:
                    c.live.remove(k[2])


def R_(v):
    return R(v) if is_num(v) else v


def same_state(a, b):
    try:
        return a is b or a == b
    except Exception:
        return False


def written_index(m, node, ndim):
    """index of the element that a write stores to, None unless it is a single one"""
    from .loops import conjuncts
    b = tuple(m.fresh_int("w") for _ in range(ndim))
    c = node.cond(b)
    if c is True or c is False:
        return None
    out = [None] * ndim
    for q in conjuncts(bsimp(c)):
        if z3.is_eq(q):
            for k in range(ndim):
                x, y = q.arg(0), q.arg(1)
                if x.eq(b[k]):
                    out[k] = y
                elif y.eq(b[k]):
                    out[k] = x
    if any(o is None for o in out):
        return None
    return tuple(o.as_long() if z3.is_int_value(o) else o for o in out)
