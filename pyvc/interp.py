"""Symbolic interpreter for the Python subset that /repo uses; it reads the real source files."""
import ast
import os
import z3
from .terms import *
from .machine import Machine, PyRaise, PathEnd, ForkInLoop, ikey
from . import arrays as A
from . import floats as FL

SRC = os.environ.get("PYVC_SRC", "/repo/src")


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Opaque:
    """a value that must not influence results (loggers, messages)"""

    def __init__(self, what="opaque"):
        self.what = what


class Func:
    def __init__(self, node, env, name, module):
        self.node = node
        self.env = env
        self.name = name
        self.module = module
        self.defaults = []
        self.kwdefaults = {}


class Builtin:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn


class ExcClass:
    def __init__(self, name, parents=()):
        self.name = name
        self.parents = parents

    def isa(self, other):
        return self.name == other or any(p.isa(other) for p in self.parents)


class ExcObj:
    def __init__(self, cls, msg=""):
        self.cls = cls
        self.msg = msg


class ClassVal:
    def __init__(self, name, attrs, is_enum, bases=()):
        self.name = name
        self.attrs = attrs
        self.is_enum = is_enum
        self.bases = bases
        self.members = {}


class EnumMember:
    def __init__(self, cls, name, value):
        self.cls = cls
        self.name = name
        self.value = value


class Bound:
    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_


class ModuleVal:
    def __init__(self, name, attrs=None):
        self.name = name
        self.attrs = attrs if attrs is not None else {}


class RangeVal:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class SeqVal:
    """a sequence of symbolic length: n, element function (enumerate, zip, reversed ...)"""

    def __init__(self, n, elem):
        self.n = n
        self.elem = elem


class ListArr(A.Arr):
    """a Python list of numbers of symbolic length"""


class LazyVal:
    """value of a variable after a symbolic loop, computed when it is read"""

    def __init__(self, fn):
        self.fn = fn
        self.v = None
        self.done = False

    def force(self):
        if not self.done:
            self.v = self.fn()
            self.done = True
        return self.v


class PyList:
    def __init__(self, m, items):
        self.items = list(items)
        m.heap.append(self)

    def get_state(self):
        return list(self.items)

    def set_state(self, s):
        self.items = list(s)


class PyDict:
    def __init__(self, m, d):
        self.d = dict(d)
        m.heap.append(self)

    def get_state(self):
        return dict(self.d)

    def set_state(self, s):
        self.d = dict(s)


class Env:
    def __init__(self, m, parent, globs, vars=None):
        self.parent = parent
        self.globs = globs
        self.vars = vars if vars is not None else {}
        self.declared = {}
        if m is not None:
            m.heap.append(self)

    def get_state(self):
        return dict(self.vars)

    def set_state(self, s):
        self.vars = dict(s)


EXC = {}


def _exc(name, *parents):
    EXC[name] = ExcClass(name, tuple(EXC[p] for p in parents))


_exc("BaseException")
_exc("Exception", "BaseException")
for _n in ("ArithmeticError", "LookupError", "TypeError", "ValueError", "AttributeError", "RuntimeError",
           "NameError", "OSError", "ImportError", "AssertionError", "StopIteration", "Warning"):
    _exc(_n, "Exception")
_exc("ZeroDivisionError", "ArithmeticError")
_exc("OverflowError", "ArithmeticError")
_exc("FloatingPointError", "ArithmeticError")
_exc("KeyError", "LookupError")
_exc("IndexError", "LookupError")
_exc("NotImplementedError", "RuntimeError")
_exc("UnboundLocalError", "NameError")


class Counter:
    def __init__(self, m):
        self.n = 0
        m.heap.append(self)

    def get_state(self):
        return self.n

    def set_state(self, s):
        self.n = s


class Interp:
    def __init__(self, m=None, src=SRC):
        from . import npmodel
        self.m = m or Machine()
        self.src = src
        self.modules = {}
        self.executed = set()
        self.loopctx = ()
        self.counter = Counter(self.m)
        self.depth = 0
        self.contracts = {}        # qualified function name -> Builtin that stands for its contract
        self.used_contracts = set()
        self.functions = set()
        self.inv_candidates = []
        self.loop_contract = None      # havoc.LoopContract: loops cut by invariants
        self.loop_stack = []
        self.plans = {}
        self.warm = {}
        self.dry = 0
        self.calls = []
        self.loop_n_facts = []
        self.lib = npmodel.library(self)
        self.builtins = npmodel.builtins(self)
        from .loops import Loops
        self.loops = Loops(self)

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.lib:
            return self.lib[name]
        path = f"{self.src}/{name.replace('.', '/')}"
        import os
        if os.path.isdir(path):
            path += "/__init__.py"
            text = open(path).read() if os.path.exists(path) else ""
        else:
            path += ".py"
            if not os.path.exists(path):
                raise Unsupported(f"module {name} is not modelled")
            text = open(path).read()
        mod = ModuleVal(name)
        mod.attrs["__name__"] = name
        self.modules[name] = mod
        env = Env(None, None, mod.attrs, mod.attrs)
        env.module = name
        tree = ast.parse(text)
        self.exec_block(tree.body, env)
        return mod

    def getmod(self, name):
        return self.load(name)

    def func(self, qual):
        mod, fn = qual.rsplit(".", 1)
        v = self.load("climate_indices." + mod).attrs.get(fn)
        if v is None:
            raise Unsupported(f"{qual} does not exist")
        return v

    # ------------------------------------------------------------ names
    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, LazyVal):
                    v = v.force()
                return v
            e = e.parent
        if name in env.globs:
            return env.globs[name]
        if name in self.builtins:
            return self.builtins[name]
        raise PyRaise("NameError", f"name {name!r} is not defined")

    def assign_name(self, name, v, env):
        d = env.declared.get(name)
        if d == "global":
            env.globs[name] = v
            return
        if d == "nonlocal":
            e = env.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        getattr(self, "x_" + type(st).__name__, self.x_unknown)(st, env)

    def x_unknown(self, st, env):
        raise Unsupported(f"statement {type(st).__name__} (line {getattr(st, 'lineno', '?')})")

    def x_Pass(self, st, env):
        pass

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def x_Import(self, st, env):
        for a in st.names:
            mod = self.load(a.name)
            if a.asname:
                self.assign_name(a.asname, mod, env)
            else:
                top = a.name.split(".")[0]
                self.assign_name(top, self.load(top), env)

    def x_ImportFrom(self, st, env):
        base = st.module or "climate_indices"
        if st.level and st.module:
            base = "climate_indices." + st.module
        mod = self.load(base)
        for a in st.names:
            if a.name in mod.attrs:
                v = mod.attrs[a.name]
            else:
                v = self.load(base + "." + a.name)
            self.assign_name(a.asname or a.name, v, env)

    def x_FunctionDef(self, st, env):
        f = Func(st, env, st.name, getattr(env, "module", None) or env.globs.get("__name__"))
        f.defaults = [self.eval(d, env) for d in st.args.defaults]
        f.kwdefaults = {a.arg: self.eval(d, env) for a, d in zip(st.args.kwonlyargs, st.args.kw_defaults) if d is not None}
        v = f
        for d in reversed(st.decorator_list):
            if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod"):
                v = (d.id, v)
            else:
                dec = self.eval(d, env)
                v = self.call(dec, [v], {})
        self.assign_name(st.name, v, env)

    def x_ClassDef(self, st, env):
        bases = [self.eval(b, env) for b in st.bases]
        is_enum = any(isinstance(b, ClassVal) and b.is_enum for b in bases)
        cenv = Env(None, env, env.globs)
        self.exec_block(st.body, cenv)
        cls = ClassVal(st.name, dict(cenv.vars), is_enum, bases)
        if is_enum:
            for k, v in cenv.vars.items():
                if not k.startswith("_") and not isinstance(v, (Func, tuple)):
                    mem = EnumMember(cls, k, v)
                    cls.members[k] = mem
                    cls.attrs[k] = mem
        self.assign_name(st.name, cls, env)

    def x_Global(self, st, env):
        for n in st.names:
            env.declared[n] = "global"

    def x_Nonlocal(self, st, env):
        for n in st.names:
            env.declared[n] = "nonlocal"

    def x_Return(self, st, env):
        raise ReturnEx(self.eval(st.value, env) if st.value is not None else None)

    def x_Break(self, st, env):
        raise BreakEx()

    def x_Continue(self, st, env):
        raise ContinueEx()

    def x_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            raise PyRaise("AssertionError", "assertion")

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval(t.slice, env)
                if isinstance(o, PyDict) and k in o.d:
                    del o.d[k]
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def x_Raise(self, st, env):
        if st.exc is None:
            cur = getattr(env, "current_exc", None)
            raise cur if cur else Unsupported("bare raise")
        e = self.eval(st.exc, env)
        if isinstance(e, ExcClass):
            raise PyRaise(e.name, "", e)
        if isinstance(e, ExcObj):
            raise PyRaise(e.cls.name, e.msg, e.cls)
        raise Unsupported("raise of a non-exception")

    def x_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def x_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
            v = self.eval(st.value, env)
            if isinstance(old, A.Arr) and not isinstance(old, ListArr):
                self.inplace(old, st.op, v)
            elif isinstance(old, PyList) and isinstance(st.op, ast.Add) and isinstance(v, (PyList, tuple)):
                old.items.extend(v.items if isinstance(v, PyList) else v)
            else:
                self.assign_name(t.id, self.binop(st.op, old, v), env)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            old = self.getitem(o, k)
            v = self.eval(st.value, env)
            if isinstance(old, A.Arr) and not isinstance(old, ListArr) and not self.has_mask(k):
                self.inplace(old, st.op, v)
                if isinstance(o, PyDict):
                    o.d[k] = old
            else:
                self.setitem(o, k, self.binop(st.op, old, v))
        else:
            raise Unsupported("augmented assignment target")

    def has_mask(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        return any(isinstance(x, A.Arr) for x in ks)

    def inplace(self, arr, op, v):
        r = self.binop(op, arr, v)
        if arr.kind == "i" and isinstance(r, A.Arr) and r.kind == "f":
            raise PyRaise("TypeError", "cannot cast ufunc output")
        self.store(arr, r)

    def store(self, arr, v):
        """arr[...] = v"""
        if isinstance(v, (PyList, tuple)):
            v = self.lib["numpy"].attrs["array"].fn([v], {})
        if isinstance(v, A.Arr):
            shape, (rd,) = self.broadcast_to(v, arr.shape)
            arr.store(lambda idx: True, lambda idx: rd(idx))
        else:
            val = v
            arr.store(lambda idx: True, lambda idx: val)

    def broadcast_to(self, v, shape):
        dummy = A.Arr(self.m, None, shape, "f", None, None, False)
        dummy.reader = lambda: (lambda idx: None)
        sh, readers = A.broadcast(self.m, [dummy, v])
        if len(sh) != len(shape):
            # numpy allows leading ones
            raise PyRaise("ValueError", "could not broadcast input array")
        return sh, (readers[1],)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            for e, x in zip(t.elts, items):
                if isinstance(e, ast.Starred):
                    raise Unsupported("starred assignment")
                self.assign(e, x, env)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            self.setitem(o, k, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            if isinstance(o, ModuleVal):
                o.attrs[t.attr] = v
            elif isinstance(o, A.Arr) and t.attr == "shape":
                raise Unsupported("assignment to shape")
            else:
                raise Unsupported(f"attribute assignment .{t.attr}")
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, starred=False):
        if isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, PyList):
            items = v.items
        elif isinstance(v, A.Arr) and isinstance(v.shape[0], int):
            items = [A.view(v, i)[0] for i in range(v.shape[0])]
        else:
            raise Unsupported("unpacking")
        if len(items) != n and not starred:
            raise PyRaise("ValueError", "wrong number of values to unpack")
        return items

    def x_If(self, st, env):
        c = self.eval(st.test, env)
        if self.truth(c):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def x_With(self, st, env):
        for item in st.items:
            v = self.eval(item.context_expr, env)
            if not isinstance(v, Opaque):
                raise Unsupported("with statement")
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env)
        self.exec_block(st.body, env)

    def x_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except PyRaise as e:
                if getattr(e, "poison", False):
                    raise Unsupported("exception from a symbolic loop is caught")
                for h in st.handlers:
                    if self.handler_matches(h, e, env):
                        if h.name:
                            env.vars[h.name] = ExcObj(EXC.get(e.name, EXC["Exception"]), e.msg)
                        saved = getattr(env, "current_exc", None)
                        env.current_exc = e
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            env.current_exc = saved
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            self.exec_block(st.finalbody, env)
            raise
        self.exec_block(st.finalbody, env)

    def handler_matches(self, h, e, env):
        if h.type is None:
            return True
        t = self.eval(h.type, env)
        ts = t if isinstance(t, tuple) else (t,)
        c = EXC.get(e.name, EXC["Exception"])
        return any(isinstance(x, ExcClass) and c.isa(x.name) for x in ts)

    def x_For(self, st, env):
        self.loops.run_for(st, env)

    def x_While(self, st, env):
        self.loops.run_while(st, env)

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        return getattr(self, "e_" + type(e).__name__, self.e_unknown)(e, env)

    def e_unknown(self, e, env):
        raise Unsupported(f"expression {type(e).__name__} (line {getattr(e, 'lineno', '?')})")

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return F(repr(v)) if v == v and v not in (float("inf"), float("-inf")) else (
                FL.tag(NAN, False) if v != v else (INF if v > 0 else NINF))
        if v is Ellipsis or v is None or isinstance(v, (bool, int, str)):
            return v
        raise Unsupported("constant")

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_Tuple(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return tuple(out)

    def e_List(self, e, env):
        return PyList(self.m, self.e_Tuple(e, env))

    def e_Set(self, e, env):
        return self.e_Tuple(e, env)

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, env)
                d.update(o.d)
            else:
                d[self.key(self.eval(k, env))] = self.eval(v, env)
        return PyDict(self.m, d)

    def key(self, k):
        if isinstance(k, (str, int, bool, F, tuple, EnumMember, type(None))):
            return k
        raise Unsupported(f"dictionary key {type(k).__name__}")

    def e_JoinedStr(self, e, env):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(p.value)
            else:
                try:
                    v = self.eval(p.value, env)
                except Unsupported:
                    v = Opaque()
                if isinstance(v, (str, int)) and not isinstance(v, bool):
                    out.append(str(v))
                elif isinstance(v, EnumMember):
                    out.append(v.name)
                else:
                    return Opaque("str")
        return "".join(out)

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse, env)

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        vals = e.values
        # merge numeric / boolean operands that cannot fail into one condition
        v = self.eval(vals[0], env)
        for x in vals[1:]:
            if is_b(v) and not isinstance(v, bool) and self.pure(x):
                w = self.eval(x, env)
                if is_b(w):
                    v = simp_b(And(v, w) if is_and else Or(v, w))
                    continue
                t = self.truth(v)
                if is_and:
                    v = w if t else v
                    if not t:
                        return v
                else:
                    if t:
                        return v
                    v = w
                continue
            t = self.truth(v)
            if is_and and not t:
                return v
            if not is_and and t:
                return v
            v = self.eval(x, env)
        return v

    def pure(self, e):
        """comparison / boolean structure over names, constants and arithmetic: evaluation cannot fail"""
        for n in ast.walk(e):
            if isinstance(n, (ast.Call, ast.Subscript, ast.Attribute, ast.IfExp, ast.Div, ast.Mod, ast.FloorDiv, ast.Pow)):
                return False
            if isinstance(n, ast.Constant) and n.value is None:
                return False
        return True

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        return self.unop(e.op, v)

    def unop(self, op, v):
        if isinstance(op, ast.Not):
            if is_b(v):
                return Not(v)
            return not self.truth(v)
        if isinstance(v, A.Arr):
            if isinstance(op, ast.USub):
                return A.elementwise(self.m, n_neg, v.kind if v.kind != "b" else "i", v)
            if isinstance(op, ast.Invert) and v.kind == "b":
                return A.elementwise(self.m, Not, "b", v)
            if isinstance(op, ast.UAdd):
                return v
        elif is_num(v):
            if isinstance(op, ast.USub):
                return FL.tag(n_neg(v), FL.isnp(v))
            if isinstance(op, ast.UAdd):
                return v
            if isinstance(op, ast.Invert) and is_b(v):
                return Not(v)      # numpy booleans
        raise Unsupported(f"unary {type(op).__name__} on {type(v).__name__}")

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.eval(e.left, env), self.eval(e.right, env))

    def binop(self, op, a, b):
        if isinstance(a, ListArr) or isinstance(b, ListArr):
            if isinstance(op, ast.Mult):
                raise Unsupported("list arithmetic")
            if isinstance(op, ast.Add) and not (isinstance(a, ListArr) and isinstance(b, ListArr)):
                x, y = a, b
                if isinstance(x, A.Arr) and isinstance(y, A.Arr):   # list + ndarray
                    return self.arrayop(op, self.unlist(x), self.unlist(y))
            if isinstance(op, ast.Add):
                return self.lib["numpy"].attrs["concatenate"].fn([(a, b)], {})
            return self.arrayop(op, self.unlist(a), self.unlist(b))
        if isinstance(a, A.Arr) or isinstance(b, A.Arr):
            return self.arrayop(op, a, b)
        if is_num(a) and is_num(b):
            return self.numop(op, a, b)
        if isinstance(a, str) or isinstance(b, str) or isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(op, ast.Add) and isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(op, ast.Add) and (isinstance(a, (str, Opaque)) and isinstance(b, (str, Opaque))):
                return Opaque("str")
            if isinstance(op, ast.Mod) and isinstance(a, (str, Opaque)):
                return Opaque("str")
            raise PyRaise("TypeError", "unsupported operand type(s)")
        if isinstance(op, ast.Mult):
            if isinstance(b, (PyList, tuple)):
                a, b = b, a
            if isinstance(a, (PyList, tuple)) and is_i(b):
                items = list(a.items if isinstance(a, PyList) else a)
                if isinstance(b, int):
                    out = items * b
                    return PyList(self.m, out) if isinstance(a, PyList) else tuple(out)
                if len(items) == 1 and is_num(items[0]):
                    n = b if self.m.decide(n_le(0, b)) else 0
                    v = items[0]
                    buf = A.Buf(self.m, A.Leaf(self.m, lambda idx: v))
                    return ListArr(self.m, buf, (n,), "f" if is_r(v) else ("b" if is_b(v) else "i"))
        if isinstance(op, ast.Add):
            if isinstance(a, PyList) and isinstance(b, PyList):
                return PyList(self.m, a.items + b.items)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if isinstance(a, DateVal) or isinstance(b, DateVal):
            return date_op(self, op, a, b)
        if a is None or b is None:
            raise PyRaise("TypeError", "unsupported operand type(s): NoneType")
        raise Unsupported(f"{type(op).__name__} on {type(a).__name__} and {type(b).__name__}")

    def unlist(self, x):
        if isinstance(x, ListArr):
            return A.Arr(self.m, x.buf, x.shape, x.kind, x.fwd, x.inv, x.whole)
        return x

    def numop(self, op, a, b, np=None):
        m = self.m
        np = FL.isnp(a, b) if np is None else np
        if isinstance(op, ast.Add):
            r = n_add(a, b)
        elif isinstance(op, ast.Sub):
            r = n_sub(a, b)
        elif isinstance(op, ast.Mult):
            r = n_mul(a, b)
        elif isinstance(op, ast.Div):
            if not np:
                if m.decide(zero_test(b)):
                    raise PyRaise("ZeroDivisionError", "division by zero")
            if (is_i(a) or is_b(a)) and isinstance(b, int) and not isinstance(b, bool) and b > 0:
                if isinstance(a, (int, bool)):
                    r = F(int(a), b)
                else:
                    q = zi(a)
                    r = SR(z3.ToReal(q) * zr(F(1, b)), False, False, np, (q, b))
                    return r
            else:
                y = R(b)
                if y.inf is False and isinstance(y.val, z3.ExprRef) and m.entails(Not(r_eq(y.val, 0)), 300):
                    x = R(a)
                    if x.inf is False:
                        r = mk(r_div(x.val, y.val), Or(x.nan, y.nan), False)
                    else:
                        r = f_div(a, b)
                else:
                    r = f_div(a, b)
        elif isinstance(op, ast.FloorDiv):
            if num_kind(a, b) == "r":
                x, y = R(a), R(b)
                if concrete(a) and concrete(b) and b != 0:
                    r = F((F(a) / F(b)).__floor__())
                else:
                    raise Unsupported("floor division of reals")
            else:
                if m.decide(n_eq(b, 0)):
                    raise PyRaise("ZeroDivisionError", "division by zero")
                if isinstance(b, int) and b > 0:
                    r = A.divmod_const(m, _ii(a), b)[0]
                elif m.decide(n_lt(0, b)):
                    r = isimp(zi(_ii(a)) / zi(b))
                else:
                    r = isimp((-zi(_ii(a))) / (-zi(b)))
        elif isinstance(op, ast.Mod):
            if num_kind(a, b) == "r":
                if concrete(a) and concrete(b) and b != 0:
                    r = F(a) % F(b)
                else:
                    raise Unsupported("remainder of reals")
            else:
                if m.decide(n_eq(b, 0)):
                    raise PyRaise("ZeroDivisionError", "modulo by zero")
                if isinstance(b, int) and b > 0:
                    r = A.divmod_const(m, _ii(a), b)[1]
                elif m.decide(n_lt(0, b)):
                    r = isimp(zi(_ii(a)) % zi(b))
                else:
                    raise Unsupported("negative modulus")
        elif isinstance(op, ast.Pow):
            if isinstance(b, F) and b.denominator == 1 and is_r(a):
                b = int(b)
            if is_i(a) and isinstance(b, int) and b >= 0:
                r = 1
                if b > 6 and not isinstance(a, int):
                    raise Unsupported("large power")
                if isinstance(a, int):
                    r = a ** b
                else:
                    for _ in range(b):
                        r = n_mul(r, a)
            else:
                if not np:
                    x = R(a)
                    integral = isinstance(b, int)
                    if not integral and m.decide(And(Not(x.nan), r_lt(x.val, 0))):
                        raise Unsupported("power of a negative Python float")
                    neg = n_lt(b, 0)
                    if neg is not False and m.decide(And(Not(x.nan), r_eq(x.val, 0), neg)):
                        raise PyRaise("ZeroDivisionError", "0.0 cannot be raised to a negative power")
                r = FL.power(m, a, b)
        elif isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and is_b(a) and is_b(b):
            if isinstance(op, ast.BitAnd):
                return And(a, b)
            if isinstance(op, ast.BitOr):
                return Or(a, b)
            return Not(Iff(a, b))
        elif isinstance(op, (ast.BitAnd, ast.BitOr, ast.LShift, ast.RShift)) and isinstance(a, int) and isinstance(b, int):
            return {ast.BitAnd: a & b, ast.BitOr: a | b, ast.LShift: a << b, ast.RShift: a >> b}[type(op)]
        else:
            raise Unsupported(f"operator {type(op).__name__}")
        return FL.tag(r, np)

    def arrayop(self, op, a, b):
        if isinstance(a, PyList) or isinstance(a, tuple):
            a = self.lib["numpy"].attrs["array"].fn([a], {})
        if isinstance(b, PyList) or isinstance(b, tuple):
            b = self.lib["numpy"].attrs["array"].fn([b], {})
        for x in (a, b):
            if not isinstance(x, A.Arr) and not is_num(x):
                if x is None:
                    raise PyRaise("TypeError", "unsupported operand type(s)")
                raise Unsupported(f"array operation with {type(x).__name__}")
        ka = a.kind if isinstance(a, A.Arr) else num_kind(a).replace("r", "f")
        kb = b.kind if isinstance(b, A.Arr) else num_kind(b).replace("r", "f")
        kind = "f" if "f" in (ka, kb) else ("i" if "i" in (ka, kb) else "b")
        if isinstance(op, ast.Div):
            kind = "f"
        elif isinstance(op, (ast.Add, ast.Mult)) and kind == "b":
            raise Unsupported("arithmetic of boolean arrays")
        elif isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and kind != "b":
            raise Unsupported("bit operation on numbers")
        elif isinstance(op, (ast.FloorDiv, ast.Mod)) and kind == "f":
            raise Unsupported("floor division of float arrays")
        if isinstance(op, (ast.Pow,)) and kind == "i":
            raise Unsupported("integer array power")
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and not (isinstance(b, int) and b > 0):
            raise Unsupported("array modulus")
        return A.elementwise(self.m, lambda x, y: self.numop(op, x, y, True), kind, a, b)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for i, (op, rx) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(rx, env)
            c = self.compare(op, left, right)
            left = right
            if res is None:
                res = c
            else:
                if isinstance(res, A.Arr) or isinstance(c, A.Arr):
                    raise Unsupported("chained array comparison")
                res = simp_b(And(res, c)) if is_b(res) and is_b(c) else None
                if res is None:
                    raise Unsupported("chained comparison")
            if i < len(e.ops) - 1:
                if res is False:
                    return False
                if is_b(res) and not isinstance(res, bool) and not self.pure(e.comparators[i + 1]):
                    if not self.truth(res):
                        return False
                    res = True
        return res

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b)
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else Not(r)
        if isinstance(a, A.Arr) or isinstance(b, A.Arr):
            if isinstance(a, (PyList, tuple)):
                a = self.lib["numpy"].attrs["array"].fn([a], {})
            if isinstance(b, (PyList, tuple)):
                b = self.lib["numpy"].attrs["array"].fn([b], {})
            if not all(isinstance(x, A.Arr) or is_num(x) for x in (a, b)):
                raise Unsupported("array comparison with an object")
            return A.elementwise(self.m, lambda x, y: self.numcmp(op, x, y), "b", a, b)
        if is_num(a) and is_num(b):
            return self.numcmp(op, a, b)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b)
            return r if isinstance(op, ast.Eq) else Not(r)
        if isinstance(a, DateVal) and isinstance(b, DateVal):
            return self.numcmp(op, a.ord, b.ord)
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if isinstance(a, VersionVal) or isinstance(b, VersionVal):
            c = cmp_version(a, b)
            return {ast.Lt: c < 0, ast.LtE: c <= 0, ast.Gt: c > 0, ast.GtE: c >= 0}[type(op)]
        if a is None or b is None:
            raise PyRaise("TypeError", "'<' not supported with NoneType")
        raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")

    def numcmp(self, op, a, b):
        if isinstance(op, ast.Lt):
            return n_lt(a, b)
        if isinstance(op, ast.LtE):
            return n_le(a, b)
        if isinstance(op, ast.Gt):
            return n_lt(b, a)
        if isinstance(op, ast.GtE):
            return n_le(b, a)
        if isinstance(op, ast.Eq):
            return n_eq(a, b)
        return Not(n_eq(a, b))

    def identical(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, (EnumMember, ClassVal, Func, PyList, PyDict)) or isinstance(b, (EnumMember, ClassVal, Func, PyList, PyDict)):
            return a is b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, A.Arr) and isinstance(b, A.Arr):
            return a is b
        if type(a) is not type(b) and (isinstance(a, (str, A.Arr)) or isinstance(b, (str, A.Arr))):
            return False
        raise Unsupported("identity test")

    def equal(self, a, b):
        if is_num(a) and is_num(b):
            return n_eq(a, b)
        if isinstance(a, (tuple, PyList)) and isinstance(b, (tuple, PyList)):
            if isinstance(a, tuple) != isinstance(b, tuple):
                return False
            x = a if isinstance(a, tuple) else a.items
            y = b if isinstance(b, tuple) else b.items
            if len(x) != len(y):
                return False
            return simp_b(And(*[self.equal(p, q) for p, q in zip(x, y)]))
        if isinstance(a, A.Arr) or isinstance(b, A.Arr):
            raise Unsupported("truth of an array comparison")
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, DateVal) and isinstance(b, DateVal):
            return n_eq(a.ord, b.ord)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("comparison of an opaque value")
        if type(a) is type(b) or a is None or b is None or isinstance(a, (EnumMember, str)) or isinstance(b, (EnumMember, str)):
            return a is b
        raise Unsupported(f"equality of {type(a).__name__} and {type(b).__name__}")

    def contains(self, c, x):
        if isinstance(c, (tuple, PyList)):
            items = c if isinstance(c, tuple) else c.items
            return simp_b(Or(*[self.equal(x, y) for y in items]))
        if isinstance(c, PyDict):
            return self.key(x) in c.d
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, RangeVal) and c.step == 1 and is_i(x):
            return simp_b(And(n_le(c.start, x), n_lt(x, c.stop)))
        if isinstance(c, ClassVal) and c.is_enum:
            return isinstance(x, EnumMember) and x.cls is c
        raise Unsupported(f"membership in {type(c).__name__}")

    def truth(self, v):
        """the truth value on this path"""
        if isinstance(v, bool):
            return v
        if is_num(v):
            return self.m.decide(truth(v))
        if v is None:
            return False
        if isinstance(v, (str, tuple)):
            return bool(v)
        if isinstance(v, PyList):
            return bool(v.items)
        if isinstance(v, PyDict):
            return bool(v.d)
        if isinstance(v, A.Arr):
            n = v.size()
            if isinstance(v, ListArr):
                return self.m.decide(n_lt(0, n))
            if isinstance(n, int) and n == 1:
                return self.m.decide(truth(v.get(tuple(0 for _ in v.shape))))
            if self.m.decide(n_eq(n, 1)):
                return self.m.decide(truth(v.get(tuple(0 for _ in v.shape))))
            if self.m.decide(n_eq(n, 0)):
                return False
            raise PyRaise("ValueError", "The truth value of an array is ambiguous")
        if isinstance(v, (EnumMember, Func, Builtin, ModuleVal, ClassVal)):
            return True
        raise Unsupported(f"truth of {type(v).__name__}")

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def getattr(self, o, name):
        from . import npmodel
        if isinstance(o, ModuleVal):
            if name in o.attrs:
                return o.attrs[name]
            try:
                return self.load(o.name + "." + name)
            except Unsupported:
                raise Unsupported(f"{o.name}.{name} is not modelled")
        if isinstance(o, ClassVal):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, tuple) and len(v) == 2 and v[0] in ("staticmethod", "classmethod"):
                    return v[1] if v[0] == "staticmethod" else Bound(v[1], o)
                return v
            if name == "__members__" and o.is_enum:
                return PyDict(self.m, o.members)
            raise PyRaise("AttributeError", name)
        if isinstance(o, EnumMember):
            if name == "name":
                return o.name
            if name == "value":
                return o.value
            v = o.cls.attrs.get(name)
            if isinstance(v, Func):
                return Bound(v, o)
            if isinstance(v, tuple):
                return v[1]
            raise PyRaise("AttributeError", name)
        if isinstance(o, Opaque):
            return Opaque(o.what + "." + name)
        if o is None:
            raise PyRaise("AttributeError", f"'NoneType' object has no attribute {name!r}")
        return npmodel.attribute(self, o, name)

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.eval(x, env)
            return A.Slice(g(s.lower), g(s.upper), g(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in s.elts)
        return self.eval(s, env)

    def e_Subscript(self, e, env):
        return self.getitem(self.eval(e.value, env), self.eval_index(e.slice, env))

    def getitem(self, o, k):
        from . import npmodel
        if isinstance(o, A.Arr):
            ks = k if isinstance(k, tuple) else (k,)
            if any(isinstance(x, (A.Arr, PyList)) for x in ks):
                return npmodel.fancy_get(self, o, ks)
            v, scalar, _ = A.view(o, k)
            return FL.tag(v, True) if scalar else (v if not isinstance(o, ListArr) else
                                                 ListArr(self.m, v.buf, v.shape, v.kind, v.fwd, v.inv, v.whole))
        if isinstance(o, (tuple, PyList)):
            items = o if isinstance(o, tuple) else o.items
            if isinstance(k, A.Slice):
                if all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                    r = items[k.start:k.stop:k.step]
                    return tuple(r) if isinstance(o, tuple) else PyList(self.m, r)
                raise Unsupported("symbolic slice of a list")
            if isinstance(k, bool):
                k = int(k)
            if isinstance(k, int):
                if not -len(items) <= k < len(items):
                    raise PyRaise("IndexError", "list index out of range")
                return items[k]
            if is_i(k) and items and all(is_num(x) for x in items):
                if not self.m.decide(And(n_le(0, k), n_lt(k, len(items)))):
                    raise Unsupported("symbolic list index out of range")
                v = items[-1]
                for i in range(len(items) - 2, -1, -1):
                    v = n_ite(n_eq(k, i), items[i], v)
                return v
            if is_i(k):
                for i in range(len(items)):
                    if self.m.decide(n_eq(k, i)):
                        return items[i]
                raise Unsupported("symbolic list index out of range")
            raise PyRaise("TypeError", "list indices must be integers or slices")
        if isinstance(o, PyDict):
            k = self.key(k)
            if k not in o.d:
                raise PyRaise("KeyError", str(k))
            v = o.d[k]
            if isinstance(v, LazyVal):
                v = v.force()
            return v
        if isinstance(o, ClassVal) and o.is_enum:
            if isinstance(k, str) and k in o.members:
                return o.members[k]
            raise PyRaise("KeyError", str(k))
        if isinstance(o, str) and isinstance(k, int):
            return o[k]
        if o is None:
            raise PyRaise("TypeError", "'NoneType' object is not subscriptable")
        raise Unsupported(f"subscript of {type(o).__name__}")

    def setitem(self, o, k, v):
        from . import npmodel
        if isinstance(o, A.Arr):
            ks = k if isinstance(k, tuple) else (k,)
            if any(isinstance(x, (A.Arr, PyList)) for x in ks):
                npmodel.fancy_set(self, o, ks, v)
                return
            if all(is_i(x) for x in ks) and len(ks) == o.ndim:
                if isinstance(v, A.Arr):
                    if isinstance(v.size(), int) and v.size() == 1:
                        v = v.get(tuple(0 for _ in v.shape))
                    else:
                        raise PyRaise("ValueError", "setting an array element with a sequence")
                pos = tuple(A.index_of(self.m, i, n) for i, n in zip(ks, o.shape))
                b0 = o.fwd(pos)
                val = A.convert(self.m, v, o.kind)
                o.buf.write(lambda b: And(*[n_eq(x, y) for x, y in zip(b, b0)]), lambda b: val)
                return
            tgt, scalar, _ = A.view(o, k)
            if scalar:
                raise Unsupported("element assignment")
            self.store(tgt, v)
            return
        if isinstance(o, PyDict):
            o.d[self.key(k)] = v
            return
        if isinstance(o, PyList):
            if isinstance(k, int):
                if not -len(o.items) <= k < len(o.items):
                    raise PyRaise("IndexError", "list assignment index out of range")
                o.items[k] = v
                return
            if is_i(k) and is_num(v) and all(is_num(x) for x in o.items):
                if not self.m.decide(And(n_le(0, k), n_lt(k, len(o.items)))):
                    raise Unsupported("symbolic list index out of range")
                o.items = [n_ite(n_eq(k, i), v, x) for i, x in enumerate(o.items)]
                return
            raise Unsupported("list assignment")
        if isinstance(o, tuple):
            raise PyRaise("TypeError", "'tuple' object does not support item assignment")
        raise Unsupported(f"item assignment on {type(o).__name__}")

    def e_Lambda(self, e, env):
        f = Func(e, env, "<lambda>", env.globs.get("__name__"))
        f.defaults = [self.eval(d, env) for d in e.args.defaults]
        return f

    def e_Starred(self, e, env):
        raise Unsupported("starred expression")

    def iterate(self, v):
        """concrete list of the items of an iterable, or Unsupported"""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PyList):
            return list(v.items)
        if isinstance(v, PyDict):
            return list(v.d.keys())
        if isinstance(v, RangeVal):
            if all(isinstance(x, int) for x in (v.start, v.stop, v.step)):
                r = range(v.start, v.stop, v.step)
                if len(r) <= 2000:
                    return list(r)
        if isinstance(v, SeqVal) and isinstance(v.n, int) and v.n <= 2000:
            return [v.elem(k) for k in range(v.n)]
        if isinstance(v, A.Arr) and isinstance(v.shape[0], int) and v.shape[0] <= 2000:
            return [self.getitem(v, i) for i in range(v.shape[0])]
        if isinstance(v, ClassVal) and v.is_enum:
            return list(v.members.values())
        if isinstance(v, str):
            return list(v)
        if v is None or is_num(v):
            raise PyRaise("TypeError", "object is not iterable")
        raise Unsupported(f"iteration over {type(v).__name__}")

    def comp(self, e, env, add):
        def rec(i, cenv):
            if i == len(e.generators):
                add(cenv)
                return
            g = e.generators[i]
            for item in self.iterate(self.eval(g.iter, cenv)):
                self.assign(g.target, item, cenv)
                if all(self.truth(self.eval(c, cenv)) for c in g.ifs):
                    rec(i + 1, cenv)
        cenv = Env(self.m, env, env.globs)
        rec(0, cenv)

    def e_ListComp(self, e, env):
        if len(e.generators) == 1 and not e.generators[0].ifs:
            it = self.eval(e.generators[0].iter, env)
            seq = self.loops.sequence(it)
            if not isinstance(seq, list) and not (isinstance(seq.n, int) and seq.n <= 31):
                return self.loops.listcomp(e, env, seq)
        out = []
        self.comp(e, env, lambda c: out.append(self.eval(e.elt, c)))
        return PyList(self.m, out)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        return self.e_ListComp(e, env)

    def e_DictComp(self, e, env):
        out = {}

        def add(c):
            out[self.key(self.eval(e.key, c))] = self.eval(e.value, c)
        self.comp(e, env, add)
        return PyDict(self.m, out)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    # ------------------------------------------------------------ calls
    def e_Call(self, e, env):
        f = self.eval(e.func, env)
        if isinstance(f, Opaque):
            return Opaque(f.what + "()")
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if not isinstance(d, PyDict):
                    raise Unsupported("** of a non-dictionary")
                for key in list(d.d):
                    kw[key] = self.getitem(d, key)
            else:
                kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw)

    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Builtin):
            return f.fn(args, kw)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, Opaque):
            return Opaque()
        if isinstance(f, ExcClass):
            return ExcObj(f, args[0] if args else "")
        if isinstance(f, ClassVal):
            if f.is_enum:
                for mem in f.members.values():
                    if self.truth(self.equal(mem.value, args[0])):
                        return mem
                raise PyRaise("ValueError", "not a valid enum value")
            raise Unsupported(f"instance of {f.name}")
        if isinstance(f, Func):
            q = f"{f.module}.{f.name}".replace("climate_indices.", "")
            if q in self.contracts:
                self.used_contracts.add(q)
                c = self.contracts[q]
                return c.fn(self.bindargs(f, args, kw), {})
            return self.call_func(f, args, kw)
        if f is None:
            raise PyRaise("TypeError", "'NoneType' object is not callable")
        raise Unsupported(f"call of {type(f).__name__}")

    def bindargs(self, f, args, kw):
        """arguments in positional order"""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        d = self.bind(f, args, kw)
        return [d[n] for n in names]

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise("TypeError", f"{f.name}() takes {len(names)} arguments")
            d[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            d[a.vararg.arg] = ()
        for n, v in zip(names, args):
            d[n] = v
        rest = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in d:
                    raise PyRaise("TypeError", f"multiple values for argument {k!r}")
                d[k] = v
            elif a.kwarg is not None:
                rest[k] = v
            else:
                raise PyRaise("TypeError", f"unexpected keyword argument {k!r}")
        if a.kwarg is not None:
            d[a.kwarg.arg] = PyDict(self.m, rest)
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in d:
                j = i - (len(names) - nd)
                if j < 0:
                    raise PyRaise("TypeError", f"{f.name}() missing required argument {n!r}")
                d[n] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in d:
                if x.arg not in f.kwdefaults:
                    raise PyRaise("TypeError", "missing keyword argument")
                d[x.arg] = f.kwdefaults[x.arg]
        return d

    def call_func(self, f, args, kw=None):
        if self.depth > 60:
            raise Unsupported("recursion")
        d = self.bind(f, args, kw or {})
        env = Env(self.m, f.env if f.env is not None and f.env.vars is not f.env.globs else None,
                  f.env.globs, d)
        if isinstance(f.node, ast.Lambda):
            return self.eval(f.node.body, env)
        self.functions.add(f"{f.module}.{f.name}")
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                raise Unsupported("generator function")
        self.depth += 1
        self.calls.append(f.name)
        try:
            self.exec_block(f.node.body, env)
            return None
        except ReturnEx as r:
            return r.v
        finally:
            self.calls.pop()
            self.depth -= 1


def simp_b(c):
    return c if isinstance(c, bool) else bsimp(c)


def zero_test(b):
    if is_r(b):
        x = R(b)
        return And(Not(x.nan), Not(x.inf), r_eq(x.val, 0))
    return n_eq(b, 0)


def _ii(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, z3.BoolRef):
        return zi(x)
    return x


def cmp_version(a, b):
    """order of version strings made of numbers and dots"""
    try:
        x, y = ([int(p) for p in (v.s if isinstance(v, VersionVal) else v).split(".")] for v in (a, b))
    except (ValueError, AttributeError):
        raise Unsupported("version comparison")
    return (x > y) - (x < y)


class VersionVal:
    def __init__(self, s):
        self.s = s


class DateVal:
    """a date (ord: day number) or a difference of dates (delta)"""

    def __init__(self, ord, delta=False, parts=None):
        self.ord = ord
        self.delta = delta
        self.parts = parts


def date_op(I, op, a, b):
    if isinstance(op, ast.Sub) and isinstance(a, DateVal) and isinstance(b, DateVal):
        return DateVal(n_sub(a.ord, b.ord), a.delta == b.delta)
    if isinstance(op, ast.Add) and isinstance(a, DateVal) and isinstance(b, DateVal):
        return DateVal(n_add(a.ord, b.ord), a.delta and b.delta)
    if isinstance(op, ast.Add) and isinstance(a, DateVal) and a.delta and is_num(b):
        raise PyRaise("TypeError", "timedelta + number")
    raise Unsupported("date arithmetic")
