"""Models of the library functions the code under contract calls (the trusted base of the proofs)."""
import re
import z3
from .terms import *
from .machine import PyRaise, PI, ikey, tkey
from . import arrays as A
from . import floats as FL
from .interp import (Builtin, ModuleVal, Opaque, ExcClass, ExcObj, EXC, ClassVal, EnumMember, PyList, PyDict,
                     RangeVal, SeqVal, ListArr, VersionVal, DateVal, Func, Bound, simp_b)

NPNAN = SR(F(0), True, False, True)


class DType:
    def __init__(self, kind, name):
        self.kind = kind
        self.name = name


FLOAT, INT, BOOL = DType("f", "float64"), DType("i", "int64"), DType("b", "bool")


def dtype_of(x, default=FLOAT):
    if x is None:
        return default
    if isinstance(x, DType):
        return x
    if isinstance(x, Builtin):
        return {"float": FLOAT, "int": INT, "bool": BOOL}.get(x.name, None) or _bad()
    if isinstance(x, str):
        if x.startswith("float") or x in ("d", "f8"):
            return FLOAT
        if x.startswith("int"):
            return INT
        if x == "bool":
            return BOOL
    _bad()


def _bad():
    raise Unsupported("dtype")


def kw_only(kw, *names):
    for k in kw:
        if k not in names:
            raise Unsupported(f"keyword argument {k}")


def arr(I, x):
    """anything array-like -> Arr"""
    m = I.m
    if isinstance(x, ListArr):
        return I.unlist(x)
    if isinstance(x, A.Arr):
        return x
    if isinstance(x, (PyList, tuple)):
        items = x.items if isinstance(x, PyList) else list(x)
        if not items:
            return A.full(m, (0,), "f", F(0))
        if all(is_num(i) for i in items):
            k = num_kind(*items).replace("r", "f")
            if k == "f":
                items = [A.R_num(i) if not is_r(i) else i for i in items]
            elif k == "i":
                items = [A._ii(i) for i in items]

            def fn(idx, items=items):
                i = idx[0]
                if isinstance(i, int):
                    return items[i] if 0 <= i < len(items) else items[-1]
                v = items[-1]
                for j in range(len(items) - 2, -1, -1):
                    v = n_ite(n_eq(i, j), items[j], v)
                return v
            return A.new(m, (len(items),), k, fn)
        subs = [arr(I, i) for i in items]
        return stack(I, subs)
    raise Unsupported(f"array of {type(x).__name__}")


def stack(I, subs):
    m = I.m
    sh = subs[0].shape
    for s in subs[1:]:
        if len(s.shape) != len(sh):
            raise PyRaise("ValueError", "inhomogeneous shape")
        for p, q in zip(s.shape, sh):
            if not A.dims_equal(m, p, q):
                raise PyRaise("ValueError", "inhomogeneous shape")
    rd = [s.reader() for s in subs]
    kind = "f" if any(s.kind == "f" for s in subs) else subs[0].kind

    def fn(idx):
        i = idx[0]
        if isinstance(i, int):
            return rd[i](idx[1:])
        v = rd[-1](idx[1:])
        for j in range(len(rd) - 2, -1, -1):
            v = n_ite(n_eq(i, j), rd[j](idx[1:]), v)
        return v
    return A.new(m, (len(subs),) + tuple(sh), kind, fn)


def flat_reader(a):
    """(size, element function of the C-order position)"""
    rd = a.reader()
    m = a.m
    if a.ndim == 1:
        return a.shape[0], (lambda k: rd((k,)))
    shape = a.shape
    return a.size(), (lambda k: rd(A.unravel(m, shape, k)))


def npm(fn, *xs):
    return fn


def elem(I, fn, kind, *xs):
    """numpy ufunc: numbers or array-likes"""
    xs = [arr(I, x) if isinstance(x, (PyList, tuple, A.Arr)) else x for x in xs]
    for x in xs:
        if not isinstance(x, A.Arr) and not is_num(x):
            if x is None:
                raise PyRaise("TypeError", "ufunc on None")
            raise Unsupported(f"ufunc on {type(x).__name__}")
    r = A.elementwise(I.m, lambda *a: fn(*a), kind, *xs)
    if not isinstance(r, A.Arr):
        return FL.tag(r, True)
    return r


def reduce(I, a, axis, fn, kind="f", keepdims=False):
    """fn(n, element function) -> number, along an axis or over everything"""
    m = I.m
    a = arr(I, a)
    if axis is None:
        n, f = flat_reader(a)
        return FL.tag(fn(n, f), True)
    if not isinstance(axis, int):
        raise Unsupported("axis")
    if axis < 0:
        axis += a.ndim
    if not 0 <= axis < a.ndim:
        raise PyRaise("ValueError", "axis out of bounds")
    rd = a.reader()
    n = a.shape[axis]
    if a.ndim == 1:
        return FL.tag(fn(n, lambda k: rd((k,))), True)
    shape = a.shape[:axis] + a.shape[axis + 1:]
    ax = axis
    return A.new(m, shape, kind, lambda idx: fn(n, lambda k: rd(idx[:ax] + (k,) + idx[ax:])))


def fancy_get(I, o, ks):
    """boolean mask selection along the whole array or one axis is not materialised: a MaskSel"""
    m = I.m
    if len(ks) == 1 and isinstance(ks[0], A.Arr) and ks[0].kind == "b":
        mask = ks[0]
        if mask.ndim == o.ndim:
            for p, q in zip(mask.shape, o.shape):
                if not A.dims_equal(m, p, q):
                    raise PyRaise("IndexError", "boolean index did not match")
            return MaskSel(I, o, mask)
        raise Unsupported("mask of lower dimension")
    if len(ks) == 1 and isinstance(ks[0], A.Arr) and ks[0].kind == "i" and o.ndim == 1:
        ix = ks[0].reader()
        rd = o.reader()
        n = o.shape[0]
        if m.any(ks[0].size(), lambda k: Or(n_lt(ix((k,)), 0), n_le(n, ix((k,))))) is not False:
            if m.decide(m.any(ks[0].size(), lambda k: Or(n_lt(ix((k,)), 0), n_le(n, ix((k,)))))):
                raise Unsupported("integer index array out of range or negative")
        return A.new(m, ks[0].shape, o.kind, lambda idx: rd((ix(idx),)))
    raise Unsupported("advanced indexing")


def order_statistics(m, n, rd):
    """trusted contract of sort: the observed values of rd(0) .. rd(n-1) in ascending order, then the missing ones.
    Of these it is known that they are a function of the sequence, sum up to the sum of the observed values, and are all
    the same number where the observed values are."""
    body = R(m.probe_body(rd))
    if body.inf is not False:
        raise Unsupported("sort of values that may be infinite")
    count = m.count(n, lambda q: simp_b(Not(R(rd(q)).nan)))
    ag = m.agg("fn", n, rd, "sort")
    if not ag.res:
        ag.res["S"] = z3.Function("sorted_" + ag.base, z3.IntSort(), z3.RealSort())
        S = ag.res["S"]
        m.fn_decls["sorted_" + ag.base] = ag
        m.axiom(zb(r_eq(m.rsum(count, lambda q: S(zi(q))), R(FL.fsum(m, n, rd, True)).val)), m.rsum(count, lambda q: S(zi(q))))
    S = ag.res["S"]

    def at(q):
        return SR(body.val if concrete(body.val) else S(zi(q)), simp_b(n_le(count, q)), False, True)
    return at, count


class MaskSel:
    """values[mask]: the selected elements, known through reductions only"""

    def __init__(self, I, base, mask, rd=None, mk_=None, kind=None, n=None):
        self.I = I
        if rd is None:
            n, rd = flat_reader(base)
            _, mk_ = flat_reader(mask)
            kind = base.kind
        self.n, self.rd, self.mask, self.kind = n, rd, mk_, kind
        self.base = base

    def map(self, fn, kind):
        rd = self.rd
        return MaskSel(self.I, self.base, None, lambda k: fn(rd(k)), self.mask, kind, self.n)

    def length(self):
        return self.I.m.count(self.n, self.mask)

    def sum(self, skipnan=False):
        m = self.I.m
        if self.kind == "f":
            return FL.fsum(m, self.n, lambda k: n_ite(self.mask(k), self.rd(k), F(0)), skipnan)
        return FL.fsum(m, self.n, lambda k: n_ite(self.mask(k), n_add(self.rd(k), 0), 0))

    def mean(self):
        s = self.sum()
        return FL.tag(f_div(s, FL.R_of_int(self.length())), True)

    def any(self):
        return self.I.m.any(self.n, lambda k: simp_b(And(self.mask(k), truth(self.rd(k)))))

    def all(self):
        return Not(self.I.m.any(self.n, lambda k: simp_b(And(self.mask(k), Not(truth(self.rd(k)))))))


def fancy_set(I, o, ks, v):
    m = I.m
    if len(ks) == 1 and isinstance(ks[0], A.Arr) and ks[0].kind == "b":
        mask = ks[0]
        if mask.ndim != o.ndim:
            raise Unsupported("mask of lower dimension")
        for p, q in zip(mask.shape, o.shape):
            if not A.dims_equal(m, p, q):
                raise PyRaise("IndexError", "boolean index did not match")
        mr = mask.reader()
        if isinstance(v, MaskSel) and v.base is not None:
            # a[mask] = f(b[mask]) with the same mask
            shape = o.shape
            _, om = flat_reader(mask)
            if tkey(m.probe_body(om)) != tkey(m.probe_body(v.mask)):
                raise Unsupported("masked assignment with another mask")
            rd = v.rd
            o.store(lambda idx: mr(idx), lambda idx: rd(A.flat_index(m, shape, idx) if len(shape) > 1 else idx[0]))
            return
        if isinstance(v, A.Arr):
            if isinstance(v.size(), int) and v.size() == 1:
                v = v.get((0,) * v.ndim)
            else:
                raise Unsupported("masked assignment of an array")
        if not is_num(v):
            raise Unsupported("masked assignment")
        A.convert(m, v, o.kind)
        o.store(lambda idx: mr(idx), lambda idx: v)
        return
    # one mask on an axis, full slices elsewhere
    if sum(isinstance(k, A.Arr) for k in ks) == 1 and len(ks) == o.ndim and all(
            isinstance(k, A.Arr) or (isinstance(k, A.Slice) and k.start is None and k.stop is None and k.step is None)
            for k in ks):
        ax = [isinstance(k, A.Arr) for k in ks].index(True)
        mask = ks[ax]
        if mask.kind == "b" and mask.ndim == 1 and is_num(v):
            mr = mask.reader()
            o.store(lambda idx: mr((idx[ax],)), lambda idx: v)
            return
    raise Unsupported("advanced index assignment")


# ---------------------------------------------------------------- attributes and methods
def attribute(I, o, name):
    m = I.m
    B = lambda fn: Builtin(name, fn)
    if isinstance(o, MaskSel):
        if name == "size":
            return o.length()
        if name in ("sum", "mean", "any", "all"):
            return B(lambda a, k: getattr(o, name)())
        if name == "shape":
            return (o.length(),)
        raise Unsupported(f"masked selection .{name}")
    if isinstance(o, A.Arr) and not isinstance(o, ListArr):
        if name == "shape":
            return o.shape
        if name == "size":
            return o.size()
        if name == "ndim":
            return o.ndim
        if name == "dtype":
            return {"f": FLOAT, "i": INT, "b": BOOL}[o.kind]
        if name == "T":
            return transpose(I, o)
        if name == "flat":
            return A.reshape(o, (-1,)) if o.ndim > 1 else o
        if name == "values":
            return o
        np = I.lib["numpy"].attrs
        if name in ("flatten", "copy"):
            def f(a, k):
                c = A.copy(o)
                return A.reshape(c, (o.size(),)) if name == "flatten" else c
            return B(f)
        if name == "ravel":
            return B(lambda a, k: A.reshape(o, (o.size(),)))
        if name == "reshape":
            def f(a, k):
                kw_only(k)
                sh = a[0] if len(a) == 1 and isinstance(a[0], (tuple, PyList)) else tuple(a)
                return A.reshape(o, sh.items if isinstance(sh, PyList) else sh)
            return B(f)
        if name in ("sum", "mean", "min", "max", "any", "all", "std", "cumsum", "round", "clip", "argmin", "argmax",
                    "repeat", "prod", "squeeze", "nonzero"):
            if name not in np:
                raise Unsupported(f"ndarray.{name}")
            return B(lambda a, k: np[name].fn([o] + list(a), k))
        if name == "astype":
            def f(a, k):
                d = dtype_of(a[0])
                rd = o.reader()
                if d.kind == o.kind or d.kind == "f":
                    return A.new(m, o.shape, d.kind, lambda idx: A.convert(m, rd(idx), d.kind))
                if d.kind == "b":
                    return A.new(m, o.shape, "b", lambda idx: truth(rd(idx)))
                if d.kind == "i" and o.kind == "b":
                    return A.new(m, o.shape, "i", lambda idx: n_add(rd(idx), 0))
                raise Unsupported("astype(int) of floats")
            return B(f)
        if name == "fill":
            def f(a, k):
                I.store(o, a[0])
            return B(f)
        if name == "item":
            return B(lambda a, k: o.get((0,) * o.ndim))
        if name == "tolist":
            if o.ndim == 1 and isinstance(o.shape[0], int):
                return B(lambda a, k: PyList(m, [o.get((i,)) for i in range(o.shape[0])]))
            if o.ndim == 1:
                c = A.copy(o)
                return B(lambda a, k: ListArr(m, c.buf, c.shape, c.kind, c.fwd, c.inv, c.whole))
        if name == "sort":
            def f(a, k):
                I.store(o, np["sort"].fn([o], {}))
            return B(f)
        if name == "mask":
            raise PyRaise("AttributeError", "mask")
        raise Unsupported(f"ndarray.{name}")
    if isinstance(o, ListArr):
        raise Unsupported(f"list.{name}")
    if is_num(o):
        if name == "size":
            return 1
        if name == "shape":
            return ()
        if name == "ndim":
            return 0
        if name == "dtype":
            return {"r": FLOAT, "i": INT, "b": BOOL}[num_kind(o)]
        if name == "item":
            return B(lambda a, k: o)
        if name in ("astype",):
            return B(lambda a, k: o)
        if name in ("sum", "mean", "min", "max", "copy"):
            return B(lambda a, k: o)
        raise Unsupported(f"number .{name}")
    if isinstance(o, PyList):
        if name == "append":
            def f(a, k):
                o.items.append(a[0])
            return B(f)
        if name == "extend":
            def f(a, k):
                o.items.extend(I.iterate(a[0]))
            return B(f)
        if name == "insert":
            def f(a, k):
                o.items.insert(a[0], a[1])
            return B(f)
        if name == "copy":
            return B(lambda a, k: PyList(m, o.items))
        if name == "pop":
            return B(lambda a, k: o.items.pop(*a))
        if name == "count":
            def f(a, k):
                t = 0
                for x in o.items:
                    if a[0] is None:
                        t += x is None
                    elif isinstance(x, A.Arr):
                        raise PyRaise("ValueError", "The truth value of an array is ambiguous")
                    else:
                        t += bool(I.truth(I.equal(x, a[0])))
                return t
            return B(f)
        if name == "index":
            def f(a, k):
                for i, x in enumerate(o.items):
                    if I.truth(I.equal(x, a[0])):
                        return i
                raise PyRaise("ValueError", "not in list")
            return B(f)
        raise Unsupported(f"list.{name}")
    if isinstance(o, PyDict):
        if name == "get":
            def f(a, k):
                key = I.key(a[0])
                return I.getitem(o, key) if key in o.d else (a[1] if len(a) > 1 else None)
            return B(f)
        if name == "items":
            return B(lambda a, k: tuple((x, I.getitem(o, x)) for x in o.d))
        if name == "keys":
            return B(lambda a, k: tuple(o.d))
        if name == "values":
            return B(lambda a, k: tuple(I.getitem(o, x) for x in o.d))
        if name == "copy":
            return B(lambda a, k: PyDict(m, o.d))
        if name == "update":
            def f(a, k):
                for x in a:
                    for q in x.d:
                        o.d[q] = x.d[q]
                o.d.update(k)
            return B(f)
        if name == "pop":
            def f(a, k):
                key = I.key(a[0])
                if key in o.d:
                    return o.d.pop(key)
                if len(a) > 1:
                    return a[1]
                raise PyRaise("KeyError", str(key))
            return B(f)
        if name == "setdefault":
            def f(a, k):
                return o.d.setdefault(I.key(a[0]), a[1])
            return B(f)
        raise Unsupported(f"dict.{name}")
    if isinstance(o, str):
        if name in ("lower", "upper", "strip", "title"):
            return B(lambda a, k: getattr(o, name)())
        if name == "format":
            return B(lambda a, k: Opaque("str"))
        if name in ("startswith", "endswith", "replace", "split", "find"):
            return B(lambda a, k: _strres(I, getattr(o, name)(*a)))
        if name == "join":
            return B(lambda a, k: Opaque("str"))
        raise Unsupported(f"str.{name}")
    if isinstance(o, tuple):
        if name in ("count", "index"):
            return attribute(I, PyList(m, o), name)
    if isinstance(o, DateVal):
        if o.delta and name == "days":
            return o.ord
        if not o.delta and name == "toordinal":
            return B(lambda a, k: o.ord)
        if not o.delta and o.parts and name in ("year", "month", "day"):
            return o.parts[("year", "month", "day").index(name)]
        if not o.delta and name == "timetuple":
            def f(a, k):
                y = o.parts[0]
                yd = n_add(n_sub(o.ord, ordinal(I, y, 1, 1)), 1)
                return ModuleVal("timetuple", {"tm_yday": yd, "tm_year": y, "tm_mon": o.parts[1], "tm_mday": o.parts[2]})
            return B(f)
    if isinstance(o, VersionVal):
        raise Unsupported("version attribute")
    if isinstance(o, DType):
        if name == "kind":
            return o.kind
        if name == "name":
            return o.name
    if isinstance(o, Builtin) and name in o.__dict__.get("attrs", {}):
        return o.attrs[name]
    if isinstance(o, ExcObj):
        return Opaque("exc")
    raise Unsupported(f"{type(o).__name__}.{name}")


def _strres(I, r):
    return PyList(I.m, r) if isinstance(r, list) else r


def transpose(I, o):
    if o.ndim == 1:
        return o
    if o.ndim == 2:
        f, g = o.fwd, o.inv

        def inv(b):
            ok, i = g(b)
            return ok, (i[1], i[0]) if i is not None else None
        return A.Arr(I.m, o.buf, (o.shape[1], o.shape[0]), o.kind, lambda i: f((i[1], i[0])), inv, False)
    raise Unsupported("transpose")


# ---------------------------------------------------------------- calendar
def calendar_name(m, kind, y, t):
    """a constant that stands for a fact about year y: its definition is left out of most questions"""
    y = isimp(y)
    if isinstance(y, int):
        return None
    key = (kind, y.get_id())
    if key not in m.names:
        v = m.fresh_bool("leapyear") if kind == "leap" else m.fresh_int("leaps")
        f = v == t
        m.names[key] = (y, v)
        m.deps[str(v)] = [t]
        m.defs.add(f.get_id())
        m.axiom(f, v)
    return m.names[key][1]


def isleap(y, m=None):
    if isinstance(y, int):
        return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    if m is not None and m.opaque_calendar:
        r = calendar_name(m, "leap", y, isleap(y))
        if r is not None:
            return r
    return simp_b(z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0)))


def leaps_upto(y, m=None):
    """leap years among 1..y"""
    if isinstance(y, int):
        return y // 4 - y // 100 + y // 400
    if m is not None and m.opaque_calendar:
        r = calendar_name(m, "leaps", y, leaps_upto(y))
        if r is not None:
            return r
    return isimp(y / 4 - y / 100 + y / 400)


CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
MLEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def ordinal(I, y, mth, d):
    """proleptic Gregorian day number (datetime.toordinal)"""
    y1 = n_sub(y, 1)
    base = n_add(n_mul(365, y1), leaps_upto(y1, I.m))
    lp = isleap(y, I.m)
    if isinstance(mth, int):
        c = n_add(CUM[mth - 1], i_ite(lp, 1, 0) if mth > 2 else 0)
    else:
        c = CUM[11]
        for j in range(10, -1, -1):
            c = i_ite(n_le(mth, j + 1), CUM[j], c)
        c = n_add(c, i_ite(simp_b(And(n_lt(2, mth), lp)), 1, 0))
    return n_add(n_add(base, c), d)


def mk_datetime(I, args, kw):
    names = ["year", "month", "day"]
    vals = dict(zip(names, args))
    vals.update(kw)
    if len(args) > 3 or any(k not in names for k in vals):
        raise Unsupported("datetime with time of day")
    y, mo, d = (vals.get(k) for k in names)
    m = I.m
    for v in (y, mo, d):
        if not is_i(v):
            raise PyRaise("TypeError", "an integer is required")
    if not m.decide(And(n_le(1, y), n_le(y, 9999))):
        raise PyRaise("ValueError", "year is out of range")
    if not m.decide(And(n_le(1, mo), n_le(mo, 12))):
        raise PyRaise("ValueError", "month must be in 1..12")
    if not (isinstance(d, int) and 1 <= d <= 28):
        ml = i_ite(isleap(y, m), 29, 28)
        if isinstance(mo, int):
            ml = ml if mo == 2 else MLEN[mo - 1]
        else:
            v = ml
            for j in range(12):
                if j != 1:
                    v = i_ite(n_eq(mo, j + 1), MLEN[j], v)
            ml = v
        if not m.decide(And(n_le(1, d), n_le(d, ml))):
            raise PyRaise("ValueError", "day is out of range for month")
    return DateVal(ordinal(I, y, mo, d), False, (y, mo, d))


# ---------------------------------------------------------------- library tables
def library(I):
    m = I.m
    lib = {}

    def mod(name, **attrs):
        lib[name] = ModuleVal(name, attrs)
        return lib[name]

    def B(name, fn):
        return Builtin(name, fn)

    for n in ("logging", "warnings", "typing", "abc", "pickle", "traceback"):
        mod(n)
    lib["logging"].attrs.update({k: Opaque("logging." + k) for k in
                                 ("basicConfig", "getLogger", "DEBUG", "INFO", "WARN", "WARNING", "ERROR", "CRITICAL", "Logger")})
    lib["warnings"].attrs.update({k: Opaque("warnings." + k) for k in
                                  ("warn", "catch_warnings", "simplefilter", "filterwarnings")})
    class _Typing(dict):
        def __contains__(self, k):
            return True

        def __getitem__(self, k):
            return Opaque("typing." + k)
    lib["typing"].attrs = _Typing()
    enum_base = ClassVal("Enum", {}, True)
    mod("enum", Enum=enum_base, IntEnum=enum_base, unique=B("unique", lambda a, k: a[0]))
    mod("distutils", version=None)
    ver = mod("distutils.version", LooseVersion=B("LooseVersion", lambda a, k: VersionVal(a[0])))
    lib["distutils"].attrs["version"] = ver
    mod("functools", partial=B("partial", lambda a, k: Builtin("partial", lambda b, q: I.call(a[0], list(a[1:]) + list(b), {**k, **q}))),
        reduce=B("reduce", lambda a, k: _reduce(I, a)))

    # math ------------------------------------------------------------------
    def pyf(fn):
        """a math function: numbers only; an invalid value raises"""
        def g(a, k):
            x = a[0]
            if isinstance(x, A.Arr):
                raise PyRaise("TypeError", "only length-1 arrays can be converted")
            if x is None or not is_num(x):
                raise PyRaise("TypeError", "must be real number")
            return fn(*a)
        return g

    def domain(x, bad):
        y = R(x)
        if m.decide(And(Not(y.nan), bad(y))):
            raise PyRaise("ValueError", "math domain error")

    def msqrt(x):
        domain(x, lambda y: r_lt(y.val, 0))
        return FL.sqrt(m, x)

    def mlog(x, base=None):
        if base is not None:
            raise Unsupported("log with a base")
        domain(x, lambda y: r_le(y.val, 0))
        return FL.log(m, x)

    def mlog10(x):
        domain(x, lambda y: r_le(y.val, 0))
        return FL.log(m, x, "log10")

    def macos(x):
        domain(x, lambda y: Or(y.inf, r_lt(y.val, -1), r_lt(1, y.val)))
        return FL.acos(m, x)

    def masin(x):
        domain(x, lambda y: Or(y.inf, r_lt(y.val, -1), r_lt(1, y.val)))
        return FL.f_sub_(m, x) if False else f_sub(SR(r_mul(F(1, 2), PI)), FL.acos(m, x))

    def mtrig(name):
        def g(x):
            domain(x, lambda y: y.inf)
            return FL.trig(m, name, x)
        return g
    rad = lambda x: f_mul(x, SR(r_mul(F(1, 180), PI)))
    deg = lambda x: f_mul(x, f_div(F(180), SR(PI)))
    pi = SR(PI)

    def mpow(x, y):
        import ast
        return I.numop(ast.Pow(), R_(x), R_(y), False)

    def R_(x):
        return A.R_num(x) if not is_r(x) else x

    def mfloor(x):
        if is_i(x):
            return x
        y = R(x)
        if y.q is not None:
            return A.divmod_const(m, y.q[0], y.q[1])[0]
        if concrete(x):
            import math
            return math.floor(x)
        if m.decide(Or(y.nan, y.inf)):
            raise PyRaise("ValueError", "cannot convert")
        return isimp(z3.ToInt(zr(y.val)))

    def mceil(x):
        return n_neg(mfloor(FL.tag(n_neg(x), False) if not (isinstance(x, SR) and x.q) else
                            SR(r_neg(x.val), False, False, False, (n_neg(x.q[0]), x.q[1]))))
    mth = dict(pi=pi, inf=INF, nan=NAN, e=SR(m.ufapp("exp", F(1))),
               sqrt=pyf(msqrt), log=pyf(mlog), log10=pyf(mlog10), exp=pyf(lambda x: FL.exp(m, x)),
               acos=pyf(macos), asin=pyf(masin), sin=pyf(mtrig("sin")), cos=pyf(mtrig("cos")), tan=pyf(mtrig("tan")),
               radians=pyf(rad), degrees=pyf(deg), pow=pyf(mpow), fabs=pyf(lambda x: FL.fabs(R_(x))),
               isnan=pyf(FL.isnan), isinf=pyf(FL.isinf), isfinite=pyf(FL.isfinite),
               floor=pyf(mfloor), ceil=pyf(mceil), trunc=pyf(lambda x: FL.to_int_trunc(m, x)),
               lgamma=pyf(lambda x: FL._uf1(m, "lgamma", x, lambda v: False, INF, INF)),
               gamma=pyf(lambda x: FL._uf1(m, "tgamma", x, lambda v: False, INF, None)),
               fsum=lambda a, k: builtin_sum(I, a))
    mod("math", **{n: (B(n, f) if callable(f) else f) for n, f in mth.items()})

    # calendar, datetime ------------------------------------------------------
    def c_isleap(a, k):
        if not is_i(a[0]):
            raise Unsupported("isleap of a non-integer")
        return isleap(a[0], m)

    def c_leapdays(a, k):
        return n_sub(leaps_upto(n_sub(a[1], 1), m), leaps_upto(n_sub(a[0], 1), m))

    def c_monthrange(a, k):
        y, mo = a
        if not isinstance(mo, int):
            ml = i_ite(isleap(y), 29, 28)
            v = ml
            for j in range(12):
                if j != 1:
                    v = i_ite(n_eq(mo, j + 1), MLEN[j], v)
            return (Opaque("weekday"), v)
        return (Opaque("weekday"), i_ite(isleap(y), 29, 28) if mo == 2 else MLEN[mo - 1])
    mod("calendar", isleap=B("isleap", c_isleap), leapdays=B("leapdays", c_leapdays), monthrange=B("monthrange", c_monthrange))
    dt = B("datetime", lambda a, k: mk_datetime(I, a, k))
    td = B("timedelta", lambda a, k: DateVal(k.get("days", a[0] if a else 0), True) if set(k) <= {"days"} and len(a) <= 1 else _uns("timedelta"))
    mod("datetime", datetime=dt, date=B("date", lambda a, k: mk_datetime(I, a, k)), timedelta=td)

    # scipy -------------------------------------------------------------------
    def dist(fn, names):
        def g(a, k):
            vals = dict(zip(names, a))
            for q, v in k.items():
                if q not in names:
                    raise Unsupported(f"argument {q}")
                vals[q] = v
            return elem(I, lambda *xs: fn(m, *xs), "f", *[vals.get(n, {"loc": F(0), "scale": F(1)}.get(n)) for n in names])
        return g
    gm = ModuleVal("scipy.stats.gamma", {"cdf": B("cdf", dist(FL.gamma_cdf, ["x", "a", "loc", "scale"]))})
    p3 = ModuleVal("scipy.stats.pearson3", {"cdf": B("cdf", dist(FL.pearson3_cdf, ["x", "skew", "loc", "scale"]))})
    nm = ModuleVal("scipy.stats.norm", {"ppf": B("ppf", dist(FL.norm_ppf, ["q", "loc", "scale"])),
                                        "cdf": B("cdf", lambda a, k: elem(I, lambda x: FL.norm_cdf(m, x), "f", *a))})
    stats = mod("scipy.stats", gamma=gm, pearson3=p3, norm=nm)
    sver = mod("scipy.version", version=installed_version("scipy"))
    sp = mod("scipy.special", ndtri=B("ndtri", lambda a, k: elem(I, lambda x: FL.norm_ppf(m, x), "f", *a)),
             gammaln=B("gammaln", lambda a, k: elem(I, lambda x: FL._uf1(m, "lgamma", x, lambda v: False, INF, INF), "f", *a)))
    mod("scipy", stats=stats, version=sver, special=sp, __version__=installed_version("scipy"))
    numpy_lib(I, lib, B, rad, deg, pi)
    return lib


def _uns(what):
    raise Unsupported(what)


def _reduce(I, a):
    items = I.iterate(a[1])
    acc = a[2] if len(a) > 2 else items.pop(0)
    for x in items:
        acc = I.call(a[0], [acc, x])
    return acc


_VER = {}


def installed_version(pkg):
    """version of the package in the environment the repository runs in"""
    if pkg not in _VER:
        import glob
        v = None
        for d in glob.glob(f"/opt/venv/lib/*/site-packages/{pkg}-*.dist-info"):
            mt = re.search(rf"{pkg}-([0-9][^/]*)\.dist-info", d)
            if mt:
                v = mt.group(1)
        if v is None:
            import subprocess
            v = subprocess.run(["/opt/venv/bin/python", "-c", f"import {pkg};print({pkg}.__version__)"],
                               capture_output=True, text=True).stdout.strip()
        _VER[pkg] = v
    return _VER[pkg]


def numpy_lib(I, lib, B, rad, deg, pi):
    m = I.m
    np = ModuleVal("numpy")
    lib["numpy"] = np
    T = np.attrs

    def reg(name, *aliases):
        def d(fn):
            for n in (name,) + aliases:
                T[n] = Builtin(n, fn)
            return fn
        return d

    T["nan"] = T["NaN"] = T["NAN"] = NPNAN
    T["inf"] = INF
    T["pi"] = pi
    T["newaxis"] = None
    T["ndarray"] = ClassVal("ndarray", {}, False)
    T["float64"] = Builtin("float", lambda a, k: A.R_num(a[0]) if is_num(a[0]) and not is_r(a[0]) else a[0])
    T["float32"] = T["float_"] = T["float64"]
    T["int64"] = T["int32"] = Builtin("int", lambda a, k: FL.to_int_trunc(m, a[0]))
    T["bool_"] = Builtin("bool", lambda a, k: truth(a[0]))
    T["errstate"] = Opaque("errstate")
    T["seterr"] = Opaque("seterr")
    T["ma"] = ModuleVal("numpy.ma", {
        "is_masked": Builtin("is_masked", lambda a, k: False),
        "isMaskedArray": Builtin("isMaskedArray", lambda a, k: False),
        "isMA": Builtin("isMA", lambda a, k: False)})
    m.assumptions.add("arguments are plain ndarrays, not masked arrays")

    def shape_of(s):
        if isinstance(s, (tuple, PyList)):
            return tuple(s.items if isinstance(s, PyList) else s)
        if is_i(s):
            return (s,)
        raise Unsupported("shape")

    def checkshape(sh):
        for s in sh:
            if not is_i(s):
                raise PyRaise("TypeError", "shape must be integers")
            if not m.decide(n_le(0, s)):
                raise PyRaise("ValueError", "negative dimensions are not allowed")
        return sh

    def filled(name, v):
        def f(a, k):
            kw_only(k, "shape", "dtype", "order")
            sh = checkshape(shape_of(a[0] if a else k["shape"]))
            d = dtype_of(a[1] if len(a) > 1 else k.get("dtype"))
            return A.full(m, sh, d.kind, v if d.kind == "f" else ({"i": int(v), "b": bool(v)}[d.kind]))
        T[name] = Builtin(name, f)
    filled("zeros", F(0))
    filled("ones", F(1))

    @reg("empty")
    def f_empty(a, k):
        kw_only(k, "shape", "dtype", "order")
        sh = checkshape(shape_of(a[0] if a else k["shape"]))
        d = dtype_of(a[1] if len(a) > 1 else k.get("dtype"))
        tag = m.fresh_name("empty")
        sorts = [z3.IntSort()] * len(sh)
        uf = z3.Function(tag, *sorts, {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[d.kind])

        def fn(idx):
            t = uf(*[zi(i) for i in idx])
            return SR(t) if d.kind == "f" else t
        return A.new(m, sh, d.kind, fn)

    @reg("full")
    def f_full(a, k):
        kw_only(k, "shape", "fill_value", "dtype")
        a = list(a)
        sh = checkshape(shape_of(a.pop(0) if a else k["shape"]))
        v = a.pop(0) if a else k["fill_value"]
        d = dtype_of(a[0] if a else k.get("dtype"), None) if (a or k.get("dtype") is not None) else None
        if isinstance(v, A.Arr):
            raise Unsupported("full with an array")
        kind = d.kind if d else num_kind(v).replace("r", "f")
        return A.full(m, sh, kind, A.convert(m, v, kind))

    def like(name, v):
        def f(a, k):
            kw_only(k, "dtype")
            x = arr(I, a[0])
            d = dtype_of(k.get("dtype")) if k.get("dtype") is not None else None
            kind = d.kind if d else x.kind
            val = v if name != "full_like" else (a[1] if len(a) > 1 else k["fill_value"])
            if name == "empty_like":
                return f_empty([x.shape], {"dtype": {"f": FLOAT, "i": INT, "b": BOOL}[kind]})
            return A.full(m, x.shape, kind, A.convert(m, val, kind))
        T[name] = Builtin(name, f)
    like("zeros_like", 0)
    like("ones_like", 1)
    like("empty_like", None)

    @reg("full_like")
    def f_full_like(a, k):
        kw_only(k, "dtype", "fill_value")
        x = arr(I, a[0])
        v = a[1] if len(a) > 1 else k["fill_value"]
        d = dtype_of(k.get("dtype")) if k.get("dtype") is not None else None
        kind = d.kind if d else x.kind
        return A.full(m, x.shape, kind, A.convert(m, v, kind))

    @reg("array", "copy")
    def f_array(a, k):
        kw_only(k, "dtype", "copy")
        x = a[0]
        if is_num(x):
            return x
        r = arr(I, x)
        d = k.get("dtype", a[1] if len(a) > 1 else None)
        if d is not None and dtype_of(d).kind != r.kind:
            return attribute(I, r, "astype").fn([d], {})
        return A.copy(r) if r is x or isinstance(x, ListArr) else r

    @reg("asarray", "asanyarray", "ascontiguousarray")
    def f_asarray(a, k):
        kw_only(k, "dtype")
        x = a[0]
        if is_num(x):
            return x
        r = arr(I, x)
        d = k.get("dtype", a[1] if len(a) > 1 else None)
        if d is not None and dtype_of(d).kind != r.kind:
            return attribute(I, r, "astype").fn([d], {})
        return r

    @reg("arange")
    def f_arange(a, k):
        kw_only(k, "dtype")
        a = list(a)
        if not all(is_i(x) for x in a):
            raise Unsupported("arange of floats")
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if not (isinstance(step, int) and step > 0):
            raise Unsupported("arange step")
        n = n_sub(stop, start)
        n = A.divmod_const(m, n_add(n, step - 1), step)[0] if step != 1 else n
        if isinstance(n, int):
            n = max(n, 0)
        elif not m.decide(n_le(0, n)):
            n = 0
        d = dtype_of(k.get("dtype")) if k.get("dtype") is not None else INT
        return A.new(m, (n,), d.kind, lambda idx: A.convert(m, n_add(start, n_mul(idx[0], step)), d.kind))

    # element functions
    def u1(name, fn, kind="f", *aliases):
        def f(a, k):
            kw_only(k)
            if len(a) != 1:
                raise Unsupported(name)
            x = a[0]
            if isinstance(x, MaskSel):
                return x.map(fn, kind)
            return elem(I, fn, kind if kind != "same" else (x.kind if isinstance(x, A.Arr) else "f"), x)
        for n in (name,) + aliases:
            T[n] = Builtin(n, f)
    u1("isnan", FL.isnan, "b")
    u1("isinf", FL.isinf, "b")
    u1("isfinite", FL.isfinite, "b")
    u1("log", lambda x: FL.log(m, x))
    u1("log10", lambda x: FL.log(m, x, "log10"))
    u1("exp", lambda x: FL.exp(m, x))
    u1("sqrt", lambda x: FL.sqrt(m, x))
    u1("abs", FL.fabs, "same", "absolute", "fabs")
    u1("sign", FL.sign, "same")
    u1("square", lambda x: n_mul(x, x), "same")
    u1("negative", n_neg, "same")
    u1("sin", lambda x: FL.trig(m, "sin", x))
    u1("cos", lambda x: FL.trig(m, "cos", x))
    u1("tan", lambda x: FL.trig(m, "tan", x))
    u1("arccos", lambda x: FL.acos(m, x))
    u1("deg2rad", rad, "f", "radians")
    u1("rad2deg", deg, "f", "degrees")
    u1("logical_not", lambda x: Not(truth(x)), "b", "invert")
    u1("isneginf", lambda x: simp_b(And(FL.isinf(x), n_lt(x, 0))), "b")

    def u2(name, fn, kind, *aliases):
        def f(a, k):
            kw_only(k)
            if len(a) != 2:
                raise Unsupported(name)
            kk = kind
            if kk == "join":
                ks = [x.kind if isinstance(x, A.Arr) else num_kind(x).replace("r", "f") for x in
                      (arr(I, y) if isinstance(y, (PyList, tuple)) else y for y in a)]
                kk = "f" if "f" in ks else ("i" if "i" in ks else "b")
            return elem(I, fn, kk, *a)
        for n in (name,) + aliases:
            T[n] = Builtin(n, f)
    import ast
    u2("power", lambda x, y: FL.power(m, x, y), "f", "float_power")
    u2("maximum", FL.npmax, "join")
    u2("minimum", FL.npmin, "join")
    u2("add", lambda x, y: n_add(x, y), "join")
    u2("subtract", lambda x, y: n_sub(x, y), "join")
    u2("multiply", lambda x, y: n_mul(x, y), "join")
    u2("divide", lambda x, y: f_div(x, y), "f", "true_divide")
    u2("logical_and", lambda x, y: And(truth(x), truth(y)), "b")
    u2("logical_or", lambda x, y: Or(truth(x), truth(y)), "b")
    u2("less", lambda x, y: n_lt(x, y), "b")
    u2("less_equal", lambda x, y: n_le(x, y), "b")
    u2("greater", lambda x, y: n_lt(y, x), "b")
    u2("greater_equal", lambda x, y: n_le(y, x), "b")
    u2("equal", lambda x, y: n_eq(x, y), "b")
    u2("not_equal", lambda x, y: Not(n_eq(x, y)), "b")
    u2("fmax", lambda x, y: n_ite(FL.isnan(x), y, n_ite(FL.isnan(y), x, FL.npmax(x, y))), "f")
    u2("fmin", lambda x, y: n_ite(FL.isnan(x), y, n_ite(FL.isnan(y), x, FL.npmin(x, y))), "f")

    @reg("bitwise_and")
    def f_band(a, k):
        return I.binop(ast.BitAnd(), *a)

    @reg("where")
    def f_where(a, k):
        kw_only(k)
        if len(a) != 3:
            raise Unsupported("where with one argument")
        c, x, y = a
        x, y = [arr(I, v) if isinstance(v, (PyList, tuple)) else v for v in (x, y)]
        ks = [v.kind if isinstance(v, A.Arr) else num_kind(v).replace("r", "f") for v in (x, y)]
        kind = "f" if "f" in ks else ("i" if "i" in ks else "b")
        return elem(I, lambda p, q, r: n_ite(truth(p), q, r), kind, c, x, y)

    @reg("clip")
    def f_clip(a, k):
        kw_only(k, "a_min", "a_max", "out")
        a = list(a)
        lo = a[1] if len(a) > 1 else k.get("a_min")
        hi = a[2] if len(a) > 2 else k.get("a_max")
        if lo is None and hi is None:
            raise PyRaise("ValueError", "One of max or min must be given")
        x = a[0]
        if isinstance(x, (PyList, tuple)):
            x = arr(I, x)
        out = k.get("out")
        bounds = [b for b in (lo, hi) if b is not None]
        for b in bounds:
            if isinstance(b, A.Arr):
                raise Unsupported("clip with array bounds")

        def fn(v):
            if lo is not None:
                v = n_ite(n_lt(v, lo), lo, v)
            if hi is not None:
                v = n_ite(n_lt(hi, v), hi, v)
            return v
        kind = "f"
        if isinstance(x, A.Arr) and x.kind != "f" and not any(is_r(b) for b in bounds):
            kind = x.kind
        r = elem(I, (lambda v: A.R_num(fn(v)) if kind == "f" and not is_r(fn(v)) else fn(v)), kind, x)
        if out is not None:
            I.store(out, r)
            return out
        return r

    @reg("nan_to_num")
    def f_ntn(a, k):
        kw_only(k, "nan")
        v = k.get("nan", F(0))
        return elem(I, lambda x: n_ite(FL.isnan(x), v, x), "f", a[0])

    # reductions
    def red(name, fn, kind="f"):
        def f(a, k):
            kw_only(k, "axis", "keepdims", "initial", "dtype")
            if k.get("keepdims"):
                raise Unsupported("keepdims")
            x = a[0]
            axis = k.get("axis", a[1] if len(a) > 1 else None)
            if isinstance(x, MaskSel):
                if name == "sum":
                    return FL.tag(x.sum(), True)
                if name == "nansum":
                    return FL.tag(x.sum(True), True)
                if name == "mean":
                    return x.mean()
                if name == "nanmean":
                    y = MaskSel(I, x.base, None, x.rd, lambda q: simp_b(And(x.mask(q), Not(FL.isnan(x.rd(q))))), x.kind, x.n)
                    return y.mean()
                if name == "any":
                    return x.any()
                if name == "all":
                    return x.all()
                if name == "count_nonzero":
                    return m.count(x.n, lambda q: simp_b(And(x.mask(q), truth(x.rd(q)))))
                raise Unsupported(name)
            if is_num(x):
                x = arr(I, PyList(m, [x]))
            x = arr(I, x)
            kk = kind if kind != "sum" else ("f" if x.kind == "f" else "i")
            return reduce(I, x, axis, fn, kk)
        T[name] = Builtin(name, f)
    red("sum", lambda n, f: FL.fsum(m, n, f), "sum")
    red("nansum", lambda n, f: FL.fsum(m, n, f, True), "sum")
    red("mean", lambda n, f: FL.fmean(m, n, f))
    red("nanmean", lambda n, f: FL.fnanmean(m, n, f))
    red("any", lambda n, f: m.any(n, lambda k: simp_b(truth(f(k)))), "b")
    red("all", lambda n, f: Not(m.any(n, lambda k: simp_b(Not(truth(f(k)))))), "b")
    red("count_nonzero", lambda n, f: m.count(n, lambda k: simp_b(truth(f(k)))), "i")
    for nm, w, sk in (("min", "min", False), ("max", "max", False), ("amin", "min", False), ("amax", "max", False),
                      ("nanmin", "min", True), ("nanmax", "max", True)):
        red(nm, lambda n, f, w=w, sk=sk: FL.extremum(m, n, f, w, sk))

    @reg("average")
    def f_average(a, k):
        kw_only(k, "axis")
        return T["mean"].fn(a, k)

    @reg("sort")
    def f_sort(a, k):
        kw_only(k, "axis", "kind")
        x = a[0]
        if isinstance(x, MaskSel):
            if x.kind != "f":
                raise Unsupported("sort of integers")
            n, total = x.n, x.length()
            rd = lambda q: n_ite(x.mask(q), x.rd(q), NAN)
        else:
            x = arr(I, x)
            if x.ndim != 1 or x.kind != "f":
                raise Unsupported("sort")
            n = total = x.shape[0]
            r1 = x.reader()
            rd = lambda q: r1((q,))
        at, _ = order_statistics(m, n, rd)
        return A.new(m, (total,), "f", lambda idx: at(idx[0]))

    @reg("cumsum")
    def f_cumsum(a, k):
        kw_only(k)
        x = arr(I, a[0])
        if x.ndim != 1:
            raise Unsupported("cumsum of a 2-D array")
        rd = x.reader()
        return A.new(m, x.shape, "i" if x.kind != "f" else "f",
                     lambda idx: FL.fsum(m, n_add(idx[0], 1), lambda j: rd((j,))))

    @reg("diff")
    def f_diff(a, k):
        kw_only(k)
        x = arr(I, a[0])
        rd = x.reader()
        return A.new(m, (n_sub(x.shape[0], 1),), x.kind, lambda idx: n_sub(rd((n_add(idx[0], 1),)), rd((idx[0],))))

    @reg("dot")
    def f_dot(a, k):
        x, y = arr(I, a[0]), arr(I, a[1])
        if x.ndim != 1 or y.ndim != 1:
            raise Unsupported("dot")
        if not A.dims_equal(m, x.shape[0], y.shape[0]):
            raise PyRaise("ValueError", "shapes not aligned")
        p, q = x.reader(), y.reader()
        return FL.tag(FL.fsum(m, x.shape[0], lambda j: n_mul(p((j,)), q((j,)))), True)

    @reg("convolve")
    def f_convolve(a, k):
        kw_only(k, "mode")
        x, v = arr(I, a[0]), arr(I, a[1])
        mode = k.get("mode", a[2] if len(a) > 2 else "full")
        if x.ndim != 1 or v.ndim != 1:
            raise PyRaise("ValueError", "object too deep for desired array")
        n, w = x.shape[0], v.shape[0]
        if m.decide(n_eq(n, 0)) or m.decide(n_eq(w, 0)):
            raise PyRaise("ValueError", "cannot be empty")
        if m.decide(n_lt(n, w)):
            x, v, n, w = v, x, w, n
        rx, rv_ = x.reader(), v.reader()

        def at(i):          # i: position in the full convolution, w-1 <= i < n inside
            return lambda j: n_mul(rx((n_sub(i, j),)), rv_((j,)))
        if mode == "valid":
            ln = n_add(n_sub(n, w), 1)

            # order of the products is immaterial for mathematical reals: ascending in x
            def fn(idx):
                i0 = idx[0]
                return FL.fsum(m, w, lambda j: n_mul(rx((n_add(i0, j),)), rv_((n_sub(n_sub(w, 1), j),))))
            return A.new(m, (ln,), "f", fn)
        if mode in ("full", "same"):
            off = 0 if mode == "full" else A.divmod_const(m, n_sub(w, 1), 2)[0]
            ln = n_sub(n_add(n, w), 1) if mode == "full" else n

            def fn(idx):
                i = n_add(idx[0], off)
                return FL.fsum(m, w, lambda j: n_ite(simp_b(And(n_le(0, n_sub(i, j)), n_lt(n_sub(i, j), n))), at(i)(j), F(0)))
            return A.new(m, (ln,), "f", fn)
        raise Unsupported("convolve mode")

    # shape functions
    def concat(parts):
        parts = [arr(I, p) for p in parts]
        if any(p.ndim != 1 for p in parts):
            raise Unsupported("concatenation of 2-D arrays")
        kind = "f" if any(p.kind == "f" for p in parts) else parts[0].kind
        rds = [p.reader() for p in parts]
        offs = [0]
        for p in parts:
            offs.append(n_add(offs[-1], p.shape[0]))

        def fn(idx):
            i = idx[0]
            v = None
            for r, o in reversed(list(zip(rds, offs))):
                x = A.convert(m, r((n_sub(i, o),)), kind)
                if v is None:
                    v = x
                    last = o
                else:
                    v = n_ite(n_lt(i, last), x, v)
                    last = o
            return v
        return A.new(m, (offs[-1],), kind, fn)

    @reg("hstack", "concatenate")
    def f_hstack(a, k):
        kw_only(k, "axis")
        if k.get("axis", a[1] if len(a) > 1 else 0) != 0:
            raise Unsupported("axis")
        x = a[0]
        items = x.items if isinstance(x, PyList) else list(x) if isinstance(x, tuple) else None
        if items is None:
            raise Unsupported("hstack")
        return concat(items)

    @reg("append")
    def f_append(a, k):
        kw_only(k)
        x = arr(I, a[0])
        y = a[1] if not is_num(a[1]) else PyList(m, [a[1]])
        return concat([A.reshape(x, (x.size(),)), y])

    @reg("vstack", "stack")
    def f_vstack(a, k):
        kw_only(k)
        x = a[0]
        items = x.items if isinstance(x, PyList) else list(x)
        return stack(I, [arr(I, i) for i in items])

    @reg("pad")
    def f_pad(a, k):
        kw_only(k, "pad_width", "mode", "constant_values")
        x = arr(I, a[0])
        w = a[1] if len(a) > 1 else k["pad_width"]
        mode = a[2] if len(a) > 2 else k.get("mode", "constant")
        cv = k.get("constant_values", F(0))
        if mode != "constant" or x.ndim != 1:
            raise Unsupported("pad")
        if isinstance(w, (PyList,)):
            w = tuple(w.items)
        if isinstance(w, tuple) and len(w) == 1:
            w = w[0]
        if not isinstance(w, tuple):
            w = (w, w)
        if isinstance(cv, tuple):
            c0, c1 = cv
        else:
            c0 = c1 = cv
        for q in w:
            if not m.decide(n_le(0, q)):
                raise PyRaise("ValueError", "index can't contain negative values")
        n = x.shape[0]
        rd = x.reader()
        b, e = w
        if x.kind != "f" and (is_r(c1) or is_r(c0)):
            raise Unsupported("NaN padding of an integer array")

        def fn(idx):
            i = n_sub(idx[0], b)
            v = n_ite(n_lt(i, n), rd((i,)), A.convert(m, c1, x.kind))
            if not (isinstance(b, int) and b == 0):
                v = n_ite(n_lt(i, 0), A.convert(m, c0, x.kind), v)
            return v
        return A.new(m, (n_add(n_add(n, b), e),), x.kind, fn)

    @reg("reshape")
    def f_reshape(a, k):
        kw_only(k, "newshape")
        sh = a[1] if len(a) > 1 else k["newshape"]
        return A.reshape(arr(I, a[0]), shape_of(sh))

    @reg("ravel")
    def f_ravel(a, k):
        x = arr(I, a[0])
        return A.reshape(x, (x.size(),))

    @reg("transpose")
    def f_tr(a, k):
        return transpose(I, arr(I, a[0]))

    @reg("squeeze")
    def f_sq(a, k):
        x = arr(I, a[0])
        if all(not (isinstance(s, int) and s == 1) for s in x.shape):
            return x
        return A.reshape(x, [s for s in x.shape if not (isinstance(s, int) and s == 1)])

    @reg("repeat")
    def f_repeat(a, k):
        x = arr(I, a[0])
        r = a[1]
        if x.ndim != 1 or not isinstance(r, int):
            raise Unsupported("repeat")
        rd = x.reader()
        return A.new(m, (n_mul(x.shape[0], r),), x.kind, lambda idx: rd((A.divmod_const(m, idx[0], r)[0],)))

    @reg("tile")
    def f_tile(a, k):
        x = arr(I, a[0])
        if x.ndim != 1 or not isinstance(x.shape[0], int):
            raise Unsupported("tile")
        rd = x.reader()
        r = a[1]
        if isinstance(r, tuple):
            if len(r) == 2 and r[1] == 1:
                return A.new(m, (r[0], x.shape[0]), x.kind, lambda idx: rd((idx[1],)))
            raise Unsupported("tile")
        return A.new(m, (n_mul(r, x.shape[0]),), x.kind, lambda idx: rd((A.divmod_const(m, idx[0], x.shape[0])[1],)))

    @reg("broadcast_to")
    def f_bt(a, k):
        x = arr(I, a[0])
        sh, (rd,) = I.broadcast_to(x, shape_of(a[1]))
        return A.new(m, sh, x.kind, rd)

    @reg("isscalar")
    def f_isscalar(a, k):
        return is_num(a[0])

    @reg("shape")
    def f_shape(a, k):
        return arr(I, a[0]).shape

    @reg("size")
    def f_size(a, k):
        return arr(I, a[0]).size()

    @reg("finfo")
    def f_finfo(a, k):
        return ModuleVal("finfo", {"resolution": F(1, 10 ** 15), "eps": F(1, 2 ** 52)})


# ---------------------------------------------------------------- builtins
def builtin_sum(I, a):
    x = a[0]
    start = a[1] if len(a) > 1 else 0
    if isinstance(x, A.Arr):
        if x.ndim == 1:
            n, f = flat_reader(x)
            s = FL.tag(FL.fsum(I.m, n, f), True)
        else:
            s = reduce(I, x, 0, lambda n, f: FL.fsum(I.m, n, f), x.kind)
        return s if start == 0 and isinstance(start, int) else I.binop(__import__("ast").Add(), start, s)
    import ast
    if isinstance(x, MaskSel):
        return FL.tag(x.sum(), True)
    acc = start
    for v in I.iterate(x):
        acc = I.binop(ast.Add(), acc, v)
    return acc


def builtins(I):
    m = I.m
    T = dict(EXC)

    def reg(name):
        def d(fn):
            T[name] = Builtin(name, fn)
            return fn
        return d

    @reg("len")
    def f_len(a, k):
        x = a[0]
        if isinstance(x, A.Arr):
            return x.shape[0]
        if isinstance(x, MaskSel):
            return x.length()
        if isinstance(x, (tuple, str)):
            return len(x)
        if isinstance(x, PyList):
            return len(x.items)
        if isinstance(x, PyDict):
            return len(x.d)
        if isinstance(x, ClassVal) and x.is_enum:
            return len(x.members)
        if isinstance(x, RangeVal) and x.step == 1:
            n = n_sub(x.stop, x.start)
            return n if m.decide(n_le(0, n)) else 0
        if is_num(x) or x is None:
            raise PyRaise("TypeError", "object has no len()")
        raise Unsupported("len")

    @reg("range")
    def f_range(a, k):
        for x in a:
            if not (is_i(x) or is_b(x)):
                raise PyRaise("TypeError", "'float' object cannot be interpreted as an integer")
        if len(a) == 1:
            return RangeVal(0, a[0], 1)
        return RangeVal(a[0], a[1], a[2] if len(a) > 2 else 1)

    @reg("enumerate")
    def f_enum(a, k):
        start = a[1] if len(a) > 1 else k.get("start", 0)
        s = I.loops.sequence(a[0])
        if isinstance(s, list):
            return PyList(m, [(n_add(start, i), x) for i, x in enumerate(s)])
        return SeqVal(s.n, lambda j: (n_add(start, j), s.elem(j)))

    @reg("zip")
    def f_zip(a, k):
        ss = [I.loops.sequence(x) for x in a]
        if all(isinstance(s, list) for s in ss):
            return PyList(m, list(zip(*ss)))
        ss = [s if not isinstance(s, list) else SeqVal(len(s), lambda j, s=s: I.getitem(tuple(s), j)) for s in ss]
        n = ss[0].n
        for s in ss[1:]:
            n = n if A.dims_equal(m, n, s.n) else (n if m.decide(n_le(n, s.n)) else s.n)
        return SeqVal(n, lambda j: tuple(s.elem(j) for s in ss))

    @reg("reversed")
    def f_rev(a, k):
        s = I.loops.sequence(a[0])
        if isinstance(s, list):
            return PyList(m, s[::-1])
        return SeqVal(s.n, lambda j: s.elem(n_sub(n_sub(s.n, 1), j)))

    @reg("abs")
    def f_abs(a, k):
        if isinstance(a[0], A.Arr):
            return I.lib["numpy"].attrs["abs"].fn(a, k)
        return FL.tag(FL.fabs(a[0]), FL.isnp(a[0]))

    def mm(name, less):
        def f(a, k):
            if k and set(k) != {"key"}:
                raise Unsupported(name)
            if k:
                raise Unsupported(name)
            items = list(a) if len(a) > 1 else I.iterate(a[0])
            v = items[0]
            for x in items[1:]:
                if not (is_num(x) and is_num(v)):
                    raise Unsupported(name)
                # Python: replaces only when strictly smaller / larger
                v = FL.tag(n_ite(n_lt(x, v) if less else n_lt(v, x), x, v), FL.isnp(x, v))
            return v
        T[name] = Builtin(name, f)
    mm("min", True)
    mm("max", False)

    @reg("sum")
    def f_sum(a, k):
        return builtin_sum(I, a)

    @reg("int")
    def f_int(a, k):
        if not a:
            return 0
        x = a[0]
        if isinstance(x, str):
            return int(x)
        if x is None:
            raise PyRaise("TypeError", "int() argument")
        if isinstance(x, A.Arr):
            x = x.get((0,) * x.ndim)
        return FL.to_int_trunc(m, x)

    @reg("float")
    def f_float(a, k):
        if not a:
            return F(0)
        x = a[0]
        if isinstance(x, str):
            if x.lower() in ("nan",):
                return NAN
            return {"inf": INF, "-inf": NINF}.get(x.lower()) or F(x)
        if x is None:
            raise PyRaise("TypeError", "float() argument")
        if isinstance(x, A.Arr):
            x = x.get((0,) * x.ndim)
        if isinstance(x, SR):
            return SR(x.val, x.nan, x.inf, False, x.q)
        return A.R_num(x) if not is_r(x) else x

    @reg("bool")
    def f_bool(a, k):
        if is_num(a[0]):
            return simp_b(truth(a[0]))
        return I.truth(a[0])

    @reg("str")
    def f_str(a, k):
        if a and isinstance(a[0], (str, int)) and not isinstance(a[0], bool):
            return str(a[0])
        return Opaque("str")

    @reg("round")
    def f_round(a, k):
        if is_i(a[0]):
            return a[0]
        raise Unsupported("round")

    @reg("isinstance")
    def f_isinstance(a, k):
        o, t = a
        ts = t if isinstance(t, tuple) else (t,)
        for c in ts:
            n = c.name if isinstance(c, (Builtin, ClassVal, ExcClass)) else None
            if isinstance(c, ClassVal) and isinstance(o, EnumMember) and o.cls is c:
                return True
            if n == "ndarray" and isinstance(o, A.Arr) and not isinstance(o, ListArr):
                return True
            if n == "list" and isinstance(o, (PyList, ListArr)):
                return True
            if n == "tuple" and isinstance(o, tuple):
                return True
            if n == "dict" and isinstance(o, PyDict):
                return True
            if n == "str" and isinstance(o, str):
                return True
            if n == "int" and (is_i(o) or is_b(o)):
                return True
            if n == "float" and is_r(o):
                return True
            if n == "bool" and is_b(o):
                return True
            if n is None:
                raise Unsupported("isinstance")
        return False

    @reg("list")
    def f_list(a, k):
        if not a:
            return PyList(m, [])
        if isinstance(a[0], A.Arr) and not isinstance(a[0].shape[0], int):
            return attribute(I, a[0], "tolist").fn([], {})
        return PyList(m, I.iterate(a[0]))

    @reg("tuple")
    def f_tuple(a, k):
        return tuple(I.iterate(a[0])) if a else ()

    @reg("dict")
    def f_dict(a, k):
        d = dict(a[0].d) if a and isinstance(a[0], PyDict) else {}
        if a and not isinstance(a[0], PyDict):
            d = {I.key(x[0]): x[1] for x in I.iterate(a[0])}
        d.update(k)
        return PyDict(m, d)

    @reg("set")
    def f_set(a, k):
        return tuple(I.iterate(a[0])) if a else ()

    @reg("any")
    def f_any(a, k):
        if isinstance(a[0], A.Arr):
            return I.lib["numpy"].attrs["any"].fn([a[0]], {})
        for x in I.iterate(a[0]):
            if I.truth(x):
                return True
        return False

    @reg("all")
    def f_all(a, k):
        if isinstance(a[0], A.Arr):
            return I.lib["numpy"].attrs["all"].fn([a[0]], {})
        for x in I.iterate(a[0]):
            if not I.truth(x):
                return False
        return True

    @reg("pow")
    def f_pow(a, k):
        import ast
        return I.binop(ast.Pow(), a[0], a[1])

    @reg("divmod")
    def f_divmod(a, k):
        import ast
        return (I.binop(ast.FloorDiv(), a[0], a[1]), I.binop(ast.Mod(), a[0], a[1]))

    @reg("map")
    def f_map(a, k):
        return PyList(m, [I.call(a[0], list(x)) for x in zip(*[I.iterate(y) for y in a[1:]])])

    @reg("hasattr")
    def f_hasattr(a, k):
        try:
            I.getattr(a[0], a[1])
            return True
        except PyRaise:
            return False

    @reg("callable")
    def f_callable(a, k):
        return isinstance(a[0], (Func, Builtin, Bound))

    @reg("sorted")
    def f_sorted(a, k):
        it = I.iterate(a[0])
        if k or not all(isinstance(x, (int, F, str)) for x in it):
            raise Unsupported("sorted")
        return PyList(m, sorted(it))
    T["print"] = Opaque("print")
    T["repr"] = Opaque("repr")
    T["object"] = ClassVal("object", {}, False)
    T["type"] = Builtin("type", lambda a, k: Opaque("type"))
    T["staticmethod"] = Builtin("staticmethod", lambda a, k: a[0])
    T["True"], T["False"], T["None"] = True, False, None
    T["NotImplemented"] = Opaque("NotImplemented")
    T["id"] = Opaque("id")
    return T
