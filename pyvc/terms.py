"""Scalars of the symbolic machine.

A program value that is a number is one of
    bool | z3 Bool           Python / numpy bool
    int  | z3 Int            Python / numpy integer (mathematical integer)
    Fraction | SR            float: an exact real, or NaN, or +-infinity

SR(val, nan, inf): nan and inf are flags (bool or z3 Bool).  Where nan holds the
number is NaN and val and inf mean nothing; else where inf holds it is an
infinity with the sign of val; else it is the real number val.
Rounding and the sign of zero are not represented (stated assumptions).
"""
from fractions import Fraction as F
import z3


class Unsupported(Exception):
    """The program left the subset the engine understands: undecided, never a violation."""


def is_b(x):
    return isinstance(x, bool) or isinstance(x, z3.BoolRef)


def is_i(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (
        isinstance(x, z3.ArithRef) and x.is_int())


class SR:
    """np: comes from a numpy array (division by zero gives inf or NaN, no exception)
    q: (a, b) when the value is the quotient of the integers a and b > 0"""
    __slots__ = ("val", "nan", "inf", "np", "q")

    def __init__(self, val, nan=False, inf=False, np=False, q=None):
        self.val = val
        self.nan = nan
        self.inf = inf
        self.np = np
        self.q = q

    def __repr__(self):
        return f"SR({self.val},{self.nan},{self.inf})"


def is_r(x):
    return isinstance(x, (F, SR))


def is_num(x):
    return is_b(x) or is_i(x) or is_r(x)


NAN = SR(F(0), True, False)
INF = SR(F(1), False, True)
NINF = SR(F(-1), False, True)


# ---------------------------------------------------------------- booleans
def zb(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        elif z3.is_true(x):
            pass
        elif z3.is_false(x):
            return False
        else:
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        elif z3.is_false(x):
            pass
        elif z3.is_true(x):
            return True
        else:
            out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    if a.eq(b):
        return True
    return a == b


# ---------------------------------------------------------------- raw arithmetic
def zi(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def rv(x):
    """raw real: Fraction or z3 Real, from int/Fraction/z3"""
    if isinstance(x, (int, F)):
        return F(x)
    if isinstance(x, z3.ArithRef) and x.is_int():
        if z3.is_int_value(x):
            return F(x.as_long())
        return z3.ToReal(x)
    return x


def zr(x):
    """z3 Real from raw real"""
    if isinstance(x, (int, F)):
        f = F(x)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    if isinstance(x, z3.ArithRef) and x.is_int():
        return z3.ToReal(x)
    return x


def _conc(x):
    return isinstance(x, (int, F))


def r_add(a, b):
    if _conc(a) and _conc(b):
        return F(a) + F(b)
    if _conc(a) and a == 0:
        return b
    if _conc(b) and b == 0:
        return a
    return zr(a) + zr(b)


def r_sub(a, b):
    if _conc(a) and _conc(b):
        return F(a) - F(b)
    if _conc(b) and b == 0:
        return a
    return zr(a) - zr(b)


def r_mul(a, b):
    if _conc(a) and _conc(b):
        return F(a) * F(b)
    for x, y in ((a, b), (b, a)):
        if _conc(x):
            if x == 1:
                return y
            if x == 0:
                return F(0)
    return zr(a) * zr(b)


def r_div(a, b):
    """b known (or guarded) non-zero"""
    if _conc(a) and _conc(b) and b != 0:
        return F(a) / F(b)
    if _conc(b) and b == 1:
        return a
    if _conc(b) and b != 0:
        return zr(a) * zr(1 / F(b))
    return zr(a) / zr(b)


def r_neg(a):
    return -F(a) if _conc(a) else -a


def _cmp(op, a, b):
    if _conc(a) and _conc(b):
        a, b = F(a), F(b)
        return {"<": a < b, "<=": a <= b, "==": a == b}[op]
    if not _conc(a) and not _conc(b) and a.eq(b):
        return op != "<"
    a, b = zr(a), zr(b)
    return {"<": lambda: a < b, "<=": lambda: a <= b, "==": lambda: a == b}[op]()


def r_lt(a, b):
    return _cmp("<", a, b)


def r_le(a, b):
    return _cmp("<=", a, b)


def r_eq(a, b):
    return _cmp("==", a, b)


def r_ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if _conc(a) and _conc(b) and a == b:
        return a
    a, b = zr(a), zr(b)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def b_ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else Not(c)
    if isinstance(a, bool):
        return Or(c, b) if a else And(Not(c), b)
    if isinstance(b, bool):
        return Or(Not(c), a) if b else And(c, a)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def i_ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    a, b = zi(a), zi(b)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


# ---------------------------------------------------------------- floats
def R(x):
    """any number -> SR"""
    if isinstance(x, SR):
        return x
    if isinstance(x, bool):
        return SR(F(int(x)))
    if isinstance(x, (int, F)):
        return SR(F(x))
    if isinstance(x, z3.BoolRef):
        return SR(z3.If(x, z3.RealVal(1), z3.RealVal(0)))
    if isinstance(x, z3.ArithRef):
        return SR(rv(x))
    raise Unsupported(f"not a number: {type(x).__name__}")


def mk(val, nan=False, inf=False):
    if not isinstance(nan, bool):
        if z3.is_true(nan):
            nan = True
        elif z3.is_false(nan):
            nan = False
    if not isinstance(inf, bool):
        if z3.is_true(inf):
            inf = True
        elif z3.is_false(inf):
            inf = False
    if nan is True:
        return NAN
    if _conc(val) and nan is False and inf is False:
        return F(val)
    return SR(val, nan, inf)


def f_add(a, b):
    a, b = R(a), R(b)
    both = And(a.inf, b.inf)
    nan = Or(a.nan, b.nan, And(both, Not(Iff(r_lt(a.val, 0), r_lt(b.val, 0)))) if both is not False else False)
    inf = Or(a.inf, b.inf)
    val = r_add(a.val, b.val)
    if inf is not False:
        val = r_ite(a.inf, a.val, r_ite(b.inf, b.val, val))
    return mk(val, nan, inf)


def f_neg(a):
    a = R(a)
    return mk(r_neg(a.val), a.nan, a.inf)


def f_sub(a, b):
    a, b = R(a), R(b)
    if a.inf is False and b.inf is False:
        return mk(r_sub(a.val, b.val), Or(a.nan, b.nan), False)
    return f_add(a, f_neg(b))


def f_mul(a, b):
    a, b = R(a), R(b)
    nan = Or(a.nan, b.nan)
    if a.inf is not False:
        nan = Or(nan, And(a.inf, Not(b.inf), r_eq(b.val, 0)))
    if b.inf is not False:
        nan = Or(nan, And(b.inf, Not(a.inf), r_eq(a.val, 0)))
    return mk(r_mul(a.val, b.val), nan, Or(a.inf, b.inf))


def f_div(a, b):
    a, b = R(a), R(b)
    bz = And(Not(b.inf), r_eq(b.val, 0))
    nan = Or(a.nan, b.nan, And(a.inf, b.inf), And(bz, Not(a.inf), r_eq(a.val, 0)))
    inf = Or(And(a.inf, Not(b.inf)), And(bz, Or(a.inf, Not(r_eq(a.val, 0)))))
    if bz is True:
        val = a.val
    else:
        q = r_div(a.val, b.val)
        val = r_ite(bz, a.val, q)
        if b.inf is not False:
            val = r_ite(b.inf, F(0), val)
        if a.inf is not False:
            # sign of infinity / finite
            sgn = r_ite(Iff(r_lt(a.val, 0), r_lt(b.val, 0)), F(1), F(-1))
            val = r_ite(And(a.inf, Not(bz)), sgn, val)
    return mk(val, nan, inf)


def f_lt(a, b):
    a, b = R(a), R(b)
    ok = And(Not(a.nan), Not(b.nan))
    base = r_lt(a.val, b.val)
    if a.inf is False and b.inf is False:
        return And(ok, base)
    c = b_ite(a.inf,
              And(r_lt(a.val, 0), Not(And(b.inf, r_lt(b.val, 0)))),
              b_ite(b.inf, Not(r_lt(b.val, 0)), base))
    return And(ok, c)


def f_eq(a, b):
    a, b = R(a), R(b)
    ok = And(Not(a.nan), Not(b.nan))
    base = r_eq(a.val, b.val)
    if a.inf is False and b.inf is False:
        return And(ok, base)
    c = b_ite(Or(a.inf, b.inf),
              And(a.inf, b.inf, Iff(r_lt(a.val, 0), r_lt(b.val, 0))), base)
    return And(ok, c)


def f_le(a, b):
    a, b = R(a), R(b)
    if a.inf is False and b.inf is False:
        return And(Not(a.nan), Not(b.nan), r_le(a.val, b.val))
    return Or(f_lt(a, b), f_eq(a, b))


def f_same(a, b):
    """a and b are the same float (NaN is the same as NaN)"""
    a, b = R(a), R(b)
    return Or(And(a.nan, b.nan), f_eq(a, b))


# ---------------------------------------------------------------- generic numbers
def num_kind(*xs):
    if any(is_r(x) for x in xs):
        return "r"
    if any(is_i(x) for x in xs):
        return "i"
    return "b"


def n_add(a, b):
    if num_kind(a, b) == "r":
        return f_add(a, b)
    a, b = _i(a), _i(b)
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return isimp(zi(a) + zi(b))


def _i(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, z3.BoolRef):
        return zi(x)
    return x


def isimp(t):
    t = z3.simplify(t, som=False)
    if z3.is_int_value(t):
        return t.as_long()
    return t


def n_sub(a, b):
    if num_kind(a, b) == "r":
        return f_sub(a, b)
    a, b = _i(a), _i(b)
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return isimp(zi(a) - zi(b))


def n_mul(a, b):
    if num_kind(a, b) == "r":
        return f_mul(a, b)
    a, b = _i(a), _i(b)
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    return isimp(zi(a) * zi(b))


def n_neg(a):
    if is_r(a):
        return f_neg(a)
    return n_sub(0, a)


def n_lt(a, b):
    if num_kind(a, b) == "r":
        return f_lt(a, b)
    a, b = _i(a), _i(b)
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return bsimp(zi(a) < zi(b))


def bsimp(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


def n_le(a, b):
    if num_kind(a, b) == "r":
        return f_le(a, b)
    a, b = _i(a), _i(b)
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return bsimp(zi(a) <= zi(b))


def n_eq(a, b):
    if num_kind(a, b) == "r":
        return f_eq(a, b)
    if is_b(a) and is_b(b):
        return Iff(a, b)
    a, b = _i(a), _i(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return bsimp(zi(a) == zi(b))


def n_ite(c, a, b):
    """ite over numbers, joining the kinds"""
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    k = num_kind(a, b)
    if k == "b":
        return b_ite(c, a, b)
    if k == "i":
        return i_ite(c, _i(a), _i(b))
    x, y = R(a), R(b)
    if x.nan is False and excludes(c, y.nan):
        nan = y.nan
    elif y.nan is False and excludes(Not(c), x.nan):
        nan = x.nan
    else:
        nan = b_ite(c, x.nan, y.nan)
    return mk(r_ite(c, x.val, y.val), nan, b_ite(c, x.inf, y.inf))


def excludes(c, b):
    """c is a conjunction with the conjunct not b"""
    if isinstance(b, bool) or isinstance(c, bool):
        return False
    nb = Not(b)
    if c.eq(nb):
        return True
    if z3.is_and(c):
        return any(excludes(x, b) for x in c.children())
    if z3.is_not(c) and z3.is_or(c.arg(0)):
        return any(x.eq(b) for x in c.arg(0).children())
    return False


def n_same(a, b):
    if num_kind(a, b) == "r":
        return f_same(a, b)
    return n_eq(a, b)


def truth(x):
    """Python truth of a number"""
    if is_b(x):
        return x
    if is_i(x):
        return Not(n_eq(x, 0))
    x = R(x)
    return Or(x.nan, x.inf, Not(r_eq(x.val, 0)))


def concrete(x):
    return isinstance(x, (bool, int, F))


# ---------------------------------------------------------------- cached structure of z3 terms (kept alive)
INFO = {}


class Info:
    __slots__ = ("t", "kids", "ids", "name", "uf", "leaves", "intsort")


def info(t):
    i = t.get_id()
    r = INFO.get(i)
    if r is None:
        r = Info()
        r.t = t
        r.leaves = None
        if z3.is_app(t):
            r.kids = t.children()
            d = t.decl()
            r.uf = d.kind() == z3.Z3_OP_UNINTERPRETED
            r.name = d.name() if r.uf else None
        else:
            r.kids = t.children()
            r.uf = False
            r.name = None
        r.intsort = t.sort_kind() == z3.Z3_INT_SORT if hasattr(t, "sort_kind") else t.sort().kind() == z3.Z3_INT_SORT
        r.ids = [k.get_id() for k in r.kids]
        INFO[i] = r
    return r


def kids(t):
    return info(t).kids


REALS = {}


def has_real(t):
    """does a term of sort Real occur in t"""
    i = t.get_id()
    r = REALS.get(i)
    if r is None:
        stack = [t]
        while stack:
            x = stack[-1]
            if x.get_id() in REALS:
                stack.pop()
                continue
            if z3.is_real(x):
                REALS[x.get_id()] = True
                stack.pop()
                continue
            ks = info(x).kids
            todo = [k for k in ks if k.get_id() not in REALS]
            if todo:
                stack.extend(todo)
                continue
            REALS[x.get_id()] = any(REALS[k.get_id()] for k in ks)
            stack.pop()
        r = REALS[i]
    return r


def leaves(t):
    """ids of the uninterpreted constants in a term"""
    r = info(t)
    if r.leaves is not None:
        return r.leaves
    stack = [r]
    while stack:
        x = stack[-1]
        if x.leaves is not None:
            stack.pop()
            continue
        todo = [y for y in map(info, x.kids) if y.leaves is None]
        if todo:
            stack.extend(todo)
            continue
        if not x.kids:
            x.leaves = frozenset((x.t.get_id(),)) if x.uf else frozenset()
        elif len(x.kids) == 1:
            x.leaves = info(x.kids[0]).leaves
        else:
            x.leaves = frozenset().union(*[info(k).leaves for k in x.kids])
        stack.pop()
    return r.leaves
