"""Symbolic numpy arrays: buffers with persistent contents, and views of them."""
import z3
from .terms import *
from .machine import ikey, memo_pc, PyRaise


# ---------------------------------------------------------------- integer terms
def lin(t):
    """integer term -> ({id: (atom, coef)}, constant)"""
    if isinstance(t, int):
        return {}, t
    key = t.get_id()
    if key in LIN:
        r = LIN[key]
        return dict(r[1]), r[2]
    d, c = lin0(t)
    LIN[key] = (t, d, c)
    return dict(d), c


LIN = {}


def lin0(t):
    d = {}
    c = 0
    stack = [(t, 1)]
    while stack:
        x, k = stack.pop()
        if z3.is_int_value(x):
            c += k * x.as_long()
        elif z3.is_add(x):
            stack.extend((y, k) for y in x.children())
        elif z3.is_sub(x):
            ch = x.children()
            stack.append((ch[0], k))
            stack.extend((y, -k) for y in ch[1:])
        elif z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)):
            stack.append((x.arg(1), k * x.arg(0).as_long()))
        elif z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(1)):
            stack.append((x.arg(0), k * x.arg(1).as_long()))
        elif x.decl().kind() == z3.Z3_OP_UMINUS:
            stack.append((x.arg(0), -k))
        else:
            i = x.get_id()
            if i in d:
                d[i] = (x, d[i][1] + k)
            else:
                d[i] = (x, k)
    return {i: v for i, v in d.items() if v[1] != 0}, c


def unlin(d, c):
    if not d:
        return c
    t = None
    for x, k in d.values():
        y = x if k == 1 else k * x
        t = y if t is None else t + y
    if c != 0:
        t = t + c
    return isimp(t)


def divmod_const(m, t, p):
    """(t div p, t mod p) for a positive number p, exact, simplified with the ranges of ranged constants"""
    if isinstance(t, int):
        return t // p, t % p
    if p == 1:
        return t, 0
    d, c = lin(t)
    # combine  p*(k div p) + (k mod p)  of the same k
    for i, (x, k) in list(d.items()):
        if z3.is_app_of(x, z3.Z3_OP_MOD):
            for j, (y, l) in list(d.items()):
                if (z3.is_app_of(y, z3.Z3_OP_IDIV) and y.arg(0).eq(x.arg(0)) and y.arg(1).eq(x.arg(1))
                        and z3.is_int_value(y.arg(1)) and l == k * y.arg(1).as_long()):
                    dd = {a: b for a, b in d.items() if a not in (i, j)}
                    d2, c2 = lin(x.arg(0))
                    for a, (z, q) in d2.items():
                        dd[a] = (z, dd[a][1] + k * q) if a in dd else (z, k * q)
                    return divmod_const(m, unlin({a: b for a, b in dd.items() if b[1] != 0}, c + k * c2), p)
    hi = {}
    lo = {}
    for i, (x, k) in d.items():
        if k % p == 0:
            hi[i] = (x, k // p)
        else:
            lo[i] = (x, k)
    if all(i in m.ranges or _modrange(x, k) for i, (x, k) in lo.items()):
        mn = mx = 0
        for i, (x, k) in lo.items():
            a, b = m.ranges[i] if i in m.ranges else _modrange(x, k)
            mn += min(k * a, k * b)
            mx += max(k * a, k * b)
        s = (mn + c) // p
        if mx + c - s * p < p:
            return unlin(hi, s), unlin(lo, c - s * p)
    s, r = c // p, c % p
    rest = unlin(lo, r)
    if isinstance(rest, int):
        return unlin(hi, s + rest // p), rest % p
    q, md = rest / p, rest % p
    return n_add(unlin(hi, s), isimp(q)), isimp(md)


def _modrange(x, k):
    if z3.is_app_of(x, z3.Z3_OP_MOD) and z3.is_int_value(x.arg(1)):
        return (0, x.arg(1).as_long() - 1)
    return None


def unflat(m, y, r, p):
    """index p*y + r with 0 <= r < p"""
    t = n_add(n_mul(y, p), r)
    if isinstance(t, int):
        return t
    d, c = lin(t)
    for i, (x, k) in list(d.items()):
        if z3.is_app_of(x, z3.Z3_OP_MOD):
            for j, (w, l) in list(d.items()):
                if (z3.is_app_of(w, z3.Z3_OP_IDIV) and w.arg(0).eq(x.arg(0)) and w.arg(1).eq(x.arg(1))
                        and z3.is_int_value(w.arg(1)) and l == k * w.arg(1).as_long()):
                    dd = {a: b for a, b in d.items() if a not in (i, j)}
                    d2, c2 = lin(x.arg(0))
                    for a, (z, q) in d2.items():
                        dd[a] = (z, dd[a][1] + k * q) if a in dd else (z, k * q)
                    return unlin({a: b for a, b in dd.items() if b[1] != 0}, c + k * c2)
    return t


# ---------------------------------------------------------------- contents
class Leaf:
    def __init__(self, m, fn):
        self.m = m
        self.fn = fn
        self.memo = {}

    def at(self, idx):
        return memo_pc(self.m, self.memo, tuple(ikey(i) for i in idx), idx, lambda: self.fn(idx))


class Write:
    def __init__(self, m, cond, val, old):
        self.m = m
        self.cond = cond
        self.val = val
        self.old = old
        self.memo = {}

    def lookup(self, k):
        for e in self.memo.get(k, ()):
            if e[1] is None:
                return e
            if e[1] <= self.m.pc_ids():
                self.m.used += 1
                return e
        return None

    def at(self, idx):
        m = self.m
        k = tuple(ikey(i) for i in idx)
        e = self.lookup(k)
        if e:
            return e[2]
        u = m.used
        chain = []
        node = self

        def put(nd, v):
            nd.memo.setdefault(k, []).append((idx, m.pc_ids() if m.used != u else None, v))
        while True:
            if isinstance(node, Write):
                e = node.lookup(k)
                if e:
                    v = e[2]
                    break
                c = node.cond(idx)
                if c is True:
                    v = node.val(idx)
                    put(node, v)
                    break
                if c is not False:
                    chain.append((node, c))
                node = node.old
            else:
                v = node.at(idx)
                break
        for nd, c in reversed(chain):
            v = n_ite(c, nd.val(idx), v)
            put(nd, v)
        if not chain or chain[0][0] is not self:
            put(self, v)
        return v


class Buf:
    """storage; content is persistent, so that the state is one reference"""

    def __init__(self, m, content, name="", ndim=1):
        self.m = m
        self.ndim = ndim
        self.content = content
        self.name = name
        m.heap.append(self)

    def get_state(self):
        return self.content

    def set_state(self, s):
        self.content = s

    def write(self, cond, val):
        self.content = Write(self.m, cond, val, self.content)


class Arr:
    """a view: fwd maps a view index to a buffer index, inv a buffer index to (condition, view index)"""

    def __init__(self, m, buf, shape, kind, fwd=None, inv=None, whole=True):
        self.m = m
        self.buf = buf
        self.shape = tuple(shape)
        self.kind = kind
        self.fwd = fwd or (lambda idx: idx)
        self.inv = inv or (lambda b: (True, b))
        self.whole = whole       # the view covers the whole buffer in C order

    @property
    def ndim(self):
        return len(self.shape)

    def get(self, idx):
        return self.buf.content.at(self.fwd(tuple(idx)))

    def reader(self):
        """element function of the present content (later writes do not show)"""
        c = self.buf.content
        fwd = self.fwd
        return lambda idx: c.at(fwd(tuple(idx)))

    def size(self):
        t = 1
        for s in self.shape:
            t = n_mul(t, s)
        return t

    def store(self, cond, val):
        """write val(idx) at the view indices with cond(idx)"""
        inv = self.inv
        kind = self.kind

        def c(b):
            ok, idx = inv(b)
            if ok is False:
                return False
            return And(ok, cond(idx))

        def v(b):
            _, idx = inv(b)
            return convert(self.m, val(idx), kind)
        self.buf.write(c, v)


def convert(m, x, kind):
    if kind == "f":
        if is_num(x):
            return x if is_r(x) else R_num(x)
        if x is None:
            return NAN
    elif kind == "i":
        if is_b(x) or is_i(x):
            return _ii(x)
        if is_r(x):
            raise Unsupported("real value stored in an integer array")
    elif kind == "b":
        if is_b(x):
            return x
        if is_num(x):
            return truth(x)
    raise Unsupported(f"cannot store {type(x).__name__} in an array of kind {kind}")


def _ii(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, z3.BoolRef):
        return zi(x)
    return x


def R_num(x):
    r = R(x)
    return mk(r.val, r.nan, r.inf)


def new(m, shape, kind, fn, name=""):
    """a fresh array with elements fn(idx)"""
    return Arr(m, Buf(m, Leaf(m, fn), name, len(shape)), shape, kind)


def full(m, shape, kind, v):
    return new(m, shape, kind, lambda idx: v)


def copy(a):
    r = a.reader()
    return new(a.m, a.shape, a.kind, r)


def flat_index(m, shape, idx):
    """C-order position"""
    t = idx[0]
    for s, i in zip(shape[1:], idx[1:]):
        t = unflat(m, t, i, s) if isinstance(s, int) else n_add(n_mul(t, s), i)
    return t


QUOTIENT = z3.Function("quotient", z3.IntSort(), z3.IntSort(), z3.IntSort())
REMAINDER = z3.Function("remainder", z3.IntSort(), z3.IntSort(), z3.IntSort())


def unravel(m, shape, k):
    """index of the C-order position k; for an inner dimension that is not a number, quotient and remainder are left
    uninterpreted (less is known of them)"""
    out = []
    for s in reversed(shape[1:]):
        if isinstance(s, int):
            k, r = divmod_const(m, k, s)
        else:
            k, r = QUOTIENT(zi(k), zi(s)), REMAINDER(zi(k), zi(s))
        out.append(r)
    out.append(k)
    return tuple(reversed(out))


def reshape(a, shape):
    m = a.m
    shape = list(shape)
    if -1 in [s for s in shape if isinstance(s, int)]:
        known = 1
        for s in shape:
            if not (isinstance(s, int) and s == -1):
                known = n_mul(known, s)
        i = [isinstance(s, int) and s == -1 for s in shape].index(True)
        if isinstance(known, int) and known == 1:
            shape[i] = a.size()
        elif isinstance(known, int):
            q, r = divmod_const(m, a.size(), known)
            if not m.decide(n_eq(r, 0)):
                raise PyRaise("ValueError", "cannot reshape array")
            shape[i] = q
        else:
            raise Unsupported("reshape with -1 and a symbolic dimension")
    t = 1
    for s in shape:
        t = n_mul(t, s)
    if not m.decide(n_eq(t, a.size())):
        raise PyRaise("ValueError", "cannot reshape array")
    shape = tuple(shape)
    old = a.shape
    if len(shape) == len(old) and all(_dimeq(x, y) for x, y in zip(shape, old)):
        return Arr(m, a.buf, a.shape, a.kind, a.fwd, a.inv, a.whole)

    def to_old(idx):
        return unravel(m, old, flat_index(m, shape, idx))

    def to_new(idx):
        return unravel(m, shape, flat_index(m, old, idx))
    if a.whole:
        f, g = a.fwd, a.inv

        def inv(b):
            ok, i = g(b)
            return ok, to_new(i)
        return Arr(m, a.buf, shape, a.kind, lambda idx: f(to_old(idx)), inv, True)
    r = a.reader()
    return new(m, shape, a.kind, lambda idx: r(to_old(idx)))


def _dimeq(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    if isinstance(x, int) or isinstance(y, int):
        return False
    return x.eq(y)


def dims_equal(m, x, y):
    """decide whether two dimensions agree (forks the path)"""
    if _dimeq(x, y):
        return True
    return m.decide(n_eq(x, y))


def broadcast(m, arrs):
    """common shape and readers"""
    nd = max(a.ndim for a in arrs)
    shape, stretched = [], set()
    for d in range(nd):
        dims = []
        for j, a in enumerate(arrs):
            k = d - (nd - a.ndim)
            if k >= 0:
                dims.append((j, k, a.shape[k]))
        out, seen = 1, []
        for j, k, s in dims:
            if isinstance(s, int) and s == 1:
                continue
            if isinstance(out, int) and out == 1:
                out = s
                seen.append((j, k))
                continue
            if dims_equal(m, out, s):
                if isinstance(s, int):
                    out = s
                seen.append((j, k))
                continue
            # a dimension of unknown size that is 1 is stretched
            if not isinstance(out, int) and m.decide(n_eq(out, 1)):
                out = s
                stretched.update(seen)
                seen.append((j, k))
                continue
            if not isinstance(s, int) and m.decide(n_eq(s, 1)):
                stretched.add((j, k))
                continue
            raise PyRaise("ValueError", "operands could not be broadcast together")
        shape.append(out)
    readers = []
    for j, a in enumerate(arrs):
        off = nd - a.ndim
        r = a.reader()
        ones = [(j, k) in stretched or isinstance(s, int) and s == 1 and not (isinstance(shape[off + k], int) and shape[off + k] == 1)
                for k, s in enumerate(a.shape)]

        def rd(idx, r=r, off=off, ones=ones):
            return r(tuple(0 if o else i for o, i in zip(ones, idx[off:])))
        readers.append(rd)
    return tuple(shape), readers


def elementwise(m, fn, kind, *args):
    """apply fn to numbers / arrays; result is a number if no argument is an array"""
    arrs = [a for a in args if isinstance(a, Arr)]
    if not arrs:
        return fn(*args)
    shape, readers = broadcast(m, arrs)
    k = 0
    parts = []
    for a in args:
        if isinstance(a, Arr):
            parts.append(readers[k])
            k += 1
        else:
            parts.append(lambda idx, a=a: a)
    return new(m, shape, kind, lambda idx: fn(*[p(idx) for p in parts]))


# ---------------------------------------------------------------- indexing
class Slice:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


ALL = Slice(None, None, None)


def norm_slice(m, s, n):
    """(start, length, step) of a slice on a dimension of length n"""
    step = 1 if s.step is None else s.step
    if not isinstance(step, int):
        raise Unsupported("symbolic slice step")
    if step <= 0:
        if step == -1 and s.start is None and s.stop is None:
            return n_sub(n, 1), n, -1
        raise Unsupported("negative slice step")

    def clampi(x, default):
        if x is None:
            return default
        if isinstance(x, int) and isinstance(n, int):
            if x < 0:
                x += n
            return min(max(x, 0), n)
        if not (is_i(x) or is_b(x)):
            raise PyRaise("TypeError", "slice indices must be integers")
        if m.decide(n_lt(x, 0)):
            x = n_add(x, n)
            if m.decide(n_lt(x, 0)):
                return 0
            return x
        if m.decide(n_lt(n, x)):
            return n
        return x
    start = clampi(s.start, 0)
    stop = clampi(s.stop, n)
    ln = n_sub(stop, start)
    if isinstance(ln, int):
        ln = max(ln, 0)
    elif not m.decide(n_le(0, ln)):
        ln = 0
    if step != 1:
        ln = divmod_const(m, n_add(ln, step - 1), step)[0]
    return start, ln, step


def index_of(m, i, n):
    """a valid element position"""
    if isinstance(i, bool) or not is_i(i):
        if isinstance(i, F) or isinstance(i, SR):
            raise PyRaise("IndexError", "only integers, slices are valid indices")
        raise Unsupported(f"index of type {type(i).__name__}")
    if isinstance(i, int) and isinstance(n, int):
        if not -n <= i < n:
            raise PyRaise("IndexError", f"index {i} is out of bounds")
        return i % n if n else i
    if isinstance(i, int):
        if i < 0:
            i2 = n_add(n, i)
            if not m.decide(n_le(0, i2)):
                raise PyRaise("IndexError", "out of bounds")
            return i2
        if not m.decide(n_lt(i, n)):
            raise PyRaise("IndexError", "out of bounds")
        return i
    if m.decide(n_lt(i, 0)):
        i = n_add(i, n)
        if not m.decide(n_le(0, i)):
            raise PyRaise("IndexError", "out of bounds")
        return i
    if not m.decide(n_lt(i, n)):
        raise PyRaise("IndexError", "out of bounds")
    return i


def view(a, key):
    """basic indexing: number if every axis is indexed, else a view"""
    m = a.m
    if not isinstance(key, tuple):
        key = (key,)
    if any(k is Ellipsis for k in key):
        p = [k is Ellipsis for k in key].index(True)
        real = sum(1 for k in key if k is not Ellipsis and k is not None)
        key = key[:p] + (ALL,) * (a.ndim - real) + key[p + 1:]
    real = sum(1 for k in key if k is not None)
    if real > a.ndim:
        raise PyRaise("IndexError", "too many indices for array")
    key = key + (ALL,) * (a.ndim - real)
    plan = []
    ax = 0
    for k in key:
        if k is None:
            plan.append(("new",))
            continue
        n = a.shape[ax]
        if isinstance(k, Slice):
            plan.append(("s",) + norm_slice(m, k, n))
        else:
            plan.append(("i", index_of(m, k, n)))
        ax += 1
    if all(p[0] == "i" for p in plan):
        return a.get(tuple(p[1] for p in plan)), True, None
    shape = []
    for p in plan:
        if p[0] == "s":
            shape.append(p[2])
        elif p[0] == "new":
            shape.append(1)
    f, g = a.fwd, a.inv

    def fwd(idx):
        out = []
        it = iter(idx)
        for p in plan:
            if p[0] == "i":
                out.append(p[1])
            elif p[0] == "new":
                next(it)
            else:
                out.append(n_add(p[1], n_mul(next(it), p[3])))
        return f(tuple(out))

    def inv(b):
        ok, idx = g(b)
        if ok is False:
            return False, None
        conds = [ok]
        out = []
        it = iter(idx)
        for p in plan:
            if p[0] == "new":
                out.append(0)
                continue
            x = next(it)
            if p[0] == "i":
                conds.append(n_eq(x, p[1]))
            else:
                d = n_sub(x, p[1])
                if p[3] == 1:
                    q = d
                elif p[3] == -1:
                    q = n_neg(d)
                else:
                    q, r = divmod_const(m, d, p[3])
                    conds.append(n_eq(r, 0))
                conds.append(n_le(0, q))
                conds.append(n_lt(q, p[2]))
                out.append(q)
        c = And(*conds)
        return c, tuple(out)
    trivial = all(p[0] == "s" and p[3] == 1 and isinstance(p[1], int) and p[1] == 0
                  and _dimeq(p[2], n) for p, n in zip(plan, a.shape)) and len(plan) == a.ndim
    return Arr(m, a.buf, shape, a.kind, fwd, inv, a.whole and trivial), False, None
