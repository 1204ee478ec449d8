"""A small stand-in for jax / jax.numpy / jax.lax over Python integers and SMT integer terms.

Enough of the API (with JAX's documented semantics: fixed-width wrap-around, type promotion with x64 enabled, clamped
gathers and dynamic slices, dropped out-of-range scatters, shifts beyond the width giving zero) to execute the entropy
coders of projects/jax_entropy_coders, which cannot be imported here because jax is not installed.
Concrete control flow stays concrete; a branch on a symbolic condition forks the execution.
"""
import builtins
import sys
import types
from fractions import Fraction

import numpy as np
import z3

from . import elem as E
from . import symten as T
from .elem import Unsupported, is_sym

W = {"bool": 1, "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64, "int8": 8, "int16": 16, "int32": 32, "int64": 64}


def path():
    return T.S.path


def implied(c):
    if not is_sym(c):
        return builtins.bool(c)
    p = path()
    return None if p is None else p.implied(c)


def truth(c):
    if is_sym(c):
        return path().branch(c)
    return builtins.bool(c)


def num(x):
    """element as integer (booleans count as 0/1)"""
    if isinstance(x, builtins.bool):
        return builtins.int(x)
    if is_sym(x) and z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def norm(x, dt):
    """value of x stored as dt"""
    if dt == "bool":
        return tobool(x)
    if dt == "float64":
        return x
    if isinstance(x, Quot):
        return x.to_int(dt)
    x = num(x)
    w = W[dt]
    if dt.startswith("u"):
        lo, hi = 0, 1 << w
    else:
        lo, hi = -(1 << (w - 1)), 1 << (w - 1)
    if not is_sym(x):
        return (builtins.int(x) - lo) % (1 << w) + lo
    if implied(z3.And(x >= lo, x < hi)):
        return x
    m = 1 << w
    if implied(z3.And(x >= lo + m, x < hi + m)):
        return z3.simplify(x - m)
    if implied(z3.And(x >= lo - m, x < hi - m)):
        return z3.simplify(x + m)
    if lo == 0 and implied(x >= 0):
        return low_bits(x, w)
    return (x - lo) % m + lo if lo else x % m


def piece(v, x, s, w):
    """note that the variable v holds the bits s..s+w of x"""
    p = path()
    if not hasattr(p, "pieces"):
        p.pieces = {}
    if is_sym(v):
        if is_sym(x) and x.get_id() in p.pieces:
            _, y, s0, w0 = p.pieces[x.get_id()]
            p.pieces[v.get_id()] = (v, y, s0 + s, min(w, w0 - s))
        else:
            p.pieces[v.get_id()] = (v, x, s, w)
    return v


def recombine(t):
    """sum of 2^s * (bits s.. of x) over all of x is x"""
    p = path()
    pc = getattr(p, "pieces", None)
    if not pc or not is_sym(t):
        return t
    u = z3.simplify(t)
    ts = [u.arg(i) for i in range(u.num_args())] if z3.is_add(u) else [u]
    got = []
    for a in ts:
        c = 1
        if z3.is_mul(a) and a.num_args() == 2 and z3.is_int_value(a.arg(0)):
            c, a = a.arg(0).as_long(), a.arg(1)
        if a.get_id() not in pc:
            return t
        _, x, s, w = pc[a.get_id()]
        if c != 1 << s:
            return t
        got.append((s, w, x))
    got.sort(key=lambda g: g[0])
    pos = 0
    for s, w, x in got:
        if s != pos or not z3.eq(x, got[0][2]):
            return t
        pos = s + w
    x = got[0][2]
    return x if implied(z3.And(x >= 0, x < (1 << pos))) else t


def tobool(x):
    if isinstance(x, builtins.bool):
        return x
    if is_sym(x):
        return x if z3.is_bool(x) else x != 0
    return x != 0


class Quot:
    """float64 quotient of two non-negative integers. Exact comparisons; truncation equals the integer quotient because
    a < 2^49 and b <= 2^33 leave at least 2^-33 between a non-integer quotient below 2^16 and the next integer, while
    float64 rounds with an error of at most 2^-37 there."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def to_int(self, dt):
        a, b = self.a, self.b
        if not (implied(E.band(E.lt(0, b), E.le(b, 1 << 33), E.le(0, a), E.lt(a, 1 << 49)))):
            raise Unsupported("float64 quotient outside the exactly modelled range")
        if not is_sym(a) and not is_sym(b):
            return norm(a // b, dt)
        q = fresh("quot")
        p = path()
        p.add(z3.And(q * b <= a, a < q * b + b, q >= 0))
        FLOOR[q.get_id()] = (q, a, b)
        return norm(q, dt)


FLOOR = {}


def fresh(tag):
    """deterministic names within a path: the counter restarts with each execution"""
    p = path()
    p.mj = getattr(p, "mj", 0) + 1
    return z3.Int("%s!%d" % (tag, p.mj))


def ge(x, y):
    """x >= y, using the definition of floor quotients: floor(a/b) >= c iff a >= c*b"""
    if not is_sym(x) and not is_sym(y):
        return x >= y
    if is_sym(x) and x.get_id() in FLOOR:
        _, a, b = FLOOR[x.get_id()]
        return a >= y * b
    if is_sym(y) and y.get_id() in FLOOR:  # x >= floor(a/b)  iff  a < (x+1)*b
        _, a, b = FLOOR[y.get_id()]
        return a < (x + 1) * b
    return E.le(y, x)


def define(x):
    """a variable equal to the term x (same variable for the same term on a path)"""
    if not is_sym(x) or z3.is_const(x):
        return x
    x = z3.simplify(x)
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_const(x):
        return x
    p = path()
    if not hasattr(p, "defs"):
        p.defs = {}
    if x.get_id() not in p.defs:
        v = fresh("d")
        p.add(v == x)
        p.defs[x.get_id()] = (v, x)
    return p.defs[x.get_id()][0]


def mul_(p, q):
    """product of named factors, so that equal products are syntactically equal"""
    if is_sym(p) and is_sym(q):
        return define(p) * define(q)
    return p * q


def split_factor(x, b):
    """x == q*b + rest for the syntactic multiples of the variable b"""
    x = z3.simplify(x)
    ts = [x.arg(i) for i in range(x.num_args())] if z3.is_add(x) else [x]
    q, r = [], []
    for t in ts:
        if z3.eq(t, b):
            q.append(z3.IntVal(1))
            continue
        if z3.is_mul(t):
            fs = [t.arg(i) for i in range(t.num_args())]
            k = [i for i, f in enumerate(fs) if z3.eq(f, b)]
            if k:
                del fs[k[0]]
                q.append(z3.Product(fs) if len(fs) > 1 else fs[0])
                continue
        r.append(t)
    if not q:
        return None, x
    return z3.simplify(z3.Sum(q)), z3.simplify(z3.Sum(r)) if r else 0


def divmod_(a, b):
    if not is_sym(a) and not is_sym(b):
        return (a // b, a % b) if b else ((1 << 64) - 1, a)
    if is_sym(b) and is_sym(a):
        b = define(b)
    if is_sym(b) and is_sym(a):
        q, rest = split_factor(a, b)
        if q is not None and implied(E.band(E.le(0, rest), E.lt(rest, b))):
            return q, rest
    if not is_sym(b):
        if b == 1:
            return a, 0
        a = canon(a)
        if not is_sym(a) or z3.is_int_value(a):
            a = a if not is_sym(a) else a.as_long()
            return a // b, a % b
        p = path()
        if not hasattr(p, "divs"):
            p.divs = {}
        k = (a.get_id(), b)
        if k not in p.divs:
            q, rest = split_multiple(a, b)
            q = 0 if q is None else q
            if not implied(E.band(E.le(0, rest), E.lt(rest, b))):
                v = band_of(rest, b)
                if v is not None:  # the quotient is the same for every value on this path
                    q, rest = q + v, z3.simplify(rest - v * b)
                else:
                    j = (rest.get_id(), b)
                    if j not in p.divs:
                        q1, r1 = fresh("q"), fresh("r")
                        p.add(z3.And(rest == q1 * b + r1, r1 >= 0, r1 < b))
                        p.known.append(q1)
                        p.divs[j] = (q1, r1, rest)
                    q, rest = q + p.divs[j][0], p.divs[j][1]
                if is_sym(q):
                    q = z3.simplify(q)
                    q = q.as_long() if z3.is_int_value(q) else q
            p.divs[k] = (q, rest, a)
        return p.divs[k][:2]
    if not implied(b > 0):
        raise Unsupported("division by a value that may be zero")
    q, r = fresh("q"), fresh("r")
    path().add(z3.And(a == q * b + r, r >= 0, r < b, z3.Implies(a >= 0, q >= 0), z3.Implies(z3.And(a >= 0), q <= a)))
    return q, r


def band_of(x, m):
    """the v with v*m <= x < (v+1)*m for every value of x on this path, if there is one"""
    p = path()
    if p.check(z3.BoolVal(True), timeout=1500) != z3.sat:
        return None
    v = p.solver.model().eval(x, model_completion=True).as_long() // m
    return v if p.check(z3.Not(z3.And(x >= v * m, x < (v + 1) * m)), timeout=1500) == z3.unsat else None


def canon(x):
    """an earlier term that always has the value of x, if there is one"""
    if not is_sym(x):
        return x
    p = path()
    if not hasattr(p, "known"):
        p.known, p.canon = [], {}
    x = z3.simplify(x)
    if not is_sym(x) or z3.is_int_value(x):
        return x
    if x.get_id() in p.canon:
        return p.canon[x.get_id()][1]
    r = x
    if p.known:
        if p.check(z3.BoolVal(True), timeout=1500) == z3.sat:
            m = p.solver.model()
            v = m.eval(x, model_completion=True)
            c = [k for k in p.known if z3.eq(m.eval(k, model_completion=True), v)]
        else:
            c = p.known[-4:]
        for k in c:
            if p.check(k != x, timeout=1500) == z3.unsat:
                r = k
                break
    if r is x:
        p.known.append(x)
    p.canon[x.get_id()] = (x, r)
    return r


def shr(x, k, w):
    if is_sym(k):
        k = path().pick_int(k)
    if k >= w:
        return 0
    if not is_sym(x):
        return x >> k
    if k == 0:
        return x
    m = 1 << k
    # q*m + rest with 0 <= rest < m
    q, rest = split_multiple(x, m)
    if q is not None and implied(E.band(E.le(0, rest), E.lt(rest, m))):
        return q
    return piece(divmod_(x, m)[0], x, k, w - k)


def split_multiple(x, m):
    """x == q*m + rest for the syntactic multiples of m in a sum"""
    x = z3.simplify(x)
    if z3.is_add(x):
        ts = [x.arg(i) for i in range(x.num_args())]
    else:
        ts = [x]
    q, r = [], []
    for t in ts:
        if z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % m == 0:
            c = t.arg(0).as_long() // m
            rest = t.arg(1) if t.num_args() == 2 else z3.Product([t.arg(i) for i in range(1, t.num_args())])
            q.append(rest * c if c != 1 else rest)
        elif z3.is_int_value(t) and t.as_long() >= m:
            v = t.as_long()
            q.append(z3.IntVal(v // m))
            if v % m:
                r.append(z3.IntVal(v % m))
        else:
            r.append(t)
    if not q:
        return None, x
    return z3.simplify(z3.Sum(q)), z3.simplify(z3.Sum(r)) if r else 0


def low_bits(x, k):
    if not is_sym(x):
        return x & ((1 << k) - 1)
    m = 1 << k
    if implied(z3.And(x >= 0, x < m)):
        return x
    q, rest = split_multiple(x, m)
    if q is not None and implied(E.band(E.le(0, rest), E.lt(rest, m))):
        return rest
    return piece(divmod_(x, m)[1], x, 0, k)


def band_(x, y):
    if isinstance(x, builtins.bool) or isinstance(y, builtins.bool) or (is_sym(x) and z3.is_bool(x)) or (is_sym(y) and z3.is_bool(y)):
        if all(isinstance(v, builtins.bool) or (is_sym(v) and z3.is_bool(v)) for v in (x, y)):
            return E.band(x, y)
        x, y = num(x), num(y)
    if not is_sym(x) and not is_sym(y):
        return x & y
    if is_sym(y):
        x, y = y, x
    if is_sym(y):
        raise Unsupported("bitwise and of two symbolic integers")
    if y >= 0 and (y & (y + 1)) == 0:
        return low_bits(x, y.bit_length())
    if y > 0:  # mask with a single run of ones
        t = (y & -y).bit_length() - 1
        z = y >> t
        if z & (z + 1) == 0:
            return low_bits(divmod_(x, 1 << t)[0], z.bit_length()) * (1 << t)
    raise Unsupported("bitwise and with mask %r" % y)


def bor_(x, y):
    isb = [isinstance(v, builtins.bool) or (is_sym(v) and z3.is_bool(v)) for v in (x, y)]
    if all(isb):
        return E.bor(x, y)
    x, y = num(x), num(y)
    if not is_sym(x) and not is_sym(y):
        return x | y
    for a, b in ((x, y), (y, x)):
        # a multiple of 2^k, b below 2^k
        for k in (1, 8, 16, 24, 32):
            m = 1 << k
            if implied(E.band(E.le(0, b), E.lt(b, m))):
                if not is_sym(a):
                    if a % m == 0:
                        return canon(recombine(a + b))
                    continue
                q, rest = split_multiple(a, m)
                if q is not None and not is_sym(rest) and rest == 0:
                    return canon(recombine(canon(q) * m + b))
                if implied(a % m == 0):
                    return canon(recombine(a + b))
    raise Unsupported("bitwise or of overlapping symbolic integers")


def prom(a, b):
    """result type of two (dtype, weak) pairs, JAX with x64 enabled"""
    (x, wx), (y, wy) = a, b
    if x == y:
        return x, wx and wy
    if x == "float64" or y == "float64":
        return "float64", False
    if x == "bool":
        return y, wy
    if y == "bool":
        return x, wx
    if wx and not wy:
        return y, False
    if wy and not wx:
        return x, False
    ux, uy = x.startswith("u"), y.startswith("u")
    if ux == uy:
        return (x if W[x] >= W[y] else y), wx and wy
    u, i = (x, y) if ux else (y, x)
    if u == "uint64":
        return "float64", False
    w = max(W[i], 2 * W[u])
    return "int%d" % w, False


class _At:
    def __init__(self, arr, idx=None):
        self.arr, self.idx = arr, idx

    def __getitem__(self, idx):
        return _At(self.arr, idx)

    def set(self, v):
        return index_update(self.arr, self.idx, v)

    def add(self, v):
        return index_update(self.arr, self.idx, self.arr[self.idx] + v)


class ndarray:
    __array_priority__ = 1000

    def __init__(self, a, dtype, weak=False):
        self.a, self.dtype_, self.weak = a, dtype, weak

    @property
    def dtype(self):
        return np.dtype(self.dtype_)

    @property
    def shape(self):
        return tuple(self.a.shape)

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return builtins.int(self.a.size)

    @property
    def at(self):
        return _At(self)

    def __len__(self):
        if not self.a.ndim:
            raise TypeError("len() of unsized object")
        return self.a.shape[0]

    def __iter__(self):
        return iter([ndarray(mk(self.a[i]), self.dtype_) for i in range(len(self))])

    def astype(self, dt):
        return cast(self, dt)

    def item(self):
        return self.a.reshape(-1)[0]

    def scalar(self):
        if self.a.size != 1:
            raise TypeError("only scalar arrays can be converted to Python scalars")
        return self.a.reshape(-1)[0]

    def __bool__(self):
        return truth(tobool(self.scalar()))

    def __int__(self):
        v = num(self.scalar())
        return path().pick_int(v) if is_sym(v) else builtins.int(v)

    __index__ = __int__

    def __float__(self):
        return float(self.__int__())

    def __bytes__(self):
        out = []
        for v in self.a.reshape(-1):
            v = num(v)
            if is_sym(v):
                v = path().pick_int(v)
            out.append(v)
        return bytes(out)

    def __getitem__(self, idx):
        return gather(self, idx)

    def __repr__(self):
        return "mj(%s, %s)" % (self.a.tolist(), self.dtype_)

    # reductions
    def sum(self, axis=None, **k):
        return red(self, axis, lambda x, y: x + y, "int64" if self.dtype_ == "bool" or self.dtype_.startswith("int") else "uint64" if self.dtype_.startswith("u") else self.dtype_)

    def prod(self, axis=None):
        return red(self, axis, lambda x, y: x * y, self.dtype_)

    def any(self, axis=None):
        return red(cast(self, "bool"), axis, lambda x, y: E.bor(x, y), "bool")

    def all(self, axis=None):
        return red(cast(self, "bool"), axis, lambda x, y: E.band(x, y), "bool")

    def max(self, axis=None):
        return red(self, axis, E.maximum, self.dtype_)

    def min(self, axis=None):
        return red(self, axis, E.minimum, self.dtype_)

    def cumsum(self, axis=None):
        a = self.a if axis is not None else self.a.reshape(-1)
        return ndarray(np.cumsum(np.vectorize(num, otypes=[object])(a), axis=-1 if axis is None else axis), self.dtype_)

    def argmin(self, axis=None):
        return argmin(self, axis)

    def argmax(self, axis=None):
        return argmax(self, axis)

    def reshape(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = s[0]
        return ndarray(self.a.reshape(tuple(builtins.int(v) for v in s)), self.dtype_)

    def ravel(self):
        return ndarray(self.a.reshape(-1), self.dtype_)

    flatten = ravel

    def squeeze(self, axis=None):
        return ndarray(np.squeeze(self.a, axis), self.dtype_)

    def copy(self):
        return ndarray(self.a.copy(), self.dtype_, self.weak)

    @property
    def T(self):
        return ndarray(self.a.T, self.dtype_)

    def __invert__(self):
        if self.dtype_ == "bool":
            return ew(lambda x: E.bnot(x), "bool", self)
        return ew(lambda x: norm(-x - 1, self.dtype_), self.dtype_, self)

    def __neg__(self):
        return ew(lambda x: norm(-num(x), self.dtype_), self.dtype_, self)

    def __abs__(self):
        return ew(lambda x: E.rabs(x), self.dtype_, self)


def mk(v):
    if isinstance(v, np.ndarray):
        return v
    a = np.empty((), dtype=object)
    a[()] = v
    return a


def wrap(x):
    """anything array-like as ndarray"""
    if isinstance(x, ndarray):
        return x
    if isinstance(x, builtins.bool) or (is_sym(x) and z3.is_bool(x)):
        return ndarray(mk(x), "bool", True)
    if isinstance(x, builtins.int) or is_sym(x):
        return ndarray(mk(x), "int64", True)
    if isinstance(x, float):
        return ndarray(mk(x), "float64", True)
    if isinstance(x, np.generic):
        return ndarray(mk(x.item()), str(x.dtype))
    if isinstance(x, np.ndarray):
        o = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            o[i] = x[i].item() if x.dtype != object else x[i]
        return ndarray(o, str(x.dtype) if x.dtype != object else "int64")
    if isinstance(x, (bytes, bytearray)):
        o = np.empty(len(x), dtype=object)
        o[:] = list(x)
        return ndarray(o, "uint8")
    if isinstance(x, (list, tuple)):
        ys = [wrap(v) for v in x]
        if not ys:
            return ndarray(np.empty((0,), dtype=object), "float64")
        dt = (ys[0].dtype_, ys[0].weak)
        for y in ys[1:]:
            dt = prom(dt, (y.dtype_, y.weak))
        o = np.empty((len(ys),) + ys[0].shape, dtype=object)
        for i, y in enumerate(ys):
            o[i] = y.a if y.a.ndim else y.a[()]
        return ndarray(o, dt[0])
    raise Unsupported("mini-jax array from %r" % type(x))


def dname(dt):
    if isinstance(dt, str):
        return dt
    if isinstance(dt, _Type):
        return dt.name
    if dt in (builtins.bool,):
        return "bool"
    if dt is builtins.int:
        return "int64"
    if dt is float:
        return "float64"
    return np.dtype(dt).name


def cast(x, dt):
    dt = dname(dt)
    x = wrap(x)
    if dt == x.dtype_:
        return ndarray(x.a, dt)
    return ew(lambda v: norm(v, dt), dt, x)


def ew(f, dt, *xs, weak=False):
    xs = [wrap(x) for x in xs]
    bs = np.broadcast_arrays(*[x.a for x in xs]) if len(xs) > 1 else [xs[0].a]
    o = np.empty(bs[0].shape, dtype=object)
    for i in np.ndindex(*o.shape):
        o[i] = f(*[b[i] for b in bs])
    return ndarray(o, dt, weak)


def red(x, axis, f, dt):
    a = x.a
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    a = np.moveaxis(a, axis, 0)
    o = np.empty(a.shape[1:], dtype=object)
    for i in np.ndindex(*o.shape):
        vs = [a[(k,) + i] for k in range(a.shape[0])]
        if dt != "bool":
            # counts of symbolic conditions become concrete: the conditions are forked
            vs = [num(truth(v)) if is_sym(v) and z3.is_bool(v) else num(v) for v in vs]
        r = vs[0] if vs else 0
        for v in vs[1:]:
            r = f(r, v)
        o[i] = norm(r, dt) if dt != "bool" else r
    return ndarray(o, dt)


def arith(op):
    def f(x, y):
        x, y = wrap(x), wrap(y)
        dt, weak = prom((x.dtype_, x.weak), (y.dtype_, y.weak))
        if dt == "bool" and op in ("sub",):
            dt = "int64"

        def g(p, q):
            if dt == "bool":
                return E.bor(p, q) if op == "add" else E.band(p, q)
            if isinstance(p, Quot) or isinstance(q, Quot):
                raise Unsupported("arithmetic on a float quotient")
            p, q = num(p), num(q)
            r = p + q if op == "add" else p - q if op == "sub" else mul_(p, q)
            return norm(z3.simplify(r) if is_sym(r) else r, dt)
        return ew(g, dt, x, y, weak=weak)
    return f


def cmp(op):
    def f(x, y):
        x, y = wrap(x), wrap(y)

        def g(p, q):
            if isinstance(p, Quot) or isinstance(q, Quot):
                raise Unsupported("comparison of a float quotient")
            p, q = num(p), num(q)
            if op == "ge":
                return ge(p, q)
            if op == "lt":
                return E.bnot(ge(p, q))
            if op == "le":
                return ge(q, p)
            if op == "gt":
                return E.bnot(ge(q, p))
            r = E.eq(p, q)
            return r if op == "eq" else E.bnot(r)
        return ew(g, "bool", x, y)
    return f


def floordiv(x, y):
    return divmod(x, y)[0]


def remainder(x, y):
    return divmod(x, y)[1]


def divmod(x, y):
    x, y = wrap(x), wrap(y)
    dt, _ = prom((x.dtype_, x.weak), (y.dtype_, y.weak))
    pairs = ew(lambda p, q: divmod_(num(p), num(q)), "object", x, y)
    return ew(lambda v: norm(v[0], dt), dt, pairs), ew(lambda v: norm(v[1], dt), dt, pairs)


def truediv(x, y):
    x, y = wrap(x), wrap(y)

    def g(p, q):
        p, q = num(p), num(q)
        if not is_sym(p) and not is_sym(q) and (isinstance(p, float) or isinstance(q, float)):
            return p / q
        return Quot(p, q)
    return ew(g, "float64", x, y)


def shift(left):
    def f(x, k):
        x, k = wrap(x), wrap(k)
        dt, weak = prom((x.dtype_, x.weak), (k.dtype_, k.weak))
        w = W[dt]

        def g(p, q):
            p, q = num(p), num(q)
            if is_sym(q):
                q = path().pick_int(q)
            if not left:
                return shr(p, q, w)
            if q >= w or q < 0:
                return 0
            r = p * (1 << q)
            return norm(z3.simplify(r) if is_sym(r) else r, dt)
        return ew(g, dt, x, k, weak=weak)
    return f


def bits(op):
    def f(x, y):
        x, y = wrap(x), wrap(y)
        dt, weak = prom((x.dtype_, x.weak), (y.dtype_, y.weak))
        return ew(lambda p, q: norm((band_ if op == "and" else bor_)(p, q), dt) if dt != "bool" else (band_ if op == "and" else bor_)(p, q), dt, x, y, weak=weak)
    return f


def bxor(x, y):
    x, y = wrap(x), wrap(y)
    dt, weak = prom((x.dtype_, x.weak), (y.dtype_, y.weak))
    if dt == "bool":
        return ew(lambda p, q: E.bxor(p, q), "bool", x, y)

    def g(p, q):
        p, q = num(p), num(q)
        if is_sym(p) or is_sym(q):
            raise Unsupported("xor")
        return p ^ q
    return ew(g, dt, x, y)


add, subtract, multiply = arith("add"), arith("sub"), arith("mul")
greater_equal, less, less_equal, greater, equal, not_equal = (cmp(k) for k in ("ge", "lt", "le", "gt", "eq", "ne"))
left_shift, right_shift = shift(True), shift(False)
bitwise_and, bitwise_or = bits("and"), bits("or")

for _nm, _f in (("add", add), ("sub", subtract), ("mul", multiply), ("floordiv", floordiv), ("mod", remainder), ("truediv", truediv), ("lshift", left_shift), ("rshift", right_shift),
                ("and", bitwise_and), ("or", bitwise_or), ("xor", bxor), ("divmod", divmod)):
    setattr(ndarray, "__%s__" % _nm, (lambda f: lambda self, o: f(self, o))(_f))
    setattr(ndarray, "__r%s__" % _nm, (lambda f: lambda self, o: f(o, self))(_f))
for _nm, _f in (("ge", greater_equal), ("lt", less), ("le", less_equal), ("gt", greater), ("eq", equal), ("ne", not_equal)):
    setattr(ndarray, "__%s__" % _nm, (lambda f: lambda self, o: f(self, o))(_f))
ndarray.__hash__ = object.__hash__


def as_index(i):
    if isinstance(i, ndarray):
        if i.a.size == 1 and i.a.ndim == 0:
            return builtins.int(i)
        return i
    if is_sym(i):
        return path().pick_int(i)
    return i


def gather(x, idx):
    if not isinstance(idx, tuple):
        idx = (idx,)
    out = []
    ax = 0
    for i in idx:
        if i is None or i is Ellipsis:
            out.append(i)
            if i is Ellipsis:
                ax = x.ndim - (len([j for j in idx if j is not None and j is not Ellipsis]) - len([j for j in out if j is not None and j is not Ellipsis]))
            continue
        if isinstance(i, slice):
            out.append(slice(*[None if v is None else as_index(v) for v in (i.start, i.stop, i.step)]))
        else:
            i = as_index(i)
            n = x.a.shape[ax]
            if isinstance(i, ndarray):
                if i.dtype_ == "bool":
                    i = np.array([truth(tobool(v)) for v in i.a.reshape(-1)], dtype=builtins.bool).reshape(i.shape)
                else:
                    i = np.array([clampi(v, n) for v in i.a.reshape(-1)], dtype=int).reshape(i.shape)
            elif isinstance(i, (list, np.ndarray)):
                i = np.array([clampi(v, n) for v in np.asarray(i).reshape(-1)], dtype=int)
            else:
                i = clampi(i, n)
            out.append(i)
        ax += 1
    return ndarray(mk(x.a[tuple(out)]), x.dtype_, False)


def clampi(v, n):
    v = num(v)
    if is_sym(v):
        v = path().pick_int(v)
    v = builtins.int(v)
    if v < 0:
        v += n
    return builtins.min(builtins.max(v, 0), n - 1)


def index_update(x, idx, v):
    v = cast(v, x.dtype_)
    a = x.a.copy()
    i = as_index(idx) if not isinstance(idx, tuple) else tuple(as_index(j) for j in idx)
    if isinstance(i, builtins.int):
        n = a.shape[0]
        if i < 0:
            i += n
        if 0 <= i < n:  # out-of-range scatter indices are dropped
            a[i] = v.a if v.a.ndim else v.a[()]
        return ndarray(a, x.dtype_)
    if isinstance(i, ndarray):
        i = np.array([builtins.int(path().pick_int(q) if is_sym(q) else q) for q in i.a.reshape(-1)], dtype=int).reshape(i.shape)
        keep = (i >= -a.shape[0]) & (i < a.shape[0])
        vv = np.broadcast_to(v.a, i.shape + a.shape[1:])
        for k in np.ndindex(*i.shape):
            if keep[k]:
                a[i[k]] = vv[k]
        return ndarray(a, x.dtype_)
    a[i] = v.a if v.a.ndim else v.a[()]
    return ndarray(a, x.dtype_)


class _Type:
    def __init__(self, name):
        self.name = name
        self.dtype = np.dtype(name)

    def __call__(self, x=0):
        return cast(wrap(x), self.name)


# ------------------------------------------------ jax.numpy functions
def array(x, dtype=None, **k):
    if isinstance(x, ndarray) and dtype is None:
        return ndarray(x.a.copy(), x.dtype_)
    y = wrap(x)
    if dtype is not None:
        return cast(y, dtype)
    return ndarray(y.a, y.dtype_)


def full(shape, v, dtype=None):
    shape = tuple(builtins.int(s) for s in (shape if isinstance(shape, (tuple, list)) else [shape]))
    v = wrap(v)
    o = np.empty(shape, dtype=object)
    dt = dname(dtype) if dtype is not None else v.dtype_
    e = norm(v.scalar(), dt)
    for i in np.ndindex(*shape):
        o[i] = e
    return ndarray(o, dt)


def zeros(shape, dtype="float64"):
    return full(shape, 0, dtype)


def ones(shape, dtype="float64"):
    return full(shape, 1, dtype)


def zeros_like(x, dtype=None):
    return zeros(x.shape, dtype or x.dtype_)


def ones_like(x, dtype=None):
    return ones(x.shape, dtype or x.dtype_)


def full_like(x, v, dtype=None):
    return full(x.shape, v, dtype or x.dtype_)


def arange(*a, dtype="int64"):
    o = np.empty(len(range(*[builtins.int(v) for v in a])), dtype=object)
    o[:] = list(range(*[builtins.int(v) for v in a]))
    return ndarray(o, dname(dtype))


def concatenate(xs, axis=0):
    xs = [wrap(x) for x in xs]
    dt = (xs[0].dtype_, xs[0].weak)
    for x in xs[1:]:
        dt = prom(dt, (x.dtype_, x.weak))
    return ndarray(np.concatenate([cast(x, dt[0]).a for x in xs], axis), dt[0])


def append(x, y, axis=None):
    x, y = wrap(x), wrap(y)
    if axis is None:
        x, y, axis = x.ravel(), y.ravel(), 0
    return concatenate([x, y], axis)


def stack(xs, axis=0):
    xs = [wrap(x) for x in xs]
    dt = (xs[0].dtype_, xs[0].weak)
    for x in xs[1:]:
        dt = prom(dt, (x.dtype_, x.weak))
    return ndarray(np.stack([cast(x, dt[0]).a for x in xs], axis), dt[0])


def split(x, at, axis=0):
    at = at if isinstance(at, builtins.int) else [builtins.int(i) for i in at]
    return [ndarray(v, x.dtype_) for v in np.split(x.a, at, axis)]


def where(c, x, y):
    x, y = wrap(x), wrap(y)
    dt, weak = prom((x.dtype_, x.weak), (y.dtype_, y.weak))

    def g(k, p, q):
        if not is_sym(k):
            return norm(p if k else q, dt)
        v = implied(k)
        if v is not None:
            return norm(p if v else q, dt)
        return E.ite(k, norm(p, dt), norm(q, dt))
    return ew(g, dt, cast(wrap(c), "bool"), x, y)


def argpick(x, axis, better):
    a = x.a if axis is not None else x.a.reshape(-1)
    a = np.moveaxis(a, axis if axis is not None else 0, -1)
    o = np.empty(a.shape[:-1], dtype=object)
    for i in np.ndindex(*o.shape):
        best = 0
        for k in range(1, a.shape[-1]):
            if truth(better(a[i][k], a[i][best])):
                best = k
        o[i] = best
    return ndarray(mk(o if o.ndim else o[()]), "int64")


def argmax(x, axis=None, dtype=None):
    x = wrap(x)
    if x.dtype_ == "bool":
        return argbool(x, axis, True)
    return argpick(x, axis, lambda p, q: E.lt(q, p))


def argmin(x, axis=None, dtype=None):
    x = wrap(x)
    if x.dtype_ == "bool":
        return argbool(x, axis, False)
    return argpick(x, axis, lambda p, q: E.lt(p, q))


def argbool(x, axis, want):
    """first index holding `want` (0 if none): forks at most once per position"""
    a = x.a if axis is not None else x.a.reshape(-1)
    a = np.moveaxis(a, axis if axis is not None else 0, -1)
    o = np.empty(a.shape[:-1], dtype=object)
    for i in np.ndindex(*o.shape):
        o[i] = 0
        for k in range(a.shape[-1]):
            c = tobool(a[i][k])
            if truth(c if want else E.bnot(c)):
                o[i] = k
                break
    return ndarray(mk(o if o.ndim else o[()]), "int64")


def take_along_axis(x, idx, axis=-1):
    axis = axis % x.ndim
    n = x.shape[axis]
    shp = np.broadcast_shapes(x.shape[:axis] + x.shape[axis + 1:], idx.shape[:axis] + idx.shape[axis + 1:])
    xa = np.broadcast_to(np.moveaxis(x.a, axis, -1), shp + (n,))
    ia = np.moveaxis(idx.a, axis, -1)
    ia = np.broadcast_to(ia, shp + (ia.shape[-1],))
    o = np.empty(ia.shape, dtype=object)
    for i in np.ndindex(*o.shape):
        o[i] = xa[i[:-1]][clampi(ia[i], n)]
    return ndarray(np.moveaxis(o, -1, axis), x.dtype_)


def take(x, idx, axis=None):
    if axis is None:
        return x.ravel()[wrap(idx)]
    return ndarray(np.moveaxis(gather(ndarray(np.moveaxis(x.a, axis, 0), x.dtype_), wrap(idx)).a, 0, axis), x.dtype_)


def expand_dims(x, axis):
    return ndarray(np.expand_dims(x.a, axis), x.dtype_)


def simple(name):
    f = getattr(np, name)

    def g(x, *a, **k):
        x = wrap(x)
        return ndarray(f(x.a, *a, **k), x.dtype_)
    return g


def clip(x, lo=None, hi=None, a_min=None, a_max=None):
    x = wrap(x)
    lo = lo if lo is not None else a_min
    hi = hi if hi is not None else a_max
    if lo is not None:
        x = maximum(x, lo)
    if hi is not None:
        x = minimum(x, hi)
    return x


def maximum(x, y):
    x, y = wrap(x), wrap(y)
    dt, weak = prom((x.dtype_, x.weak), (y.dtype_, y.weak))
    return ew(lambda p, q: norm(p, dt) if implied(E.le(q, p)) else norm(q, dt) if implied(E.le(p, q)) else E.maximum(p, q), dt, x, y, weak=weak)


def minimum(x, y):
    x, y = wrap(x), wrap(y)
    dt, weak = prom((x.dtype_, x.weak), (y.dtype_, y.weak))
    return ew(lambda p, q: norm(p, dt) if implied(E.le(p, q)) else norm(q, dt) if implied(E.le(q, p)) else E.minimum(p, q), dt, x, y, weak=weak)


# ------------------------------------------------ lax
def cond(pred, tf, ff, *ops):
    t = builtins.bool(pred) if isinstance(pred, ndarray) else truth(tobool(pred))
    return tf(*ops) if t else ff(*ops)


def switch(i, branches, *ops):
    i = builtins.min(builtins.max(builtins.int(i), 0), len(branches) - 1)
    return branches[i](*ops)


def while_loop(c, body, init):
    v = init
    for _ in range(4096):
        if not builtins.bool(wrap(c(v))):
            return v
        v = body(v)
    raise Unsupported("loop bound of 4096 iterations reached")


def fori_loop(lo, hi, body, init):
    v = init
    for i in range(builtins.int(lo), builtins.int(hi)):
        v = body(ndarray(mk(i), "int64"), v)
    return v


def scan(f, init, xs, length=None, reverse=False):
    n = length if xs is None else len(tree_leaves(xs)[0])
    ys = [None] * n
    c = init
    for i in (reversed(range(n)) if reverse else range(n)):
        c, ys[i] = f(c, None if xs is None else tree_map(lambda x: x[i], xs))
    return c, tree_stack(ys)


def lax_argmax(x, axis, dtype):
    return cast(argmax(x, axis), dtype)


def lax_argmin(x, axis, dtype):
    return cast(argmin(x, axis), dtype)


def sort_key_val(keys, vals, dimension=-1, is_stable=True):
    keys, vals = wrap(keys), wrap(vals)
    if keys.ndim != 1:
        raise Unsupported("sort of a matrix")
    ks = [num(k) for k in keys.a]
    ks = [(builtins.int(truth(tobool(k)))) if keys.dtype_ == "bool" else (path().pick_int(k) if is_sym(k) else k) for k in [v if keys.dtype_ != "bool" else w for v, w in zip(ks, keys.a)]]
    order = sorted(range(len(ks)), key=lambda i: ks[i])
    kk = np.empty(len(ks), dtype=object)
    kk[:] = [builtins.bool(ks[i]) if keys.dtype_ == "bool" else ks[i] for i in order]
    return ndarray(kk, keys.dtype_), ndarray(vals.a[order], vals.dtype_)


def _starts(start, shape, sizes):
    ss = start
    if isinstance(start, ndarray):
        ss = [start] if start.ndim == 0 else list(start)
    elif not isinstance(start, (list, tuple)):
        ss = [start]
    out = []
    for s, n, k in zip(ss, shape, sizes):
        s = builtins.int(wrap(s)) if not isinstance(s, builtins.int) else s
        if s < 0:
            s += n
        out.append(builtins.min(builtins.max(s, 0), n - k))
    return out


def dynamic_update_slice(x, upd, start):
    upd = cast(upd, x.dtype_)
    if any(k > n for k, n in zip(upd.shape, x.shape)):
        raise TypeError("dynamic_update_slice update shape must be smaller than operand shape")
    st = _starts(start, x.shape, upd.shape)
    a = x.a.copy()
    a[tuple(slice(s, s + k) for s, k in zip(st, upd.shape))] = upd.a
    return ndarray(a, x.dtype_)


def dynamic_slice(x, start, sizes):
    if any(k > n for k, n in zip(sizes, x.shape)):
        raise TypeError("slice_sizes must be less than or equal to operand shape")
    st = _starts(start, x.shape, sizes)
    return ndarray(x.a[tuple(slice(s, s + k) for s, k in zip(st, sizes))], x.dtype_)


def dynamic_update_index_in_dim(x, upd, index, axis):
    upd = wrap(upd)
    if upd.ndim != x.ndim:
        upd = expand_dims(upd, axis)
    st = [0] * x.ndim
    st[axis] = index
    return dynamic_update_slice(x, upd, st)


def dynamic_index_in_dim(x, index, axis=0, keepdims=True):
    sizes = list(x.shape)
    sizes[axis] = 1
    st = [0] * x.ndim
    st[axis] = index
    r = dynamic_slice(x, st, sizes)
    return r if keepdims else r.squeeze(axis)


# ------------------------------------------------ trees, vmap
def tree_map(f, t):
    if t is None:
        return None
    if isinstance(t, tuple) and hasattr(t, "_fields"):
        return type(t)(*[tree_map(f, v) for v in t])
    if isinstance(t, (list, tuple)):
        return type(t)(tree_map(f, v) for v in t)
    if isinstance(t, dict):
        return {k: tree_map(f, v) for k, v in t.items()}
    return f(t)


def tree_leaves(t):
    out = []
    tree_map(lambda x: out.append(x), t)
    return out


def tree_stack(ts):
    t = ts[0]
    if t is None:
        return None
    if isinstance(t, tuple) and hasattr(t, "_fields"):
        return type(t)(*[tree_stack([s[i] for s in ts]) for i in range(len(t))])
    if isinstance(t, (list, tuple)):
        return type(t)(tree_stack([s[i] for s in ts]) for i in range(len(t)))
    if isinstance(t, dict):
        return {k: tree_stack([s[k] for s in ts]) for k in t}
    return stack(ts)


def vmap(f, in_axes=0, out_axes=0):
    def g(*args):
        ax = in_axes if isinstance(in_axes, (list, tuple)) else [in_axes] * len(args)
        sizes = {len(wrap(l)) for a, x in zip(args, ax) if x is not None for l in tree_leaves(a)}
        if len(sizes) != 1:
            raise ValueError("vmap got inconsistent sizes for array axes to be mapped: %s" % sizes)
        n = sizes.pop()
        return tree_stack([f(*[a if x is None else tree_map(lambda l: wrap(l)[i], a) for a, x in zip(args, ax)]) for i in range(n)])
    return g


def randint(key, shape, lo, hi, dtype="int64"):
    """any value of the generator's range"""
    o = np.empty(tuple(builtins.int(s) for s in shape), dtype=object)
    src = RANDOM[0]
    for k, i in enumerate(np.ndindex(*o.shape)):
        o[i] = src(k, lo, hi) if src else lo
    return ndarray(o, dname(dtype))


RANDOM = [None]


def install():
    """make `import jax` give this module; returns a function that undoes it"""
    j = types.ModuleType("jax")
    jnp = types.ModuleType("jax.numpy")
    lx = types.ModuleType("jax.lax")
    rnd = types.ModuleType("jax.random")
    ops = types.ModuleType("jax.ops")
    for n in ("uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float64"):
        setattr(jnp, n, _Type(n))
    jnp.bool_ = _Type("bool")
    g = globals()
    for n in ("ndarray array full zeros ones zeros_like ones_like full_like arange concatenate append stack split where argmax argmin take_along_axis take expand_dims clip maximum minimum divmod add subtract multiply "
              "greater_equal less less_equal greater equal not_equal left_shift right_shift bitwise_and bitwise_or").split():
        setattr(jnp, n, g[n])
    jnp.asarray = array
    jnp.mod = jnp.remainder = remainder
    jnp.floor_divide = floordiv
    jnp.true_divide = truediv
    jnp.bitwise_xor = bxor
    jnp.logical_not = lambda x: ew(lambda v: E.bnot(tobool(v)), "bool", wrap(x))
    jnp.logical_and = lambda x, y: bitwise_and(cast(wrap(x), "bool"), cast(wrap(y), "bool"))
    jnp.logical_or = lambda x, y: bitwise_or(cast(wrap(x), "bool"), cast(wrap(y), "bool"))
    for n in ("ravel", "squeeze", "flip", "tile", "repeat", "transpose", "moveaxis", "broadcast_to", "roll", "atleast_1d", "swapaxes"):
        setattr(jnp, n, simple(n))
    jnp.reshape = lambda x, s: wrap(x).reshape(s if isinstance(s, (tuple, list)) else (s,))
    for n in ("sum", "prod", "any", "all", "max", "min", "cumsum"):
        setattr(jnp, n, (lambda n: lambda x, axis=None, **k: getattr(wrap(x), n)(axis))(n))
    jnp.size = lambda x: wrap(x).size
    jnp.shape = lambda x: wrap(x).shape
    for n in "cond switch while_loop fori_loop scan sort_key_val dynamic_update_slice dynamic_slice dynamic_update_index_in_dim dynamic_index_in_dim".split():
        setattr(lx, n, g[n])
    lx.argmax, lx.argmin = lax_argmax, lax_argmin
    lx.select = where
    lx.add, lx.sub, lx.mul, lx.div, lx.rem = add, subtract, multiply, floordiv, remainder
    lx.max, lx.min = maximum, minimum
    lx.shift_left, lx.shift_right_logical = left_shift, right_shift
    lx.convert_element_type = cast
    rnd.PRNGKey = lambda s: ("key", s)
    rnd.randint = randint
    ops.index_update = index_update
    ops.index = _Index()
    j.numpy, j.lax, j.random, j.ops, j.vmap = jnp, lx, rnd, ops, vmap
    j.jit = lambda f=None, **k: f if f is not None else (lambda x: x)
    j.tree_map = tree_map
    j.config = types.SimpleNamespace(update=lambda *a: None)
    keep = {k: sys.modules.get(k) for k in ("jax", "jax.numpy", "jax.lax", "jax.random", "jax.ops")}
    sys.modules.update({"jax": j, "jax.numpy": jnp, "jax.lax": lx, "jax.random": rnd, "jax.ops": ops})

    def undo():
        for k, v in keep.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    return undo


class _Index:
    def __getitem__(self, i):
        return i
