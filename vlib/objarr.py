"""numpy object arrays over symbolic numbers: numpy's own shape machinery runs, arithmetic goes to the term layer."""
import numpy as np
import torch

from . import elem as E
from . import symten as T
from .elem import is_sym


def val(x):
    if isinstance(x, Num):
        return x.v
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return val(x.item())
    if isinstance(x, (bool, int)) or is_sym(x):
        return x
    if isinstance(x, np.generic):
        x = x.item()
    return E.to_frac(x) if isinstance(x, float) else x


def lift(f, swap=False):
    def g(s, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if not isinstance(o, (Num, int, float, np.generic, np.ndarray)) and not is_sym(o):
            return NotImplemented
        a, b = val(s), val(o)
        return Num(f(b, a) if swap else f(a, b))
    return g


def cmp(f):
    def g(s, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if not isinstance(o, (Num, int, float, np.generic, np.ndarray)):
            return NotImplemented
        c = f(val(s), val(o))
        return T.S.path.branch(c) if is_sym(c) else bool(c)
    return g


class Num:
    __array_priority__ = 10

    def __init__(self, v):
        self.v = v

    __add__, __radd__ = lift(E.add), lift(E.add, True)
    __sub__, __rsub__ = lift(E.sub), lift(E.sub, True)
    __mul__, __rmul__ = lift(E.mul), lift(E.mul, True)
    __truediv__, __rtruediv__ = lift(E.div), lift(E.div, True)
    __floordiv__, __rfloordiv__ = lift(E.floordiv), lift(E.floordiv, True)
    __mod__, __rmod__ = lift(E.remainder), lift(E.remainder, True)
    __lt__, __le__ = cmp(E.lt), cmp(E.le)
    __gt__, __ge__ = cmp(lambda a, b: E.lt(b, a)), cmp(lambda a, b: E.le(b, a))
    __eq__, __ne__ = cmp(E.eq), cmp(E.ne)

    def __hash__(self):
        return hash(self.__index__())

    def __neg__(self):
        return Num(E.neg(self.v))

    def __pos__(self):
        return self

    def __abs__(self):
        return Num(E.rabs(self.v))

    def __pow__(self, k):
        return Num(E.rpow(self.v, val(k)))

    def __bool__(self):
        return self != 0

    def __index__(self):
        return T.S.path.pick_int(self.v) if is_sym(self.v) else int(self.v)

    __int__ = __index__

    def rint(self):
        return Num(E.round_he(self.v))

    def floor(self):
        return Num(E.floor(self.v))

    def ceil(self):
        return Num(E.ceil(self.v))

    def sqrt(self):
        return Num(E.sqrt(self.v))

    def exp(self):
        return Num(E.trans("exp", self.v))

    def conjugate(self):
        return self

    def item(self):
        return self

    def astype(self, dt, **k):
        return OArr.of(np.array(self, dtype=object)).astype(dt)[()]

    def round(self, n=0):
        return self.rint()

    __round__ = round

    def __repr__(self):
        return "Num(%s)" % (self.v,)


def num(v):
    return Num(v) if is_sym(v) else v


class OArr(np.ndarray):
    """object array of numbers with numpy's numeric methods"""
    __array_priority__ = 20

    @staticmethod
    def of(a):
        a = np.asarray(a, dtype=object)
        return a.view(OArr)

    def _map(self, f):
        out = np.empty(self.shape, dtype=object)
        for i in np.ndindex(*self.shape):
            x = self[i] if self.ndim else self.item()
            out[i] = Num(f(val(x)))
        return OArr.of(out)

    def astype(self, dt, *a, **k):
        if dt is object or np.dtype(dt).kind == "O":
            return self.copy()
        kind = np.dtype(dt).kind
        if kind in "iu":
            return self._map(lambda v: v if isinstance(v, int) or (is_sym(v) and v.is_int()) else E.trunc_int(v))
        if kind == "f":
            return self._map(lambda v: E.R(v) if is_sym(v) else E.to_frac(v))
        raise E.Unsupported("astype %s" % dt)

    def round(self, decimals=0, out=None):
        if decimals:
            raise E.Unsupported("round with decimals")
        return self._map(E.round_he)

    def clip(self, min=None, max=None, out=None, **k):
        r = self
        if min is not None:
            r = np.frompyfunc(lambda a, b: Num(E.maximum(val(a), val(b))), 2, 1)(r, min)
        if max is not None:
            r = np.frompyfunc(lambda a, b: Num(E.minimum(val(a), val(b))), 2, 1)(r, max)
        return OArr.of(r)

    def _red(self, f, axis):
        if axis is not None:
            a = np.moveaxis(np.asarray(self), axis, 0)
            out = np.empty(a.shape[1:], dtype=object)
            for i in np.ndindex(*out.shape):
                out[i] = OArr.of(a[(slice(None),) + i])._red(f, None)
            return OArr.of(out)
        vs = [val(x) for x in np.asarray(self).reshape(-1)]
        r = vs[0]
        for v in vs[1:]:
            r = f(r, v)
        return Num(r)

    def min(self, axis=None, out=None, **k):
        return self._red(E.minimum, axis)

    def max(self, axis=None, out=None, **k):
        return self._red(E.maximum, axis)


def oarr(t):
    """numpy array of a harness tensor: symbolic object array, or the plain array in the concrete run"""
    if isinstance(t, T.SymTensor):
        e = T.elems_of(t)
        out = np.empty(e.shape, dtype=object)
        for i in np.ndindex(*e.shape):
            out[i] = Num(e[i])
        return OArr.of(out)
    return t.detach().numpy()


def vals(x):
    """flat list of the elements"""
    if isinstance(x, np.ndarray):
        return [v for y in (np.asarray(x).reshape(-1).tolist() if x.dtype == object else x.reshape(-1).tolist()) for v in [y.v if isinstance(y, Num) else y]]
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in vals(y)]
    if isinstance(x, torch.Tensor):
        return vals(oarr(x))
    return [x.v if isinstance(x, Num) else x.item() if isinstance(x, np.generic) else x]


class NpProxy:
    """the numpy module with some functions replaced"""

    def __init__(self, **over):
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(np, n)
