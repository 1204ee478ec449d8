"""numpy arrays over symbolic tensors: enough of the numpy API for the repository's numpy helpers."""
import numpy as np
import torch

from .elem import Unsupported

TO_T = {np.dtype("float32"): torch.float32, np.dtype("float64"): torch.float64, np.dtype("float16"): torch.float16, np.dtype("uint8"): torch.uint8,
        np.dtype("int8"): torch.int8, np.dtype("int16"): torch.int16, np.dtype("int32"): torch.int32, np.dtype("int64"): torch.int64, np.dtype("bool"): torch.bool}
TO_N = {v: k for k, v in TO_T.items()}

UF = {"add": torch.add, "subtract": torch.sub, "multiply": torch.mul, "true_divide": torch.div, "divide": torch.div, "negative": torch.neg, "absolute": torch.abs, "sqrt": torch.sqrt,
      "log10": torch.log10, "log": torch.log, "log2": torch.log2, "exp": torch.exp, "square": torch.square, "maximum": torch.maximum, "minimum": torch.minimum,
      "less": torch.lt, "greater": torch.gt, "less_equal": torch.le, "greater_equal": torch.ge, "equal": torch.eq, "not_equal": torch.ne, "power": torch.pow,
      "floor": torch.floor, "ceil": torch.ceil, "rint": torch.round}


def unwrap(x):
    if isinstance(x, SymArr):
        return x.t
    if isinstance(x, np.ndarray):
        return torch.from_numpy(np.ascontiguousarray(x))
    if isinstance(x, np.generic):
        return x.item()
    return x


def np_dtype(x):
    return x.dtype if isinstance(x, (SymArr, np.ndarray, np.generic)) else np.dtype(x) if isinstance(x, type) else x


class SymArr(np.lib.mixins.NDArrayOperatorsMixin):
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    @property
    def dtype(self):
        return TO_N[self.t.dtype]

    @property
    def shape(self):
        return tuple(self.t.shape)

    @property
    def ndim(self):
        return self.t.dim()

    @property
    def size(self):
        return self.t.numel()

    def astype(self, dt, **kw):
        return SymArr(self.t.to(TO_T[np.dtype(dt)]))

    def mean(self, axis=None, dtype=None, keepdims=False, **kw):
        t = self.t
        if dtype is not None:
            t = t.to(TO_T[np.dtype(dtype)])
        elif not t.is_floating_point():
            t = t.to(torch.float64)
        return SymArr(t.mean() if axis is None else t.mean(axis, keepdim=keepdims))

    def sum(self, axis=None, dtype=None, keepdims=False, **kw):
        t = self.t
        if dtype is not None:
            t = t.to(TO_T[np.dtype(dtype)])
        return SymArr(t.sum() if axis is None else t.sum(axis, keepdim=keepdims))

    def reshape(self, *s):
        return SymArr(self.t.reshape(*s))

    def __getitem__(self, i):
        return SymArr(self.t[i])

    def __array__(self, *a, **k):
        raise Unsupported("conversion of a symbolic array to a concrete numpy array")

    def item(self):
        return self.t.item()

    def __bool__(self):
        return bool(self.t)

    def __array_ufunc__(self, ufunc, method, *inputs, dtype=None, out=None, **kw):
        if method != "__call__" or out is not None:
            raise Unsupported("numpy ufunc method " + method)
        f = UF.get(ufunc.__name__)
        if f is None:
            raise Unsupported("numpy ufunc " + ufunc.__name__)
        ts = [unwrap(x) for x in inputs]
        if dtype is not None:
            ts = [x.to(TO_T[np.dtype(dtype)]) if isinstance(x, torch.Tensor) else x for x in ts]
        elif ufunc.__name__ in ("log10", "log", "log2", "exp", "sqrt", "true_divide", "divide"):
            ts = [x.to(torch.float64) if isinstance(x, torch.Tensor) and not x.is_floating_point() else x for x in ts]
        if len(ts) == 2 and not isinstance(ts[0], torch.Tensor):
            ts[0] = torch.tensor(ts[0], dtype=ts[1].dtype if isinstance(ts[0], int) or ts[1].is_floating_point() else torch.float64)
        return SymArr(f(*ts))

    def __array_function__(self, func, types, args, kwargs):
        n = func.__name__
        if n in ("mean", "sum"):
            a = args[0] if isinstance(args[0], SymArr) else SymArr(unwrap(args[0]))
            return getattr(a, n)(*args[1:], **kwargs)
        if n == "result_type":
            return np.result_type(*[np_dtype(a) for a in args])
        if n == "square":
            return args[0] * args[0]
        if n == "can_cast":
            return np.can_cast(np_dtype(args[0]), *args[1:], **kwargs)
        if n == "issubdtype":
            return np.issubdtype(*args)
        if n in ("asarray", "array"):
            return args[0]
        raise Unsupported("numpy function " + n)


def arr(t):
    """symbolic or concrete numpy view of a tensor"""
    from .symten import SymTensor
    return SymArr(t) if isinstance(t, SymTensor) else t.detach().numpy()


def back(a):
    if isinstance(a, SymArr):
        return a.t
    return torch.as_tensor(np.asarray(a))
