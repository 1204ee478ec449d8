"""SymTensor: a torch.Tensor whose elements are solver terms.

The real PyTorch code of the repository runs unmodified on SymTensors; every ATen operator it
reaches is interpreted here element by element into z3 terms (autograd runs above this layer, so
gradients are the framework's own).  Output shapes, dtypes, strides and shape errors come from
PyTorch's own meta kernels.  Operators on tensors whose values are all concrete run natively.
"""
import contextlib
import math
import warnings
from fractions import Fraction

import numpy as np
import torch
import z3
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_map, tree_flatten

from . import elem as E
from .elem import Unsupported, is_sym

aten = torch.ops.aten

FLOATS = {torch.float16: 16, torch.bfloat16: 16, torch.float32: 32, torch.float64: 64}
INTS = {torch.uint8: (8, False), torch.int8: (8, True), torch.int16: (16, True), torch.int32: (32, True),
        torch.int64: (64, True)}


class State:
    mode = "real"  # or "fp"
    path = None  # explorer path object (has .branch(z3bool) and .fresh(...))
    active = False
    ops = set()


S = State()


def unary_ufunc(f):
    return np.frompyfunc(f, 1, 1)


class Store:
    __slots__ = ("conc", "sym", "dtype")

    def __init__(self, conc=None, sym=None, dtype=None):
        self.conc, self.sym, self.dtype = conc, sym, dtype

    def symbolise(self):
        if self.sym is None:
            self.sym = conc_to_elems(self.conc)
            self.conc = None
        return self.sym


def conc_to_elems(t):
    """flat numpy object array of elements of a concrete torch tensor"""
    out = np.empty(t.numel(), dtype=object)
    vals = t.detach().reshape(-1).tolist()
    if t.dtype in FLOATS:
        if S.mode == "real":
            vals = [E.to_frac(v) for v in vals]
    for i, v in enumerate(vals):
        out[i] = v
    return out


def elems_all_conc(arr):
    return not any(isinstance(v, z3.ExprRef) for v in arr.ravel())


class SymTensor(torch.Tensor):
    @staticmethod
    def __new__(cls, store, size, stride, offset, dtype, requires_grad=False):
        r = torch.Tensor._make_wrapper_subclass(
            cls, size, strides=stride, storage_offset=offset, dtype=dtype, device="cpu",
            requires_grad=requires_grad)
        r._store = store
        return r

    # ---- construction
    @staticmethod
    def from_elems(arr, dtype):
        arr = np.asarray(arr, dtype=object)
        shape = arr.shape
        flat = np.empty(arr.size, dtype=object)
        flat[:] = arr.reshape(-1)
        st = contiguous_strides(shape)
        return SymTensor(Store(sym=flat, dtype=dtype), shape, st, 0, dtype)

    @staticmethod
    def from_conc(t):
        t = t.detach()
        base = t.contiguous() if not t.is_contiguous() else t
        flat = base.reshape(-1)
        return SymTensor(Store(conc=flat.clone() if flat.numel() else flat, dtype=t.dtype), t.shape,
                         contiguous_strides(t.shape), 0, t.dtype)

    # ---- access
    @property
    def is_conc(self):
        return self._store.sym is None

    def elems(self):
        """numpy object view (aliases storage) of the elements"""
        s = self._store.symbolise()
        return np.lib.stride_tricks.as_strided(
            s[self.storage_offset():], shape=tuple(self.shape), strides=tuple(8 * k for k in self.stride()))

    def conc(self):
        return self._store.conc.as_strided(tuple(self.shape), tuple(self.stride()), self.storage_offset())

    # ---- python protocol
    def __repr__(self, **kw):
        if self.is_conc:
            return "SymTensor(conc %s)" % (self.conc(),)
        return "SymTensor(%s, %s)" % (tuple(self.shape), self.dtype)

    def __bool__(self):
        with torch.no_grad():
            if self.numel() != 1:
                raise RuntimeError("Boolean value of Tensor with %s values is ambiguous" % ("no" if self.numel() == 0 else "more than one"))
            if self.is_conc:
                return bool(self.conc())
            e = self.elems().reshape(-1)[0]
        return decide(truthy(e, self.dtype))

    def item(self):
        if self.numel() != 1:
            raise RuntimeError("a Tensor with %d elements cannot be converted to Scalar" % self.numel())
        if self.is_conc:
            return self.conc().item()
        e = self.elems().reshape(-1)[0]
        if not is_sym(e):
            return e if isinstance(e, (bool, int)) else float(e)
        if self.dtype == torch.bool:
            return decide(e)
        return self.reshape(())

    def tolist(self):
        if self.is_conc:
            return self.conc().tolist()
        if self.dim() == 0:
            return self.item()
        return [x.tolist() for x in self]

    def numpy(self, force=False):
        if self.is_conc:
            return self.conc().numpy()
        return np.array([self.reshape(-1)[i] if is_sym(v) else v for i, v in enumerate(self.elems().reshape(-1))] + [None], dtype=object)[:-1].reshape(tuple(self.shape))

    def __int__(self):
        return concretize_int(self)

    def __index__(self):
        return concretize_int(self)

    def __float__(self):
        v = self.item()
        if isinstance(v, SymTensor):
            c = S.path.unique_value(v.elems().reshape(-1)[0]) if S.path else None
            if c is None:
                raise Unsupported("float() of a symbolic value")
            return float(c)
        return float(v)

    @property
    def data(self):
        return self.detach()

    @data.setter
    def data(self, v):
        if not isinstance(v, SymTensor):
            v = from_conc_strided(v) if not v.is_contiguous() else SymTensor.from_conc(v)
        with torch._C.DisableTorchFunctionSubclass():
            torch.Tensor.data.__set__(self, v.detach())
        self._store = v._store

    def __format__(self, spec):
        return "<sym>"

    def __reduce_ex__(self, proto):
        raise Unsupported("pickle of symbolic tensor")

    def __deepcopy__(self, memo):
        r = self.detach().clone()
        if isinstance(self, torch.nn.Parameter) or getattr(self, "_is_param", False):
            r = torch.nn.Parameter(r, requires_grad=self.requires_grad)
        elif self.requires_grad:
            r.requires_grad_(True)
        return r

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        h = FUNC.get(func)
        if h is not None:
            return h(*args, **kwargs)
        with torch._C.DisableTorchFunctionSubclass():
            return func(*args, **kwargs)

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return run_op(func, args, kwargs or {})


FUNC = {}


def decide(cond):
    """resolve a boolean element to a Python bool by forking the path"""
    if not is_sym(cond):
        return bool(cond)
    if S.path is None:
        raise Unsupported("symbolic branch outside an exploration")
    return S.path.branch(cond)


def concretize_int(t):
    if t.is_conc:
        return int(t.conc())
    e = t.elems().reshape(-1)[0]
    if not is_sym(e):
        return int(e)
    if t.dtype in FLOATS:
        e = to_int_elem(e, t.dtype)
        if not is_sym(e):
            return int(e)
    return S.path.pick_int(E.I(e))


def truthy(e, dtype):
    if not is_sym(e):
        return bool(e)
    if z3.is_bool(e):
        return e
    if z3.is_fp(e):
        return z3.Not(z3.fpIsZero(e))
    return e != 0


def contiguous_strides(shape):
    st, acc = [], 1
    for d in reversed(tuple(shape)):
        st.append(acc)
        acc *= max(int(d), 1)
    return tuple(reversed(st))


# ------------------------------------------------------------------------------------------
def meta_of(t):
    """a meta tensor with the same geometry"""
    with torch.no_grad():
        size, stride, off = tuple(t.shape), tuple(t.stride()), t.storage_offset()
        n = off + (sum((s - 1) * k for s, k in zip(size, stride)) + 1 if t.numel() else 0)
        if isinstance(t, SymTensor):
            n = max(n, len(t._store.sym) if t._store.sym is not None else t._store.conc.numel())
        base = torch.empty((n,), dtype=t.dtype, device="meta")
        return base.as_strided(size, stride, off)


def elems_of(x, dtype=None):
    """numpy object array of any tensor / scalar argument"""
    if isinstance(x, SymTensor):
        if x.is_conc:
            return conc_to_elems(x.conc()).reshape(tuple(x.shape))
        return x.elems()
    if isinstance(x, torch.Tensor):
        return conc_to_elems(x).reshape(tuple(x.shape))
    if isinstance(x, (bool, int)):
        v = x
    elif isinstance(x, float):
        v = E.to_frac(x) if S.mode == "real" else x
    elif isinstance(x, Fraction) or is_sym(x):
        v = x
    else:
        raise Unsupported("scalar %r" % (type(x),))
    a = np.empty((), dtype=object)
    a[()] = v
    return a


def wrap(arr, dtype, like_meta=None):
    arr = np.asarray(arr, dtype=object)
    t = SymTensor.from_elems(arr, dtype)
    if like_meta is not None and tuple(like_meta.stride()) != tuple(t.stride()) and t.numel() > 1:
        # honour a non-contiguous (dense) output layout
        perm_stride = tuple(like_meta.stride())
        n = sum((s - 1) * k for s, k in zip(arr.shape, perm_stride)) + 1
        if n == arr.size:
            flat = np.empty(n, dtype=object)
            v = np.lib.stride_tricks.as_strided(flat, shape=arr.shape, strides=tuple(8 * k for k in perm_stride))
            v[...] = arr
            return SymTensor(Store(sym=flat, dtype=dtype), arr.shape, perm_stride, 0, dtype)
    return t


def cast_elem(e, src, dst):
    if src == dst:
        return e
    if dst == torch.bool:
        return truthy(e, src) if is_sym(e) else bool(e)
    if dst in FLOATS:
        if S.mode == "fp":
            if is_sym(e):
                return E.F(e, FLOATS[dst])
            return fp_round(float(e), FLOATS[dst])
        if src in FLOATS:
            return e
        if is_sym(e):
            return E.R(e)
        return int(e)
    bits, sg = INTS[dst]
    if src == torch.bool:
        return E.I(e) if is_sym(e) else int(e)
    if src in FLOATS:
        if is_sym(e) and z3.is_fp(e) and bits <= 32:
            return to_int_elem(e, src, (bits, sg))
        e = to_int_elem(e, src)
        if is_sym(e):
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
            if bits < 64:
                E.obligation("float->int%d cast in range" % bits, z3.And(e >= lo, e <= hi))
        return E.wrap_int(e, bits, sg)
    if is_sym(e) and src in INTS:
        sb, ss = INTS[src]
        if (bits > sb and (sg or not ss)) or (bits == sb and sg == ss):
            return e
    return E.wrap_int(e, bits, sg)


def to_int_elem(e, src, bits=None):
    if not is_sym(e):
        return E.trunc_int(E.to_frac(e))
    if z3.is_fp(e) and bits is not None:
        # 40-bit two's complement holds every value of the narrow integer types; larger magnitudes are out of range
        # for the cast (undefined in C), which the obligation records
        b = z3.fpToSBV(z3.RTZ(), e, z3.BitVecSort(40))
        bits_, sg = bits
        lo, hi = (-(1 << (bits_ - 1)), (1 << (bits_ - 1)) - 1) if sg else (0, (1 << bits_) - 1)
        E.obligation("float->int cast in range", z3.And(b >= lo, b <= hi))
        return E.bvint(z3.Extract(bits_ - 1, 0, b), sg)
    if z3.is_fp(e):
        # exact: value of fp -> real -> truncated int
        return E.trunc_int(z3.fpToReal(z3.fpRoundToIntegral(z3.RTZ(), e)))
    return E.trunc_int(e)


def fp_round(v, bits):
    if bits == 64 or math.isinf(v) or math.isnan(v):
        return v
    with np.errstate(all="ignore"):
        return float(np.float32(v)) if bits == 32 else float(np.float16(v))


def cast_arr(arr, src, dst):
    if src == dst:
        return arr
    return np.frompyfunc(lambda e: cast_elem(e, src, dst), 1, 1)(arr) if arr.size else arr.astype(object)


def norm_int_result(arr, dtype):
    """integer results wrap to their width (only narrower than 64 bits)"""
    bits, sg = INTS[dtype]
    if bits >= 64:
        return arr
    return np.frompyfunc(lambda e: E.wrap_int(e, bits, sg), 1, 1)(arr)


# -------------------------------------- kernels -------------------------------------------
# pointwise kernels: name -> (real function, fp function(bits) or None)

def fbin(zop, npop):
    def mk(bits):
        def f(a, b):
            if not is_sym(a) and not is_sym(b):
                with np.errstate(all="ignore"):
                    t = {16: np.float16, 32: np.float32, 64: np.float64}[bits]
                    return float(npop(t(a), t(b)))
            return zop(E.F(a, bits), E.F(b, bits))
        return f
    return mk


def fun(zop, npop):
    def mk(bits):
        def f(a):
            if not is_sym(a):
                with np.errstate(all="ignore"):
                    t = {16: np.float16, 32: np.float32, 64: np.float64}[bits]
                    return float(npop(t(a)))
            return zop(E.F(a, bits))
        return f
    return mk


def fcmp(zop, pop):
    def mk(bits):
        def f(a, b):
            if not is_sym(a) and not is_sym(b):
                return bool(pop(a, b))
            return zop(E.F(a, bits), E.F(b, bits))
        return f
    return mk


def fmax_(bits):
    def f(a, b):
        if not is_sym(a) and not is_sym(b):
            return float("nan") if (a != a or b != b) else max(a, b)
        a, b = E.F(a, bits), E.F(b, bits)
        return z3.If(z3.fpIsNaN(a), a, z3.If(z3.fpIsNaN(b), b, z3.If(z3.fpGEQ(a, b), a, b)))
    return f


def fmin_(bits):
    def f(a, b):
        if not is_sym(a) and not is_sym(b):
            return float("nan") if (a != a or b != b) else min(a, b)
        a, b = E.F(a, bits), E.F(b, bits)
        return z3.If(z3.fpIsNaN(a), a, z3.If(z3.fpIsNaN(b), b, z3.If(z3.fpLEQ(a, b), a, b)))
    return f


def fite(bits):
    def f(c, a, b):
        if not is_sym(c):
            return a if c else b
        return z3.If(c, E.F(a, bits), E.F(b, bits))
    return f


def fuf(name):
    """transcendental in FP mode: uninterpreted over FP (functional consistency only)"""
    def mk(bits):
        s = E.fsort(bits)
        g = z3.Function("fpuf_%s%d" % (name, bits), s, s)
        tf = getattr(torch, name)
        def f(a):
            if not is_sym(a):
                return float(tf(torch.tensor(a, dtype={16: torch.float16, 32: torch.float32, 64: torch.float64}[bits])))
            return g(E.F(a, bits))
        return f
    return mk


def fsign(bits):
    def f(a):
        if not is_sym(a):
            return float((a > 0) - (a < 0))
        a = E.F(a, bits)
        return z3.If(z3.fpGT(a, E.F(0.0, bits)), E.F(1.0, bits), z3.If(z3.fpLT(a, E.F(0.0, bits)), E.F(-1.0, bits), E.F(0.0, bits)))
    return f


def fremainder(bits):
    # torch.remainder float: fmod then sign fix
    def f(a, b):
        if not is_sym(a) and not is_sym(b):
            t = {16: torch.float16, 32: torch.float32, 64: torch.float64}[bits]
            return float(torch.remainder(torch.tensor(a, dtype=t), torch.tensor(b, dtype=t)))
        raise Unsupported("symbolic fp remainder")
    return f


def ffmod(bits):
    """fmod in FP mode: uninterpreted (over-approximation, same arguments give the same result)"""
    s = E.fsort(bits)
    g = z3.Function("fpuf_fmod%d" % bits, s, s, s)

    def f(a, b):
        if not is_sym(a) and not is_sym(b):
            return math.fmod(a, b)
        return g(E.F(a, bits), E.F(b, bits))
    return f


def r_log1p(a):
    return E.trans("log", E.add(1, a)) if is_sym(a) or not E.special(a) else math.log1p(a)


LOG2 = Fraction(math.log(2))
LOG10 = Fraction(math.log(10))


def r_log2(a):
    return E.div(E.trans("log", a), LOG2)


def r_log10(a):
    return E.div(E.trans("log", a), LOG10)


def r_expm1(a):
    return E.sub(E.trans("exp", a), 1)


def r_softplus(a, beta=1, threshold=20):
    ab = E.mul(a, beta)
    return E.ite(E.lt(threshold, ab), a, E.div(E.trans("log", E.add(1, E.trans("exp", ab))), beta))


def r_gelu(a):
    return E.mul(E.mul(a, Fraction(1, 2)), E.add(1, E.trans("erf", E.mul(a, Fraction(math.sqrt(0.5))))))


ARITH = {
    "add": (E.add, fbin(lambda a, b: z3.fpAdd(E.RNE, a, b), np.add)),
    "sub": (E.sub, fbin(lambda a, b: z3.fpSub(E.RNE, a, b), np.subtract)),
    "mul": (E.mul, fbin(lambda a, b: z3.fpMul(E.RNE, a, b), np.multiply)),
    "div": (E.div, fbin(lambda a, b: z3.fpDiv(E.RNE, a, b), np.divide)),
    "maximum": (E.maximum, fmax_),
    "minimum": (E.minimum, fmin_),
    "fmax": (E.maximum, fmax_),
    "fmin": (E.minimum, fmin_),
    "atan2": (E.atan2, None),
    "remainder": (E.remainder, fremainder),
    "fmod": (E.fmod, lambda bits: ffmod(bits)),
    "floor_divide": (E.floordiv, None),
    "pow": (E.rpow, None),
}
CMP = {
    "lt": (E.lt, fcmp(z3.fpLT, lambda a, b: a < b)),
    "le": (E.le, fcmp(z3.fpLEQ, lambda a, b: a <= b)),
    "gt": (lambda a, b: E.lt(b, a), fcmp(z3.fpGT, lambda a, b: a > b)),
    "ge": (lambda a, b: E.le(b, a), fcmp(z3.fpGEQ, lambda a, b: a >= b)),
    "eq": (E.eq, fcmp(z3.fpEQ, lambda a, b: a == b)),
    "ne": (E.ne, fcmp(z3.fpNEQ, lambda a, b: a != b)),
}
UNARY = {
    "neg": (E.neg, fun(z3.fpNeg, np.negative)),
    "abs": (E.rabs, fun(z3.fpAbs, np.abs)),
    "sign": (E.sign, fsign),
    "sgn": (E.sign, fsign),
    "floor": (E.floor, fun(lambda a: z3.fpRoundToIntegral(z3.RTN(), a), np.floor)),
    "ceil": (E.ceil, fun(lambda a: z3.fpRoundToIntegral(z3.RTP(), a), np.ceil)),
    "trunc": (E.trunc, fun(lambda a: z3.fpRoundToIntegral(z3.RTZ(), a), np.trunc)),
    "round": (E.round_he, fun(lambda a: z3.fpRoundToIntegral(z3.RNE(), a), np.round)),
    "frac": (lambda a: E.sub(a, E.trunc(a)), None),
    "sqrt": (E.sqrt, fun(lambda a: z3.fpSqrt(E.RNE, a), np.sqrt)),
    "rsqrt": (lambda a: E.div(1, E.sqrt(a)), None),
    "reciprocal": (lambda a: E.div(1, a), None),
    "square": (lambda a: E.mul(a, a), None),
    "exp": (lambda a: E.trans("exp", a), fuf("exp")),
    "log": (lambda a: E.trans("log", a), fuf("log")),
    "log2": (r_log2, fuf("log2")),
    "log10": (r_log10, fuf("log10")),
    "log1p": (r_log1p, fuf("log1p")),
    "expm1": (r_expm1, fuf("expm1")),
    "exp2": (lambda a: E.trans("exp", E.mul(a, LOG2)), fuf("exp2")),
    "tanh": (lambda a: E.trans("tanh", a), fuf("tanh")),
    "atanh": (lambda a: E.trans("atanh", a), fuf("atanh")),
    "erf": (lambda a: E.trans("erf", a), fuf("erf")),
    "erfc": (lambda a: E.sub(1, E.trans("erf", a)), fuf("erfc")),
    "erfinv": (lambda a: E.trans("erfinv", a), fuf("erfinv")),
    "sigmoid": (lambda a: E.trans("sigmoid", a), fuf("sigmoid")),
    "sin": (lambda a: E.trans("sin", a), fuf("sin")),
    "cos": (lambda a: E.trans("cos", a), fuf("cos")),
    "relu": (lambda a: E.maximum(a, 0), lambda bits: (lambda a: fmax_(bits)(a, 0.0))),
    "silu": (lambda a: E.mul(a, E.trans("sigmoid", a)), None),
    "log_sigmoid_forward": (None, None),
}
REAL_BOOLS = {
    "isnan": (lambda a: False if is_sym(a) else (isinstance(a, float) and math.isnan(a)),
              lambda bits: lambda a: z3.fpIsNaN(a) if is_sym(a) and z3.is_fp(a) else (not is_sym(a) and float(a) != float(a))),
    "isinf": (lambda a: False if is_sym(a) else (isinstance(a, float) and math.isinf(a)),
              lambda bits: lambda a: z3.fpIsInf(a) if is_sym(a) and z3.is_fp(a) else (not is_sym(a) and math.isinf(float(a)))),
    "isfinite": (lambda a: True if is_sym(a) else not E.special(a),
                 lambda bits: lambda a: z3.Not(z3.Or(z3.fpIsNaN(a), z3.fpIsInf(a))) if is_sym(a) and z3.is_fp(a) else (is_sym(a) or math.isfinite(float(a)))),
}


def kern(table, name, dtype):
    real, fp = table[name]
    if S.mode == "fp" and dtype in FLOATS:
        if fp is None:
            raise Unsupported("no FP kernel for " + name)
        return fp(FLOATS[dtype])
    return real


def bc(f, *arrs):
    n = len(arrs)
    r = np.frompyfunc(f, n, 1)(*arrs)
    if not isinstance(r, np.ndarray):
        a = np.empty((), dtype=object)
        a[()] = r
        return a
    return r


def dtype_of(x):
    if isinstance(x, torch.Tensor):
        return x.dtype
    if isinstance(x, bool):
        return torch.bool
    if isinstance(x, int):
        return torch.int64
    return torch.float64


def op_name(func):
    return func._schema.name.split("::")[1], func._overloadname


OPS = {}


def op(*names):
    def deco(f):
        for n in names:
            OPS[n] = f
        return f
    return deco


# ops that only move elements (no arithmetic): executed on element ids by the real kernel
MOVE = {
    "cat", "stack", "flip", "roll", "repeat", "constant_pad_nd", "reflection_pad1d", "reflection_pad2d",
    "reflection_pad3d", "replication_pad1d", "replication_pad2d", "replication_pad3d", "clone", "im2col",
    "pixel_shuffle", "pixel_unshuffle", "channel_shuffle", "tril", "triu", "diag_embed", "upsample_nearest2d",
    "upsample_nearest1d", "upsample_nearest3d", "_upsample_nearest_exact2d", "index_select", "contiguous", "rot90",
    "repeat_interleave", "unfold_copy", "select_copy", "slice_copy", "permute_copy", "select_scatter", "slice_scatter",
    "diagonal_scatter", "as_strided_scatter", "slice_backward_", "_reshape_copy", "view_copy", "expand_copy",
    "split_copy", "split_with_sizes_copy", "unbind_copy", "block_diag", "take", "max_unpool2d", "lift_fresh_copy",
    "diagonal_copy", "masked_select_conc", "hstack", "resolve_conj", "resolve_neg", "kthvalue_never", "alias_copy",
    "cartesian_prod", "tile", "unflatten_copy", "diagonal", "narrow_copy", "col2im_never", "permute", "index_conc",
    "gather", "index", "scatter_move", "roll",
}

RANDOM = {"rand", "randn", "uniform_", "normal_", "bernoulli", "bernoulli_", "rand_like", "randn_like", "normal",
          "randint", "randint_like", "randperm", "multinomial", "exponential_", "random_", "native_dropout", "poisson"}

FACTORY = {"zeros", "ones", "empty", "full", "arange", "eye", "linspace", "empty_strided", "scalar_tensor", "new_empty",
           "new_zeros", "new_ones", "new_full", "zeros_like", "ones_like", "full_like", "empty_like", "tril_indices",
           "triu_indices", "empty_permuted", "new_empty_strided", "lift_fresh", "logspace", "hann_window"}


def is_view_op(func):
    """outputs alias an input without writing"""
    sch = func._schema
    for r in sch.returns:
        if r.alias_info is not None and not r.alias_info.is_write:
            return True
    return False


def is_inplace(func):
    sch = func._schema
    return any(a.alias_info is not None and a.alias_info.is_write for a in sch.arguments)


def sym_args(args, kwargs):
    flat, _ = tree_flatten((args, kwargs))
    return [a for a in flat if isinstance(a, SymTensor)]


def run_op(func, args, kwargs):
    name, ov = op_name(func)
    S.ops.add(name)
    syms = sym_args(args, kwargs)
    if func is aten._local_scalar_dense.default:
        t = args[0]
        if t.is_conc:
            return t.conc().item()
        e = t.elems().reshape(-1)[0]
        if not is_sym(e):
            return e if isinstance(e, (bool, int)) else float(e)
        if t.dtype == torch.bool:
            return decide(e)
        if t.dtype in INTS:
            return concretize_int(t)
        c = S.path.unique_value(e) if S.path else None
        if c is not None:
            return float(c)
        raise Unsupported("scalar extraction of a symbolic float (%s)" % name)
    if name in ("detach", "alias", "detach_", "lift_fresh") and isinstance(args[0], SymTensor):
        t = args[0]
        return SymTensor(t._store, tuple(t.shape), tuple(t.stride()), t.storage_offset(), t.dtype)
    if name in RANDOM:
        h = OPS.get(name)
        if h is not None:
            return h(func, args, kwargs)
        raise Unsupported("random op " + name)
    if is_view_op(func) and isinstance(args[0], SymTensor):
        return run_view(func, args, kwargs)
    if name == "_to_copy" and isinstance(args[0], SymTensor):
        return do_to_copy(func, args, kwargs)
    # everything concrete: run the real kernel
    if all(s.is_conc for s in syms):
        return run_conc(func, args, kwargs)
    if is_inplace(func):
        return run_inplace(func, name, ov, args, kwargs)
    if name in FACTORY:
        if name in ("full_like", "new_full") and isinstance(args[2 if name == "new_full" else 1], SymTensor):
            raise Unsupported("symbolic fill value")
        return run_factory(func, args, kwargs)
    h = OPS.get(name + "." + ov) or OPS.get(name)
    if h is not None:
        r = h(func, args, kwargs)
        if r is not NotImplemented:
            return r
    r = pointwise(func, name, ov, args, kwargs)
    if r is not NotImplemented:
        return r
    if name in MOVE:
        r = run_move(func, args, kwargs)
        if r is not NotImplemented:
            return r
    d = DECOMP.get(func)
    if d is not None:
        return d(*args, **kwargs)
    if func.has_kernel_for_dispatch_key(torch._C.DispatchKey.CompositeImplicitAutograd):
        return func.decompose(*args, **kwargs)
    raise Unsupported("operator %s.%s" % (name, ov))


from torch._decomp import decomposition_table as DECOMP  # noqa: E402


def run_factory(func, args, kwargs):
    """factory whose symbolic argument only supplies geometry"""
    a = tree_map(lambda x: meta_of(x) if isinstance(x, SymTensor) else x, args)
    kw = dict(tree_map(lambda x: meta_of(x) if isinstance(x, SymTensor) else x, kwargs))
    if kw.get("device") is None:
        pass
    kw.pop("pin_memory", None)
    kw["device"] = torch.device("cpu")
    r = func(*a, **kw)
    if op_name(func)[0] in ("empty_like", "new_empty", "empty", "empty_strided", "new_empty_strided") and r.dtype in FLOATS:
        r.fill_(float("nan"))
    return SymTensor.from_conc(r) if r.is_contiguous() else from_conc_strided(r)


def from_conc_strided(r):
    n = sum((s - 1) * k for s, k in zip(r.shape, r.stride())) + 1 if r.numel() else 0
    base = torch.empty(n, dtype=r.dtype)
    v = base.as_strided(tuple(r.shape), tuple(r.stride()), 0)
    v.copy_(r)
    return SymTensor(Store(conc=base, dtype=r.dtype), r.shape, r.stride(), 0, r.dtype)


def run_conc(func, args, kwargs):
    a = tree_map(lambda x: x.conc() if isinstance(x, SymTensor) else x, args)
    kw = tree_map(lambda x: x.conc() if isinstance(x, SymTensor) else x, kwargs)
    sch = func._schema
    r = func(*a, **kw)
    if is_inplace(func):
        # return the written argument(s)
        outs = []
        for i, arg in enumerate(sch.arguments):
            if arg.alias_info is not None and arg.alias_info.is_write:
                v = args[i] if i < len(args) else kwargs.get(arg.name)
                outs.append(v)
        if not sch.returns:
            return None
        return outs[0] if len(outs) == 1 else tuple(outs)
    return tree_map(lambda x: (from_conc_strided(x) if not x.is_contiguous() else SymTensor.from_conc(x))
                    if isinstance(x, torch.Tensor) and not isinstance(x, SymTensor) else x, r)


def run_view(func, args, kwargs):
    t = args[0]
    m = meta_of(t)
    a = tree_map(lambda x: meta_of(x) if isinstance(x, SymTensor) else x, args[1:])
    r = func(m, *a, **kwargs)
    if op_name(func)[0] == "_unsafe_view":
        pass
    def mk(x):
        if not isinstance(x, torch.Tensor):
            return x
        if x.dtype != t.dtype:
            raise Unsupported("bit-casting view")
        return SymTensor(t._store, tuple(x.shape), tuple(x.stride()), x.storage_offset(), t.dtype)
    return tree_map(mk, r)


def do_to_copy(func, args, kwargs):
    t = args[0]
    if t.is_conc:
        return run_conc(func, args, {k: v for k, v in kwargs.items() if k != "pin_memory"})
    dst = kwargs.get("dtype") or t.dtype
    m = meta_of(t).to(dst)
    return wrap(cast_arr(t.elems().copy(), t.dtype, dst), dst, m)


INPLACE_BASE = {}


def run_inplace(func, name, ov, args, kwargs):
    sch = func._schema
    tgt_i = [i for i, a in enumerate(sch.arguments) if a.alias_info is not None and a.alias_info.is_write]
    if len(tgt_i) != 1:
        raise Unsupported("multi-output inplace " + name)
    ti = tgt_i[0]
    if ti >= len(args) or sch.arguments[ti].kwarg_only:
        # out= variant
        out = kwargs.get(sch.arguments[ti].name)
        kw = {k: v for k, v in kwargs.items() if k != sch.arguments[ti].name}
        base = getattr(getattr(aten, name), "default" if ov == "out" else ov.replace("_out", ""))
        r = run_op(base, args, kw)
        write(out, r)
        return out
    tgt = args[ti]
    if name == "copy_":
        src = args[1]
        write(tgt, src)
        return tgt
    if name in ("zero_",):
        write(tgt, torch.zeros((), dtype=tgt.dtype))
        return tgt
    if name in ("fill_",):
        v = args[1]
        write(tgt, v if isinstance(v, torch.Tensor) else torch.tensor(v, dtype=tgt.dtype))
        return tgt
    if name in ("resize_", "set_"):
        raise Unsupported(name)
    if name in ("squeeze_", "unsqueeze_", "transpose_", "t_", "as_strided_", "swapdims_"):
        raise Unsupported("in-place view " + name)
    if name == "_index_put_impl_":
        name, ov = "index_put_", "default"
        args = args[:4]
    base_name = name[:-1] if name.endswith("_") else name
    pk = getattr(aten, base_name, None)
    if pk is None:
        d = DECOMP.get(func)
        if d is not None:
            return d(*args, **kwargs)
        raise Unsupported("inplace " + name)
    base = getattr(pk, ov, None) or getattr(pk, "default", None)
    r = run_op(base, args, kwargs)
    write(tgt, r)
    return tgt


def write(tgt, src):
    """tgt.copy_(src) with broadcasting"""
    if not isinstance(tgt, SymTensor):
        # a plain tensor created outside the symbolic mode
        if isinstance(src, SymTensor) and not src.is_conc and not elems_all_conc(src.elems()):
            raise Unsupported("symbolic write into a plain tensor")
        tgt.copy_(src.conc() if isinstance(src, SymTensor) else src)
        return
    if tgt.is_conc and (not isinstance(src, SymTensor) or src.is_conc):
        tgt.conc().copy_(src.conc() if isinstance(src, SymTensor) else src)
        return
    arr = cast_arr(elems_of(src).copy(), src.dtype, tgt.dtype)
    e = tgt.elems()
    e[...] = np.broadcast_to(arr, e.shape)


def meta_run(func, args, kwargs):
    def mk(x):
        if isinstance(x, torch.Tensor):
            if x.dim() == 0 and getattr(x, "_wrapped_number", False):
                return x
            return meta_of(x)
        return x
    kw = dict(tree_map(mk, kwargs))
    if "device" in kw:
        kw["device"] = torch.device("meta")
    return func(*tree_map(mk, args), **kw)


def run_move(func, args, kwargs):
    """run the real kernel on element ids (float64), map ids back to elements"""
    pool = []
    def ids(x):
        if isinstance(x, torch.Tensor):
            if isinstance(x, SymTensor) and not x.is_conc:
                arr = x.elems()
            elif x.dtype in FLOATS or x.dtype == torch.bool or x.dtype in INTS:
                arr = elems_of(x)
            base = len(pool)
            pool.extend(arr.reshape(-1))
            t = torch.arange(base, base + arr.size, dtype=torch.float64).reshape(arr.shape)
            return t
        return x
    name, ov = op_name(func)
    # constants used as fill become ids as well
    fill = {}
    a = list(args)
    kw = dict(kwargs)
    if name == "constant_pad_nd":
        v = a[2] if len(a) > 2 else kw.pop("value", 0)
        pool.append(scalar_elem(v, args[0].dtype))
        fid = float(0)
        a = [ids(a[0]), a[1], fid]
    elif name in ("tril", "triu", "diag_embed", "slice_backward", "select_scatter", "block_diag"):
        pool.append(scalar_elem(0, args[0].dtype))
        a = tree_map(ids, a)
    elif name in ("index_select", "gather", "index", "take"):
        # index arguments must be concrete
        idx = a[2] if name in ("index_select", "gather") else a[1]
        flat = [i for i in (idx if isinstance(idx, (list, tuple)) else [idx]) if i is not None]
        for i in flat:
            if isinstance(i, SymTensor) and not i.is_conc:
                if elems_all_conc(i.elems()):
                    continue
                return NotImplemented
        def conc_idx(i):
            if isinstance(i, SymTensor):
                return elems_to_conc(i)
            return i
        if name in ("index_select", "gather"):
            a = [ids(a[0]), a[1], conc_idx(a[2])] + ([a[3]] if len(a) > 3 else [])
        else:
            a = [ids(a[0]), [conc_idx(i) if i is not None else None for i in idx] if isinstance(idx, (list, tuple)) else conc_idx(idx)]
    else:
        a = tree_map(ids, a)
        kw = tree_map(ids, kw)
    m = func(*a, **kw)
    dts = [x.dtype for x in tree_flatten((args, kwargs))[0] if isinstance(x, torch.Tensor)]
    dt = dts[0]
    if name in ("cat", "stack", "hstack", "block_diag") and len(set(dts)) > 1:
        for d in dts[1:]:
            dt = torch.promote_types(dt, d)
        flat = [x for x in tree_flatten((args, kwargs))[0] if isinstance(x, torch.Tensor)]
        newpool, k = [], len(pool) - sum(x.numel() for x in flat)
        newpool = pool[:k]
        for x in flat:
            newpool.extend(cast_elem(e, x.dtype, dt) for e in pool[k:k + x.numel()])
            k += x.numel()
        pool = newpool
    parr = np.empty(len(pool), dtype=object)
    for i, v in enumerate(pool):
        parr[i] = v
    def back(x):
        if not isinstance(x, torch.Tensor):
            return x
        idx = x.to(torch.int64).numpy()
        r = parr[idx] if idx.ndim else np.array([parr[int(idx)]] + [None], dtype=object)[:1].reshape(())
        return wrap(r, dt, x)
    return tree_map(back, m)


def elems_to_conc(t):
    if t.is_conc:
        return t.conc()
    arr = t.elems()
    return torch.tensor([float(v) if t.dtype in FLOATS else v for v in arr.reshape(-1)], dtype=t.dtype).reshape(arr.shape)


def scalar_elem(v, dtype):
    if isinstance(v, torch.Tensor):
        v = elems_of(v).reshape(-1)[0]
        if is_sym(v):
            return v
    if dtype == torch.bool:
        return bool(v)
    if dtype in FLOATS:
        if S.mode == "real":
            return E.to_frac(v)
        return fp_round(float(v), FLOATS[dtype])
    return int(v)


# ------------------------------------ pointwise -------------------------------------------
def pointwise(func, name, ov, args, kwargs):
    if name in ("add", "sub", "rsub") and ov in ("Tensor", "Scalar"):
        a, b = args[0], args[1]
        alpha = kwargs.get("alpha", args[2] if len(args) > 2 else 1)
        m = meta_run(func, args, kwargs)
        return binop("sub" if name != "add" else "add", b if name == "rsub" else a, a if name == "rsub" else b, m, alpha,
                     swap_alpha=(name == "rsub"))
    if name in ARITH and len(args) == 2 and not kwargs:
        return binop(name, args[0], args[1], meta_run(func, args, kwargs))
    if name == "div" and kwargs.get("rounding_mode"):
        m = meta_run(func, args, kwargs)
        rm = kwargs["rounding_mode"]
        dt = m.dtype
        a = cast_arr(elems_of(args[0]), dtype_of(args[0]), dt)
        b = cast_arr(elems_of(args[1]), dtype_of(args[1]), dt)
        if S.mode == "fp" and dt in FLOATS:
            q = bc(kern(ARITH, "div", dt), a, b)
            return wrap(bc(kern(UNARY, "floor" if rm == "floor" else "trunc", dt), q), dt, m)
        return wrap(bc(E.floordiv if rm == "floor" else E.truncdiv, a, b), dt, m)
    if name in CMP and len(args) == 2:
        m = meta_run(func, args, kwargs)
        ct = result_type(args[0], args[1])
        a = cast_arr(elems_of(args[0]), dtype_of(args[0]), ct) if not scalar_keep(args[0], ct) else elems_of(args[0])
        b = cast_arr(elems_of(args[1]), dtype_of(args[1]), ct) if not scalar_keep(args[1], ct) else elems_of(args[1])
        return wrap(bc(kern(CMP, name, ct), a, b), torch.bool, m)
    if name in UNARY and len(args) == 1:
        m = meta_run(func, args, kwargs)
        dt = m.dtype
        a = cast_arr(elems_of(args[0]), args[0].dtype, dt)
        k = kern(UNARY, name, dt)
        r = bc(k, a)
        if dt in INTS:
            r = norm_int_result(r, dt)
        return wrap(r, dt, m)
    if name in REAL_BOOLS:
        m = meta_run(func, args, kwargs)
        return wrap(bc(kern(REAL_BOOLS, name, args[0].dtype), elems_of(args[0])), torch.bool, m)
    return NotImplemented


def scalar_keep(x, ct):
    return False


def result_type(a, b):
    def mk(x):
        if isinstance(x, torch.Tensor):
            return torch.empty(x.shape if x.dim() == 0 else (1,), dtype=x.dtype, device="meta") if x.dim() else torch.empty((), dtype=x.dtype)
        return x
    a_, b_ = mk(a), mk(b)
    if isinstance(a_, torch.Tensor) and a_.device.type != "meta":
        a_ = a_.to("meta")
    if isinstance(b_, torch.Tensor) and b_.device.type != "meta":
        b_ = b_.to("meta")
    return torch.result_type(a_, b_)


def binop(name, a, b, m, alpha=1, swap_alpha=False):
    dt = m.dtype
    k = kern(ARITH, name, dt)
    ea = cast_arr(elems_of(a), dtype_of(a), dt) if dt != torch.bool else elems_of(a)
    eb = cast_arr(elems_of(b), dtype_of(b), dt) if dt != torch.bool else elems_of(b)
    if dt == torch.bool:
        if name in ("add", "maximum"):
            return wrap(bc(lambda x, y: E.bor(x, y), ea, eb), dt, m)
        if name in ("mul", "minimum"):
            return wrap(bc(lambda x, y: E.band(x, y), ea, eb), dt, m)
        raise Unsupported("bool " + name)
    if alpha != 1:
        al = scalar_elem(alpha, dt)
        mu = kern(ARITH, "mul", dt)
        if swap_alpha:
            eb = bc(lambda y: mu(y, al), eb)
        else:
            eb = bc(lambda y: mu(y, al), eb)
    r = bc(k, ea, eb)
    if dt in INTS:
        r = norm_int_result(r, dt)
    return wrap(r, dt, m)


def mkite(dtype):
    if S.mode == "fp" and dtype in FLOATS:
        return fite(FLOATS[dtype])
    return E.ite


@op("where")
def _where(func, args, kwargs):
    c, a, b = args
    m = meta_run(func, args, kwargs)
    dt = m.dtype
    f = mkite(dt)
    return wrap(bc(f, cast_arr(elems_of(c), c.dtype, torch.bool), cast_arr(elems_of(a), dtype_of(a), dt), cast_arr(elems_of(b), dtype_of(b), dt)), dt, m)


@op("clamp", "clamp_min", "clamp_max", "hardtanh")
def _clamp(func, args, kwargs):
    name, ov = op_name(func)
    m = meta_run(func, args, kwargs)
    dt = m.dtype
    x = cast_arr(elems_of(args[0]), args[0].dtype, dt)
    if name == "clamp":
        lo = args[1] if len(args) > 1 else kwargs.get("min")
        hi = args[2] if len(args) > 2 else kwargs.get("max")
    elif name == "hardtanh":
        lo = args[1] if len(args) > 1 else kwargs.get("min_val", -1.0)
        hi = args[2] if len(args) > 2 else kwargs.get("max_val", 1.0)
    else:
        v = args[1] if len(args) > 1 else (kwargs.get("min") if name == "clamp_min" else kwargs.get("max"))
        lo, hi = (v, None) if name == "clamp_min" else (None, v)
    if lo is not None:
        x = bc(kern(ARITH, "maximum", dt), x, cast_arr(elems_of(lo), dtype_of(lo), dt))
    if hi is not None:
        x = bc(kern(ARITH, "minimum", dt), x, cast_arr(elems_of(hi), dtype_of(hi), dt))
    return wrap(x, dt, m)


@op("masked_fill")
def _masked_fill(func, args, kwargs):
    x, mask, v = args
    m = meta_run(func, args, kwargs)
    dt = m.dtype
    return wrap(bc(mkite(dt), elems_of(mask), cast_arr(elems_of(v), dtype_of(v), dt), elems_of(x)), dt, m)


@op("logical_and", "logical_or", "logical_xor", "logical_not", "bitwise_and", "bitwise_or", "bitwise_xor", "bitwise_not",
    "__and__", "__or__", "__xor__")
def _logical(func, args, kwargs):
    name, ov = op_name(func)
    m = meta_run(func, args, kwargs)
    if name.startswith(("bitwise", "__")) and m.dtype != torch.bool:
        raise Unsupported("integer " + name)
    es = [cast_arr(elems_of(a), dtype_of(a), torch.bool) for a in args]
    f = {"and": E.band, "or": E.bor, "xor": E.bxor, "not": E.bnot}[name.split("_")[-1] if "__" not in name else name.strip("_")]
    return wrap(bc(f, *es), torch.bool, m)


def norm_dims(dim, nd):
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        return tuple(range(nd))
    if isinstance(dim, int):
        dim = [dim]
    return tuple(sorted(d % nd if nd else 0 for d in dim)) if nd else ()


def reduce_arr(f, arr, dims, keep, init=None):
    """fold f over dims"""
    nd = arr.ndim
    keepdims = [d for d in range(nd) if d not in dims]
    a = np.transpose(arr, keepdims + list(dims)).reshape([arr.shape[d] for d in keepdims] + [-1])
    out = np.empty(a.shape[:-1], dtype=object)
    for idx in np.ndindex(*a.shape[:-1]):
        row = a[idx]
        if len(row) == 0:
            acc = init
        else:
            acc = row[0]
            for v in row[1:]:
                acc = f(acc, v)
        out[idx] = acc
    if keep:
        shape = [1 if d in dims else arr.shape[d] for d in range(nd)]
        out = out.reshape(shape)
    return out


def sum_row(dt):
    k = kern(ARITH, "add", dt)
    return k


def rsum(vals):
    """balanced n-ary sum in REAL mode"""
    c, ts = 0, []
    for v in vals:
        if is_sym(v):
            ts.append(v)
        else:
            c = E.add(c, v)
    if not ts:
        return c
    if E.special(c):
        return c
    allint = all(z3.is_int(t) for t in ts) and isinstance(c, int)
    ts = [(t if allint else E.R(t)) for t in ts]
    if c != 0:
        ts.append(E.I(c) if allint else E.R(c))
    return ts[0] if len(ts) == 1 else z3.Sum(ts)


def sum_reduce(arr, dims, keep, dt):
    nd = arr.ndim
    if S.mode == "fp" and dt in FLOATS:
        return reduce_arr(kern(ARITH, "add", dt), arr, dims, keep, 0.0)
    keepdims = [d for d in range(nd) if d not in dims]
    a = np.transpose(arr, keepdims + list(dims)).reshape([arr.shape[d] for d in keepdims] + [int(np.prod([arr.shape[d] for d in dims]))] )
    out = np.empty(a.shape[:-1], dtype=object)
    for idx in np.ndindex(*a.shape[:-1]):
        out[idx] = rsum(a[idx])
    if keep:
        out = out.reshape([1 if d in dims else arr.shape[d] for d in range(nd)])
    return out


def getarg(func, args, kwargs, pos, name, default=None):
    if len(args) > pos:
        return args[pos]
    return kwargs.get(name, default)


@op("sum", "mean", "nansum")
def _sum(func, args, kwargs):
    name, ov = op_name(func)
    x = args[0]
    m = meta_run(func, args, kwargs)
    dt = m.dtype
    dims = norm_dims(getarg(func, args, kwargs, 1, "dim") if ov != "default" else None, x.dim())
    keep = bool(getarg(func, args, kwargs, 2, "keepdim", False)) if ov != "default" else False
    a = cast_arr(elems_of(x), x.dtype, dt)
    r = sum_reduce(a, dims, keep, dt)
    if name == "mean":
        n = int(np.prod([x.shape[d] for d in dims])) if dims else 1
        if n == 0:
            raise Unsupported("mean of empty")
        dv = kern(ARITH, "div", dt)
        nn = scalar_elem(n, dt)
        r = bc(lambda v: dv(v, nn), r)
    return wrap(r.reshape(tuple(m.shape)), dt, m)


@op("prod")
def _prod(func, args, kwargs):
    x = args[0]
    m = meta_run(func, args, kwargs)
    dt = m.dtype
    ov = op_name(func)[1]
    dims = norm_dims(args[1] if ov != "default" and len(args) > 1 else None, x.dim())
    keep = bool(getarg(func, args, kwargs, 2, "keepdim", False)) if ov != "default" else False
    r = reduce_arr(kern(ARITH, "mul", dt), cast_arr(elems_of(x), x.dtype, dt), dims, keep, scalar_elem(1, dt))
    return wrap(r.reshape(tuple(m.shape)), dt, m)


@op("amax", "amin")
def _amax(func, args, kwargs):
    name, _ = op_name(func)
    x = args[0]
    m = meta_run(func, args, kwargs)
    dims = norm_dims(getarg(func, args, kwargs, 1, "dim", []), x.dim())
    keep = bool(getarg(func, args, kwargs, 2, "keepdim", False))
    k = kern(ARITH, "maximum" if name == "amax" else "minimum", m.dtype)
    return wrap(reduce_arr(k, elems_of(x), dims, keep).reshape(tuple(m.shape)), m.dtype, m)


@op("any", "all")
def _any(func, args, kwargs):
    name, ov = op_name(func)
    x = args[0]
    m = meta_run(func, args, kwargs)
    dims = norm_dims(args[1] if ov != "default" and len(args) > 1 else kwargs.get("dim"), x.dim())
    keep = bool(getarg(func, args, kwargs, 2, "keepdim", False)) if ov != "default" else False
    a = cast_arr(elems_of(x), x.dtype, torch.bool)
    nd = a.ndim
    keepdims = [d for d in range(nd) if d not in dims]
    b = np.transpose(a, keepdims + list(dims)).reshape([a.shape[d] for d in keepdims] + [int(np.prod([a.shape[d] for d in dims]))])
    out = np.empty(b.shape[:-1], dtype=object)
    for idx in np.ndindex(*b.shape[:-1]):
        out[idx] = (E.bor if name == "any" else E.band)(*b[idx])
    return wrap(out.reshape(tuple(m.shape)), torch.bool, m)


def _argsel(arr, dims, better, dt):
    """(value, index) fold; ties keep the first"""
    nd = arr.ndim
    d = dims
    a = np.moveaxis(arr, d, -1)
    vals = np.empty(a.shape[:-1], dtype=object)
    idxs = np.empty(a.shape[:-1], dtype=object)
    f = mkite(dt)
    for idx in np.ndindex(*a.shape[:-1]):
        row = a[idx]
        v, i = row[0], 0
        for j in range(1, len(row)):
            c = better(row[j], v)
            v, i = f(c, row[j], v), E.ite(c, j, i)
        vals[idx], idxs[idx] = v, i
    return vals, idxs


@op("max", "min", "argmax", "argmin")
def _maxdim(func, args, kwargs):
    name, ov = op_name(func)
    x = args[0]
    if name in ("max", "min") and ov in ("other",):
        return run_op(getattr(aten, name + "imum").default, args, kwargs)
    dt = x.dtype
    gt = kern(CMP, "gt" if "max" in name else "lt", dt) if dt != torch.bool else (lambda a, b: E.band(a, E.bnot(b)) if "max" in name else E.band(E.bnot(a), b))
    m = meta_run(func, args, kwargs)
    e = elems_of(x)
    if name in ("max", "min") and ov == "default":
        k = kern(ARITH, name + "imum", dt)
        return wrap(reduce_arr(k, e, norm_dims(None, x.dim()), False), dt, m)
    dim = getarg(func, args, kwargs, 1, "dim")
    keep = bool(getarg(func, args, kwargs, 2, "keepdim", False))
    if dim is None:
        vals, idxs = _argsel(e.reshape(-1), 0, gt, dt)
        idxs = np.asarray(idxs, dtype=object)
        return wrap(idxs.reshape(tuple(m.shape)), torch.int64, m)
    if x.dim() == 0:
        z = np.empty((), dtype=object); z[()] = 0
        return wrap(z, torch.int64) if "arg" in name else (wrap(e.copy(), dt), wrap(z, torch.int64))
    vals, idxs = _argsel(e, dim % x.dim(), gt, dt)
    if "arg" in name:
        return wrap(idxs.reshape(tuple(m.shape)), torch.int64, m)
    return wrap(vals.reshape(tuple(m[0].shape)), dt, m[0]), wrap(idxs.reshape(tuple(m[1].shape)), torch.int64, m[1])


@op("sort", "topk", "argsort")
def _sort(func, args, kwargs):
    name, ov = op_name(func)
    x = args[0]
    m = meta_run(func, args, kwargs)
    if name == "topk":
        k = args[1]
        dim = getarg(func, args, kwargs, 2, "dim", -1)
        desc = bool(getarg(func, args, kwargs, 3, "largest", True))
    elif ov == "stable":
        dim, desc, k = kwargs.get("dim", -1), kwargs.get("descending", False), None
    else:
        dim = getarg(func, args, kwargs, 1, "dim", -1)
        desc = bool(getarg(func, args, kwargs, 2, "descending", False))
        k = None
    dt = x.dtype
    lt = kern(CMP, "lt", dt)
    f = mkite(dt)
    a = np.moveaxis(elems_of(x), dim, -1) if x.dim() else elems_of(x).reshape(1)
    vals, idxs = a.copy(), np.empty(a.shape, dtype=object)
    for idx in np.ndindex(*a.shape[:-1]):
        v = list(a[idx]); ii = list(range(len(v)))
        n = len(v)
        for p in range(n):  # stable bubble network
            for q in range(n - 1 - p):
                c = lt(v[q], v[q + 1]) if desc else lt(v[q + 1], v[q])
                v[q], v[q + 1] = f(c, v[q + 1], v[q]), f(c, v[q], v[q + 1])
                ii[q], ii[q + 1] = E.ite(c, ii[q + 1], ii[q]), E.ite(c, ii[q], ii[q + 1])
        for j in range(n):
            vals[idx + (j,)] = v[j]; idxs[idx + (j,)] = ii[j]
    if k is not None:
        vals, idxs = vals[..., :k], idxs[..., :k]
    if x.dim():
        vals, idxs = np.moveaxis(vals, -1, dim), np.moveaxis(idxs, -1, dim)
    else:
        vals, idxs = vals.reshape(()), idxs.reshape(())
    if name == "argsort":
        return wrap(idxs, torch.int64)
    return wrap(vals, dt), wrap(idxs, torch.int64)


@op("cumsum", "cumprod")
def _cumsum(func, args, kwargs):
    name, _ = op_name(func)
    x, dim = args[0], args[1]
    m = meta_run(func, args, kwargs)
    k = kern(ARITH, "add" if name == "cumsum" else "mul", m.dtype)
    a = np.moveaxis(cast_arr(elems_of(x), x.dtype, m.dtype), dim, -1).copy()
    for idx in np.ndindex(*a.shape[:-1]):
        for j in range(1, a.shape[-1]):
            a[idx + (j,)] = k(a[idx + (j - 1,)], a[idx + (j,)])
    return wrap(np.moveaxis(a, -1, dim), m.dtype, m)


@op("var", "std", "var_mean", "std_mean")
def _var(func, args, kwargs):
    name, ov = op_name(func)
    x = args[0]
    m = meta_run(func, args, kwargs)
    if ov == "correction":
        dim = getarg(func, args, kwargs, 1, "dim")
        corr = kwargs.get("correction", 1)
        corr = 1 if corr is None else corr
        keep = kwargs.get("keepdim", False)
    elif ov == "dim":
        dim, unb = args[1], getarg(func, args, kwargs, 2, "unbiased", True)
        corr, keep = int(unb), getarg(func, args, kwargs, 3, "keepdim", False)
    else:
        dim, corr, keep = None, int(getarg(func, args, kwargs, 1, "unbiased", True)), False
    dt = x.dtype
    dims = norm_dims(dim, x.dim())
    n = int(np.prod([x.shape[d] for d in dims]))
    a = elems_of(x)
    add_, sub_, mul_, div_ = (kern(ARITH, q, dt) for q in ("add", "sub", "mul", "div"))
    s = sum_reduce(a, dims, True, dt)
    mu = bc(lambda v: div_(v, scalar_elem(n, dt)), s)
    d = bc(sub_, a, np.broadcast_to(mu, a.shape))
    v = sum_reduce(bc(mul_, d, d), dims, keep, dt)
    den = max(n - corr, 0)
    if den == 0:
        raise Unsupported("variance with zero degrees of freedom")
    v = bc(lambda t: div_(t, scalar_elem(den, dt)), v)
    if name.startswith("std"):
        v = bc(kern(UNARY, "sqrt", dt), v)
    m0 = m[0] if isinstance(m, tuple) else m
    r = wrap(v.reshape(tuple(m0.shape)), dt)
    if name.endswith("_mean"):
        return r, wrap(mu.reshape(tuple(m[1].shape)), dt)
    return r


def dot_elems(xs, ys, dt):
    if S.mode == "fp" and dt in FLOATS:
        add_, mul_ = kern(ARITH, "add", dt), kern(ARITH, "mul", dt)
        acc = None
        for x, y in zip(xs, ys):
            p = mul_(x, y)
            acc = p if acc is None else add_(acc, p)
        return 0.0 if acc is None else acc
    return rsum([E.mul(x, y) for x, y in zip(xs, ys)])


def matmul_arr(a, b, dt):
    out = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            out[i, j] = dot_elems(a[i], b[:, j], dt)
    return out


@op("mm", "bmm", "mv", "dot", "addmm", "baddbmm", "addmv", "vdot")
def _mm(func, args, kwargs):
    name, _ = op_name(func)
    m = meta_run(func, args, kwargs)
    dt = m.dtype
    bias = None
    if name in ("addmm", "baddbmm", "addmv"):
        bias, a, b = args[0], args[1], args[2]
        beta, alpha = kwargs.get("beta", 1), kwargs.get("alpha", 1)
    else:
        a, b = args
    ea, eb = elems_of(a), elems_of(b)
    if name in ("mm", "addmm"):
        r = matmul_arr(ea, eb, dt)
    elif name in ("mv", "addmv"):
        r = matmul_arr(ea, eb[:, None], dt)[:, 0]
    elif name in ("dot", "vdot"):
        r = matmul_arr(ea[None], eb[:, None], dt)[0, 0]
        z = np.empty((), dtype=object); z[()] = r; r = z
    else:
        r = np.empty(tuple(m.shape), dtype=object)
        for i in range(r.shape[0]):
            r[i] = matmul_arr(ea[i], eb[i], dt)
    if bias is not None:
        mu, ad = kern(ARITH, "mul", dt), kern(ARITH, "add", dt)
        if alpha != 1:
            r = bc(lambda v: mu(v, scalar_elem(alpha, dt)), r)
        eb_ = elems_of(bias)
        if beta != 1:
            eb_ = bc(lambda v: mu(v, scalar_elem(beta, dt)), eb_)
        if beta != 0:
            r = bc(ad, r, np.broadcast_to(eb_, r.shape))
    return wrap(r, dt, m)


def _pair(v, n):
    v = list(v) if isinstance(v, (list, tuple)) else [v]
    return v * n if len(v) == 1 else v


def conv_arr(x, w, b, stride, pad, dil, transposed, outpad, groups, oshape, dt):
    nsp = x.ndim - 2
    stride, pad, dil, outpad = (_pair(v, nsp) for v in (stride, pad, dil, outpad))
    N, Ci = x.shape[:2]
    ks = w.shape[2:]
    out = np.empty(oshape, dtype=object)
    Co = oshape[1]
    cig, cog = Ci // groups, Co // groups
    acc = {}
    for n in range(N):
        for co in range(Co):
            g = co // cog
            for o in np.ndindex(*oshape[2:]):
                xs, ys = [], []
                for k in np.ndindex(*ks):
                    if not transposed:
                        pos = [o[d] * stride[d] - pad[d] + k[d] * dil[d] for d in range(nsp)]
                    else:
                        pos = []
                        for d in range(nsp):
                            v = o[d] + pad[d] - k[d] * dil[d]
                            if v % stride[d]:
                                pos = None
                                break
                            pos.append(v // stride[d])
                        if pos is None:
                            continue
                    if any(p < 0 or p >= x.shape[2 + d] for d, p in enumerate(pos)):
                        continue
                    for c in range(cig):
                        xs.append(x[(n, g * cig + c) + tuple(pos)])
                        ys.append(w[(co, c) + k] if not transposed else w[(g * cig + c, co - g * cog) + k])
                r = dot_elems(xs, ys, dt)
                if b is not None:
                    r = kern(ARITH, "add", dt)(r, b[co])
                out[(n, co) + o] = r
    return out


@op("convolution")
def _conv(func, args, kwargs):
    x, w, b, stride, pad, dil, transposed, outpad, groups = args
    m = meta_run(func, args, kwargs)
    r = conv_arr(elems_of(x), elems_of(w), None if b is None else elems_of(b), stride, pad, dil, transposed, outpad, groups,
                 tuple(m.shape), m.dtype)
    return wrap(r, m.dtype)


@op("convolution_backward")
def _convb(func, args, kwargs):
    go, x, w, bias_sizes, stride, pad, dil, transposed, outpad, groups, mask = args
    dt = x.dtype
    nsp = x.dim() - 2
    st, pd, dl = (_pair(v, nsp) for v in (stride, pad, dil))
    eg, ex, ew = elems_of(go), elems_of(x), elems_of(w)
    gx = [[] for _ in range(ex.size)]
    gw = [[] for _ in range(ew.size)]
    N, Ci = ex.shape[:2]
    Co = eg.shape[1]
    cig, cog = Ci // groups, Co // groups
    big, small = (eg, ex) if transposed else (ex, eg)
    for n in range(N):
        for co in range(Co):
            g = co // cog
            for s in np.ndindex(*small.shape[2:]):
                for k in np.ndindex(*ew.shape[2:]):
                    pos = [s[d] * st[d] - pd[d] + k[d] * dl[d] for d in range(nsp)]
                    if any(p < 0 or p >= big.shape[2 + d] for d, p in enumerate(pos)):
                        continue
                    for c in range(cig):
                        ci = g * cig + c
                        xi = (n, ci) + (s if transposed else tuple(pos))
                        oi = (n, co) + (tuple(pos) if transposed else s)
                        wi = ((ci, co - g * cog) if transposed else (co, c)) + k
                        gx[np.ravel_multi_index(xi, ex.shape)].append(E.mul(eg[oi], ew[wi]))
                        gw[np.ravel_multi_index(wi, ew.shape)].append(E.mul(eg[oi], ex[xi]))
    def fin(lists, shape):
        a = np.empty(len(lists), dtype=object)
        for i, l in enumerate(lists):
            a[i] = rsum(l)
        return wrap(a.reshape(shape), dt)
    rb = None
    if mask[2]:
        rb = wrap(sum_reduce(eg, tuple(d for d in range(eg.ndim) if d != 1), False, dt), dt)
    return (fin(gx, ex.shape) if mask[0] else None, fin(gw, ew.shape) if mask[1] else None, rb)


@op("_softmax")
def _softmax(func, args, kwargs):
    x, dim = args[0], args[1]
    dt = x.dtype
    if S.mode == "fp":
        raise Unsupported("softmax FP")
    a = np.moveaxis(elems_of(x), dim, -1)
    out = np.empty(a.shape, dtype=object)
    for idx in np.ndindex(*a.shape[:-1]):
        row = a[idx]
        ex = [E.trans("exp", v) for v in row]
        s = rsum(ex)
        for j, v in enumerate(ex):
            out[idx + (j,)] = E.div(v, s)
    return wrap(np.moveaxis(out, -1, dim), dt)


@op("_log_softmax")
def _log_softmax(func, args, kwargs):
    x, dim = args[0], args[1]
    a = np.moveaxis(elems_of(x), dim, -1)
    out = np.empty(a.shape, dtype=object)
    for idx in np.ndindex(*a.shape[:-1]):
        row = a[idx]
        s = E.trans("log", rsum([E.trans("exp", v) for v in row]))
        for j, v in enumerate(row):
            out[idx + (j,)] = E.sub(v, s)
    return wrap(np.moveaxis(out, -1, dim), x.dtype)


@op("softplus")
def _softplus(func, args, kwargs):
    beta = getarg(func, args, kwargs, 1, "beta", 1)
    th = getarg(func, args, kwargs, 2, "threshold", 20)
    return wrap(bc(lambda v: r_softplus(v, E.to_frac(beta), E.to_frac(th)), elems_of(args[0])), args[0].dtype)


@op("gelu")
def _gelu(func, args, kwargs):
    if kwargs.get("approximate", "none") != "none":
        return NotImplemented
    return wrap(bc(r_gelu, elems_of(args[0])), args[0].dtype)


@op("leaky_relu")
def _lrelu(func, args, kwargs):
    dt = args[0].dtype
    s = scalar_elem(getarg(func, args, kwargs, 1, "negative_slope", 0.01), dt)
    gt, mu, f = kern(CMP, "gt", dt), kern(ARITH, "mul", dt), mkite(dt)
    z = scalar_elem(0, dt)
    return wrap(bc(lambda v: f(gt(v, z), v, mu(v, s)), elems_of(args[0])), dt)


@op("threshold_backward")
def _thb(func, args, kwargs):
    g, x, t = args
    m = meta_run(func, args, kwargs)
    dt = m.dtype
    le_, f = kern(CMP, "le", dt), mkite(dt)
    th = scalar_elem(t, dt)
    return wrap(bc(lambda gg, xx: f(le_(xx, th), scalar_elem(0, dt), gg), *np.broadcast_arrays(elems_of(g), elems_of(x))), dt, m)


@op("threshold")
def _threshold(func, args, kwargs):
    x, t, v = args
    dt = x.dtype
    le_, f = kern(CMP, "le", dt), mkite(dt)
    return wrap(bc(lambda xx: f(le_(xx, scalar_elem(t, dt)), scalar_elem(v, dt), xx), elems_of(x)), dt)


def ite_index(c, lst, idx, f):
    """lst[idx] for a symbolic Int idx (0 <= idx < len)"""
    r = lst[-1]
    for k in range(len(lst) - 2, -1, -1):
        r = f(idx == k, lst[k], r)
    return r


def check_index(i, n, what):
    if is_sym(i):
        ok = z3.And(i >= -n, i < n)
        if S.path is not None:
            if not S.path.branch(ok):
                raise IndexError("%s: index out of range (size %d)" % (what, n))
        return S.path.simplify_neg(i, n) if S.path is not None else z3.If(i < 0, i + n, i)
    i = int(i)
    if i < -n or i >= n:
        raise IndexError("%s: index %d out of range for size %d" % (what, i, n))
    return i % n if i < 0 else i


@op("index")
def _index(func, args, kwargs):
    x, idx = args[0], args[1]
    if any(isinstance(i, torch.Tensor) and i.dtype in (torch.bool, torch.uint8) for i in idx):
        # boolean mask -> concretise the mask by forking
        new = []
        for i in idx:
            if isinstance(i, torch.Tensor) and i.dtype in (torch.bool, torch.uint8):
                e = cast_arr(elems_of(i), i.dtype, torch.bool)
                mk = torch.tensor([decide(v) for v in e.reshape(-1)], dtype=torch.bool).reshape(e.shape)
                new.append(mk)
            else:
                new.append(i)
        return run_move(func, (x, new), kwargs)
    symi = [i for i in idx if isinstance(i, SymTensor) and not i.is_conc and not elems_all_conc(i.elems())]
    if not symi:
        return run_move(func, args, kwargs)
    ex = elems_of(x)
    pos = [d for d, i in enumerate(idx) if i is not None]
    shp = np.broadcast_shapes(*[tuple(i.shape) for i in idx if i is not None])
    iarrs = [np.broadcast_to(elems_of(idx[d]), shp) for d in pos]
    adjacent = pos == list(range(pos[0], pos[-1] + 1))
    rest = [d for d in range(ex.ndim) if d not in pos]
    exr = np.transpose(ex, pos + rest)
    restshape = [ex.shape[d] for d in rest]
    f = mkite(x.dtype)
    out = np.empty(tuple(shp) + tuple(restshape), dtype=object)
    for o in np.ndindex(*shp):
        sub = exr
        for q, d in enumerate(pos):
            i = check_index(iarrs[q][o], ex.shape[d], "index")
            if not is_sym(i):
                sub = sub[i]
            else:
                r = sub[-1]
                for k in range(sub.shape[0] - 2, -1, -1):
                    r = bc(lambda a, b: f(i == k, a, b), sub[k], r)
                sub = r
        out[o] = sub if isinstance(sub, np.ndarray) and sub.ndim else (sub[()] if isinstance(sub, np.ndarray) else sub)
    if adjacent and pos[0] > 0:
        k = len(shp)
        order = list(range(k, k + pos[0])) + list(range(k)) + list(range(k + pos[0], out.ndim))
        out = np.transpose(out, order)
    return wrap(out, x.dtype)


@op("index_select")
def _index_select(func, args, kwargs):
    x, dim, i = args
    if not (isinstance(i, SymTensor) and not i.is_conc and not elems_all_conc(i.elems())):
        return run_move(func, args, kwargs)
    return run_op(aten.index.Tensor, (x, [None] * (dim % x.dim()) + [i]), {})


@op("embedding")
def _embedding(func, args, kwargs):
    w, i = args[0], args[1]
    return run_op(aten.index.Tensor, (w, [i]), {})


@op("gather")
def _gather(func, args, kwargs):
    x, dim, i = args[0], args[1], args[2]
    if not (isinstance(i, SymTensor) and not i.is_conc and not elems_all_conc(i.elems())):
        return run_move(func, args[:3], {})
    ex, ei = np.moveaxis(elems_of(x), dim, -1), np.moveaxis(elems_of(i), dim, -1)
    f = mkite(x.dtype)
    out = np.empty(ei.shape, dtype=object)
    for o in np.ndindex(*ei.shape):
        k = check_index(ei[o], ex.shape[-1], "gather")
        row = list(ex[o[:-1]])
        out[o] = row[k] if not is_sym(k) else ite_index(None, row, k, f)
    return wrap(np.moveaxis(out, -1, dim), x.dtype)


@op("nll_loss_forward", "nll_loss2d_forward")
def _nll(func, args, kwargs):
    x, t, w, red, ignore = args
    if w is not None:
        raise Unsupported("weighted nll loss")
    dt = x.dtype
    ex, et = elems_of(x), elems_of(t)
    ex = np.moveaxis(ex, 1, -1) if ex.ndim > 1 else ex
    f = mkite(dt)
    if isinstance(t, SymTensor) and not t.is_conc:
        for v in et.reshape(-1):
            if is_sym(v) and S.path is not None and not S.path.implied(v != ignore):
                raise Unsupported("possibly ignored label")
    out = np.empty(et.shape, dtype=object)
    for o in np.ndindex(*et.shape):
        k = et[o]
        if is_sym(k):
            if S.path is not None and not S.path.branch(z3.And(k >= 0, k < ex.shape[-1])):
                raise IndexError("Target is out of bounds.")
        else:
            k = int(k)
            if k < 0 or k >= ex.shape[-1]:
                raise IndexError("Target %d is out of bounds." % k)
        row = list(ex[o]) if ex.ndim > 1 else list(ex)
        out[o] = row[k] if not is_sym(k) else ite_index(None, row, k, f)
    r = run_op(aten.neg.default, (wrap(out, dt),), {})
    n = torch.tensor(float(et.size), dtype=dt)
    if red == 0:
        return r, torch.zeros((), dtype=dt)
    r = run_op(aten.sum.default, (r,), {})
    if red == 1:
        r = run_op(aten.div.Tensor, (r, n), {})
    return r, n


@op("scatter", "scatter_add")
def _scatter(func, args, kwargs):
    name, ov = op_name(func)
    x, dim, i, src = args[0], args[1], args[2], args[3]
    if "reduce" in ov:
        raise Unsupported("scatter reduce")
    dt = x.dtype
    ex = np.moveaxis(elems_of(x).copy(), dim, -1)
    ei = np.moveaxis(elems_of(i), dim, -1)
    es = cast_arr(elems_of(src), dtype_of(src), dt)
    es = np.moveaxis(es, dim, -1) if es.ndim else np.broadcast_to(es, ei.shape)
    f, ad = mkite(dt), kern(ARITH, "add", dt)
    for o in np.ndindex(*ei.shape):
        k = check_index(ei[o], ex.shape[-1], "scatter")
        if not is_sym(k):
            p = o[:-1] + (k,)
            ex[p] = es[o] if name == "scatter" else ad(ex[p], es[o])
        else:
            for j in range(ex.shape[-1]):
                p = o[:-1] + (j,)
                ex[p] = f(k == j, es[o] if name == "scatter" else ad(ex[p], es[o]), ex[p])
    return wrap(np.moveaxis(ex, -1, dim), dt)


@op("index_put", "_unsafe_index_put")
def _index_put(func, args, kwargs):
    x, idx, v = args[0], args[1], args[2]
    acc = bool(getarg(func, args, kwargs, 3, "accumulate", False))
    dt = x.dtype
    ex = elems_of(x).copy()
    f, ad = mkite(dt), kern(ARITH, "add", dt)
    if len(idx) == 1 and isinstance(idx[0], torch.Tensor) and idx[0].dtype == torch.bool:
        mk = elems_of(idx[0])
        ev = elems_of(v)
        if ev.size == 1:
            mb = mk.reshape(mk.shape + (1,) * (ex.ndim - mk.ndim))
            val = ev.reshape(-1)[0]
            return wrap(bc(lambda c, o: f(c, ad(o, val) if acc else val, o), np.broadcast_to(mb, ex.shape), ex), dt)
        cm = torch.tensor([decide(q) for q in mk.reshape(-1)], dtype=torch.bool).reshape(mk.shape)
        idx = [t for t in cm.nonzero(as_tuple=True)]
    elif any(isinstance(i, torch.Tensor) and i.dtype == torch.bool for i in idx):
        new = []
        for i in idx:
            if isinstance(i, torch.Tensor) and i.dtype == torch.bool:
                mk = elems_of(i)
                cm = torch.tensor([decide(q) for q in mk.reshape(-1)], dtype=torch.bool).reshape(mk.shape)
                new.extend(cm.nonzero(as_tuple=True))
            else:
                new.append(i)
        idx = new
    pos = [d for d, i in enumerate(idx) if i is not None]
    shp = np.broadcast_shapes(*[tuple(idx[d].shape) for d in pos])
    iarrs = [np.broadcast_to(elems_of(idx[d]), shp) for d in pos]
    adjacent = pos == list(range(pos[0], pos[-1] + 1))
    rest = [d for d in range(ex.ndim) if d not in pos]
    restshape = [ex.shape[d] for d in rest]
    # value layout
    vsh = (tuple(restshape[:pos[0]]) + tuple(shp) + tuple(restshape[pos[0]:])) if adjacent else tuple(shp) + tuple(restshape)
    ev = np.broadcast_to(cast_arr(elems_of(v), dtype_of(v), dt), vsh)
    if adjacent and pos[0] > 0:
        k, p0 = len(shp), pos[0]
        ev = np.transpose(ev, list(range(p0, p0 + k)) + list(range(p0)) + list(range(p0 + k, ev.ndim)))
    exr = np.transpose(ex, pos + rest)
    for o in np.ndindex(*shp):
        ks = [check_index(iarrs[q][o], ex.shape[d], "index_put") for q, d in enumerate(pos)]
        if not any(is_sym(k) for k in ks):
            ks = tuple(ks)
            if restshape:
                exr[ks] = bc(ad, exr[ks], ev[o]) if acc else ev[o]
            else:
                exr[ks] = ad(exr[ks], ev[o]) if acc else ev[o]
        else:
            for cand in np.ndindex(*[ex.shape[d] for d in pos]):
                c = E.band(*[E.eq(k, j) for k, j in zip(ks, cand)])
                if not is_sym(c) and not c:
                    continue
                old = exr[cand]
                if restshape:
                    exr[cand] = bc(lambda n_, o_: f(c, ad(o_, n_) if acc else n_, o_), ev[o], old)
                else:
                    exr[cand] = f(c, ad(old, ev[o]) if acc else ev[o], old)
    return wrap(np.transpose(exr, np.argsort(pos + rest)), dt)


@op("nonzero")
def _nonzero(func, args, kwargs):
    e = elems_of(args[0])
    mk = torch.tensor([decide(truthy(v, args[0].dtype)) for v in e.reshape(-1)], dtype=torch.bool).reshape(e.shape)
    return SymTensor.from_conc(mk.nonzero())


@op("masked_select")
def _masked_select(func, args, kwargs):
    x, mk = args
    e = elems_of(mk)
    mkc = torch.tensor([decide(v) for v in e.reshape(-1)], dtype=torch.bool).reshape(e.shape)
    idx = torch.broadcast_to(mkc, torch.broadcast_shapes(mkc.shape, x.shape)).nonzero(as_tuple=True)
    xb = np.broadcast_to(elems_of(x), torch.broadcast_shapes(mkc.shape, x.shape))
    return wrap(xb[tuple(i.numpy() for i in idx)], x.dtype)


@op("max_pool2d_with_indices")
def _maxpool(func, args, kwargs):
    x, ks = args[0], _pair(args[1], 2)
    st = _pair(getarg(func, args, kwargs, 2, "stride", []) or ks, 2)
    pd = _pair(getarg(func, args, kwargs, 3, "padding", 0), 2)
    dl = _pair(getarg(func, args, kwargs, 4, "dilation", 1), 2)
    m = meta_run(func, args, kwargs)
    e = elems_of(x)
    H, W = e.shape[-2:]
    dt = x.dtype
    gt, f = kern(CMP, "gt", dt), mkite(dt)
    v = np.empty(tuple(m[0].shape), dtype=object)
    ix = np.empty(tuple(m[0].shape), dtype=object)
    for o in np.ndindex(*v.shape):
        best = None
        for a in range(ks[0]):
            for b in range(ks[1]):
                r, c = o[-2] * st[0] - pd[0] + a * dl[0], o[-1] * st[1] - pd[1] + b * dl[1]
                if 0 <= r < H and 0 <= c < W:
                    q = e[o[:-2] + (r, c)]
                    if best is None:
                        best = (q, r * W + c)
                    else:
                        cnd = gt(q, best[0])
                        best = (f(cnd, q, best[0]), E.ite(cnd, r * W + c, best[1]))
        v[o], ix[o] = best
    return wrap(v, dt), wrap(ix, torch.int64)


@op("avg_pool2d")
def _avgpool(func, args, kwargs):
    x, ks = args[0], _pair(args[1], 2)
    st = _pair(getarg(func, args, kwargs, 2, "stride", []) or ks, 2)
    pd = _pair(getarg(func, args, kwargs, 3, "padding", 0), 2)
    ceil = bool(getarg(func, args, kwargs, 4, "ceil_mode", False))
    cip = bool(getarg(func, args, kwargs, 5, "count_include_pad", True))
    dov = getarg(func, args, kwargs, 6, "divisor_override")
    m = meta_run(func, args, kwargs)
    e = elems_of(x)
    H, W = e.shape[-2:]
    out = np.empty(tuple(m.shape), dtype=object)
    for o in np.ndindex(*out.shape):
        h0, w0 = o[-2] * st[0] - pd[0], o[-1] * st[1] - pd[1]
        h1, w1 = min(h0 + ks[0], H + pd[0]), min(w0 + ks[1], W + pd[1])
        pool = (h1 - h0) * (w1 - w0)
        h0, w0, h1, w1 = max(h0, 0), max(w0, 0), min(h1, H), min(w1, W)
        vals = [e[o[:-2] + (r, c)] for r in range(h0, h1) for c in range(w0, w1)]
        dv = dov or (pool if cip else (h1 - h0) * (w1 - w0))
        if S.mode == "fp":
            raise Unsupported("avg_pool fp")
        out[o] = E.div(rsum(vals), dv)
    return wrap(out, m.dtype)


@op("_adaptive_avg_pool2d")
def _aap(func, args, kwargs):
    x, os = args[0], _pair(args[1], 2)
    e = elems_of(x)
    H, W = e.shape[-2:]
    out = np.empty(e.shape[:-2] + tuple(os), dtype=object)
    for o in np.ndindex(*out.shape):
        h0, h1 = (o[-2] * H) // os[0], -((-(o[-2] + 1) * H) // os[0])
        w0, w1 = (o[-1] * W) // os[1], -((-(o[-1] + 1) * W) // os[1])
        vals = [e[o[:-2] + (r, c)] for r in range(h0, h1) for c in range(w0, w1)]
        out[o] = E.div(rsum(vals), len(vals))
    return wrap(out, x.dtype)


@op("grid_sampler_2d")
def _grid(func, args, kwargs):
    """bilinear / nearest sampling with zeros / border padding on symbolic coordinates"""
    x, g, interp, padm, align = args
    ex, eg = elems_of(x), elems_of(g)
    N, C, H, W = ex.shape
    if interp not in (0, 1) or padm not in (0, 1):
        raise Unsupported("grid_sampler mode")
    half = Fraction(1, 2)

    def unnorm(v, size):
        if align:
            return E.mul(E.mul(E.add(v, 1), half), size - 1)
        return E.sub(E.mul(E.mul(E.add(v, 1), half), size), half)
    out = np.empty((N, C) + eg.shape[1:3], dtype=object)

    def get(plane, r, c):
        """plane[r, c] with zero outside; r, c Int elements"""
        acc = 0
        if not is_sym(r) and not is_sym(c):
            return plane[r][c] if 0 <= r < H and 0 <= c < W else 0
        rows = []
        for i in range(H):
            if is_sym(c):
                v = 0
                for j in range(W - 1, -1, -1):
                    v = E.ite(c == j, plane[i][j], v)
            else:
                v = plane[i][c] if 0 <= c < W else 0
            rows.append(v)
        if is_sym(r):
            v = 0
            for i in range(H - 1, -1, -1):
                v = E.ite(r == i, rows[i], v)
            return v
        return rows[r] if 0 <= r < H else 0
    for n in range(N):
        for o in np.ndindex(*eg.shape[1:3]):
            ix, iy = unnorm(eg[(n,) + o + (0,)], W), unnorm(eg[(n,) + o + (1,)], H)
            if padm == 1:
                ix = E.minimum(E.maximum(ix, 0), W - 1)
                iy = E.minimum(E.maximum(iy, 0), H - 1)
            if interp == 1:
                rx, ry = E.trunc_int(E.round_he(ix)), E.trunc_int(E.round_he(iy))
                for c in range(C):
                    out[(n, c) + o] = get(ex[n, c], ry, rx)
                continue
            x0, y0 = E.floor_int(ix), E.floor_int(iy)
            fx, fy = E.sub(ix, E._as_real(x0)), E.sub(iy, E._as_real(y0))
            x1, y1 = E.add(x0, 1), E.add(y0, 1)
            wts = [(y0, x0, E.mul(E.sub(1, fx), E.sub(1, fy))), (y0, x1, E.mul(fx, E.sub(1, fy))),
                   (y1, x0, E.mul(E.sub(1, fx), fy)), (y1, x1, E.mul(fx, fy))]
            for c in range(C):
                out[(n, c) + o] = rsum([E.mul(wt, get(ex[n, c], r, q)) for r, q, wt in wts])
    return wrap(out, x.dtype)


@op("bincount")
def _bincount(func, args, kwargs):
    x = args[0]
    w = getarg(func, args, kwargs, 1, "weights")
    ml = getarg(func, args, kwargs, 2, "minlength", 0)
    e = elems_of(x)
    # length depends on the max value: fork it
    mx = S.path.pick_int(E.I(reduce_arr(E.maximum, e, (0,), False)[()])) if e.size else -1
    n = max(ml, mx + 1)
    out = np.empty(n, dtype=object)
    ew = elems_of(w) if w is not None else None
    for k in range(n):
        out[k] = rsum([E.ite(E.eq(v, k), ew[i] if ew is not None else 1, 0) for i, v in enumerate(e)])
    return wrap(out, torch.int64 if w is None else torch.float64)


@op("linalg_vector_norm", "norm")
def _vnorm(func, args, kwargs):
    name, ov = op_name(func)
    x = args[0]
    m = meta_run(func, args, kwargs)
    dt = m.dtype
    p = getarg(func, args, kwargs, 1, "ord" if name != "norm" else "p", 2)
    p = 2 if p is None else p
    dims = norm_dims(getarg(func, args, kwargs, 2, "dim"), x.dim())
    keep = bool(getarg(func, args, kwargs, 3, "keepdim", False))
    a = elems_of(x)
    if p == 2:
        r = bc(E.sqrt, sum_reduce(bc(E.mul, a, a), dims, keep, dt))
    elif p == 1:
        r = sum_reduce(bc(E.rabs, a), dims, keep, dt)
    elif p == float("inf"):
        r = reduce_arr(E.maximum, bc(E.rabs, a), dims, keep)
    else:
        raise Unsupported("norm p=%r" % p)
    return wrap(r.reshape(tuple(m.shape)), dt)


@op("equal")
def _equal(func, args, kwargs):
    a, b = args
    if tuple(a.shape) != tuple(b.shape):
        return False
    return decide(E.band(*bc(E.eq, elems_of(a), elems_of(b)).reshape(-1)))


@op("is_same_size")
def _iss(func, args, kwargs):
    return tuple(args[0].shape) == tuple(args[1].shape)


@op("unique2", "_unique2", "unique_dim", "unique_consecutive")
def _unique(func, args, kwargs):
    raise Unsupported("unique")


@op("histc", "_linalg_eigh", "_linalg_svd", "linalg_eigvals", "linalg_eig", "_fft_r2c")
def _uns(func, args, kwargs):
    raise Unsupported(str(func))


# ---- fresh symbolic randomness: every draw is an arbitrary value of its support
RAND = {"hook": None}


def fresh_like(m, lo=None, hi=None, lo_strict=False, hi_strict=True, kind="float"):
    if S.path is None:
        raise Unsupported("random draw outside an exploration")
    arr = np.empty(tuple(m.shape), dtype=object)
    for o in np.ndindex(*arr.shape):
        arr[o] = S.path.fresh_draw(m.dtype, lo, hi, lo_strict, hi_strict)
    return wrap(arr, m.dtype)


def _rand_geom(func, args, kwargs):
    kw = dict(kwargs)
    kw.pop("generator", None)
    kw.pop("pin_memory", None)
    kw["device"] = torch.device("meta")
    return func(*tree_map(lambda x: meta_of(x) if isinstance(x, torch.Tensor) else x, args), **kw)


@op("rand", "rand_like")
def _rand(func, args, kwargs):
    return fresh_like(_rand_geom(func, args, kwargs), 0, 1)


@op("randn", "randn_like")
def _randn(func, args, kwargs):
    return fresh_like(_rand_geom(func, args, kwargs))


@op("randint")
def _randint(func, args, kwargs):
    m = _rand_geom(func, args, kwargs)
    ov = op_name(func)[1]
    lo, hi = (args[0], args[1]) if "low" in ov else (0, args[0])
    return fresh_like(m, lo, hi)


@op("uniform_")
def _uniform_(func, args, kwargs):
    t = args[0]
    lo = getarg(func, args, kwargs, 1, "from", 0.0)
    hi = getarg(func, args, kwargs, 2, "to", 1.0)
    if not isinstance(t, SymTensor):
        return func(*args, **kwargs)
    write(t, fresh_like(meta_of(t), lo, hi))
    return t


@op("normal_")
def _normal_(func, args, kwargs):
    t = args[0]
    if not isinstance(t, SymTensor):
        return func(*args, **kwargs)
    write(t, fresh_like(meta_of(t)))
    return t


@op("normal")
def _normal(func, args, kwargs):
    """mean + std * draw: any real value for a positive spread"""
    ts = [meta_of(a) for a in args if isinstance(a, torch.Tensor)]
    if not ts:
        return fresh_like(_rand_geom(func, args, kwargs))
    return fresh_like(torch.empty(torch.broadcast_shapes(*[t.shape for t in ts]), dtype=ts[0].dtype, device="meta"))


@op("bernoulli", "bernoulli_")
def _bernoulli(func, args, kwargs):
    t = args[0]
    name, ov = op_name(func)
    m = meta_of(t)
    arr = np.empty(tuple(m.shape), dtype=object)
    for o in np.ndindex(*arr.shape):
        arr[o] = E.ite(S.path.fresh_bool(), scalar_elem(1, t.dtype), scalar_elem(0, t.dtype)) if t.dtype != torch.bool else S.path.fresh_bool()
    r = wrap(arr, t.dtype)
    if name.endswith("_"):
        write(t, r)
        return t
    return r


@op("native_dropout")
def _ndrop(func, args, kwargs):
    x, p, train = args
    if not train or p == 0:
        return run_op(aten.clone.default, (x,), {}), SymTensor.from_conc(torch.ones(x.shape, dtype=torch.bool))
    raise Unsupported("training dropout")


# TorchDispatchMode that makes factories inside the code under test return SymTensors (so that later symbolic in-place
# writes are representable) and turns random draws into fresh symbols.
class SymMode(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name, ov = op_name(func)
        if name in RANDOM and name not in ("uniform_", "normal_", "bernoulli_") and RAND["hook"] != "off":
            return run_op(func, args, kwargs)
        if any(isinstance(a, SymTensor) for a in tree_flatten((args, kwargs))[0]):
            return run_op(func, args, kwargs)
        dev = kwargs.get("device")
        if name in FACTORY and not is_inplace(func) and not (dev is not None and torch.device(dev).type == "meta"):
            r = func(*args, **kwargs)
            if isinstance(r, torch.Tensor) and r.layout == torch.strided and r.device.type == "cpu" and not getattr(S, "plain", 0) \
                    and r.dtype in (list(FLOATS) + list(INTS) + [torch.bool]):
                return from_conc_strided(r) if not r.is_contiguous() else SymTensor.from_conc(r)
            return r
        return func(*args, **kwargs)


def _math_patches():
    def w1(orig, fn):
        def f(x, *a):
            if isinstance(x, SymTensor):
                r = fn(x)
                if a:
                    r = r / (fn(a[0]) if isinstance(a[0], torch.Tensor) else orig(a[0]))
                return r
            if a and isinstance(a[0], SymTensor):
                return orig(x) / fn(a[0])
            return orig(x, *a)
        return f
    return {n: w1(getattr(math, n), getattr(torch, n)) for n in ("log", "log2", "log10", "exp", "sqrt", "tanh", "sin", "cos", "erf", "log1p", "expm1")}


MATH = None


@contextlib.contextmanager
def symbolic(mode="real", path=None):
    global MATH
    if MATH is None:
        MATH = (_math_patches(), {n: getattr(math, n) for n in _math_patches()})
    old = (S.mode, S.path, S.active)
    S.mode, S.path, S.active = mode, path, True
    for n, f in MATH[0].items():
        setattr(math, n, f)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with SymMode():
                yield
    finally:
        S.mode, S.path, S.active = old
        for n, f in MATH[1].items():
            setattr(math, n, f)


@contextlib.contextmanager
def plain():
    """factories return ordinary tensors (used for building modules)"""
    old = getattr(S, "plain", 0)
    S.plain = 1
    try:
        yield
    finally:
        S.plain = old


def _torch_func(name):
    return getattr(torch, name, None)


# python-level functions that need interception before C++ argument parsing
def _tf_tensor_item(x):
    return x.item()


FUNC[torch.Tensor.item] = _tf_tensor_item
FUNC[torch.Tensor.tolist] = lambda x: x.tolist()
FUNC[torch.Tensor.__bool__] = lambda x: SymTensor.__bool__(x)
FUNC[torch.Tensor.__float__] = lambda x: SymTensor.__float__(x)
FUNC[torch.Tensor.__int__] = lambda x: SymTensor.__int__(x)
FUNC[torch.Tensor.__index__] = lambda x: SymTensor.__index__(x)
FUNC[torch.Tensor.numpy] = lambda x, force=False: SymTensor.numpy(x)
