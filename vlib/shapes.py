"""Symbolic image sizes: the repository's models run on fake tensors whose height/width are symbols.

Every size-dependent decision PyTorch or the repository takes becomes a guard; the guards of a run are its path
condition over the size symbols (translated sympy -> z3).  The solver then proposes a size not covered by any path so
far until none is left in the stated domain, and decides every claim on every path.
"""
import sys
import time
import traceback

import numpy as np
import sympy
import torch
import z3
from torch._subclasses.fake_tensor import FakeTensorMode
from torch.fx.experimental.symbolic_shapes import DimDynamic, ShapeEnv
from torch._dynamo.source import ConstantSource

from . import harness as H
from .elem import Unsupported


class Tr:
    """sympy integer/boolean expression -> z3"""

    def __init__(self, syms):
        self.syms = syms
        self.cache = {}
        self.side = []
        self.n = 0

    def real(self, e):
        t = self.t(e)
        return z3.ToReal(t) if z3.is_int(t) else t

    def t(self, e):
        if isinstance(e, (bool, int)):
            return z3.BoolVal(e) if isinstance(e, bool) else z3.IntVal(e)
        if e in self.cache:
            return self.cache[e]
        r = self._t(e)
        self.cache[e] = r
        return r

    def _t(self, e):
        n = type(e).__name__
        if e is sympy.true or e is sympy.false:
            return z3.BoolVal(bool(e))
        if isinstance(e, sympy.Symbol):
            if e not in self.syms:
                raise Unsupported("unbacked symbol %s" % e)
            return self.syms[e]
        if isinstance(e, sympy.Integer):
            return z3.IntVal(int(e))
        if isinstance(e, sympy.Rational):
            return z3.Q(int(e.p), int(e.q))
        if isinstance(e, sympy.Float):
            from fractions import Fraction
            f = Fraction(float(e))
            return z3.Q(f.numerator, f.denominator)
        if isinstance(e, sympy.Add):
            a = [self.t(x) for x in e.args]
            a = self._common(a)
            return z3.Sum(a)
        if isinstance(e, sympy.Mul):
            a = self._common([self.t(x) for x in e.args])
            r = a[0]
            for x in a[1:]:
                r = r * x
            return r
        if isinstance(e, sympy.Pow):
            b, x = e.args
            if x.is_Integer and int(x) > 0:
                t = self.t(b)
                r = t
                for _ in range(int(x) - 1):
                    r = r * t
                return r
            if x == -1:
                return z3.RealVal(1) / self.real(b)
            raise Unsupported("pow %s" % e)
        if n in ("FloorDiv", "CleanDiv"):
            a, b = self.t(e.args[0]), self.t(e.args[1])
            # z3 integer division is floor for positive divisors
            if z3.is_int_value(b) and b.as_long() > 0:
                return a / b
            return z3.If(b > 0, a / b, (-a) / (-b))
        if n in ("Mod", "PythonMod"):
            a, b = self.t(e.args[0]), self.t(e.args[1])
            return a % b
        if n == "TrueDiv":
            return self.real(e.args[0]) / self.real(e.args[1])
        if isinstance(e, sympy.Max) or n == "Max":
            r = self.t(e.args[0])
            for x in e.args[1:]:
                y = self.t(x)
                r = z3.If(r >= y, r, y)
            return r
        if isinstance(e, sympy.Min) or n == "Min":
            r = self.t(e.args[0])
            for x in e.args[1:]:
                y = self.t(x)
                r = z3.If(r <= y, r, y)
            return r
        if isinstance(e, sympy.floor):
            t = self.t(e.args[0])
            return t if z3.is_int(t) else z3.ToInt(t)
        if isinstance(e, sympy.ceiling):
            t = self.t(e.args[0])
            return t if z3.is_int(t) else -z3.ToInt(-t)
        if isinstance(e, (sympy.Eq,)):
            a, b = self._common([self.t(x) for x in e.args])
            return a == b
        if isinstance(e, (sympy.Ne,)):
            a, b = self._common([self.t(x) for x in e.args])
            return a != b
        for cls, f in ((sympy.StrictLessThan, lambda a, b: a < b), (sympy.LessThan, lambda a, b: a <= b),
                       (sympy.StrictGreaterThan, lambda a, b: a > b), (sympy.GreaterThan, lambda a, b: a >= b)):
            if isinstance(e, cls):
                a, b = self._common([self.t(x) for x in e.args])
                return f(a, b)
        if isinstance(e, sympy.And):
            return z3.And(*[self.t(x) for x in e.args])
        if isinstance(e, sympy.Or):
            return z3.Or(*[self.t(x) for x in e.args])
        if isinstance(e, sympy.Not):
            return z3.Not(self.t(e.args[0]))
        if isinstance(e, sympy.Piecewise):
            r = None
            for val, cond in reversed(e.args):
                v = self.t(val)
                r = v if r is None else z3.If(self.t(cond), v, r)
            return r
        if isinstance(e, sympy.Abs):
            t = self.t(e.args[0])
            return z3.If(t >= 0, t, -t)
        if n == "Where":
            return z3.If(self.t(e.args[0]), self.t(e.args[1]), self.t(e.args[2]))
        raise Unsupported("size expression %s (%s)" % (e, n))

    @staticmethod
    def _common(ts):
        if any(z3.is_real(t) for t in ts) and not all(z3.is_real(t) for t in ts):
            return [z3.ToReal(t) if z3.is_int(t) else t for t in ts]
        return ts


def sym_expr(x):
    """sympy / python value of a SymInt/SymFloat/SymBool/int"""
    if isinstance(x, (torch.SymInt, torch.SymFloat, torch.SymBool)):
        return x.node.expr
    return x


class ShapeH:
    symbolic = True

    def __init__(self, hints, domain, stats):
        self.hints = hints
        self.domain = domain
        self.env = ShapeEnv(allow_scalar_outputs=True, allow_dynamic_output_shape_ops=True, duck_shape=False, specialize_zero_one=False)
        self.mode = FakeTensorMode(shape_env=self.env, allow_non_fake_inputs=True)
        self.syms = {}
        self.z = {}
        self.dims = {}
        self.results = []
        self.claims = []
        self.stats = stats

    def dim(self, name):
        if name in self.dims:
            return self.dims[name]
        v = self.hints[name]
        s = self.env.create_symbol(v, source=ConstantSource(name), dynamic_dim=DimDynamic.DYNAMIC, constraint_dim=None,
                                   positive=True, do_not_specialize_zero_one=True)
        lo, hi = self.domain[name]
        zz = z3.Int(name)
        self.z[name] = zz
        self.syms[s] = zz
        d = self.env.create_symintnode(s, hint=v, source=ConstantSource(name))
        self.dims[name] = d
        return d

    def image(self, *shape, dtype=torch.float32):
        return torch.empty(tuple(shape), dtype=dtype)

    def run_ctx(self):
        return self.mode

    # claims: conditions are given as nested tuples over sizes and are decided by the solver, not by Python
    def claim_eq(self, label, a, b):
        self.stats.claims.setdefault(label, 0)
        self.stats.claims[label] += 1
        a = tuple(a) if isinstance(a, (tuple, list, torch.Size)) else (a,)
        b = tuple(b) if isinstance(b, (tuple, list, torch.Size)) else (b,)
        if len(a) != len(b):
            self.claims.append((label, sympy.false))
            return
        for x, y in zip(a, b):
            self.claims.append((label, ("eq", sym_expr(x), sym_expr(y))))

    def claim_le(self, label, a, b):
        self.stats.claims.setdefault(label, 0)
        self.stats.claims[label] += 1
        self.claims.append((label, ("le", sym_expr(a), sym_expr(b))))

    def claim(self, label, cond):
        self.stats.claims.setdefault(label, 0)
        self.stats.claims[label] += 1
        self.claims.append((label, sympy.true if cond else sympy.false))


class ConShapeH:
    symbolic = False

    def __init__(self, vals):
        self.vals = vals
        self.fail = []

    def dim(self, name):
        return self.vals[name]

    def image(self, *shape, dtype=torch.float32):
        g = torch.Generator().manual_seed(0)
        n = 1
        for s in shape:
            n *= s
        if dtype.is_floating_point:
            return torch.rand(tuple(shape), generator=g, dtype=dtype)
        return torch.arange(n).reshape(tuple(shape)).to(dtype)

    def claim_eq(self, label, a, b):
        a = tuple(a) if isinstance(a, (tuple, list, torch.Size)) else (a,)
        b = tuple(b) if isinstance(b, (tuple, list, torch.Size)) else (b,)
        if a != b:
            self.fail.append(label)

    def claim_le(self, label, a, b):
        if not a <= b:
            self.fail.append(label)

    def claim(self, label, cond):
        if not cond:
            self.fail.append(label)


class SymInterpolate:
    """F.interpolate with an integral scale factor computes its size symbolically instead of specialising it"""

    def __enter__(self):
        import torch.nn.functional as F
        self.real = real = F.interpolate

        def interpolate(input, size=None, scale_factor=None, *a, **k):
            if size is None and isinstance(scale_factor, (int, float)) and float(scale_factor).is_integer():
                size, scale_factor = [d * int(scale_factor) for d in input.shape[2:]], None
            if isinstance(size, (list, tuple, torch.Size)) and any(isinstance(d, torch.SymInt) for d in size) and input.dim() == 4:
                mode = a[0] if a else k.get("mode", "nearest")
                if mode == "nearest":
                    return torch.ops.aten.upsample_nearest2d.default(input, list(size))
                if mode == "bilinear":
                    return input.new_empty(tuple(input.shape[:2]) + tuple(size))
            return real(input, size, scale_factor, *a, **k)
        F.interpolate = interpolate

    def __exit__(self, *a):
        import torch.nn.functional as F
        F.interpolate = self.real


def explore_shapes(inst, body, stats, deadline):
    """concolic exploration over sizes; inst['domain'] = {name: (lo, hi)}, optional inst['where'](z) extra constraint"""
    dom = inst["domain"]
    zs = {k: z3.Int(k) for k in dom}
    domc = [z3.And(zs[k] >= lo, zs[k] <= hi) for k, (lo, hi) in dom.items()]
    if inst.get("where"):
        domc.append(inst["where"](zs))
    cover = z3.Solver()
    cover.set("timeout", 30000)
    for c in domc:
        cover.add(c)
    outcomes, proved = [], set()
    n = 0
    first = dict(inst.get("first", {}))
    while True:
        if time.time() > deadline:
            outcomes.append(("undecided", "time budget exhausted after %d size classes" % n, None))
            break
        if n >= inst.get("max_paths", 600):
            outcomes.append(("undecided", "size-class budget exhausted", None))
            break
        t0 = time.time()
        if first and n == 0:
            hints = first
        else:
            r = cover.check()
            stats.queries += 1
            stats.solver_s += time.time() - t0
            if r == z3.unsat:
                stats.unsat += 1
                break
            if r != z3.sat:
                outcomes.append(("undecided", "solver unknown on coverage", None))
                break
            m = cover.model()
            hints = {k: m.eval(z, model_completion=True).as_long() for k, z in zs.items()}
        n += 1
        h = ShapeH(hints, dom, stats)
        err = None
        try:
            for k in dom:
                h.dim(k)
            with H.FuncTrace(stats.functions):
                with SymInterpolate(), h.mode:
                    body(h)
        except Unsupported as e:
            outcomes.append(("undecided", "engine: %s" % e, None))
            break
        except Exception as e:  # noqa: BLE001
            err = e
            tb = traceback.format_exc()
        try:
            tr = Tr(h.syms)
            pc = []
            for g in h.env.guards:
                pc.append(tr.t(g.expr))
            claims = []
            for label, c in h.claims:
                if isinstance(c, tuple):
                    a, b = tr._common([tr.t(sympy.sympify(c[1])), tr.t(sympy.sympify(c[2]))])
                    claims.append((label, a == b if c[0] == "eq" else a <= b))
                else:
                    claims.append((label, tr.t(c)))
        except Unsupported as e:
            outcomes.append(("undecided", "engine: %s" % e, None))
            break
        stats.paths += 1
        stats.branches += len(pc)
        subst = [(zs[k], z3.IntVal(v)) for k, v in hints.items()]
        for c in pc:
            if not z3.is_true(z3.simplify(z3.substitute(c, *subst))):
                outcomes.append(("undecided", "guard not satisfied by its own size: %s" % c, None))
                return outcomes, proved
        if err is not None:
            outcomes.append(("cex", "no exception (%s): %s\n%s" % (type(err).__name__, str(err)[:300], tb[-1200:]), hints))
            break
        bad = False
        for label, c in claims:
            s = z3.Solver()
            s.set("timeout", int(inst.get("timeout", 30) * 1000))
            for q in domc + pc:
                s.add(q)
            s.add(z3.Not(c))
            t0 = time.time()
            r = s.check()
            stats.queries += 1
            stats.solver_s += time.time() - t0
            if r == z3.unsat:
                stats.unsat += 1
                proved.add(label)
            elif r == z3.sat:
                stats.sat += 1
                mm = s.model()
                outcomes.append(("cex", label, {k: mm.eval(z, model_completion=True).as_long() for k, z in zs.items()}))
                bad = True
                break
            else:
                stats.unknown += 1
                outcomes.append(("undecided", "solver unknown: " + label, None))
        if bad:
            break
        if n <= 2 or n % 25 == 0:
            stats.witness += 1
            outcomes.append(("witness", [l for l, _ in claims], hints))
        cover.add(z3.Not(z3.And(*pc)) if pc else z3.BoolVal(False))
    return outcomes, proved


def run_shape_concrete(body, hints):
    h = ConShapeH(hints)
    err = None
    try:
        body(h)
    except Exception as e:  # noqa: BLE001
        err = "%s: %s" % (type(e).__name__, str(e)[:300])
    return h, err
