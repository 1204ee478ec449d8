"""Symbolic harness: path exploration, claims, solver queries, counterexample replay, evidence.

A *body* is one Python function `body(h)` that builds inputs through `h`, calls the repository's real code and states
claims through `h`.  The same body runs twice: with `SymH` (inputs are solver variables, claims become queries over all
their values) and with `ConH` (inputs are the solver's assignment as ordinary tensors and the claims are evaluated on
the real, concrete execution).  Only what reproduces under `ConH` is reported.
"""
import json
import math
import os
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import torch
import z3

from . import elem as E
from . import symten as T
from .elem import Unsupported, is_sym
from .symten import SymTensor

REPO = os.environ.get("VERIF_REPO", "/repo")


class PathEnd(Exception):
    """path infeasible / cut by an assumption"""


class Budget(Exception):
    pass


def zval(m, t, exact=True):
    """python value of a z3 constant in a model (completion on)"""
    v = m.eval(t, model_completion=True)
    if z3.is_bool(v):
        return z3.is_true(v)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_fp(v):
        return fpval(v)
    return None


def fpval(v):
    if v.isNaN():
        return float("nan")
    if v.isInf():
        return -math.inf if v.isNegative() else math.inf
    if v.isZero():
        return -0.0 if v.isNegative() else 0.0
    r = z3.simplify(z3.fpToReal(v))
    return float(Fraction(r.numerator_as_long(), r.denominator_as_long()))


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.branches = 0
        self.paths = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.witness = 0
        self.replays = 0
        self.probes = 0
        self.functions = set()
        self.claims = {}


def mk_solver(timeout_ms, logic=None):
    s = z3.Solver() if logic is None else z3.SolverFor(logic)
    s.set("timeout", int(timeout_ms))
    return s


class Path:
    """one execution; decisions[] is the prefix to replay"""

    def __init__(self, prefix, stats, branch_timeout=5000):
        self.prefix = prefix
        self.taken = []
        self.alts = []
        self.pc = []
        self.stats = stats
        self.solver = mk_solver(branch_timeout)
        self.draws = []
        self.vars = {}
        self.ndraw = 0
        self.ax_n = 0
        self.unknown_branches = 0
        self.imp = {}

    def add(self, c):
        if not is_sym(c):
            if not c:
                raise PathEnd
            return
        self.pc.append(c)
        self.solver.add(c)

    def _sync_axioms(self):
        ax = E.axioms()
        return ax

    def check(self, *extra, timeout=None):
        t0 = time.time()
        if timeout:
            self.solver.set("timeout", int(timeout))
        r = self.solver.check(*(list(extra) + self._sync_axioms()))
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        return r

    def branch(self, cond):
        if not is_sym(cond):
            return bool(cond)
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
            self.taken.append(v)
            self.add(c if v else z3.Not(c))
            return v
        self.stats.branches += 1
        rt = self.check(c)
        rf = self.check(z3.Not(c))
        if rt == z3.unknown or rf == z3.unknown:
            self.unknown_branches += 1
        if rt == z3.unsat and rf == z3.unsat:
            raise PathEnd
        if rt == z3.unsat:
            self.taken.append(False)
            self.add(z3.Not(c))
            return False
        if rf == z3.unsat:
            self.taken.append(True)
            self.add(c)
            return True
        self.alts.append(self.taken + [False])
        self.taken.append(True)
        self.add(c)
        return True

    def implied(self, c):
        """True/False if the path condition decides c, else None"""
        k = c.get_id()
        if k in self.imp:
            return self.imp[k][1]
        cs = z3.simplify(c)
        r = None
        if z3.is_true(cs):
            r = True
        elif z3.is_false(cs):
            r = False
        elif self.check(z3.Not(cs), timeout=1500) == z3.unsat:
            r = True
        elif self.check(cs, timeout=1500) == z3.unsat:
            r = False
        self.imp[k] = (c, r)
        return r

    def pick_int(self, e):
        """fork over the feasible integer values"""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(4096):
            k = len(self.taken)
            if k < len(self.prefix):
                v, yes = self.prefix[k]
                self.taken.append((v, yes))
                self.add(e == v if yes else e != v)
                if yes:
                    return v
                continue
            r = self.check()
            if r == z3.unsat:
                raise PathEnd
            if r != z3.sat:
                raise Unsupported("cannot enumerate integer value")
            v = zval(self.solver.model(), e)
            self.stats.branches += 1
            if self.check(e != v) != z3.unsat:
                self.alts.append(self.taken + [(v, False)])
            self.taken.append((v, True))
            self.add(e == v)
            return v
        raise Budget("too many integer values")

    def unique_value(self, e):
        r = self.check()
        if r != z3.sat:
            return None
        v = zval(self.solver.model(), e)
        if v is None:
            return None
        if self.check(e != (E.R(v) if z3.is_real(e) else v)) == z3.unsat:
            return v
        return None

    def simplify_neg(self, i, n):
        if self.check(i < 0) == z3.unsat:
            return i
        return z3.If(i < 0, i + n, i)

    def fresh_draw(self, dtype, lo, hi, lo_strict=False, hi_strict=True):
        nm = "draw%d" % self.ndraw
        self.ndraw += 1
        if dtype in T.FLOATS:
            if T.S.mode == "fp":
                bits = T.FLOATS[dtype]
                v = z3.FP(nm, E.fsort(bits))
                self.add(z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v))))
                if lo is not None:
                    self.add(z3.fpGEQ(v, E.F(float(lo), bits)))
                if hi is not None:
                    self.add(z3.fpLT(v, E.F(float(hi), bits)))
            else:
                v = z3.Real(nm)
                if lo is not None:
                    self.add(v > E.R(lo) if lo_strict else v >= E.R(lo))
                if hi is not None:
                    self.add(v < E.R(hi) if hi_strict else v <= E.R(hi))
        else:
            v = z3.Int(nm)
            if lo is not None:
                self.add(v >= lo)
            if hi is not None:
                self.add(v < hi)
        self.draws.append(v)
        return v

    def fresh_bool(self):
        v = z3.Bool("drawb%d" % self.ndraw)
        self.ndraw += 1
        self.draws.append(v)
        return v


class Violation(Exception):
    pass


class HBase:
    tol = 1e-4

    def note(self, *a):
        pass


def elems(x):
    """flat list of elements of tensor / scalar / nested"""
    if isinstance(x, torch.Tensor):
        return list(T.elems_of(x).reshape(-1))
    if isinstance(x, (list, tuple)):
        r = []
        for v in x:
            r += elems(v)
        return r
    if isinstance(x, np.ndarray):
        return [v for y in x.reshape(-1) for v in elems(y)] if x.dtype == object else [E.to_frac(v) if x.dtype.kind == "f" else v.item() for v in x.reshape(-1)]
    if is_sym(x) or isinstance(x, (bool, int, Fraction)):
        return [x]
    if isinstance(x, float):
        return [E.to_frac(x) if T.S.mode == "real" else x]
    if isinstance(x, np.generic):
        return elems(x.item())
    raise Unsupported("elems of %r" % type(x))


class SymH(HBase):
    symbolic = True

    def __init__(self, path, stats, inst):
        self.path = path
        self.stats = stats
        self.inst = inst
        self.inputs = {}  # name -> (z3 array, dtype)
        self.results = []  # claims: (label, status, info)
        self.obs = {}
        self.pending = []
        self.deadline = None
        self.body = None

    # ---- inputs
    def tensor(self, name, shape, dtype=torch.float32, lo=None, hi=None, positive=False, strict=False, grad=False, finite=True):
        arr = np.empty(tuple(shape), dtype=object)
        for i, o in enumerate(np.ndindex(*arr.shape)):
            nm = "%s_%s" % (name, "_".join(map(str, o))) if o else name
            if dtype in T.FLOATS:
                if T.S.mode == "fp":
                    b = T.FLOATS[dtype]
                    v = z3.FP(nm, E.fsort(b))
                    if finite:
                        self.path.add(z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v))))
                    if lo is not None:
                        self.path.add((z3.fpGT if strict else z3.fpGEQ)(v, E.F(float(lo), b)))
                    if hi is not None:
                        self.path.add((z3.fpLT if strict else z3.fpLEQ)(v, E.F(float(hi), b)))
                else:
                    v = z3.Real(nm)
                    if lo is not None:
                        self.path.add(v > E.R(lo) if strict else v >= E.R(lo))
                    if hi is not None:
                        self.path.add(v < E.R(hi) if strict else v <= E.R(hi))
                    if positive:
                        self.path.add(v > 0)
            elif dtype == torch.bool:
                v = z3.Bool(nm)
            elif T.S.mode == "fp" and T.INTS[dtype][0] <= 32:
                bits, sg = T.INTS[dtype]
                b = z3.BitVec(nm, bits)
                if lo is not None:
                    self.path.add(b >= lo if sg else z3.UGE(b, lo))
                if hi is not None:
                    self.path.add(b <= hi if sg else z3.ULE(b, hi))
                v = E.bvint(b, sg)
            else:
                v = z3.Int(nm)
                bits, sg = T.INTS[dtype]
                l, h = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
                self.path.add(v >= (l if lo is None else lo))
                self.path.add(v <= (h if hi is None else hi))
            arr[o] = v
        self.inputs[name] = (arr, dtype)
        t = SymTensor.from_elems(arr.copy(), dtype)
        if grad:
            t.requires_grad_(True)
        return t

    def scalar(self, name, lo=None, hi=None, dtype=torch.float64, strict=False):
        """a symbolic number usable by Python arithmetic (0-dim tensor)"""
        return self.tensor(name, (), dtype, lo=lo, hi=hi, strict=strict)

    def param(self, name, shape, **kw):
        t = self.tensor(name, shape, **kw)
        return torch.nn.Parameter(t)

    def z3int(self, name, lo, hi):
        v = z3.Int(name)
        self.path.add(z3.And(v >= lo, v <= hi))
        a = np.empty((), dtype=object)
        a[()] = v
        self.inputs[name] = (a, torch.int64)
        return v

    def pyint(self, name, lo, hi):
        """a Python int, forked over its whole range by the solver"""
        v = self.z3int(name, lo, hi)
        return self.path.pick_int(v)

    def pybool(self, name):
        v = z3.Bool(name)
        a = np.empty((), dtype=object)
        a[()] = v
        self.inputs[name] = (a, torch.bool)
        return self.path.branch(v)

    # ---- predicates over elements
    def all_(self, cond):
        return E.band(*[c if is_sym(c) else bool(c) for c in elems(cond)])

    def eq(self, a, b):
        """exact elementwise equality (shape and value)"""
        if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor) and tuple(a.shape) != tuple(b.shape):
            return False
        ea, eb = elems(a), elems(b)
        if len(ea) != len(eb):
            if len(eb) == 1:
                eb = eb * len(ea)
            else:
                return False
        out = []
        for x, y in zip(ea, eb):
            if (is_sym(x) and z3.is_fp(x)) or (is_sym(y) and z3.is_fp(y)):
                s = x if is_sym(x) and z3.is_fp(x) else y
                bits = {5: 16, 8: 32, 11: 64}[s.sort().ebits()]
                x, y = E.F(x, bits), E.F(y, bits)
                out.append(z3.Or(z3.fpEQ(x, y), z3.And(z3.fpIsNaN(x), z3.fpIsNaN(y))))
            else:
                out.append(E.eq(x, y))
        return E.band(*out)

    def close(self, a, b, tol=None):
        return ("close", a, b, tol)

    def le(self, a, b):
        a, b = np.broadcast_arrays(T.elems_of(a), T.elems_of(b))
        def f(x, y):
            if (is_sym(x) and z3.is_fp(x)) or (is_sym(y) and z3.is_fp(y)):
                s = x if is_sym(x) and z3.is_fp(x) else y
                bits = {5: 16, 8: 32, 11: 64}[s.sort().ebits()]
                return z3.fpLEQ(E.F(x, bits), E.F(y, bits))
            return E.le(x, y)
        return E.band(*[f(x, y) for x, y in zip(a.reshape(-1), b.reshape(-1))])

    def lt(self, a, b):
        a, b = np.broadcast_arrays(T.elems_of(a), T.elems_of(b))
        return E.band(*[E.lt(x, y) for x, y in zip(a.reshape(-1), b.reshape(-1))])

    def implies(self, a, b):
        a = self.all_(a) if not is_sym(a) else a
        return ("implies", a, b)

    def assume(self, cond):
        if isinstance(cond, torch.Tensor):
            cond = self.all_(cond)
        if not is_sym(cond):
            if not cond:
                raise PathEnd
            return
        c = z3.simplify(cond)
        if z3.is_false(c):
            raise PathEnd
        self.path.add(c)

    def draws_so_far(self):
        """the random numbers drawn so far, in order (symbolic scalars)"""
        out = []
        for v in self.path.draws:
            a = np.empty((), dtype=object)
            a[()] = v
            out.append(SymTensor.from_elems(a, torch.float64))
        return out

    def observe(self, name, t):
        self.obs[name] = t

    def anchor(self, name, *xs):
        """make the value of a transcendental function at these constants available to the solver"""
        for x in xs:
            E.anchor(name, E.to_frac(x))

    def claim_defined(self, label, *outs):
        """every partial operation executed so far was inside its domain (no division by 0, log of <= 0, ...)"""
        self.claim(label, E.band(*[c for _, c in E.UF.obl]))

    # ---- claims
    def claim(self, label, cond):
        """cond must hold for every value of the symbolic inputs on this path"""
        self.stats.claims.setdefault(label, 0)
        self.stats.claims[label] += 1
        ante = []
        while isinstance(cond, tuple) and cond[0] == "implies":
            ante.append(cond[1])
            cond = cond[2]
        if isinstance(cond, tuple) and cond[0] == "close":
            _, a, b, tol = cond
            exact = self.eq(a, b)
            self._decide(label, exact, ante, approx=(a, b, tol))
            return
        if isinstance(cond, torch.Tensor):
            cond = self.all_(cond)
        self._decide(label, cond, ante)

    def _decide(self, label, cond, ante, approx=None):
        if not is_sym(cond) and cond:
            self.results.append((label, "proved", "syntactic"))
            self.stats.unsat += 1
            self.stats.queries += 1
            return
        parts = []
        if is_sym(cond) and z3.is_and(cond) and cond.num_args() > 1:
            parts = [cond.arg(i) for i in range(cond.num_args())]
        else:
            parts = [cond]
        # group parts to keep queries small
        r = None
        if len(parts) <= self.inst.get("split", 6):
            r = self._query(label, parts if len(parts) > 1 else parts, ante)
            if r == "proved":
                self.results.append((label, "proved", ""))
                return
            bad = [cond]
        else:
            bad = []
            for p in parts:
                r = self._query(label, [p], ante)
                if r != "proved":
                    bad.append(p)
                    if r == "cex":
                        break
            if not bad:
                self.results.append((label, "proved", ""))
                return
        if approx is not None:
            st = self._approx(label, approx, ante)
            self.results.append((label,) + st)
            return
        self.results.append((label, r if r != "cex" else "cex", self.last))

    def _approx(self, label, approx, ante):
        """the exact identity is refuted/undecided: decide it within the numeric tolerance"""
        a, b, tol = approx
        if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor) and tuple(a.shape) != tuple(b.shape):
            m = self._model(ante)
            return ("cex", m) if m is not None else ("unknown", None)
        ea, eb = elems(a), elems(b)
        if len(ea) != len(eb):
            if len(eb) == 1:
                eb = eb * len(ea)
            else:
                m = self._model(ante)
                return ("cex", m) if m is not None else ("unknown", None)
        worst = "proved"
        for x, y in zip(ea, eb):
            if not is_sym(x) and not is_sym(y):
                if E.special(x) or E.special(y) or abs(float(x) - float(y)) > 1e-6 * (1 + abs(float(x))):
                    if not (E.special(x) and E.special(y) and float(x) == float(y)):
                        m = self._model(ante)
                        return ("cex", m) if m is not None else ("unknown", None)
                continue
            ex = E.eq(x, y)
            if not is_sym(ex) and ex:
                continue
            if not is_sym(ex) and not ex and ((not is_sym(x) and E.special(x)) or (not is_sym(y) and E.special(y))):
                m = self._model(ante)
                return ("cex", m) if m is not None else ("unknown", None)
            # robust counterexample first: a clearly visible difference
            X, Y = E.R(x), E.R(y)
            r = "unknown"
            for gap in (Fraction(1, 4), Fraction(1, 100), Fraction(1, 2000)):
                far = z3.Or(X - Y > gap, Y - X > gap)
                r = self._query(label, [z3.Not(far)], ante)
                if r == "cex":
                    return ("cex", self.last)
                if r == "unknown":
                    worst = "unknown"
            # gap 1/2000 absolute refuted => equal within tolerance for every input of the path
            if r != "proved":
                # maybe the exact identity holds for this element
                if self._query(label, [ex if is_sym(ex) else z3.BoolVal(bool(ex))], ante) != "proved":
                    return ("unknown", None)
        return ("proved" if worst == "proved" else "unknown", "within tolerance 5e-4")

    def _model(self, ante):
        return self._query("reach", [z3.BoolVal(False)], ante) == "cex" and self.last or None

    def _query(self, label, parts, ante):
        neg = z3.Not(z3.And(*[E.B(p) for p in parts])) if len(parts) != 1 else (E.bnot(parts[0]) if is_sym(parts[0]) else z3.BoolVal(not parts[0]))
        base = list(self.path.pc) + [E.B(a) for a in ante] + [neg]
        budget = self.inst.get("timeout", 60)
        self.last = None
        t_end = time.time() + budget
        if self.deadline:
            t_end = min(t_end, self.deadline)
        if not self.inst.get("tactics"):
            r = decide_query(base, E.axioms(), min(4, budget), self.stats, [("smt0", 4)])
            if r[0] == "unsat":
                return "proved"
            if r[0] == "unknown" and self._probe(base):
                return "cex"
        for rnd in range(self.inst.get("cegar", 12)):
            r = decide_query(base, E.axioms(), max(2, t_end - time.time()), self.stats, self.inst.get("tactics"))
            if r[0] != "sat" or not any(k in E.TRANS for k in E.UF.apps) or time.time() > t_end:
                break
            if self._reproduces(r[1]):
                return "cex"
            if not E.refine(r[1]):
                break
        if r[0] == "unsat":
            return "proved"
        if r[0] == "sat":
            self.last = self.extract(r[1])
            return "cex"
        # undecided with the axioms: a model of the plain formula is only a candidate, the real code decides
        if any(k in E.TRANS for k in E.UF.apps) and time.time() < (self.deadline or t_end + 1):
            r = decide_query(base, [], 6, self.stats, self.inst.get("tactics"))
            if r[0] == "sat" and self._reproduces(r[1]):
                return "cex"
        if self.inst.get("tactics") and self._probe(base):
            return "cex"
        return "unknown"

    def _probe(self, base):
        """undecided in general: look for a counterexample with all but one or two inputs fixed (refutes, never proves)"""
        vs = [v for arr, _ in self.inputs.values() for v in arr.reshape(-1) if is_sym(v) and z3.is_const(v) and (z3.is_real(v) or z3.is_int(v))]
        if self.body is None or not vs:
            return False
        for rnd in range(4):
            if self.stats.probes >= 24 or (self.deadline and time.time() > self.deadline):
                return False
            self.stats.probes += 1
            lo, span = ((0, 1), (-1, 2), (0, 2), (-4, 8))[rnd]
            free = {(rnd * 7 + 3) % len(vs), (rnd * 11 + 5) % len(vs)} if rnd == 3 else {3 % len(vs)} if rnd == 1 else set()
            fix = []
            for i, v in enumerate(vs):
                if i in free:
                    continue
                k = (i * 37 + i * i * 11 + 13 * rnd + 5) % 64
                fix.append(v == (z3.Q(lo * 64 + span * k, 64) if z3.is_real(v) else z3.IntVal(lo + k % (span + 1))))
            r = decide_query(base + fix, E.axioms(), 5, self.stats, [("smt0", 5)])
            if r[0] == "unknown":
                r = decide_query(base + fix, [], 3, self.stats, [("smt0", 3)])
            if r[0] == "sat" and self._reproduces(r[1]):
                return True
        return False

    def _reproduces(self, m):
        """does the candidate break a claim on the real code? (leaves the symbolic mode for the concrete run)"""
        if self.body is None:
            return False
        c = self.extract(m)
        from torch.utils._python_dispatch import _disable_current_modes
        prof = sys.getprofile()
        sys.setprofile(None)
        old = (T.S.mode, T.S.path, T.S.active)
        pr = E.PRUNE[0]
        E.PRUNE[0] = None
        try:
            T.S.mode, T.S.path, T.S.active = "real", None, False
            with _disable_current_modes():
                h, err = run_body_concrete(self.body, c, self.inst.get("tol", 2e-4))
        except Exception:  # noqa: BLE001
            return False
        finally:
            T.S.mode, T.S.path, T.S.active = old
            E.PRUNE[0] = pr
            sys.setprofile(prof)
        self.stats.replays += 1
        if (err is not None and err != "assume") or h.fail:
            self.last = c
            return True
        return False

    def extract(self, m):
        vals = {}
        for nm, (arr, dt) in self.inputs.items():
            a = np.empty(arr.shape, dtype=object)
            for o in np.ndindex(*arr.shape):
                a[o] = zval(m, arr[o])
            vals[nm] = (a, dt)
        draws = [zval(m, d) for d in self.path.draws]
        return {"vals": vals, "draws": draws}

    def witness(self):
        """reachability: a concrete input of this path (vacuity check)"""
        r = decide_query(list(self.path.pc), E.axioms(), 12, self.stats)
        if r[0] == "unknown":
            # the axioms are true facts about total functions: a model of the path condition alone is a candidate, and
            # the concrete run that follows decides whether it really reaches the claims
            r = decide_query(list(self.path.pc), [], 12, self.stats)
        if r[0] == "sat":
            return self.extract(r[1])
        return None


def decide_query(base, axs, budget, stats, tactics=None):
    """('unsat',) | ('sat', model) | ('unknown',): portfolio of z3 engines within the time budget"""
    t0 = time.time()
    stats.queries += 1
    res = ("unknown",)
    goals = base + axs
    plans = tactics or [("smt0", min(5, budget)), ("default", min(15, budget)), ("nlsat", min(30, budget)), ("smt3", budget)]
    for kind, tmo in plans:
        left = budget - (time.time() - t0)
        if left <= 0:
            break
        tmo = min(tmo, left)
        try:
            if kind == "default":
                s = z3.Solver()
            elif kind == "smt0":
                s = z3.SimpleSolver()
            elif kind == "smt3":
                # (z3's arith.solver=2 is not used: it returned a wrong "unsat" on a satisfiable core during development)
                s = z3.SimpleSolver()
                s.set("random_seed", 7)
            elif kind == "nlsat":
                s = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "elim-term-ite", "tseitin-cnf", "qfnra-nlsat").solver()
            elif kind == "qfnra":
                s = z3.Tactic("qfnra").solver()
            elif kind == "qffp":
                s = z3.Then("simplify", "propagate-values", "solve-eqs", "qffp").solver()
            elif kind == "bv":
                s = z3.Then("simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "bit-blast", "sat").solver()
            else:
                s = z3.SolverFor(kind)
            s.set("timeout", int(tmo * 1000))
            for c in goals:
                s.add(c)
            r = s.check()
            if r == z3.unsat:
                res = ("unsat",)
                break
            if r == z3.sat:
                m = s.model()
                res = ("sat", m)
                break
        except z3.Z3Exception:
            continue
    stats.solver_s += time.time() - t0
    if res[0] == "unsat":
        stats.unsat += 1
    elif res[0] == "sat":
        stats.sat += 1
    else:
        stats.unknown += 1
    return res


class DrawMode(torch.utils._python_dispatch.TorchDispatchMode):
    """feeds the solver's random draws to the concrete run"""

    def __init__(self, draws):
        super().__init__()
        self.draws = list(draws)

    def __enter__(self):
        super().__enter__()
        return self

    def take(self, shape, dtype):
        n = int(np.prod(shape)) if len(shape) else 1
        v = [self.draws.pop(0) if self.draws else 0 for _ in range(n)]
        return torch.tensor([float(x) for x in v], dtype=torch.float64).to(dtype).reshape(tuple(shape))

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name, ov = T.op_name(func)
        if self.draws and name in ("rand", "randn", "rand_like", "randn_like", "randint", "bernoulli", "normal"):
            kw = dict(kwargs)
            kw.pop("generator", None)
            r = func(*args, **kw)
            return self.take(r.shape, r.dtype)
        if self.draws and name in ("uniform_", "normal_", "bernoulli_"):
            args[0].copy_(self.take(args[0].shape, args[0].dtype))
            return args[0]
        return func(*args, **kwargs)


class ConH(HBase):
    """concrete twin: real tensors, real kernels"""
    symbolic = False

    def __init__(self, cex, tol=2e-4, default=None):
        self.vals = cex["vals"]
        self.draws = cex.get("draws", [])
        self.tol = tol
        self.fail = []
        self.checked = []
        self.obs = {}

    def _get(self, name, shape, dtype, lo, hi):
        if name in self.vals:
            a = self.vals[name][0]
            flat = [v for v in a.reshape(-1)]
        else:
            n = int(np.prod(shape)) if len(shape) else 1
            base = 0 if lo is None else lo
            flat = [base] * n
        if dtype == torch.bool:
            return torch.tensor([bool(v) for v in flat], dtype=torch.bool).reshape(tuple(shape))
        if dtype in T.FLOATS:
            return torch.tensor([float(v) for v in flat], dtype=torch.float64).to(dtype).reshape(tuple(shape))
        return torch.tensor([int(v) for v in flat], dtype=dtype).reshape(tuple(shape))

    def tensor(self, name, shape, dtype=torch.float32, lo=None, hi=None, positive=False, strict=False, grad=False, finite=True):
        t = self._get(name, shape, dtype, lo, hi)
        if grad:
            t.requires_grad_(True)
        return t

    def scalar(self, name, lo=None, hi=None, dtype=torch.float64, strict=False):
        t = self._get(name, (), dtype, lo, hi)
        return t.item()

    def param(self, name, shape, **kw):
        return torch.nn.Parameter(self.tensor(name, shape, **kw))

    def z3int(self, name, lo, hi):
        return int(self._get(name, (), torch.int64, lo, hi))

    pyint = z3int

    def pybool(self, name):
        return bool(self._get(name, (), torch.bool, None, None))

    def all_(self, cond):
        if isinstance(cond, torch.Tensor):
            return bool(cond.all())
        if isinstance(cond, (list, tuple)):
            return all(self.all_(c) for c in cond)
        return bool(cond)

    def eq(self, a, b):
        if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor):
            if tuple(a.shape) != tuple(b.shape):
                return False
            return bool(((a == b) | ((a != a) & (b != b))).all())
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        r = a == b
        return bool(r.all()) if hasattr(r, "all") else bool(r)

    def close(self, a, b, tol=None):
        tol = self.tol if tol is None else tol
        if isinstance(a, (list, tuple)):
            return len(a) == len(b) and all(self.close(x, y, tol) for x, y in zip(a, b))
        a = torch.as_tensor(a).detach().to(torch.float64)
        b = torch.as_tensor(b).detach().to(torch.float64)
        if a.dim() and b.dim() and tuple(a.shape) != tuple(b.shape):
            return False
        return bool(torch.isclose(a, b, rtol=tol, atol=tol, equal_nan=True).all())

    def le(self, a, b):
        return bool((torch.as_tensor(a) <= torch.as_tensor(b)).all())

    def lt(self, a, b):
        return bool((torch.as_tensor(a) < torch.as_tensor(b)).all())

    def implies(self, a, b):
        return (not self.all_(a)) or (b if not isinstance(b, torch.Tensor) else bool(b.all()))

    def assume(self, cond):
        if not self.all_(cond):
            raise PathEnd

    def draws_so_far(self):
        return [torch.tensor(float(v), dtype=torch.float64) for v in self.draws]

    def observe(self, name, t):
        self.obs[name] = t

    def anchor(self, name, *xs):
        pass

    def claim_defined(self, label, *outs):
        self.claim(label, all(bool(torch.isfinite(torch.as_tensor(o)).all()) for o in outs))

    def claim(self, label, cond):
        ok = self.all_(cond) if not isinstance(cond, bool) else cond
        self.checked.append(label)
        if not ok:
            self.fail.append(label)


# ----------------------------- exploration ------------------------------------------------
class FuncTrace:
    """records which functions of the repository were executed (profile hook)"""

    def __init__(self, sink):
        self.sink = sink

    def __call__(self, frame, event, arg):
        if event == "call":
            fn = frame.f_code.co_filename
            if fn.startswith(REPO + "/"):
                self.sink.add(fn[len(REPO) + 1:] + "::" + frame.f_code.co_qualname)

    def __enter__(self):
        sys.setprofile(self)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)


def run_body_concrete(body, cex, tol):
    h = ConH(cex, tol=tol)
    err = None
    try:
        with DrawMode(h.draws) as dm:
            h.draws_off = lambda: dm.draws.clear()
            body(h)
    except PathEnd:
        return h, "assume"
    except Exception as e:  # noqa: BLE001
        err = "%s: %s" % (type(e).__name__, str(e)[:300])
        h.tb = traceback.format_exc()
    return h, err


def explore(inst, body, stats, deadline):
    """run body symbolically over all paths; returns list of outcomes"""
    mode = inst.get("mode", "real")
    work = [[]]
    outcomes = []
    paths = 0
    proved = set()
    while work:
        if time.time() > deadline:
            outcomes.append(("undecided", "time budget of the instance exhausted with %d paths open" % len(work), None))
            break
        if paths >= inst.get("max_paths", 4000):
            outcomes.append(("undecided", "path budget exhausted", None))
            break
        prefix = work.pop()
        E.reset_uf()
        p = Path(prefix, stats, branch_timeout=inst.get("branch_timeout", 5000))
        h = SymH(p, stats, inst)
        h.deadline, h.body = deadline, body
        err = None
        E.PRUNE[0] = p.implied if inst.get("prune") else None
        try:
            with T.symbolic(mode, p):
                with FuncTrace(stats.functions):
                    body(h)
        except PathEnd:
            work.extend(p.alts)
            continue
        except (Unsupported, Budget, z3.Z3Exception, NotImplementedError, RecursionError) as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            outcomes.append(("undecided", "engine: %s: %s @ %s" % (type(e).__name__, str(e)[:200], " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:][::-1])), None))
            work.extend(p.alts)
            paths += 1
            if paths > 8 and all(o[0] == "undecided" for o in outcomes):
                break
            continue
        except Exception as e:  # noqa: BLE001 - raised by the code under test
            err = e
            tb = traceback.format_exc()
        paths += 1
        stats.paths += 1
        work.extend(p.alts)
        if err is not None:
            label = "no exception (%s)" % type(err).__name__
            w = h.witness()
            if w is None:
                outcomes.append(("undecided", "exception on a path without witness: %r" % err, None))
                continue
            outcomes.append(("cex", label + ": " + str(err)[:200] + "\n" + tb[-1500:], w))
            break
        need_w = False
        bad = False
        for label, st, info in h.results:
            if st == "proved":
                if label not in proved:
                    need_w = True
                    proved.add(label)
            elif st == "cex":
                outcomes.append(("cex", label, info))
                bad = True
            else:
                outcomes.append(("undecided", "solver unknown: " + label, None))
        if need_w or paths <= 2:
            w = h.witness()
            if w is not None:
                stats.witness += 1
                outcomes.append(("witness", [l for l, s, i in h.results], w, {k: v for k, v in h.obs.items()}, h))
            else:
                outcomes.append(("nowitness", [l for l, s, i in h.results], None))
        if bad:
            break
    return outcomes, proved
