"""Element algebra: scalars of a symbolic tensor.

An element is either a concrete Python value (bool / int / Fraction / float
inf-nan in REAL mode; bool / int / float in FP mode) or a z3 term.

REAL mode: floating-point elements are z3 Reals (exact arithmetic, rounding is
outside the claim).  FP mode: floating-point elements are z3 IEEE-754 terms of
the tensor's own width, round-to-nearest-even.
Integers are z3 Ints wrapped to their width where a cast demands it.
"""
import math
import struct
from fractions import Fraction

import z3

z3.set_param("memory_max_size", 12000)

INF = float("inf")


class Unsupported(Exception):
    """The engine cannot encode this operation (reported as an error, never as a verdict)."""


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def to_frac(x):
    if isinstance(x, (bool, int)):
        return int(x)
    if isinstance(x, Fraction):
        return x
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        return x
    f = Fraction(x)
    return f.numerator if f.denominator == 1 else f


def special(x):
    return isinstance(x, float) and (math.isinf(x) or math.isnan(x))


_rv_cache = {}


def R(x):
    """z3 Real term of a REAL-mode element."""
    if is_sym(x):
        if z3.is_int(x):
            return z3.ToReal(x)
        if z3.is_bool(x):
            return z3.If(x, z3.RealVal(1), z3.RealVal(0))
        return x
    if isinstance(x, float):
        x = to_frac(x)
    if special(x):
        raise Unsupported("infinite/NaN constant inside a real-valued term")
    k = (x.numerator, x.denominator)
    v = _rv_cache.get(k)
    if v is None:
        v = _rv_cache[k] = z3.Q(x.numerator, x.denominator) if x.denominator != 1 else z3.RealVal(x.numerator)
    return v


def I(x):
    if is_sym(x):
        if z3.is_bool(x):
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        return x
    return z3.IntVal(int(x))


def B(x):
    if is_sym(x):
        return x if z3.is_bool(x) else x != 0
    return z3.BoolVal(bool(x))


def band(*xs):
    out = []
    for x in xs:
        if isinstance(x, tuple):
            raise TypeError("a deferred comparison cannot be combined")
        if is_sym(x):
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def bor(*xs):
    out = []
    for x in xs:
        if isinstance(x, tuple):
            raise TypeError("a deferred comparison cannot be combined")
        if is_sym(x):
            out.append(x)
        elif x:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def bnot(x):
    return z3.Not(x) if is_sym(x) else (not x)


def bxor(a, b):
    if not is_sym(a) and not is_sym(b):
        return bool(a) != bool(b)
    return z3.Xor(B(a), B(b))


def same(a, b):
    if is_sym(a) and is_sym(b):
        return a.eq(b)
    if is_sym(a) or is_sym(b):
        return False
    return type(a) == type(b) and a == b


ODD = ("erf", "tanh", "atanh", "erfinv")


class Uf:
    """Applications of transcendental functions, axiomatised per run (see axioms())."""

    def __init__(self):
        self.apps = {}  # name -> {args ast id: (args, term)}
        self.defs = []  # side definitions (sqrt etc.)
        self.obl = []  # definedness obligations (description, z3 bool)
        self.cuts = []  # counterexample-guided facts (see refine())
        self.cutset = set()
        self.points = {}
        self.canon = {}
        self.n = 0

    def app(self, name, *args):
        if name in ODD:
            # canonical argument and sign, so that equal applications are shared
            k = (name, args[0].get_id())
            if k in self.canon:
                return self.canon[k][1]
            a = z3.simplify(args[0])
            n = z3.simplify(-a)
            sa, sn = a.sexpr(), n.sexpr()
            if len(sa) < 600:
                if (len(sn), sn) < (len(sa), sa) and const_of(a) is None:
                    t = -self.app_(name, n)
                else:
                    t = self.app_(name, a)
                self.canon[k] = (args[0], t)
                return t
        return self.app_(name, *args)

    def app_(self, name, *args):
        d = self.apps.setdefault(name, {})
        key = tuple(a.get_id() for a in args)
        if key in d:
            return d[key][1]
        f = z3.Function("uf_" + name, *([z3.RealSort()] * (len(args) + 1)))
        t = f(*args)
        d[key] = (args, t)
        c = const_of(args[0])
        if c is not None and name in TRANS:
            enclose(name, t, c, self.defs)
        return t

    def fresh(self, sort="real", tag="t"):
        self.n += 1
        nm = "_%s%d" % (tag, self.n)
        return z3.Real(nm) if sort == "real" else z3.Int(nm) if sort == "int" else z3.Bool(nm)


UF = Uf()


def reset_uf():
    global UF
    UF.__init__()


def obligation(desc, cond):
    if is_sym(cond):
        UF.obl.append((desc, cond))
    elif not cond:
        UF.obl.append((desc, z3.BoolVal(False)))


# --- monotone / ranged transcendental functions in REAL mode ------------------------------
# name -> (python function, increasing?, (lo, hi) strict range or None, known points)
TRANS = {
    "exp": (math.exp, 1, (0, None), [(0, 1)]),
    "tanh": (math.tanh, 1, (-1, 1), [(0, 0)]),
    "erf": (math.erf, 1, (-1, 1), [(0, 0)]),
    "sigmoid": (lambda v: 1 / (1 + math.exp(-v)) if v > -700 else 0.0, 1, (0, 1), [(0, Fraction(1, 2))]),
    "log": (math.log, 1, (None, None), [(1, 0)]),
    "atanh": (math.atanh, 1, (None, None), [(0, 0)]),
    "erfinv": (None, 1, (None, None), [(0, 0)]),
    "sin": (math.sin, 0, None, [(0, 0)]),
    "cos": (math.cos, 0, None, [(0, 1)]),
}


_SLACK = Fraction(1, 10**12)


def true_value(name, c):
    """f(c) by the C library (1e-12 relative slack is added by the callers), None outside its domain"""
    try:
        if name == "erfinv":
            import scipy.special
            v = float(scipy.special.erfinv(float(c)))
        else:
            v = TRANS[name][0](float(c))
    except (ValueError, OverflowError, ImportError):
        return None
    return None if math.isinf(v) or math.isnan(v) else Fraction(v)


def enclose(name, t, c, sink):
    v = true_value(name, c)
    if v is not None:
        d = _SLACK * max(1, abs(v)) + abs(v) * _SLACK
        sink.append(z3.And(t >= R(v - d), t <= R(v + d)))


LIP = {"erf": Fraction(11284, 10000), "tanh": 1, "sigmoid": Fraction(1, 4)}


def nice(c):
    """c itself if it is short, else its two neighbours with about 40 bits"""
    if c.denominator < 10**12 and abs(c.numerator) < 10**15:
        return [c]
    if c == 0:
        return [c]
    import math as m_
    k = 40 - int(m_.floor(m_.log2(abs(float(c))))) if float(c) != 0 else 80
    sc = Fraction(2) ** k
    f = m_.floor(c * sc)
    return [Fraction(f) / sc, Fraction(f + 1) / sc]


def anchor(name, x):
    """mention f(x) for a constant x, so that its enclosure and the pairwise facts are available"""
    return UF.app(name, R(x))


def refine(model, tol=1e-7):
    """facts that exclude a model in which a transcendental function has a wrong value; True if any was added.

    The facts are true of the mathematical functions: enclosures at a point together with monotonicity, tangents of
    the convex exp and the concave log.
    """
    added = False
    for name, d in UF.apps.items():
        if name not in TRANS or not TRANS[name][1]:
            if name in ("sin", "cos"):
                for (a,), t in list(d.values()):
                    c, tv = mval(model, a), mval(model, t)
                    if c is None or tv is None:
                        continue
                    v = true_value(name, c)
                    if v is not None and abs(v - tv) > tol:
                        # Lipschitz: |f(a)-f(c)| <= |a-c|
                        UF.cuts.append(z3.And(t - R(v) <= z3.If(a >= R(c), a - R(c), R(c) - a) + R(_SLACK), R(v) - t <= z3.If(a >= R(c), a - R(c), R(c) - a) + R(_SLACK)))
                        added = True
            continue
        pts = []
        for (a,), t in list(d.values()):
            c, tv = mval(model, a), mval(model, t)
            if c is None or tv is None:
                continue
            v = true_value(name, c)
            if v is None or abs(v - tv) <= tol * max(1, abs(v)):
                continue
            for cc in nice(c):
                v = true_value(name, cc)
                if v is not None:
                    pts.append((cc, v))
        for c, v in pts:
            if (name, c) in UF.cutset:
                continue
            UF.cutset.add((name, c))
            old = UF.points.setdefault(name, [])
            dl = 2 * _SLACK * max(1, abs(v))
            for (a,), t in list(d.values()):
                dom = a > 0 if name == "log" else z3.And(a > -1, a < 1) if name in ("atanh", "erfinv") else z3.BoolVal(True)
                fs = [z3.Implies(a <= R(c), t <= R(v + dl)), z3.Implies(a >= R(c), t >= R(v - dl))]
                if name in LIP:
                    k = R(LIP[name])
                    fs.append(z3.Implies(a >= R(c), t <= R(v + dl) + k * (a - R(c))))
                    fs.append(z3.Implies(a <= R(c), t >= R(v - dl) - k * (R(c) - a)))
                if name == "exp":
                    fs.append(z3.Implies(a >= R(c), t >= R(v - dl) * (1 + a - R(c))))
                    fs.append(z3.Implies(a <= R(c), t >= R(v + dl) * (1 + a - R(c)) - R(2 * dl)))
                if name == "log":
                    fs.append(t <= R(v + dl) + (a - R(c)) / R(c))
                if name in ("exp", "log"):
                    # chord to the nearest older points: above the convex exp, below the concave log
                    for c2, v2 in sorted(old, key=lambda q: abs(q[0] - c))[:3]:
                        lo, hi = ((c, v), (c2, v2)) if c < c2 else ((c2, v2), (c, v))
                        if hi[0] == lo[0]:
                            continue
                        sl = (hi[1] - lo[1]) / (hi[0] - lo[0])
                        e = 4 * _SLACK * max(1, abs(v), abs(v2))
                        chord = R(lo[1]) + R(sl) * (a - R(lo[0]))
                        inside = z3.And(a >= R(lo[0]), a <= R(hi[0]))
                        fs.append(z3.Implies(inside, t <= chord + R(e) if name == "exp" else t >= chord - R(e)))
                UF.cuts.append(z3.Implies(dom, z3.And(*fs)))
            old.append((c, v))
            added = True
    return added


def mval(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(20)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return None


def axioms():
    """Instantiated facts about every transcendental application made so far."""
    out = list(UF.defs) + list(UF.cuts)
    for name, d in UF.apps.items():
        apps = list(d.values())
        if name in TRANS:
            _, inc, rng, pts = TRANS[name]
            for args, t in apps:
                a = args[0]
                if rng:
                    lo, hi = rng
                    if lo is not None:
                        out.append(t > lo)
                    if hi is not None:
                        out.append(t < hi)
                for px, py in pts:
                    pxv, pyv = R(px), R(py)
                    if inc:
                        out.append(z3.And((a > pxv) == (t > pyv), (a == pxv) == (t == pyv)) if name not in ("log",)
                                   else z3.Implies(a > 0, z3.And((a > pxv) == (t > pyv), (a == pxv) == (t == pyv))))
                    else:
                        out.append(z3.Implies(a == pxv, t == pyv))
                if name in ("sin", "cos"):
                    out.append(z3.And(t >= -1, t <= 1))
                if name == "exp":
                    out.append(t >= 1 + a)
                    # link with log on the same value
                if name == "log":
                    out.append(z3.Implies(a > 0, t <= a - 1))
            if name in ("sin", "cos") and len(apps) <= 12:
                lo_, hi_ = (R(0), R(Fraction(31415926, 10000000))) if name == "cos" else (R(Fraction(-15707963, 10000000)), R(Fraction(15707963, 10000000)))
                for i in range(len(apps)):
                    for j in range(i + 1, len(apps)):
                        a, ta = apps[i][0][0], apps[i][1]
                        b, tb = apps[j][0][0], apps[j][1]
                        both = z3.And(a >= lo_, a <= hi_, b >= lo_, b <= hi_)
                        out.append(z3.Implies(both, (a < b) == (ta > tb) if name == "cos" else (a < b) == (ta < tb)))
            if inc and len(apps) <= 60:
                dom = (lambda a: a > 0) if name == "log" else (lambda a: z3.And(a > -1, a < 1)) if name in ("atanh", "erfinv") else None
                for i in range(len(apps)):
                    for j in range(i + 1, len(apps)):
                        a, ta = apps[i][0][0], apps[i][1]
                        b, tb = apps[j][0][0], apps[j][1]
                        ax = z3.And((a < b) == (ta < tb), (a == b) == (ta == tb))
                        if dom is not None:
                            ax = z3.Implies(z3.And(dom(a), dom(b)), ax)
                        out.append(ax)
    # Lipschitz bounds (relate nearly equal arguments)
    for name, L in (("erf", Fraction(11284, 10000)), ("tanh", 1), ("sigmoid", Fraction(1, 4)), ("sin", 1), ("cos", 1)):
        apps = list(UF.apps.get(name, {}).values())
        if 1 < len(apps) <= 12:
            for i in range(len(apps)):
                for j in range(i + 1, len(apps)):
                    d = apps[i][0][0] - apps[j][0][0]
                    t = apps[i][1] - apps[j][1]
                    out.append(z3.If(d >= 0, z3.And(t <= R(L) * d, t >= -R(L) * d), z3.And(t >= R(L) * d, t <= -R(L) * d)))
                    if name in ("erf", "tanh", "sin"):
                        d = apps[i][0][0] + apps[j][0][0]
                        t = apps[i][1] + apps[j][1]
                        out.append(z3.If(d >= 0, z3.And(t <= R(L) * d, t >= -R(L) * d), z3.And(t >= R(L) * d, t <= -R(L) * d)))
    # odd symmetry & inverse links
    for name in ("tanh", "erf"):
        apps = list(UF.apps.get(name, {}).values())
        if len(apps) <= 40:
            for i in range(len(apps)):
                for j in range(i + 1, len(apps)):
                    out.append(z3.Implies(apps[i][0][0] == -apps[j][0][0], apps[i][1] == -apps[j][1]))
    for f, g in (("exp", "log"), ("tanh", "atanh"), ("erf", "erfinv")):
        fa = list(UF.apps.get(f, {}).values())
        ga = list(UF.apps.get(g, {}).values())
        if len(fa) * len(ga) <= 900:
            for (x,), tf in fa:
                for (y,), tg in ga:
                    # g(y)=x  <=> y=f(x) on the domain of g
                    dom = y > 0 if g == "log" else z3.And(y > -1, y < 1)
                    out.append(z3.Implies(dom, z3.And((tg == x) == (y == tf), (tg < x) == (y < tf))))
    # exp/sigmoid, exp/tanh
    for (x,), t in list(UF.apps.get("sigmoid", {}).values()):
        for (y,), e in list(UF.apps.get("exp", {}).values()):
            out.append(z3.Implies(y == -x, t * (1 + e) == 1))
            out.append(z3.Implies(y == x, t * (1 + e) == e))
    return out


def trans(name, x):
    """Transcendental function of a REAL element."""
    if not is_sym(x):
        pf = TRANS[name][0]
        for px, py in TRANS[name][3]:
            if not special(x) and x == px:
                return py
        if special(x):
            if math.isnan(x):
                return x
            if name == "exp":
                return INF if x > 0 else 0
            if name in ("tanh", "erf"):
                return 1 if x > 0 else -1
            if name == "sigmoid":
                return 1 if x > 0 else 0
            if name == "log":
                return INF if x > 0 else float("nan")
            raise Unsupported(name + " of inf")
        if name == "log" and x == 0:
            return -INF
        # keep it symbolic so that identities are decided, not rounded
        return UF.app(name, R(x))
    if name == "log":
        # log(exp(t)) = t
        if z3.is_app(x) and x.decl().name() == "uf_exp":
            return x.arg(0)
        obligation("log argument > 0", x > 0)
    if name == "exp":
        r = exp_rewrite(x, 0)
        if r is not None:
            return r
    return UF.app(name, R(x))


def lin_terms(x, c, out):
    """x as a linear combination: out += [(coefficient, term)]"""
    k = x.decl().kind() if z3.is_app(x) else None
    if k == z3.Z3_OP_ADD:
        for i in range(x.num_args()):
            lin_terms(x.arg(i), c, out)
    elif k == z3.Z3_OP_SUB:
        lin_terms(x.arg(0), c, out)
        for i in range(1, x.num_args()):
            lin_terms(x.arg(i), -c, out)
    elif k == z3.Z3_OP_UMINUS:
        lin_terms(x.arg(0), -c, out)
    elif k == z3.Z3_OP_MUL and x.num_args() == 2 and const_of(x.arg(0)) is not None:
        lin_terms(x.arg(1), c * Fraction(const_of(x.arg(0))), out)
    else:
        out.append((c, x))


def _has_log(x, depth=0):
    if not z3.is_app(x) or depth > 6:
        return False
    if x.decl().name() == "uf_log":
        return True
    if x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_ITE):
        return any(_has_log(x.arg(i), depth + 1) for i in range(x.num_args()))
    return False


def exp_rewrite(x, depth):
    """exp(sum of logs) = product, case-splitting conditionals; None if nothing applies"""
    x = R(x)
    if not _has_log(x) or depth > 4:
        return None
    terms = []
    lin_terms(x, Fraction(1), terms)
    for c, t in terms:
        if z3.is_app_of(t, z3.Z3_OP_ITE) and _has_log(t):
            g = t.arg(0)
            yes = sum_terms([(ck, tk.arg(1) if z3.is_app_of(tk, z3.Z3_OP_ITE) and tk.arg(0).eq(g) else tk) for ck, tk in terms])
            no = sum_terms([(ck, tk.arg(2) if z3.is_app_of(tk, z3.Z3_OP_ITE) and tk.arg(0).eq(g) else tk) for ck, tk in terms])
            a, b = exp_rewrite(yes, depth + 1), exp_rewrite(no, depth + 1)
            return ite(g, a if a is not None else trans_plain("exp", yes), b if b is not None else trans_plain("exp", no))
    prod, rest = 1, []
    hit = False
    for c, t in terms:
        if z3.is_app(t) and t.decl().name() == "uf_log" and c.denominator == 1 and abs(c) <= 3:
            hit = True
            for _ in range(abs(int(c))):
                prod = mul(prod, t.arg(0)) if c > 0 else div(prod, t.arg(0))
        else:
            rest.append((c, t))
    if not hit:
        return None
    if rest:
        prod = mul(prod, trans_plain("exp", sum_terms(rest)))
    return prod


def trans_plain(name, x):
    c = const_of(z3.simplify(x)) if is_sym(x) else x
    if c is not None:
        return trans(name, c)
    return UF.app(name, R(x))


def sum_terms(ts):
    r = 0
    for c, t in ts:
        r = add(r, mul(c.numerator if c.denominator == 1 else c, t))
    return R(r)


# ------------------------------- REAL / INT arithmetic ------------------------------------

def _num(x):
    if isinstance(x, bool):
        return int(x)
    if is_sym(x) and z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def _both(a, b):
    """Bring two numeric symbolic elements to a common sort (Int if both integer, else Real)."""
    ai = z3.is_int(a) if is_sym(a) else isinstance(a, int)
    bi = z3.is_int(b) if is_sym(b) else isinstance(b, int)
    if ai and bi:
        return I(a), I(b)
    return R(a), R(b)


def add(a, b):
    a, b = _num(a), _num(b)
    if not is_sym(a) and not is_sym(b):
        if special(a) or special(b):
            return float(a) + float(b)
        return a + b
    if not is_sym(a):
        if a == 0:
            return b
        if special(a):
            return a
    if not is_sym(b):
        if b == 0:
            return a
        if special(b):
            return b
    a, b = _both(a, b)
    return a + b


def neg(a):
    a = _num(a)
    if not is_sym(a):
        return -a
    return -a


def sub(a, b):
    a, b = _num(a), _num(b)
    if not is_sym(a) and not is_sym(b):
        if special(a) or special(b):
            return float(a) - float(b)
        return a - b
    if not is_sym(b) and not special(b) and b == 0:
        return a
    if not is_sym(b) and special(b):
        return -b
    if not is_sym(a):
        if special(a):
            return a
        if a == 0:
            return -b
    if is_sym(a) and is_sym(b) and a.eq(b):
        return 0
    a, b = _both(a, b)
    return a - b


def mul(a, b):
    a, b = _num(a), _num(b)
    if not is_sym(a) and not is_sym(b):
        if special(a) or special(b):
            return float(a) * float(b)
        return a * b
    if is_sym(a):
        a, b = b, a
    if not is_sym(a):
        if special(a):
            # inf * symbolic: sign dependent
            raise Unsupported("inf * symbolic")
        if a == 0:
            return 0
        if a == 1:
            return b
    elif z3.is_app_of(a, z3.Z3_OP_ITE) or z3.is_app_of(b, z3.Z3_OP_ITE):
        # distribute products over 0/1 masks
        for p, q in ((a, b), (b, a)):
            if z3.is_app_of(p, z3.Z3_OP_ITE):
                x, y = const_of(p.arg(1)), const_of(p.arg(2))
                if x is not None and y is not None and x in (0, 1) and y in (0, 1):
                    return ite(p.arg(0), mul(x, q), mul(y, q))
    a, b = _both(a, b)
    return a * b


def const_of(t):
    if not is_sym(t):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def div(a, b):
    """True division."""
    a, b = _num(a), _num(b)
    if not is_sym(b):
        if special(b):
            return float("nan") if (not is_sym(a) and special(a)) or math.isnan(b) else 0
        if b == 0:
            if is_sym(a):
                raise Unsupported("symbolic / 0")
            if special(a):
                return a
            return float("nan") if a == 0 else math.copysign(INF, a)
        if not is_sym(a):
            if special(a):
                return a if b > 0 else -a
            r = Fraction(a) / Fraction(b)
            return r.numerator if r.denominator == 1 else r
        if b == 1:
            return R(a)
        return R(a) / R(b)
    if not is_sym(a) and special(a):
        raise Unsupported("inf / symbolic")
    b = R(b)
    obligation("denominator != 0", b != 0)
    if not is_sym(a) and a == 0:
        return 0
    a = R(a)
    if a.eq(b):
        return 1
    return a / b


PRUNE = [None]  # a callable deciding conditions under the path condition, when an instance asks for it


def ite(c, a, b):
    if not is_sym(c):
        return a if c else b
    if same(a, b):
        return a
    if PRUNE[0] is not None:
        v = PRUNE[0](c)
        if v is not None:
            return a if v else b
    sa, sb = is_sym(a), is_sym(b)
    ab = z3.is_bool(a) if sa else isinstance(a, bool)
    bb = z3.is_bool(b) if sb else isinstance(b, bool)
    if ab and bb:
        if not sa and not sb:
            return c if a else z3.Not(c)
        return z3.If(c, B(a), B(b))
    a, b = _num(a), _num(b)
    if (not is_sym(a) and special(a)) or (not is_sym(b) and special(b)):
        raise Unsupported("conditional infinity/NaN in REAL mode")
    a, b = _both(a, b)
    return z3.If(c, a, b)


def lt(a, b):
    a, b = _num(a), _num(b)
    if not is_sym(a) and not is_sym(b):
        return a < b
    if not is_sym(a) and special(a):
        return bool(a < 0)
    if not is_sym(b) and special(b):
        return bool(b > 0)
    if same(a, b):
        return False
    a, b = _both(a, b)
    return a < b


def le(a, b):
    a, b = _num(a), _num(b)
    if not is_sym(a) and not is_sym(b):
        return a <= b
    if not is_sym(a) and special(a):
        return bool(a < 0)
    if not is_sym(b) and special(b):
        return bool(b > 0)
    if same(a, b):
        return True
    a, b = _both(a, b)
    return a <= b


def eq(a, b):
    ab = z3.is_bool(a) if is_sym(a) else isinstance(a, bool)
    bb = z3.is_bool(b) if is_sym(b) else isinstance(b, bool)
    if ab and bb:
        if not is_sym(a) and not is_sym(b):
            return a == b
        return B(a) == B(b)
    a, b = _num(a), _num(b)
    if not is_sym(a) and not is_sym(b):
        return a == b
    if (not is_sym(a) and special(a)) or (not is_sym(b) and special(b)):
        return False
    if same(a, b):
        return True
    if _bvints and (is_sym(a) and a.get_id() in _bvints or is_sym(b) and b.get_id() in _bvints):
        r = _bveq(a, b)
        if r is not None:
            return r
    a, b = _both(a, b)
    return a == b


def _bveq(a, b):
    if not is_sym(a):
        a, b = b, a
    x = bv_of(a)
    if x is None:
        return _bveq(b, a) if is_sym(b) and bv_of(b) is not None else None
    n = x[0].size()
    if not is_sym(b):
        if isinstance(b, int) and (0 <= b < 2 ** (n - 1)):
            return x[0] == z3.BitVecVal(b, n)
        return None
    y = bv_of(b)
    if y is None:
        return None
    w = max(n, y[0].size()) + 1
    ext = lambda t, sg: (z3.SignExt if sg else z3.ZeroExt)(w - t.size(), t)  # noqa: E731
    return ext(*x) == ext(*y)


def ne(a, b):
    return bnot(eq(a, b))


def maximum(a, b):
    if same(a, b):
        return a
    a, b = _num(a), _num(b)
    if not is_sym(a) and not is_sym(b):
        if special(a) and math.isnan(a) or special(b) and math.isnan(b):
            return float("nan")
        return max(a, b)
    for p, q in ((a, b), (b, a)):
        if not is_sym(p) and special(p):
            return p if p > 0 else q
    return ite(le(b, a), a, b)


def minimum(a, b):
    if same(a, b):
        return a
    a, b = _num(a), _num(b)
    if not is_sym(a) and not is_sym(b):
        if special(a) and math.isnan(a) or special(b) and math.isnan(b):
            return float("nan")
        return min(a, b)
    for p, q in ((a, b), (b, a)):
        if not is_sym(p) and special(p):
            return p if p < 0 else q
    return ite(le(a, b), a, b)


def rabs(a):
    a = _num(a)
    if not is_sym(a):
        return abs(a)
    if PRUNE[0] is not None:
        return ite(a >= 0, a, -a)
    return z3.If(a >= 0, a, -a)


def sign(a):
    a = _num(a)
    if not is_sym(a):
        return (a > 0) - (a < 0)
    one, z, m = (z3.IntVal(1), z3.IntVal(0), z3.IntVal(-1)) if z3.is_int(a) else (R(1), R(0), R(-1))
    return z3.If(a > 0, one, z3.If(a < 0, m, z))


def floor_int(a):
    """floor as an Int-sorted element"""
    if not is_sym(a):
        if special(a):
            raise Unsupported("floor of inf/nan")
        return math.floor(a)
    if z3.is_int(a):
        return a
    return z3.ToInt(a)


def _as_real(i):
    return z3.ToReal(i) if is_sym(i) and z3.is_int(i) else i


def floor(a):
    if not is_sym(a) and special(a):
        return a
    return _as_real(floor_int(a))


def ceil(a):
    if not is_sym(a) and special(a):
        return a
    return neg(_as_real(floor_int(neg(a))))


def trunc(a):
    if not is_sym(a):
        return a if special(a) else math.trunc(a)
    if z3.is_int(a):
        return a
    return _as_real(z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a)))


def trunc_int(a):
    if not is_sym(a):
        if special(a):
            raise Unsupported("int(inf)")
        return math.trunc(a)
    if z3.is_int(a):
        return a
    return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))


def round_he(a):
    """round half to even"""
    if not is_sym(a):
        return a if special(a) else round(Fraction(a))
    if z3.is_int(a):
        return a
    f = z3.ToInt(a)
    d = a - z3.ToReal(f)
    half = z3.Q(1, 2)
    return z3.ToReal(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))


def floordiv(a, b):
    a, b = _num(a), _num(b)
    ai = z3.is_int(a) if is_sym(a) else isinstance(a, int)
    bi = z3.is_int(b) if is_sym(b) else isinstance(b, int)
    if ai and bi:
        if not is_sym(a) and not is_sym(b):
            return a // b
        if is_sym(b):
            obligation("divisor != 0", b != 0)
            q = I(a) / I(b)  # euclidean
            r = I(a) % I(b)
            return z3.If(z3.And(I(b) < 0, r != 0), q - 1, q) if True else q
        if b == 0:
            raise ZeroDivisionError
        if b > 0:
            return I(a) / I(b)
        return (-I(a)) / I(-b)
    return floor(div(a, b))


def truncdiv(a, b):
    q = floordiv(a, b)
    if not is_sym(a) and not is_sym(b):
        return int(Fraction(a) / Fraction(b)) if isinstance(a, int) and isinstance(b, int) else math.trunc(Fraction(a) / Fraction(b))
    ai = z3.is_int(a) if is_sym(a) else isinstance(a, int)
    bi = z3.is_int(b) if is_sym(b) else isinstance(b, int)
    if ai and bi:
        ex = eq(mul(q, b), a)
        return ite(bor(ex, le(0, q)), q, add(q, 1))
    return trunc(div(a, b))


def remainder(a, b):
    """python-style remainder (sign of divisor)"""
    if not is_sym(a) and not is_sym(b):
        a, b = _num(a), _num(b)
        return a % b
    ai = z3.is_int(a) if is_sym(a) else isinstance(a, (int, bool))
    if ai and not is_sym(b) and isinstance(b, int) and b > 0:
        return I(a) % I(b)
    return sub(a, mul(floordiv(a, b), b))


def fmod(a, b):
    return sub(a, mul(truncdiv(a, b), b))


def sqrt(a):
    a = _num(a)
    if not is_sym(a):
        if special(a):
            return a
        if a < 0:
            return float("nan")
        fr = Fraction(a)
        n, d = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
        if n * n == fr.numerator and d * d == fr.denominator:
            r = Fraction(n, d)
            return r.numerator if r.denominator == 1 else r
        a = R(a)
    a = R(a)
    d = UF.apps.setdefault("sqrt", {})
    key = (a.get_id(),)
    if key in d:
        return d[key][1]
    obligation("sqrt argument >= 0", a >= 0)
    f = z3.Function("uf_sqrt", z3.RealSort(), z3.RealSort())
    t = f(a)
    d[key] = ((a,), t)
    UF.defs.append(z3.Implies(a >= 0, z3.And(t >= 0, t * t == a)))
    return t


def rpow(a, b):
    a, b = _num(a), _num(b)
    if not is_sym(b):
        if special(b):
            raise Unsupported("pow inf")
        if isinstance(b, Fraction) and b.denominator == 1:
            b = b.numerator
        if b == 0:
            return 1
        if b == 1:
            return a
        if isinstance(b, int) and 0 < b <= 16:
            r = a
            for _ in range(b - 1):
                r = mul(r, a)
            return r
        if isinstance(b, int) and -16 <= b < 0:
            return div(1, rpow(a, -b))
        if b == Fraction(1, 2):
            return sqrt(a)
        if b == Fraction(-1, 2):
            return div(1, sqrt(a))
        if not is_sym(a):
            if special(a):
                return float(a) ** float(b)
            if isinstance(b, int) and abs(b) < 4096:
                return Fraction(a) ** b
            if a == 0 and b > 0:
                return 0
            if a == 1:
                return 1
    if not is_sym(a) and a == 1:
        return 1
    # a ** b as an uninterpreted function, positive for positive base
    a, b = R(a), R(b)
    t = UF.app("pow", a, b)
    UF.defs.append(z3.Implies(a > 0, t > 0))
    UF.defs.append(z3.Implies(a == 1, t == 1))
    UF.defs.append(z3.Implies(z3.And(a == 0, b > 0), t == 0))
    UF.defs.append(z3.Implies(z3.And(a > 0, a < 1, b > 0), t < 1))
    return t


def atan2(y, x):
    if not is_sym(y) and not is_sym(x):
        return to_frac(math.atan2(float(y), float(x)))
    y, x = R(y), R(x)
    t = UF.app("atan2", y, x)
    pi = R(Fraction(math.pi)) + z3.Q(1, 10**15)
    UF.defs.append(z3.And(t >= -pi, t <= pi))
    UF.defs.append(z3.Implies(z3.And(y == 0, x >= 0), t == 0))
    UF.defs.append(z3.Implies(y > 0, t > 0))
    UF.defs.append(z3.Implies(y < 0, t < 0))
    UF.defs.append(z3.Implies(z3.And(x > 0, y != 0), z3.And(t > -pi / 2, t < pi / 2)))
    UF.defs.append(z3.Implies(z3.And(x < 0, y >= 0), t > R(Fraction(3, 2))))
    return t


def wrap_int(x, bits, signed):
    """Reduce an integer element to its width."""
    if not is_sym(x):
        x = int(x) & ((1 << bits) - 1)
        if signed and x >> (bits - 1):
            x -= 1 << bits
        return x
    if bits >= 64:
        return x
    m = x % (1 << bits)
    if signed:
        return z3.If(m >= (1 << (bits - 1)), m - (1 << bits), m)
    return m


# --------------------------------- IEEE FP mode -------------------------------------------
RNE = z3.RNE()
_bvints = {}


def bvint(b, signed):
    """an Int element that remembers the bit-vector it came from (keeps FP queries in FP+BV theory)"""
    t = z3.BV2Int(b, signed)
    _bvints[t.get_id()] = (t, b, signed)
    return t


def bv_of(x):
    r = _bvints.get(x.get_id())
    return (r[1], r[2]) if r is not None else None


_fsort = {16: z3.FPSort(5, 11), 32: z3.Float32(), 64: z3.Float64()}


def fsort(bits):
    return _fsort[bits]


def F(x, bits):
    """z3 FP term of an FP-mode element"""
    if is_sym(x):
        if z3.is_fp(x):
            return x if x.sort() == _fsort[bits] else z3.fpFPToFP(RNE, x, _fsort[bits])
        if z3.is_bool(x):
            return z3.If(x, F(1.0, bits), F(0.0, bits))
        if z3.is_int(x):
            b = bv_of(x)
            if b is not None:
                return z3.fpUnsignedToFP(RNE, b[0], _fsort[bits]) if not b[1] else z3.fpSignedToFP(RNE, b[0], _fsort[bits])
            return z3.fpRealToFP(RNE, z3.ToReal(x), _fsort[bits])
        if z3.is_bv(x):
            return z3.fpToFP(RNE, x, _fsort[bits])
        raise Unsupported("FP of " + str(x.sort()))
    x = float(x)
    if math.isnan(x):
        return z3.fpNaN(_fsort[bits])
    if math.isinf(x):
        return z3.fpPlusInfinity(_fsort[bits]) if x > 0 else z3.fpMinusInfinity(_fsort[bits])
    if x == 0:
        return z3.fpMinusZero(_fsort[bits]) if math.copysign(1, x) < 0 else z3.fpPlusZero(_fsort[bits])
    if bits == 64:
        return z3.fpBVToFP(z3.BitVecVal(struct.unpack("<Q", struct.pack("<d", x))[0], 64), _fsort[64])
    if bits == 32:
        import numpy as np
        return z3.fpBVToFP(z3.BitVecVal(int(np.float32(x).view(np.uint32)), 32), _fsort[32])
    import numpy as np
    return z3.fpBVToFP(z3.BitVecVal(int(np.float16(x).view(np.uint16)), 16), _fsort[16])
