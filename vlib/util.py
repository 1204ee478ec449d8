"""small helpers shared by the harnesses"""
import torch


def pat(shape, k=1, dtype=torch.float32, lo=0.0, hi=1.0):
    """deterministic, irregular concrete values (multiples of 1/64, exactly representable) in [lo, hi)"""
    n = 1
    for s in shape:
        n *= s
    v = [((i * 37 + i * i * 11 + 13 * k + 5) % 64) / 64 for i in range(n)]
    return torch.tensor([lo + (hi - lo) * x for x in v], dtype=dtype).reshape(tuple(shape))


def fill(module, k=1, lo=-0.5, hi=0.5):
    """concrete, irregular parameter values for a module"""
    with torch.no_grad():
        for i, (n, p) in enumerate(module.named_parameters()):
            p.copy_(pat(tuple(p.shape), k + i, p.dtype, lo, hi))
    return module


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)


class SymAwareInt(metaclass=_IntMeta):
    """int() that also truncates symbolic floats of the shape engine"""

    def __new__(cls, x=0, *a):
        if isinstance(x, torch.SymFloat):
            return torch.sym_int(x)
        if isinstance(x, torch.SymInt):
            return x
        return int(x, *a)


def sym_int_in(*modules):
    for m in modules:
        m.int = SymAwareInt


def interval(t, b, memo=None):
    """sound enclosure of a real-valued term whose variables all lie in [-b, b]; (-inf, inf) when unknown"""
    import z3
    from fractions import Fraction
    inf = float("inf")
    if not isinstance(t, z3.ExprRef):
        return (Fraction(t), Fraction(t))
    memo = {} if memo is None else memo

    def mulb(x, y):
        if x in (inf, -inf) or y in (inf, -inf):
            return 0 if x == 0 or y == 0 else (inf if (x > 0) == (y > 0) else -inf)
        return x * y

    def mul(p, q):
        v = [mulb(x, y) for x in p for y in q]
        return (min(v), max(v))

    def go(e):
        k = e.get_id()
        if k in memo:
            return memo[k][1]
        r = (-inf, inf)
        kind = e.decl().kind()
        if z3.is_rational_value(e) or z3.is_int_value(e):
            f = Fraction(e.as_fraction()) if z3.is_rational_value(e) else Fraction(e.as_long())
            r = (f, f)
        elif z3.is_const(e) and kind == z3.Z3_OP_UNINTERPRETED:
            r = (-Fraction(b), Fraction(b))
        else:
            ch = e.children()
            if kind == z3.Z3_OP_ADD:
                c = [go(x) for x in ch]
                r = (sum(x[0] for x in c), sum(x[1] for x in c))
            elif kind == z3.Z3_OP_UMINUS:
                c = go(ch[0])
                r = (-c[1], -c[0])
            elif kind == z3.Z3_OP_SUB:
                r = go(ch[0])
                for x in ch[1:]:
                    c = go(x)
                    r = (r[0] - c[1], r[1] - c[0])
            elif kind == z3.Z3_OP_MUL:
                r, rest = (Fraction(1), Fraction(1)), list(ch)
                while rest:
                    x = rest.pop(0)
                    c = go(x)
                    same = [i for i, y in enumerate(rest) if y.eq(x)]
                    if same:
                        rest.pop(same[0])
                        sq = mul(c, c)
                        c = (max(sq[0], 0), sq[1])
                    r = mul(r, c)
            elif kind == z3.Z3_OP_DIV:
                p, q = go(ch[0]), go(ch[1])
                if q[0] > 0 or q[1] < 0:
                    iv = [0 if abs(x) == inf else 1 / Fraction(x) for x in q]
                    r = mul(p, (min(iv), max(iv)))
            elif kind == z3.Z3_OP_ITE:
                p, q = go(ch[1]), go(ch[2])
                r = (min(p[0], q[0]), max(p[1], q[1]))
            elif kind == z3.Z3_OP_TO_REAL:
                r = go(ch[0])
        memo[k] = (e, r)
        return r

    return go(t)


def underflow(x, cut, b):
    """mask of the entries of x that are below `cut`: decided by interval arithmetic where the entries are symbolic (entries it cannot place stay symbolic comparisons)"""
    from . import symten as T
    if not T.S.active or not isinstance(x, T.SymTensor) or x.is_conc:
        return x < cut
    out, memo = [], {}
    for e in x.detach().elems().reshape(-1):
        lo, hi = interval(e, b, memo)
        if hi < cut:
            out.append(True)
        elif lo >= cut:
            out.append(False)
        else:
            return x < cut
    return torch.tensor(out).reshape(tuple(x.shape))


def dup(m):
    """a copy of a module tree with its own module objects that shares parameters and buffers (deepcopy of buffers fails inside the engine)"""
    import copy
    n = copy.copy(m)
    for k in ("_parameters", "_buffers", "_modules"):
        n.__dict__[k] = type(m.__dict__[k])(m.__dict__[k]) if k != "_modules" else {a: (dup(b) if b is not None else None) for a, b in m._modules.items()}
    return n
