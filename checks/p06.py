"""P06: tail functions agree with the distribution's own CDF."""
import math
from fractions import Fraction

import torch
from torch.distributions import Exponential, Laplace, Normal, Uniform

import neuralcompression.functional as ncF

BOUNDS = "every x in the stated range (reals); Normal with symbolic location/scale (standardisation, mirror identities) and with concrete location/scale (agreement with the CDF on |z| <= 5); Laplace, Uniform and Exponential with symbolic or concrete parameters; the Normal lower tail on [-60, -10] float32 and [-200, -20] float64"
OUTSIDE = "float rounding; the iterative tail search (unbounded optimisation loop); distributions other than the four"
ASSUMPTIONS = ["erf, exp, log are axiomatised (range, monotonicity, Lipschitz / tangent bounds, inverses, enclosures at points found by refinement)"]

S2 = math.sqrt(0.5)


def phi(z):
    """reference normal CDF"""
    return 0.5 * (1 + torch.erf(z * S2))


def ndtr_body(lo, hi):
    def body(h):
        x = h.tensor("x", (2,), lo=lo, hi=hi)
        y = ncF.ndtr(x)
        h.claim("ndtr = (1+erf(x/sqrt2))/2", h.close(y, phi(x)))
        h.claim("ndtr in [0,1]", h.le(torch.zeros(()), y))
        h.claim("ndtr in [0,1] ", h.le(y, torch.ones(())))
        h.claim("ndtr(-x) = 1 - ndtr(x)", h.close(ncF.ndtr(-x), 1 - y))
        h.claim("ndtr is nondecreasing", h.implies(x[0] <= x[1], h.le(y[0], y[1] + 1e-6)))
    return body


def log_ndtr_central(dt, lo, hi):
    def body(h):
        x = h.tensor("x", (1,), lo=lo, hi=hi, dtype=dt)
        y = ncF.log_ndtr(x)
        h.claim("log_ndtr = log(ndtr) in the central range", h.close(y, torch.log(phi(x))))
        h.claim("log_ndtr <= 0", h.le(y, torch.zeros(()) + 1e-6))
        h.claim("dtype kept", y.dtype == dt)
    return body


def log_ndtr_tail(dt, lo, hi):
    """Mills-ratio enclosure: phi(x)/|x| (1-1/x^2+3/x^4-15/x^6) < Phi(x) < phi(x)/|x| (1-1/x^2+3/x^4) for x < 0"""
    def body(h):
        x = h.tensor("x", (1,), lo=lo, hi=hi, dtype=dt)
        y = ncF.log_ndtr(x)
        lead = -0.5 * (math.log(2 * math.pi) + x ** 2) - torch.log(-x)
        x2 = x ** 2
        lower = lead + torch.log1p(-1 / x2 + 3 / x2 ** 2 - 15 / x2 ** 3)
        upper = lead + torch.log1p(-1 / x2 + 3 / x2 ** 2)
        h.claim("lower tail inside the Mills-ratio enclosure (below)", h.le(lower - tol(dt, x2), y))
        h.claim("lower tail inside the Mills-ratio enclosure (above)", h.le(y, upper + tol(dt, x2)))
    return body


def tol(dt, x2):
    # rounding allowance of the dtype at magnitude x^2/2 (the solver's arithmetic itself is exact)
    return (x2 + 8) * (2.0 ** -22 if dt == torch.float32 else 2.0 ** -48)


def normal_standard(h):
    x = h.tensor("x", (2,), lo=-4, hi=4)
    loc = h.tensor("loc", (2,), lo=-2, hi=2)
    sc = h.tensor("scale", (2,), lo=0.5, hi=2)
    d = Normal(loc, sc, validate_args=False)
    z = (x - loc) / sc
    h.claim("log_cdf standardises", h.close(ncF.log_cdf(x, d), ncF.log_ndtr(z)))
    h.claim("survival standardises and mirrors", h.close(ncF.survival_function(x, d), ncF.ndtr(-z)))
    h.claim("log_survival standardises and mirrors", h.close(ncF.log_survival_function(x, d), ncF.log_ndtr(-z)))


def normal_concrete(loc, sc):
    def body(h):
        x = h.tensor("x", (1,), lo=loc - 4.5 * sc, hi=loc + 4.5 * sc)
        d = Normal(loc, sc, validate_args=False)
        c = d.cdf(x)
        h.claim("survival = 1 - cdf", h.close(ncF.survival_function(x, d), 1 - c))
        h.claim("log_cdf = log(cdf)", h.close(torch.exp(ncF.log_cdf(x, d)), c))
        h.claim("log_survival = log(1 - cdf)", h.close(torch.exp(ncF.log_survival_function(x, d)), 1 - c))
    return body


def generic(mk, lo, hi):
    def body(h):
        d, x = mk(h)
        c = d.cdf(x)
        h.claim("survival = 1 - cdf", h.close(ncF.survival_function(x, d), 1 - c))
        h.claim("log_cdf = log(cdf)", h.close(ncF.log_cdf(x, d), torch.log(c)))
        h.claim("log_survival = log(1 - cdf)", h.close(ncF.log_survival_function(x, d), torch.log(1 - c)))
    return body


def mk_uniform(h):
    a = h.tensor("low", (1,), lo=-2, hi=2)
    w = h.tensor("width", (1,), lo=0.25, hi=4)
    t = h.tensor("t", (1,), lo=0.05, hi=0.95)
    return Uniform(a, a + w, validate_args=False), a + t * w


def mk_uniform01(h):
    return Uniform(0.0, 1.0), h.tensor("x", (1,), lo=0.01, hi=0.99)


def mk_uniform_c(h):
    return Uniform(-1.0, 3.0, validate_args=False), h.tensor("x", (1,), lo=-0.95, hi=2.95)


def mk_laplace(h):
    loc = h.tensor("loc", (1,), lo=-2, hi=2)
    return Laplace(loc, torch.tensor([1.5]), validate_args=False), h.tensor("x", (1,), lo=-5, hi=5)


def mk_exponential(h):
    r = h.tensor("rate", (1,), lo=0.5, hi=2)
    return Exponential(r, validate_args=False), h.tensor("x", (1,), lo=0.1, hi=4)


def expm1_body(lo, hi):
    def body(h):
        x = h.tensor("x", (2,), lo=lo, hi=hi)
        y = ncF.log_expm1(x)
        if hi <= 15:
            h.claim("log(exp(x)-1)", h.close(y, torch.log(torch.exp(x) - 1)))
        else:
            h.claim("large x: the identity", h.close(y, x))
    return body


def expm1_fp(h):
    x = h.tensor("x", (1,), lo=15, hi=3e38)
    y = ncF.log_expm1(x)
    h.claim("no overflow for large x", h.eq(y, x))


def quantile(mk, tm):
    """icdf-based tails: the mass outside the cut-offs is the requested one"""
    def body(h):
        d = mk(h)
        lo, up = ncF.lower_tail(d, tm), ncF.upper_tail(d, tm)
        h.claim("cdf(lower cut-off) = tail_mass/2", h.close(d.cdf(lo), torch.full_like(d.cdf(lo), tm / 2)))
        h.claim("1 - cdf(upper cut-off) = tail_mass/2", h.close(1 - d.cdf(up), torch.full_like(d.cdf(up), tm / 2)))
        h.claim("cut-offs ordered", h.le(lo, up))
        h.claim("no gradient", not lo.requires_grad and not up.requires_grad)
    return body


def mkd_normal(h):
    return Normal(h.tensor("loc", (1,), lo=-2, hi=2), h.tensor("scale", (1,), lo=0.5, hi=2), validate_args=False)


def mkd_uniform(h):
    a = h.tensor("low", (1,), lo=-2, hi=2)
    return Uniform(a, a + h.tensor("width", (1,), lo=0.25, hi=4), validate_args=False)


def qoffset(h):
    loc = h.tensor("loc", (2,), lo=-10, hi=10, grad=True)
    d = Normal(loc, torch.ones(2), validate_args=False)
    q = ncF.quantization_offset(d)
    l0 = loc.detach()
    h.claim("offset in [-1/2, 1/2]", h.le(q.abs(), torch.full((2,), 0.5)))
    h.claim("mean - offset is an integer", h.eq(l0 - q, torch.round(l0 - q)))
    h.claim("offset carries no gradient", not q.requires_grad)


def search_stops(shape):
    """f(0) = target: the search must stop, and at 0"""
    def body(h):
        t = h.tensor("t", (), lo=-4, hi=4)
        s = h.tensor("s", (), lo=0.5, hi=2)
        calls = [0]

        def f(x):
            calls[0] += 1
            if calls[0] > 400:
                raise RuntimeError("tail search does not stop at the solution")
            return s * x + t
        r = ncF.estimate_tails(f, t, shape, device="cpu")
        h.claim("the solution is kept", h.close(r.detach(), torch.zeros(shape)))
    return body


def instances(tier):
    out = []
    out += [dict(name="ndtr/%s..%s" % r, group="ndtr", body=ndtr_body(*r), budget=120, timeout=30) for r in ((-6, 6), (-40, 40))]
    out += [dict(name="log_ndtr/central/%s/%s..%s" % (str(dt)[6:], lo, hi), group="central/%s" % dt, body=log_ndtr_central(dt, lo, hi), budget=120, timeout=30)
            for dt, lo, hi in ((torch.float32, -3, 3), (torch.float32, -3, 9), (torch.float64, -3, 10))]
    out += [dict(name="log_ndtr/tail/%s" % str(dt)[6:], body=log_ndtr_tail(dt, lo, hi), budget=200, timeout=60)
            for dt, lo, hi in ((torch.float32, -60, -10.01), (torch.float64, -200, -20.01))]
    out += [dict(name="normal/standardise", body=normal_standard, budget=120, timeout=30)]
    out += [dict(name="normal/%s,%s" % p, group="normal-c", body=normal_concrete(*p), budget=150, timeout=40) for p in ((0.0, 1.0), (1.5, 0.5), (-1.0, 2.0))]
    for nm, mk in (("uniform", mk_uniform), ("uniform01", mk_uniform01), ("uniform-1-3", mk_uniform_c), ("laplace", mk_laplace), ("exponential", mk_exponential)):
        out.append(dict(name="generic/" + nm, body=generic(mk, 0, 0), budget=120, timeout=30))
    out += [dict(name="log_expm1/small", body=expm1_body(0.01, 14.99)), dict(name="log_expm1/large", body=expm1_body(15.0, 5000)), dict(name="log_expm1/fp", mode="fp", body=expm1_fp)]
    for nm, mk in (("normal", mkd_normal), ("uniform", mkd_uniform)):
        for tm in (2 ** -8, 0.1, 1.0):
            out.append(dict(name="tails/%s/%s" % (nm, tm), group="tails/" + nm, body=quantile(mk, tm), budget=120, timeout=30))
    out.append(dict(name="quantization-offset", body=qoffset))
    out += [dict(name="search-stops/%s" % (sh,), group="search-stops", body=search_stops(sh), budget=100) for sh in ((1,), (2,))]
    return out
