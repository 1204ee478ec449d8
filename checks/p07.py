"""P07: distributions with additive uniform noise."""
import torch
from torch.distributions import Laplace, Normal, Uniform

import neuralcompression.functional as ncF
from neuralcompression.distributions import NoisyNormal, UniformNoise

BOUNDS = "every value in [-4, 4] (reals; [-1.9,-1.6] and [1.8,2] for the log-probability of a normal base), normal bases N(1/4,1) and N(0,1/4) (thorough: every location in [-2,2] and scale in [1/2,2]), batch shapes (), (2,), (2,2); every base sample and noise draw for sample shapes (), (3,), (2,2); Normal, Laplace and Uniform bases"
OUTSIDE = "float rounding; the far tails (|z| > 9)"
ASSUMPTIONS = ["random draws of PyTorch are symbolic: any value of the generator's range", "erf/exp/log axiomatised"]


def mass(mk, lo=-4, hi=4):
    def body(h):
        base, n = mk(h)
        v = h.tensor("v", (n,), lo=lo, hi=hi)
        d = UniformNoise(base)
        want = base.cdf(v + 0.5) - base.cdf(v - 0.5)
        p = d.prob(v)
        h.claim("probability = cdf(v+1/2) - cdf(v-1/2)", h.close(p, want))
        h.claim("probability >= 0", h.le(torch.zeros(()), p + 1e-6))
        h.claim("probability <= 1", h.le(p, torch.ones(()) + 1e-6))
    return body


def logmass(mk, lo=-3, hi=3):
    def body(h):
        base, n = mk(h)
        v = h.tensor("v", (n,), lo=lo, hi=hi)
        d = UniformNoise(base)
        c1, c0 = base.cdf(v + 0.5), base.cdf(v - 0.5)
        h.assume(h.all_((c0 > 0.001) & (c1 < 0.999)))
        lp = d.log_prob(v)
        h.claim("log probability is the logarithm of the probability", h.close(torch.exp(lp), c1 - c0))
    return body


def telescopes(h):
    """the integer-spaced masses sum to the base's probability of the whole interval"""
    loc = h.tensor("loc", (1,), lo=-2, hi=2)
    d = UniformNoise(Laplace(loc, torch.ones(1), validate_args=False))
    o = h.tensor("o", (1,), lo=-0.5, hi=0.5)
    tot = sum(d.prob(o + k) for k in (-1, 0, 1))
    h.claim("bin masses add up", h.close(tot, d.cdf(o + 1.5) - d.cdf(o - 1.5)))


def exists(h, cs):
    """solver query: can the noise take these values? (a satisfiable query: independence of the draws)"""
    from vlib import elem as E
    from vlib import harness as H
    return H.decide_query(list(h.path.pc) + cs, E.axioms(), 20, h.stats)[0] == "sat"


def degenerate(bshape):
    """a base whose samples are all (almost) the same point, so that a sample shows its noise"""
    return Uniform(torch.zeros(bshape), torch.full(bshape, 1e-6))


def sampling(bshape, sshape, mk):
    """every sample has its own noise in [-1/2, 1/2) around the base sample, for every draw"""
    want = tuple(sshape) + tuple(bshape)

    def body(h):
        d = UniformNoise(degenerate(bshape))
        y = d.rsample(torch.Size(sshape)) if mk == "rsample" else d.sample(torch.Size(sshape))
        h.claim("sample shape = sample_shape + batch_shape", tuple(y.shape) == want)
        h.claim("noise within half a step of the base sample", h.le(y.abs(), torch.full((), 0.50001)))
        n = y.numel()
        if h.symbolic:
            e = list(y.elems().reshape(-1))
            pairs = [(i, (i + 1) % n) for i in range(n)] if n > 1 else []
            h.claim("noise is independent across components", all(exists(h, [e[i] - e[j] > 0.9]) for i, j in pairs))
            h.claim("the whole unit interval is reachable", exists(h, [e[0] < -0.49]) and exists(h, [e[0] > 0.49]))
        else:
            ys = []
            h.draws_off()
            for _ in range(200):
                ys.append(d.rsample(torch.Size(sshape)).reshape(-1))
            ys = torch.stack(ys)
            h.claim("noise is independent across components", all(bool(((ys[:, i] - ys[:, (i + 1) % n]).abs() > 1e-3).any()) for i in range(n)) if n > 1 else True)
            h.claim("the whole unit interval is reachable", bool((ys < -0.4).any() and (ys > 0.4).any()))
    return body


def sampling_normal(bshape, sshape):
    def body(h):
        loc = h.tensor("loc", bshape, lo=-2, hi=2)
        sc = h.tensor("scale", bshape, lo=0.5, hi=2)
        y = NoisyNormal(loc, sc).rsample(torch.Size(sshape))
        h.claim("sample shape = sample_shape + batch_shape", tuple(y.shape) == tuple(sshape) + tuple(bshape))
    return body


def shapes(h):
    loc = h.tensor("loc", (2, 3), lo=-2, hi=2)
    d = UniformNoise(Normal(loc, torch.ones(2, 3), validate_args=False))
    h.claim("batch shape is the base's", tuple(d.batch_shape) == (2, 3))
    h.claim("event shape is the base's", tuple(d.event_shape) == ())


def expand(h):
    loc = h.tensor("loc", (1,), lo=-2, hi=2)
    d = UniformNoise(Normal(loc, torch.ones(1), validate_args=False))
    e = d.expand(torch.Size([2]))
    v = h.tensor("v", (2,), lo=-3, hi=3)
    h.claim("expanded batch shape", tuple(e.batch_shape) == (2,))
    h.claim("expansion keeps the noisy density", h.close(torch.exp(e.log_prob(v)) if not hasattr(e, "prob") else e.prob(v), d.prob(v)))


def delegates(h):
    loc = h.tensor("loc", (2,), lo=-2, hi=2)
    sc = h.tensor("scale", (2,), lo=0.5, hi=2)
    d = NoisyNormal(loc, sc)
    b = Normal(loc, sc, validate_args=False)
    v = h.tensor("v", (2,), lo=-3, hi=3)
    h.claim("mean", h.close(d.mean, b.mean))
    h.claim("cdf", h.close(d.cdf(v), b.cdf(v)))
    h.claim("survival function", h.close(d.survival_function(v), ncF.survival_function(v, b)))
    h.claim("log cdf", h.close(d.log_cdf(v), ncF.log_cdf(v, b)))
    h.claim("log survival", h.close(d.log_survival_function(v), ncF.log_survival_function(v, b)))
    q = d.quantization_offset
    h.claim("quantization offset aligns with the mean", h.eq(loc - q, torch.round(loc - q)))
    h.claim("lower tail", h.close(d.lower_tail(0.1), ncF.lower_tail(b, 0.1)))
    h.claim("upper tail", h.close(d.upper_tail(0.1), ncF.upper_tail(b, 0.1)))


def mk_norm(h):
    return Normal(h.tensor("loc", (1,), lo=-2, hi=2), h.tensor("scale", (1,), lo=0.5, hi=2), validate_args=False), 1


def mk_norm_c(h):
    return Normal(torch.tensor([0.25]), torch.tensor([1.0]), validate_args=False), 1


def mk_norm_c2(h):
    return Normal(torch.tensor([0.0]), torch.tensor([0.5]), validate_args=False), 1


def mk_lap(h):
    return Laplace(torch.tensor([0.5]), torch.tensor([1.0]), validate_args=False), 1


def mk_uni(h):
    return Uniform(torch.tensor([-3.0]), torch.tensor([5.0]), validate_args=False), 1


# ranges of v on which the case distinctions of the normal tail functions are settled
PIECES = ((-1.9, -1.6), (1.8, 2.0))


def instances(tier):
    out = [dict(name="mass/" + n, body=mass(mk), budget=150, timeout=40) for n, mk in (("normal-c", mk_norm_c), ("normal-c2", mk_norm_c2), ("laplace", mk_lap), ("uniform", mk_uni))]
    out += [dict(name="logmass/" + n, group="logmass/" + n[:6], prune=True, body=logmass(mk, lo, hi), budget=200, timeout=60) for n, mk, lo, hi in (*(("normal-%d" % i, mk_norm_c, lo, hi) for i, (lo, hi) in enumerate(PIECES)), ("uniform", mk_uni, -2.3, 4.3), ("laplace", mk_lap, -2, 3))]
    if tier == "thorough":
        out += [dict(name="mass/normal", body=mass(mk_norm), budget=300, timeout=80)]
    out += [dict(name="telescopes", body=telescopes, budget=120, timeout=40)]
    out += [dict(name="sampling/%s-%s-%s" % (b, s, n), group="sampling", body=sampling(b, s, n)) for b in ((), (2,), (2, 2)) for s in ((), (3,), (2, 2)) for n in ("rsample",)]
    out += [dict(name="sampling-normal/%s-%s" % (b, s), group="sampling-normal", body=sampling_normal(b, s)) for b in ((), (2,), (2, 2)) for s in ((), (3,))]
    out += [dict(name=n, body=b) for n, b in (("shapes", shapes), ("expand", expand), ("delegates", delegates))]
    return out
