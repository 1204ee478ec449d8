"""P14: continuous entropy layer: construction rules, quantisation and range-coding tables."""
import contextlib
import sys

import compressai.entropy_models.entropy_models as ce
import torch
from torch.distributions import Laplace, Normal

import neuralcompression.functional as ncF
from neuralcompression.distributions import NoisyNormal, UniformNoise
from neuralcompression.layers import ContinuousEntropy

BOUNDS = "construction: all combinations of the optional arguments (solver-forked); quantise: every real value in [-1000,1000] and offset in [-1,1]; tables: 1..2 distributions of scale 1/4, every location in [1,2] per entry (Normal priors; single NoisyNormal; [1.1875,1.21875] for two NoisyNormals, [2,3] for Laplace), tail mass 2^-8 and 0.1"
OUTSIDE = "distributions whose tail reaches below zero (the implementation cuts tables at 0; documented in DESIGN.md), the integer quantisation of the probabilities (CompressAI's pmf_to_quantized_cdf, third party), scalar priors"
ASSUMPTIONS = ["CompressAI's pmf_to_quantized_cdf is replaced by a recording stand-in of the same output size"]
REAL = ce.pmf_to_quantized_cdf


@contextlib.contextmanager
def recorder():
    calls = []

    def fake(pmf, precision=16):
        calls.append((pmf, precision))
        return (torch.arange(pmf.shape[0] + 1) + 1000 * len(calls)).to(torch.int32)

    mods = [m for m in list(sys.modules.values()) if getattr(m, "pmf_to_quantized_cdf", None) is REAL]
    for m in mods:
        m.pmf_to_quantized_cdf = fake
    try:
        yield calls
    finally:
        for m in mods:
            m.pmf_to_quantized_cdf = REAL


def quantize(shape, off):
    def body(h):
        x = h.tensor("x", shape, dtype=torch.float64, lo=-1000, hi=1000)
        i = torch.zeros(shape, dtype=torch.int64)
        x0 = x.clone()
        if off:
            o = h.tensor("o", shape, dtype=torch.float64, lo=-1, hi=1)
            q = ContinuousEntropy.quantize(x, i, o)
            y = x0 - o
        else:
            q = ContinuousEntropy.quantize(x, i)
            y = x0
        h.claim("integers", q.dtype == torch.int32 and tuple(q.shape) == tuple(shape))
        d = q.to(torch.float64) - y
        e = 0.0 if h.symbolic else 1e-9
        h.claim("quantised value is a nearest integer of value minus offset", h.all_((d <= 0.5 + e) & (d >= -0.5 - e)))
        h.claim("the bottleneck itself is not modified", h.eq(x, x0))
    return body


def mkprior(h, kind, shape, tag=""):
    a, b = (1, 2) if kind == "normal" or (kind == "noisynormal" and shape == (1,)) else (1.1875, 1.21875) if kind != "laplace" else (2, 3)
    loc = h.tensor("loc" + tag, shape, lo=a, hi=b)
    sc = torch.full(shape, 0.25)
    if kind == "noisynormal":
        return NoisyNormal(loc, sc), loc
    if kind == "laplace":
        return Laplace(loc, sc, validate_args=False), loc
    return Normal(loc, sc, validate_args=False), loc


def tables(kind, shape, tail, prec):
    def body(h):
        prior, loc = mkprior(h, kind, shape)
        with recorder() as calls:
            kw = {} if tail is None else dict(tail_mass=tail)
            if prec:
                kw["range_coder_precision"] = prec
            m = ContinuousEntropy(compressible=True, prior=prior, **kw)
        tm = 2 ** -8 if tail is None else tail
        n = loc.numel()
        off = ncF.quantization_offset(prior).reshape(-1)
        base = prior if not isinstance(prior, UniformNoise) else prior
        lo = (base.lower_tail(tm) if isinstance(prior, UniformNoise) else ncF.lower_tail(prior, tm)).reshape(-1)
        up = (base.upper_tail(tm) if isinstance(prior, UniformNoise) else ncF.upper_tail(prior, tm)).reshape(-1)
        mn, mx = torch.floor(lo - off), torch.ceil(up - off)
        h.assume(mn >= 0)
        h.claim("one table per distribution", len(calls) == n and tuple(m.cdf_sizes.shape) == (n,) and tuple(m.cdf_offsets.shape) == (n,) and m.cdfs.shape[0] == n)
        h.claim("tables are 32-bit integers", m.cdfs.dtype == torch.int32)
        h.claim("table offset is the integer below the lower tail", h.eq(m.cdf_offsets.to(torch.float64), mn.to(torch.float64)))
        h.claim("table size covers lower to upper tail plus overflow", h.eq(m.cdf_sizes.to(torch.float64), (mx - mn + 3).to(torch.float64)))
        if len(calls) != n:
            return
        locf = loc.reshape(-1)
        for i in range(n):
            pmf, p = calls[i]
            h.claim("range coder precision is used", p == (prec or 12))
            k = pmf.shape[0] - 1
            h.claim("number of symbols", h.eq(mx[i] - mn[i] + 1, torch.tensor(float(k))))
            one = {"noisynormal": lambda: NoisyNormal(locf[i:i + 1], torch.full((1,), 0.25)), "laplace": lambda: Laplace(locf[i:i + 1], torch.full((1,), 0.25), validate_args=False),
                   "normal": lambda: Normal(locf[i:i + 1], torch.full((1,), 0.25), validate_args=False)}[kind]()
            at = torch.arange(k).to(torch.float32) + mn[i] + off[i]
            want = one.prob(at) if isinstance(one, UniformNoise) else torch.exp(one.log_prob(at))
            h.claim("every row holds its own distribution's probabilities at the offset grid", h.close(pmf[:k], want.reshape(-1), tol=1e-4))
            rest = 1 - want.sum()
            h.claim("the last symbol takes the remaining mass", h.close(pmf[k], torch.clamp(rest, min=0.0), tol=1e-4))
            row = m.cdfs[i]
            h.claim("the quantised CDF is stored from the start of its row, zero padded", h.eq(row[:k + 2].to(torch.int64), torch.arange(k + 2) + 1000 * (i + 1)) if k + 2 == row.shape[0]
                    else h.eq(row.to(torch.int64), torch.cat([torch.arange(k + 2) + 1000 * (i + 1), torch.zeros(row.shape[0] - k - 2, dtype=torch.int64)])))
    return body


def construct(h):
    b = {k: h.pybool(k) for k in ("compressible", "stateless", "prior", "prior_shape", "prior_dtype", "cdfs", "cdf_sizes", "cdf_offsets", "maximum_cdf_size")}
    kw = dict(compressible=b["compressible"], stateless=b["stateless"])
    prior = NoisyNormal(torch.tensor([5.0, 6.0]), torch.tensor([1.0, 1.0]))
    z = torch.zeros((2, 4), dtype=torch.int32)
    for k, v in (("prior", prior), ("prior_shape", (2,)), ("prior_dtype", torch.float64), ("cdfs", z), ("cdf_sizes", z[0]), ("cdf_offsets", z[0]), ("maximum_cdf_size", 4)):
        if b[k]:
            kw[k] = v
    ok = b["prior"] or (b["prior_shape"] and b["prior_dtype"])
    if b["compressible"]:
        # all or none of the tables, and exactly one source of tables
        ok = ok and b["cdfs"] == b["cdf_sizes"] == b["cdf_offsets"]
        ok = ok and (b["prior"] + b["maximum_cdf_size"] + b["cdfs"]) == 1
        ok = ok and not (b["maximum_cdf_size"] and b["stateless"])
    else:
        ok = ok and not (b["cdfs"] or b["cdf_sizes"] or b["cdf_offsets"] or b["maximum_cdf_size"])
    try:
        with recorder():
            m = ContinuousEntropy(**kw)
        made = True
    except ValueError:
        made = False
    h.claim("exactly the documented argument combinations are accepted", made == bool(ok))
    if not made:
        return
    h.claim("shape and type of the prior", tuple(m.prior_shape) == (2,) == tuple(m.context_shape) and m.prior_dtype == (torch.float32 if b["prior"] else torch.float64))
    h.claim("options are reported back", m.compressible == b["compressible"] and m.stateless == b["stateless"])
    if b["compressible"]:
        h.claim("tables available", m.cdfs is not None and m.cdf_sizes is not None and m.cdf_offsets is not None)
        if b["cdfs"]:
            h.claim("given tables are used", m.cdfs is z or bool((m.cdfs == z).all()))
    else:
        for k in ("cdfs", "cdf_sizes", "cdf_offsets"):
            try:
                getattr(m, k)
                h.claim("tables are refused for a layer that cannot compress", False)
            except RuntimeError:
                h.claim("tables are refused for a layer that cannot compress", True)
    if b["prior"]:
        h.claim("prior is reported", m.prior is prior)
        del m.prior
    try:
        m.prior
        h.claim("a missing prior is reported as an error", False)
    except RuntimeError:
        h.claim("a missing prior is reported as an error", True)


def instances(tier):
    out = [dict(name="construct", body=construct, max_paths=600, budget=300, validate=40)]
    for s in ((), (2,), (2, 2)):
        for o in (False, True):
            out.append(dict(name="quantize/%s/%s" % ("x".join(map(str, s)) or "scalar", o), group="quantize", body=quantize(s, o), budget=60))
    for kind, shape, tail, prec in (("normal", (1,), None, 0), ("noisynormal", (1,), None, 16), ("laplace", (1,), None, 0), ("normal", (2,), 0.1, 0), ("normal", (2, 1), None, 8)) + ((("noisynormal", (2,), None, 0),) if tier != "quick" else ()):
        out.append(dict(name="tables/%s/%s/%s" % (kind, "x".join(map(str, shape)), tail), group="tables/%s" % kind, body=tables(kind, shape, tail, prec), budget=200, timeout=30, max_paths=200, tol=1e-4))
    return out
