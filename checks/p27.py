"""P27: VCT location-scale-shifted Gaussian bottleneck: coding round trip, indexes, likelihoods, scale grid."""
import math
import os
import sys

import torch
from torch import nn

from vlib.harness import REPO
from vlib.util import dup

sys.path.insert(0, os.path.join(REPO, "projects", "torch_vct"))
from neural.bottlenecks import ContinuousIndexedGaussianConditional, GsnConditionalLocScaleShift, Scaler  # noqa: E402

BOUNDS = ("coding: every latent and mean in [-64,64] and raw scale in [-16,64], 1..2 values per call, 4..100 mean and 8..256 scale bins; likelihood: every latent and mean in [-8,8], every scale index; "
          "scaler: every scale in (0,256]; tables: every mean/scale table and symbol of a 3x4 grid")
OUTSIDE = "float rounding; compressai's range coder and CDF quantisation (third party)"
ASSUMPTIONS = ["entropy coding is a lossless stand-in that stores rounded symbols with their table indexes", "exp, log and erfc axiomatised"]


class Coder:
    """lossless stand-in for compressai's coder, applied to the real bottleneck"""

    def __init__(self, b):
        self.log = []
        e = b._entropy_model
        e.compress = self.compress
        e.decompress = self.decompress

    def compress(self, inputs, indexes, means=None):
        assert tuple(inputs.shape) == tuple(indexes.shape)
        self.log.append(("c", indexes))
        q = inputs if means is None else inputs - means
        return [[torch.round(q)[i]] for i in range(inputs.shape[0])]

    def decompress(self, strings, indexes, dtype=torch.float, means=None):
        self.log.append(("d", indexes))
        o = torch.stack([s[0] for s in strings])
        return o if means is None else o + means


BASE = {(nm, ns): GsnConditionalLocScaleShift(num_scales=ns, num_means=nm, min_scale=0.01) for nm, ns in ((4, 8), (100, 256), (1, 16))}


def coding(nm, ns, shape):
    def body(h):
        b = dup(BASE[nm, ns])
        co = Coder(b)
        x = h.tensor("x", shape, dtype=torch.float64, lo=-64, hi=64)
        mu = h.tensor("mu", shape, dtype=torch.float64, lo=-64, hi=64)
        sc = h.tensor("sc", shape, dtype=torch.float64, lo=-16, hi=64)
        x0, mu0 = x.clone(), mu.clone()
        q, strings = b.compress(x, sc, mu)
        r = b.decompress(strings, sc, mu)
        h.claim("one string per batch element", len(strings) == shape[0])
        h.claim("decoding returns the encoder's quantised latent", h.eq(r, q))
        rm = torch.round(mu0)
        h.claim("the quantised latent is the latent rounded around the rounded mean", h.eq(q, torch.round(x0 - rm) + rm))
        h.claim("quantisation moves a value by at most one half", h.le((q - x0).abs(), torch.full(shape, 0.5, dtype=torch.float64)))
        ci, di = [i for t, i in co.log if t == "c"], [i for t, i in co.log if t == "d"]
        h.claim("coder called once each way", len(ci) == 1 and len(di) == 1)
        h.claim("encoder and decoder use the same tables", h.eq(ci[0], di[0]))
        h.claim("table indexes are at least 0", h.le(torch.zeros(shape, dtype=torch.float64), ci[0].double()))
        h.claim("table indexes are below the number of tables", h.le(ci[0].double(), torch.full(shape, float(nm * ns - 1), dtype=torch.float64)))
        h.claim("inputs untouched", h.all_(torch.stack([(x == x0).all(), (mu == mu0).all()])))
    return body


def index_law(nm, ns):
    """which table: mean bin of the fractional mean, scale bin monotone in the scale"""
    def body(h):
        b = dup(BASE[nm, ns])
        co = Coder(b)
        mu = h.tensor("mu", (1, 2), dtype=torch.float64, lo=-64, hi=64)
        s = h.tensor("s", (2,), dtype=torch.float64, lo=-16, hi=64)
        h.assume(s[0] <= s[1])
        x = torch.zeros(1, 2, dtype=torch.float64)
        b.compress(x, s.reshape(1, 2), mu)
        i = co.log[0][1].reshape(-1).double()
        mean_bin = torch.floor(i / ns)
        fr = (mu - torch.round(mu)).reshape(-1)
        grid = mean_bin / nm - (0.5 if nm > 1 else 0)
        if nm > 1:
            h.claim("the table's mean is the fractional mean rounded down to the grid", h.le(grid, fr + 1e-9))
            h.claim("the table's mean is within a grid step of the fractional mean", h.le(fr, grid + 1.0 / nm + 1e-9))
        sb = i - mean_bin * ns
        h.claim("larger scales use the same or a wider table", h.le(sb[0], sb[1]))
    return body


def erfc_phi(v):
    return 0.5 * torch.erfc(-(2 ** -0.5) * v)


def likelihood(nm, ns, train):
    def body(h):
        b = dup(BASE[nm, ns])
        x = h.tensor("x", (1,), dtype=torch.float64, lo=-8, hi=8)
        mu = h.tensor("mu", (1,), dtype=torch.float64, lo=-8, hi=8)
        sc = h.tensor("sc", (1,), dtype=torch.float64, lo=-4, hi=8)
        seen = []
        e = b._entropy_model
        b._entropy_model = Spy(e, seen)
        out, lk = b(x, sc, mu, training=train)
        rm = torch.round(mu)
        h.claim("output is the latent rounded around the rounded mean", h.eq(out, torch.round(x - rm) + rm))
        h.claim("entropy model called once with the shifted latent", len(seen) == 1)
        inp, idx, tr = seen[0]
        h.claim("shifted by the rounded mean", h.eq(inp, x - rm))
        h.claim("training flag passed on", tr is train)
        h.claim("mean index is the fractional mean in units of the grid", h.close(idx[..., 0], (mu - rm + 0.5) * nm))
        want = b._scaler.to_scale_idx(b.verysoftplus(sc), training=train)
        h.claim("scale index of the positive scale", h.close(idx[..., 1], want))
        if not train:
            h.claim("scale indexes are whole numbers in evaluation", h.eq(idx[..., 1], torch.round(idx[..., 1])))
    return body


class Spy(nn.Module):
    def __init__(self, e, seen):
        super().__init__()
        self.e, self.seen = [e], seen

    def forward(self, inputs, indexes, training=None):
        self.seen.append((inputs, indexes, training))
        return self.e[0].quantize(inputs, "noise" if training else "dequantize"), inputs * 0.5


def model_likelihood(nm, ns, train):
    def body(h):
        e = dup(BASE[nm, ns]._entropy_model)
        x = h.tensor("x", (1,), dtype=torch.float64, lo=-8, hi=8)
        im = h.tensor("im", (1,), dtype=torch.float64, lo=-2, hi=nm + 2)
        isc = h.tensor("is", (1,), dtype=torch.float64, lo=-2, hi=ns + 2)
        out, lk = e(x, torch.stack([im, isc], -1), training=train)
        if not train:
            h.claim("rounded in evaluation", h.eq(out, torch.round(x)))
        else:
            h.claim("training noise is at most one half", h.le((out - x).abs(), torch.full((1,), 0.5, dtype=torch.float64)))
        i, j = torch.clamp(im, 0, nm - 1), torch.clamp(isc, 0, ns - 1)
        m = i / nm - (0.5 if nm > 1 else 0)
        s = e._scaler.from_scale_idx(j)
        v = (out - m).abs()
        p = erfc_phi((0.5 - v) / s) - erfc_phi((-0.5 - v) / s)
        h.claim("likelihood is the Gaussian mass of the unit interval, bounded below", h.close(lk, torch.clamp(p, min=1e-9)))
    return body


def default_mode(h):
    for flag in (True, False):
        b = dup(BASE[4, 8])
        seen = []
        b._entropy_model = Spy(b._entropy_model, seen)
        b.train(flag)
        x = h.tensor("x%d" % flag, (1,), dtype=torch.float64, lo=-8, hi=8)
        b(x, x * 0 + 1.0, x * 0.5)
        h.claim("mode defaults to the module's", seen[0][2] is flag)


def ste(h):
    b = dup(BASE[4, 8])
    seen = []
    b._entropy_model = Spy(b._entropy_model, seen)
    x = h.tensor("x", (2,), dtype=torch.float64, lo=-8, hi=8, grad=True)
    mu = h.tensor("mu", (2,), dtype=torch.float64, lo=-8, hi=8)
    out, _ = b(x, torch.ones(2, dtype=torch.float64), mu, training=True)
    g, = torch.autograd.grad(out.sum(), x)
    h.claim("training passes the gradient straight through the rounding", h.eq(g, torch.ones(2, dtype=torch.float64)))


def scaler(smin, smax, n):
    S = Scaler(scales_min=smin, scales_max=smax, num_bins=n)

    def body(h):
        s = h.tensor("s", (2,), dtype=torch.float64, lo=0, hi=smax, strict=True)
        h.assume(s[0] > 0)
        h.assume(s[0] < s[1])
        h.anchor("log", smin, smin + smax)
        i = S.to_scale_idx(s)
        h.claim("index not negative", h.le(torch.zeros(2, dtype=torch.float64), i + 1e-3))
        h.claim("index within the grid", h.le(i, torch.full((2,), n - 1 + 1e-3, dtype=torch.float64)))
        h.claim("index grows with the scale", h.le(i[0], i[1]))
        h.claim("the grid value of the index is the scale plus the minimum", h.close(S.from_scale_idx(i), s + smin))
        r = S.to_scale_idx(s, training=False)
        h.claim("rounded to the nearest index in evaluation", h.eq(r, torch.round(i)))
        j = h.tensor("j", (2,), dtype=torch.float64, lo=0, hi=n - 1)
        h.assume(j[0] < j[1])
        v = S.from_scale_idx(j)
        h.claim("grid scales increase", h.lt(v[0], v[1]))
        h.claim("smallest grid scale", h.close(S.from_scale_idx(torch.zeros(1, dtype=torch.float64)), torch.full((1,), smin, dtype=torch.float64)))
    return body


def softplus(h):
    x = h.tensor("x", (2,), dtype=torch.float64, lo=-64, hi=64)
    f = GsnConditionalLocScaleShift.verysoftplus
    y = f(x)
    h.claim("positive", h.lt(torch.zeros(2, dtype=torch.float64), y))
    for k in range(2):
        h.claim("1+x above zero", h.implies(h.lt(torch.zeros((), dtype=torch.float64), x[k]), h.close(y[k], 1 + x[k])))
        h.claim("1/(1-x) below zero", h.implies(h.le(x[k], torch.zeros((), dtype=torch.float64)), h.close(y[k] * (1 - x[k]), torch.ones((), dtype=torch.float64))))
    h.claim("increasing", h.implies(h.lt(x[0], x[1]), h.lt(y[0], y[1])))


def find_first(n):
    grid = torch.tensor([k * 0.75 - 1 for k in range(n)], dtype=torch.float64)

    def body(h):
        x = h.tensor("x", (2, 2), dtype=torch.float64, lo=-1.5, hi=float(grid[-1]))
        i = ContinuousIndexedGaussianConditional._find_idx_of_first_smallest(x, grid)
        for a in range(2):
            for b in range(2):
                for k in range(n):
                    first = x[a, b] <= grid[k]
                    if k:
                        first = first & (x[a, b] > grid[k - 1])
                    h.claim("index of the first grid value that is at least the input", h.implies(h.all_(first), h.eq(i[a, b], torch.tensor(k))))
    return body


def build(h):
    e = dup(TAB._entropy_model)
    mg, sg = e._prior_mean[:, 0], e._prior_scale[0]
    m = h.tensor("m", (1,), lo=-0.5, hi=0.125)
    s = h.tensor("s", (1,), lo=0.001, hi=200)
    i = e.build_indexes((m, s))
    for a in range(3):
        for b in range(4):
            inm = (m <= mg[a]) & ((m > mg[a - 1]) if a else (m == m))
            ins = (s <= sg[b]) & ((s > sg[b - 1]) if b else (s == s))
            h.claim("table of the first mean and scale grid values that are at least the parameters", h.implies(h.all_(inm & ins), h.eq(i.long(), torch.tensor([a * 4 + b]))))


TAB = GsnConditionalLocScaleShift(num_scales=4, num_means=3, min_scale=0.25)
CAP = {}
_orig = TAB._entropy_model._pmf_to_cdf


def _cap(pmf, tail, length, mx):
    CAP.update(pmf=pmf.clone(), tail=tail.clone(), length=length.clone())
    return _orig(pmf, tail, length, mx)


TAB._entropy_model._pmf_to_cdf = _cap
TAB.update()


def tables(h):
    """table mass of every symbol = likelihood of that symbol under the same index"""
    e = TAB._entropy_model
    a, b = h.pyint("mean", 0, 2), h.pyint("scale", 0, 3)
    t = int(e.indexes_to_cdf_indexes(torch.tensor(a), torch.tensor(b)))
    n, off = int(CAP["length"][t]), int(e._offset[t])
    h.claim("table length", int(e._cdf_length[t]) == n + 2 and int(e._quantized_cdf[t, n + 1]) == 1 << 16)
    h.claim("covers the rounded mean", off <= 0 < off + n)
    lk = e._likelihood(torch.arange(n).float() + off, torch.tensor([[float(a), float(b)]] * n)).double()
    h.claim("table mass is the likelihood of the symbol", h.close(CAP["pmf"][t, :n].double(), lk))
    c = e._quantized_cdf[t, :n + 1].double()
    d = c[1:] - c[:-1]
    h.claim("quantised mass is close to the likelihood and positive", bool((d >= 1).all()) and bool(((d / 65536 - lk).abs() <= (n + 4) / 65536 + 2 ** -8).all()))
    w = e._likelihood(torch.tensor([float(off - 1), float(off + n)]), torch.tensor([[float(a), float(b)]] * 2))
    h.claim("no more than the tail mass is left out on either side", bool((w <= e.tail_mass).all()))


def instances(tier):
    out = []
    for nm, ns, sh in [(4, 8, (1, 2)), (100, 256, (2, 1)), (1, 16, (1, 1))] + ([(100, 256, (1, 3)), (4, 8, (2, 2, 1))] if tier == "thorough" else []):
        out.append({"name": f"coding/{nm}-{ns}-{'x'.join(map(str, sh))}", "group": "coding", "body": coding(nm, ns, sh), "validate": 2})
    for nm, ns in [(4, 8), (100, 256), (1, 16)]:
        out.append({"name": f"index/{nm}-{ns}", "group": "index", "body": index_law(nm, ns), "validate": 2})
    for nm, ns in [(4, 8), (100, 256)]:
        for tr in (False, True):
            out.append({"name": f"forward/{nm}-{ns}-{'train' if tr else 'eval'}", "group": "forward", "body": likelihood(nm, ns, tr), "validate": 2})
            out.append({"name": f"likelihood/{nm}-{ns}-{'train' if tr else 'eval'}", "group": "likelihood", "body": model_likelihood(nm, ns, tr), "validate": 2})
    out.append({"name": "mode", "body": default_mode, "validate": 1})
    out.append({"name": "ste", "body": ste, "validate": 2})
    for a in [(0.01, 256.0, 256), (0.125, 8.0, 8)]:
        out.append({"name": "scaler/%g-%g-%d" % a, "group": "scaler", "body": scaler(*a), "validate": 2})
    out += [{"name": "softplus", "body": softplus, "validate": 2}, {"name": "first/5", "body": find_first(5), "validate": 2}, {"name": "build", "body": build, "validate": 2}, {"name": "tables", "body": tables, "validate": 2, "max_paths": 4000}]
    return out
