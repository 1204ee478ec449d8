"""P12: channel normalisation and (inverse) generalised divisive normalisation."""
import torch

from neuralcompression.layers import ChannelNorm2D, SimplifiedGDN, SimplifiedInverseGDN

BOUNDS = "every input (real values), every gamma/beta in [-2,2] (also invalid negative ones), upstream gradient; 1..2 images x 1..3 channels x up to 2x2; sizes: every N, H, W in [1,64]"
OUTSIDE = "float rounding; more than 3 channels; more than 4 pixels per image for the value claims"
ASSUMPTIONS = ["sqrt axiomatised by its square"]


def channelnorm(shape, eps, affine):
    def body(h):
        x = h.tensor("x", shape, dtype=torch.float64, lo=-4, hi=4)
        m = ChannelNorm2D(shape[1], affine=affine) if eps is None else ChannelNorm2D(shape[1], epsilon=eps, affine=affine)
        m.double()
        e = 1e-3 if eps is None else eps
        C = shape[1]
        if affine:
            h.claim("affine starts as the identity", bool((m.gamma == 1).all()) and bool((m.beta == 0).all()))
            g = h.tensor("g", (C,), dtype=torch.float64, lo=-2, hi=2)
            b = h.tensor("b", (C,), dtype=torch.float64, lo=-2, hi=2)
            m.gamma = torch.nn.Parameter(g.reshape(m.gamma.shape))
            m.beta = torch.nn.Parameter(b.reshape(m.beta.shape))
        out = m(x)
        h.claim("shape kept", tuple(out.shape) == tuple(x.shape))
        for n in range(shape[0]):
            for i in range(shape[2]):
                for j in range(shape[3]):
                    v = x[n, :, i, j]
                    mu = v.sum() / C
                    var = ((v - mu) ** 2).sum() / (C - 1)
                    want = (v - mu) / torch.sqrt(var + e)
                    if affine:
                        want = want * g + b
                    h.claim("every position is normalised over its channels", h.close(out[n, :, i, j], want))
    return body


def too_few(h):
    for c in (1, 0):
        try:
            ChannelNorm2D(c)
            h.claim("fewer than two channels rejected", False)
        except ValueError:
            h.claim("fewer than two channels rejected", True)


def build(h, cls, C, bmin, k=""):
    m = cls(C) if bmin is None else cls(C, beta_min=bmin)
    m.double()
    bm = 1e-6 if bmin is None else bmin
    g = h.tensor("gamma" + k, (C, C), dtype=torch.float64, lo=-2, hi=2)
    b = h.tensor("beta" + k, (C,), dtype=torch.float64, lo=-2, hi=2)
    m.gamma = torch.nn.Parameter(g.reshape(C, C, 1, 1).clone())
    m.beta = torch.nn.Parameter(b.clone())
    gc = torch.where(g >= 0, g, torch.zeros_like(g))
    bc = torch.where(b >= bm, b, torch.full_like(b, bm))
    return m, gc, bc


def gdn(inverse, shape, bmin):
    def body(h):
        C = shape[1]
        x = h.tensor("x", shape, dtype=torch.float64, lo=-8, hi=8)
        m, gc, bc = build(h, SimplifiedInverseGDN if inverse else SimplifiedGDN, C, bmin)
        out = m(x)
        h.claim("shape kept", tuple(out.shape) == tuple(x.shape))
        for n in range(shape[0]):
            for i in range(shape[2]):
                for j in range(shape[3]):
                    v = x[n, :, i, j]
                    for c in range(C):
                        norm = bc[c] + sum(gc[c, k] * v[k].abs() for k in range(C))
                        want = v[c] * norm if inverse else v[c] / norm
                        h.claim("value is the input %s by beta + sum gamma |x|" % ("multiplied" if inverse else "divided"), h.close(out[n, c, i, j], want))
        h.claim_defined("never divides by zero", out)
        h.claim("stored gamma is kept non-negative", h.le(0.0, m.gamma.detach()))
        h.claim("stored beta is kept above its minimum", h.le(1e-6 if bmin is None else bmin, m.beta.detach()))
        h.claim("in-range parameters are not altered", h.close([m.gamma.detach().reshape(C, C), m.beta.detach()], [gc, bc]) if not h.symbolic else h.eq(torch.cat([m.gamma.detach().reshape(-1), m.beta.detach()]), torch.cat([gc.reshape(-1), bc])))
    return body


def gdn_init(inverse):
    def body(h):
        C = 3
        cls = SimplifiedInverseGDN if inverse else SimplifiedGDN
        x = h.tensor("x", (1, C, 1, 1), dtype=torch.float64, lo=-8, hi=8)
        for gi in (None, 0.25):
            m = (cls(C) if gi is None else cls(C, gamma_init=gi)).double()
            g = float(torch.tensor(0.1 if gi is None else gi, dtype=torch.float32))
            v = x.reshape(C)
            n = 1 + g * v.abs()
            h.claim("initially every channel is normalised by itself only", h.close(m(x).reshape(C), v * n if inverse else v / n))
    return body


def gdn_grad(inverse, C):
    """gradients of the parameters and the input are those of the formula"""
    def body(h):
        x = h.tensor("x", (1, C, 1, 1), dtype=torch.float64, lo=0.1, hi=8)
        m, gc, bc = build(h, SimplifiedInverseGDN if inverse else SimplifiedGDN, C, None)
        u = h.tensor("u", (1, C, 1, 1), dtype=torch.float64, lo=-2, hi=2)
        x.requires_grad_(True)
        (m(x) * u).sum().backward()
        v, uu = x.detach().reshape(C), u.reshape(C)
        norm = torch.stack([bc[c] + sum(gc[c, k] * v[k].abs() for k in range(C)) for c in range(C)])
        dn = uu * v if inverse else -uu * v / norm ** 2
        h.claim("gradient of beta", h.close(m.beta.grad, dn))
        h.claim("gradient of gamma", h.close(m.gamma.grad.reshape(C, C), dn[:, None] * v.abs()[None, :]))
        dx = (uu * norm if inverse else uu / norm) + sum(dn[c] * gc[c, :] for c in range(C))
        h.claim("gradient of the input", h.close(x.grad.reshape(C), dx))
    return body


def shapes(kind):
    def body(h):
        N, H, W = h.dim("N"), h.dim("H"), h.dim("W")
        m = {"cn": ChannelNorm2D, "gdn": SimplifiedGDN, "igdn": SimplifiedInverseGDN}[kind](5)
        h.claim_eq("shape kept", m(h.image(N, 5, H, W)).shape, (N, 5, H, W))
    return body


def instances(tier):
    out = []
    for s, e, a in (((1, 2, 1, 1), None, True), ((1, 2, 1, 1), 0.5, False), ((2, 2, 1, 2), 0.25, True), ((1, 3, 1, 1), None, True), ((1, 3, 2, 1), 1e-5, False), ((1, 2, 2, 2), None, False)):
        out.append(dict(name="channelnorm/%s/%s/%s" % ("x".join(map(str, s)), e, a), group="channelnorm", body=channelnorm(s, e, a), budget=120, timeout=30))
    out.append(dict(name="channelnorm/too-few", body=too_few))
    for inv in (False, True):
        k = "igdn" if inv else "gdn"
        for s, b in (((1, 1, 1, 1), None), ((1, 2, 1, 1), 0.25), ((2, 2, 1, 2), None), ((1, 3, 1, 1), None), ((1, 2, 2, 2), 0.5)):
            out.append(dict(name="%s/%s/%s" % (k, "x".join(map(str, s)), b), group=k, body=gdn(inv, s, b), budget=120, timeout=30))
        out.append(dict(name="%s/init" % k, body=gdn_init(inv)))
        for C in (1, 2):
            out.append(dict(name="%s/gradient/%d" % (k, C), group=k + "/gradient", body=gdn_grad(inv, C), budget=120, timeout=30))
    for k in ("cn", "gdn", "igdn"):
        out.append(dict(name="shape/" + k, group="shape", kind="shape", body=shapes(k), domain={"N": (1, 64), "H": (1, 64), "W": (1, 64)}, budget=60))
    return out
