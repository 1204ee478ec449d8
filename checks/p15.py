"""P15: latent wrappers (normalise, project) and cross-covariance attention."""
import torch
import torch.nn.functional as F

from neuralcompression import VqVaeAutoencoderOutput
from neuralcompression.layers import XCA, NormalizeLatent, ProjectLatent
from vlib.util import fill

BOUNDS = "normalise/project: every latent in [-4,4], 1..2 images x 1..3 channels x up to 2 positions, every projection weight in [-2,2]; with and without child operation, nested; attention: every token value in [-2,2], temperature in [1/4,4], dim 2 and 4 with 1 and 2 heads, 1..2 tokens, fixed irregular weights; sizes: attention batches 1..4, tokens 1..12, heads 1..8; wrappers batches 1..16, latents up to 64x64"
OUTSIDE = "latents of norm below 0.01 (PyTorch's epsilon guard); float rounding; dropout in training mode"
ASSUMPTIONS = ["sqrt and exp axiomatised"]


class Probe(torch.nn.Module):
    def __init__(self, f):
        super().__init__()
        self.f, self.seen = f, []

    def forward(self, o):
        self.seen.append(o.latent)
        o.latent = self.f(o.latent)
        o.num_bytes = 7
        return o


def unit(v):
    return v / torch.sqrt((v ** 2).sum())


def normalize(shape, child):
    def body(h):
        x = h.tensor("x", shape, dtype=torch.float64, lo=-4, hi=4)
        img = h.tensor("img", (2,), dtype=torch.float64)
        B, C, H, W = shape
        for b in range(B):
            for i in range(H):
                for j in range(W):
                    h.assume((x[b, :, i, j] ** 2).sum() >= 1e-2)
        pr = Probe(lambda t: 3 * t + 1)
        m = NormalizeLatent(child=pr) if child else NormalizeLatent()
        o = m(VqVaeAutoencoderOutput(image=img, latent=x.clone(), num_bytes=5))
        mid = pr.seen[0] if child else o.latent
        h.claim("child called once with the latent", len(pr.seen) == (1 if child else 0))
        for b in range(B):
            for i in range(H):
                for j in range(W):
                    h.claim("every position has a unit-norm channel vector in the same direction", h.close(mid[b, :, i, j], unit(x[b, :, i, j])))
        h.claim("the result is the child's result", h.close(o.latent, 3 * mid + 1) if child else True)
        h.claim("other fields are kept", o.image is img and o.num_bytes == (7 if child else 5))
        try:
            m(VqVaeAutoencoderOutput(image=img))
            h.claim("missing latent rejected", False)
        except ValueError:
            h.claim("missing latent rejected", True)
    return body


def project(shape, D, child):
    def body(h):
        B, C, H, W = shape
        x = h.tensor("x", shape, dtype=torch.float64, lo=-4, hi=4)
        pr = Probe(lambda t: t * t)
        m = (ProjectLatent(C, D, child=pr) if child else ProjectLatent(C, D)).double()
        w1, b1 = h.tensor("w1", (D, C), dtype=torch.float64, lo=-2, hi=2), h.tensor("b1", (D,), dtype=torch.float64, lo=-2, hi=2)
        w2, b2 = h.tensor("w2", (C, D), dtype=torch.float64, lo=-2, hi=2), h.tensor("b2", (C,), dtype=torch.float64, lo=-2, hi=2)
        m.input_conv.weight, m.input_conv.bias = torch.nn.Parameter(w1.reshape(D, C, 1, 1)), torch.nn.Parameter(b1.clone())
        m.output_conv.weight, m.output_conv.bias = torch.nn.Parameter(w2.reshape(C, D, 1, 1)), torch.nn.Parameter(b2.clone())
        o = m(VqVaeAutoencoderOutput(latent=x.clone(), num_bytes=5))
        h.claim("child called once", len(pr.seen) == (1 if child else 0))
        h.claim("latent shape restored", tuple(o.latent.shape) == tuple(shape))
        for b in range(B):
            for i in range(H):
                for j in range(W):
                    mid = w1 @ x[b, :, i, j] + b1
                    if child:
                        h.claim("child sees the projected latent", h.close(pr.seen[0][b, :, i, j], mid))
                        mid = mid * mid
                    h.claim("the inverse projection is applied to the child's result", h.close(o.latent[b, :, i, j], w2 @ mid + b2))
        h.claim("other fields are kept", o.num_bytes == (7 if child else 5))
    return body


def nested(h):
    x = h.tensor("x", (1, 1, 1, 1), dtype=torch.float64, lo=0.5, hi=4)
    pr = Probe(lambda t: t + 5)
    m = ProjectLatent(1, 1, child=NormalizeLatent(child=pr)).double()
    w = h.tensor("w", (2,), dtype=torch.float64, lo=0.5, hi=2)
    for k, c in enumerate((m.input_conv, m.output_conv)):
        c.weight, c.bias = torch.nn.Parameter(w[k].reshape(1, 1, 1, 1).clone()), torch.nn.Parameter(torch.zeros(1, dtype=torch.float64))
    o = m(VqVaeAutoencoderOutput(latent=x))
    h.claim("operations nest from outside in and back", h.close(o.latent.reshape(()), w[1] * 6))


def xca(dim, heads, B, N, bias):
    def body(h):
        m = fill(XCA(dim, num_heads=heads, qkv_bias=bias).double().eval(), 3, -1, 1)
        x = h.tensor("x", (B, N, dim), dtype=torch.float64, lo=-2, hi=2)
        t = h.tensor("t", (heads,), dtype=torch.float64, lo=0.25, hi=4)
        m.temperature = torch.nn.Parameter(t.reshape(heads, 1, 1).clone())
        W, bq = m.qkv.weight.detach(), (m.qkv.bias.detach() if bias else torch.zeros(3 * dim, dtype=torch.float64))
        P, bp = m.proj.weight.detach(), m.proj.bias.detach()
        c = dim // heads
        for b in range(B):
            qkv = x[b] @ W.t() + bq
            for s in (0, dim):
                for ch in range(dim):
                    h.assume((qkv[:, s + ch] ** 2).sum() >= 1e-2)
        out = m(x)
        h.claim("token shape kept", tuple(out.shape) == tuple(x.shape))
        for b in range(B):
            qkv = F.linear(x[b], W, bq if bias else None)
            cols = []
            for hd in range(heads):
                q = [F.normalize(qkv[:, hd * c + i], dim=0) for i in range(c)]
                k = [F.normalize(qkv[:, dim + hd * c + i], dim=0) for i in range(c)]
                v = [qkv[:, 2 * dim + hd * c + i] for i in range(c)]
                for i in range(c):
                    a = torch.softmax(torch.stack([(q[i] * k[j]).sum() * t[hd] for j in range(c)]), 0)
                    cols.append(sum(a[j] * v[j] for j in range(c)))
            y = F.linear(torch.stack(cols, 1), P, bp)
            h.claim("channels attend to channels of their own head and image", h.close(out[b], y))
    return body


def xca_shape(h):
    B, N = h.dim("B"), h.dim("N")
    for heads, dim in ((1, 6), (2, 6), (3, 12), (8, 16)):
        h.claim_eq("token shape kept", XCA(dim, num_heads=heads)(h.image(B, N, dim)).shape, (B, N, dim))


def wrapper_shape(h):
    B, H, W = h.dim("B"), h.dim("H"), h.dim("W")
    o = ProjectLatent(6, 3, child=NormalizeLatent())(VqVaeAutoencoderOutput(latent=h.image(B, 6, H, W)))
    h.claim_eq("latent shape kept", o.latent.shape, (B, 6, H, W))


def instances(tier):
    out = []
    for s in ((1, 1, 1, 1), (1, 2, 1, 2), (2, 2, 1, 1), (1, 3, 1, 1)):
        for c in (False, True):
            out.append(dict(name="normalize/%s/%s" % ("x".join(map(str, s)), c), group="normalize/%s" % c, body=normalize(s, c), budget=90, timeout=30))
    for s, D in (((1, 2, 1, 2), 1), ((2, 1, 1, 1), 2), ((1, 3, 2, 1), 2)):
        for c in (False, True):
            out.append(dict(name="project/%s/%d/%s" % ("x".join(map(str, s)), D, c), group="project/%s" % c, body=project(s, D, c), budget=90, timeout=30))
    out.append(dict(name="nested", body=nested, budget=60))
    xs = [(2, 1, 1, 1, False), (2, 2, 1, 2, True), (2, 1, 2, 1, True), (4, 2, 1, 1, False), (2, 1, 1, 2, True)]
    for a in xs:
        out.append(dict(name="xca/%s" % "-".join(map(str, a)), group="xca", body=xca(*a), budget=150, timeout=40))
    out.append(dict(name="xca/sizes", kind="shape", body=xca_shape, domain={"B": (1, 4), "N": (1, 12)}, budget=60))
    out.append(dict(name="wrapper/sizes", kind="shape", body=wrapper_shape, domain={"B": (1, 16), "H": (1, 64), "W": (1, 64)}, budget=60))
    return out
