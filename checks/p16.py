"""P16: distortion and adversarial losses."""
import sys

import torch
import torch.nn as nn
import torch.nn.functional as F

import neuralcompression.loss_fn as lf
from neuralcompression.loss_fn import (BinaryCrossentropyDiscriminatorLoss, BinaryCrossentropyGeneratorLoss, MSELoss, NormFixLPIPS, OASISDiscriminatorLoss,
                                       OASISGeneratorLoss)

BOUNDS = "every logit in [-8,8], every label and label map, 1..2 images, 2..3 classes, up to 2 positions; MSE: images of up to 4 pixels in [-1,2], scale in [1/4, 65025]; LPIPS: every image and feature value in [-2,2] for two small stand-in feature layers; shape validation: all label-map sizes up to 2x3x3"
OUTSIDE = "the pretrained VGG/AlexNet feature networks (replaced by small stand-ins); float rounding"
ASSUMPTIONS = ["exp/log axiomatised", "the LPIPS trunk and linear heads are stand-ins; their outputs are arbitrary functions of the image"]


def bce_ref(x, t):
    """-t log s(x) - (1-t) log(1-s(x)) in the stable form"""
    return (torch.clamp(x, min=0) - x * t + torch.log1p(torch.exp(-x.abs()))).mean()


def bce(shape, tkind):
    def body(h):
        r = h.tensor("r", shape, dtype=torch.float64, lo=-8, hi=8)
        f = h.tensor("f", shape, dtype=torch.float64, lo=-8, hi=8)
        if tkind == "scalar":
            t = h.tensor("t", (), dtype=torch.float64, lo=0, hi=1)
        else:
            t = h.tensor("t", shape, dtype=torch.float64, lo=0, hi=1)
        te = t if tkind != "scalar" else t * torch.ones(shape, dtype=torch.float64)
        z = torch.zeros(shape, dtype=torch.float64)
        tt = t.clone()
        # the trusted oracle is the loss of one logit; the claims below fix how logits, targets and halves are combined
        d = BinaryCrossentropyDiscriminatorLoss()(r, f, t)
        g = BinaryCrossentropyGeneratorLoss()(f, t)
        one = lambda a, b: F.binary_cross_entropy_with_logits(a, b)  # noqa: E731
        h.claim("discriminator loss averages real against the target and fake against zero", h.close(d, 0.5 * (one(r, te) + one(f, z))))
        h.claim("generator loss is the cross-entropy against the target", h.close(g, one(f, te)))
        h.claim("target not modified", h.eq(t, tt))
        h.claim("scalar loss", tuple(d.shape) == () == tuple(g.shape))
        bad = torch.ones(shape + (1,), dtype=torch.float64)
        for k in range(2):
            try:
                BinaryCrossentropyDiscriminatorLoss()(r, f, bad) if k else BinaryCrossentropyGeneratorLoss()(f, bad)
                h.claim("targets of another rank rejected", False)
            except ValueError:
                h.claim("targets of another rank rejected", True)
    return body


def bce_value(h):
    """the loss of one logit is the binary cross-entropy of its probability"""
    x = h.tensor("x", (1,), dtype=torch.float64, lo=-8, hi=8)
    t = h.tensor("t", (1,), dtype=torch.float64, lo=0, hi=1)
    h.claim("cross-entropy of the logit's probability", h.close(BinaryCrossentropyGeneratorLoss()(x, t), bce_ref(x, t), tol=1e-4))


def oasis(B, C, H, W):
    def body(h):
        r = h.tensor("r", (B, C, H, W), dtype=torch.float64, lo=-8, hi=8)
        f = h.tensor("f", (B, C, H, W), dtype=torch.float64, lo=-8, hi=8)
        t = h.tensor("t", (B, H, W), dtype=torch.int64, lo=0, hi=C - 2)
        d = OASISDiscriminatorLoss()(r, f, t)
        g = OASISGeneratorLoss()(f, t)

        def ce(lg, lab):
            tot = 0
            for b in range(B):
                for i in range(H):
                    for j in range(W):
                        ls = torch.log_softmax(lg[b, :, i, j], 0)
                        if lab is None:
                            tot = tot - ls[0]
                        else:
                            v = ls[1]
                            for c in range(2, C):
                                v = torch.where(lab[b, i, j] == c - 1, ls[c], v)
                            tot = tot - v
            return tot / (B * H * W)
        h.claim("discriminator: real pixels against their label + 1, fake pixels against class 0", h.close(d, 0.5 * (ce(r, t) + ce(f, None))))
        h.claim("generator: every pixel against its label + 1", h.close(g, ce(f, t)))
    return body


def oasis_shapes(h):
    B, H, W = h.pyint("B", 1, 2), h.pyint("H", 1, 3), h.pyint("W", 1, 3)
    n = h.pyint("n", 1, 18)
    lg = torch.zeros(B, 3, H, W)
    for k in range(2):
        try:
            t = torch.zeros(n, dtype=torch.int64)
            (OASISDiscriminatorLoss()(lg, lg, t) if k else OASISGeneratorLoss()(lg, t))
            ok = True
        except ValueError:
            ok = False
        h.claim("label maps of the wrong size are rejected, all others accepted", ok == (n == B * H * W))
        for bad in (torch.zeros(B, H, W), torch.zeros(B, H, W, dtype=torch.int32)):
            try:
                (OASISDiscriminatorLoss()(lg, lg, bad) if k else OASISGeneratorLoss()(lg, bad))
                h.claim("labels must be 64-bit integers", False)
            except ValueError:
                h.claim("labels must be 64-bit integers", True)
        try:
            (OASISDiscriminatorLoss()(lg[0], lg[0], torch.zeros(H * W * 3, dtype=torch.int64)) if k else OASISGeneratorLoss()(lg[0], torch.zeros(H * W * 3, dtype=torch.int64)))
            h.claim("logits must be four-dimensional", False)
        except ValueError:
            h.claim("logits must be four-dimensional", True)


def mse(shape, default):
    def body(h):
        x = h.tensor("x", shape, dtype=torch.float64, lo=-1, hi=2)
        y = h.tensor("y", shape, dtype=torch.float64, lo=-1, hi=2)
        s = 255.0 ** 2 if default else h.scalar("s", lo=0.25, hi=65025)
        m = MSELoss() if default else MSELoss(s)
        n = x.numel()
        h.claim("scaled mean squared error", h.close(m(x, y), s * ((x - y) ** 2).sum() / n, tol=1e-6))
    return body


class Net(nn.Module):
    """stand-in trunk: two feature layers, remembers what it was given"""

    def __init__(self):
        super().__init__()
        self.seen = []

    def forward(self, x):
        self.seen.append(x)
        a = torch.cat([x, 2 * x[:, :1] - 1], 1)
        return [a, torch.cat([x[:, :, :, :1] * x[:, :, :, :1], x[:, :1, :, :1] + 3], 1)]


class Lin(nn.Module):
    def __init__(self, w):
        super().__init__()
        self.w = w

    def forward(self, x):
        return sum(w * x[:, i:i + 1] for i, w in enumerate(self.w))


W0, W1 = [1.0, 0.5, 0.25, 2.0], [3.0, 0.125, 1.5, 0.5]


def make_lpips(**kw):
    m = NormFixLPIPS.__new__(NormFixLPIPS)
    nn.Module.__init__(m)
    m.lpips, m.spatial, m.version, m.L = True, False, "0.1", 2
    for k, v in kw.items():
        setattr(m, k, v)
    m.net = Net()
    m.lins = nn.ModuleList([Lin(W0), Lin(W1)])
    m.scaling_layer = Scale()
    return m


class Scale(nn.Module):
    def forward(self, x):
        return 4 * x - 1


def unit(v, eps=1e-8):
    return v / torch.sqrt((v ** 2 + eps).sum(0))


def lpips(W, normalize, lin, version):
    def body(h):
        B = 1
        x = h.tensor("x", (B, 3, 1, W), dtype=torch.float64, lo=-2, hi=2)
        y = h.tensor("y", (B, 3, 1, W), dtype=torch.float64, lo=-2, hi=2)
        m = make_lpips(lpips=lin, version=version).double()
        out, per = m(x, y, retPerLayer=True, normalize=normalize)
        p = (lambda t: 2 * t - 1) if normalize else (lambda t: t)
        s = (lambda t: 4 * t - 1) if version == "0.1" else (lambda t: t)
        a, b = s(p(x)), s(p(y))
        h.claim("[0,1] images are mapped to [-1,1] on request, then scaled", h.close(torch.cat(m.net.seen), torch.cat([a, b])))
        fa, fb = Net()(a), Net()(b)
        tot = 0
        for k, w in ((0, W0), (1, W1)):
            hw = fa[k].shape[3]
            v = 0
            for j in range(hw):
                d = (unit(fa[k][0, :, 0, j]) - unit(fb[k][0, :, 0, j])) ** 2
                v = v + (sum(wi * d[i] for i, wi in enumerate(w)) if lin else d.sum())
            tot = tot + v / hw
        h.claim("distance = sum over layers of the averaged weighted squared differences of unit features", h.close(out.reshape(()), tot))
        h.claim_defined("defined even where all features vanish", out)
        h.claim("one value per image", tuple(out.shape) == (1, 1, 1, 1) and len(per) == 2)
    return body


def lpips_same(h):
    x = h.tensor("x", (1, 3, 1, 2), dtype=torch.float64, lo=-2, hi=2)
    m = make_lpips().double()
    h.claim("identical images have distance 0", h.close(m(x, x.clone(), normalize=True), torch.zeros(1, 1, 1, 1, dtype=torch.float64)))
    m.train()
    h.claim("the network stays in evaluation mode", not m.training and not m.net.training)
    m.train(True)
    h.claim("the network stays in evaluation mode", not m.training)


class FakeLPIPS(nn.Module):
    def __init__(self, net=None, **kw):
        super().__init__()
        self.kind = net
        self.w = nn.Parameter(torch.ones(1, dtype=torch.float64))
        self.calls = []

    def forward(self, a, b, normalize=False, **kw):
        self.calls.append((a, b, normalize))
        return ((a - b).abs().sum(dim=(1, 2, 3), keepdim=True) + 1) * self.w


def mse_lpips(B, kw):
    def body(h):
        mod = sys.modules["neuralcompression.loss_fn._mse_lpips_loss"]
        real = mod.NormFixLPIPS
        mod.NormFixLPIPS = FakeLPIPS
        try:
            m = lf.MSELPIPSLoss(**kw)
        finally:
            mod.NormFixLPIPS = real
        x = h.tensor("x", (B, 1, 1, 2), dtype=torch.float64, lo=0, hi=1)
        y = h.tensor("y", (B, 1, 1, 2), dtype=torch.float64, lo=0, hi=1)
        out = m(x, y)
        lp = (x - y).abs().sum(dim=(1, 2, 3)) + 1
        h.claim("weighted sum of mean squared error and mean LPIPS", h.close(out, kw.get("mse_param", 255.0 ** 2) * ((x - y) ** 2).mean() + kw.get("lpips_param", 1.0) * lp.mean(), tol=1e-6))
        c = m.lpips_model.calls
        h.claim("LPIPS gets image, reference and the normalise flag", len(c) == 1 and c[0][0] is x and c[0][1] is y and c[0][2] == kw.get("normalize", True))
        h.claim("backbone passed on, network frozen and in evaluation mode", m.lpips_model.kind == kw.get("backbone", "vgg") and not m.lpips_model.training and not m.lpips_model.w.requires_grad)
    return body


def instances(tier):
    out = []
    for s, t in (((1,), "scalar"), ((2, 1), "map"), ((1, 1, 1, 2), "map"), ((2, 1), "scalar")):
        out.append(dict(name="bce/%s/%s" % ("x".join(map(str, s)), t), group="bce", body=bce(s, t), budget=100, timeout=30))
    out.append(dict(name="bce/value", body=bce_value, budget=120, timeout=40, tol=1e-4))
    for a in ((1, 2, 1, 1), (1, 3, 1, 2), (2, 2, 1, 1), (1, 3, 2, 1)):
        out.append(dict(name="oasis/%s" % "x".join(map(str, a)), group="oasis", body=oasis(*a), budget=100, timeout=30))
    out.append(dict(name="oasis/shapes", body=oasis_shapes, max_paths=500, budget=100))
    for s, d in (((1,), True), ((2, 1, 1, 1), False), ((1, 1, 2, 2), True), ((4,), False)):
        out.append(dict(name="mse/%s/%s" % ("x".join(map(str, s)), d), group="mse", body=mse(s, d), budget=60, tol=1e-6))
    for a in ((1, True, True, "0.1"), (2, False, True, "0.1"), (1, True, False, "0.1"), (2, True, True, "0.0")):
        out.append(dict(name="lpips/%s" % "-".join(map(str, a)), group="lpips", body=lpips(*a), budget=120, timeout=40))
    out.append(dict(name="lpips/same", body=lpips_same, budget=60))
    for k, (B, kw) in enumerate(((1, {}), (2, dict(mse_param=2.0, lpips_param=0.5, normalize=False, backbone="alex")), (2, dict(lpips_param=3.0)))):
        out.append(dict(name="mse-lpips/%d" % k, group="mse-lpips", body=mse_lpips(B, kw), budget=60, tol=1e-6))
    return out
