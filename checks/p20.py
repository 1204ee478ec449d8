"""P20: HiFiC hyperprior autoencoder: compress/decompress consistency, training and evaluation latents, sizes."""
import contextlib
import copy

import torch
from torch import nn

from neuralcompression import HyperpriorCompressedOutput
from neuralcompression.models import HiFiCAutoencoder
from neuralcompression.models import _hific_autoencoder as ha
from neuralcompression.models import _hific_encoder_decoder as ed
from vlib.util import pat

BOUNDS = ("coding: every image of 40x64, 64x64, 33x70 and 2x(64x64) pixels with values in [-4,4]; training/evaluation: every 64x64 image in [-4,4], every noise in [-1/2,1/2]; "
          "sizes: every H, W in [33,200] through the real encoder, hyper networks and generator; wiring of generator and residual block: every 2x2 input; devices: every call history of length 3; freezing: every call history of length 4")
OUTSIDE = "the convolution weights of the full-size networks (sub-networks are replaced by small value-distinguishing stand-ins for the value claims), GPU devices"
ASSUMPTIONS = ["CompressAI's entropy coders are replaced by lossless stand-ins that store the rounded symbols and check that the decoder passes the size and the scale indexes the encoder used"]


class HyperStub(nn.Module):
    """stands for EntropyBottleneck; median 0.25"""

    def __init__(self):
        super().__init__()
        self.quantiles = nn.Parameter(torch.zeros(3, dtype=torch.float64))
        self.w = nn.Parameter(torch.zeros(2, dtype=torch.float64))
        self.noise, self.calls, self.updates = 0.0, [], 0

    def q(self, x):
        return torch.round(x - 0.25) + 0.25

    def forward(self, x, training=None):
        t = self.training if training is None else training
        y = x + self.noise if t else self.q(x)
        return y, y * 0.125 + 0.5

    def compress(self, x):
        self.calls.append(("c", tuple(x.shape[-2:])))
        return [["hyper", x[i:i + 1]] for i in range(x.shape[0])]

    def decompress(self, strings, size):
        self.calls.append(("d", tuple(size)))
        return self.q(torch.cat([s[1] for s in strings], 0))

    def update(self, force=False, **k):
        self.updates += 1
        return True


class LatentStub(nn.Module):
    """stands for GaussianConditional"""

    def __init__(self):
        super().__init__()
        self.noise, self.idx, self.updates = 0.0, [], 0

    def forward(self, x, scales, means=None, training=None):
        t = self.training if training is None else training
        m = 0.0 if means is None else means
        y = x + self.noise if t else torch.round(x - m) + m
        return y, (y - m) * 0.0625 + scales

    def build_indexes(self, scales):
        return scales * 2

    def compress(self, x, indexes, means=None):
        m = 0.0 if means is None else means
        s = torch.round(x - m)
        return [["latent", s[i:i + 1], indexes[i:i + 1]] for i in range(x.shape[0])]

    def decompress(self, strings, indexes, dtype=torch.float, means=None):
        self.idx.append((torch.cat([s[2] for s in strings], 0), indexes))
        return torch.cat([s[1] for s in strings], 0) + (0.0 if means is None else means)

    def update(self, *a, **k):
        self.updates += 1
        return True

    update_scale_table = update


class Fn(nn.Module):
    def __init__(self, f):
        super().__init__()
        self.f = f
        self.weight = nn.Parameter(torch.ones(1, dtype=torch.float64))
        self.blocks = nn.Sequential(nn.Sequential(nn.Conv2d(1, 1, 1)), nn.Dropout(0.5))

    def forward(self, x):
        return self.f(x)


def up(x, k):
    return x.repeat_interleave(k, 2).repeat_interleave(k, 3)


def decode(x):
    y = up(x, 16) * 0.5
    return y + pat((1, 1) + tuple(y.shape[-2:]), 3, torch.float64, -0.5, 0.5)


def model():
    """the real HiFiCAutoencoder with its sub-networks replaced by small stand-ins"""
    return copy.deepcopy(BASE)


@contextlib.contextmanager
def small():
    """the large encoder and generator are not built"""
    keep = ha.HiFiCEncoder, ha.HiFiCGenerator
    ha.HiFiCEncoder, ha.HiFiCGenerator = (lambda *a, **k: Fn(lambda x: x)), (lambda *a, **k: Fn(lambda x: x))
    try:
        yield
    finally:
        ha.HiFiCEncoder, ha.HiFiCGenerator = keep


def build():
    with small():
        m = HiFiCAutoencoder(in_channels=1, latent_features=2, hyper_features=2, num_residual_blocks=1)
        m.encoder = Fn(lambda x: x[:, :, 3::16, 5::16] * 2)
        m.decoder = Fn(decode)
        m.hyper_analysis = Fn(lambda x: x[:, :, 1::4, 2::4] * 0.5 + x[:, :, 2::4, 3::4])
        m.hyper_synthesis_mean = Fn(lambda x: up(x, 4) * 0.75 + 0.125)
        m.hyper_synthesis_scale = Fn(lambda x: up(x, 4) * 0.25 + 3)
        m.hyper_bottleneck, m.latent_bottleneck = HyperStub(), LatentStub()
        m.set_compress_cpu_layers([m.hyper_bottleneck, m.latent_bottleneck, m.hyper_synthesis_scale, m.hyper_synthesis_mean, m.hyper_analysis])
    return m


BASE = build()
FULL = HiFiCAutoencoder(in_channels=3, latent_features=4, hyper_features=2, num_residual_blocks=1).eval()
GEN = ed.HiFiCGenerator(2, 2, 1)
RES = ed._ResidualBlock(2)


def coding(shape):
    def body(h):
        B, _, H, W = shape
        x = h.tensor("x", shape, dtype=torch.float64, lo=-4, hi=4)
        x0 = x.clone()
        m = model().eval()
        m.update()
        c = m.compress(x)
        h.claim("input untouched", h.eq(x, x0))
        Hp, Wp = -(-H // 64) * 64, -(-W // 64) * 64
        h.claim("sizes recorded", tuple(c.image_size) == (H, W) and tuple(c.padded_size) == (Hp, Wp))
        h.claim("one string per image", len(c.latent_strings) == B and len(c.hyper_latent_strings) == B)
        dec = m.decompress(HyperpriorCompressedOutput(**{k: getattr(c, k) for k in ("latent_strings", "hyper_latent_strings", "image_size", "padded_size")}))
        h.claim("image size restored", tuple(dec.shape) == shape)
        enc = [s for t, s in m.hyper_bottleneck.calls if t == "c"]
        h.claim("decoder asks for the hyper-latent size that was encoded", len(enc) == 1 and all(tuple(s) == enc[0] for t, s in m.hyper_bottleneck.calls if t == "d"))
        h.claim("encoder and decoder use the same scale indexes", len(m.latent_bottleneck.idx) == 1 and tuple(m.latent_bottleneck.idx[0][0].shape) == tuple(m.latent_bottleneck.idx[0][1].shape) and h.close(*m.latent_bottleneck.idx[0]))

        def src(i, n):
            return i if i < n else 2 * (n - 1) - i
        xp = x0[:, :, [src(i, H) for i in range(Hp)]][:, :, :, [src(j, W) for j in range(Wp)]]
        lat = m.encoder(xp)
        hq = m.hyper_bottleneck.q(m.hyper_analysis(lat))
        mu = m.hyper_synthesis_mean(hq)
        ref = decode(torch.round(lat - mu) + mu)[:, :, :H, :W]
        h.claim("reconstruction is the decoded quantised latent, cropped and clamped to [0,1]", h.close(dec, torch.clamp(ref, 0.0, 1.0)))
        if (H, W) == (Hp, Wp):
            h.claim("evaluation forward agrees with coding", h.close(torch.clamp(m(x0).image, 0.0, 1.0), dec))
    return body


def forward(train):
    def body(h):
        x = up(h.tensor("x", (1, 1, 4, 4), dtype=torch.float64, lo=-4, hi=4), 16)
        n1 = h.tensor("n1", (1, 1, 1, 1), dtype=torch.float64, lo=-0.5, hi=0.5)
        n2 = h.tensor("n2", (1, 1, 4, 4), dtype=torch.float64, lo=-0.5, hi=0.5)
        m = model().train(train)
        m.hyper_bottleneck.noise, m.latent_bottleneck.noise = n1, n2
        lat = (x[:, :, 3::16, 5::16] * 2).detach()
        hl = m.hyper_analysis(lat)
        hy = hl + n1 if train else m.hyper_bottleneck.q(hl)
        mu, sc = m.hyper_synthesis_mean(hy), m.hyper_synthesis_scale(hy)
        xg = x.clone().requires_grad_(True)
        o = m(xg)
        ql = torch.round(lat - mu) + mu
        h.claim("decoder latent is the latent rounded around its mean", h.close(o.latent, ql))
        h.claim("reconstruction is decoded from that latent", h.close(o.image, decode(o.latent)))
        h.claim("hyper latent", h.close(o.hyper_latent, hy))
        h.claim("hyper likelihoods", h.close(o.hyper_latent_likelihoods, hy * 0.125 + 0.5))
        yl = lat + n2 if train else ql
        h.claim("latent likelihoods", h.close(o.latent_likelihoods, (yl - mu) * 0.0625 + sc))
        h.claim("quantised latent likelihoods are those of the rounded latent", h.close(o.quantized_latent_likelihoods, (ql - mu) * 0.0625 + sc))
        h.claim("quantised hyper likelihoods are those of the rounded hyper latent", h.close(o.quantized_hyper_latent_likelihoods, m.hyper_bottleneck.q(hl) * 0.125 + 0.5))
        h.claim("quantised likelihoods carry no gradient", not o.quantized_latent_likelihoods.requires_grad and not o.quantized_hyper_latent_likelihoods.requires_grad)
        if train:
            w = pat((1, 1, 4, 4), 5, torch.float64, -1, 1)
            g, = torch.autograd.grad((o.latent * w).sum(), xg)
            h.claim("gradient passes straight through the quantiser", h.close(g[:, :, 3::16, 5::16], 2 * w))
    return body


def devices(h):
    m = model().eval()
    cur, ups = "forward", []
    m.update = lambda *a, **k: ups.append(1)
    x = torch.zeros(1, 1, 64, 64, dtype=torch.float64)
    for i in range(3):
        op = h.pyint("op%d" % i, 0, 3)
        if op < 2:
            cur = ("forward", "compress")[op]
            n = len(ups)
            m.update_tensor_devices(cur)
            h.claim("device setting", m.device_setting == cur)
            h.claim("tables updated before compressing", cur == "forward" or (len(ups) > n and m._check_compress_devices()))
        elif op == 2:
            try:
                m.update_tensor_devices("other")
                h.claim("unknown operation rejected", False)
            except ValueError:
                h.claim("unknown operation rejected and the setting kept", m.device_setting == cur)
        else:
            try:
                m(x)
                h.claim("forward only in the forward setting", cur == "forward")
            except RuntimeError:
                h.claim("forward works in the forward setting", cur != "forward")


BN = ("hyper_bottleneck", "latent_bottleneck", "hyper_synthesis_scale", "hyper_synthesis_mean", "hyper_analysis")


def freezing(h):
    m = model()
    fe = fb = False
    tr = True
    for i in range(4):
        op = h.pyint("op%d" % i, 0, 3)
        if op == 0:
            m.freeze_encoder()
            fe = True
        elif op == 1:
            m.freeze_bottleneck()
            fb = True
        elif op == 2:
            m.train()
            tr = True
        else:
            m.eval()
            tr = False
        h.claim("reported", m.frozen_encoder == fe and m.frozen_bottleneck == fb)
        for name, mod in (("encoder", m.encoder), ("decoder", m.decoder)) + tuple((n, getattr(m, n)) for n in BN):
            fr = fe if name == "encoder" else fb if name in BN else False
            h.claim("frozen parts never train, the others follow the mode", all(s.training == (tr and not fr) for s in mod.modules()))
            h.claim("frozen parts have no trainable parameter, the others keep theirs", all(p.requires_grad != fr for p in mod.parameters()))


def ctor(h):
    e, b = h.pybool("e"), h.pybool("b")
    with small():
        m = HiFiCAutoencoder(in_channels=1, latent_features=2, hyper_features=2, num_residual_blocks=0, freeze_encoder=e, freeze_bottleneck=b)
    h.claim("constructor flags freeze", m.frozen_encoder == e and m.frozen_bottleneck == b and all(p.requires_grad != e for p in m.encoder.parameters())
            and all(p.requires_grad != b for n in BN for p in getattr(m, n).parameters()) and all(p.requires_grad for p in m.decoder.parameters()))
    h.claim("coding layers registered for the CPU", {id(getattr(m, n)) for n in BN} == {id(x) for x in m._compress_cpu_layers})
    h.claim("factor", m.factor == 64)


def generator(h):
    x = h.tensor("x", (1, 1, 2, 2), dtype=torch.float64, lo=-4, hi=4)
    g = GEN
    g.block_0, g.resid_blocks, g.blocks = Fn(lambda t: 2 * t + 1), Fn(lambda t: t * t - 3), Fn(lambda t: 5 * t + t.flip(-1))
    y = 2 * x + 1
    z = y + y * y - 3
    h.claim("generator adds the residual trunk to its input", h.close(g(x), 5 * z + z.flip(-1)))
    r = RES
    r.sequence = Fn(lambda t: t * t * t - 1)
    h.claim("residual block adds its input", h.close(r(x), x + x * x * x - 1))


def sizes(h):
    H, W = h.dim("H"), h.dim("W")
    m = FULL
    hy, la = HyperStub(), LatentStub()
    hy.q = lambda x: x
    m.hyper_bottleneck, m.latent_bottleneck = hy, la
    c = m.compress(h.image(2, 3, H, W))
    h.claim_eq("image size recorded", tuple(c.image_size), (H, W))
    for n, p in zip((H, W), c.padded_size):
        h.claim_eq("padded to a multiple of 64", p % 64, 0)
        h.claim_le("padding covers", n, p)
        h.claim_le("padding minimal", p + 1, n + 64)
    d = m.decompress(c)
    h.claim_eq("restored size", d.shape, (2, 3, H, W))
    enc = [s for t, s in hy.calls if t == "c"]
    for t, s in hy.calls:
        h.claim_eq("same hyper-latent size on both sides", tuple(s), enc[0])
    h.claim_eq("same index shape on both sides", la.idx[0][0].shape, la.idx[0][1].shape)


def netsizes(h):
    H, W = h.dim("H"), h.dim("W")
    lat = FULL.encoder(h.image(1, 3, H, W))
    h.claim_eq("encoder latent", lat.shape, (1, 4, (H + 15) // 16, (W + 15) // 16))
    out = FULL.decoder(lat)
    h.claim_eq("generator output", out.shape, (1, 3, 16 * lat.shape[2], 16 * lat.shape[3]))


def instances(tier):
    out = []
    for s in ((1, 1, 64, 64), (1, 1, 40, 64), (1, 1, 33, 70), (2, 1, 33, 36)):
        out.append(dict(name="coding/%s" % "x".join(map(str, s)), group="coding", body=coding(s), budget=120, timeout=40, cost=30))
    for t in (True, False):
        out.append(dict(name="forward/%s" % ("train" if t else "eval"), body=forward(t), budget=120, timeout=40))
    out.append(dict(name="devices", body=devices, budget=200, max_paths=300))
    out.append(dict(name="freezing", body=freezing, budget=200, max_paths=400))
    out.append(dict(name="constructor", body=ctor, budget=100))
    out.append(dict(name="generator", body=generator, budget=60))
    out.append(dict(name="sizes/coding", kind="shape", body=sizes, domain={"H": (33, 200), "W": (33, 200)}, budget=200))
    out.append(dict(name="sizes/networks", kind="shape", body=netsizes, domain={"H": (33, 200), "W": (33, 200)}, budget=100))
    return out
