"""P22: VQ-VAE autoencoder with XCiT attention, and the projector built on it."""
import copy

import torch
import torch.nn.functional as F
from torch import nn

from neuralcompression import VqVaeAutoencoderOutput
from neuralcompression.models import VqVaeProjector, VqVaeXCiTAutoencoder
from neuralcompression.models import _vqvae_xcit_autoencoder as vq
from vlib.util import fill, pat

BOUNDS = ("forward: every image in [-4,4] of the listed sizes up to 2x1x5x6 with downsampling factors 1, 2 and 4 in training and evaluation mode, with and without bottleneck; "
          "blocks: every input in [-4,4] of up to 1x2x3x3; sizes: every H, W in [9,70] through the real networks with 3 and 2 resolutions and both resampling kinds; freezing: every history of 3 mode changes and forward calls")
OUTSIDE = "training images whose size is not a multiple of the factor (never padded by the implementation), the full-size networks' weights, dropout"
ASSUMPTIONS = ["for the value claims of the composition, encoder, decoder, normalisation and attention are replaced by small value-distinguishing stand-ins"]


class Fn(nn.Module):
    def __init__(self, f, n=1):
        super().__init__()
        self.f, self.seen = f, []
        self.weight = nn.Parameter(torch.ones(1))
        self.drop = nn.Dropout(0.5)

    def forward(self, x):
        self.seen.append((x, self.training))
        return self.f(x)


def bottleneck(o):
    o.indices = o.latent + 7
    o.latent = o.latent * 3
    o.num_bytes = 11
    return o


def build(mult=(1, 1), bott=False, **k):
    return VqVaeXCiTAutoencoder(ch=16, ch_mult=mult, num_res_blocks=1, attn_resolutions=[8], resolution=16, embed_dim=4, bottleneck_op=Fn(bottleneck) if bott else None, **k)


MODELS = {(n, b): build((1,) * n, b) for n in (1, 2, 3) for b in (False, True)}
FROZEN = {(e, b): build((1,), True, freeze_encoder=e, freeze_bottleneck=b) for e in (False, True) for b in (False, True)}
REAL = {k: build(*k[:1], resamp_with_conv=k[1], norm_type=k[2]).eval() for k in (((1, 2), True, "group"), ((1, 1, 2), False, "channel"), ((1, 1, 1), True, "channel_last"))}
for _m in REAL.values():  # token attention keeps its shape (P15); it would only split the size classes
    for _s in list(_m.modules()):
        if isinstance(_s, vq._AttnBlock):
            _s.xca = Fn(lambda t: t * 2)
RES = {(i, o, c): vq._ResnetBlock(i, o, conv_shortcut=c, norm_type="channel").double().eval() for i, o, c in ((2, 2, False), (2, 3, False), (2, 3, True))}
ATT = vq._AttnBlock(2, norm_type="channel").double().eval()
DOWN = {b: fill(vq._Downsample(1, b).double(), 4) for b in (False, True)}
UP = {b: fill(vq._Upsample(1, b).double(), 5) for b in (False, True)}


def up(x, k):
    return x.repeat_interleave(k, 2).repeat_interleave(k, 3)


def forward(shape, levels, bott, train):
    f = 2 ** (levels - 1)

    def dec(z):
        y = up(z, f)
        return y * 2 + pat((1, 1) + tuple(y.shape[-2:]), 3, torch.float64)

    def body(h):
        B, C, H, W = shape
        x = h.tensor("x", shape, dtype=torch.float64, lo=-4, hi=4)
        x0 = x.clone()
        m = copy.deepcopy(MODELS[levels, bott])
        m.encoder, m.decoder = Fn(lambda t: t[:, :, f - 1::f, f - 1::f] * 5 - 1), Fn(dec)
        m.train(train)
        o = m(x)
        h.claim("input untouched", h.eq(x, x0))
        Hp, Wp = (H, W) if train else (-(-H // f) * f, -(-W // f) * f)

        def src(i, n):
            return i if i < n else 2 * (n - 1) - i
        xp = x0[:, :, [src(i, H) for i in range(Hp)]][:, :, :, [src(j, W) for j in range(Wp)]]
        lat = xp[:, :, f - 1::f, f - 1::f] * 5 - 1
        h.claim("encoder runs once on the padded image", len(m.encoder.seen) == 1 and tuple(m.encoder.seen[0][0].shape) == tuple(xp.shape) and h.eq(m.encoder.seen[0][0], xp))
        z = lat * 3 if bott else lat
        h.claim("latent is the bottleneck's", tuple(o.latent.shape) == tuple(z.shape) and h.close(o.latent, z))
        h.claim("image is the decoded latent cropped to the input size", tuple(o.image.shape) == shape and h.close(o.image, dec(z)[:, :, :H, :W]))
        h.claim("bottleneck fields kept", (o.num_bytes == 11 and h.close(o.indices, lat + 7)) if bott else o.num_bytes is None)
        h.claim("factor", m.factor == f)
    return body


def resnet(i, o, c):
    def body(h):
        x = h.tensor("x", (1, i, 1, 2), dtype=torch.float64, lo=-4, hi=4)
        m = copy.deepcopy(RES[i, o, c])
        m.norm1, m.conv1, m.norm2, m.conv2 = Fn(lambda t: t * 2), Fn(lambda t: torch.cat((t, t * t), 1)[:, :o]), Fn(lambda t: t - 1), Fn(lambda t: t * 0.5)
        sc = torch.cat((x, x), 1)[:, :o] * 3
        if i != o:
            (setattr(m, "conv_shortcut", Fn(lambda t: torch.cat((t, t), 1)[:, :o] * 3)) if c else setattr(m, "nin_shortcut", Fn(lambda t: torch.cat((t, t), 1)[:, :o] * 3)))
        a = x * 2
        a = a * torch.sigmoid(a)
        b = torch.cat((a, a * a), 1)[:, :o] - 1
        b = b * torch.sigmoid(b) * 0.5
        h.claim("residual block: shortcut plus two normalised, swish-activated convolutions", h.close(m(x), (x if i == o else sc) + b))
    return body


def attn(h):
    B, C, H, W = 2, 2, 2, 2
    x = h.tensor("x", (B, C, H, W), dtype=torch.float64, lo=-4, hi=4)
    m = copy.deepcopy(ATT)
    m.norm = Fn(lambda t: t * 2 + 1)
    k = torch.arange(1.0, H * W + 1, dtype=torch.float64).reshape(1, -1, 1)
    m.xca = Fn(lambda t: t * k + t.flip(-1))
    y = m(x)
    h.claim("tokens are the pixels, in order", tuple(m.xca.seen[0][0].shape) == (B, H * W, C) and h.all_(torch.stack([m.xca.seen[0][0][b, i * W + j, c] == 2 * x[b, c, i, j] + 1 for b in range(B) for c in range(C) for i in range(H) for j in range(W)])))
    for b in range(B):
        for c in range(C):
            for i in range(H):
                for j in range(W):
                    t = 2 * x[b, :, i, j] + 1
                    h.claim("attention result is added at its own pixel and channel", h.close(y[b, c, i, j], x[b, c, i, j] + t[c] * (i * W + j + 1) + t[C - 1 - c]))


def resample(h):
    x = h.tensor("x", (1, 1, 3, 4), dtype=torch.float64, lo=-4, hi=4)
    h.claim("average pooling", h.close(DOWN[False](x)[0, 0, 0], torch.stack([x[0, 0, :2, j:j + 2].sum() / 4 for j in (0, 2)])))
    w, b = DOWN[True].conv.weight.detach()[0, 0], DOWN[True].conv.bias.detach()[0]
    y = DOWN[True](x)
    h.claim("strided size", tuple(y.shape) == (1, 1, 1, 2))
    for j in range(2):
        s = b
        for u in range(3):
            for v in range(3):
                if u < 3 and 2 * j + v < 4:
                    s = s + w[u, v] * x[0, 0, u, 2 * j + v]
        h.claim("strided convolution padded at the right and bottom only", h.close(y[0, 0, 0, j], s))
    h.claim("nearest doubling", h.close(UP[False](x), up(x, 2)))
    h.claim("doubling then convolution", h.close(UP[True](x), F.conv2d(up(x, 2), UP[True].conv.weight.detach(), UP[True].conv.bias.detach(), padding=1)))


def freezing(e, b):
    def body(h):
        m = copy.deepcopy(FROZEN[e, b])
        m.encoder, m.decoder = Fn(lambda t: t * 2), Fn(lambda t: t + 1)
        for p in m.encoder.parameters():
            p.requires_grad_(not e)
        tr = True
        for i in range(3):
            op = h.pyint("op%d" % i, 0, 2)
            if op == 0:
                m.train()
                tr = True
            elif op == 1:
                m.eval()
                tr = False
            else:
                m(torch.ones(1, 1, 2, 2, dtype=torch.float64))
                h.claim("frozen encoder runs in evaluation mode", m.encoder.seen[-1][1] == (tr and not e))
                h.claim("frozen bottleneck runs in evaluation mode", m.bottleneck_op.seen[-1][1] == (tr and not b))
        for mod, fr in ((m.encoder, e), (m.bottleneck_op, b), (m.decoder, False)):
            h.claim("exactly the frozen parts have no trainable parameter", all(p.requires_grad != fr for p in mod.parameters()))
    return body


def ctor(h):
    e, b = h.pybool("e"), h.pybool("b")
    m = copy.deepcopy(FROZEN[bool(e), bool(b)])
    for mod, fr in ((m.encoder, e), (m.bottleneck_op, b), (m.decoder, False)):
        h.claim("constructor flags freeze the parts", all(p.requires_grad != fr for p in mod.parameters()) and all(s.training != fr for s in mod.modules()))


def projector(h):
    x = h.tensor("x", (2, 1, 2, 3), dtype=torch.float64, lo=-4, hi=4)
    m = copy.deepcopy(MODELS[1, True])
    m.encoder = Fn(lambda t: t * 2)
    m.train()
    p = VqVaeProjector(m)
    h.claim("frozen", all(not q.requires_grad for q in p.parameters()) and not any(s.training for s in p.modules()))
    for i in range(2):
        if h.pybool("t%d" % i):
            p.train()
        else:
            p.eval()
        h.claim("always in evaluation mode", not any(s.training for s in p.modules()))
    h.claim("the labels are the bottleneck's indices of the encoded image", h.close(p(x), x * 2 + 7))
    m.bottleneck_op = None
    try:
        VqVaeProjector(m)
        h.claim("a bottleneck is required", False)
    except AssertionError:
        h.claim("a bottleneck is required", True)


def sizes(key):
    def body(h):
        H, W = h.dim("H"), h.dim("W")
        m = REAL[key]
        f = 2 ** (len(key[0]) - 1)
        o = m(h.image(2, 3, H, W))
        h.claim_eq("image size kept", o.image.shape, (2, 3, H, W))
        h.claim_eq("latent size", o.latent.shape, (2, 4, (H + f - 1) // f, (W + f - 1) // f))
    return body


def norms(h):
    try:
        vq.create_norm(16, "other")
        h.claim("unknown normalisation rejected", False)
    except ValueError:
        h.claim("unknown normalisation rejected", True)
    n = vq.create_norm(16, "group")
    h.claim("group normalisation", isinstance(n, nn.GroupNorm) and n.num_groups == 16 and n.num_channels == 16)


def instances(tier):
    out = []
    for s, lv in (((2, 1, 3, 3), 1), ((1, 1, 4, 4), 2), ((2, 1, 3, 4), 2), ((1, 1, 5, 6), 3), ((1, 1, 8, 3), 3)):
        for b in (False, True):
            out.append(dict(name="forward/eval/%s/%d/%s" % ("x".join(map(str, s)), lv, b), group="forward/eval/%s" % b, body=forward(s, lv, b, False), budget=60, timeout=20))
    for s, lv in (((2, 1, 3, 3), 1), ((1, 1, 4, 6), 2), ((1, 1, 4, 8), 3)):
        for b in (False, True):
            out.append(dict(name="forward/train/%s/%d/%s" % ("x".join(map(str, s)), lv, b), group="forward/train/%s" % b, body=forward(s, lv, b, True), budget=60, timeout=20))
    for k in RES:
        out.append(dict(name="resnet/%d-%d-%s" % k, group="resnet", body=resnet(*k), budget=60, timeout=20))
    out.append(dict(name="attention", body=attn, budget=60))
    out.append(dict(name="resample", body=resample, budget=60))
    for e in (False, True):
        for b in (False, True):
            out.append(dict(name="freezing/%s/%s" % (e, b), group="freezing", body=freezing(e, b), budget=60, max_paths=100))
    out.append(dict(name="constructor", body=ctor, budget=60))
    out.append(dict(name="projector", body=projector, budget=60))
    out.append(dict(name="norms", body=norms, budget=60))
    for k in REAL:
        out.append(dict(name="sizes/%s" % len(k[0]) + k[2], group="sizes", kind="shape", body=sizes(k), domain={"H": (9, 70), "W": (9, 70)}, budget=120))
    return out
