"""P23: U-Net discriminators: level composition, output resolution, conditioning, validation."""
import contextlib
import copy

import torch
import torch.nn.functional as F
import z3
from torch import nn

from neuralcompression.models import ConditionalUnetDiscriminator, UnetDiscriminator
from neuralcompression.models import _unet_discriminator as ud
from vlib.util import fill

BOUNDS = ("levels: every input in [-4,4] of 1x1x2x2 (2x2x2x2 for the composition) through real levels with fixed irregular weights, top/inner, clipped/unclipped, equal and different channel counts; "
          "conditioning: every image 2x1x2x4 and context 2x2x1x2 in [-4,4]; sizes: every H, W in [8,64] for 2 levels and factors 1, 2 and every multiple of 8 up to 64 for 3 levels and factors 1, 2, 4; factor validation: every integer in [-4,20]")
OUTSIDE = "the weights of the full-size discriminator; factors of 2^levels and above (the implementation has no output path there); spectral normalisation's power iteration"
ASSUMPTIONS = []


class Fn(nn.Module):
    def __init__(self, f):
        super().__init__()
        self.f, self.seen = f, []

    def forward(self, x):
        self.seen.append(x)
        return self.f(x)


KEYS = [(i, d, o, top, clip) for (i, d, o) in ((1, 1, None), (1, 2, 1), (2, 1, 2)) for top in (False, True) for clip in (False, True)]
LEVELS = {k: fill(ud._UnetLevel(k[0], k[1], nn.Identity(), out_planes=k[2], top=k[3], clip_upsample=k[4]).double().eval(), 3, -1, 1) for k in KEYS}
NETS = {(f, n, L): UnetDiscriminator(5, f, chans=[3] + [2] * L, norm_type=n).eval() for L in (2, 3) for f in (1, 2, 4)[:L] for n in ("identity", "batch", "instance")}
COND = ConditionalUnetDiscriminator(2, 2, context_in=2, context_out=2, chans=[3, 2, 2]).double().eval()
fill(COND, 7, -1, 1)


def convs(seq):
    return [m for m in seq.modules() if isinstance(m, nn.Conv2d)]


def conv(c, x):
    return F.conv2d(x, c.weight.detach(), None if c.bias is None else c.bias.detach(), padding=c.kernel_size[0] // 2)


def lrelu(x):
    return torch.where(x > 0, x, x * 0.2)


def up(x):
    return x.repeat_interleave(2, 2).repeat_interleave(2, 3)


def level(key):
    i, d, o, top, clip = key

    def body(h):
        x = h.tensor("x", (1, i, 2, 2), dtype=torch.float64, lo=-4, hi=4)
        x0 = x.clone()
        m = copy.deepcopy(LEVELS[key])
        m.child = ch = Fn(lambda t: t * 2 - 0.5)
        y = m(x)
        h.claim("input untouched", h.eq(x, x0))
        a, b = convs(m.left_block)
        left = F.avg_pool2d(conv(b, lrelu(conv(a, x0 if top else lrelu(x0)))), 2)
        sc = F.avg_pool2d(x0 if i == d else conv(convs(m.left_shortcut)[0], x0), 2)
        h.claim("child gets block plus shortcut of the same input, halved", h.close(ch.seen[0], left + sc))
        c = (left + sc) * 2 - 0.5
        if clip:
            h.claim("a clipped level returns the child's result", h.close(y, c))
        else:
            a, b = convs(m.right_block)
            oo = i if o is None else o
            r = conv(b, lrelu(conv(a, up(lrelu(c)))))
            h.claim("otherwise block plus shortcut of the child's result, doubled", h.close(y, r + up(c if d == oo else conv(convs(m.right_shortcut)[0], c))))
    return body


def conditional(h):
    x = h.tensor("x", (2, 1, 2, 4), dtype=torch.float64, lo=-4, hi=4)
    c = h.tensor("c", (2, 2, 2, 2), dtype=torch.float64, lo=-4, hi=4)
    m = copy.deepcopy(COND)
    m._unet = u = Fn(lambda t: t * 3)
    y = m(x, c)
    k = m.input_sequence[0]
    p = F.pad(c, (1, 1, 1, 1), mode="reflect")
    z = lrelu(F.conv2d(p, k.weight.detach(), k.bias.detach()))
    z = z.repeat_interleave(2, 3)
    h.claim("the network sees the image followed by its own resized context", tuple(u.seen[0].shape) == (2, 3, 2, 4) and h.close(u.seen[0], torch.cat((x, z), 1)))
    h.claim("its result is returned", h.close(y, torch.cat((x, z), 1) * 3))
    h.claim("kinds", m.is_conditional is True and NETS[1, "identity", 2].is_conditional is False)


@contextlib.contextmanager
def no_init():
    real = nn.Conv2d.reset_parameters
    nn.Conv2d.reset_parameters = lambda self: None
    try:
        yield
    finally:
        nn.Conv2d.reset_parameters = real


def factors(h):
    f = h.pyint("factor", -4, 20)
    ok = f in (1, 2, 4, 8, 16)
    if f not in (4, 8, 16):  # representable with two levels: 1 and 2
        try:
            with no_init():
                UnetDiscriminator(1, f, chans=[1, 1, 1])
            h.claim("only powers of two accepted", ok)
        except ValueError:
            h.claim("powers of two accepted", not ok)


def norms(h):
    n = ("batch", "instance", "spectral", "identity", "other")[h.pyint("norm", 0, 4)]
    try:
        l = ud.build_norm_layer(2, n)
        with no_init():
            c = nn.Conv2d(1, 1, 1)
        with torch.no_grad():
            c.weight.fill_(1.0)
        h.claim("known", n != "other")
        h.claim("layer of the requested kind", isinstance(l, {"batch": nn.BatchNorm2d, "instance": nn.InstanceNorm2d}.get(n, nn.Identity)))
        if n != "spectral":
            h.claim("convolution left alone", ud.apply_conv_norm(c, n) is c and not hasattr(c, "parametrizations"))
    except ValueError:
        h.claim("unknown normalisation rejected", n == "other")
    if n == "other":
        try:
            ud.apply_conv_norm(nn.Identity(), n)
            h.claim("unknown normalisation rejected", False)
        except ValueError:
            h.claim("unknown normalisation rejected", True)


def sizes(f, n, L):
    def body(h):
        H, W = h.dim("H"), h.dim("W")
        y = NETS[f, n, L](h.image(2, 3, H, W))
        d = 2 ** L
        h.claim_eq("output resolution", y.shape, (2, 5, (H // d) * (d // f), (W // d) * (d // f)))
    return body


def cond_sizes(h):
    H, W, a, b = h.dim("H"), h.dim("W"), h.dim("a"), h.dim("b")
    y = COND32(h.image(2, 1, H, W), h.image(2, 2, a, b))
    h.claim_eq("output resolution follows the image, whatever the context's", y.shape, (2, 2, (H // 4) * 2, (W // 4) * 2))


COND32 = copy.deepcopy(COND).float()


def instances(tier):
    out = []
    for k in KEYS:
        out.append(dict(name="level/%s" % "-".join(map(str, k)), group="level/%s-%s" % k[3:], body=level(k), budget=100, timeout=30))
    out.append(dict(name="conditional", body=conditional, budget=60))
    out.append(dict(name="factors", body=factors, budget=60))
    out.append(dict(name="norms", body=norms, budget=60))
    for f, n, L in NETS:
        if n == "identity" or (f == 2 and L == 2):
            lo = 16 if n == "instance" else 8
            out.append(dict(name="sizes/%d/%d/%s" % (L, f, n), group="sizes", kind="shape", body=sizes(f, n, L), domain={"H": (lo, 64), "W": (lo, 64)}, budget=100,
                            where=(lambda z: z3.And(z["H"] % 8 == 0, z["W"] % 8 == 0)) if L == 3 else None))
    out.append(dict(name="sizes/conditional", kind="shape", body=cond_sizes, domain={"H": (8, 32), "W": (8, 32), "a": (3, 8), "b": (3, 8)}, budget=100))
    return out
