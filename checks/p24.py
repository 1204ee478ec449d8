"""P24: deep video compression: encoder/decoder agreement and the pyramid/compensation networks."""
import copy

import torch
import torch.nn.functional as F
from torch import nn

import neuralcompression.functional as ncF
from neuralcompression.models import deep_video_compression as dv
from vlib.util import fill

BOUNDS = ("coding: every pair of 1x3x(2x2, 3x4, 5x3) and 2x3x2x3 frames in [0,1] and every flow/residual derived from them; pyramid: every pair of 1x2x4x4 frames, 2 levels; compensation layer: every 1x1x3x4 input with and without child; "
          "sizes: every H, W in [16,64] (quick: W a multiple of 8) through the real DVC networks (8..40 for the coders, kernel sizes 3 and 5, with GDN and batch normalisation)")
OUTSIDE = "the weights of the full-size networks; user-supplied encoders that do not halve (rounding up)"
ASSUMPTIONS = ["entropy bottlenecks are lossless stand-ins storing rounded symbols", "dense_image_warp (P04) is replaced by a value-distinguishing stand-in in the value claims"]


class Bottle(nn.Module):
    def __init__(self, med):
        super().__init__()
        self.med, self.calls, self.upd = med, [], []

    def q(self, x):
        return torch.round(x * 4 - self.med) / 4 + self.med

    def compress(self, x):
        self.calls.append(("c", tuple(x.shape[-2:])))
        return [["s", x[i:i + 1]] for i in range(x.shape[0])]

    def decompress(self, strings, size):
        self.calls.append(("d", tuple(size)))
        return self.q(torch.cat([s[1] for s in strings], 0))

    def forward(self, x):
        y = x + self.med
        return y, y * 0.25

    def update(self, force=True):
        self.upd.append(force)
        return self.res


class Enc(nn.Module):
    def __init__(self, a):
        super().__init__()
        self.a = a

    def forward(self, x):
        return x[:, :, ::2, ::2] * self.a, [x.shape]


class Dec(nn.Module):
    def __init__(self, a):
        super().__init__()
        self.a = a

    def forward(self, x, sizes):
        s = sizes[-1]
        return x.repeat_interleave(2, 2).repeat_interleave(2, 3)[:, :, :s[-2], :s[-1]] * self.a


class Fn(nn.Module):
    def __init__(self, f):
        super().__init__()
        self.f, self.seen = f, []

    def forward(self, *a):
        self.seen.append(a)
        return self.f(*a)


def warp(image, flow):
    return image * 0.5 + flow[..., :1].permute(0, 3, 1, 2) * 2 + flow[..., 1:].permute(0, 3, 1, 2) * 0.25


class patched:
    def __enter__(self):
        self.k = ncF.dense_image_warp
        ncF.dense_image_warp = warp

    def __exit__(self, *a):
        ncF.dense_image_warp = self.k


def est(a, b):
    return (a - b * 0.5)[:, :2] + 0.125


def comp(a, b, f):
    return b * 0.5 + a * 0.25 + f[:, :1] * 0.125


def small():
    return dv.DVC(motion_estimator=Fn(est), motion_encoder=Enc(2.0), motion_entropy_bottleneck=Bottle(0.125), motion_decoder=Dec(0.75), motion_compensation=Fn(comp),
                  residual_encoder=Enc(3.0), residual_entropy_bottleneck=Bottle(0.0625), residual_decoder=Dec(0.5))


def coding(shape):
    def body(h):
        a = h.tensor("a", shape, dtype=torch.float64, lo=0, hi=1)
        b = h.tensor("b", shape, dtype=torch.float64, lo=0, hi=1)
        a0, b0 = a.clone(), b.clone()
        m = small()
        with patched():
            c = m.compress(a, b)
            d = m.decompress(a, dv.CompressedPFrame(*c))
        h.claim("frames untouched", h.eq(a, a0) and h.eq(b, b0) if not h.symbolic else h.all_(torch.stack([(a == a0).all(), (b == b0).all()])))
        for bt in (m.motion_entropy_bottleneck, m.residual_entropy_bottleneck):
            e = [s for t, s in bt.calls if t == "c"]
            h.claim("decoder asks for the latent size that was encoded", len(e) == 1 and all(s == e[0] for t, s in bt.calls if t == "d"))
        fl = m.motion_decoder(m.motion_entropy_bottleneck.q(m.motion_encoder(est(a0, b0))[0]), [a0.shape])
        im = comp(a0, warp(a0, fl.permute(0, 2, 3, 1)), fl)
        rs = m.residual_decoder(m.residual_entropy_bottleneck.q(m.residual_encoder(b0 - im)[0]), [a0.shape])
        h.claim("frame restored in shape", tuple(d.shape) == shape)
        h.claim("decoded frame is the compensated prediction plus the decoded residual, clamped", h.close(d, torch.clamp(im + rs, 0, 1)))
        h.claim("sizes recorded", [tuple(s) for s in c.flow_decomp_sizes] == [(shape[0], 2) + shape[2:]] and [tuple(s) for s in c.residual_decomp_sizes] == [shape])
    return body


def forward(h):
    shape = (1, 3, 2, 3)
    a = h.tensor("a", shape, dtype=torch.float64, lo=0, hi=1)
    b = h.tensor("b", shape, dtype=torch.float64, lo=0, hi=1)
    m = small()
    with patched():
        o = m(a, b)
    z = m.motion_encoder(est(a, b))[0] + 0.125
    fl = m.motion_decoder(z, [shape])
    im = comp(a, warp(a, fl.permute(0, 2, 3, 1)), fl)
    r = m.residual_encoder(b - im)[0] + 0.0625
    rs = m.residual_decoder(r, [shape])
    h.claim("flow", h.close(o.flow, fl))
    h.claim("residual", h.close(o.residual, rs))
    h.claim("estimate is the compensated prediction plus the residual", h.close(o.image2_est, im + rs))
    h.claim("flow probabilities", h.close(o.flow_probabilities, z * 0.25))
    h.claim("residual probabilities", h.close(o.resid_probabilities, r * 0.25))


def update(h):
    m = small()
    f, x, y = h.pybool("force"), h.pybool("x"), h.pybool("y")
    m.motion_entropy_bottleneck.res, m.residual_entropy_bottleneck.res = x, y
    r = m.update(force=f)
    h.claim("both bottlenecks are updated", m.motion_entropy_bottleneck.upd == [f] and m.residual_entropy_bottleneck.upd == [f])
    h.claim("reports whether anything changed", bool(r) == (bool(x) or bool(y)))


PYR = {n: fill(dv.DVCPyramidFlowEstimator(in_channels=6, filter_counts=[2], kernel_size=1, levels=n).double(), 3) for n in (1, 2)}


def pyramid(levels):
    def body(h):
        shape = (1, 2, 4, 4)
        a = h.tensor("a", shape, dtype=torch.float64, lo=0, hi=1)
        b = h.tensor("b", shape, dtype=torch.float64, lo=0, hi=1)
        m = copy.deepcopy(PYR[levels])
        fs = [lambda t: t[:, :2] * 0.5 + t[:, 2:4] + t[:, 4:] * 2, lambda t: t[:, 4:] - t[:, 2:4] * 0.25 + t[:, :2] * 0.125][:levels]
        m.model_levels = nn.ModuleList([Fn(f) for f in fs])
        with patched():
            flow, pairs = m.calculate_flow_with_image_pairs(a, b)
            h.claim("forward returns the flow", h.close(m(a, b), flow))
            pa, pb = [a], [b]
            for _ in range(levels - 1):
                pa.append(F.avg_pool2d(pa[-1], 2))
                pb.append(F.avg_pool2d(pb[-1], 2))
            fl = torch.zeros(1, 2, *pa[-1].shape[2:], dtype=torch.float64)
            h.claim("one pair per level", len(pairs) == levels)
            for k in range(levels):
                x, y = pa[levels - 1 - k], pb[levels - 1 - k]
                fl = F.interpolate(fl, x.shape[2:], mode="bilinear")
                fl = fl + fs[k](torch.cat((warp(x, fl.permute(0, 2, 3, 1)), y, fl), 1))
                h.claim("each pair is the warped base and the target at its level, coarse to fine", tuple(pairs[k][0].shape) == tuple(x.shape) and h.close(pairs[k][0], warp(x, fl.permute(0, 2, 3, 1))))
                h.claim("target of the level", h.close(pairs[k][1], y))
        h.claim("flow refined coarse to fine", h.close(flow, fl))
        try:
            m(a, b[:, :, :2])
            h.claim("different sizes rejected", False)
        except ValueError:
            h.claim("different sizes rejected", True)
    return body


MCL = {c: dv._MotionCompensationLayer(nn.Identity() if c else None, 1, 1).double() for c in (False, True)}
RB = dv._ResidualBlock(in_channels=1, out_channels=1).double()


def compensation(child):
    def body(h):
        x = h.tensor("x", (1, 1, 3, 4), dtype=torch.float64, lo=-4, hi=4)
        m = copy.deepcopy(MCL[child])
        m.input_block, m.output_block = Fn(lambda t: t * 2 + 1), Fn(lambda t: t * t)
        y = x * 2 + 1
        if child:
            m.child = Fn(lambda t: t * 5)
            p = F.avg_pool2d(y, 2) * 5
            y = y + p[:, :, [0, 0, 0], :][:, :, :, [0, 0, 1, 1]]
        h.claim("layer adds the child's upsampled result between its two blocks", h.close(m(x), y * y))
        r = copy.deepcopy(RB)
        r.block = Fn(lambda t: t * 3 - 1)
        h.claim("residual block adds its input", h.close(r(x), x * 4 - 1))
    return body


MCM = dv.DVCMotionCompensationModel(in_channels=3, model_channels=1, out_channels=1, num_levels=1).double()


def compmodel(h):
    a, b, f = (h.tensor(n, (1, 1, 2, 2), dtype=torch.float64, lo=-1, hi=1) for n in "abf")
    m = copy.deepcopy(MCM)
    m.model = Fn(lambda t: t * 2)
    h.claim("previous frame, warped frame and flow are given in order", h.close(m(a, b, f), torch.cat((a, b, f), 1) * 2))


def sized():
    return dv.DVC(coder_channels=2, motion_estimator=dv.DVCPyramidFlowEstimator(filter_counts=[2, 2], kernel_size=3, levels=3), motion_entropy_bottleneck=Bottle(0), residual_entropy_bottleneck=Bottle(0),
                  motion_compensation=dv.DVCMotionCompensationModel(model_channels=2, num_levels=2)).eval()


def coders(k, g, n):
    return (dv.DVCCompressionEncoder(1, 2, 2, kernel_size=k, use_gdn=g, num_conv_layers=n).eval(), dv.DVCCompressionDecoder(2, 1, 2, kernel_size=k, use_gdn=g, num_conv_layers=n).eval())


CODERS = ((3, True, 4), (5, True, 3), (5, False, 2), (3, False, 1))


def sizes(h):
    H, W = h.dim("H"), h.dim("W")
    m = sized()
    for bt in (m.motion_entropy_bottleneck, m.residual_entropy_bottleneck):
        bt.q = lambda x: x
    a, b = h.image(1, 3, H, W), h.image(1, 3, H, W)
    with patched():
        d = m.decompress(a, m.compress(a, b))
    h.claim_eq("frame size restored", d.shape, (1, 3, H, W))
    for bt in (m.motion_entropy_bottleneck, m.residual_entropy_bottleneck):
        e = [s for t, s in bt.calls if t == "c"]
        for t, s in bt.calls:
            h.claim_eq("decoder asks for the latent size that was encoded", s, e[0])


def coder_sizes(key):
    def body(h):
        H, W = h.dim("H"), h.dim("W")
        e, d = coders(*key)
        z, s = e(h.image(1, 1, H, W))
        n = 2 ** key[2]
        h.claim_eq("latent size", z.shape, (1, 2, (H + n - 1) // n, (W + n - 1) // n))
        h.claim("one size per convolution", len(s) == key[2])
        y = d(z, s)
        h.claim_eq("decoder undoes the encoder's size changes", y.shape, (1, 1, H, W))
        h.claim("recorded sizes are left alone", len(s) == key[2])
    return body


ERR = coders(5, True, 3)


def coder_errors(h):
    e, d = ERR
    n = h.pyint("n", 0, 5)
    try:
        d(torch.zeros(1, 2, 1, 1), [torch.Size((1, 2, 2, 2)), torch.Size((1, 2, 4, 4)), torch.Size((1, 2, 8, 8)), torch.Size((1, 2, 8, 8)), torch.Size((1, 2, 8, 8))][:n][::-1])
        h.claim("wrong number of sizes rejected", n == 3)
    except ValueError as ex:
        h.claim("right number of sizes accepted", n != 3)


def instances(tier):
    out = []
    for s in ((1, 3, 2, 2), (1, 3, 3, 4), (1, 3, 5, 3), (2, 3, 2, 3)):
        out.append(dict(name="coding/%s" % "x".join(map(str, s)), group="coding", body=coding(s), budget=120, timeout=30))
    out.append(dict(name="forward", body=forward, budget=60))
    out.append(dict(name="update", body=update, budget=60))
    for n in (1, 2):
        out.append(dict(name="pyramid/%d" % n, body=pyramid(n), budget=100, timeout=30))
    for c in (False, True):
        out.append(dict(name="compensation/%s" % c, body=compensation(c), budget=60))
    out.append(dict(name="compensation-model", body=compmodel, budget=60))
    out.append(dict(name="coder-errors", body=coder_errors, budget=60))
    for k in CODERS:
        out.append(dict(name="sizes/coder/%d-%s-%d" % k, group="sizes/coder", kind="shape", body=coder_sizes(k), domain={"H": (8, 40), "W": (8, 40)}, budget=100))
    out.append(dict(name="sizes/dvc", kind="shape", body=sizes, domain={"H": (16, 64), "W": (16, 64)}, budget=150 if tier == "quick" else 600, where=(lambda z: z["W"] % 8 == 0) if tier == "quick" else None))
    return out
