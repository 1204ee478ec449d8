"""P29: VCT pipeline: frame-by-frame state, padding and cropping, rate, compress/decompress, transforms over time."""
import math
import os
import sys

import torch
from torch import nn

from vlib.harness import REPO
from vlib.util import dup, fill, pat

sys.path.insert(0, os.path.join(REPO, "projects", "torch_vct"))
import model_pipeline as mp  # noqa: E402
from datamodules.video_data_api import Scenes, VideoDataset  # noqa: E402
from neural import transforms as tr  # noqa: E402
from neural.entropy_model import PreviousLatent, TemporalEntropyModelOut  # noqa: E402
from utils import memoize  # noqa: E402

BOUNDS = ("clips of 1..2 videos x 1..5 frames x 3 channels at 2x2..4x5 pixels, every value in [0,1], context lengths 1..3, with and without cache, training and evaluation; padding: every H, W in [4,64] at factors 1..16; "
          "rates: every likelihood in (0,1]; transforms: 1..2 videos x 1..4 frames with and without chunking, sizes H, W in [16,64]")
OUTSIDE = "the convolution weights; float rounding; GPU placement"
ASSUMPTIONS = ["entropy model, analysis and synthesis transforms are value-distinguishing stand-ins (P25-P28 cover the entropy model)", "log axiomatised"]


class Entropy(nn.Module):
    """value-distinguishing stand-in: output depends on the latent and, with different weights, on every entry of the history"""

    def __init__(self, num_channels, context_len=2, **kw):
        super().__init__()
        self.d_model, self.num_channels, self.context_len = 2, num_channels, context_len
        self.log, self.upd = [], []

    def process_previous_latent_q(self, x):
        return PreviousLatent(x, x * 0.5 + 0.25)

    def out(self, x, prev):
        q = x * 0.75
        for k, p in enumerate(prev):
            q = q + p.processed * (0.25 / (k + 1)) + p.quantized * (0.0625 * (k + 1))
        return q

    def forward(self, latent_unquantized, previous_latents):
        self.log.append(("f", latent_unquantized, previous_latents))
        q = self.out(latent_unquantized, previous_latents)
        return TemporalEntropyModelOut(q, (q * 0.125 + 4).reshape(q.shape[0], -1, q.shape[1]), torch.cat([q[:, :1], q[:, :1] * 0.5], 1))

    def compress(self, *, latent_unquantized, previous_latents, run_decode=False, validate_causal=False):
        self.log.append(("c", latent_unquantized, previous_latents))
        q = self.out(latent_unquantized, previous_latents)
        return TemporalEntropyModelOut(q, torch.tensor([8.0 * len(self.log)]), torch.cat([q[:, :1], q[:, :1] * 0.5], 1))

    def update(self, force=False):
        self.upd.append(force)
        return True


class Ana(nn.Module):
    compression_channels = 3
    num_downsampling_layers = 1

    def forward(self, v):
        assert v.shape[-1] % 2 == 0 and v.shape[-2] % 2 == 0
        return v[..., ::2, ::2] + v[..., 1::2, 1::2] * 0.5


class Syn(nn.Module):
    compression_channels = 3

    def forward(self, x, shape):
        self.shape = tuple(shape)
        return x.repeat_interleave(2, -1).repeat_interleave(2, -2) * 0.5 + 0.125


def build(ctx):
    keep = mp.VCTEntropyModel
    mp.VCTEntropyModel = Entropy
    try:
        m = mp.VCTPipeline(Ana(), Syn(), compression_channels=3, context_len=ctx)
    finally:
        mp.VCTEntropyModel = keep
    return fill(m, 5)


BASE = {c: build(c) for c in (1, 2, 3)}


def fresh(ctx, h=None):
    m = dup(BASE[ctx])
    e = m.entropy_model
    e.log, e.upd = [], []
    return m


def pad_ref(v, H, W):
    ph, pw = H % 2, W % 2
    idx = lambda n, p: list(range(n)) + ([n - 2] if p else [])
    return v[..., idx(H, ph), :][..., idx(W, pw)]


def reference(m, y, ctx, first=True):
    """y [B,T,C,h,w] latents; returns reconstructions, bottleneck outputs"""
    e = m.entropy_model
    recs, outs = [], []
    state = (e.process_previous_latent_q(m._temporal_pad_token_maker.weight * torch.ones(y[:, 0].shape)),)
    for t in range(y.shape[1]):
        q = e.out(y[:, t], state)
        ft = torch.cat([q[:, :1], q[:, :1] * 0.5], 1)
        recs.append(q + m._dequantizer.process_conv(ft))
        outs.append(q)
        nxt = e.process_previous_latent_q(q)
        state = (nxt,) if t == 0 else (state + (nxt,))[-ctx:]
    return recs, outs


def forward(ctx, B, T, H, W, train):
    def body(h):
        m = fresh(ctx)
        m.train(train)
        v = h.tensor("v", (B, T, 3, H, W), lo=0, hi=1)
        v0 = v.clone()
        rec, bo = m(VideoDataset(v))
        p = v0 if train else pad_ref(v0, H, W)
        y = m.analysis_transform(p)
        recs, outs = reference(m, y, ctx)
        want = torch.stack(recs, 1).repeat_interleave(2, -1).repeat_interleave(2, -2) * 0.5 + 0.125
        h.claim("reconstruction has the clip's shape", tuple(rec.shape) == (B, T, 3, H, W))
        h.claim("every frame is reconstructed from its own latent and the latest latents before it", h.close(rec, want[..., :H, :W]))
        h.claim("one likelihood entry per frame", len(bo) == 1 and bo[0].shape[0] == T)
        for t in range(T):
            h.claim("likelihoods in frame order", h.close(bo[0][t], (outs[t] * 0.125 + 4).reshape(B, -1, 3)))
        h.claim("one entropy model call per frame", [l[0] for l in m.entropy_model.log] == ["f"] * T)
        h.claim("synthesis is told the clip shape", m.synthesis_transform.shape == (B, T, 3, H, W))
        h.claim("clip untouched", h.eq(v, v0))
    return body


def context_sizes(h):
    ctx = h.pyint("ctx", 1, 3)
    T = h.pyint("T", 1, 5)
    h.claim("the entropy model gets the pipeline's context length", BASE[ctx].entropy_model.context_len == ctx)
    m = fresh(ctx)
    m.eval()
    m(VideoDataset(pat((1, T, 3, 2, 2))))
    for t, l in enumerate(m.entropy_model.log):
        h.claim("history grows to the context length and no further", len(l[2]) == max(1, min(t, ctx)))


def compress(ctx, T, H, W):
    def body(h):
        m = fresh(ctx)
        m.train()
        v = h.tensor("v", (1, T, 3, H, W), lo=0, hi=1)
        sc, bits = m.compress_video(VideoDataset(v))
        h.claim("tables are updated before coding", len(m.entropy_model.upd) >= 1 and not m.training)
        y = m.analysis_transform(pad_ref(v, H, W))
        recs, outs = reference(m, y, ctx)
        h.claim("dequantised latents in frame order", h.close(sc, torch.stack(recs, 1)))
        h.claim("one rate per frame", len(bits) == T)
        h.claim("later frames are coded to strings", [l[0] for l in m.entropy_model.log] == ["f"] + ["c"] * (T - 1))
        for t in range(1, T):
            h.claim("coded frames report the bits of their strings", h.eq(torch.tensor(bits[t]), torch.tensor(8.0 * (t + 1))))
        h.claim("the first frame reports the rate of its likelihoods", h.close(bits[0], m.compute_rate((outs[0] * 0.125 + 4).reshape(1, -1, 3))))
        d = m.decompress_video((1, T, 3, H, W), [sc])
        rec, _ = fresh_eval(ctx)(VideoDataset(v))
        h.claim("decompressing gives the evaluation reconstruction", h.close(d[..., :H, :W], rec))
        try:
            m.compress_video(VideoDataset(torch.zeros(2, 1, 3, 2, 2)))
            ok = False
        except AssertionError:
            ok = True
        h.claim("batches are rejected", ok)
    return body


def fresh_eval(ctx):
    m = fresh(ctx)
    m.eval()
    return m


def cache(T):
    def body(h):
        v = h.tensor("v", (1, T, 3, 2, 2), lo=0, hi=1)
        m = fresh_eval(2)
        s = Scenes(m.analysis_transform(v))
        a = list(m.encode_and_decode_scenes(s, cache=None))
        b = list(m.encode_and_decode_scenes(s, cache=memoize.create_cache()))
        h.claim("one output per frame", len(a) == T and len(b) == T)
        for t in range(T):
            h.claim("caching does not change reconstructions", h.close(a[t].reconstruction, b[t].reconstruction))
            h.claim("caching does not change likelihoods", h.close(a[t].likelihood, b[t].likelihood))
    return body


def rate(h):
    p = h.tensor("p", (2, 2, 1, 1), dtype=torch.float64, lo=1e-3, hi=1)
    m = BASE[2]
    tot = m.compute_rate(p)
    per = m.compute_rate(p, per_frame=True)
    h.claim("per-frame rates", tuple(per.shape) == (2,))
    h.claim("total is the sum of the frames", h.close(tot, per[0] + per[1]))
    for t in range(2):
        h.claim("rate of a frame is the negative base-2 log-likelihood", h.close(per[t] * math.log(2.0), -(torch.log(p[t, 0, 0, 0]) + torch.log(p[t, 1, 0, 0]))))


def dequant(h):
    m = BASE[2]._dequantizer
    q = h.tensor("q", (1, 3, 2, 2), lo=-4, hi=4)
    f = h.tensor("f", (1, 2, 2, 2), lo=-4, hi=4)
    y = m(latent_q=q, entropy_features=f)
    c0, blk = m.process_conv[0], m.process_conv[2]
    lr = lambda t: torch.where(t > 0, t, t * 0.01)
    z = lr(nn.functional.conv2d(f, c0.weight, c0.bias))
    w = lr(nn.functional.conv2d(z, blk.conv1.weight, blk.conv1.bias, padding=1))
    w = lr(nn.functional.conv2d(w, blk.conv2.weight, blk.conv2.bias, padding=1)) + z
    h.claim("adds the processed features to the latent", h.close(y, q + w))
    y0 = m(latent_q=q)
    y1 = m(latent_q=q, entropy_features=torch.zeros(1, 2, 2, 2))
    h.claim("no features means zero features", h.close(y0, y1))


def token(h):
    w = h.tensor("w", (1, 3, 1, 1), lo=-2, hi=2)
    t = dup(BASE[2]._temporal_pad_token_maker)
    t.weight = nn.Parameter(w.clone())
    y = t((2, 3, 2, 3))
    h.claim("one learnt value per channel everywhere", h.eq(y, w.expand(2, 3, 2, 3)))


def pad_sizes(f):
    def body(h):
        H, W = h.dim("H"), h.dim("W")
        m = BASE[2]
        y = m._pad(h.image(1, 2, 3, H, W), (H, W), f)
        h.claim("clip axes kept", tuple(y.shape[:3]) == (1, 2, 3))
        for n, a, b in (("height", H, y.shape[-2]), ("width", W, y.shape[-1])):
            h.claim_le(n + " not below", a, b)
            h.claim_le(n + " minimal", b, a + f - 1)
            h.claim_eq(n + " a multiple", b % f, 0)
    return body


class Net(nn.Module):
    def forward(self, x):
        return torch.cat([x[:, :1, ::2, ::2] * 0.5 + x[:, 1:2, ::2, ::2], x[:, 2:, ::2, ::2]], 1)


class Up(nn.Module):
    def forward(self, x):
        return x.repeat_interleave(2, -1).repeat_interleave(2, -2) + 0.25


def over_time(kind, B, T, H, W, mx):
    def body(h):
        x = h.tensor("x", (B, T, 3, H, W), lo=-1, hi=1)
        m = dup(NETS[kind])
        if kind.startswith("elic"):
            m._max_frames = mx
        ana = kind.endswith("ana")
        m.transforms = Net() if ana else Up()
        y = m(x) if ana else m(x, (B, T, 3, 2 * H - 1, 2 * W - 1))
        per = [m.transforms(x[b, t].unsqueeze(0))[0] for b in range(B) for t in range(T)]
        want = torch.stack(per).reshape(B, T, *per[0].shape)
        if not ana:
            want = want[..., : 2 * H - 1, : 2 * W - 1]
        h.claim("every frame is transformed on its own and stays at its place in the clip", h.eq(y, want) if tuple(y.shape) == tuple(want.shape) else False)
    return body


NETS = {"gdn-ana": tr.ConvGDNAnalysis(4, 6), "gdn-syn": tr.ConvGDNSynthesis(4, 6), "elic-ana": tr.ELICAnalysis(1, [2, 4, 4, 6]), "elic-syn": tr.ELICSynthesis(1, [6, 4, 4, 3])}


def channels(h):
    c = h.pyint("c", 1, 4)
    for k in ("gdn-ana", "gdn-syn", "elic-ana", "elic-syn"):
        h.claim("declared channels", NETS[k].compression_channels == 6)
    h.claim("declared downsampling", NETS["gdn-ana"].num_downsampling_layers == 4)
    for cls, kw in ((tr.ELICAnalysis, "compression_channels"), (tr.ELICSynthesis, "output_channels")):
        try:
            cls(1, [2, 2, 2, 2], **{kw: c})
            ok = True
        except ValueError:
            ok = False
        h.claim("mismatched channel counts rejected", ok == (c == 2))
        try:
            cls(1, [2] * c)
            ok = True
        except ValueError:
            ok = False
        h.claim("exactly four stages", ok == (c == 4))


def net_sizes(kind):
    def body(h):
        H, W = h.dim("H"), h.dim("W")
        m = NETS[kind + "-ana"]
        y = m(h.image(1, 2, 3, H, W))
        h.claim_eq("latent size is the frame size over 16, rounded up", y.shape, (1, 2, 6, (H + 15) // 16, (W + 15) // 16))
        z = NETS[kind + "-syn"](h.image(1, 2, 6, (H + 15) // 16, (W + 15) // 16), (1, 2, 3, H, W))
        h.claim_eq("synthesis restores the frame size", z.shape, (1, 2, 3, H, W))
    return body


def video_api(h):
    d = h.pyint("dims", 3, 6)
    c = h.pyint("channels", 1, 4)
    shape = [2, 2, c, 2, 2, 2][:d]
    v = VideoDataset(torch.zeros(shape))
    try:
        v.validate_shape()
        ok = True
    except ValueError:
        ok = False
    h.claim("clips are [B,T,3,H,W]", ok == (d == 5 and c == 3))
    x = h.tensor("x", (2, 3, 1, 2, 2))
    s = Scenes(x).get_scenes_iter()
    h.claim("one scene per frame", len(s) == 3)
    for t in range(len(s)):
        h.claim("scenes in time order", h.eq(s[t], x[:, t]))


def instances(tier):
    out = []
    F = [(2, 1, 3, 2, 2, True), (2, 1, 4, 3, 2, False), (3, 1, 5, 2, 2, True), (1, 2, 3, 2, 2, False), (2, 2, 2, 4, 5, False)]
    if tier == "thorough":
        F += [(3, 2, 5, 3, 3, False), (2, 2, 4, 4, 4, True), (1, 1, 5, 5, 5, False)]
    for a in F:
        out.append({"name": "forward/x%d-%dx%d-%dx%d-%s" % (*a[:5], "train" if a[5] else "eval"), "group": "forward", "body": forward(*a), "validate": 2})
    out.append({"name": "context", "body": context_sizes, "validate": 2})
    for a in [(2, 3, 2, 2), (2, 4, 3, 2), (3, 2, 2, 3)]:
        out.append({"name": "compress/x%d-%d-%dx%d" % a, "group": "compress", "body": compress(*a), "validate": 2})
    for T in (1, 3, 4):
        out.append({"name": f"cache/{T}", "group": "cache", "body": cache(T), "validate": 2})
    out += [{"name": "rate", "body": rate, "validate": 2}, {"name": "dequant", "body": dequant, "validate": 2}, {"name": "token", "body": token, "validate": 2}]
    for f in ((1, 2, 16) if tier == "quick" else (1, 2, 4, 8, 16)):
        out.append({"name": f"pad/{f}", "group": "pad", "kind": "shape", "body": pad_sizes(f), "domain": {"H": (16, 96), "W": (16, 96)}})
    for k in NETS:
        out.append({"name": f"time/{k}", "group": "time", "body": over_time(k, 2, 2, 4, 4, None), "validate": 2})
        if k.startswith("elic"):
            out.append({"name": f"time/{k}/chunk2", "group": "time", "body": over_time(k, 2, 3, 2, 2, 2), "validate": 2})
            out.append({"name": f"time/{k}/chunk1", "group": "time", "body": over_time(k, 1, 3, 2, 4, 1), "validate": 2})
    out.append({"name": "channels", "body": channels, "validate": 1})
    for k in ("gdn", "elic"):
        out.append({"name": f"sizes/{k}", "group": "sizes", "kind": "shape", "body": net_sizes(k), "domain": {"H": (16, 64), "W": (16, 64)}, "budget": 150})
    out.append({"name": "api", "body": video_api, "validate": 2})
    return out
