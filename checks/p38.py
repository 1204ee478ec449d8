"""P38: training and evaluating the video transformer: per-frame rate and distortion, honest quality figures."""
import os
import sys
import types

import torch
import z3
from torch import nn
from torch.utils._python_dispatch import _disable_current_modes

from vlib import elem as E
from vlib import symten as T
from vlib.elem import is_sym
from vlib.harness import REPO, elems
from vlib.util import fill  # noqa: F401

import checks.p34 as P  # stand-ins for packages that are not installed

BOUNDS = "clips of 1..2 videos x 1..3 frames x 3 channels x 1x1..2x1 pixels, originals in [0,1], reconstructions in [-1,2] (every value), every likelihood in (0,1], distortion weight in [0,4]; test clips of 2..3 frames with every coded size"
OUTSIDE = "the pipeline itself (P29), the PSNR formula (P10), the optimisers, lightning's trainer, GPU placement, float rounding"
ASSUMPTIONS = ["pytorch_lightning, hydra and omegaconf are stand-ins; PSNR is a stand-in that is injective in the error of each slice it averages over", "the pipeline's forward, compress and decompress are stand-ins; its rate is the real one", "log axiomatised"]


class Lightning(nn.Module):
    def log_dict(self, d, **k):
        self.logged.update(d)

    def log(self, n, v, **k):
        self.logged[n] = v


def psnr(preds, target, data_range=None, base=10.0, reduction="elementwise_mean", dim=None):
    """stand-in: a number that tells any two (errors relative to the range, slicing) apart; exchanging the images changes its sign only"""
    d = (preds.to(torch.float64) - target.to(torch.float64)) / data_range
    n = d.numel()
    c = torch.arange(n, dtype=torch.float64) * 2 + 1
    dim = (dim,) if isinstance(dim, int) else dim
    slices = 1
    if dim is not None:
        for i, k in enumerate(d.shape):
            if i not in [q % d.dim() for q in dim]:
                slices *= k
    r = (d.reshape(-1) * c).sum() * slices
    CALLS.append((r, d, slices))
    return r


CALLS = []


def find(t):
    for c in reversed(CALLS):
        a, b = elems(c[0])[0], elems(t)[0]
        if a is b or (is_sym(a) and is_sym(b) and a.eq(b)):
            return c


def same(h, got, want):
    got = torch.as_tensor(got)
    if not h.symbolic:
        return h.close(got, want) or h.close(got, -want)
    cg, cw = find(got), find(want)
    if cg and cw and cg[2] == cw[2] and cg[1].numel() == cw[1].numel():
        x, y = elems(cg[1]), elems(cw[1])
        sol = z3.Solver()
        sol.set("timeout", 2000)
        k = E.eq(x[0], E.neg(y[0]))
        sol.add(z3.Not(k) if is_sym(k) else z3.BoolVal(not k))
        swapped = sol.check() == z3.unsat  # which way round the images were given
        a, b = cg[1].reshape(-1), cw[1].reshape(-1)
        return h.eq(a, -b if swapped else b)
    g, w = elems(got)[0], elems(want)[0]
    return E.bor(E.eq(g, w), E.eq(g, E.neg(w)))


pl = P.mod("pytorch_lightning", LightningModule=Lightning, LightningDataModule=object)
import torchmetrics.functional  # noqa: E402

torchmetrics.functional.peak_signal_noise_ratio = psnr
sys.modules["omegaconf"].OmegaConf.register_new_resolver = staticmethod(lambda *a, **k: None)
sys.path.insert(0, os.path.join(REPO, "projects", "torch_vct"))
import model_lightning as ML  # noqa: E402
import model_pipeline as MP  # noqa: E402
from datamodules.video_data_api import VideoDataset  # noqa: E402

_item = T.SymTensor.item


def item(self):
    """a symbolic number stays a (0-d) tensor; arithmetic with it goes on symbolically"""
    if self.numel() == 1 and not self.is_conc and is_sym(self.elems().reshape(-1)[0]) and self.dtype.is_floating_point:
        return self.reshape(())
    return _item(self)


T.SymTensor.item = item
D64 = torch.float64


class Model(nn.Module):
    def __init__(self, rec, lik):
        super().__init__()
        self.rec, self.lik, self.calls, self._code_to_strings = rec, lik, [], None

    compute_rate = MP.VCTPipeline.compute_rate

    def forward(self, batch):
        self.calls.append(("f", batch.video_tensor, self._code_to_strings))
        return self.rec, [self.lik]

    def compress_video(self, batch, force_cpu=False):
        self.calls.append(("c", batch.video_tensor, force_cpu))
        return ("packed", batch.video_tensor), self.sizes

    def decompress_video(self, shape, bottleneck_args, force_cpu=False):
        self.calls.append(("d", tuple(shape), bottleneck_args))
        return self.rec2


def module(h, model, lam=None):
    cfg = types.SimpleNamespace(optim="o", scheduler="s", training_loop=types.SimpleNamespace(lr_annealing_frequency=7, distortion_lambda=lam))
    with _disable_current_modes():
        m = ML.VCTModule(model, cfg)
    m.logged = {}
    return m


def u8(x):
    return torch.floor(x.clamp(0.0, 1.0) * 255 + 0.5)


def bits(p):
    """bits of each frame"""
    import math
    return p.log().sum(dim=(1, 2, 3)) / -math.log(2.0)


def steps(b, t, hw, train):
    def body(h):
        x = h.tensor("x", (b, t, 3) + hw, torch.float32, lo=0, hi=1)
        y = h.tensor("y", (b, t, 3) + hw, torch.float32, lo=-1, hi=2)
        lik = h.tensor("p", (t, b, 1, 1), torch.float32, lo=0, hi=1, strict=True)
        lam = h.scalar("lam", lo=0, hi=4)
        m = module(h, Model(y, lik), lam)
        v = VideoDataset(video_tensor=x)
        r = m.training_step(v, 0) if train else m.validation_step(v, 0)
        L, k = m.logged, "" if train else "val_"
        d = ((x - y) ** 2).mean(dim=(0, 2, 3, 4))
        rate = bits(lik) / (b * hw[0] * hw[1])
        loss = lam * 65025 * d + rate
        w = sum((1.0 if i == 0 else 10.0) * loss[i] for i in range(t)) / t
        for n, want in (("distortion_loss", d.mean()), ("rate_loss", rate.mean()), ("combined_loss", loss.mean()), ("combined_loss_weighted", w)):
            h.claim("logged " + n, h.close(torch.as_tensor(L[k + n]), want))
        h.claim("PSNR of every frame, averaged", same(h, L[k + "PSNR"], psnr(y, x, 1.0, dim=(2, 3, 4))))
        h.claim("PSNR of the images as bytes, averaged over frames", same(h, L[k + "PSNR_int"], psnr(u8(y), u8(x), 255, dim=(2, 3, 4))))
        if train:
            h.claim("the weighted loss is minimised", h.close(r, w))
        h.claim("one pass over this clip", len(m.model.calls) == 1 and m.model.calls[0][1] is x)
    return body


def test(t, hw, fwd):
    def body(h):
        x = h.tensor("x", (1, t, 3) + hw, torch.float32, lo=0, hi=1)
        y = h.tensor("y", (1, t, 3) + hw, torch.float32, lo=-1, hi=2)
        z = h.tensor("z", (1, t, 3) + hw, torch.float32, lo=-1, hi=2)
        lik = h.tensor("p", (t, 1, 1, 1), torch.float32, lo=0, hi=1, strict=True)
        mdl = Model(y, lik)
        mdl.rec2 = z
        sz = h.tensor("sz", (t,), torch.float64, lo=0, hi=4096)
        mdl.sizes = [sz[i] for i in range(t)]
        mdl._code_to_strings = [True, False][h.pyint("mode", 0, 1)]
        m = module(h, mdl, 1.0)
        m.eval()
        keep = sys.stdout
        sys.stdout = open(os.devnull, "w")
        try:
            out = m.test_step(VideoDataset(video_tensor=x), 0, run_fwd=fwd) if not fwd else m.test_step(VideoDataset(video_tensor=x), 0)
        finally:
            sys.stdout.close()
            sys.stdout = keep
        pix = hw[0] * hw[1]
        L = m.logged
        tot = sum(mdl.sizes)
        h.claim("rate of the coded video per pixel", h.close(torch.as_tensor(L["bpp"]), tot / (pix * t)))
        h.claim("rate without the first frame", h.close(torch.as_tensor(L["bpp_xfirst"]), (tot - mdl.sizes[0]) / (pix * (t - 1))))
        h.claim("PSNR of the decoded video as bytes", same(h, L["psnt_int"], psnr(u8(z), u8(x), 255)))
        for n, got, want in zip(("PSNR", "rate", "rate without the first frame"), out, (L["psnt_int"], L["bpp"], L["bpp_xfirst"])):
            h.claim("returned " + n, h.close(torch.as_tensor(got), torch.as_tensor(want)))
        c = [k for k in mdl.calls if k[0] == "c"]
        dd = [k for k in mdl.calls if k[0] == "d"]
        h.claim("the clip is compressed and its output decompressed", len(c) == 1 and c[0][1] is x and len(dd) == 1 and dd[0][1] == tuple(x.shape) and len(dd[0][2]) == 1 and dd[0][2][0][1] is x)
        f = [k for k in mdl.calls if k[0] == "f"]
        h.claim("the forward pass runs only when asked, and codes nothing", len(f) == (1 if fwd else 0) and all(k[2] is False for k in f))
        h.claim("forward figures are logged only then", ("cts_rate" in L) == fwd and ("cts_psnr" in L) == fwd and ("cts_rate_x1" in L) == fwd)
        if fwd:
            bt = bits(lik)
            h.claim("forward rate", h.close(torch.as_tensor(L["cts_rate"]), bt.sum() / (pix * t)))
            h.claim("forward rate without the first frame", h.close(torch.as_tensor(L["cts_rate_x1"]), bt[1:].sum() / (pix * (t - 1))))
            h.claim("forward PSNR", same(h, L["cts_psnr"], psnr(u8(y), u8(x), 255)))
    return body


def refuses(h):
    x = h.tensor("x", (1, 2, 3, 1, 1), torch.float32, lo=0, hi=1)
    two = h.pybool("two")
    v = torch.cat([x, x]) if two else x
    mdl = Model(v, None)
    m = module(h, mdl, 1.0)
    m.train() if not two else m.eval()
    try:
        m.test_step(VideoDataset(video_tensor=v), 0)
        ok = False
    except AssertionError:
        ok = True
    h.claim("tests take one clip at a time, in evaluation mode", ok and mdl.calls == [])


def rate(b, t, hw):
    def body(h):
        lik = h.tensor("p", (t, b, 2, 1), torch.float32, lo=0, hi=1, strict=True)
        m = module(h, Model(None, lik), 1.0)
        v = VideoDataset(video_tensor=torch.zeros((b, t, 3) + hw))
        pix = b * hw[0] * hw[1]
        h.claim("bits per pixel of each frame", h.close(m.rate_loss(v, [lik], per_frame=True), bits(lik) / pix))
        h.claim("bits per pixel of the clip", h.close(m.rate_loss(v, [lik], per_frame=False), bits(lik).sum() / (pix * t)))
    return body


class Holder(nn.Module):
    def __init__(self):
        super().__init__()
        self.a, self.b = nn.Linear(1, 1), nn.Module()
        self.b.quantiles = nn.Parameter(torch.zeros(1))
        self.b.quantiles_scale = nn.Parameter(torch.zeros(1))
        self.c = nn.Linear(1, 1)


def optim(h):
    froz = h.pybool("frozen")
    with _disable_current_modes():
        mdl = Holder()
    for p in mdl.c.parameters():
        p.requires_grad_(not froz)
    m = module(h, mdl, None)
    made = []
    ML.hydra = types.SimpleNamespace(utils=types.SimpleNamespace(instantiate=lambda c, **k: made.append((c, {a: list(b) if a == "params" else b for a, b in k.items()})) or made[-1]))
    out = m.configure_optimizers()
    o = out["optimizer"]
    want = [mdl.a.weight, mdl.a.bias, mdl.b.quantiles_scale] + ([] if froz else [mdl.c.weight, mdl.c.bias])
    h.claim("every weight that is trainable and no quantile", o[0] == "o" and {id(p) for p in o[1]["params"]} == {id(p) for p in want} and len(o[1]["params"]) == len(want))
    s = out["lr_scheduler"]
    h.claim("the schedule drives this optimiser, per step, at the configured frequency", s["scheduler"][0] == "s" and s["scheduler"][1]["optimizer"] is o and s["interval"] == "step" and s["frequency"] == 7)


def instances(tier):
    deep = tier != "quick"
    out = []
    for b, t, hw in [(1, 1, (1, 1)), (2, 2, (1, 1)), (1, 3, (2, 1))] + ([(2, 3, (2, 2))] if deep else []):
        for train in (True, False):
            out.append({"name": "%s/%dx%dx%dx%d" % (("train" if train else "val", b, t) + hw), "group": "train" if train else "validate", "body": steps(b, t, hw, train), "validate": 3, "timeout": 60, "budget": 150})
        out.append({"name": "rate/%dx%dx%dx%d" % ((b, t) + hw), "group": "rate", "body": rate(b, t, hw), "validate": 2, "timeout": 60})
    for t, hw in [(2, (1, 1)), (3, (1, 2))]:
        for f in (True, False):
            out.append({"name": "test/%d%s" % (t, "-fwd" if f else ""), "group": "test", "body": test(t, hw, f), "validate": 3, "timeout": 60, "budget": 150})
    out.append({"name": "refuses", "body": refuses, "validate": 2})
    out.append({"name": "optimiser", "body": optim, "validate": 2})
    return out
