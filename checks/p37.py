"""P37: staged training of the video codec: each frame predicted from the decoded one before it, honest losses and rates."""
import os
import sys
import types

import torch
from torch import nn
from torch.utils._python_dispatch import _disable_current_modes

from vlib.elem import is_sym  # noqa: F401
from vlib.harness import REPO

import checks.p34 as P  # stand-ins for packages that are not installed
import neuralcompression.functional as ncF

BOUNDS = "all five training stages; groups of 1..3 predicted frames of 1x1..2x1 pixels, batches of 1..2; every pixel, flow, likelihood in (0,1], weight, distortion weight in [0,4], with and without schedule and quantile optimiser; 1..2 consecutive groups"
OUTSIDE = "the networks of the codec (P24), warping (P04) and information content (P09) themselves, the optimisers, lightning's trainer, the pretrained I-frame models, float rounding"
ASSUMPTIONS = ["pytorch_lightning, compressai's model zoo and torchmetrics' PSNR class are stand-ins; gradient clipping is recorded", "the codec's sub-networks are small differentiable stand-ins with symbolic weights; warping is replaced by an injective stand-in", "log axiomatised"]


class Lightning(nn.Module):
    def log(self, name, v, **k):
        self.logged[name] = v

    def optimizers(self):
        return self.opts

    def lr_schedulers(self):
        return self.scheds

    def manual_backward(self, loss):
        ev = {"what": "backward", "loss": loss}
        self.events.append(ev)
        g = torch.autograd.grad(loss, list(self.parts.values()), allow_unused=True, retain_graph=True)
        ev["grads"] = dict(zip(self.parts, g))


class Psnr(nn.Module):
    def __init__(self, **k):
        super().__init__()
        self.args, self.seen = k, []

    def forward(self, a, b):
        self.seen.append((a, b))


class Zoo(dict):
    def __missing__(self, k):
        def make(q, pretrained=False):
            z = IFrame()
            z.quality, z.pretrained, z.name = q, pretrained, k
            return z
        return make


class IFrame(nn.Module):
    def update(self, *a, **k):
        self.updated = getattr(self, "updated", 0) + 1

    def forward(self, x):
        self.seen = getattr(self, "seen", []) + [x]
        b = x.shape[0]
        return {"x_hat": x * self.wi + 0.25, "likelihoods": {"y": self.py[:b], "z": self.pz[:b]}}


P.mod("pytorch_lightning", LightningModule=Lightning)
P.mod("compressai.zoo", models=Zoo())
import torchmetrics  # noqa: E402

torchmetrics.PSNR = Psnr


def warp(image, flow, **k):
    """stand-in: flow has its two components last"""
    assert flow.shape[-1] == 2 and flow.shape[1:3] == image.shape[-2:]
    return image * 0.5 + (flow[..., :1] * 0.75 + flow[..., 1:] * 0.125).permute(0, 3, 1, 2)


ncF.dense_image_warp = warp
CLIPS = []
torch.nn.utils.clip_grad_norm_ = lambda params, v, *a, **k: CLIPS.append((list(params), v))
sys.path.insert(0, os.path.join(REPO, "projects", "deep_video_compression"))
import _utils as U  # noqa: E402
import dvc_module as D  # noqa: E402

D64 = torch.float64


class Part(nn.Module):
    """a sub-network with one symbolic weight"""

    def setup(self, h, name):
        self.w = h.param(name, (), dtype=D64, lo=0.25, hi=2)
        return self


class Estimator(Part):
    def forward(self, a, b):
        return torch.cat([(b - a) * self.w, a * 0.5 + b * self.w], 1)

    def calculate_flow_with_image_pairs(self, a, b):
        f = self.forward(a, b)
        return f, [(a * self.w, b * 0.5), (a + self.w, b)]


class Enc(Part):
    def forward(self, flow):
        return flow * self.w, ("sizes", flow.shape)


class Dec(Part):
    def forward(self, latent, sizes):
        assert sizes[0] == "sizes" and sizes[1] == latent.shape
        return latent + self.w


class Bott(Part):
    def setup(self, h, name, pr):
        self.quantiles = h.param(name, (), dtype=D64, lo=0.25, hi=2)
        self.pr, self.up = pr, []
        return self

    def forward(self, x):
        b = x.shape[0]
        return x + 1, self.pr[:b] * self.scale_()

    def scale_(self):
        return 1

    def loss(self):
        return self.quantiles * 3

    def update(self, force=False):
        self.up.append(force)
        return self.answer


class Comp(Part):
    def forward(self, image1, est, flow):
        return est * self.w + image1 * 0.25 + flow[:, :1] * 0.125


class Dvc(nn.Module):
    def forward(self, image1, image2):
        flow = self.motion_decoder(*reversed_(self.motion_encoder(self.motion_estimator(image1, image2)), self.motion_entropy_bottleneck))
        est = self.motion_compensation(image1, warp(image1, flow.permute(0, 2, 3, 1)), flow)
        return types.SimpleNamespace(flow=flow, image2_est=est + self.residual_entropy_bottleneck.quantiles * 0, flow_probabilities=self.motion_entropy_bottleneck.pr[:image1.shape[0]], resid_probabilities=self.residual_entropy_bottleneck.pr[:image1.shape[0]])


def reversed_(enc, bott):
    latent, sizes = enc
    return bott(latent)[0], sizes


STAGES = ["1_motion_estimation", "2_motion_compression", "3_motion_compensation", "4_total_2frame", "5_total"]


def build(h, stage, n, b, **kw):
    dvc = Dvc()
    dvc.motion_estimator = Estimator().setup(h, "we")
    dvc.motion_encoder = Enc().setup(h, "wc")
    dvc.motion_decoder = Dec().setup(h, "wd")
    dvc.motion_compensation = Comp().setup(h, "wm")
    pf, pr = [h.tensor(k, (b, 2), D64, lo=0, hi=1, strict=True) for k in ("pf", "pr")]
    dvc.motion_entropy_bottleneck = Bott().setup(h, "qm", pf)
    dvc.residual_entropy_bottleneck = Bott().setup(h, "qr", pr)
    # built without the engine, the codec's parts are put in place
    lam = h.scalar("lam", lo=0, hi=4)
    with _disable_current_modes():
        m = D.DvcModule(dvc, STAGES[stage], "zoo", 3, num_pframes=n, **kw)
    m.distortion_lambda = lam
    m.iframe_model.wi = h.tensor("wi", (), D64, lo=0, hi=1)
    m.iframe_model.py = h.tensor("py", (b, 2), D64, lo=0, hi=1, strict=True)
    m.iframe_model.pz = h.tensor("pz", (b, 1), D64, lo=0, hi=1, strict=True)
    m.logged, m.events = {}, []
    used = [("we",), ("we", "wc", "wd"), ("we", "wc", "wd", "wm"), ("we", "wc", "wd", "wm"), ("we", "wc", "wd", "wm")][stage]
    allp = {"we": dvc.motion_estimator.w, "wc": dvc.motion_encoder.w, "wd": dvc.motion_decoder.w, "wm": dvc.motion_compensation.w, "qm": dvc.motion_entropy_bottleneck.quantiles, "qr": dvc.residual_entropy_bottleneck.quantiles}
    m.parts = allp
    return m, dvc, lam, used, allp


def bits(p):
    return ncF.information_content(p, reduction="sum")


def frame(dvc, stage, im1, im2, lam, b, pix):
    """the loss of one predicted frame: (loss, distortion, flow bits, residual bits, estimate, flow)"""
    we, wc, wd, wm = dvc.motion_estimator, dvc.motion_encoder, dvc.motion_decoder, dvc.motion_compensation
    mse = lambda a, c: lam * ((a - c) ** 2).mean()  # noqa: E731
    if stage == 0:
        flow = we(im1, im2)
        d = (mse(im2 * 0.5, im1 * we.w) + mse(im2, im1 + we.w)) / 2
        return d, d, None, None, warp(im1, flow.permute(0, 2, 3, 1)), flow
    flow = we(im1, im2) * wc.w + 1 + wd.w
    est = warp(im1, flow.permute(0, 2, 3, 1))
    if stage >= 2:
        est = wm(im1, est, flow)
    d = mse(im2, est)
    f = bits(dvc.motion_entropy_bottleneck.pr[:b]) / (b * pix)
    r = bits(dvc.residual_entropy_bottleneck.pr[:b]) / (b * pix) if stage >= 3 else None
    return d + f + (r if r is not None else 0), d, f, r, est, flow


class Opt:
    def __init__(self, name, params, ev):
        self.name, self.param_groups, self.ev = name, [{"params": list(params)}], ev

    def zero_grad(self, *a, **k):
        self.ev.append({"what": "zero", "opt": self.name})

    def step(self, *a, **k):
        self.ev.append({"what": "step", "opt": self.name})


class Sched:
    def __init__(self, ev):
        self.ev = ev

    def step(self):
        self.ev.append({"what": "sched"})


def steps(stage, n, b, hw, train, sched=False, groups=1):
    def body(h):
        m, dvc, lam, used, allp = build(h, stage, n, b, grad_clip_value=2.5)
        CLIPS.clear()
        o1 = Opt("model", [allp[k] for k in used], m.events)
        o2 = Opt("quant", [allp["qm"]], m.events)
        m.opts = [o1, o2] if stage else o1
        m.scheds = Sched(m.events) if sched else None
        pix = hw[0] * hw[1]
        for gi in range(groups):
            m.events.clear()
            CLIPS.clear()
            m.psnr.seen = []
            x = h.tensor("x%d" % gi, (b, n + 1, 1) + hw, D64, lo=0, hi=1)
            keep = x.clone()
            if train:
                m.training_step(x, 0)
            else:
                m.validation_step(x, 0)
            key = STAGES[stage] + ("/train_" if train else "/val_")
            L = m.logged
            h.claim("the given clip is left as it was", h.close(x, keep))
            ib = (bits(m.iframe_model.py) + bits(m.iframe_model.pz)) / (b * pix)
            im1 = keep[:, 0] * m.iframe_model.wi + 0.25
            tot, dist, fb, rb, ests, losses = 0, 0, 0, 0, [], []
            for i in range(n):
                loss, d, f, r, est, _ = frame(dvc, stage, im1, keep[:, i + 1], lam, b, pix)
                losses.append(loss)
                im1 = est.detach()
                ests.append(im1)
                tot, dist = tot + loss.detach(), dist + d.detach()
                fb, rb = fb + (f if f is not None else 0), rb + (r if r is not None else 0)
            red = n + 1
            h.claim("logged loss", h.close(torch.as_tensor(L[key + "gop_loss"]).detach(), tot / red))
            h.claim("logged distortion", h.close(torch.as_tensor(L[key + "gop_distortion_loss"]).detach(), dist / red))
            h.claim("logged rate counts the I-frame and every predicted frame", h.close(torch.as_tensor(L[key + "gop_bpp"]).detach(), (ib + fb + rb) / red))
            h.claim("flow rate is logged when flow is coded", (key + "gop_flow_bpp" in L) == (stage > 0) and (key + "gop_residual_bpp" in L) == (stage > 2))
            if stage > 0 and key + "gop_flow_bpp" in L:
                h.claim("logged flow rate", h.close(torch.as_tensor(L[key + "gop_flow_bpp"]).detach(), fb / red))
            if stage > 2 and key + "gop_residual_bpp" in L:
                h.claim("logged residual rate", h.close(torch.as_tensor(L[key + "gop_residual_bpp"]).detach(), rb / red))
            h.claim("quality of every predicted frame is logged", len(m.psnr.seen) == 1 and L.get(key + "psnr") is m.psnr and m.psnr.args.get("data_range") == 1.0)
            if len(m.psnr.seen) == 1:
                a, c = m.psnr.seen[0]
                h.claim("quality of the estimates", h.close(c, torch.cat(ests)))
                h.claim("against the frames", h.close(a, torch.cat([keep[:, i + 1] for i in range(n)])))
            h.claim("the I-frame model only evaluates", m.iframe_model.training is False)
            if not train:
                h.claim("validation trains nothing", m.events == [] and CLIPS == [])
                continue
            bw = [e for e in m.events if e["what"] == "backward"]
            names = [e["what"] + ":" + e.get("opt", "") for e in m.events if e["what"] != "backward"]
            h.claim("one backward pass per predicted frame, one for the quantiles", len(bw) == n + (1 if stage else 0))
            h.claim("one optimiser step per predicted frame, one for the quantiles", names.count("step:model") == n and names.count("zero:model") == n and names.count("step:quant") == names.count("zero:quant") == (1 if stage else 0))
            h.claim("the schedule advances once per group", names.count("sched:") == (1 if sched else 0))
            # order: gradients are cleared before and applied after each pass
            st, fresh, good = None, False, True
            for e in m.events:
                w, o = e["what"], e.get("opt")
                if w == "zero" and o == "model":
                    fresh = True
                elif w == "backward" and any(e["grads"][k] is not None for k in ("we", "wc", "wd", "wm")):
                    good, fresh, st = good and fresh, False, "due"
                elif w == "step" and o == "model":
                    good, st = good and st == "due", None
            h.claim("gradients are cleared before and applied after each frame", good)
            h.claim("gradients are clipped before each step", len(CLIPS) == n and all(v == 2.5 and [id(p) for p in ps] == [id(p) for p in o1.param_groups[0]["params"]] for ps, v in CLIPS))
            for i in range(min(n, len(bw))):
                h.claim("frame %d is trained on distortion plus rate" % i, h.close(bw[i]["loss"].detach(), losses[i].detach()))
                g = torch.autograd.grad(losses[i], [allp[k] for k in used], allow_unused=True, retain_graph=True)
                for k, v in zip(used, g):
                    got = bw[i]["grads"][k]
                    h.claim("gradient of frame %d for %s" % (i, k), h.close(got, v) if got is not None and v is not None else got is None and v is None)
            if stage and len(bw) == n + 1:
                want = allp["qm"] * 3 + (allp["qr"] * 3 if stage > 2 else 0)
                h.claim("the quantiles are trained on the bottlenecks' own loss", h.close(bw[n]["loss"].detach(), want.detach()))
                h.claim("and that loss is logged", h.close(L[key + "quantile_loss"].detach(), want.detach()))
    return body


def single(stage, b, hw):
    """compute_batch_loss on its own: losses, images and flow"""
    def body(h):
        m, dvc, lam, used, allp = build(h, stage, 1, b)
        a, c = h.tensor("a", (b, 1) + hw, D64, lo=0, hi=1), h.tensor("c", (b, 1) + hw, D64, lo=0, hi=1)
        lv, out = m.model.compute_batch_loss(a, c)
        loss, d, f, r, est, flow = frame(dvc, stage, a, c, lam, b, hw[0] * hw[1])
        h.claim("distortion", h.close(lv.distortion_loss.detach(), d.detach()))
        h.claim("rates present as the stage codes", (lv.flow_entropy_loss is not None) == (f is not None) and (lv.resid_entropy_loss is not None) == (r is not None))
        if f is not None and lv.flow_entropy_loss is not None:
            h.claim("flow rate", h.close(lv.flow_entropy_loss, f))
        if r is not None and lv.resid_entropy_loss is not None:
            h.claim("residual rate", h.close(lv.resid_entropy_loss, r))
        h.claim("flow", h.close(out.flow, flow.detach()))
        h.claim("first image", h.close(out.image1, a))
        h.claim("second image", h.close(out.image2, c))
        h.claim("estimate", h.close(out.image2_est, est.detach()))
        h.claim("none of them carries a graph", not any(t.requires_grad for t in (out.flow, out.image1, out.image2, out.image2_est)))
    return body


def parts(stage, sched):
    def body(h):
        m, dvc, lam, used, allp = build(h, stage, 1, 1, lr_scheduler_params={"step_size": 3, "gamma": 0.5} if sched else None, learning_rate=0.25, aux_learning_rate=0.125)
        ident = {id(v): k for k, v in allp.items()}
        mp, qp = m.model.collect_parameters()
        want_q = {0: None, 1: {"qm"}, 2: {"qm"}, 3: {"qm", "qr"}, 4: {"qm", "qr"}}[stage]
        h.claim("the stage's weights", {ident.get(id(p)) for p in mp.values()} == set(used))
        h.claim("the stage's quantiles", (qp is None) if want_q is None else {ident.get(id(p)) for p in (qp or {}).values()} == want_q)
        froz = h.pybool("frozen")
        made = []
        keep = D.optim

        class A:
            def __init__(self, params, lr):
                self.params, self.lr = list(params), lr
                made.append(self)
        D.optim = types.SimpleNamespace(Adam=A, lr_scheduler=types.SimpleNamespace(StepLR=lambda o, **k: ("sched", o, k)))
        if froz:
            allp["we"].requires_grad_(False)
        try:
            opts = m.configure_optimizers()
        finally:
            D.optim = keep
            allp["we"].requires_grad_(True)
        h.claim("one optimiser, and one for the quantiles", len(opts) == (1 if want_q is None else 2))
        o = opts[0]["optimizer"]
        h.claim("frozen weights are not trained, all others are", sorted(ident.get(id(p), "?") for p in o.params) == sorted(set(used) - ({"we"} if froz else set())) and o.lr == 0.25)
        h.claim("scheduled when asked", ("lr_scheduler" in opts[0]) == sched and (not sched or (opts[0]["lr_scheduler"][1] is o and opts[0]["lr_scheduler"][2] == {"step_size": 3, "gamma": 0.5})))
        if want_q is not None and len(opts) == 2:
            q = opts[1]["optimizer"]
            h.claim("the quantiles' optimiser", {ident.get(id(p)) for p in q.params} == want_q and q.lr == 0.125)
        # recomposition: the trained parts come back into the model
        other = Dvc()
        names = ["motion_estimator", "motion_encoder", "motion_entropy_bottleneck", "motion_decoder", "motion_compensation", "residual_entropy_bottleneck"]
        marks = {}
        for k in names:
            marks[k] = nn.Module()
            setattr(other, k, marks[k])
        back = m.recompose_model(other)
        nown = [1, 4, 5, 6, 6][stage]
        h.claim("trained parts are put back", all(getattr(back, k) is getattr(dvc, k) for k in names[:nown]))
        h.claim("and the others are kept", stage > 2 or all(getattr(back, k) is marks[k] for k in names[nown:]))
        # update
        if stage:
            a1, a2, force = h.pybool("a1"), h.pybool("a2"), h.pybool("force")
            dvc.motion_entropy_bottleneck.answer, dvc.residual_entropy_bottleneck.answer = a1, a2
            r = m.update(force=force)
            h.claim("tables are rebuilt", dvc.motion_entropy_bottleneck.up == [force] and dvc.residual_entropy_bottleneck.up == ([force] if stage > 2 else []))
            h.claim("and whether any was is reported", bool(r) == ((a1 or a2) if stage > 2 else a1))
    return body


def rejects(h):
    k = h.pyint("k", 0, 2)
    dvc = Dvc()
    for n in ["motion_estimator", "motion_encoder", "motion_entropy_bottleneck", "motion_decoder", "motion_compensation", "residual_entropy_bottleneck"]:
        setattr(dvc, n, nn.Module())
    try:
        with _disable_current_modes():
            if k == 0:
                D.DvcModule(dvc, "0_unknown", "zoo", 3)
            elif k == 1:
                D.DvcModule(dvc, STAGES[1], "zoo", 3, distortion_type="L1")
            else:
                s = h.pyint("s", 0, 2)
                [U.DvcStage2, U.DvcStage3, U.DvcStage4and5][s](dvc, 1, U.LossFunctions(lambda a, b: a, None))
        ok = False
    except ValueError:
        ok = True
    h.claim("unknown stages and distortions, and coding without a rate, are refused", ok)


def instances(tier):
    deep = tier != "quick"
    out = []
    for stage in range(5):
        for train in (True, False):
            cfgs = [(1 + stage % 2, 1, (1, 1), stage % 2 == 0, 1)]
            if train and stage in (1, 4):
                cfgs.append((1, 2, (2, 1), True, 1))
            if not train and stage in (1, 2, 4):
                cfgs.append((1, 1, (1, 2), False, 1))
            if stage == 3 or deep:
                cfgs.append((1, 1, (1, 1), False, 2))
            if deep:
                cfgs.append((3, 1, (1, 1), True, 1))
            for n, b, hw, sc, gr in cfgs:
                out.append({"name": "steps/%s-%s-n%d-b%d-%dx%d-g%d" % (STAGES[stage][0], "train" if train else "val", n, b, hw[0], hw[1], gr), "group": "train" if train else "validate", "body": steps(stage, n, b, hw, train, sc, gr), "validate": 2, "timeout": 60, "budget": 100})
        out.append({"name": "loss/%s" % STAGES[stage][0], "group": "loss", "body": single(stage, 2, (2, 1)), "validate": 2, "timeout": 60})
        out.append({"name": "loss/%s-wide" % STAGES[stage][0], "group": "loss", "body": single(stage, 1, (1, 2)), "validate": 2, "timeout": 60})
        for sc in (True, False):
            out.append({"name": "parts/%s%s" % (STAGES[stage][0], "-sched" if sc else ""), "group": "parts", "body": parts(stage, sc), "validate": 2, "max_paths": 60})
    out.append({"name": "rejects", "body": rejects, "validate": 2})
    return out
