"""P36: rate-targeted and adversarial training: rate charged per image, every part trained on its own loss, honest logs."""
import math
import os
import sys
import types

import torch
from torch import nn
from torch.utils._python_dispatch import _disable_current_modes

from vlib import elem as E
from vlib import symten as T
from vlib.elem import is_sym
from vlib.harness import REPO
from vlib.objarr import Num, oarr, val

import checks.p34 as P  # stand-ins for packages that are not installed  # noqa: F401

BOUNDS = ("1..3 images of 2x2..3x2 pixels, 2 latent and 1..2 hyper-latent likelihoods per image, every likelihood in (0,1], every target, multiplier, training step and schedule of up to 3 changes; training and evaluation steps with every weight and loss value, "
          "with and without gradient clipping, latent projector, batch splitting, quantile optimiser, conditional and unconditional discriminators; metrics with every pixel in [-1,2]")
OUTSIDE = "the metrics' own values (P10, P11, P18, P19), the optimisers, lightning's trainer, float rounding"
ASSUMPTIONS = ["lightning, hydra and omegaconf are not installed: LightningModule is a recording stand-in whose manual_backward runs autograd", "model, discriminator and losses are small differentiable stand-ins with symbolic weights", "log axiomatised"]


def leaves(t):
    """the variables a backward pass from t would run into"""
    seen, todo, out = set(), [t.grad_fn], []
    while todo:
        f = todo.pop()
        if f is None or f in seen:
            continue
        seen.add(f)
        if hasattr(f, "variable"):
            out.append(f.variable)
        todo.extend(g for g, _ in f.next_functions)
    return out


class Lightning(nn.Module):
    device = torch.device("cpu")

    def log(self, name, v, **k):
        self.logged[name] = v

    def log_dict(self, d, **k):
        for a, b in d.items():
            self.log(a, b, **k)

    def optimizers(self):
        return self.opts

    def lr_schedulers(self):
        return self.scheds

    def manual_backward(self, loss):
        ev = {"what": "backward", "loss": loss, "flags": {n: p.requires_grad for n, p in self.parts.items()}}
        self.events.append(ev)
        for p in self.parts.values():
            p.grad = None
        ev["leaves"] = leaves(loss)
        live = [(n, p) for n, p in self.parts.items() if p.requires_grad]
        g = torch.autograd.grad(loss, [p for _, p in live], allow_unused=True, retain_graph=True)
        ev["grads"] = {n: x for (n, _), x in zip(live, g)}

    def clip_gradients(self, opt, gradient_clip_val=None, gradient_clip_algorithm=None):
        self.events.append({"what": "clip", "opt": opt.name, "val": gradient_clip_val, "alg": gradient_clip_algorithm})

    def on_load_checkpoint(self, c):
        return None


lt = P.mod("lightning")
lt.pytorch = P.mod("lightning.pytorch", LightningModule=Lightning)
sys.path.insert(0, os.path.join(REPO, "projects", "illm"))
import image_module as IM  # noqa: E402
import target_compression_module as TM  # noqa: E402
import gan_compression_module as GM  # noqa: E402
from neuralcompression import HyperpriorOutput  # noqa: E402
from neuralcompression.loss_fn import TargetRateConfig  # noqa: E402
import neuralcompression.functional as ncF  # noqa: E402

REALNCM = IM.ncm
H = None


class Metric(nn.Module):
    def __init__(self, *a, **k):
        super().__init__()
        self.args, self.pos, self.seen, self.resets, self.fail = k, a, [], 0, None

    def __call__(self, *a, **k):
        self.seen.append(("call", a, k))
        return self.value

    def update(self, *a, **k):
        self.seen.append(("update", a, k))

    def compute(self):
        if self.fail:
            raise self.fail
        return self.value

    def reset(self):
        self.resets += 1
        self.seen = []


class Tensors(nn.Module):
    """holds tensors that must not be registered"""


def module(h, cls, **kw):
    global H
    H = h
    IM.PeakSignalNoiseRatio = IM.MeanSquaredError = IM.MultiscaleStructuralSimilarity = IM.LearnedPerceptualImagePatchSimilarity = IM.FrechetInceptionDistance = Metric
    patch = []
    IM.ncm = types.SimpleNamespace(DeepImageStructureTextureSimilarity=Metric, FrechetInceptionDistance=Metric, FrechetInceptionDistanceSwAV=Metric, KernelInceptionDistance=Metric,
                                   update_patch_fid=lambda *a, **k: patch.append((a, k)), calc_psnr=REALNCM.calc_psnr, MultiscaleStructuralSimilarity=Metric)
    with _disable_current_modes():
        m = cls(**kw)
    m.logged, m.events, m.parts, m.patch = {}, [], {}, patch
    names = ["train_psnr", "train_mse", "train_msssim", "eval_psnr", "eval_mse", "eval_msssim", "eval_lpips", "eval_fid"]
    for i, n in enumerate(names):
        getattr(m, n).value = h.scalar("v_" + n, lo=0, hi=4, dtype=torch.float64)
    return m, names


TEST = ["test_mse", "test_msssim", "test_lpips", "test_dists", "test_fid", "test_fid_swav", "test_kid"]


def test_on(h, m, name):
    m.update_test_dataset_name(name)
    for n in TEST:
        v = h.scalar("v_" + n, lo=0, hi=4, dtype=torch.float64)
        getattr(m, n).value = (v, v) if n == "test_kid" else v


def cfg(target=0.5, tf=(1.0,), ts=(), lam=(0.25, 4.0), lf=(1.0,), ls=()):
    return TargetRateConfig(target, list(tf), list(ts), lam, list(lf), list(ls))


def step(h, m, name="g", hi=100):
    v = oarr(h.tensor(name, (), torch.int64, lo=0, hi=hi))[()]
    v = v if isinstance(v, Num) else int(v)
    m.trainer = types.SimpleNamespace(global_step=v)
    return v


class Toy(nn.Module):
    """a small model: parameters w (main), q (quantiles); outputs depend on w and the input"""

    def __init__(self):
        super().__init__()
        self.hyper_bottleneck = types.SimpleNamespace(loss=self._ql)
        self.log = []

    def setup(self, h, lik):
        self.w = h.param("w", (), dtype=torch.float64, lo=0.25, hi=2)
        self.q = h.param("q", (), dtype=torch.float64, lo=0.25, hi=2)
        self.lik, self.asked, self.updated, self.devs = lik, [], 0, []
        return self

    def _ql(self):
        return self.q * 3

    def forward(self, x):
        self.asked.append(x)
        b = x.shape[0]
        a = [t[:b] for t in self.lik]
        return HyperpriorOutput(image=x * self.w, latent=x[:, :1] * self.w + 0.5, latent_likelihoods=a[0] * self.w / 2, quantized_latent_likelihoods=a[1], hyper_latent=x[:, :1], hyper_latent_likelihoods=a[2] * self.w / 2, quantized_hyper_latent_likelihoods=a[3])

    def update(self, *a, **k):
        self.updated += 1

    def update_tensor_devices(self, s):
        self.devs.append(s)

    def collect_parameters(self):
        return {"w": self.w}.values(), {"q": self.q}.values()


class Opt:
    def __init__(self, name, params, ev):
        self.name, self.param_groups, self.ev = name, [{"params": list(params)}], ev

    def zero_grad(self, *a, **k):
        self.ev.append({"what": "zero", "opt": self.name})

    def step(self, *a, **k):
        self.ev.append({"what": "step", "opt": self.name})


class Sched:
    def __init__(self, name, ev):
        self.name, self.ev = name, ev

    def step(self):
        self.ev.append({"what": "sched", "opt": self.name})


def likes(h, b, nl=2, nh=1):
    mk = lambda n, k: h.tensor(n, (b, k), torch.float64, lo=0, hi=1, strict=True)  # noqa: E731
    return [mk("pl", nl), mk("pql", nl), mk("ph", nh), mk("pqh", nh)]


def bits(p):
    return p.reshape(p.shape[0], -1).log().sum(1) / -math.log(2)


def where(h, c, a, b):
    return torch.where(c, a, b)


def rate(b, hw, nl, nh, shape3=False):
    def body(h):
        m, _ = module(h, TM.TargetRateCompressionModule, model=nn.Module(), target_rate_config=cfg(), optimizer_config=None)
        g = step(h, m)
        target = h.scalar("target", lo=0.125, hi=4)
        l1, l2 = h.scalar("l1", lo=0, hi=4), h.scalar("l2", lo=0, hi=8)
        m.target_rate_config = types.SimpleNamespace(target_bpp=target, target_factors=[1.0], target_steps=[], lam_levels=(l1, l2), lam2_factors=[1.0], lam2_steps=[])
        p = likes(h, b, nl, nh)
        if shape3:
            p = [t.reshape(b, 1, -1, 1) for t in p]
        img = torch.zeros(b, 3, *hw)
        out = m.rate_loss(img, *p)
        pix = hw[0] * hw[1]
        lat, ql, hy, qh = [bits(t) / pix for t in p]
        tot, qtot = lat + hy, ql + qh
        lam = torch.where(qtot > target, torch.as_tensor(l2), torch.as_tensor(l1))
        for n, got, want in (("latent_bpp", out.latent_bpp, lat), ("quantized_latent_bpp", out.quantized_latent_bpp, ql), ("hyper_bpp", out.hyper_bpp, hy), ("quantized_hyper_bpp", out.quantized_hyper_bpp, qh), ("total_bpp", out.total_bpp, tot), ("quantized_total_bpp", out.quantized_total_bpp, qtot)):
            h.claim(n + " is the mean over images of the bits per pixel", h.close(got, want.mean()))
        h.claim("the rate loss charges each image by its own quantised rate", h.close(out.rate_loss, (lam * tot).mean()))
        h.claim("the target and multiplier used are reported", E.band(*[E.eq(x, y) for x, y in zip(els(h, [out.target, out.lam2]), els(h, [target, l2]))]) if h.symbolic else abs(float(out.target) - float(target)) < 1e-6 and abs(float(out.lam2) - float(l2)) < 1e-6)
    return body


def els(h, xs):
    from vlib.harness import elems
    return [e for x in xs for e in elems(x)]


def schedule(n):
    def body(h):
        m, _ = module(h, TM.TargetRateCompressionModule, model=nn.Module(), target_rate_config=cfg(), optimizer_config=None)
        g = step(h, m)
        base = h.scalar("base", lo=0.125, hi=4)
        f = [h.scalar("f%d" % i, lo=0.125, hi=4) for i in range(n + 1)]
        s = []
        for i in range(n):
            v = oarr(h.tensor("s%d" % i, (), torch.int64, lo=0, hi=100))[()]
            s.append(v if isinstance(v, Num) else int(v))
            if i:
                h.assume(E.lt(val(s[i - 1]), val(s[i])))
        r = m._get_scheduled_rate_param(base, list(f), list(s))
        k = sum(1 for x in s if (g >= x))
        h.claim("the factor of the stage the training step is in", h.close(torch.as_tensor(r), torch.as_tensor(base * f[k])))
    return body


def scheduled_rate(h):
    """target and multiplier follow their own schedules"""
    m, _ = module(h, TM.TargetRateCompressionModule, model=nn.Module(), target_rate_config=cfg(0.5, (2.0, 1.0, 0.25), (10, 40), (0.25, 4.0), (0.5, 1.0), (25,)), optimizer_config=None)
    g = step(h, m)
    p = likes(h, 1)
    out = m.rate_loss(torch.zeros(1, 3, 2, 2), *p)
    t = 1.0 if g < 10 else 0.5 if g < 40 else 0.125
    l2 = 2.0 if g < 25 else 4.0
    h.claim("scheduled target", float(out.target) == t)
    h.claim("scheduled multiplier", float(out.lam2) == l2)
    tot = (bits(p[0]) + bits(p[2])) / 4
    q = (bits(p[1]) + bits(p[3])) / 4
    h.claim("both take part in the loss", h.close(out.rate_loss, (torch.where(q > t, torch.tensor(l2, dtype=torch.float64), torch.tensor(0.25, dtype=torch.float64)) * tot).mean()))


class Dist(nn.Module):
    """stand-in distortion: distinguishes its arguments"""

    def __call__(self, image, reference):
        return (image - reference * 3).sum() * 0.125 + 1


def fake_metrics(m):
    """the quality metrics have their own instances"""
    calls = []
    m.log_quality_metrics = lambda *a, **k: calls.append((a, k))
    return calls


def imgs(h, b, hw=(2, 2), name="x"):
    return h.tensor(name, (b, 1) + tuple(hw), torch.float64, lo=0, hi=1)


def schedule_of(ev, opts, clip, part):
    """(every optimiser is zeroed, trained once, clipped as asked and stepped once, then its schedule advances; the backward pass of each)"""
    good, bw = True, {}
    at = lambda what, o=None: [i for i, e in enumerate(ev) if e["what"] == what and (o is None or e.get("opt") == o)]  # noqa: E731
    for o in opts:
        z, s, c, k = at("zero", o), at("step", o), at("sched", o), at("clip", o)
        if not (len(z) == len(s) == len(c) == 1 and len(k) == (1 if clip and o != "quant" else 0) and z[0] < s[0] < c[0]):
            good = False
            continue
        mine = [i for i in at("backward") if i < s[0] and ev[i]["grads"].get(part[o]) is not None and i > z[0]]
        if len(mine) != 1 or (k and not mine[0] < k[0] < s[0]):
            good = False
        if mine:
            bw[o] = ev[mine[-1]]
    return good and len(at("backward")) == len(opts) and len(at("step")) == len(opts), bw


def expect_rate(m, x, lik, b, w):
    p = [t[:b] for t in lik]
    pix = x.shape[-1] * x.shape[-2]
    ql, qh = bits(p[1]) / pix, bits(p[3]) / pix
    lat, hy = bits(p[0] * w / 2) / pix, bits(p[2] * w / 2) / pix
    lam = torch.where(ql + qh > 0.5, torch.tensor(4.0, dtype=torch.float64), torch.tensor(0.25, dtype=torch.float64))
    return (lam * (lat + hy)).mean(), lat, hy, ql, qh


def target_step(clip, evalp=None):
    def body(h):
        lamd = h.scalar("lamd", lo=0, hi=4)
        b = 2
        m, _ = module(h, TM.TargetRateCompressionModule, model=nn.Module(), target_rate_config=cfg(), optimizer_config=None, distortion_loss=Dist(), gradient_clip_val=clip, gradient_clip_algorithm="value" if clip else "norm")
        m.distortion_lam = lamd
        lik = likes(h, b)
        toy = Toy().setup(h, lik)
        m.model = toy
        step(h, m)
        m.parts = {"w": toy.w, "q": toy.q}
        m.opts = [Opt("model", [toy.w], m.events), Opt("quant", [toy.q], m.events)]
        m.scheds = [Sched("model", m.events), Sched("quant", m.events)]
        q = fake_metrics(m)
        x = imgs(h, b)
        if evalp:
            m.validation_step(x, 0) if evalp == "val" else m.eval_step(x, 0, evalp)
        else:
            m.training_step(x, 0)
        w = toy.w.detach()
        d = (x * w - x * 3).sum() * 0.125 + 1
        r, lat, hy, ql, qh = expect_rate(m, x, lik, b, w)
        total = lamd * d + r
        pre = evalp or "train"
        noisy = "noisy_" if not evalp else ""
        L = m.logged
        want = {"total_loss": total, "distortion_loss": d, "rate_loss": r, noisy + "total_bpp": (lat + hy).mean(), "quantized_total_bpp": (ql + qh).mean(), noisy + "hyper_bpp": hy.mean(), "quantized_hyper_bpp": qh.mean(),
                noisy + "latent_bpp": lat.mean(), "quantized_latent_bpp": ql.mean()}
        for n, v in want.items():
            h.claim("logged " + n, h.close(L[pre + "/" + n].detach(), v) if pre + "/" + n in L else False)
        h.claim("logged target and multiplier", L.get(pre + "/target") == 0.5 and L.get(pre + "/lam2") == 4.0)
        h.claim("quality metrics of this output and input", len(q) == 1 and q[0][1].get("prefix", q[0][0][2:3]) in (pre, (pre,)))
        if q:
            h.claim("compared with the input", h.close(q[0][0][1], x))
            h.claim("the reconstruction", h.close(q[0][0][0].image.detach(), x * w))
        if evalp:
            h.claim("evaluation trains nothing", m.events == [])
            return
        h.claim("logged quantile loss", h.close(L["train/quantile_loss"].detach(), toy.q.detach() * 3))
        good, bw = schedule_of(m.events, ["model", "quant"], clip, {"model": "w", "quant": "q"})
        h.claim("model and quantiles are each zeroed, trained and stepped once", good)
        if len(bw) != 2:
            return
        h.claim("the model is trained on distortion plus rate", h.close(bw["model"]["loss"].detach(), total))
        h.claim("the quantiles on the bottleneck's own loss", h.close(bw["quant"]["loss"].detach(), toy.q.detach() * 3))
        if clip:
            c = [e for e in m.events if e["what"] == "clip"][0]
            h.claim("gradients are clipped as configured", c["val"] == clip and c["alg"] == "value")
        # gradient with respect to w: distortion and both rates take part
        w_ = toy.w.requires_grad_(True)
        gw = torch.autograd.grad(lamd * ((x * w_ - x * 3).sum() * 0.125 + 1) + expect_rate(m, x, lik, b, w_)[0], w_)[0]
        h.claim("and its gradient reaches the weights", h.close(bw["model"]["grads"]["w"].detach(), gw) if bw["model"]["grads"].get("w") is not None else False)
    return body


class Disc(nn.Module):
    def __init__(self, cond):
        super().__init__()
        self.cond, self.asked = cond, []

    def setup(self, h):
        self.d = h.param("d", (), dtype=torch.float64, lo=0.25, hi=2)
        return self

    @property
    def is_conditional(self):
        return self.cond

    def forward(self, image, *context):
        if bool(context) != self.cond or len(context) > 1:
            raise TypeError("forward() takes %d arguments" % (1 + self.cond))
        self.asked.append((image, context))
        return self.value(image, *context)

    def value(self, image, context=None):
        y = image * self.d
        return y + context * 0.5 if context is not None else y


class GLoss(nn.Module):
    def __call__(self, logits, target):
        return logits.sum() * 0.25 + (target.to(torch.float64)).sum() * 0.5


class DLoss(nn.Module):
    def __call__(self, real_logits, fake_logits, target):
        return fake_logits.sum() * 0.5 - real_logits.sum() * 0.125 + target.to(torch.float64).sum() * 0.25


class Proj(nn.Module):
    def __call__(self, x):
        return x * 5 + 1


def gan(cond, mc, proj, quant, clip, evalp=False):
    def body(h):
        lamd, gwt = h.scalar("lamd", lo=0, hi=4), h.scalar("gw", lo=0, hi=4)
        B = 5 if mc else 2
        b = 2
        disc = Disc(cond)
        m, _ = module(h, GM.GANCompressionModule, model=nn.Module(), target_rate_config=cfg(), discriminator=disc, discriminator_loss=DLoss(), generator_loss=GLoss(), optimizer_config=None, distortion_loss=Dist(),
                      latent_projector=Proj() if proj else None, gradient_clip_val=clip, mc_sampling=mc)
        m.distortion_lam, m.generator_weight = lamd, gwt
        lik = likes(h, B if evalp else b)
        toy = Toy().setup(h, lik)
        m.model = toy
        disc.setup(h)
        step(h, m)
        m.parts = {"w": toy.w, "q": toy.q, "d": disc.d}
        m.opts = [Opt("model", [toy.w], m.events), Opt("disc", [disc.d], m.events)] + ([Opt("quant", [toy.q], m.events)] if quant else [])
        m.scheds = [Sched(o.name, m.events) for o in m.opts]
        ql_ = fake_metrics(m)
        xs = imgs(h, B, (1, 1))
        if evalp:
            m.validation_step(xs, 0)
        else:
            m.training_step(xs, 0)
        w, dd = toy.w.detach(), disc.d.detach()
        x = xs if evalp or not mc else xs[:b]
        real = xs[b:2 * b] if mc and not evalp else x
        tg = lambda v: (v * 5 + 1) if proj else torch.tensor(1.0, dtype=torch.float64)  # noqa: E731
        dval = lambda im, lat: im * dd + (lat * 0.5 if cond else 0)  # noqa: E731
        lat_of = lambda v: v * w + 0.5  # noqa: E731
        d = (x * w - x * 3).sum() * 0.125 + 1
        g = dval(x * w, lat_of(x)).sum() * 0.25 + tg(x).sum() * 0.5
        r, lat, hy, ql, qh = expect_rate(m, x, lik, x.shape[0], w)
        total = lamd * d + r + gwt * g
        pre = "val" if evalp else "train"
        L = m.logged
        n_ = "" if evalp else "noisy_"
        want = {"total_model_loss": total, "distortion_loss": d, "rate_loss": r, "generator_loss": g, n_ + "total_bpp": (lat + hy).mean(), "quantized_total_bpp": (ql + qh).mean(), n_ + "hyper_bpp": hy.mean(), "quantized_latent_bpp": ql.mean(), n_ + "latent_bpp": lat.mean(), "quantized_hyper_bpp": qh.mean()}
        for n, v in want.items():
            h.claim("logged " + n, h.close(torch.as_tensor(L[pre + "/" + n]).detach(), v) if pre + "/" + n in L else False)
        h.claim("logged target and multiplier", L.get(pre + "/target") == 0.5 and L.get(pre + "/lam2") == 4.0)
        h.claim("quality metrics of the generated images", len(ql_) == 1)
        if ql_:
            h.claim("compared with their inputs", h.close(ql_[0][0][1], x))
            h.claim("the reconstruction", h.close(ql_[0][0][0].image.detach(), x * w))
        if evalp:
            h.claim("evaluation trains nothing", m.events == [])
            return
        opts = ["model", "disc"] + (["quant"] if quant else [])
        good, bw = schedule_of(m.events, opts, clip, {"model": "w", "disc": "d", "quant": "q"})
        h.claim("generator, discriminator and quantiles are each zeroed, trained and stepped once", good)
        if len(bw) != len(opts):
            return
        dl = dval(x * w, lat_of(x)).sum() * 0.5 - dval(real, lat_of(real)).sum() * 0.125 + tg(real).sum() * 0.25
        h.claim("the generator is trained on distortion, rate and adversarial loss", h.close(bw["model"]["loss"].detach(), total))
        h.claim("the discriminator on real against generated images", h.close(bw["disc"]["loss"].detach(), dl))
        h.claim("logged discriminator loss", h.close(L["train/discriminator_loss"].detach(), dl))
        h.claim("the discriminator is frozen while the generator trains", bw["model"]["flags"]["w"] and not bw["model"]["flags"]["d"])
        h.claim("the generator is frozen while the discriminator trains", bw["disc"]["flags"]["d"] and not bw["disc"]["flags"]["w"])
        gd = (x * w).sum() * 0.5 - real.sum() * 0.125
        h.claim("training the discriminator does not reach back into the model", not any(v is toy.w for v in bw["disc"]["leaves"]))
        h.claim("the discriminator's gradient", h.close(bw["disc"]["grads"]["d"].detach(), gd) if bw["disc"]["grads"].get("d") is not None else False)
        w_ = toy.w.requires_grad_(True)
        gw = torch.autograd.grad(lamd * ((x * w_ - x * 3).sum() * 0.125 + 1) + expect_rate(m, x, lik, b, w_)[0] + gwt * dval(x * w_, lat_of(x)).sum() * 0.25, w_)[0]
        h.claim("the generator's gradient; the discriminator's context passes none", h.close(bw["model"]["grads"]["w"].detach(), gw) if bw["model"]["grads"].get("w") is not None else False)
        h.claim("generated images take no part of real images and the other way round", len(toy.asked) == (2 if mc else 1))
        if quant:
            h.claim("the quantiles on the bottleneck's own loss", h.close(bw["quant"]["loss"].detach(), toy.q.detach() * 3))
            h.claim("logged quantile loss", h.close(torch.as_tensor(L["train/quantile_loss"]).detach(), toy.q.detach() * 3))
        if clip:
            h.claim("gradients are clipped as configured", all(e["val"] == clip for e in m.events if e["what"] == "clip"))
    return body


def test_step(tuple_batch, b):
    def body(h):
        m, _ = module(h, TM.TargetRateCompressionModule, model=nn.Module(), target_rate_config=cfg(), optimizer_config=None, distortion_loss=Dist())
        toy = Toy().setup(h, likes(h, b))
        m.model = toy
        try:
            m.test_step(imgs(h, b, name="x0"), 0)
            h.claim("a data set must have been named", False)
        except ValueError:
            pass
        m.test_dataset_name = "kodak"
        q = fake_metrics(m)
        x = imgs(h, b, (2, 3))
        log = []
        toy.compress = lambda im, force_cpu=True: log.append(("c", im, force_cpu)) or ("packed", im)
        toy.decompress = lambda c, force_cpu=True: log.append(("d", c, force_cpu)) or c[1] * 2
        n = oarr(h.tensor("n", (), torch.int64, lo=1, hi=4096))[()]
        n = n if isinstance(n, Num) else int(n)
        keep = TM.pickle_size_of
        sized = []
        TM.pickle_size_of = lambda c: sized.append(c) or n
        try:
            out = m.test_step((x, "label") if tuple_batch else x, 0)
        finally:
            TM.pickle_size_of = keep
        h.claim("the images are compressed, then decompressed", [l[0] for l in log] == ["c", "d"] and log[1][1] is sized[0] if sized else False)
        h.claim("compressed images are the batch", h.close(log[0][1], x))
        want = val(n * 8) / E.to_frac(b * 6) if not h.symbolic else E.div(val(n * 8), b * 6)
        got = m.logged["test/kodak_bpp"]
        h.claim("rate is the size of the compressed representation per pixel", E.eq(val(got), want) if h.symbolic else abs(float(got) - float(want)) < 1e-9)
        d = (x * 2 - x * 3).sum() * 0.125 + 1
        h.claim("distortion of the decompressed images", h.close(torch.as_tensor(m.logged["test/kodak_test_distortion"]), d))
        h.claim("returned", h.close(torch.as_tensor(out), d))
        h.claim("quality metrics of the decompressed images", len(q) == 1 and q[0][1].get("dataset_name") == "kodak" and q[0][1].get("prefix") == "test")
        h.claim("against the batch", h.close(q[0][0][0], x * 2))
        h.claim("and the originals", h.close(q[0][0][1], x))
        m.on_test_epoch_start()
        h.claim("tables are rebuilt before testing", toy.updated == 1)
    return body


ALLM = ["train_psnr", "train_mse", "train_msssim", "eval_psnr", "eval_mse", "eval_msssim", "eval_lpips", "eval_fid"]


def quality(prefix, b, dataset=None, as_output=False):
    def body(h):
        m, nm = module(h, IM.ImageModule)
        if prefix == "test":
            test_on(h, m, dataset)
        x = h.tensor("x", (b, 3, 1, 1), torch.float32, lo=0, hi=1)
        y = h.tensor("y", (b, 3, 1, 1), torch.float32, lo=-1, hi=2)
        o = HyperpriorOutput(y, y, y, y, y, y, y) if as_output else y
        m.log_quality_metrics(o, x, prefix, dataset)
        pred = y.clamp(0.0, 1.0)
        p255, x255 = ncF.image_to_255_scale(pred), ncF.image_to_255_scale(x)
        pre = {"train": "train", "val": "eval", "test": "test"}[prefix]

        def got(n, a, b_, flat=False, kw=None):
            s = getattr(m, n).seen
            h.claim(n + " is updated once", len(s) == 1)
            if len(s) == 1:
                h.claim(n + " compares the prediction", h.close(s[0][1][0].reshape(-1), a.reshape(-1)))
                h.claim(n + " with the input", h.close(s[0][1][1].reshape(-1), b_.reshape(-1)))
        used = set()
        for n in ["psnr", "mse", "msssim"]:
            if prefix == "test" and n == "psnr":
                continue
            got(pre + "_" + n, p255, x255)
            used.add(pre + "_" + n)
        for n in ["psnr", "msssim"]:
            if prefix != "test" or n != "psnr":
                k = getattr(m, pre + "_" + n)
                h.claim(n + " is set up for images in [0,255]", 255 in list(k.pos) + list(k.args.values()))
        if prefix != "train":
            h.claim("LPIPS is set up for images in [0,1]", getattr(m, pre + "_lpips").args.get("normalize") is True)
            got(pre + "_lpips", pred, x)
            used.add(pre + "_lpips")
        if prefix == "test":
            got("test_dists", pred, x)
            used.add("test_dists")

        def fid(n):
            s = getattr(m, n).seen
            used.add(n)
            r = [e for e in s if e[2].get("real") is True]
            f = [e for e in s if e[2].get("real") is False]
            h.claim(n + " is given real and generated images once each", len(s) == 2 and len(r) == 1 and len(f) == 1)
            if len(r) == 1 and len(f) == 1:
                h.claim(n + " as bytes", r[0][1][0].dtype == torch.uint8 and f[0][1][0].dtype == torch.uint8)
                h.claim(n + " real", h.eq(r[0][1][0], ncF.image_to_255_scale(x, dtype=torch.uint8)))
                h.claim(n + " generated", h.eq(f[0][1][0], ncF.image_to_255_scale(pred, dtype=torch.uint8)))
        if prefix == "val":
            fid("eval_fid")
        if prefix == "test":
            if dataset.startswith(("clic", "div2k")):
                h.claim("patch statistics for high-resolution sets", len(m.patch) == 1)
                if len(m.patch) == 1:
                    k = m.patch[0][1]
                    h.claim("over all metrics", k["fid_metric"] is m.test_fid and k["fid_swav_metric"] is m.test_fid_swav and k["kid_metric"] is m.test_kid and k["patch_size"] == 256)
                    h.claim("patches of the inputs", h.close(k["input_images"], x))
                    h.claim("patches of the predictions", h.close(k["pred"], pred))
            else:
                h.claim("no patches otherwise", not m.patch)
                for n in ("test_fid", "test_fid_swav", "test_kid"):
                    fid(n)
        h.claim("no other metric is touched", all(not getattr(m, n).seen for n in ALLM + (TEST if prefix == "test" else []) if n not in used))
        key = (prefix + "/") + (dataset + "_" if dataset else "")
        L = m.logged
        if prefix == "train":
            h.claim("metrics are logged under their names", L[key + "psnr"] is m.train_psnr and L[key + "mse"] is m.train_mse and L[key + "ms_ssim"] is m.train_msssim)
        else:
            h.claim("metrics are logged under their names", (prefix == "test" or L[key + "psnr"] is m.eval_psnr) and L[key + "mse"] is getattr(m, pre + "_mse") and L[key + "ms_ssim"] is getattr(m, pre + "_msssim") and L[key + "lpips"] is getattr(m, pre + "_lpips"))
            want = getattr(m, pre + "_mse").value * (0.075 * 2**-5) + getattr(m, pre + "_lpips").value
            h.claim("HiFiC distortion combines squared error and perceptual distance", h.close(torch.as_tensor(L[key + "hific_distortion"]), torch.as_tensor(want)))
            if prefix == "test":
                h.claim("metrics are logged under their names too", L[key + "dists"] is m.test_dists and (key + "psnr") in L)
    return body


def hooks(h):
    kind = h.pyint("kind", 0, 3)
    m, nm = module(h, IM.ImageModule)
    both = h.pybool("test")
    if both:
        test_on(h, m, "kodak")
        before = [getattr(m, n) for n in TEST]
        m.update_test_dataset_name("clic")
        h.claim("naming another data set keeps the metrics", all(a is getattr(m, n) for a, n in zip(before, TEST)) and m.test_dataset_name == "clic")
    allm = ALLM + (TEST if both else [])
    [m.on_validation_epoch_start, m.on_test_epoch_start, m.reset_all_metrics, m.reset_all_metrics][kind]()
    h.claim("every metric is reset", all(getattr(m, n).resets == 1 for n in allm))
    fails = [None, IndexError("x"), ValueError("x"), KeyError("x")][h.pyint("fail", 0, 3)]
    m.eval_fid.fail = fails
    try:
        m.on_validation_epoch_end()
        ok = True
    except KeyError:
        ok = False
    h.claim("only the known start-up failures are ignored", ok == (not isinstance(fails, KeyError)))
    if ok:
        h.claim("the metric starts afresh", m.eval_fid.resets == 2)
        h.claim("and is logged when it could be computed", ("val/fid" in m.logged) == (fails is None) and (fails is not None or m.logged["val/fid"] is m.eval_fid.value))
    if both:
        name = ["kodak", "clic"][h.pyint("name", 0, 1)]
        m.update_test_dataset_name(name)
        m.on_test_epoch_end()
        L = m.logged
        if name == "kodak":
            h.claim("no distribution metrics for 24 images", L["test/kodak_fid"] == 0 and L["test/kodak_fid_swav"] == 0 and L["test/kodak_kid"] == 0)
        else:
            h.claim("distribution metrics are logged under their names", L["test/clic_fid"] is m.test_fid.value and L["test/clic_fid_swav"] is m.test_fid_swav.value and L["test/clic_kid"] is m.test_kid.value[0])


def optim(gan_, quant):
    """every optimiser gets its own parameters and every schedule its own optimiser"""
    def body(h):
        made = []

        class Inst:
            def __call__(self, c, **k):
                made.append((c, k))
                return (c, k)
        conf = types.SimpleNamespace(model_opt="mo", aux_opt="ao", model_opt_schedule="ms", aux_opt_schedule="as", discriminator_opt="do", discriminator_opt_schedule="ds")
        if gan_:
            d = Disc(True).setup(h)
            m, _ = module(h, GM.GANCompressionModule, model=nn.Module(), target_rate_config=cfg(), discriminator=d, discriminator_loss=DLoss(), generator_loss=GLoss(), optimizer_config=conf)
        else:
            m, _ = module(h, TM.TargetRateCompressionModule, model=nn.Module(), target_rate_config=cfg(), optimizer_config=conf)
        toy = Toy().setup(h, likes(h, 1))
        if not quant:
            toy.collect_parameters = lambda: ({"w": toy.w}.values(), {}.values())
        m.model = toy
        mods = (TM, GM)
        for k in mods:
            k.hydra = types.SimpleNamespace(utils=types.SimpleNamespace(instantiate=Inst()))
        opts, scheds = m.configure_optimizers()
        exp = [("mo", toy.w, "ms")] + ([("do", d.d, "ds")] if gan_ else []) + ([("ao", toy.q, "as")] if quant else [])
        h.claim("one optimiser per part, in the order the training step expects", [o[0] for o in opts] == [e[0] for e in exp])
        h.claim("one schedule per optimiser", [s[0] for s in scheds] == [e[2] for e in exp] and all(s[1]["optimizer"] is o for s, o in zip(scheds, opts)))
        h.claim("each with its own parameters", all([p is e[1] for p in list(o[1]["params"])] == [True] for o, e in zip(opts, exp)))
    return body


def instances(tier):
    deep = tier != "quick"
    out = []
    for b, hw, nl, nh, s in [(1, (2, 2), 2, 1, False), (2, (2, 3), 1, 1, False), (2, (1, 2), 2, 1, True)] + ([(3, (2, 2), 2, 2, True)] if deep else []):
        out.append({"name": "rate/b%d-%dx%d%s" % (b, hw[0], hw[1], "-map" if s else ""), "group": "rate", "body": rate(b, hw, nl, nh, s), "validate": 2, "timeout": 60})
    for n in (0, 1, 2, 3):
        out.append({"name": "schedule/%d" % n, "group": "schedule", "body": schedule(n), "validate": 2, "max_paths": 200})
    out.append({"name": "schedule/both", "group": "schedule", "body": scheduled_rate, "validate": 2, "timeout": 60})
    for c in (None, 0.5):
        out.append({"name": "target/train%s" % ("-clip" if c else ""), "group": "target", "body": target_step(c), "validate": 2, "timeout": 60, "budget": 300})
    out.append({"name": "target/val", "group": "target", "body": target_step(None, "val"), "validate": 2, "timeout": 60})
    for cond, mc, proj, quant, clip in [(True, True, True, True, None), (True, False, False, True, 1.0), (False, True, False, False, None), (False, False, True, True, None)] + ([(True, True, False, False, 0.5), (False, True, True, True, 2.0)] if deep else []):
        out.append({"name": "gan/%s%s%s%s%s" % ("c" if cond else "u", "-mc" if mc else "", "-proj" if proj else "", "-q" if quant else "", "-clip" if clip else ""), "group": "gan", "body": gan(cond, mc, proj, quant, clip), "validate": 2, "timeout": 60, "budget": 300})
    for cond in (True, False):
        out.append({"name": "gan/val-%s" % ("c" if cond else "u"), "group": "gan", "body": gan(cond, True, cond, True, None, True), "validate": 2, "timeout": 60})
    for t, b in ((False, 1), (True, 2)):
        out.append({"name": "test/%d" % b, "group": "test", "body": test_step(t, b), "validate": 2})
    for a in [("train", 1), ("val", 2, None, True), ("test", 1, "kodak"), ("test", 2, "clic2020"), ("test", 1, "div2k", True)]:
        out.append({"name": "quality/" + "-".join(map(str, a[:3])), "group": "quality", "body": quality(*a), "validate": 2, "timeout": 60})
    out.append({"name": "hooks", "body": hooks, "validate": 2, "max_paths": 200})
    for g, q in ((False, True), (True, True), (True, False)):
        out.append({"name": "optimisers/%s%s" % ("gan" if g else "target", "-q" if q else ""), "group": "optimisers", "body": optim(g, q), "validate": 2})
    return out
